""" C18: asset allocations and the returns they give. """
from hypothesis import strategies as st
from core import Check, rate

RULE = (
    "Cases are allocation strategies with random targets, equity bounds, "
    "transition periods and retirement plans evaluated over a range of ages, "
    "accounts of several people invested by a strategy over a scenario, and "
    "strategies built from settings; "
    "non-trivial = the equity share takes at least two different values")
ASSUMPTIONS = ["shares are compared to within 1e-9"]


def share_st():
    return st.one_of(
        st.sampled_from([0, 0, 1, 1, 0.5]),
        st.integers(0, 100).map(lambda k: k / 100))


@st.composite
def strategy_case(draw):
    low, high = sorted([draw(share_st()), draw(share_st())])
    kind = draw(st.sampled_from(['n-age', 'Transition to constant']))
    if kind == 'n-age':
        target = draw(st.one_of(
            st.sampled_from([100, 110, 125]), st.integers(0, 250),
            st.integers(0, 2500).map(lambda k: k / 10)))
    else:
        target = draw(st.one_of(share_st(), st.integers(0, 1000).map(
            lambda k: k / 1000)))
    return {
        'kind': kind, 'target': target, 'min': low, 'max': high,
        'defaults': draw(st.booleans()) and draw(st.booleans()),
        'standard': draw(st.integers(20, 90)),
        'period': draw(st.one_of(st.integers(1, 40), st.just(0))),
        'adjust': draw(st.booleans())}


@st.composite
def mix_case(draw):
    case = draw(strategy_case())
    case['ages'] = sorted(draw(st.lists(
        st.integers(0, 110), min_size=2, max_size=8, unique=True)))
    case['retire'] = sorted(draw(st.lists(
        st.integers(20, 100), min_size=1, max_size=3, unique=True)))
    return case


def build(case):
    from forecaster import AllocationStrategy
    if case['defaults']:
        return AllocationStrategy(case['kind'], case['target'])
    return AllocationStrategy(
        case['kind'], case['target'], min_equity=case['min'],
        max_equity=case['max'], standard_retirement_age=case['standard'],
        risk_transition_period=case['period'],
        adjust_for_retirement_plan=case['adjust'])


def config(case):
    if case['defaults']:
        return dict(case, min=0, max=1, standard=65, period=20, adjust=True)
    return case


def equity(case, age, retirement_age):
    """ The share of equities.  (A set, if more than one is acceptable.) """
    case = config(case)
    low, high, target = case['min'], case['max'], case['target']
    clip = lambda x: min(max(x, low), high)
    if case['kind'] == 'n-age':
        if case['adjust']:
            age = age + case['standard'] - retirement_age
        return [clip((target - age) / 100)]
    end = retirement_age if case['adjust'] else case['standard']
    left = end - age
    if case['period'] == 0:
        if left == 0:
            return [clip(high), clip(target)]
        return [clip(high if left > 0 else target)]
    done = min(max(1 - left / case['period'], 0), 1)
    return [clip(high + (target - high) * done)]


def valid(rec, case, mix, what):
    case = config(case)
    rec.ok(all(share >= -1e-12 for share in mix),
           "%s: negative share in %r", what, mix)
    rec.close(sum(mix), 1, what + ": total of %r" % (mix,), abs_=1e-9)
    rec.le(case['min'], mix.stocks, what + ": equities", abs_=1e-9)
    rec.le(mix.stocks, case['max'], what + ": equities", abs_=1e-9)


def mixes(case, rec):
    """ The mix at every age and retirement age. """
    strategy = build(case)
    seen = set()
    table = {}
    for retire in case['retire']:
        for age in case['ages']:
            mix = strategy(age, retirement_age=retire)
            what = "age %r, retiring at %r" % (age, retire)
            valid(rec, case, mix, what)
            want = equity(case, age, retire)
            rec.ok(any(abs(mix.stocks - w) < 1e-9 for w in want),
                   "%s: equities are %r, expected %r", what, mix.stocks,
                   want)
            rec.eq(mix.other, 0, what + ": other assets")
            rec.eq(tuple(strategy(age=age, retirement_age=retire)),
                   tuple(mix), what + ": again")
            table[age, retire] = mix.stocks
            seen.add(round(float(mix.stocks), 9))
    falling = (case['kind'] == 'n-age'
               or config(case)['target'] <= config(case)['max'])
    for retire in case['retire']:
        for a, b in zip(case['ages'], case['ages'][1:]):
            if falling:
                rec.le(table[b, retire], table[a, retire],
                       "equities at age %d and %d" % (b, a), abs_=1e-9)
    for age in case['ages']:
        for a, b in zip(case['retire'], case['retire'][1:]):
            if not config(case)['adjust']:
                rec.eq(table[age, a], table[age, b],
                       "equities if retiring at %d and %d" % (a, b))
            elif falling:
                rec.le(table[age, a], table[age, b],
                       "equities if retiring at %d and %d" % (a, b),
                       abs_=1e-9)
        if not config(case)['adjust']:
            rec.close(strategy(age).stocks, table[age, case['retire'][0]],
                      "equities without a retirement age", abs_=1e-9)
    rec.nontrivial(len(seen) > 1)
    rec.tag(case['kind'])
    rec.tag('adjusts', config(case)['adjust'] and len(seen) > 1)


# --------------------------------------------------------- custom mixes

@st.composite
def custom_case(draw):
    parts = [draw(st.integers(0, 20)) for _ in range(3)]
    if not any(parts):
        parts[draw(st.integers(0, 2))] = 1
    low, high = sorted([draw(share_st()), draw(share_st())])
    return {'parts': parts, 'min': low, 'max': high}


def custom(case, rec):
    """ Bounds apply to any strategy's mix, keeping other proportions. """
    from forecaster import AllocationStrategy
    from forecaster.strategy.allocation import AssetAllocation
    from forecaster.strategy.base import strategy_method
    total = sum(case['parts'])
    parts = [p / total for p in case['parts']]

    class Fixed(AllocationStrategy):
        """ A fixed mix. """
        @strategy_method('fixed')
        def strategy_fixed(self, *args, **kwargs):
            """ A fixed mix. """
            return AssetAllocation(*parts)

    strategy = Fixed('fixed', 0, min_equity=case['min'],
                     max_equity=case['max'])
    mix = strategy(40, retirement_age=65)
    case = dict(case, defaults=False)
    valid(rec, case, mix, "fixed mix %r" % (parts,))
    want = min(max(parts[0], case['min']), case['max'])
    rec.close(mix.stocks, want, "equities", abs_=1e-9)
    if parts[1] + parts[2] > 0:
        rec.close(mix.bonds, (1 - want) * parts[1] / (parts[1] + parts[2]),
                  "bonds in %r" % (mix,), abs_=1e-9)
    rec.nontrivial(want != parts[0])
    rec.tag('raised', want > parts[0])
    rec.tag('lowered', want < parts[0])
    rec.raises(ValueError, lambda: Fixed(
        'fixed', 0, min_equity=0.6, max_equity=0.5), "bounds out of order")
    rec.raises(ValueError, lambda: AllocationStrategy('fixed', 0),
               "strategy of another class")


# -------------------------------------------------------------- returns

@st.composite
def returns_case(draw):
    n = draw(st.integers(2, 12))
    rates = lambda: draw(st.one_of(rate(-0.3, 0.3), st.lists(
        rate(-0.3, 0.3), min_size=n, max_size=n)))
    people = draw(st.lists(st.fixed_dictionaries({
        'born': st.integers(1920, 1990), 'month': st.integers(1, 12),
        'retire': st.integers(40, 75)}), min_size=1, max_size=2))
    return {
        'strategy': draw(strategy_case()), 'first': draw(
            st.integers(1995, 2010)), 'n': n,
        'stocks': rates(), 'bonds': rates(), 'other': rates(),
        'people': people, 'balance': draw(st.integers(0, 100000)),
        'nper': draw(st.sampled_from([1, 12])),
        'custom': draw(st.booleans()) and draw(st.booleans())}


def returns(case, rec):
    """ Rates of return are averages weighted by each owner's mix. """
    from forecaster import (
        Account, AllocationStrategy, Person, Scenario)
    from forecaster.strategy.allocation import AssetAllocation
    from forecaster.strategy.base import strategy_method
    first, n = case['first'], case['n']

    def series(spec):
        if isinstance(spec, list):
            return {first + i: r for i, r in enumerate(spec)}
        return dict.fromkeys(range(first, first + n), spec)
    tables = [series(case[k]) for k in ('stocks', 'bonds', 'other')]
    scenario = Scenario(
        first, n, stock_return=case['stocks'], bond_return=case['bonds'],
        other_return=case['other'])
    if case['custom']:
        class Aging(AllocationStrategy):
            """ Includes other assets, depends on both ages. """
            @strategy_method('aging')
            def strategy_aging(self, age, *args, retirement_age=None,
                               **kwargs):
                """ A mix. """
                left = min(max(retirement_age - age, 0), 50) / 100
                return AssetAllocation(left, 0.5 - left / 2, 0.5 - left / 2)
        strategy = Aging('aging', 0)
    else:
        strategy = build(case['strategy'])

    def mix(person, year):
        age = year - person['born']
        if case['custom']:
            left = min(max(person['retire'] - age, 0), 50) / 100
            return [(left, 0.5 - left / 2, 0.5 - left / 2)]
        return [(s, 1 - s, 0) for s in equity(
            case['strategy'], age, person['retire'])]

    def wanted(person, year):
        return [sum(share * table[year] for share, table in zip(m, tables))
                for m in mix(person, year)]
    people = [Person(
        first, 'P%d' % i, birth_date='%d-%02d-15' % (p['born'], p['month']),
        retirement_date='%d-%02d-15' % (
            p['born'] + p['retire'], p['month']),
        raise_rate=0) if first <= p['born'] + p['retire'] else Person(
            first, 'P%d' % i,
            birth_date='%d-%02d-15' % (p['born'], p['month']),
            retirement_date='%d-%02d-15' % (
                p['born'] + p['retire'], p['month']))
        for i, p in enumerate(case['people'])]
    functions = [strategy.rate_function(p, scenario) for p in people]
    # Rates can be asked for in any order of year:
    seen = set()
    for year in list(scenario)[::-1] + list(scenario):
        for spec, function in zip(case['people'], functions):
            got = function(year)
            want = wanted(spec, year)
            rec.ok(any(abs(got - w) < 1e-9 for w in want),
                   "return in %d is %r, expected %r", year, got, want)
            seen.add(round(float(mix(spec, year)[0][0]), 9))
    # ...and are those of accounts, year by year:
    accounts = [Account(p, balance=case['balance'], rate=f,
                        nper=case['nper'])
                for p, f in zip(people, functions)]
    for year in scenario:
        for spec, account in zip(case['people'], accounts):
            want = wanted(spec, year)
            rec.eq(account.this_year, year, "year")
            rec.ok(any(abs(account.rate - w) < 1e-9 for w in want),
                   "account's rate in %d is %r, expected %r", year,
                   account.rate, want)
            if len(want) == 1:
                growth = (1 + want[0] / case['nper']) ** case['nper'] - 1
                rec.close(account.returns, account.balance * growth,
                          "returns in %d" % year, rel=1e-7)
        if year < first + n - 1:
            for obj in accounts + people:
                obj.next_year()
    for spec, account in zip(case['people'], accounts):
        for year in scenario:
            rec.ok(any(abs(account.rate_history[year] - w) < 1e-9
                       for w in wanted(spec, year)),
                   "rate on record for %d", year)
    rec.nontrivial(len(seen) > 1)
    rec.tag('two owners', len(people) > 1)
    rec.tag('other assets', case['custom'])


# -------------------------------------------------------------- changes

@st.composite
def changes_case(draw):
    n = draw(st.integers(2, 6))
    first = draw(st.integers(1995, 2010))
    year = st.integers(first, first + n - 1)
    rates = lambda: st.lists(rate(-0.3, 0.3), min_size=3, max_size=3)
    own = st.integers(0, 1)
    step = st.one_of(
        st.tuples(st.just('read'), own, year),
        st.tuples(st.just('read'), own, year),
        st.tuples(st.just('retire'), own, st.integers(30, 80)),
        st.tuples(st.just('born'), own, st.integers(1920, 1965)),
        st.tuples(st.just('owner'), own, own),
        st.tuples(st.just('scenario'), own, rates()),
        st.tuples(st.just('strategy'), own, strategy_case()),
        st.tuples(st.just('option'), own, st.sampled_from(
            ['target', 'min', 'max', 'adjust', 'standard']),
                  strategy_case()))
    return {
        'strategies': [draw(strategy_case()), draw(strategy_case())],
        'first': first, 'n': n, 'scenarios': [draw(rates()), draw(rates())],
        'people': [[draw(st.integers(1920, 1965)), draw(
            st.integers(30, 80))] for _ in range(2)],
        'steps': draw(st.lists(step.map(list), min_size=2, max_size=12))}


OPTIONS = {'target': 'target', 'min': 'min_equity', 'max': 'max_equity',
           'adjust': 'adjust_for_retirement_plan',
           'standard': 'standard_retirement_age'}


def changes(case, rec):
    """ Rates follow the owner, plan, scenario and strategy of the moment. """
    from forecaster import Person, Scenario
    first = case['first']

    def scenario(rates):
        return Scenario(first, case['n'], stock_return=rates[0],
                        bond_return=rates[1], other_return=rates[2])
    specs = [dict(config(s), defaults=False) for s in case['strategies']]
    rates = list(case['scenarios'])
    people = [Person(first, 'P%d' % i, birth_date='%d-06-15' % born,
                     retirement_date='%d-06-15' % (born + retire))
              for i, (born, retire) in enumerate(case['people'])]
    born = [p[0] for p in case['people']]
    retire = [p[1] for p in case['people']]
    strategies = [build(s) for s in specs]
    functions = [s.rate_function(p, scenario(r)) for s, p, r in zip(
        strategies, people, rates)]
    owner, seen = [0, 1], set()

    def read(i, year):
        mix = equity(specs[i], year - born[owner[i]], retire[owner[i]])
        want = [w * rates[i][0] + (1 - w) * rates[i][1] for w in mix]
        got = functions[i](year)
        rec.ok(any(abs(got - w) < 1e-9 for w in want),
               "return in %d is %r, expected %r", year, got, want)
        seen.add(round(float(got), 9))
    for step in case['steps']:
        kind, i = step[:2]
        if kind == 'read':
            read(i, step[2])
        elif kind == 'retire':
            retire[i] = step[2]
            people[i].retirement_age = step[2]
        elif kind == 'born':
            # (The retirement date is set again to keep to the age)
            born[i] = step[2]
            people[i].birth_date = '%d-06-15' % step[2]
            people[i].retirement_age = retire[i]
        elif kind == 'owner':
            owner[i] = step[2]
            functions[i].person = people[step[2]]
        elif kind == 'scenario':
            rates[i] = step[2]
            functions[i].scenario = scenario(step[2])
        elif kind == 'strategy':
            specs[i] = dict(config(step[2]), defaults=False)
            functions[i].allocation_strategy = strategies[i] = build(
                specs[i])
        else:
            new = dict(specs[i])
            new[step[2]] = config(step[3])[step[2]]
            if new['min'] <= new['max'] and (
                    step[2] != 'target' or step[3]['kind'] == new['kind']):
                specs[i] = new
                setattr(strategies[i], OPTIONS[step[2]], new[step[2]])
                rec.tag('option changed')
        for k in range(2):
            read(k, first)
            read(k, first + case['n'] - 1)
    rec.nontrivial(len(seen) > 2)


# -------------------------------------------------------------- settings

SETTINGS = {
    'kind': ('strategy', 'allocation_strategy'),
    'target': ('target', 'allocation_target'),
    'min': ('min_equity', 'allocation_min_equity'),
    'max': ('max_equity', 'allocation_max_equity'),
    'standard': ('standard_retirement_age', 'allocation_std_retirement_age'),
    'period': ('risk_transition_period', 'allocation_risk_trans_period'),
    'adjust': ('adjust_for_retirement_plan', 'allocation_adjust_retirement')}


@st.composite
def settings_case(draw):
    names = st.lists(st.sampled_from(sorted(SETTINGS)), unique=True)
    return {
        'settings': draw(mix_case()), 'changed': draw(mix_case()),
        'given': draw(strategy_case()), 'change': draw(names),
        'explicit': draw(names), 'canada': draw(st.booleans())}


def settings(case, rec):
    """ Strategies built by a forecaster are as set, unless as given. """
    from forecaster.canada.forecaster import ForecasterCanada
    from forecaster.canada.settings import SettingsCanada
    from forecaster.forecaster import Forecaster
    from forecaster.settings import Settings
    values = Settings() if not case['canada'] else SettingsCanada()
    forecaster = (ForecasterCanada if case['canada'] else Forecaster)(
        settings=values)
    current = dict(case['settings'])
    for name, (_, attr) in SETTINGS.items():
        setattr(values, attr, current[name])
    seen = set()

    def compare(explicit, what):
        want = dict(current, defaults=False)
        want.update({name: case['given'][name] for name in explicit})
        if want['min'] > want['max'] or (
                want['kind'] != 'n-age' and want['target'] > 1):
            return
        strategy = forecaster.build_allocation_strategy(**{
            SETTINGS[name][0]: want[name] for name in explicit})
        for retire in current['retire']:
            for age in current['ages']:
                mix = strategy(age, retirement_age=retire)
                wanted = equity(want, age, retire)
                rec.ok(any(abs(mix.stocks - w) < 1e-9 for w in wanted),
                       "%s: equities at %r, retiring at %r, are %r, "
                       "expected %r", what, age, retire, mix.stocks, wanted)
                seen.add(round(float(mix.stocks), 9))
        return strategy
    first = compare([], "as set")
    compare(case['explicit'], "with arguments")
    compare([], "as set, again")
    for name in case['change']:
        current[name] = case['changed'][name]
        setattr(values, SETTINGS[name][1], current[name])
    compare([], "as set anew")
    compare(case['explicit'], "set anew, with arguments")
    if first is not None:
        # Strategies built earlier don't change.
        for retire in current['retire']:
            for age in current['ages']:
                wanted = equity(
                    dict(case['settings'], defaults=False), age, retire)
                mix = first(age, retirement_age=retire)
                rec.ok(any(abs(mix.stocks - w) < 1e-9 for w in wanted),
                       "a strategy's equities after settings changed are "
                       "%r, expected %r", mix.stocks, wanted)
    rec.nontrivial(len(seen) > 1)
    rec.tag('changed', bool(case['change']))


CHECKS = [
    Check('mixes', mix_case, mixes, 2500, 50000,
          "mixes at each age match a reference and are valid"),
    Check('custom', custom_case, custom, 1500, 20000,
          "bounds apply to other strategies' mixes"),
    Check('returns', returns_case, returns, 1000, 20000,
          "returns are averages weighted by the owner's mix"),
    Check('changes', changes_case, changes, 800, 15000,
          "returns follow changes to people, scenarios and strategies"),
    Check('settings', settings_case, settings, 800, 15000,
          "strategies built by forecasters are as set or as given"),
]
