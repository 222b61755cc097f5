""" C22: forecasts are repeatable and leave their inputs alone. """
from copy import deepcopy

from hypothesis import strategies as st
from core import Check, Violation, money, rate, unit
from props.c15 import FIRST, KINDS, build_household, household_case
from props.c19 import KINDS as LIVING_KINDS

RULE = (
    "Cases are histories of several forecasters (some sharing settings) and "
    "households: settings are changed, parameters are built, pinned and "
    "cleared, households are altered and forecasts are run in any order; "
    "every forecast is compared with one put together by hand from a new "
    "copy of the same household; non-trivial = at least two forecasts with "
    "different results")
ASSUMPTIONS = [
    "forecasts start in the year in which their households do",
    "accounts with equal priority are told apart by nothing but type (debts "
    "have different rates)",
    "results are equal up to rounding (sets have no order)"]
PARTS = ('income', 'living_expenses', 'saving', 'withdrawal', 'tax')
PARAMS = {
    'scenario': ('num_years', 'inflation', 'stock_return', 'bond_return',
                 'other_return', 'management_fees'),
    'living_expenses_strategy': ('strategy', 'base_amount', 'rate'),
    'saving_strategy': ('strategy', 'weights', 'debt_strategy'),
    'withdrawal_strategy': ('strategy', 'weights'),
    'tax_treatment': ('tax_brackets', 'personal_deduction', 'credit_rate',
                      'payment_timing')}
SETTINGS = {
    ('scenario', name): name for name in PARAMS['scenario']}
SETTINGS.update({
    ('living_expenses_strategy', 'strategy'): 'living_expenses_strategy',
    ('living_expenses_strategy', 'base_amount'):
        'living_expenses_base_amount',
    ('living_expenses_strategy', 'rate'): 'living_expenses_rate',
    ('saving_strategy', 'strategy'): 'saving_strategy',
    ('saving_strategy', 'weights'): 'saving_weights',
    ('saving_strategy', 'debt_strategy'): 'debt_payment_strategy',
    ('withdrawal_strategy', 'strategy'): 'withdrawal_strategy',
    ('withdrawal_strategy', 'weights'): 'withdrawal_weights',
    ('tax_treatment', 'tax_brackets'): 'tax_brackets',
    ('tax_treatment', 'personal_deduction'): 'tax_personal_deduction',
    ('tax_treatment', 'credit_rate'): 'tax_credit_rate',
    ('tax_treatment', 'payment_timing'): 'tax_payment_timing',
    ('tax_treatment', 'province'): 'tax_province'})

years_st = st.integers(1, 4)
weights_st = st.permutations([1, 2, 3, 4, 5]).map(
    lambda w: dict(zip(KINDS + ['Debt'], w)))
VALUES = {
    'num_years': years_st,
    'inflation': rate(-0.05, 0.2),
    'stock_return': rate(-0.05, 0.2),
    'bond_return': rate(-0.05, 0.2),
    'other_return': rate(-0.05, 0.2),
    'management_fees': rate(0, 0.2),
    'living_expenses_strategy': st.sampled_from(LIVING_KINDS[:5]),
    'living_expenses_base_amount': money(0, 60000),
    'living_expenses_rate': rate(0, 1.2),
    'saving_strategy': st.sampled_from(['Ordered', 'Weighted']),
    'saving_weights': weights_st,
    'debt_payment_strategy': st.sampled_from(['Avalanche', 'Snowball']),
    'withdrawal_strategy': st.sampled_from(['Ordered', 'Weighted']),
    'withdrawal_weights': weights_st,
    'tax_brackets': st.tuples(
        rate(0, 0.4), money(1, 40000), rate(0, 0.6)).map(
            lambda b: {FIRST: {0: b[0], b[1]: b[2]}}),
    'tax_personal_deduction': money(0, 20000).map(lambda v: {FIRST: v}),
    'tax_credit_rate': rate(0, 1).map(lambda v: {FIRST: v}),
    'tax_payment_timing': st.one_of(
        st.sampled_from(['start', 'end']), unit().filter(bool)),
    'tax_province': st.sampled_from(['BC'])}
NAMES = [n for n in sorted(VALUES) if n != 'tax_province']


def as_json(value):
    """ Mappings as lists of pairs (cases are written as JSON). """
    if isinstance(value, dict):
        return {'pairs': [[k, as_json(v)] for k, v in value.items()]}
    return value


def as_value(value):
    if isinstance(value, dict):
        return {k: as_value(v) for k, v in value['pairs']}
    return value


setting_st = st.sampled_from(NAMES).flatmap(
    lambda n: st.tuples(st.just(n), VALUES[n].map(as_json))).map(list)


@st.composite
def history_case(draw):
    households = draw(st.lists(household_case(), min_size=1, max_size=2))
    for household in households:
        for i, debt in enumerate(household['debts']):
            debt['rate'] += i / 1000
        if draw(st.booleans()):
            # Spouses with the same income
            for person in household['people'][1:]:
                for name in ('income', 'raise', 'retire', 'tax'):
                    person[name] = household['people'][0][name]
        household['canada'] = draw(st.booleans())
    shared = draw(st.integers(1, 2))
    settings = [{
        n: as_json(draw(VALUES[n])) for n in NAMES} for _ in range(shared)]
    forecasters = draw(st.lists(st.fixed_dictionaries({
        'settings': st.integers(0, shared - 1), 'canada': st.booleans()}),
        min_size=1, max_size=3))
    index = st.integers(0, 5)
    param = st.sampled_from(sorted(PARAMS))
    overrides = st.lists(setting_st, max_size=3)
    op = st.one_of(
        st.tuples(st.just('run'), index, index),
        st.tuples(st.just('run'), index, index),
        st.tuples(st.just('rerun'), index, index),
        st.tuples(st.just('set'), index, setting_st),
        st.tuples(st.just('set'), index, setting_st),
        st.tuples(st.just('pin'), index, param, overrides),
        st.tuples(st.just('build'), index, param, overrides),
        st.tuples(st.just('clear'), index, param),
        st.tuples(st.just('household'), index, index, unit(), money(0, 500)),
        st.tuples(st.just('result'), index, index, unit(), money(0, 500)))
    return {'households': households, 'settings': settings,
            'forecasters': forecasters,
            'ops': draw(st.lists(op.map(list), min_size=3, max_size=12))
            + [['run', draw(index), draw(index)]]}


# ------------------------------------------------------------ observation

def plain(value, label):
    """ A value with objects replaced by their labels. """
    if isinstance(value, dict):
        return {label(k): plain(v, label) for k, v in value.items()}
    if isinstance(value, (set, frozenset)):
        return sorted(str(label(v)) for v in value)
    if isinstance(value, (list, tuple)):
        return [plain(v, label) for v in value]
    return label(value)


HISTORIES = {}


def histories(cls):
    if cls not in HISTORIES:
        HISTORIES[cls] = sorted(
            n for n in dir(cls) if n.endswith('_history')
            and n[0] != '_')
    return HISTORIES[cls]


def figures(obj, label):
    """ Everything an object has recorded. """
    return {name: plain(dict(getattr(obj, name)), label)
            for name in histories(type(obj)) if name !=
            'transactions_history'}


def labels(people, accounts):
    table = {id(p): p.name for p in people}
    table.update({id(a): a.label for a in accounts})

    def label(value):
        if id(value) in table:
            return table[id(value)]
        return value
    return label


def members(forecast):
    """ (people, assets, debts) of a forecast. """
    return (forecast.income_forecast.people,
            forecast.saving_forecast.retirement_accounts,
            forecast.saving_forecast.debt_accounts)


def parts(forecast):
    return [getattr(forecast, name + '_forecast') for name in PARTS]


def outcome(forecast):
    """ Everything a forecast says. """
    people, assets, debts = members(forecast)
    accounts = list(assets) + list(debts)
    label = labels(people, accounts)
    said = {'forecast': figures(forecast, label)}
    for name, part in zip(PARTS, parts(forecast)):
        said[name] = figures(part, label)
    for person in people:
        said[person.name] = figures(person, label)
    for account in accounts:
        said[account.label] = figures(account, label)
        said[account.label]['transactions'] = {
            year: dict(series) for year, series in
            account.transactions_history.items()}
    return said


def same(rec, got, want, what, scale):
    if isinstance(want, dict) and isinstance(got, dict):
        if want and all(isinstance(k, float) or k == 0 or k == 1
                        for k in list(want) + list(got)):
            # (Cashflows: those which are negligible don't matter.)
            times = sorted(set(want) | set(got))
            for t in times:
                rec.close(got.get(t, 0), want.get(t, 0), "%s at %r" % (
                    what, t), scale=scale, abs_=1e-3)
            return
        rec.eq(sorted(got, key=str), sorted(want, key=str),
               "entries of " + what)
        for key in want:
            same(rec, got[key], want[key], "%s[%r]" % (what, key), scale)
    elif isinstance(want, (int, float)) and not isinstance(want, bool):
        rec.close(got, want, what, scale=scale, abs_=1e-3)
    else:
        rec.eq(got, want, what)


def links(people, accounts):
    """ Who owns what, who is married to whom, which room is shared. """
    label = labels(people, accounts)
    found = {}
    for person in people:
        found[person.name] = (
            label(person.spouse), sorted(
                str(label(a)) for a in person.accounts))
    for account in accounts:
        group = getattr(account, 'contribution_group', None)
        found[account.label] = (label(account.owner), type(account).__name__,
                                None if group is None else sorted(
                                    str(label(a)) for a in group))
    return found


def state(people, accounts):
    """ Everything that can be seen of a household. """
    label = labels(people, accounts)
    seen = {'links': links(people, accounts)}
    for person in people:
        seen[person.name] = dict(figures(person, label), **{
            name: plain(getattr(person, name), id) for name in (
                'this_year', 'initial_year', 'birth_date',
                'retirement_date', 'gross_income', 'net_income',
                'tax_withheld', 'tax_treatment', 'payment_timing')})
    for account in accounts:
        seen[account.label] = dict(figures(account, label), **{
            name: plain(deepcopy(getattr(account, name)), lambda v: v)
            for name in ('this_year', 'initial_year', 'balance', 'rate',
                         'nper', 'transactions', 'default_timing')})
        seen[account.label]['transactions_history'] = {
            year: dict(series) for year, series in
            account.transactions_history.items()}
        for name in ('contribution_room', 'minimum_payment'):
            if hasattr(account, name):
                seen[account.label][name] = getattr(account, name)
    # (Identities of dates and numbers mean nothing.)
    for person in people:
        for name in ('this_year', 'initial_year', 'birth_date',
                     'retirement_date', 'gross_income', 'net_income',
                     'tax_withheld'):
            seen[person.name][name] = getattr(person, name)
        seen[person.name]['payment_timing'] = dict(person.payment_timing)
    return seen


# -------------------------------------------------------------- the model

class Home:
    """ A household which can be built again as it is now. """

    def __init__(self, spec):
        self.spec = spec
        self.extra = []
        self.people, self.assets, self.debts = self.build()

    def build(self):
        from forecaster.canada.tax import TaxCanada
        from props.c09 import build as build_tax
        if self.spec['canada']:
            tax = TaxCanada(lambda *args: 1)
        else:
            tax, _, _ = build_tax(self.spec['tax'])
        people, assets, debts = build_household(self.spec, tax)
        for which, when, value in self.extra:
            (assets + debts)[which].add_transaction(value, when)
        return people, assets, debts

    def add(self, which, when, value):
        which %= len(self.assets + self.debts)
        self.extra.append((which, when, value))
        (self.assets + self.debts)[which].add_transaction(value, when)

    def state(self):
        return state(self.people, self.assets + self.debts)

    def scale(self):
        return 1 + sum(p['income'] for p in self.spec['people']) + sum(
            a['balance'] for a in self.spec['accounts'] + self.spec['debts'])


class Maker:
    """ A forecaster and what it ought to do. """

    def __init__(self, spec, settings, values):
        from forecaster.canada.forecaster import ForecasterCanada
        from forecaster.forecaster import Forecaster
        self.canada = spec['canada']
        self.values = values
        self.pinned = {}
        self.forecaster = (
            ForecasterCanada if self.canada else Forecaster)(
                settings=settings)

    def names(self, param):
        if param == 'tax_treatment' and self.canada:
            return ('province',)
        return PARAMS[param]

    def recipe(self, param, overrides=()):
        """ The arguments with which a parameter is built now. """
        given = {
            name: as_value(self.values[SETTINGS[param, name]])
            for name in self.names(param)}
        given.update(overrides)
        if param in ('living_expenses_strategy', 'tax_treatment'):
            # (Adjusted for inflation as in the scenario of the moment.)
            given['scenario'] = self.pinned.get(
                'scenario') or self.recipe('scenario')
        return given

    def overrides(self, param, drawn):
        found = {}
        for name in self.names(param):
            for setting, value in drawn:
                if SETTINGS[param, name] == setting:
                    found[name] = as_value(value)
        return found

    def make(self, param, recipe):
        """ The object a recipe describes. """
        from forecaster import (
            LivingExpensesStrategy, Scenario, Tax, TransactionStrategy)
        from forecaster.canada.tax import TaxCanada
        recipe = dict(recipe)
        if param == 'scenario':
            return Scenario(FIRST, **recipe)
        if param in ('saving_strategy', 'withdrawal_strategy'):
            return TransactionStrategy(**recipe)
        scenario = self.make('scenario', recipe.pop('scenario'))
        if param == 'living_expenses_strategy':
            return LivingExpensesStrategy(
                inflation_adjust=scenario.inflation_adjust, **recipe)
        return (TaxCanada if self.canada else Tax)(
            inflation_adjust=scenario.inflation_adjust, **recipe)

    def expected(self, home):
        """ The forecast, put together by hand. """
        from forecaster.forecast import (
            Forecast, IncomeForecast, LivingExpensesForecast, SavingForecast,
            TaxForecast, WithdrawalForecast)
        use = {param: self.make(
            param, self.pinned.get(param) or self.recipe(param))
               for param in PARAMS}
        people, assets, debts = home.build()
        people, assets, debts = set(people), set(assets), set(debts)
        return Forecast(
            IncomeForecast(FIRST, people),
            LivingExpensesForecast(
                FIRST, people, use['living_expenses_strategy']),
            SavingForecast(FIRST, assets, debts, use['saving_strategy']),
            WithdrawalForecast(
                FIRST, people, assets, use['withdrawal_strategy']),
            TaxForecast(FIRST, people, use['tax_treatment']),
            use['scenario'])

    def inputs(self):
        """ What the forecaster holds. """
        return {param: id(getattr(self.forecaster, param))
                for param in PARAMS}


def check_copies(rec, forecast, home):
    """ The forecast is of a faithful copy of the household. """
    people, assets, debts = members(forecast)
    rec.eq(links(people, list(assets) + list(debts)),
           links(home.people, home.assets + home.debts),
           "links of the copies")
    mine = {id(x) for x in home.people + home.assets + home.debts}
    rec.eq(mine & {id(x) for x in
                   list(people) + list(assets) + list(debts)}, set(),
           "objects in both household and forecast")
    rec.eq([len(people), len(assets), len(debts)],
           [len(home.people), len(home.assets), len(home.debts)],
           "members of the forecast")
    for part in parts(forecast):
        for name in ('people', 'accounts', 'retirement_accounts',
                     'debt_accounts'):
            if hasattr(part, name):
                want = people if name == 'people' else \
                    debts if name == 'debt_accounts' else assets
                rec.eq({id(x) for x in getattr(part, name)},
                       {id(x) for x in want},
                       "%s of %s" % (name, type(part).__name__))


def check_years(rec, forecast, years, early=0):
    for name, values in outcome(forecast)['forecast'].items():
        rec.eq(sorted(values), list(years), "years of %s" % name)
    for part in parts(forecast):
        rec.eq(part.this_year, years[-1], "last year of %s" %
               type(part).__name__)
        for name in histories(type(part)):
            rec.eq(sorted(getattr(part, name)), list(years), "years of %s"
                   % name)
    people, assets, debts = members(forecast)
    for obj in list(people) + list(assets) + list(debts):
        rec.eq(obj.this_year, years[-1], "last year of a copy")
        rec.eq(obj.initial_year, FIRST - early, "first year of a copy")


def history(case, rec):
    from forecaster.canada.settings import SettingsCanada
    values = [dict(s, tax_province='BC') for s in case['settings']]
    objects = []
    for drawn in values:
        settings = SettingsCanada()
        settings.initial_year = FIRST
        for name, value in drawn.items():
            setattr(settings, name, as_value(value))
        objects.append(settings)
    homes = [Home(spec) for spec in case['households']]
    makers = [Maker(spec, objects[spec['settings']],
                    values[spec['settings']])
              for spec in case['forecasters']]
    made = []

    def inputs():
        return ([h.state() for h in homes], [m.inputs() for m in makers],
                [deepcopy(s.values) for s in objects])

    def run(maker, home):
        before = inputs()
        forecast = maker.forecaster.run_forecast(
            set(home.people), set(home.assets), set(home.debts))
        rec.eq(inputs(), before, "the inputs after running a forecast")
        return forecast

    for op in case['ops']:
        kind = op[0]
        if kind in ('run', 'rerun'):
            maker, home = makers[op[1] % len(makers)], \
                homes[op[2] % len(homes)]
            scale = home.scale()
            forecast = run(maker, home)
            said = outcome(forecast)
            want = maker.expected(home)
            same(rec, said, outcome(want), "forecast", scale)
            scenario = maker.pinned.get('scenario') or maker.recipe(
                'scenario')
            years = range(FIRST, FIRST + scenario['num_years'])
            check_years(
                rec, forecast, years, home.spec.get('early', 0))
            check_copies(rec, forecast, home)
            for name in PARAMS['scenario']:
                got = getattr(forecast.scenario, name)
                rec.eq(got if name == 'num_years'
                       else got[FIRST + 1], scenario[name],
                       "%s in the forecast" % name)
            if kind == 'rerun':
                again = run(maker, home)
                same(rec, outcome(again), said, "second forecast", scale)
                mine = {id(x) for group in members(forecast) for x in group}
                theirs = {id(x) for group in members(again) for x in group}
                rec.eq(mine & theirs, set(), "objects in both forecasts")
                rec.tag('run twice')
            made.append((forecast, said))
        elif kind == 'set':
            which = op[1] % len(objects)
            name, value = op[2]
            setattr(objects[which], name, as_value(value))
            values[which][name] = value
            rec.tag('setting changed after a run', bool(made))
        elif kind in ('pin', 'build'):
            maker = makers[op[1] % len(makers)]
            chosen = maker.overrides(op[2], op[3])
            recipe = maker.recipe(op[2], chosen)
            before = inputs()
            if kind == 'build':
                maker.forecaster.build_param(op[2], **chosen)
                rec.eq(inputs(), before, "the inputs after building")
            else:
                maker.forecaster.set_param(op[2], **chosen)
                maker.pinned[op[2]] = recipe
                rec.tag('pinned')
        elif kind == 'clear':
            maker = makers[op[1] % len(makers)]
            setattr(maker.forecaster, op[2], None)
            maker.pinned.pop(op[2], None)
        elif kind == 'household':
            homes[op[1] % len(homes)].add(*op[2:])
            rec.tag('household changed after a run', bool(made))
        elif made:
            # Whatever happens to results doesn't affect other things.
            forecast = made.pop(op[1] % len(made))[0]
            before = inputs()
            _, assets, debts = members(forecast)
            accounts = sorted(list(assets) + list(debts),
                              key=lambda a: a.label)
            account = accounts[op[2] % len(accounts)]
            account.add_transaction(op[4], op[3])
            account.owner.next_year()
            account.next_year()
            rec.eq(inputs(), before, "the inputs after using results")
            rec.tag('result altered')
    for forecast, said in made:
        rec.eq(outcome(forecast), said, "an earlier forecast in the end")
    results = [said['forecast'] for _, said in made]
    rec.tag('canada', any(m.canada for m in makers))
    rec.nontrivial(any(r != results[0] for r in results[1:]))


# ------------------------------------------------------------------ copies

@st.composite
def copies_case(draw):
    household = draw(household_case())
    household['canada'] = draw(st.booleans())
    index = st.integers(0, 5)
    op = st.one_of(
        st.tuples(st.just('flow'), index, unit(), money(-2000, 2000)),
        st.tuples(st.just('flow'), index, unit(), money(-2000, 2000)),
        st.tuples(st.just('year')), st.tuples(st.just('year')),
        st.tuples(st.just('read')), st.tuples(st.just('read')),
        st.tuples(st.just('tax')),
        st.tuples(st.just('income'), index, money(0, 90000)),
        st.tuples(st.just('balance'), index, money(0, 50000)),
        st.tuples(st.just('room'), index, money(0, 30000)),
        st.tuples(st.just('marry'), index, index),
        st.tuples(st.just('divorce'), index),
        st.tuples(st.just('open'), index, st.sampled_from(KINDS)),
        st.tuples(st.just('follow'), index, index),
        st.tuples(st.just('reveal'), money(0, 90000)))
    return {
        'household': household, 'equity': draw(rate(0, 1)),
        'stocks': draw(rate(-0.1, 0.2)), 'bonds': draw(rate(-0.1, 0.2)),
        'before': draw(st.lists(op.map(list), max_size=8)),
        'after': draw(st.lists(st.tuples(
            st.integers(0, 2), op.map(list)), min_size=2, max_size=10))}


class Copied:
    """ A household whose people, accounts and plans are one object. """

    def __init__(self, case):
        from forecaster import AllocationStrategy, Scenario
        from forecaster.canada.tax import TaxCanada
        from props.c09 import build as build_tax
        spec = case['household']
        if spec['canada']:
            self.tax = TaxCanada(lambda *args: 1)
        else:
            self.tax, _, _ = build_tax(spec['tax'])
        self.people, assets, debts = build_household(spec, self.tax)
        self.accounts = assets + debts
        self.scenario = Scenario(
            FIRST, 40, stock_return=case['stocks'],
            bond_return=case['bonds'], inflation=0, other_return=0)
        self.strategy = AllocationStrategy(
            'n-age', target=100 * case['equity'], min_equity=0, max_equity=1)
        # (Changed by hand; the rates which follow it ask it each time.)
        self.scale = 1 + sum(p['income'] for p in spec['people']) + sum(
            a['balance'] for a in spec['accounts'] + spec['debts'])
        self.opened = 0
        self.year = FIRST

    def perform(self, op):
        from forecaster import Account
        from forecaster.canada import RRSP, TFSA, TaxableAccount
        kind = op[0]
        if kind in ('flow', 'balance', 'room', 'follow'):
            account = self.accounts[op[1] % len(self.accounts)]
        if kind in ('income', 'divorce', 'marry', 'open'):
            person = self.people[op[1] % len(self.people)]
        if kind == 'flow':
            account.add_transaction(op[3], op[2])
        elif kind == 'year':
            self.year += 1
            for obj in self.people + self.accounts:
                while obj.this_year < self.year:
                    obj.next_year()
        elif kind == 'read':
            self.seen()
        elif kind == 'tax':
            self.tax(set(self.people), self.people[0].this_year)
        elif kind == 'income':
            person.gross_income = op[2]
        elif kind == 'balance':
            account.balance = op[2]
        elif kind == 'room' and hasattr(account, 'contribution_room'):
            account.contribution_room = op[2]
        elif kind == 'follow':
            whose = self.people[op[2] % len(self.people)]
            account.rate_callable = self.strategy.rate_function(
                whose, self.scenario)
        elif kind == 'marry':
            other = self.people[op[2] % len(self.people)]
            if other is not person:
                person.spouse = other
        elif kind == 'divorce':
            person.spouse = None
        elif kind == 'open':
            kwargs = {}
            if op[2] in ('RRSP', 'TFSA'):
                kwargs = {'inflation_adjust': lambda *args, **kwargs: 1}
            new = {'Account': Account, 'RRSP': RRSP, 'TFSA': TFSA,
                   'TaxableAccount': TaxableAccount}[op[2]](
                       person, balance=100 + self.opened, **kwargs)
            self.opened += 1
            new.label = 'N%d' % self.opened
            self.accounts.append(new)
        elif kind == 'reveal':
            self.strategy.target = op[1] / 900

    def seen(self):
        """ Everything that can be seen (but whose tax treatment). """
        table = state(self.people, self.accounts)
        for person in self.people:
            del table[person.name]['tax_treatment']
            table[person.name]['tax'] = self.tax(
                {person}, person.this_year)
        for account in self.accounts:
            table[account.label]['most'] = {
                name: sum(method().values()) for name, method in (
                    ('in', account.max_inflows), ('out', account.min_outflows))
                if not any(abs(v) == float('inf') for v in method().values())}
        return table


def copies(case, rec):
    """ A copy made at any time goes its own way. """
    def replay(ops):
        world = Copied(case)
        for op in ops:
            world.perform(op)
        return world

    original = replay(case['before'])
    copy = deepcopy(original)
    mine = {id(x) for x in original.people + original.accounts}
    rec.eq(mine & {id(x) for x in copy.people + copy.accounts}, set(),
           "objects in both an original and its copy")
    worlds = [original, copy]
    ops = [list(case['before']), list(case['before'])]
    for who, op in case['after']:
        for i in (0, 1):
            if who in (i, 2):
                worlds[i].perform(op)
                ops[i].append(op)
    for world, history_, name in zip(worlds, ops, ('original', 'copy')):
        same(rec, world.seen(), replay(history_).seen(), "the " + name,
             world.scale)
    rec.tag('years before', any(op[0] == 'year' for op in case['before']))
    rec.tag('years after', any(op[0] == 'year' for _, op in case['after']))
    rec.tag('follows a strategy', any(
        op[0] == 'follow' for op in case['before']))
    rec.tag('opened after', any(op[0] == 'open' for _, op in case['after']))
    changes = [who for who, op in case['after']
               if op[0] not in ('read', 'tax')]
    rec.nontrivial(0 in changes or 1 in changes)


# ---------------------------------------------------------- long horizons

@st.composite
def horizon_case(draw):
    return {
        'long': draw(st.integers(60, 160)),
        'short': draw(st.lists(st.integers(1, 59), min_size=1, max_size=2)),
        'income': draw(money(20000, 90000)), 'raise': draw(rate(-0.02, 0.05)),
        'born': draw(st.integers(1930, 1999)),
        'retire': draw(st.integers(2001, 2060)),
        'balance': draw(money(0, 100000)), 'debt': draw(money(0, 20000)),
        'inflation': draw(rate(0, 0.05)), 'stocks': draw(rate(-0.02, 0.1)),
        'living': draw(money(0, 60000)),
        'strategy': draw(st.sampled_from(['Ordered', 'Weighted']))}


def horizon(case, rec):
    """ Longer forecasts begin with the years of shorter ones. """
    from forecaster import Account, Debt, Person
    from forecaster.forecaster import Forecaster
    from forecaster.settings import Settings
    person = Person(
        FIRST, 'A', case['born'], retirement_date=case['retire'],
        gross_income=case['income'], raise_rate=case['raise'])
    person.label = 'A'
    account = Account(person, balance=case['balance'], rate=case['stocks'])
    debt = Debt(person, balance=case['debt'], rate=0.05, minimum_payment=100)
    account.label, debt.label = 'account', 'debt'
    settings = Settings()
    settings.initial_year = FIRST
    settings.inflation = case['inflation']
    settings.living_expenses_strategy = 'Constant living expenses'
    settings.living_expenses_base_amount = case['living']
    settings.saving_strategy = settings.withdrawal_strategy = \
        case['strategy']
    settings.saving_weights = {'Debt': 1, 'Account': 2}
    settings.withdrawal_weights = {'Account': 1}
    forecaster = Forecaster(settings=settings)
    results = {}
    for years in [case['long']] + case['short']:
        settings.num_years = years
        forecast = forecaster.run_forecast({person}, {account}, {debt})
        check_years(rec, forecast, range(FIRST, FIRST + years))
        results[years] = outcome(forecast)
    full = results.pop(case['long'])
    for years, said in results.items():
        for label, table in said.items():
            for name, values in table.items():
                for year in values:
                    if year > FIRST + years - 1:
                        continue
                    what = "%s %s in %d of %d and %d years" % (
                        label, name, year, years, case['long'])
                    same(rec, full[label][name][year], values[year], what,
                         1e4 + abs(values[year]) if isinstance(
                             values[year], (int, float)) else 1e4)
    rec.nontrivial(case['long'] > 100)
    rec.tag('retires', case['retire'] < FIRST + case['long'])


CHECKS = [
    Check('history', history_case, history, 500, 15000,
          "forecasts in any order give what each alone would"),
    Check('copies', copies_case, copies, 400, 10000,
          "copies of households made at any time are faithful and apart"),
    Check('horizon', horizon_case, horizon, 24, 600,
          "longer forecasts begin with the years of shorter ones"),
]
