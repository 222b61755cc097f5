""" C21: high-precision mode computes the same results, in isolation. """
from decimal import Decimal, localcontext
from fractions import Fraction

from hypothesis import strategies as st
from core import Check, HarnessError, Violation, is_close, rate

RULE = (
    "Cases are computations with accounts, debts, Canadian accounts, taxes, "
    "scenarios, allocations, living expenses, plans and whole forecasts, run "
    "with ordinary numbers and with Decimals, alone and interleaved, and "
    "computations with inputs of more digits than a float can hold; "
    "non-trivial = at least three different non-zero results")
ASSUMPTIONS = [
    "in high-precision mode every non-integer input is a Decimal",
    "plans of transactions are made in units of 0.00001",
    "continuous compounding isn't exact (the base of the exponential is "
    "given as a float)"]
FIRST = 2000


class Mode:
    """ How numbers are represented. """

    def __init__(self, high):
        self.high = high
        self.kw = {'high_precision': Decimal} if high else {}

    def n(self, val):
        if isinstance(val, list):
            return [self.n(item) for item in val]
        if val is None or isinstance(val, (bool, str)) or not self.high:
            return val
        return Decimal(repr(val))


def numbers(val, path=''):
    """ Flattens a result into (path, leaf) pairs. """
    if isinstance(val, dict):
        # (Times are compared in order, since they're numbers as well)
        for i, key in enumerate(sorted(val)):
            yield '%s.key%d' % (path, i), key
            yield from numbers(val[key], '%s.%d' % (path, i))
    elif isinstance(val, (tuple, list)):
        yield path + '.len', len(val)
        for i, item in enumerate(val):
            yield from numbers(item, '%s.%d' % (path, i))
    else:
        yield path, val


def is_number(val):
    return isinstance(val, (int, float, Decimal)) \
        and not isinstance(val, bool)


# -------------------------------------------------------------- components
#
# Each is a generator which performs a computation step by step and yields
# labelled results, so that several can be interleaved.

# Exactly represented both ways, so that comparisons between amounts have
# the same outcome both ways:
def quarters(lo, hi):
    return st.one_of(
        st.integers(lo, hi), st.integers(4 * lo, 4 * hi).map(lambda k: k / 4))


eighth = st.integers(0, 8).map(lambda k: k / 8)
timing_st = st.one_of(
    st.none(),
    st.tuples(st.just('pairs'), st.lists(
        st.tuples(eighth, quarters(0, 8)), min_size=1, max_size=4,
        unique_by=lambda p: p[0])),
    st.tuples(st.just('when'), st.one_of(
        eighth, st.sampled_from(['start', 'end']))),
    st.tuples(st.just('freq'), st.sampled_from(
        ['A', 'SA', 'Q', 'M', 'BM', 'SM'])),
    st.tuples(st.just('both'), st.one_of(
        eighth, st.sampled_from(['start', 'end'])),
              st.sampled_from([1, 2, 4, 8, 12, 'Q', 'M']))).map(
                  lambda t: t if t is None else list(t))


def make_timing(spec, mode):
    from forecaster import Timing
    if spec is None:
        return None
    if spec[0] == 'pairs':
        return Timing({mode.n(t): mode.n(w) for t, w in spec[1]}, **mode.kw)
    if spec[0] == 'when':
        return Timing(mode.n(spec[1]), **mode.kw)
    if spec[0] == 'freq':
        return Timing(spec[1], **mode.kw)
    return Timing(mode.n(spec[1]), spec[2], **mode.kw)


timing_case = st.fixed_dictionaries({
    'timing': timing_st.filter(lambda t: t is not None),
    'flows': st.lists(st.tuples(eighth, quarters(-50, 50)), min_size=1,
                      max_size=5, unique_by=lambda p: p[0]),
    'total': quarters(-1000, 1000), 'default': st.booleans()})


def run_timing(spec, mode):
    from forecaster import Timing
    from forecaster.utility import transactions_from_timing
    timing = Timing(**mode.kw) if spec['default'] \
        else make_timing(spec['timing'], mode)
    yield 'timing', dict(timing)
    if sum(timing.values()) > 0:
        yield 'normalized', dict(timing.normalized())
        yield 'series', timing.time_series(mode.n(spec['total']))
        yield 'transactions', transactions_from_timing(
            timing, mode.n(spec['total']))
    flows = {mode.n(t): mode.n(v) for t, v in spec['flows']}
    yield 'from flows', dict(Timing(flows, **mode.kw))


nper_st = st.sampled_from([1, 1, 2, 4, 12, 365, 'M', 'BW', 'A', 'C', None])
account_rates = st.one_of(rate(-0.2, 0.3), st.lists(
    rate(-0.2, 0.3), min_size=6, max_size=6))
account_case = st.fixed_dictionaries({
    'balance': quarters(4096, 50000), 'rate': account_rates,
    'nper': nper_st, 'timing': timing_st,
    'years': st.lists(st.fixed_dictionaries({
        'flows': st.lists(st.tuples(st.one_of(
            eighth, st.sampled_from(['start', 'end'])), quarters(-64, 500)),
            max_size=3),
        'at': eighth, 'timing': timing_st, 'target': quarters(100, 60000),
        'limit': quarters(0, 2000), 'retime': st.one_of(
            st.none(), st.just('delete'), timing_st)}),
        min_size=1, max_size=4)})


def rates_by_year(spec, mode):
    if isinstance(spec, list):
        return {FIRST + i: mode.n(r) for i, r in enumerate(spec)}
    return mode.n(spec)


def run_account(spec, mode):
    from forecaster import Account
    account = Account(
        balance=mode.n(spec['balance']),
        rate=rates_by_year(spec['rate'], mode), nper=spec['nper'],
        initial_year=FIRST, owner=None,
        default_timing=make_timing(spec['timing'], mode), **mode.kw)
    for year in spec['years']:
        for when, amount in year['flows']:
            account.add_transaction(mode.n(amount), mode.n(when))
        yield from account_figures(account, year, mode)
        if year['retime'] == 'delete':
            del account.default_timing
        elif year['retime'] is not None:
            retime = make_timing(year['retime'], mode)
            if sum(retime.values()) > 0:
                account.default_timing = retime
        yield 'timing', dict(account.default_timing)
        yield 'default limits', (
            account.max_outflows(transaction_limit=mode.n(-year['limit'])),
            account.transactions_to_balance(mode.n(year['target'])))
        account.next_year()
    yield 'final', (account.balance, account.balance_history,
                    account.rate_history, account.returns_history,
                    {k: dict(v) for k, v in
                     account.transactions_history.items()})


def account_figures(account, year, mode):
    yield 'balance', (account.balance, account.rate)
    yield 'at time', account.balance_at_time(mode.n(year['at']))
    yield 'at end', account.balance_at_time('end')
    yield 'returns', (account.returns, account.taxable_income,
                      account.tax_withheld, account.tax_credit,
                      account.tax_deduction)
    yield 'flows', (account.inflows(), account.outflows(),
                    dict(account.transactions))
    timing = make_timing(year['timing'], mode)
    if timing is not None and not sum(timing.values()) > 0:
        timing = None
    limit = mode.n(year['limit'])
    for name in ('max_outflows', 'max_inflows', 'min_outflows',
                 'min_inflows'):
        method = getattr(account, name)
        yield name, (method(timing), method(timing, transaction_limit=limit))
    yield 'limits', (account.max_inflow(), account.min_inflow(),
                     account.max_outflow(mode.n(year['at'])),
                     account.min_outflow())
    if account.rate > -1:
        yield 'to balance', account.transactions_to_balance(
            mode.n(year['target']), timing)
        at = mode.n(year['at'])
        if account.balance_at_time(at) > 1 and year['target'] > 0:
            yield 'time', account.time_to_balance(mode.n(year['target']), at)


debt_case = st.fixed_dictionaries({
    'balance': quarters(4096, 50000), 'rate': rate(0, 0.2),
    'nper': nper_st, 'timing': timing_st, 'minimum': quarters(0, 500),
    'accelerated': st.one_of(st.none(), quarters(0, 500)),
    'years': st.lists(st.fixed_dictionaries({
        'flows': st.lists(st.tuples(eighth, quarters(0, 300)), max_size=3),
        'at': eighth, 'timing': timing_st, 'target': quarters(-60000, -100),
        'limit': quarters(0, 2000)}), min_size=1, max_size=3)})


def run_debt(spec, mode):
    from forecaster import Debt
    kwargs = dict(mode.kw)
    if spec['accelerated'] is not None:
        kwargs['accelerated_payment'] = mode.n(spec['accelerated'])
    debt = Debt(
        None, balance=-mode.n(spec['balance']), rate=mode.n(spec['rate']),
        nper=spec['nper'], initial_year=FIRST,
        minimum_payment=mode.n(spec['minimum']),
        default_timing=make_timing(spec['timing'], mode), **kwargs)
    for year in spec['years']:
        for when, amount in year['flows']:
            debt.add_transaction(mode.n(amount), mode.n(when))
        yield from account_figures(debt, year, mode)
        yield 'payments', (debt.minimum_payment, debt.accelerated_payment)
        debt.next_year()
    yield 'final', debt.balance_history


# (TFSA room is rounded to a multiple of 500, so leave out rates for which
# the unrounded amount is halfway between two of them)
inflation_rates = st.lists(
    rate(-0.02, 0.1).filter(lambda r: r != 0.05), min_size=24, max_size=24)


def make_scenario(rates, mode, year=FIRST):
    from forecaster import Scenario
    # (Canadian figures are adjusted from years up to 2018)
    return Scenario(year, len(rates), inflation={
        y: mode.n(rates[(y - year) % len(rates)])
        for y in range(1990, 2070)})


people_st = st.fixed_dictionaries({
    'income': quarters(0, 150000), 'raise': rate(-0.05, 0.1),
    'birth': st.integers(1930, 1980), 'tax': st.sampled_from(
        ['canada', 'flat', 'none'])})
canada_case = st.fixed_dictionaries({
    'person': people_st, 'inflation': inflation_rates,
    'kind': st.sampled_from(
        ['RRSP', 'TFSA', 'TaxableAccount', 'PrincipleResidence']),
    'first': st.integers(2016, 2030), 'balance': quarters(4096, 100000),
    'rate': rate(-0.05, 0.15), 'room': st.one_of(
        st.none(), quarters(0, 20000)), 'acb': st.one_of(
            st.none(), quarters(0, 50000)),
    'years': st.lists(st.fixed_dictionaries({
        'flows': st.lists(st.tuples(eighth, quarters(-64, 500)), max_size=3),
        'big': st.sampled_from([0, 0, -4000, -1000]), 'at': eighth,
        'timing': timing_st, 'target': quarters(100, 60000),
        'limit': quarters(0, 2000)}), min_size=1, max_size=4)})


def make_tax(kind, scenario, mode):
    from forecaster.canada.tax import TaxCanada
    from forecaster import Tax
    if kind == 'canada':
        return TaxCanada(scenario.inflation_adjust, 'BC', **mode.kw)
    if kind == 'flat':
        return Tax({FIRST: {mode.n(0): mode.n(0.25)}}, **mode.kw)
    return None


def make_person(spec, scenario, mode, name='A', **kwargs):
    from forecaster import Person
    return Person(
        scenario.initial_year, name, '%d-06-15' % spec['birth'],
        retirement_date='2090-12-31', gross_income=mode.n(spec['income']),
        raise_rate=mode.n(spec['raise']),
        tax_treatment=make_tax(spec['tax'], scenario, mode),
        **dict(mode.kw, **kwargs))


def run_canada(spec, mode):
    import forecaster.canada.accounts as module
    cls = getattr(module, spec['kind'])
    scenario = make_scenario(spec['inflation'], mode, spec['first'])
    person = make_person(spec['person'], scenario, mode)
    kwargs = dict(mode.kw)
    if spec['kind'] in ('RRSP', 'TFSA'):
        kwargs['inflation_adjust'] = scenario.inflation_adjust
        if spec['room'] is not None:
            kwargs['contribution_room'] = mode.n(spec['room'])
    elif spec['kind'] == 'TaxableAccount' and spec['acb'] is not None:
        kwargs['acb'] = mode.n(spec['acb'])
    account = cls(person, balance=mode.n(spec['balance']),
                  rate=mode.n(spec['rate']), **kwargs)
    names = {'RRSP': ['contribution_room'], 'TFSA': ['contribution_room'],
             'TaxableAccount': ['acb', 'capital_gain'],
             'PrincipleResidence': []}[spec['kind']]
    for i, year in enumerate(spec['years']):
        for when, amount in year['flows']:
            account.add_transaction(mode.n(amount), mode.n(when))
        if year['big'] and i == 0 and spec['balance'] > 10000:
            account.add_transaction(mode.n(year['big']), mode.n(0.5))
        yield 'own', [getattr(account, name) for name in names]
        yield from account_figures(account, year, mode)
        yield 'income', (person.gross_income, person.net_income,
                         person.tax_withheld)
        person.next_year()
        account.next_year()
    yield 'final', (account.balance_history, person.net_income_history,
                    [getattr(account, name) for name in names])


linked_case = st.fixed_dictionaries({
    'balances': st.lists(quarters(0, 20000), min_size=2, max_size=3),
    'rate': rate(-0.05, 0.15), 'limits': st.lists(
        quarters(0, 4000), min_size=4, max_size=4),
    'flows': st.lists(st.tuples(
        st.integers(0, 2), eighth, quarters(-100, 500)), max_size=4),
    'proposed': st.lists(st.tuples(
        st.integers(0, 2), eighth, quarters(-100, 500)), max_size=3),
    'timing': timing_st, 'cap': st.one_of(st.none(), quarters(0, 2000)),
    'years': st.integers(1, 3)})


def run_linked(spec, mode):
    """ Accounts which share limits. """
    from forecaster import LinkedLimitAccount, Person
    person = Person(FIRST, 'A', '1970-06-15', retirement_date='2090-12-31',
                    **mode.kw)
    sides = ('max_inflow', 'min_inflow', 'max_outflow', 'min_outflow')
    kwargs = dict(mode.kw)
    for side, limit in zip(sides, spec['limits']):
        limit = -limit if 'outflow' in side else limit
        kwargs[side + '_link'] = (person, side)
        kwargs[side + '_limit'] = mode.n(limit)
    accounts = [LinkedLimitAccount(
        person, balance=mode.n(balance), rate=mode.n(spec['rate']), **kwargs)
        for balance in spec['balances']]
    for year in range(spec['years']):
        for i, when, amount in spec['flows']:
            accounts[i % len(accounts)].add_transaction(
                mode.n(amount), mode.n(when))
        proposed = {}
        for i, when, amount in spec['proposed']:
            proposed.setdefault(accounts[i % len(accounts)], {})[
                mode.n(when)] = mode.n(amount)
        for account in accounts:
            timing = make_timing(spec['timing'], mode)
            yield 'limits', [
                getattr(account, side + '_limit') for side in sides]
            for side in sides:
                cap = spec['cap']
                if cap is not None and 'outflow' in side:
                    cap = -cap
                method = getattr(account, side + 's')
                yield side, [
                    dict(method(timing)),
                    dict(method(timing, transaction_limit=mode.n(cap))),
                    dict(method(timing, group_transactions=proposed))]
        for account in accounts:
            while account.this_year <= FIRST + year:
                account.next_year()


tax_case = st.fixed_dictionaries({
    'brackets': st.lists(st.tuples(
        quarters(1, 50000), rate(0, 0.6)), max_size=4,
        unique_by=lambda b: b[0]), 'lowest': rate(0, 0.4),
    'deduction': quarters(0, 5000), 'credit_rate': rate(0, 0.3),
    'inflation': inflation_rates, 'people': st.lists(
        people_st, min_size=1, max_size=3), 'couple': st.booleans(),
    'kind': st.sampled_from(['tax', 'canada']),
    'queries': st.lists(st.tuples(
        st.integers(0, 20), quarters(0, 200000), quarters(0, 3000),
        quarters(0, 3000)), min_size=1, max_size=4)})


def run_tax(spec, mode):
    from forecaster import Account, Tax
    from forecaster.tax import TaxMulti
    scenario = make_scenario(spec['inflation'], mode)
    if spec['kind'] == 'tax':
        brackets = {mode.n(t): mode.n(r) for t, r in spec['brackets']}
        brackets[mode.n(0)] = mode.n(spec['lowest'])
        tax = Tax({FIRST: brackets},
                  personal_deduction={FIRST: mode.n(spec['deduction'])},
                  credit_rate={FIRST: mode.n(spec['credit_rate'])},
                  inflation_adjust=scenario.inflation_adjust, **mode.kw)
    else:
        tax = make_tax('canada', scenario, mode)
    for later, income, deduction, credit in spec['queries']:
        year = FIRST + later
        income = mode.n(income)
        if spec['kind'] == 'tax':
            yield 'money', (tax(income, year), tax(
                income, year, deduction=mode.n(deduction),
                credit=mode.n(credit)))
        else:
            yield 'money', (tax(income, year), tax(
                income, year, federal_deduction=mode.n(deduction),
                provincial_credit=mode.n(credit)))
        yield 'schedule', (dict(tax.tax_brackets(year)),
                           dict(tax.accum(year)),
                           tax.personal_deduction(year))
        if income > 0:
            yield 'marginal', (tax.marginal_rate(income, year),
                               tax.marginal_bracket(income, year))
    people = [make_person(s, scenario, mode, str(i))
              for i, s in enumerate(spec['people'])]
    if spec['couple'] and len(people) > 1:
        people[0].spouse = people[1]
    # (Where spouses' incomes tie, rounding can decide who gets the credit.)
    amount = mode.n(spec['deduction'])
    relief = type('Relief', (Account,), {
        'tax_credit': property(lambda self: amount / 8),
        'tax_deduction': property(lambda self: amount / 4)})
    for person in people[1:]:
        relief(person, **mode.kw)
    yield 'people', (tax(people, FIRST), sorted(
        tax(p, FIRST) for p in people))
    # Likewise for several jurisdictions:
    multi = TaxMulti([tax] * 2 if spec['kind'] == 'tax'
                     else tax.jurisdictions)
    income = mode.n(spec['queries'][0][1])
    first = multi.jurisdictions[0]
    yield 'multi', (
        multi.tax_money(income, FIRST),
        multi.tax_money(income, FIRST, {first: amount}, {first: amount}),
        multi.tax_people(people, FIRST),
        multi.tax_spouses(people[:2], FIRST), multi.credit_rate(FIRST),
        sum(multi.tax_person(p, FIRST) for p in people),
        [multi.deduction(p, FIRST) for p in people],
        sum(multi.credit(p, FIRST) for p in people))
    yield 'timing', (dict(tax.payment_timing), dict(tax.refund_timing))


scenario_case = st.fixed_dictionaries({
    'inflation': inflation_rates, 'stocks': st.lists(
        rate(-0.3, 0.3), min_size=24, max_size=24),
    'bonds': rate(-0.1, 0.1), 'years': st.lists(
        st.tuples(st.integers(0, 23), st.integers(0, 23)), min_size=1,
        max_size=4), 'person': people_st,
    'strategy': st.sampled_from(['n-age', 'Transition to constant']),
    'target': st.integers(60, 140), 'min': rate(0, 0.5),
    'max': st.integers(50, 100).map(lambda k: k / 100), 'adjust': st.booleans(),
    'retire': st.integers(50, 80)})


def run_scenario(spec, mode):
    from forecaster import AllocationStrategy, Scenario
    scenario = Scenario(
        FIRST, 24, inflation=mode.n(spec['inflation']),
        stock_return=mode.n(spec['stocks']),
        bond_return=mode.n(spec['bonds']), other_return=mode.n(0))
    for a, b in spec['years']:
        a, b = FIRST + a, FIRST + b
        yield 'adjust', (scenario.inflation_adjust(a, b),
                         scenario.accumulation_function(a, b),
                         scenario.discount_rate(a))
    target = spec['target'] if spec['strategy'] == 'n-age' \
        else spec['target'] / 200
    strategy = AllocationStrategy(
        spec['strategy'], mode.n(target), min_equity=mode.n(spec['min']),
        max_equity=mode.n(spec['max']),
        adjust_for_retirement_plan=spec['adjust'], **mode.kw)
    person = make_person(spec['person'], scenario, mode)
    function = strategy.rate_function(person, scenario)
    for a, _ in spec['years']:
        yield 'allocation', tuple(strategy(
            age=20 + a * 3, retirement_age=spec['retire']))
        yield 'rate', function(FIRST + a)


living_case = st.fixed_dictionaries({
    'people': st.lists(people_st, min_size=1, max_size=3),
    'inflation': inflation_rates, 'kind': st.sampled_from([
        'Constant contribution', 'Constant living expenses',
        'Percentage of net income', 'Percentage of gross income',
        'Percentage of earnings growth',
        'Percentage of principal at retirement',
        'Percentage of net income at retirement',
        'Percentage of gross income at retirement']),
    'base': quarters(0, 60000), 'rate': rate(0, 1.2),
    'balance': quarters(0, 100000), 'years': st.integers(1, 4)})


def run_living(spec, mode):
    from forecaster import Account, LivingExpensesStrategy
    scenario = make_scenario(spec['inflation'], mode)
    people = [make_person(s, scenario, mode, str(i))
              for i, s in enumerate(spec['people'])]
    account = Account(people[0], balance=mode.n(spec['balance']),
                      rate=mode.n(0.03), **mode.kw)
    strategy = LivingExpensesStrategy(
        spec['kind'], base_amount=mode.n(spec['base']),
        rate=mode.n(spec['rate']),
        inflation_adjust=scenario.inflation_adjust, **mode.kw)
    for i in range(spec['years']):
        yield 'living', strategy(
            people=people, year=FIRST + i, retirement_year=FIRST)
        yield 'people', [(p.gross_income, p.net_income, p.tax_withheld)
                         for p in people]
        account.next_year()
        for person in people:
            person.next_year()


plan_case = st.fixed_dictionaries({
    'strategy': st.sampled_from(['Ordered', 'Weighted']),
    'weights': st.lists(st.integers(1, 5), min_size=4, max_size=4,
                        unique=True),
    'pool': st.lists(st.tuples(eighth, quarters(1, 5000)), min_size=1,
                     max_size=3, unique_by=lambda p: p[0]),
    'out': st.booleans(), 'balances': st.lists(
        quarters(0, 10000), min_size=4, max_size=4),
    'minimum': quarters(0, 500), 'threshold': st.one_of(
        st.none(), rate(0, 0.1)), 'debts': st.sampled_from(
            [None, 'Avalanche', 'Snowball']), 'rate': rate(0, 0.2)})


def run_plan(spec, mode):
    from forecaster import Account, Debt, TransactionStrategy
    from forecaster.strategy import DebtPaymentStrategy
    from forecaster.canada import RRSP, TFSA
    scenario = make_scenario([0] * 3, mode)
    person = make_person({'birth': 1960, 'income': 1000, 'raise': 0,
                          'tax': 'none'}, scenario, mode)
    balances = mode.n(spec['balances'])
    kwargs = dict(mode.kw, inflation_adjust=scenario.inflation_adjust,
                  contribution_room=mode.n(1000))
    accounts = [
        Account(person, balance=balances[0], **mode.kw),
        RRSP(person, balance=balances[1], **kwargs),
        TFSA(person, balance=balances[2], **kwargs)]
    debts = [Debt(person, balance=-balances[3], rate=mode.n(spec['rate']),
                  minimum_payment=mode.n(spec['minimum']), **mode.kw)]
    names = ['Account', 'RRSP', 'TFSA', 'Debt']
    pool = {mode.n(t): mode.n(v) for t, v in spec['pool']}
    if spec['debts'] is not None:
        strategy = DebtPaymentStrategy(spec['debts'], **mode.kw)
        plan = strategy(set(debts), pool)
        chosen = debts
    else:
        weights = dict(zip(names, mode.n(spec['weights'])))
        if spec['strategy'] == 'Ordered':
            weights = dict(zip(names, spec['weights']))
        threshold = {} if spec['threshold'] is None else {
            'high_interest_threshold': mode.n(spec['threshold'])}
        strategy = TransactionStrategy(
            spec['strategy'], weights, **dict(threshold, **mode.kw))
        chosen = accounts + (debts if not spec['out'] else [])
        if spec['out']:
            pool = {t: -v for t, v in pool.items()}
        plan = strategy(pool, set(chosen))
    for account in chosen:
        series = plan.get(account, {})
        for val in numbers(dict(series)):
            if isinstance(val[1], float) and mode.high:
                raise Violation("plan in high-precision mode: %r" % series)
        yield 'planned', sum(series.values())


forecast_case = st.fixed_dictionaries({
    'canada': st.booleans(), 'people': st.lists(
        people_st, min_size=1, max_size=2), 'years': st.integers(1, 5),
    'inflation': inflation_rates, 'balances': st.lists(
        quarters(0, 100000), min_size=5, max_size=5),
    'rates': st.lists(rate(0, 0.1), min_size=5, max_size=5),
    'living': quarters(0, 80000), 'retired': st.booleans()})


def run_forecast(spec, mode):
    from forecaster import Account, Debt
    from forecaster.canada import RRSP, TFSA, TaxableAccount
    from forecaster.canada.forecaster import ForecasterCanada
    from forecaster.canada.settings import SettingsCanada
    from forecaster.forecaster import Forecaster
    from forecaster.settings import Settings
    scenario = make_scenario(spec['inflation'], mode)
    people = []
    for i, s in enumerate(spec['people']):
        kind = 'canada' if spec['canada'] else 'flat'
        people.append(make_person(
            dict(s, tax=kind), scenario, mode, str(i)))
        if spec['retired']:
            people[-1].retirement_date = '%d-12-31' % (FIRST + 1)
    balances, rates = mode.n(spec['balances']), mode.n(spec['rates'])
    kwargs = dict(mode.kw, inflation_adjust=scenario.inflation_adjust)
    accounts = [
        RRSP(people[0], balance=balances[0], rate=rates[0], **kwargs),
        TFSA(people[0], balance=balances[1], rate=rates[1], **kwargs),
        TaxableAccount(people[-1], balance=balances[2], rate=rates[2],
                       **mode.kw),
        Account(people[-1], balance=balances[3], rate=rates[3], **mode.kw)]
    debts = [Debt(people[0], balance=-balances[4], rate=rates[4],
                  minimum_payment=mode.n(100), **mode.kw)]
    yield 'inputs', balances
    settings = (SettingsCanada if spec['canada'] else Settings)(**mode.kw)
    settings.initial_year = FIRST
    settings.num_years = spec['years']
    settings.inflation = mode.n(0.02)
    settings.living_expenses_base_amount = mode.n(spec['living'])
    settings.saving_weights = {'RRSP': 1, 'TFSA': 2, 'TaxableAccount': 3,
                               'Account': 4, 'Debt': 5}
    settings.withdrawal_weights = settings.saving_weights
    forecaster = (ForecasterCanada if spec['canada'] else Forecaster)(
        settings=settings, **mode.kw)
    yield 'built', forecaster.settings.num_years
    forecast = forecaster.run_forecast(
        set(people), set(accounts), set(debts))
    for name in ('income', 'living_expenses', 'savings', 'withdrawals',
                 'principal', 'tax'):
        yield name, getattr(forecast, name + '_history')
    for part, names in (
            (forecast.withdrawal_forecast, [
                'net_withdrawals', 'gross_withdrawals']),
            (forecast.tax_forecast, [
                'tax_owing', 'tax_withheld', 'tax_adjustment']),
            (forecast.income_forecast, [
                'carryover', 'asset_sale', 'gross_income', 'net_income',
                'tax_withheld']),
            (forecast.living_expenses_forecast, ['living_expenses']),
            (forecast.saving_forecast, [
                'debt_repayment', 'retirement_savings', 'total'])):
        for name in names:
            yield name, getattr(part, name + '_history')


# name: (cases, computation, relative tolerance, absolute tolerance)
COMPONENTS = {
    'timing': (timing_case, run_timing, 1e-9, 1e-6),
    'account': (account_case, run_account, 1e-9, 1e-6),
    'debt': (debt_case, run_debt, 1e-9, 1e-6),
    'canada': (canada_case, run_canada, 1e-9, 1e-6),
    'linked': (linked_case, run_linked, 1e-9, 1e-6),
    'tax': (tax_case, run_tax, 1e-9, 1e-6),
    'scenario': (scenario_case, run_scenario, 1e-9, 1e-6),
    'living': (living_case, run_living, 1e-9, 1e-6),
    'plan': (plan_case, run_plan, 1e-6, 1e-2),
    'forecast': (forecast_case, run_forecast, 1e-6, 1)}


def compare(rec, name, label, low, high):
    """ Compares an ordinary result with a high-precision one. """
    _, _, rel, abs_ = COMPONENTS[name]
    a, b = list(numbers(low)), list(numbers(high))
    what = '%s: %s' % (name, label)
    rec.ok(len(a) == len(b), "%s: %r in ordinary mode, %r in "
           "high-precision mode", what, low, high)
    scale = max([abs(float(v)) for _, v in a if is_number(v)
                 and abs(float(v)) != float('inf')], default=0)
    for (path, x), (_, y) in zip(a, b):
        if not is_number(x):
            rec.ok(x == y, "%s%s: %r and %r", what, path, x, y)
            continue
        rec.ok(isinstance(y, (int, Decimal)),
               "%s%s isn't in the high-precision type: %r", what, path, y)
        rec.close(y, x, what + path, rel=rel, abs_=abs_,
                  scale=scale if '.' in path else 0)


@st.composite
def computation_case(draw, names):
    name = draw(st.sampled_from(names))
    return {'name': name, 'spec': draw(COMPONENTS[name][0])}


def computation(case, rec):
    """ Both modes give the same results, in their own type. """
    name = case['name']
    run = COMPONENTS[name][1]
    low = list(run(case['spec'], Mode(False)))
    high = list(run(case['spec'], Mode(True)))
    rec.eq([label for label, _ in high], [label for label, _ in low],
           "results of " + name)
    for (label, x), (_, y) in zip(low, high):
        compare(rec, name, label, x, y)
    rec.tag(name)
    rec.nontrivial(is_rich(low))


def is_rich(results):
    found = {float(v) for _, result in results for _, v in numbers(result)
             if is_number(v)}
    return len(found - {0, 1}) >= 3


@st.composite
def interleaved_case(draw):
    names = sorted(set(COMPONENTS) - {'forecast'}) + ['account', 'canada']
    jobs = []
    for _ in range(draw(st.integers(1, 2))):
        name = draw(st.sampled_from(names))
        spec = draw(COMPONENTS[name][0])
        high = draw(st.booleans())
        jobs.append([name, spec, high])
        # The same numbers in the other mode, and others in the same mode:
        jobs.append([name, spec, not high])
        if draw(st.booleans()):
            jobs.append([name, draw(COMPONENTS[name][0]), high])
    return {'jobs': jobs, 'order': draw(st.lists(
        st.integers(0, len(jobs) - 1), max_size=40))}


def interleaved(case, rec):
    """ Concurrent computations don't affect one another. """
    jobs = case['jobs']
    alone = [list(COMPONENTS[name][1](spec, Mode(high)))
             for name, spec, high in jobs]
    running = [COMPONENTS[name][1](spec, Mode(high))
               for name, spec, high in jobs]
    together = [[] for _ in jobs]
    order = list(case['order'])
    while any(running):
        for i in order + list(range(len(jobs))):
            if running[i] is None:
                continue
            try:
                together[i].append(next(running[i]))
            except StopIteration:
                running[i] = None
    for (name, _, high), first, second in zip(jobs, alone, together):
        rec.eq([label for label, _ in second], [label for label, _ in first],
               "interleaved results of " + name)
        plan = name in ('plan', 'forecast')
        for (label, x), (_, y) in zip(first, second):
            for (path, a), (_, b) in zip(numbers(x), numbers(y)):
                what = '%s: interleaved %s%s' % (name, label, path)
                rec.ok(type(a) is type(b) or is_number(a) and is_number(
                    b) and not (isinstance(b, float) and high),
                    "%s: got %r, alone %r", what, b, a)
                if is_number(a) and plan:
                    rec.close(b, a, what, rel=1e-6, abs_=1e-2)
                elif is_number(a):
                    rec.ok(a == b or abs(a - b) <= abs(a) * (
                        Decimal('1e-18') if isinstance(a - b, Decimal)
                        else 1e-9), "%s: got %r, alone %r", what, b, a)
                else:
                    rec.eq(b, a, what)
    rec.tag('%d computations' % len(jobs))
    rec.tag('mixed', len({high for _, _, high in jobs}) > 1)
    rec.nontrivial(all(map(is_rich, alone)))


# --------------------------------------------------------------- exactness
#
# Inputs have up to 27 significant digits; a float holds fewer than 17. The
# expected values are worked out with 60 digits.

def digits(lo, hi):
    """ Text of numbers which can't be represented as floats. """
    scale = 10 ** 22
    return st.integers(int(lo * scale), int(hi * scale)).map(
        lambda k: str(Decimal(k).scaleb(-22)))


exact_case = st.fixed_dictionaries({
    'balance': digits(1000, 90000), 'rate': digits(-0.2, 0.3),
    'nper': st.sampled_from([1, 2, 4, 12]), 'flows': st.lists(
        st.tuples(st.integers(0, 12), digits(1, 500), st.booleans()),
        max_size=4), 'years': st.integers(1, 4),
    'at': st.integers(0, 12), 'debt': st.booleans(),
    'brackets': st.lists(st.tuples(
        digits(1, 90000), digits(0, 0.5)), min_size=1, max_size=4),
    'lowest': digits(0, 0.3), 'deduction': digits(0, 5000),
    'credit': digits(0, 5000), 'credit_rate': digits(0, 0.3),
    'income': digits(0, 200000), 'raise': digits(-0.1, 0.1),
    'inflation': st.lists(digits(-0.05, 0.1), min_size=6, max_size=6),
    'percent': digits(0, 1), 'target': digits(0.05, 0.9)})


def exact(case, rec):
    """ Extra digits are never lost. """
    from forecaster import (
        Account, AllocationStrategy, Debt, LivingExpensesStrategy, Person,
        Scenario, Tax)
    with localcontext() as context:
        context.prec = 60
        expected = list(exact_reference(case))
    with localcontext() as context:
        context.prec = 28
        actual = list(exact_actual(
            case, Account, AllocationStrategy, Debt, LivingExpensesStrategy,
            Person, Scenario, Tax))
    rec.eq([label for label, _ in actual], [label for label, _ in expected],
           "labels")
    for (label, got), (_, want) in zip(actual, expected):
        rec.ok(isinstance(got, Decimal), "%s is %r, not a Decimal", label,
               got)
        scale = max(abs(want), Decimal(1))
        rec.ok(abs(got - want) <= scale * Decimal('1e-20'),
               "%s: got %s, exactly %s", label, got, want)
    rec.tag('debt', case['debt'])
    rec.nontrivial(len({str(v) for _, v in actual} - {'0', '1'}) > 5)


def exact_actual(case, Account, AllocationStrategy, Debt,
                 LivingExpensesStrategy, Person, Scenario, Tax):
    high = {'high_precision': Decimal}
    number = Decimal
    sign = -1 if case['debt'] else 1
    scenario = Scenario(FIRST, 6, inflation=[
        number(r) for r in case['inflation']])
    for year in range(FIRST, FIRST + 6):
        yield 'inflation %d' % year, Decimal(1) * \
            scenario.inflation_adjust(year, FIRST)
    cls = Debt if case['debt'] else Account
    account = cls(None, balance=sign * number(case['balance']),
                  rate=number(case['rate']), nper=case['nper'],
                  initial_year=FIRST, **high)
    for _ in range(case['years']):
        for when, amount, out in case['flows']:
            amount = number(amount)
            if not case['debt'] and out:
                amount = -amount / 1000
            account.add_transaction(amount, number(when) / 12)
        yield 'balance', account.balance
        yield 'at', account.balance_at_time(number(case['at']) / 12)
        yield 'returns', account.returns
        yield 'inflows', account.inflows()
        yield 'outflows', account.outflows()
        account.next_year()
    yield 'final', account.balance
    brackets = {number(t): number(r) for t, r in case['brackets']}
    brackets[number(0)] = number(case['lowest'])
    tax = Tax({FIRST: brackets},
              personal_deduction={FIRST: number(case['deduction'])},
              credit_rate={FIRST: number(case['credit_rate'])},
              inflation_adjust=scenario.inflation_adjust, **high)
    for year in (FIRST, FIRST + 3):
        yield 'tax %d' % year, tax(number(case['income']), year)
        yield 'reduced tax %d' % year, tax(
            number(case['income']), year,
            deduction=number(case['deduction']),
            credit=number(case['credit']))
        yield 'deduction', tax.personal_deduction(year)
    person = Person(
        FIRST, 'A', '1970-01-01', retirement_date='2090-12-31',
        gross_income=number(case['income']),
        raise_rate=number(case['raise']), **high)
    living = LivingExpensesStrategy(
        'Percentage of gross income', rate=number(case['percent']), **high)
    constant = LivingExpensesStrategy(
        'Constant living expenses', base_amount=number(case['balance']),
        inflation_adjust=scenario.inflation_adjust, **high)
    for year in range(FIRST, FIRST + 4):
        yield 'income', person.gross_income
        yield 'net income', person.net_income
        yield 'living', living(people=[person], year=year)
        yield 'constant', constant(people=[person], year=year)
        person.next_year()
    # (The strategy that follows a target in retirement)
    allocation = AllocationStrategy(
        'Transition to constant', number(case['target']),
        min_equity=number(0), max_equity=number(1),
        standard_retirement_age=65, risk_transition_period=20, **high)
    for age in (40, 50, 57, 70):
        stocks, bonds, _ = allocation(age=age, retirement_age=65)
        yield 'stocks at %d' % age, stocks
        yield 'bonds at %d' % age, bonds


def exact_reference(case):
    number = Decimal
    sign = -1 if case['debt'] else 1
    index = [number(1)]
    for r in case['inflation']:
        index.append(index[-1] * (1 + number(r)))
    for year in range(FIRST, FIRST + 6):
        yield 'inflation %d' % year, index[year - FIRST]
    nper = case['nper']

    def growth(t):
        return (1 + number(case['rate']) / nper) ** (nper * t)
    balance = sign * number(case['balance'])
    for _ in range(case['years']):
        flows = []
        for when, amount, out in case['flows']:
            amount = number(amount)
            if not case['debt'] and out:
                amount = -amount / 1000
            flows.append((number(when) / 12, amount))
        net = {}
        for when, amount in flows:
            net[when] = net.get(when, 0) + amount
        yield 'balance', balance
        at = number(case['at']) / 12
        yield 'at', balance * growth(at) + sum(
            v * growth(at - t) for t, v in flows if t <= at)
        end = balance * growth(1) + sum(v * growth(1 - t) for t, v in flows)
        yield 'returns', end - balance - sum(v for _, v in flows)
        yield 'inflows', sum(
            (v for v in net.values() if v > 0), number(0))
        yield 'outflows', sum(
            (v for v in net.values() if v < 0), number(0))
        balance = end
    yield 'final', balance
    brackets = {number(t): number(r) for t, r in case['brackets']}
    brackets[number(0)] = number(case['lowest'])

    def tax(income, year, deduction=0, credit=0):
        rising = sorted((t * index[year - FIRST], r)
                        for t, r in brackets.items())
        total, income = number(0), number(income) - deduction
        for (low, r), (top, _) in zip(rising, rising[1:] + [(None, None)]):
            part = income if top is None else min(income, top)
            total += max(part - low, number(0)) * r
        return max(total - credit * number(case['credit_rate']), number(0))
    for year in (FIRST, FIRST + 3):
        yield 'tax %d' % year, tax(case['income'], year)
        yield 'reduced tax %d' % year, tax(
            case['income'], year, number(case['deduction']),
            number(case['credit']))
        yield 'deduction', number(case['deduction']) * index[year - FIRST]
    income = number(case['income'])
    for year in range(FIRST, FIRST + 4):
        yield 'income', income
        yield 'net income', income
        yield 'living', income * number(case['percent'])
        yield 'constant', number(case['balance']) * index[year - FIRST]
        income *= 1 + number(case['raise'])
    target = number(case['target'])
    for age in (40, 50, 57, 70):
        stocks = max(min(
            target + (1 - target) * number(65 - age) / 20, number(1)), target)
        yield 'stocks at %d' % age, stocks
        yield 'bonds at %d' % age, 1 - stocks


def many(lo, hi, **kwargs):
    return st.lists(digits(lo, hi), **kwargs)


carried_case = st.fixed_dictionaries({
    'equity': st.tuples(digits(0, 1), digits(0, 1)),
    'n': digits(70, 140), 'target': digits(0, 1),
    'ages': st.lists(st.integers(20, 100), min_size=1, max_size=4),
    'retires': st.integers(50, 75), 'money': many(
        0, 90000, min_size=4, max_size=4),
    'small': many(1, 400, min_size=3, max_size=3),
    'rates': many(-0.1, 0.2, min_size=6, max_size=6),
    'weights': st.lists(st.tuples(digits(0, 1), digits(0, 5)), min_size=1,
                        max_size=4, unique_by=lambda p: p[0]),
    'years': st.lists(st.integers(0, 5), min_size=1, max_size=3,
                      unique=True), 'when': st.integers(0, 12)})


def carried(case, rec):
    """ Every numeric input is used with all of its digits. """
    with localcontext() as context:
        context.prec = 28
        found = list(carried_figures(case))
    different = set()
    for label, got, want in found:
        rec.ok(isinstance(got, Decimal), "%s is %r, not a Decimal", label,
               got)
        scale = max(abs(want), Decimal(1))
        if scale == Decimal('Infinity'):
            rec.eq(got, want, label)
        else:
            rec.ok(abs(got - want) <= scale * Decimal('1e-20'),
                   "%s: got %s, exactly %s", label, got, want)
        different.add(str(got))
    rec.nontrivial(len(different) > 10)


def carried_figures(case):
    yield from carried_allocation(case)
    yield from carried_accounts(case)
    yield from carried_tables(case)
    yield from carried_forecast(case)


def carried_allocation(case):
    from forecaster import AllocationStrategy, Person, Scenario
    high = {'high_precision': Decimal}
    low, top = sorted(Decimal(e) for e in case['equity'])
    target, n = Decimal(case['target']), Decimal(case['n'])
    retires = case['retires']
    by_age = AllocationStrategy(
        'n-age', n, min_equity=low, max_equity=top,
        adjust_for_retirement_plan=False, **high)
    transition = AllocationStrategy(
        'Transition to constant', target, min_equity=low, max_equity=top,
        **high)
    yield 'n', by_age.target, n
    yield 'least equity', by_age.min_equity, low
    yield 'most equity', by_age.max_equity, top
    rates = [Decimal(r) for r in case['rates']]
    scenario = Scenario(FIRST, 6, stock_return=rates, bond_return=rates[1:]
                        + rates[:1], other_return=Decimal(0),
                        inflation=rates)
    for age in case['ages']:
        stocks, bonds, _ = by_age(age=age, retirement_age=retires)
        want = min(max((n - age) / 100, low), top)
        yield 'n-age stocks', stocks, want
        yield 'n-age bonds', bonds, 1 - want
        person = Person(
            FIRST, 'A', '%d-01-01' % (FIRST - age), gross_income=Decimal(0),
            retirement_date='%d-12-31' % (FIRST + 80), **high)
        # (The person's age only goes up by a year)
        rate_function = by_age.rate_function(person, scenario)
        for k in (0, 1):
            want = min(max((n - age - k) / 100, low), top)
            yield 'rate', rate_function(FIRST + k), (
                want * rates[k] + (1 - want) * rates[k + 1])
        # (After clipping, a target outside the limits has no effect; while
        # they change, stocks go from the most equity to the target.)
        stocks, bonds, _ = transition(age=age, retirement_age=retires)
        if age <= retires - 20:
            want = top
        elif age >= retires:
            want = target
        else:
            want = target + (top - target) * (retires - age) / 20
        want = min(max(want, low), top)
        yield 'transition stocks', stocks, want
        yield 'transition bonds', bonds, 1 - want


def carried_accounts(case):
    from forecaster import (
        Account, Debt, LinkedLimitAccount, Person, Timing)
    from forecaster.canada.accounts import RRSP, TFSA, TaxableAccount
    high = {'high_precision': Decimal}
    money = [Decimal(m) for m in case['money']]
    small = [Decimal(m) for m in case['small']]
    debt = Debt(None, balance=-money[0], rate=Decimal(0), nper=1,
                initial_year=FIRST, minimum_payment=small[0],
                accelerated_payment=small[1], **high)
    yield 'minimum payment', debt.minimum_payment, small[0]
    yield 'accelerated payment', debt.accelerated_payment, small[1]
    yield 'payment', debt.max_inflow(), min(money[0], small[0] + small[1])
    debt.minimum_payment = small[2]
    yield 'new payment', debt.minimum_payment, small[2]

    def person(name):
        return Person(
            FIRST, name, '1970-01-01', retirement_date='2060-12-31',
            gross_income=money[1], raise_rate=Decimal(0), **high)
    people = [person(name) for name in 'ABCD']
    linked = LinkedLimitAccount(
        people[0], balance=money[0], rate=Decimal(0), nper=1,
        max_inflow_link=(people[0], 'in'), max_inflow_limit=money[2],
        max_outflow_link=(people[0], 'out'), max_outflow_limit=-money[3],
        **high)
    yield 'limit', linked.max_inflow_limit, money[2]
    yield 'limit out', linked.max_outflow_limit, -money[3]
    linked.add_transaction(small[0], Decimal(case['when']) / 12)
    timing = Timing({Decimal(1): Decimal(1)}, **high)
    yield 'room left', sum(linked.max_inflows(timing).values()), max(
        money[2] - small[0], Decimal(0))
    yield 'at most', sum(
        linked.max_outflows(timing).values(), Decimal(0)), max(
            -money[3], -money[0] - small[0])
    yield 'limited', sum(linked.max_inflows(
        timing, transaction_limit=small[1]).values()), max(
            min(money[2] - small[0], small[1]), Decimal(0))
    for cls in (RRSP, TFSA):
        rooms = []
        for owner, paid in zip(people[1:3], small):
            account = cls(
                owner, balance=money[0], rate=Decimal(0), nper=1,
                contribution_room=money[3] + 1000,
                inflation_adjust=lambda *args, **kwargs: Decimal(1), **high)
            yield cls.__name__ + ' room', account.contribution_room, \
                money[3] + 1000
            account.add_transaction(paid, Decimal(case['when']) / 12)
            if cls is RRSP:
                yield 'deduction', account.tax_deduction, paid
                account.add_transaction(-paid / 2, Decimal(1) / 24)
                yield 'RRSP income', account.taxable_income, paid / 2
            account.next_year()
            rooms.append(account.contribution_room)
        yield cls.__name__ + ' carried', rooms[1] - rooms[0], \
            small[0] - small[1]
    taxable = TaxableAccount(
        people[3], balance=money[0] + 1000, rate=Decimal(case['rates'][0]),
        nper=1, acb=money[1], **high)
    yield 'acb', taxable.acb, money[1]
    taxable.add_transaction(-small[0], Decimal(0))
    cost = small[0] * money[1] / (money[0] + 1000)
    yield 'gain', taxable.capital_gain, small[0] - cost
    yield 'gain taxed', taxable.taxable_income, (small[0] - cost) / 2
    taxable.add_transaction(small[1], Decimal(1))
    taxable.next_year()
    yield 'next acb', taxable.acb, money[1] - cost + small[1]
    plain = Account(None, balance=money[0], rate={
        FIRST + i: Decimal(r) for i, r in enumerate(case['rates'])}, nper=1,
        initial_year=FIRST, **high)
    balance = money[0]
    for r in case['rates'][:-1]:
        yield 'rate of the year', plain.rate, Decimal(r)
        yield 'balance', plain.balance, balance
        balance *= 1 + Decimal(r)
        plain.next_year()


def carried_tables(case):
    from forecaster import (
        LivingExpensesStrategy, Scenario, Tax, Timing, TransactionStrategy)
    from forecaster.utility import extend_inflation_adjusted
    high = {'high_precision': Decimal}
    rates = [Decimal(r) for r in case['rates']]
    money = [Decimal(m) for m in case['money']]
    scenario = Scenario(FIRST, 6, inflation=rates, stock_return=rates[::-1],
                        bond_return=rates[1], other_return={
                            FIRST: rates[2]}, management_fees=rates[3])
    for i, r in enumerate(rates):
        yield 'inflation', scenario.inflation[FIRST + i], r
        yield 'stocks', scenario.stock_return[FIRST + i], rates[5 - i]
        yield 'bonds', scenario.bond_return[FIRST + i], rates[1]
    yield 'other', scenario.other_return[FIRST], rates[2]
    index = [Decimal(1)]
    for r in rates:
        index.append(index[-1] * (1 + r))
    start = {Decimal(0): abs(rates[0]), money[0] + 1: abs(rates[1])}
    tax = Tax({FIRST + 1: start},
              personal_deduction={FIRST + 2: money[1]},
              credit_rate={FIRST + 3: abs(rates[2])},
              inflation_adjust=scenario.inflation_adjust, **high)
    for i in case['years']:
        factor = index[i] / index[1]
        for got, want in zip(sorted(tax.tax_brackets(FIRST + i)),
                             sorted(start)):
            if want:
                yield 'bracket', got, want * factor
            yield 'rate', tax.tax_brackets(FIRST + i)[got], start[want]
        yield 'accumulated', max(tax.accum(FIRST + i).values()), (
            money[0] + 1) * factor * abs(rates[0])
        yield 'marginal', tax.marginal_rate(
            (money[0] + 1) * factor * 2, FIRST + i), abs(rates[1])
        yield 'deduction', tax.personal_deduction(FIRST + i), \
            money[1] * index[i] / index[2]
        yield 'credit rate', tax.credit_rate(FIRST + i), abs(rates[2])
        yield 'backwards', Decimal(1) * scenario.inflation_adjust(
            FIRST, FIRST + i), 1 / index[i]
        yield 'extended', extend_inflation_adjusted(
            {FIRST + 4: money[2]}, scenario.inflation_adjust, FIRST + i), \
            money[2] * index[i] / index[4]
    weights = {Decimal(t): Decimal(w) for t, w in case['weights']}
    if sum(weights.values()) > Decimal('0.1'):
        timing = Timing(weights, **high)
        for when, weight in weights.items():
            yield 'weight', timing[when], weight
        series = timing.time_series(money[3])
        for when, weight in weights.items():
            yield 'share', series[when], \
                money[3] * weight / sum(weights.values())
    living = LivingExpensesStrategy(
        'Percentage of earnings growth', base_amount=money[1],
        rate=abs(rates[0]), **high)
    yield 'living rate', living.rate, abs(rates[0])
    yield 'living amount', living.base_amount, money[1]
    strategy = TransactionStrategy(
        TransactionStrategy.strategy_ordered, {'Account': 1},
        high_interest_threshold=rates[0], **high)
    yield 'threshold', strategy.high_interest_threshold, rates[0]


def carried_forecast(case):
    from forecaster import LivingExpensesStrategy, Person
    from forecaster.forecast import IncomeForecast, LivingExpensesForecast
    high = {'high_precision': Decimal}
    money = [Decimal(m) for m in case['money']]
    person = Person(
        FIRST, 'A', '1970-01-01', retirement_date='2060-12-31',
        gross_income=money[0], raise_rate=Decimal(case['rates'][0]), **high)
    share = Decimal(case['target'])
    living = LivingExpensesStrategy(
        'Percentage of gross income', rate=share, **high)
    income = IncomeForecast(FIRST, {person}, **high)
    expenses = LivingExpensesForecast(FIRST, {person}, living, **high)
    available = {}
    income(available)
    expenses(available)
    yield 'income', income.net_income, money[0]
    yield 'expenses', expenses.living_expenses, money[0] * share
    yield 'pooled', sum(available.values()), money[0] * (1 - share)
    person.next_year()
    income.next_year()
    yield 'later income', income.gross_income, \
        money[0] * (1 + Decimal(case['rates'][0]))


def homogeneous_case():
    return st.fixed_dictionaries({
        'balance': digits(1000, 90000), 'rate': digits(-0.2, 0.3),
        'nper': st.sampled_from([1, 2, 4, 12, 365, 'C']),
        'flows': st.lists(st.tuples(st.integers(0, 7), digits(-100, 500)),
                          max_size=4), 'minimum': digits(0, 500),
        'target': digits(-500, 90000), 'limit': digits(0, 2000),
        'times': st.lists(st.tuples(st.integers(0, 7), digits(0, 5)),
                          min_size=1, max_size=4,
                          unique_by=lambda p: p[0]),
        'debt': st.booleans(), 'factor': digits(0.5, 2)})


def homogeneous(case, rec):
    """ Amounts multiplied by many-digit factors give multiplied results. """
    from forecaster import Account, Debt, Timing

    def results(factor):
        def amount(text):
            return Decimal(text) * factor
        if case['debt']:
            account = Debt(
                None, balance=-amount(case['balance']),
                rate=Decimal(case['rate']), nper=case['nper'],
                initial_year=FIRST, minimum_payment=amount(case['minimum']),
                accelerated_payment=amount(case['limit']),
                high_precision=Decimal)
        else:
            account = Account(
                None, balance=amount(case['balance']),
                rate=Decimal(case['rate']), nper=case['nper'],
                initial_year=FIRST, high_precision=Decimal)
        for when, val in case['flows']:
            account.add_transaction(amount(val), Decimal(when) / 8)
        timing = Timing({Decimal(t) / 8: Decimal(w) + 1
                         for t, w in case['times']}, high_precision=Decimal)
        for name in ('max_outflows', 'max_inflows', 'min_outflows',
                     'min_inflows'):
            yield name, getattr(account, name)(timing)
            yield name, getattr(account, name)(
                timing, transaction_limit=amount(case['limit']))
        yield 'to balance', account.transactions_to_balance(
            amount(case['target']), timing)
        yield 'figures', (account.returns, account.balance_at_time('end'),
                          account.max_outflow(), account.max_inflow())
        yield 'timing', Timing(
            {Decimal(t) / 8: amount(v) for t, v in case['flows']},
            high_precision=Decimal).time_series(amount(1)) \
            if [v for _, v in case['flows'] if Decimal(v) > 0] and not [
                v for _, v in case['flows'] if Decimal(v) < 0] else {}
    # (Round the factor so that it can be multiplied by exactly enough)
    factor = Decimal(case['factor'])
    for (label, x), (_, y) in zip(results(Decimal(1)), results(factor)):
        a, b = list(numbers(x)), list(numbers(y))
        rec.ok(len(a) == len(b), "%s: %r and %r", label, x, y)
        scale = Decimal(200000)
        for (path, u), (_, v) in zip(a, b):
            if 'key' in path or 'len' in path:
                rec.eq(v, u, label + path)
                continue
            rec.ok(isinstance(v, (Decimal, int)), "%s%s is %r", label,
                   path, v)
            if abs(u) == Decimal('Infinity'):
                rec.eq(v, u, label + path)
            else:
                rec.ok(abs(v - u * factor) <= scale * Decimal('1e-21'),
                       "%s%s: got %s, expected %s * %s", label, path, v, u,
                       factor)
    rec.nontrivial(len(case['flows']) > 0)
    rec.tag('debt', case['debt'])


# -------------------------------------------------------------- properties

property_case = st.fixed_dictionaries({
    'cached': st.booleans(), 'steps': st.lists(st.one_of(
        st.tuples(st.just('set'), st.integers(0, 2), st.one_of(
            st.none(), st.integers(-5, 5), st.integers(-50, 50).map(
                lambda k: k / 8))),
        st.tuples(st.just('get'), st.integers(0, 2)),
        st.tuples(st.just('mode'), st.integers(0, 2),
                  st.sampled_from([None, 'Decimal', 'Fraction']))),
        min_size=1, max_size=14)})
TYPES = {None: None, 'Decimal': Decimal, 'Fraction': Fraction}


def properties(case, rec):
    """ Properties are converted by each object's own mode. """
    from forecaster.utility.precision import (
        HighPrecisionOptional, HighPrecisionOptionalProperty,
        HighPrecisionOptionalPropertyCached)
    kind = HighPrecisionOptionalPropertyCached if case['cached'] \
        else HighPrecisionOptionalProperty

    class Example(HighPrecisionOptional):
        first = kind()
        second = kind()

        def __init__(self, first, **kwargs):
            super().__init__(**kwargs)
            self.first = first
            self.second = 2

    objects = [Example(5), Example(5, high_precision=Decimal),
               Example(6, high_precision=Fraction)]
    model = [[5, None], [5, 'Decimal'], [6, 'Fraction']]

    def expect(i, what):
        value, mode = model[i]
        for obj_value, got in ((value, objects[i].first),
                               (2, objects[i].second)):
            want = obj_value
            if want is not None and mode is not None:
                want = TYPES[mode](want)
            rec.ok(type(got) is type(want) and got == want,
                   "%s: object %d gives %r, expected %r", what, i, got, want)
            got = objects[i].precision_convert(1.5)
            want = 1.5 if mode is None else TYPES[mode](1.5)
            rec.ok(type(got) is type(want) and got == want,
                   "%s: object %d converts to %r, expected %r", what, i, got,
                   want)
    changes = 0
    for k, step in enumerate(case['steps']):
        what = 'step %d %r' % (k, step)
        i = step[1]
        if step[0] == 'set':
            objects[i].first = step[2]
            model[i][0] = step[2]
            changes += 1
        elif step[0] == 'mode':
            objects[i].high_precision = TYPES[step[2]]
            model[i][1] = step[2]
            changes += 1
        elif step[0] == 'get':
            expect(i, what)
        else:
            raise HarnessError(step[0])
    for i in range(3):
        expect(i, 'finally')
    rec.nontrivial(changes > 1)


SMALL = sorted(set(COMPONENTS) - {'forecast', 'plan'})

CHECKS = [
    Check('computation', lambda: computation_case(SMALL), computation,
          2000, 60000, "computations give the same results in both modes"),
    Check('forecasts', lambda: computation_case(['forecast', 'plan']),
          computation, 800, 16000,
          "plans and whole forecasts give the same results in both modes"),
    Check('interleaved', interleaved_case, interleaved, 400, 10000,
          "interleaved computations in both modes don't interfere"),
    Check('exact', lambda: exact_case, exact, 400, 10000,
          "results with more digits than a float can hold are exact"),
    Check('carried', lambda: carried_case, carried, 300, 8000,
          "every numeric input is used with all of its digits"),
    Check('homogeneous', homogeneous_case, homogeneous, 600, 15000,
          "amounts with many digits are scaled exactly"),
    Check('properties', lambda: property_case, properties, 600, 20000,
          "properties are converted (and cached) for each object alone"),
]
