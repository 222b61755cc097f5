""" C14: cashflows between pools and accounts are double-entry. """
import collections
import itertools
from hypothesis import strategies as st
from core import Check, HarnessError, Violation, is_close, money, rate, unit
import acct
import models

RULE = (
    "Cases are sequences of cashflows, scripted (re-)runs, undos and yearly "
    "advances of two forecast components sharing several cash pools and "
    "accounts, and (re-)runs and undos of the income, living expense, saving "
    "and withdrawal components; non-trivial = a cashflow was moved to a "
    "later time, or a component was re-run or undone with cashflows recorded")
ASSUMPTIONS = [
    "cash pools are mappings of times to amounts (or bank accounts, for "
    "incomes and living expenses)",
    "where the source is an account (not a pool), the cashflow must be at or "
    "after the requested time, at the requested time when the balance then "
    "and later plainly permits, and, if nothing is withdrawn from the "
    "account otherwise, as soon as the balance suffices (provided that's no "
    "later than its last inflow)"]

FIRST = 2000


@st.composite
def step_st(draw, n_pools, n_accounts):
    entity = st.one_of(
        st.none(), st.integers(0, n_pools - 1),
        st.integers(0, n_pools + n_accounts - 1))
    src, dst = draw(entity), draw(entity)
    value = draw(st.one_of(money(-3000, 3000), st.sampled_from(
        [100, 250, 500, 1000, -100, -500])))
    strict = draw(st.booleans()) and draw(st.booleans())
    timing = draw(st.one_of(
        st.fixed_dictionaries({'kind': st.just('dict'), 'pairs': st.lists(
            st.tuples(unit(), st.one_of(
                st.just(1), st.integers(1, 8))).map(list),
            min_size=1, max_size=3, unique_by=lambda p: float(p[0]))}),
        acct.timing_spec()))
    actual = dst if value < 0 else src
    if actual is not None and actual >= n_pools and not strict:
        timing = {'kind': 'when', 'when': draw(unit())}
    return {'src': src, 'dst': dst, 'value': value, 'strict': strict,
            'timing': timing, 'how': draw(st.sampled_from(
                ['one', 'one', 'many']))}


@st.composite
def case_st(draw):
    n_pools, n_acc = draw(st.integers(1, 3)), draw(st.integers(0, 2))
    flow = st.tuples(unit(), st.one_of(
        money(-1000, 3000), st.sampled_from([100, 250, 500, 1000])))
    steps = st.lists(step_st(n_pools, n_acc), max_size=4)
    case = {
        'pools': draw(st.lists(st.fixed_dictionaries({
            'default': st.booleans(),
            'flows': st.lists(flow.map(list), max_size=5, unique_by=lambda p:
                              float(p[0]))}),
            min_size=n_pools, max_size=n_pools)),
        'accounts': draw(st.lists(st.fixed_dictionaries({
            'balance': st.one_of(st.just(0), money(0, 5000)),
            'rate': st.one_of(st.just(0), rate(-0.2, 0.3)),
            'nper': st.sampled_from([1, 'C', 12]),
            # The most that can be withdrawn in a year (if limited)
            'limit': st.one_of(st.none(), money(0, 3000)),
            'flows': st.lists(flow.map(list), max_size=3)}),
            min_size=n_acc, max_size=n_acc)),
        'timing': draw(st.one_of(st.none(), unit())),
        'ops': draw(st.lists(st.one_of(
            st.fixed_dictionaries({
                'op': st.just('add'), 'sf': st.integers(0, 1),
                'step': step_st(n_pools, n_acc)}),
            st.fixed_dictionaries({
                'op': st.just('call'), 'sf': st.integers(0, 1),
                'pool': st.integers(0, n_pools - 1), 'steps': steps}),
            st.fixed_dictionaries({
                'op': st.just('undo'), 'sf': st.integers(0, 1)}),
            st.fixed_dictionaries({
                'op': st.just('edit'), 'pool': st.integers(0, n_pools - 1),
                'flow': flow.map(list)}),
            st.fixed_dictionaries({
                'op': st.just('year'), 'clear': st.booleans()})),
            min_size=1, max_size=10))}
    return case


def same(actual, expected, abs_=1e-6):
    """ Whether two time series agree (absent is zero). """
    return all(
        is_close(actual.get(t, 0), expected.get(t, 0), abs_=abs_)
        for t in set(actual) | set(expected))


def shifts(pool, when, value):
    """ The acceptable times for drawing `value` from `pool`. """
    times = sorted({when} | {t for t in pool if t >= when})
    spare = {
        t: min(sum(v for s, v in pool.items() if s <= r)
               for r in times if r >= t) - value
        for t in times}
    # (A shortfall of no more than rounding error doesn't count)
    tol = 1e-9 * max([1, abs(value)] + [abs(v) for v in pool.values()])
    plain = min((t for t in times if spare[t] >= -tol), default=None)
    close = {t for t in times if -3e-5 - tol <= spare[t] < -tol
             and (plain is None or t < plain)}
    return close | {when if plain is None else plain}


def cashflows(case, rec):
    """ Double-entry, shifting, re-running, undoing and history. """
    from forecaster import Account, Timing
    from forecaster.forecast.subforecast import SubForecast
    n_pools = len(case['pools'])
    owner = acct.person(FIRST)
    real, model = [], []
    for spec in case['pools']:
        real.append(collections.defaultdict(lambda: 0)
                    if spec['default'] else {})
        for t, v in spec['flows']:
            real[-1][t] = v
        model.append(dict(real[-1]))
    class Limited(Account):
        """ An account from which little may be withdrawn. """
        limit = None

        @property
        def max_outflow_limit(self):
            if self.limit is None:
                return super().max_outflow_limit
            return -self.limit

    for spec in case['accounts']:
        real.append((Account if spec['limit'] is None else Limited)(
            owner, balance=spec['balance'], rate=spec['rate'],
            nper=spec['nper']))
        real[-1].limit = spec['limit']
        model.append({})
        for t, v in spec['flows']:
            real[-1].add_transaction(v, when=t)
            model[-1][t] = model[-1].get(t, 0) + v

    def index(key):
        if key is None:
            return None
        for i, obj in enumerate(real):
            if obj is key:
                return i
        raise Violation("a record is kept for unknown account %r" % (key,))

    class Component(SubForecast):
        """ Records a scripted list of cashflows when called. """
        steps = ()

        def __call__(self, available):
            super().__call__(available)
            rec.close(self.total_available, sum(available.values()),
                      "total available")
            check("undoing the earlier run")
            for each in self.steps:
                step(self, each)

    default = None if case['timing'] is None else Timing(case['timing'])
    sfs = [Component(FIRST, default), Component(FIRST)]
    defaults = [{'kind': 'when', 'when': 0.5 if case['timing'] is None
                 else case['timing']}, {'kind': 'when', 'when': 0.5}]
    records = [{}, {}]
    past = [{}, {}]
    called = [False, False]

    def flat(transactions):
        return {index(key): dict(transactions[key])
                for key in transactions.keys()}

    def check(what):
        for i, obj in enumerate(real):
            got = obj.transactions if i >= n_pools else obj
            if not same(got, model[i]):
                raise Violation("after %s, %s %d is %r, expected %r" % (
                    what, 'account' if i >= n_pools else 'pool', i,
                    dict(got), model[i]))
        for k, sf in enumerate(sfs):
            got = flat(sf.transactions)
            for i in set(got) | set(records[k]):
                if not same(got.get(i, {}), records[k].get(i, {})):
                    raise Violation(
                        "after %s, component %d's record for %r is %r, "
                        "expected %r" % (what, k, i, got.get(i),
                                         records[k].get(i)))
            rec.checks += 1
            history = sf.transactions_history
            rec.eq(set(history), set(past[k]) | {sf.this_year},
                   "years on record")
            for year, want in past[k].items():
                rec.eq(flat(history[year]), want, "record of %d" % year)

    def put(state, record, i, when, value):
        if i is not None:
            state[i][when] = state[i].get(when, 0) + value
        row = record.setdefault(i, {})
        row[when] = row.get(when, 0) + value

    def step(sf, spec):
        k = sfs.index(sf)
        value, src, dst = spec['value'], spec['src'], spec['dst']
        timing = acct.timing_arg(spec['timing'])
        described = spec['timing'] if spec['timing']['kind'] != 'none' \
            else defaults[k]
        args = dict(
            from_account=None if src is None else real[src],
            to_account=None if dst is None else real[dst])
        # (Earlier times are processed first.)
        order = sorted(Timing(acct.timing_arg(described)))
        share = acct.timing_ref(described)
        parts = [(t, value * share[t]) for t in order]
        if set(share) != set(order):
            raise HarnessError("timing %r" % (described,))
        keep = timing.copy() if isinstance(timing, dict) else timing
        before = {i: dict(real[i].transactions) for i in
                  range(n_pools, len(real))}
        room = None
        giver, taker = (dst, src) if value < 0 else (src, dst)
        free = giver is not None and giver >= n_pools and not spec['strict']
        if free:
            (when, _), = parts
            room = min(-real[giver].max_outflow(t)
                       for t in [when] + [t for t in before[giver]
                                          if t >= when])
        if spec['how'] == 'many':
            flows = dict(parts)
            sf.add_transactions(flows, strict_timing=spec['strict'], **args)
            rec.eq(flows, dict(parts), "the flows passed in")
        else:
            sf.add_transaction(
                value, timing, strict_timing=spec['strict'], **args)
            rec.eq(timing, keep, "the timing passed in")
        value = abs(value)
        if free:
            # Find out when the account was drawn on:
            own = records[k].get(giver, {})
            now = dict(sf.transactions[real[giver]])
            moved = [t for t in now
                     if not is_close(now[t], own.get(t, 0), abs_=1e-9)]
            if giver == taker or not value:
                return
            rec.eq(len(moved), 1, "times at which the account was drawn on")
            rec.ok(moved[0] >= when, "drawn at %r, requested at %r",
                   moved[0], when)
            if room > value * (1 + 1e-9) + 1e-6 and moved[0] != when:
                raise Violation(
                    "%r was drawn from an account at %r instead of %r "
                    "though %r is available" % (value, moved[0], when, room))
            limit = real[giver].limit
            if limit is not None and value > limit * (1 + 1e-9) + 1e-4:
                # No time is better than any other.
                rec.eq(moved[0], when, "time at which %r was drawn from an "
                       "account limited to %r" % (value, limit))
                rec.nontrivial()
                rec.tag('beyond the limit of an account')
            rec.nontrivial(moved[0] != when)
            rec.tag('shifted in account', moved[0] != when)
            parts = [(moved[0], 0)]
            put(model, records[k], giver, moved[0], -value)
            put(model, records[k], taker, moved[0], value)
            check("a cashflow")
            return
        # Work out what's acceptable (more than one outcome is when an
        # amount is within rounding error of what's available):
        branches = [(model, records[k])]
        total = sum(share.values())
        for t, part in parts:
            part = abs(part) / total
            grown = []
            for state, record in branches:
                if giver is None or spec['strict'] or giver >= n_pools:
                    times = {t}
                else:
                    times = shifts(state[giver], t, part)
                for when in times:
                    new = ([dict(s) for s in state],
                           {i: dict(r) for i, r in record.items()})
                    put(new[0], new[1], giver, when, -part)
                    put(new[0], new[1], taker, when, part)
                    grown.append(new)
                    if when != t:
                        rec.nontrivial()
                        rec.tag('shifted')
            branches = grown[:32]
        for state, record in branches:
            if all(same(real[i], state[i]) for i in range(n_pools)):
                model[:], records[k] = state, record
                break
        else:
            model[:], records[k] = branches[0]
        check("moving %r from %r to %r" % (spec['value'], src, dst))

    def undo(k):
        rec.nontrivial(any(
            any(row.values()) for row in records[k].values()))
        for i, row in records[k].items():
            if i is not None:
                for when, value in row.items():
                    model[i][when] = model[i].get(when, 0) - value
        records[k] = {}
        called[k] = False

    check("construction")
    for op in case['ops']:
        if op['op'] == 'add':
            step(sfs[op['sf']], op['step'])
        elif op['op'] == 'call':
            k = op['sf']
            if called[k]:
                rec.tag('re-run')
                undo(k)
            called[k] = True
            sfs[k].steps = op['steps']
            sfs[k](real[op['pool']])
        elif op['op'] == 'undo':
            sfs[op['sf']].undo_transactions()
            undo(op['sf'])
        elif op['op'] == 'edit':
            when, value = op['flow']
            real[op['pool']][when] = real[op['pool']].get(when, 0) + value
            model[op['pool']][when] = model[op['pool']].get(when, 0) + value
        else:
            rec.tag('year')
            for k, sf in enumerate(sfs):
                past[k][sf.this_year] = flat(sf.transactions)
                sf.next_year()
                records[k] = {}
                called[k] = False
            for i in range(n_pools, len(real)):
                real[i].next_year()
                model[i] = {}
            if op['clear']:
                for i in range(n_pools):
                    real[i].clear()
                    model[i] = {}
        check(op['op'])


# ------------------------------------------------------------- components

@st.composite
def component_case(draw):
    flow = st.tuples(unit(), money(-3000, 8000)).map(list)
    return {
        'people': draw(st.lists(st.fixed_dictionaries({
            'income': money(0, 80000), 'tax': rate(0, 0.5),
            'freq': st.sampled_from(['M', 'BW', 'A', 'Q']),
            'timing': unit()}), min_size=1, max_size=2)),
        'accounts': draw(st.lists(st.fixed_dictionaries({
            'kind': st.sampled_from(
                ['Account', 'RRSP', 'TFSA', 'TaxableAccount']),
            'balance': money(0, 50000), 'rate': rate(0, 0.2)}),
            min_size=1, max_size=3)),
        'debts': draw(st.lists(st.fixed_dictionaries({
            'balance': money(0, 20000), 'rate': rate(0, 0.2),
            'minimum': money(0, 2000)}), max_size=2,
            # (Which of two identical debts is repaid is arbitrary)
            unique_by=lambda debt: float(debt['balance']))),
        'strategy': draw(st.sampled_from(['Ordered', 'Weighted'])),
        'living': draw(money(0, 60000)),
        'pool': draw(st.lists(flow, max_size=5, unique_by=lambda p:
                              float(p[0]))),
        'extra': draw(flow),
        # What the first person earns after all
        'earned': draw(st.one_of(st.none(), money(0, 80000))),
        'component': draw(st.sampled_from(
            ['income', 'living', 'saving', 'withdrawal'])),
        'runs': draw(st.integers(2, 3)), 'years': draw(st.integers(0, 2))}


def components(case, rec):
    """ Forecast components can be re-run and undone. """
    from forecaster import (
        Account, Debt, LivingExpensesStrategy, Person, Timing,
        TransactionStrategy)
    from forecaster.canada import RRSP, TFSA, TaxableAccount
    from forecaster.forecast import (
        IncomeForecast, LivingExpensesForecast, SavingForecast,
        WithdrawalForecast)
    types = {'Account': Account, 'RRSP': RRSP, 'TFSA': TFSA,
             'TaxableAccount': TaxableAccount}
    flat = lambda *args, **kwargs: 1

    def build():
        people = [Person(
            FIRST, 'P%d' % i, birth_date=FIRST - 40,
            retirement_date='2050-12-31', gross_income=spec['income'],
            payment_timing=Timing(spec['timing'], spec['freq']),
            tax_treatment=lambda income, year, t=spec['tax']: income * t)
                  for i, spec in enumerate(case['people'])]
        accounts = []
        for spec in case['accounts']:
            kwargs = {} if spec['kind'] in ('Account', 'TaxableAccount') \
                else {'inflation_adjust': flat, 'contribution_room': 20000}
            accounts.append(types[spec['kind']](
                people[0], balance=spec['balance'], rate=spec['rate'],
                **kwargs))
        debts = [Debt(people[0], balance=spec['balance'], rate=spec['rate'],
                      minimum_payment=spec['minimum'])
                 for spec in case['debts']]
        weights = {name: i + 1 for i, name in enumerate(types)}
        weights['Debt'] = 2.5
        strategy = TransactionStrategy(case['strategy'], weights)
        if case['component'] == 'income':
            sf = IncomeForecast(FIRST, people)
        elif case['component'] == 'living':
            sf = LivingExpensesForecast(
                FIRST, people, LivingExpensesStrategy(
                    'Constant living expenses', base_amount=case['living']))
        elif case['component'] == 'saving':
            sf = SavingForecast(
                FIRST, set(accounts), set(debts), strategy)
        else:
            sf = WithdrawalForecast(FIRST, people, set(accounts), strategy)
        pool = collections.defaultdict(lambda: 0)
        pool.update({t: v for t, v in case['pool']})
        if case['component'] == 'withdrawal':
            for t in pool:
                pool[t] = -pool[t]
        for _ in range(case['years']):
            for obj in people + accounts + debts + [sf]:
                obj.next_year()
        return sf, pool, people, accounts, debts

    def figures(sf, pool, people, accounts, debts):
        names = {'income': ('gross_income', 'net_income', 'tax_withheld',
                            'carryover'),
                 'living': ('living_expenses',),
                 'saving': ('debt_repayment', 'retirement_savings', 'total'),
                 'withdrawal': ('gross_withdrawals', 'net_withdrawals',
                                'tax_withheld')}
        return (
            [dict(pool)] + [dict(a.transactions) for a in accounts + debts]
            + [{name: getattr(sf, name)
                for name in names[case['component']]}]
            + [dict(sf.transactions[pool])])

    # (Plans are made in units of about 0.00001)
    planned = case['component'] in ('saving', 'withdrawal')

    def compare(got, want, what, exact=False):
        for a, b in zip(got, want):
            if not same(a, b, 1e-3 if planned else 1e-6):
                raise Violation("%s: got %r, expected %r" % (what, a, b))
            rec.checks += 1

    # The same component run just once, on the final pool:
    once = build()
    before = figures(*once)

    def earn(people):
        if case['earned'] is not None:
            people[0].gross_income = case['earned']
            people[0].net_income = case['earned'] / 2

    t, v = case['extra']
    earn(once[2])
    once[1][t] += v
    once[0](once[1])
    want = figures(*once)
    rec.nontrivial(not same(want[0], before[0]))
    rec.tag(case['component'])
    # Run repeatedly, with the pool changing before the last run:
    again = build()
    for i in range(case['runs']):
        if i == case['runs'] - 1:
            again[1][t] += v
            earn(again[2])
        again[0](again[1])
    compare(figures(*again), want, "%d runs of the %s component" % (
        case['runs'], case['component']))
    # Cash is moved, neither created nor destroyed:
    sf, pool, _, accounts, debts = again
    for key in sf.transactions.keys():
        row = dict(sf.transactions[key])
        if key is pool:
            start = dict(before[0])
            start[t] = start.get(t, 0) + v
            for when in row:
                start[when] = start.get(when, 0) + row[when]
            compare([dict(pool)], [start], "the pool's own record", True)
        elif key is not None:
            compare([key.transactions], [row], "an account's own record", True)
    whens = {w for key in sf.transactions.keys()
             for w in sf.transactions[key]}
    scale = max([abs(x) for key in sf.transactions.keys()
                 for x in sf.transactions[key].values()], default=0)
    for when in whens:
        rec.close(sum(sf.transactions[key].get(when, 0)
                      for key in sf.transactions.keys()), 0,
                  "net cash created at %r" % when, scale=scale)
    # Undoing leaves things as they were:
    again[1][t] -= v
    again[0].undo_transactions()
    got = figures(*again)
    n = 1 + len(again[3]) + len(again[4])
    compare(got[:n], before[:n], "after undoing", True)
    compare(got[-1:], [{}], "the record after undoing", True)
    if case['component'] == 'withdrawal':
        rec.close(again[0].tax_withheld, 0, "tax withheld after undoing")
    if case['component'] == 'saving':
        # A fresh run after undoing is as good as the first:
        again[1][t] += v
        again[0](again[1])
        compare(figures(*again), want, "a run after undoing")


# ------------------------------------------------- accounts as cash pools

@st.composite
def account_pool_case(draw):
    return {
        'balance': draw(money(0, 50000)), 'rate': draw(rate(0, 0.2)),
        'nper': draw(acct.nper_st),
        'flows': draw(st.lists(st.tuples(unit(), money(0, 5000)).map(list),
                               max_size=3, unique_by=lambda p: float(p[0]))),
        'people': draw(st.lists(st.fixed_dictionaries({
            'income': money(0, 80000), 'tax': rate(0, 0.5),
            'freq': st.sampled_from(['M', 'BW', 'A', 'Q']),
            'timing': unit()}), min_size=1, max_size=2)),
        'living': draw(rate(0, 1)), 'again': draw(st.booleans())}


def account_pool(case, rec):
    """ Income is paid into, and expenses from, a bank account. """
    from forecaster import Account, LivingExpensesStrategy, Person, Timing
    from forecaster.forecast import IncomeForecast, LivingExpensesForecast
    people = [Person(
        FIRST, 'P%d' % i, birth_date=FIRST - 40,
        retirement_date='2050-12-31', gross_income=spec['income'],
        payment_timing=Timing(spec['timing'], spec['freq']),
        tax_treatment=lambda income, year, t=spec['tax']: income * t)
              for i, spec in enumerate(case['people'])]
    nper = acct.nper_ref(case['nper'])
    account = Account(people[0], balance=case['balance'], rate=case['rate'],
                      nper=case['nper'])
    flows = {}
    for when, value in case['flows']:
        account.add_transaction(value, when)
        flows[when] = flows.get(when, 0) + value

    def closing():
        return models.balance_at(case['balance'], list(flows.items()),
                                 case['rate'], nper, 1)

    scale = case['balance'] + 2e5
    first = closing()
    income = IncomeForecast(FIRST, people)
    for _ in range(2 if case['again'] else 1):
        income(account)
        rec.close(income.total_available, first,
                  "money available in the account", scale=scale)
        rec.close(income.carryover, first, "carryover", scale=scale)
    for person in people:
        for when, value in person.payment_timing.time_series(
                person.net_income).items():
            flows[when] = flows.get(when, 0) + value
    for when in set(flows) | set(account.transactions):
        rec.close(account.transactions.get(when, 0), flows.get(when, 0),
                  "cashflow of the account at %r" % when, scale=scale)
    total = sum(person.net_income for person in people)
    second = closing()
    living = LivingExpensesForecast(FIRST, people, LivingExpensesStrategy(
        'Percentage of net income', rate=case['living']))
    for _ in range(2 if case['again'] else 1):
        living(account)
        rec.close(living.total_available, second,
                  "money available after income", scale=scale)
    rec.close(living.living_expenses, total * case['living'],
              "living expenses", scale=scale)
    rec.close(sum(account.transactions.values()),
              sum(flows.values()) - total * case['living'],
              "net cashflow of the account", scale=scale)
    rec.nontrivial(total > 0 and case['balance'] > 0 and case['living'] > 0)
    living.undo_transactions()
    rec.close(account.balance_at_time(1), second, "balance after undoing",
              scale=scale)
    income.undo_transactions()
    rec.close(account.balance_at_time(1), first, "balance after undoing",
              scale=scale)


# ------------------------------------------ expenses shifted in an account

@st.composite
def growing_case(draw):
    case = {
        'balance': draw(money(0, 5000)), 'rate': draw(rate(0, 1)),
        'nper': draw(acct.nper_st), 'when': draw(unit()),
        'inflows': draw(st.lists(st.tuples(unit(), money(1, 2000)).map(list),
                                 min_size=1, max_size=4,
                                 unique_by=lambda p: float(p[0]))),
        'multiple': draw(st.one_of(st.none(), st.none(), rate(0, 1))),
        'value': draw(money(1, 6000)), 'reverse': draw(st.booleans())}
    if draw(st.booleans()):
        case['inflows'] = [p for p in case['inflows'] if p[0] != 1] \
            + [[1, draw(money(1, 2000))]]
    return case


def growing(case, rec):
    """ Money is drawn as soon as an account which only grows has it. """
    from forecaster import Account
    from forecaster.forecast.subforecast import SubForecast
    nper, when = acct.nper_ref(case['nper']), case['when']
    flows = [tuple(p) for p in case['inflows']]
    account = Account(acct.person(FIRST), balance=case['balance'],
                      rate=case['rate'], nper=case['nper'])
    for t, v in flows:
        account.add_transaction(v, t)

    def balance(t):
        return models.balance_at(
            case['balance'], flows, case['rate'], nper, t)

    times = sorted({when} | {t for t, _ in flows if t > when})
    value = case['value']
    if case['multiple'] is not None:
        # Something that's available at some point:
        low, high = balance(times[0]), balance(times[-1])
        value = low + (high - low) * case['multiple']
    if value <= 0:
        return
    eps = 1e-4 + 1e-9 * balance(times[-1])
    best, early = None, None
    for i, t in enumerate(times):
        if balance(t) < value - eps:
            continue
        best = t
        if i:
            prior = times[i - 1]
            start = balance(prior)
            if start * models.growth(case['rate'], nper, t - prior) >= value:
                # Growth gets there before the inflow does.
                lo, hi = 0, t - prior
                for _ in range(60):
                    mid = (lo + hi) / 2
                    if start * models.growth(
                            case['rate'], nper, mid) >= value:
                        hi = mid
                    else:
                        lo = mid
                best, early = prior + hi, True
        break
    sf = SubForecast(FIRST)
    pool = {}
    if case['reverse']:
        sf.add_transaction(-value, when, from_account=pool,
                           to_account=account)
    else:
        sf.add_transaction(value, when, from_account=account,
                           to_account=pool)
    (got, amount), = pool.items()
    rec.close(amount, value, "amount drawn")
    rec.ok(got >= when, "drawn at %r instead of %r", got, when)
    rec.close(account.transactions[got], dict(flows).get(got, 0) - value,
              "the account's own transaction", scale=1e4)
    if best is None:
        if got != when:
            rec.ok(balance(got) >= value - eps,
                   "%r drawn at %r from %r", value, got, balance(got))
        return
    if abs(balance(when) - value) <= eps * 2:
        return  # (Rounding error decides)
    rec.ok(balance(got) >= value - eps * 2, "%r drawn at %r from %r", value,
           got, balance(got))
    rec.ok(got <= best or balance(best) - value <= eps * 2
           or balance(got) - value <= eps * 2,
           "%r drawn at %r though it's available at %r", value, got, best)
    rec.nontrivial(best != when)
    rec.tag('during growth', bool(early))
    rec.tag('upon an inflow', best in times[1:])


@st.composite
def draws_case(draw):
    return {
        'balance': draw(money(0, 5000)), 'rate': draw(st.one_of(
            rate(-0.4, 1), rate(0, 8))),
        'nper': draw(acct.nper_st), 'when': draw(unit()),
        'flows': draw(st.lists(
            st.tuples(unit(), money(-2000, 3000)).map(list),
            min_size=1, max_size=4, unique_by=lambda p: float(p[0]))),
        'part': draw(st.one_of(
            st.just(1), st.tuples(st.integers(0, 3), unit()).map(list))),
        # ... or of what it is at most, which growth brings it to:
        'grown': draw(st.one_of(st.none(), unit())),
        'again': draw(st.booleans()),
        'value': draw(money(1, 6000)), 'reverse': draw(st.booleans())}


def draws(case, rec):
    """ Money drawn from an account leaves later flows covered. """
    from forecaster import Account
    from forecaster.forecast.subforecast import SubForecast
    nper, when = acct.nper_ref(case['nper']), case['when']
    flows = [tuple(p) for p in case['flows']]
    account = Account(acct.person(FIRST), balance=case['balance'],
                      rate=case['rate'], nper=case['nper'])
    for t, v in flows:
        account.add_transaction(v, t)
    size = case['balance'] + sum(abs(v) for _, v in flows)

    def balance(t, value=0, start=None):
        extra = [] if start is None else [(start, -value)]
        return models.balance_at(
            case['balance'], flows + extra, case['rate'], nper, t)

    times = sorted({when} | {t for t, _ in flows if t > when})
    value = case['value']
    if case['part'] != 1:
        # As much as could be drawn at some time (or a part of it):
        pick = times[case['part'][0] % len(times)]
        room = min(
            balance(t) / models.growth(case['rate'], nper, t - pick)
            for t in times if t >= pick)
        value = room * (1 - case['part'][1] / 2) - 2e-3
    if case['grown'] is not None and len(times) > 1:
        start, end = balance(times[-2]), balance(times[-1])
        value = start + (end - start) * case['grown']
    if value <= 0:
        return
    eps = 1e-3 + 1e-9 * (size + value) * 4

    def low(start):
        return min(balance(t, value, start)
                   for t in times + [start] if t >= start)

    def grown(start, end):
        """ When growth brings the balance to the amount (or None). """
        want = value + 2 * eps
        if balance(start) >= want or balance(end) < want:
            return None
        if balance(start) * models.growth(
                case['rate'], nper, end - start) < want:
            return None  # It's the flow at the end which brings it there.
        lo, hi = 0, end - start
        for _ in range(60):
            mid = (lo + hi) / 2
            if balance(start) * models.growth(
                    case['rate'], nper, mid) >= want:
                hi = mid
            else:
                lo = mid
        return start + hi

    for turn in range(1 + case['again']):
        # (The same is drawn once more.)
        crossings = [t for t in map(grown, times, times[1:]) if t is not None]
        possible = sorted(t for t in times + crossings if low(t) >= eps)
        sf = SubForecast(FIRST)
        pool = {}
        if case['reverse']:
            sf.add_transaction(-value, when, from_account=pool,
                               to_account=account)
        else:
            sf.add_transaction(value, when, from_account=account,
                               to_account=pool)
        (got, amount), = pool.items()
        rec.close(amount, value, "amount drawn")
        rec.ok(got >= when, "drawn at %r instead of %r", got, when)
        if not possible:
            rec.ok(got == when or low(got) >= -eps,
                   "%r drawn at %r leaves %r", value, got, low(got))
            return
        follows = any(v < 0 and t > possible[0] for t, v in flows)
        rec.nontrivial(possible[0] != when or follows)
        rec.tag('at once', possible[0] == when)
        rec.tag('an outflow follows', follows)
        rec.tag('once it has grown', possible[0] in crossings)
        rec.tag('once it has grown again', possible[0] in crossings
                and any(balance(t) >= value for t in times if t < possible[0]))
        rec.tag('drawn twice', turn > 0)
        rec.ok(got <= possible[0], "%r drawn at %r instead of %r", value, got,
               possible[0])
        rec.ok(low(got) >= -eps, "%r drawn at %r leaves %r", value, got,
               low(got))
        flows.append((got, -value))
        times = sorted(set(times) | {got})


CHECKS = [
    Check('draws', draws_case, draws, 800, 16000,
          "draws on accounts with flows in both directions"),
    Check('growing', growing_case, growing, 600, 10000,
          "draws on accounts whose balance grows during the year"),
    Check('account_pool', account_pool_case, account_pool, 500, 8000,
          "bank accounts as the source and destination of cashflows"),
    Check('cashflows', case_st, cashflows, 2500, 50000,
          "double entry, shifting, re-running, undoing, records"),
    Check('components', component_case, components, 800, 15000,
          "re-running and undoing income, expenses, saving, withdrawal"),
]
