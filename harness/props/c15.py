""" C15: a forecast conserves cash, year after year. """
from hypothesis import strategies as st
from core import Check, horizon, is_close, money, rate, unit
from props.c11 import Reference as Jurisdiction
from props.c09 import BASE as FIRST, build as build_tax, ref_tax, tax_spec
import acct
import models

RULE = (
    "Cases are households (people with salaries, raises, payment schedules "
    "and retirement dates, Canadian and plain accounts, debts) with living "
    "expenses, saving and withdrawal strategies and a tax schedule, "
    "simulated for several years by components which note the cash and "
    "every account's cashflows before and after each stage; non-trivial = "
    "money is saved (or debt repaid) in one year and withdrawn in another, "
    "or tax is settled in a later year")
ASSUMPTIONS = [
    "accounts' own tax figures (taxable income etc.) are those they record; "
    "C05 to C08 decide whether they are right",
    "plans are made in units of 0.00001",
    "known finding: tax withheld from withdrawals is added to the cash "
    "withdrawn"]
STAGES = ('income', 'living', 'saving', 'withdrawal', 'tax')
KINDS = ['Account', 'RRSP', 'TFSA', 'TaxableAccount']

pay_timing = st.one_of(
    st.tuples(st.just('freq'), unit(), st.sampled_from(
        ['M', 'BW', 'A', 'Q', 1, 5])),
    st.tuples(st.just('dict'), acct.weights(zeros=False))).map(list)


def pay_arg(spec):
    from forecaster import Timing
    if spec[0] == 'freq':
        return Timing(spec[1], spec[2])
    return Timing({t: w for t, w in spec[1]})


def pay_ref(spec):
    if spec[0] == 'freq':
        return acct.timing_ref({'kind': 'freq', 'when': spec[1],
                                'n': spec[2]})
    return acct.timing_ref({'kind': 'dict', 'pairs': spec[1]})


# Living expenses which are known before retirement, and those which aren't
WORKING = ['Constant living expenses', 'Constant contribution',
           'Percentage of gross income', 'Percentage of net income']
RETIRED = ['Percentage of principal at retirement',
           'Percentage of net income at retirement',
           'Percentage of gross income at retirement']


def living_rule(kinds, amount):
    return st.one_of(*[
        st.tuples(st.just(kind), money(0, amount)
                  if kind.startswith('Constant') else rate(
                      0, 0.3 if 'principal' in kind else 1.5)).map(list)
        for kind in kinds])


@st.composite
def household_case(draw):
    n = draw(st.integers(1, 3))
    years = draw(horizon(5, 9))
    amount = draw(st.sampled_from([100, 30000, 90000]))
    if draw(st.integers(0, 2)):
        living = draw(living_rule(WORKING, amount))
    else:
        living = ['schedule', draw(living_rule(WORKING, amount)),
                  draw(living_rule(RETIRED + WORKING, amount)),
                  draw(st.one_of(st.none(), living_rule(WORKING, amount)))]
    return {
        'living_inflation': draw(st.one_of(st.just(0), rate(0, 0.2))),
        'years': years,
        # How long before the first year everything began
        'early': draw(acct.age_st),
        'people': draw(st.lists(st.fixed_dictionaries({
            'income': money(0, amount), 'raise': rate(-0.1, 0.2),
            'retire': st.integers(0, 6), 'pay': pay_timing,
            'day': st.sampled_from(['12-31', '01-01', '02-20', '06-30']),
            'tax': st.one_of(st.just('schedule'), rate(0, 0.5))}),
            min_size=n, max_size=n)),
        'couple': draw(st.booleans()),
        'tax': draw(tax_spec()),
        'refund': draw(pay_timing), 'payment': draw(pay_timing),
        # Inflation, where taxes are Canadian
        'canada': draw(st.one_of(st.none(), st.none(), rate(0, 0.06))),
        'living': living,
        'accounts': draw(st.lists(st.fixed_dictionaries({
            'kind': st.sampled_from(KINDS), 'owner': st.integers(0, n - 1),
            'balance': money(0, 80000), 'rate': rate(-0.1, 0.2),
            'room': money(0, 30000), 'timing': st.one_of(
                st.none(), pay_timing),
            'own': st.lists(st.tuples(unit(), money(0, 500)), max_size=2)}),
            min_size=1, max_size=4)),
        'debts': draw(st.lists(st.fixed_dictionaries({
            'balance': money(0, 30000), 'rate': rate(0, 0.2),
            'minimum': money(0, 3000), 'owner': st.integers(0, n - 1),
            'own': st.lists(st.tuples(unit(), money(0, 500)), max_size=1)}),
            max_size=2)),
        'saving': draw(st.tuples(
            st.sampled_from(['Ordered', 'Weighted']),
            st.permutations([1, 2, 3, 4, 5]))),
        'withdrawal': draw(st.tuples(
            st.sampled_from(['Ordered', 'Weighted']),
            st.permutations([1, 2, 3, 4]))),
        'threshold': draw(st.one_of(st.none(), rate(0, 0.2)))}


def build_household(case, tax):
    """ (people, assets, debts), each labelled with a `label`. """
    from forecaster import Account, Debt, Person
    from forecaster.canada import RRSP, TFSA, TaxableAccount
    types = {'Account': Account, 'RRSP': RRSP, 'TFSA': TFSA,
             'TaxableAccount': TaxableAccount}
    people, assets, debts = [], [], []
    early = case.get('early', 0)
    for i, spec in enumerate(case['people']):
        # (There's no inflation data for the years before the first)
        schedule = tax if not early else (
            lambda income, year: tax(income, max(year, FIRST)))
        treatment = schedule if spec['tax'] == 'schedule' else (
            lambda income, year, t=spec['tax']: income * t)
        people.append(Person(
            FIRST - early, 'P%d' % i, birth_date='%d-03-01' % (FIRST - 40),
            retirement_date='%d-%s' % (
                FIRST + spec['retire'], spec['day']),
            gross_income=spec['income'],
            raise_rate=acct.rates_since(FIRST + 1, early + 1, spec['raise'])
            if early else spec['raise'],
            tax_treatment=treatment, payment_timing=pay_arg(spec['pay'])))
    if case['couple'] and len(people) > 1:
        people[0].spouse = people[1]
    for spec in case['accounts']:
        kwargs = {}
        if spec['kind'] in ('RRSP', 'TFSA'):
            kwargs = {'inflation_adjust': lambda *args, **kwargs: 1,
                      'contribution_room': spec['room']}
        if spec['timing'] is not None:
            kwargs['default_timing'] = pay_arg(spec['timing'])
        assets.append(types[spec['kind']](
            people[spec['owner']], balance=spec['balance'],
            rate=acct.rates_since(FIRST, early, spec['rate']), **kwargs))
    for spec in case['debts']:
        debts.append(Debt(
            people[spec['owner']], balance=spec['balance'],
            rate=acct.rates_since(FIRST, early, spec['rate']),
            minimum_payment=spec['minimum']))
    acct.advance(FIRST, *people, *assets, *debts)
    for account, spec in zip(assets, case['accounts']) if early else ():
        if spec['kind'] in ('RRSP', 'TFSA'):
            account.contribution_room = spec['room']
    for i, (account, spec) in enumerate(zip(
            assets + debts, case['accounts'] + case['debts'])):
        account.label = 'A%d' % i
        for when, value in spec['own']:
            account.add_transaction(value, when)
    return people, assets, debts


class World:
    """ The real objects for a case. """

    def __init__(self, case):
        from forecaster import (
            LivingExpensesStrategySchedule, Scenario, TransactionStrategy)
        from forecaster.forecast import (
            Forecast, IncomeForecast, LivingExpensesForecast, SavingForecast,
            TaxForecast, WithdrawalForecast)
        from forecaster.canada import TaxCanada
        if case['canada'] is None:
            self.tax, self.tax_ref, _ = build_tax(case['tax'])
            self.tax.refund_timing = pay_arg(case['refund'])
            self.tax.payment_timing = pay_arg(case['payment'])
        else:
            self.tax = TaxCanada(
                self.adjust, refund_timing=pay_arg(case['refund']),
                payment_timing=pay_arg(case['payment']))
            self.refs = [Jurisdiction(name, self.adjust)
                         for name in ('Federal', 'BC')]
        self.case = case
        self.people, self.assets, self.debts = build_household(
            case, self.tax)
        self.log = []
        self.forecasts = {}
        names = KINDS + ['Debt']
        threshold = {} if case['threshold'] is None else {
            'high_interest_threshold': case['threshold']}
        saving = TransactionStrategy(
            case['saving'][0], dict(zip(names, case['saving'][1])),
            **threshold)
        withdrawal = TransactionStrategy(
            case['withdrawal'][0], dict(zip(names, case['withdrawal'][1])))
        living = case['living']
        if living[0] == 'schedule':
            living = LivingExpensesStrategySchedule(*[
                part and self.rule(*part) for part in living[1:]])
        else:
            living = self.rule(*living)
        assets, debts = set(self.assets), set(self.debts)
        parts = [
            self.logged('income', IncomeForecast)(FIRST, self.people),
            self.logged('living', LivingExpensesForecast)(
                FIRST, self.people, living),
            self.logged('saving', SavingForecast)(
                FIRST, assets, debts, saving),
            self.logged('withdrawal', WithdrawalForecast)(
                FIRST, self.people, assets, withdrawal),
            self.logged('tax', TaxForecast)(
                FIRST, self.people, self.tax)]
        self.parts = dict(zip(STAGES, parts))
        self.scenario = Scenario(FIRST, case['years'])
        self.forecast = Forecast(*parts, self.scenario)

    def rule(self, kind, figure):
        from forecaster import LivingExpensesStrategy
        return LivingExpensesStrategy(
            kind, inflation_adjust=self.prices,
            **{'base_amount' if kind.startswith('Constant')
               else 'rate': figure})

    def prices(self, target, base=FIRST):
        return (1 + self.case['living_inflation']) ** (target - base)

    def living(self, year, retired, incomes):
        """ What a household which retires in `retired` spends.

        `incomes` maps years to [total gross income, total net income].
        """
        def spent(rule):
            kind, figure = rule
            gross, net = incomes[year]
            prices = self.prices(year)
            if 'at retirement' in kind:
                prices = self.prices(year, retired)
                gross, net = incomes[retired]
            if kind.startswith('Constant'):
                amount = figure * prices
                if 'contribution' in kind:
                    amount = net - amount
            elif 'principal' in kind:
                amount = prices * figure * sum(
                    a.balance_history[retired]
                    for a in self.assets + self.debts)
            else:
                amount = figure * (gross if 'gross' in kind else net)
                if 'at retirement' in kind:
                    amount *= prices
            return max(amount, 0)
        rules = self.case['living']
        if rules[0] != 'schedule':
            return spent(rules)
        amount = spent(rules[2 if year > retired else 1])
        return amount if rules[3] is None else max(amount, spent(rules[3]))

    def adjust(self, target, base=FIRST):
        return (1 + self.case['canada']) ** (target - base)

    def tax_on(self, amount, year):
        """ Tax on an amount of employment income. """
        if self.case['canada'] is None:
            return ref_tax(self.tax_ref, amount, year)
        return sum(ref.amount(amount, year) for ref in self.refs)

    def owing(self, gross, year):
        """ Acceptable totals of tax owing by everybody. """
        def total(person, name):
            return sum(getattr(a, name + '_history')[year]
                       for a in self.assets + self.debts
                       if a.owner is person)
        if self.case['canada'] is None:
            allowance = models.value_for(
                self.tax_ref['deduction'], self.tax_ref['adjust'], year)
            return [sum(ref_tax(
                self.tax_ref, amount + total(person, 'taxable_income'), year,
                deduction=allowance + total(person, 'tax_deduction'),
                credit=total(person, 'tax_credit'))
                        for person, amount in zip(self.people, gross))]
        rows = [(amount + total(person, 'taxable_income'),
                 total(person, 'tax_deduction'), -sum(
                     v for a in self.assets if a.owner is person
                     and type(a).__name__ == 'RRSP'
                     for v in a.transactions_history[year].values()
                     if v < 0), total(person, 'tax_credit'))
                for person, amount in zip(self.people, gross)]
        couple = self.case['couple'] and len(self.people) > 1
        options = [0]
        for ref in self.refs:
            winners = [None]
            if couple:
                one, two = [ref.net(i, rows, year) for i in (0, 1)]
                winners = [0, 1] if is_close(one, two, abs_=1e-4) \
                    else [0 if one > two else 1]
            totals = [sum(ref.person(
                i, rows, 1 - i if couple and i < 2 else None, year,
                i == winner, 0, 0) for i in range(len(rows)))
                      for winner in winners]
            options = [a + b for a in options for b in totals]
        return options

    def snapshot(self, available):
        return {
            'cash': dict(available),
            'accounts': [dict(a.transactions)
                         for a in self.assets + self.debts],
            'withheld': sum(a.tax_withheld for a in self.assets)}

    def logged(self, stage, base):
        world = self

        class Noting(base):
            """ Notes the state of things around each call. """
            def __call__(self, available):
                before = world.snapshot(available)
                super().__call__(available)
                world.log.append(
                    (stage, self.this_year, before, world.snapshot(available),
                     {k: dict(v) for k, v in (
                         (k, self.transactions[k])
                         for k in self.transactions.keys())
                      if k is not available and k is not None}))
        return Noting


def diff(after, before):
    return {t: after.get(t, 0) - before.get(t, 0)
            for t in set(after) | set(before)
            if after.get(t, 0) != before.get(t, 0)}


def combine(*series):
    total = {}
    for one in series:
        for t, v in one.items():
            total[t] = total.get(t, 0) + v
    return total


def same_series(rec, got, want, what, scale):
    for t in set(got) | set(want):
        rec.close(got.get(t, 0), want.get(t, 0), "%s at %r" % (what, t),
                  scale=scale, abs_=1e-6)


def run_household(case, rec):
    world = World(case)
    years = range(FIRST, FIRST + case['years'])
    rec.eq([(stage, year) for stage, year, _, _, _ in world.log],
           [(stage, year) for year in years for stage in STAGES],
           "stages of the forecast")
    scale = 1 + max([s['income'] for s in case['people']]
                    + [s['balance'] for s in
                       case['accounts'] + case['debts']]) * len(
                           case['people'])
    n_assets = len(world.assets)
    forecast, parts = world.forecast, world.parts
    saved, drawn, settled = [], [], []
    end, adjustment = None, None
    incomes = {}
    retired = {FIRST + s['retire'] for s in case['people']}
    income_left = [s['income'] for s in case['people']]

    def history(obj, name, year, want, **kwargs):
        past = getattr(obj, name + '_history')
        rec.eq(sorted(past), list(years), "years of %s" % name)
        rec.close(past[year], want, "%s in %s" % (name, year), scale=scale,
                  **kwargs)

    for k, year in enumerate(years):
        log = {stage: (before, after, moved) for stage, _, before, after,
               moved in world.log[5 * k:5 * k + 5]}
        what = ' in %d' % year
        # Each stage sees what the earlier ones leave:
        for one, two in zip(STAGES, STAGES[1:]):
            rec.eq(log[two][0], log[one][1],
                   "what %s starts with%s" % (two, what))
        cash = [log[stage][i]['cash'] for stage in STAGES for i in (0, 1)]
        cash = {stage: (log[stage][0]['cash'], log[stage][1]['cash'])
                for stage in STAGES}
        flows = {stage: [diff(a, b) for a, b in zip(
            log[stage][1]['accounts'], log[stage][0]['accounts'])]
                 for stage in STAGES}

        # Cash carried over, and last year's tax settled:
        start = {}
        if k:
            start = {0: end}
            timing = pay_ref(case['refund' if adjustment > 0 else 'payment'])
            start = combine(start, {
                t: w * adjustment for t, w in timing.items()})
            settled.append(adjustment)
        same_series(rec, cash['income'][0], start, "cash at first" + what,
                    scale)
        history(parts['income'], 'carryover', year, sum(start.values()))

        # Income:
        for i, spec in enumerate(case['people']):
            if k:
                income_left[i] *= 1 + spec['raise']
        gross = [0 if k > spec['retire'] else income_left[i]
                 for i, spec in enumerate(case['people'])]
        withheld = [world.tax_on(v, year)
                    if spec['tax'] == 'schedule' else v * spec['tax']
                    for v, spec in zip(gross, case['people'])]
        net = [a - b for a, b in zip(gross, withheld)]
        same_series(
            rec, diff(cash['income'][1], cash['income'][0]),
            combine(*[{t: w * v for t, w in pay_ref(spec['pay']).items()}
                      for v, spec in zip(net, case['people'])]),
            "income" + what, scale)
        history(parts['income'], 'gross_income', year, sum(gross))
        history(parts['income'], 'tax_withheld', year, sum(withheld))
        history(parts['income'], 'net_income', year, sum(net))
        history(forecast, 'income', year, sum(net))

        # Living expenses:
        # (A household might be retired once anybody is, or everybody is.)
        incomes[year] = sum(gross), sum(net)
        said = parts['living'].living_expenses_history[year]
        options = {when: world.living(year, when, incomes)
                   for when in retired}
        fits = {when for when, v in options.items()
                if is_close(said, v, scale=scale)}
        rec.ok(fits, "living expenses%s: %r, expected one of %r", what, said,
               options)
        retired = fits
        living = min(options.values(), key=lambda v: abs(v - said))
        rec.tag('expenses set at retirement', case['living'][0] == 'schedule'
                and case['living'][2][0] in RETIRED and living > 0
                and year > max(retired))
        spent = diff(*cash['living'][::-1])
        rec.close(sum(spent.values()), -living, "cash for living" + what,
                  scale=scale)
        shares = [v / sum(net) for v in net] if sum(net) \
            else [1 / len(net)] * len(net)
        plan = combine(*[
            {t: -w * living * share for t, w in pay_ref(spec['pay']).items()}
            for share, spec in zip(shares, case['people'])])
        levels, level = [], 0
        left = combine(cash['living'][0], plan)
        for t in sorted(left):
            level += left[t]
            levels.append(level)
        if min(levels) > 1e-6 * scale:
            # (Otherwise some are incurred later, once there's cash.)
            same_series(rec, spent, plan, "living expenses" + what, scale)
            rec.tag('living expenses affordable')
        elif living:
            rec.tag('living expenses not always affordable')
            first = min(t for t in plan if plan[t])
            rec.ok(all(t >= first - 1e-9 for t, v in spent.items() if v),
                   "living expenses at %r before any are due at %r%s",
                   sorted(spent), first, what)
        history(parts['living'], 'living_expenses', year, living)
        history(forecast, 'living_expenses', year, living)
        history(forecast, 'savings', year, max(sum(net) - living, 0))

        # No accounts are touched by these:
        for stage in ('income', 'living', 'tax'):
            rec.eq([f for f in flows[stage] if f], [],
                   "account cashflows due to %s%s" % (stage, what))
        rec.eq(cash['tax'][1], cash['tax'][0], "cash after tax" + what)

        # Savings:
        before = sum(cash['saving'][0].values())
        put = [sum(f.values()) for f in flows['saving']]
        same_series(rec, diff(*cash['saving'][::-1]), combine(*[
            {t: -v for t, v in f.items()} for f in flows['saving']]),
                    "cash saved" + what, scale)
        for f in flows['saving']:
            rec.ok(all(v >= -1e-9 * scale for v in f.values()),
                   "contribution of %r%s", f, what)
        rec.le(sum(put), max(before, 0), "contributions" + what,
               abs_=1e-4, scale=scale)
        saved.append(sum(put))
        history(parts['saving'], 'retirement_savings', year,
                sum(put[:n_assets]))
        history(parts['saving'], 'debt_repayment', year,
                sum(put[n_assets:]))
        history(parts['saving'], 'total', year, sum(put))

        # Withdrawals:
        before = sum(cash['withdrawal'][0].values())
        took = [-sum(f.values()) for f in flows['withdrawal']]
        for f in flows['withdrawal']:
            rec.ok(all(v <= 1e-9 * scale for v in f.values()),
                   "withdrawal of %r%s", f, what)
        rec.eq([f for f in flows['withdrawal'][n_assets:] if f], [],
               "withdrawals from debts" + what)
        rec.le(sum(took), max(-before, 0), "withdrawals" + what, abs_=1e-4,
               scale=scale)
        source = log['withdrawal'][1]['withheld'] \
            - log['withdrawal'][0]['withheld']
        change = diff(*cash['withdrawal'][::-1])
        if source:
            rec.tag('tax withheld from withdrawals')
            if is_close(sum(change.values()), sum(took) + source,
                        scale=scale, abs_=1e-6):
                rec.known('withdrawal-withholding-sign',
                          "tax withheld from withdrawals is added to cash")
            else:
                rec.close(sum(change.values()), sum(took) - source,
                          "cash withdrawn" + what, scale=scale, abs_=1e-6)
        else:
            same_series(rec, change, combine(*[
                {t: -v for t, v in f.items()}
                for f in flows['withdrawal']]), "cash withdrawn" + what,
                        scale)
        drawn.append(sum(took))
        history(parts['withdrawal'], 'gross_withdrawals', year, sum(took),
                abs_=1e-4)
        history(forecast, 'withdrawals', year, sum(took), abs_=1e-4)
        past = parts['withdrawal'].net_withdrawals_history[year]
        if source and is_close(past, sum(took) + source, scale=scale,
                               abs_=1e-4):
            rec.known('withdrawal-withholding-sign',
                      "net withdrawals are gross plus tax withheld")
        else:
            rec.close(past, sum(took) - source, "net withdrawals" + what,
                      scale=scale, abs_=1e-4)

        # Tax:
        got = parts['tax'].tax_owing_history[year]
        owing = min(world.owing(gross, year), key=lambda t: abs(t - got))
        at_source = sum(withheld) + sum(
            a.tax_withheld_history[year] for a in world.assets + world.debts)
        history(parts['tax'], 'tax_owing', year, owing)
        history(parts['tax'], 'tax_withheld', year, at_source)
        history(parts['tax'], 'tax_adjustment', year, at_source - owing)
        history(forecast, 'tax', year, owing)
        adjustment = at_source - owing
        end = sum(cash['tax'][1].values())

        # Records of accounts and components:
        history(forecast, 'principal', year, sum(
            a.balance_history[year] for a in world.assets))
        for i, account in enumerate(world.assets + world.debts):
            specs = case['accounts'] + case['debts']
            own = {}
            if k == 0:
                own = combine(*[{t: v} for t, v in specs[i]['own']])
            same_series(
                rec, account.transactions_history[year],
                combine(own, flows['saving'][i], flows['withdrawal'][i]),
                "cashflows of account %d%s" % (i, what), scale)
            for stage in ('saving', 'withdrawal'):
                note = parts[stage].transactions_history[year]
                same_series(
                    rec, dict(note[account]) if account in list(
                        note.keys()) else {}, flows[stage][i],
                    "%s record of account %d%s" % (stage, i, what), scale)
            if i < n_assets or account.balance_history[year]:
                grown = models.balance_at(
                    account.balance_history[year],
                    list(account.transactions_history[year].items()),
                    specs[i]['rate'], 1, 1)
                after = account.balance_history[year + 1] \
                    if year + 1 in account.balance_history \
                    else account.balance_at_time('end')
                rec.close(after, grown, "balance of account %d after %d" % (
                    i, year), scale=scale)
    for obj in world.people + world.assets + world.debts + [forecast] \
            + list(parts.values()):
        rec.eq(obj.this_year, years[-1], "the last year of %r" % obj)
    big = 1e-3
    rec.tag('Canadian taxes', case['canada'] is not None)
    rec.tag('saved', any(v > big for v in saved))
    rec.tag('withdrew', any(v > big for v in drawn))
    rec.tag('tax settled', any(abs(v) > big for v in settled))
    rec.nontrivial(
        any(v > big for v in saved) and any(v > big for v in drawn)
        or any(abs(v) > big for v in settled))


CHECKS = [
    Check('household', household_case, run_household, 700, 20000,
          "cash is conserved through every stage of every year"),
]
