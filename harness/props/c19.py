""" C19: living expenses follow the chosen rule. """
from hypothesis import strategies as st
from core import Check, money, rate
import models

RULE = (
    "Cases are households (incomes, raises, taxes, retirement years, "
    "accounts) living through a scenario with inflation, for every kind of "
    "living expenses strategy and for schedules of them; non-trivial = "
    "expenses which differ between years")
ASSUMPTIONS = [
    "for 'Percentage of earnings growth' with earnings below the base "
    "amount only bounds are checked (the documentation is silent)",
    "everybody's accounts exist at retirement"]
FIRST = 2000

KINDS = [
    'Constant contribution', 'Constant living expenses',
    'Percentage of net income', 'Percentage of gross income',
    'Percentage of earnings growth',
    'Percentage of principal at retirement',
    'Percentage of net income at retirement',
    'Percentage of gross income at retirement']


@st.composite
def household(draw):
    n = draw(st.integers(2, 8))
    people = draw(st.lists(st.fixed_dictionaries({
        'income': money(0, 100000), 'raise': rate(-0.1, 0.2),
        'tax': rate(0, 0.5), 'retire': st.integers(0, n),
        'accounts': st.lists(st.fixed_dictionaries({
            'balance': money(0, 100000), 'rate': rate(-0.1, 0.15),
            'flow': money(-500, 2000), 'debt': st.booleans().flatmap(
                lambda b: st.booleans() if b else st.just(False))}),
            max_size=2)}), min_size=1, max_size=3))
    return {
        'n': n, 'people': people,
        'inflation': draw(st.one_of(
            st.lists(rate(-0.05, 0.2), min_size=n, max_size=n),
            st.lists(st.just(0.02), min_size=n, max_size=n))),
        'order': draw(st.permutations(range(len(people))))}


rule_st = st.fixed_dictionaries({
    'kind': st.sampled_from(KINDS), 'amount': money(0, 60000),
    'rate': st.one_of(st.sampled_from([0.04, 0.5, 1]), rate(0, 1.2)),
    'adjust': st.booleans()})


@st.composite
def rules_case(draw):
    case = draw(household())
    case['rules'] = draw(st.lists(rule_st, min_size=1, max_size=4))
    case['schedule'] = draw(st.one_of(st.none(), st.fixed_dictionaries({
        'working': rule_st, 'retirement': rule_st,
        'minimum': st.one_of(st.none(), rule_st)})))
    return case


class Household:
    """ What everyone earns and owns each year. """

    def __init__(self, case):
        self.years = range(FIRST, FIRST + case['n'])
        self.gross, self.net, self.balances = [], [], []
        self.index = models.Inflation(FIRST, case['inflation'])
        for spec in case['people']:
            gross, income = {}, spec['income']
            for year in self.years:
                gross[year] = income if year <= FIRST + spec['retire'] else 0
                income *= 1 + spec['raise']
            self.gross.append(gross)
            self.net.append({
                y: v * (1 - spec['tax']) for y, v in gross.items()})
            for account in spec['accounts']:
                balance, history = account['balance'], {}
                flow = account['flow']
                if account['debt']:
                    balance, flow = -balance, 0
                for year in self.years:
                    history[year] = balance
                    if flow < 0 and balance < 2000:
                        flow = 0
                    balance = (balance + flow) * (1 + account['rate'])
                self.balances.append(history)

    @staticmethod
    def total(tables, year):
        return sum(table[year] for table in tables)

    def expenses(self, rule, year, retirement_year):
        """ (low, high) bounds on the expenses for the year. """
        adjust = self.index.adjust if rule['adjust'] \
            else lambda *args: 1
        kind, rate_ = rule['kind'], rule['rate']
        amount = rule['amount'] * adjust(year)
        net = self.total(self.net, year)
        if kind == KINDS[0]:
            value = net - amount
        elif kind == KINDS[1]:
            value = amount
        elif kind == KINDS[2]:
            value = rate_ * net
        elif kind == KINDS[3]:
            value = rate_ * self.total(self.gross, year)
        elif kind == KINDS[4]:
            value = amount + rate_ * (net - amount)
            if net < amount:
                other = sorted([value, amount, net])
                return max(other[0], 0), max(other[2], 0)
        else:
            tables = {KINDS[5]: self.balances, KINDS[6]: self.net,
                      KINDS[7]: self.gross}[kind]
            value = rate_ * self.total(tables, retirement_year) \
                * adjust(year, retirement_year)
        value = max(value, 0)
        return value, value


def rules(case, rec):
    """ Every rule, every year, for one household. """
    from forecaster import (
        Account, Debt, LivingExpensesStrategy, Person, Scenario)
    from forecaster.strategy import LivingExpensesStrategySchedule
    scenario = Scenario(FIRST, case['n'], inflation=case['inflation'])
    ref = Household(case)
    people, accounts = [], []
    for i, spec in enumerate(case['people']):
        person = Person(
            FIRST, 'P%d' % i, birth_date='1960-06-15',
            retirement_date='%d-12-31' % (FIRST + spec['retire']),
            gross_income=spec['income'], raise_rate=spec['raise'],
            tax_treatment=lambda income, year, t=spec['tax']: income * t)
        people.append(person)
        for account in spec['accounts']:
            cls = Debt if account['debt'] else Account
            accounts.append((cls(
                person, balance=-account['balance'] if account['debt']
                else account['balance'], rate=account['rate'], nper=1),
                             account))

    def make(rule):
        kwargs = {}
        if rule['adjust']:
            kwargs['inflation_adjust'] = scenario.inflation_adjust
        return LivingExpensesStrategy(
            rule['kind'], base_amount=rule['amount'], rate=rule['rate'],
            **kwargs)
    made = [make(rule) for rule in case['rules']]
    schedule = case['schedule']
    if schedule is not None:
        parts = {k: None if v is None else make(v)
                 for k, v in schedule.items()}
        made_schedule = LivingExpensesStrategySchedule(**parts)
    retirement_year = FIRST + min(p['retire'] for p in case['people'])

    def state():
        return (
            [(p.gross_income, p.net_income, p.this_year, set(p.accounts),
              dict(p.gross_income_history)) for p in people],
            [(a.balance, a.balance_at_time(1), dict(a.transactions))
             for a, _ in accounts],
            [dict((k, v) for k, v in vars(s).items()
                  if k != 'inflation_adjust') for s in made])

    orders = [list(people), tuple(people[k] for k in case['order']),
              set(people)]
    history = {}
    scale = (sum(abs(v) for t in ref.gross + ref.balances
                 for v in t.values())
             + sum(r['amount'] for r in case['rules'])) * 10

    def verify(strategy, bounds, year, retire, what):
        before = state()
        values = []
        for order in orders:
            values.append(strategy(
                people=order, year=year, retirement_year=retire))
        rec.eq(state(), before, "household after " + what)
        low, high = bounds
        for value in values:
            rec.le(0, value, what, abs_=0)
            if low == high:
                rec.close(value, low, what, scale=scale)
            else:
                rec.le(low, value, what + " (lower)", scale=scale)
                rec.le(value, high, what + " (upper)", scale=scale)
            rec.close(value, values[0], what + " in another order",
                      scale=scale)
        return float(values[0])

    for year in ref.years:
        for k, (rule, strategy) in enumerate(zip(case['rules'], made)):
            late = KINDS.index(rule['kind']) >= 5
            if late and year < retirement_year or (
                    retirement_year not in ref.years):
                continue
            what = "%r in %d (retired in %d)" % (rule, year, retirement_year)
            value = verify(
                strategy, ref.expenses(rule, year, retirement_year),
                year, retirement_year, what)
            history.setdefault(k, set()).add(round(value, 2))
            rec.tag(rule['kind'])
        if schedule is not None and retirement_year in ref.years:
            retired = year > retirement_year
            rule = schedule['retirement' if retired else 'working']
            rule_min = schedule['minimum']
            parts = [r for r in (rule, rule_min) if r is not None]
            if year >= retirement_year or all(
                    KINDS.index(r['kind']) < 5 for r in parts):
                bounds = [ref.expenses(r, year, retirement_year)
                          for r in parts]
                value = verify(
                    made_schedule, (max(b[0] for b in bounds),
                                    max(b[1] for b in bounds)),
                    year, retirement_year,
                    "schedule in %d (retired in %d)" % (
                        year, retirement_year))
                history.setdefault('s', set()).add(round(value, 2))
                rec.tag('schedule after retirement', retired)
                rec.tag('minimum', rule_min is not None)
            # Still working, if the retirement year isn't known:
            parts = [r for r in (schedule['working'], rule_min)
                     if r is not None]
            if all(KINDS.index(r['kind']) < 5 for r in parts):
                bounds = [ref.expenses(r, year, None) for r in parts]
                verify(made_schedule, (max(b[0] for b in bounds),
                                       max(b[1] for b in bounds)),
                       year, None, "schedule without retirement year")
        if year == ref.years[-1]:
            break
        for account, spec in accounts:
            if not spec['debt'] and spec['flow'] and (
                    spec['flow'] > 0 or account.balance >= 2000
                    and not account.__dict__.get('stopped')):
                account.add_transaction(spec['flow'], when=0)
            elif spec['flow'] < 0:
                account.__dict__['stopped'] = True
            account.next_year()
        for person in people:
            person.next_year()
    rec.nontrivial(any(len(values) > 1 for values in history.values()))


CHECKS = [
    Check('rules', rules_case, rules, 3000, 40000,
          "living expenses of a household in every year"),
]
