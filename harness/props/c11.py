""" C11: Canadian taxes. """
import itertools
from hypothesis import strategies as st
from core import Check, horizon, is_close, money, rate
from props.c06 import FIRST, LAST, inflation_st
from props.c10 import FORMS, custom_class
import models

RULE = (
    "Cases are households of up to four people, single or in couples, with "
    "incomes about the spousal amount, the brackets and beyond, RRSPs, "
    "TFSAs and taxable accounts with contributions and withdrawals over "
    "several years, inflation, explicit federal and provincial amounts and "
    "a list of queries in any form and order; non-trivial = a query "
    "includes a couple whose spousal credit isn't zero, or a person with "
    "pension income")
ASSUMPTIONS = [
    "statutory figures are those of the packaged constants (2017)",
    "equally well-off spouses may share out the one credit either way"]
BRACKETS = {2017: [(0, .15), (45961.23, .205), (91921.45, .26),
                   (142493.82, .29), (203000, .33)]}
FIGURES = {
    'Federal': {'deduction': 11635, 'pension': 2000, 'rate': .15,
                'spousal': 11635},
    'BC': {'deduction': 10208, 'pension': 1000, 'rate': .0506,
           'spousal': 9614}}


def near(points, spread=3000):
    return st.tuples(st.sampled_from(points), st.integers(
        -spread * 100, spread * 100)).map(
            lambda p: max(p[0] + p[1] / 100, 0))


@st.composite
def household(draw):
    n = draw(st.sampled_from([1, 2, 2, 2, 3, 4]))
    years = draw(horizon(3, 7))
    same = draw(money(0, 60000))
    people = []
    for _ in range(n):
        people.append({
            'income': draw(st.one_of(
                st.just(0), st.just(same), near([11635, 23270, 10208, 19822]),
                money(11000, 24000), money(11000, 24000),
                near([45961, 91921, 142493, 203000]), money(0, 300000))),
            'raise': draw(st.sampled_from([0, 0, 0.02, 0.5])),
            'retire': draw(st.integers(0, 4)),
            # Income, deductions and credits from another source
            'other': draw(st.one_of(st.none(), st.none(), st.lists(
                st.tuples(money(0, 20000), st.one_of(
                    st.just(0), money(0, 12000)), money(0, 9000)).map(list),
                min_size=years, max_size=years))),
            'accounts': [{
                'kind': draw(st.sampled_from(
                    ['RRSP', 'RRSP', 'TFSA', 'TaxableAccount'])),
                'contributor': draw(st.one_of(
                    st.none(), st.integers(0, n - 1))),
                'balance': draw(money(20000, 200000)),
                'rate': draw(rate(0, 0.1)),
                'flows': [draw(st.lists(st.tuples(
                    st.sampled_from([0, 0.5, 1]), st.one_of(
                        money(-5000, 5000), st.sampled_from(
                            [-500, -1000, -2000, -2500]))).map(list),
                    max_size=3)) for _ in range(years)]}
                         for _ in range(draw(st.integers(0, 3)))]})
    if draw(st.integers(0, 2)) == 0:
        # Everyone contributes to somebody else's accounts.
        for i, spec in enumerate(people):
            for acc in spec['accounts']:
                acc['contributor'] = (i + 1) % n
    order = draw(st.permutations(range(n)))
    couples = [[order[2 * i], order[2 * i + 1]]
               for i in range(draw(st.sampled_from(
                   [n // 2, n // 2, 0])))]
    return {'year': draw(st.integers(2010, 2040)), 'years': years,
            'people': people, 'couples': couples,
            'inflation': draw(inflation_st()),
            'names': draw(st.sampled_from(['P%d', 'P%d', 'P'])),
            'form': draw(st.sampled_from(['callable', 'dict']))}


@st.composite
def case_st(draw):
    case = draw(household())
    n = len(case['people'])
    extra = st.one_of(st.none(), st.none(), st.lists(
        st.one_of(st.none(), money(0, 15000)), min_size=n, max_size=n))
    case['queries'] = draw(st.lists(st.fixed_dictionaries({
        'year': st.integers(0, case['years'] - 1),
        'who': st.permutations(range(n)).flatmap(
            lambda p: st.integers(0, n).map(lambda k: p[:k or n])),
        'form': st.sampled_from(sorted(FORMS) + ['person']),
        'extras': st.lists(extra, min_size=4, max_size=4),
        'kwargs': st.sampled_from(['named', 'dicts'])}),
        min_size=1, max_size=5))
    # Which queries are made during the year they're about
    case['early'] = draw(st.sampled_from(
        [None, 'start', 'end', 'both', 'both']))
    case['amounts'] = draw(st.lists(st.tuples(
        st.integers(2005, 2050), money(0, 400000),
        st.lists(st.one_of(st.none(), money(0, 20000)),
                 min_size=4, max_size=4)).map(list), max_size=3))
    return case


def setup(case):
    from forecaster import Person
    from forecaster.canada import RRSP, TFSA, TaxCanada, TaxableAccount
    kinds = {'RRSP': RRSP, 'TFSA': TFSA, 'TaxableAccount': TaxableAccount}
    inflation = models.Inflation(FIRST, case['inflation'])
    adjust = dict(inflation.index) if case['form'] == 'dict' \
        else inflation.adjust
    people, accounts = [], []
    for i, spec in enumerate(case['people']):
        person = Person(
            case['year'], case['names'].replace('%d', str(i)), birth_date=case['year'] - 50,
            retirement_date='%d-12-31' % (case['year'] + spec['retire']),
            gross_income=spec['income'], raise_rate=spec['raise'])
        people.append(person)
    for i, spec in enumerate(case['people']):
        person = people[i]
        for acc in spec['accounts']:
            kwargs = {} if acc['kind'] == 'TaxableAccount' \
                else {'inflation_adjust': inflation.adjust}
            if kwargs and acc['contributor'] is not None:
                kwargs['contributor'] = people[acc['contributor']]
            accounts.append((i, acc, kinds[acc['kind']](
                person, balance=acc['balance'], rate=acc['rate'],
                **kwargs)))
    Custom = custom_class()
    for person, spec in zip(people, case['people']):
        if spec['other'] is not None:
            accounts.append((None, {'flows': [[]] * case['years']}, Custom(
                person, values=spec['other'])))
    for a, b in case['couples']:
        people[a].spouse = people[b]
    return people, accounts, TaxCanada(adjust), inflation


class Reference:
    """ Tax in one jurisdiction, from figures for each person. """

    def __init__(self, name, adjust):
        self.figures, self.adjust = FIGURES[name], adjust

    def index(self, key, year):
        return self.figures[key] * self.adjust(year, 2017)

    def amount(self, income, year, deduction=0, credit=0):
        brackets = models.brackets_for(BRACKETS, self.adjust, year)
        tax = models.bracket_tax(brackets, income - deduction)
        return max(tax - credit * self.figures['rate'], 0)

    def person(self, i, rows, spouse, year, gets, deduction, credit):
        """ Tax of a person; `gets` is whether they get the credit. """
        income, own_deduction, pension, own_credit = rows[i]
        credit += own_credit
        own_deduction += self.index('deduction', year)
        credit += min(pension, self.index('pension', year))
        if spouse is not None and gets:
            credit += self.spousal(rows, spouse, year)
        return self.amount(income, year, own_deduction + deduction, credit)

    def net(self, i, rows, year):
        return rows[i][0] - rows[i][1] - self.index('deduction', year)

    def spousal(self, rows, spouse, year):
        most = self.index('spousal', year)
        return max(most - max(self.net(spouse, rows, year), 0), 0)


def run(case, rec):
    people, accounts, tax, inflation = setup(case)
    names = ('Federal', 'BC')
    refs = [Reference(name, inflation.adjust) for name in names]
    spouse = {}
    for a, b in case['couples']:
        spouse[a], spouse[b] = b, a
    figures = []    # for each year, a row for each person

    def expected(query):
        """ Every acceptable total (ties may go either way). """
        year = case['year'] + query['year']
        rows = figures[query['year']]
        subjects = query['who'][:1] if query['form'] == 'person' \
            else query['who']
        totals = [0]
        for j, ref in enumerate(refs):
            extra = query['extras'][2 * j: 2 * j + 2]
            seen = set()
            for i in subjects:
                if i in seen:
                    continue
                mates = [i]
                if spouse.get(i) in subjects:
                    mates.append(spouse[i])
                seen.update(mates)
                options = []
                partner = spouse.get(i)
                if partner is None:
                    choices = [None]
                else:
                    mine = ref.net(i, rows, year)
                    theirs = ref.net(partner, rows, year)
                    if is_close(mine, theirs, abs_=1e-6):
                        choices = [i, partner]
                        rec.tag('equal incomes')
                    else:
                        choices = [i if mine > theirs else partner]
                for winner in choices:
                    options.append(sum(ref.person(
                        m, rows, spouse.get(m), year, winner == m,
                        (extra[0] or [0] * 9)[m] or 0,
                        (extra[1] or [0] * 9)[m] or 0) for m in mates))
                    if winner is not None and len(mates) > 1:
                        credit = ref.spousal(rows, spouse[winner], year)
                        rec.tag('spousal credit, partial', 0 < credit < (
                            ref.index('spousal', year)))
                        rec.tag('spousal credit, full', credit > 0 and (
                            credit == ref.index('spousal', year)))
                        rec.nontrivial(credit > 0)
                rec.nontrivial(any(rows[m][2] > 0 for m in mates))
                totals = [a + b for a in totals for b in options]
        return totals, subjects, year

    def extras(query, subjects):
        single = query['form'] == 'person'
        args = []
        for row in query['extras']:
            if row is None:
                args.append(None)
            elif single:
                args.append(row[subjects[0]])
            else:
                args.append({people[i]: row[i] for i in range(len(people))
                             if row[i] is not None})
        return args

    def ask(query, when):
        totals, subjects, year = expected(query)
        args = extras(query, subjects)
        copies = [dict(a) if isinstance(a, dict) else a for a in args]
        if query['kwargs'] == 'named':
            kwargs = dict(zip(
                ('federal_deduction', 'federal_credit',
                 'provincial_deduction', 'provincial_credit'), args))
        else:
            kwargs = {
                'deductions': {tax.federal_tax: args[0],
                               tax.provincial_tax: args[2]},
                'credits_': {tax.federal_tax: args[1],
                             tax.provincial_tax: args[3]}}
            for part in kwargs.values():
                for key in [k for k, v in part.items() if v is None]:
                    del part[key]
        for order in (subjects, list(reversed(subjects)), subjects):
            target = people[order[0]] if query['form'] == 'person' \
                else FORMS[query['form']]([people[i] for i in order])
            got = tax(target, year, **kwargs)
            rec.ok(any(is_close(got, t, rel=1e-8, scale=1e5)
                       for t in totals),
                   "tax of %r (%s) in %d%s: got %r, expected %r",
                   order, query['form'], year, when, got, totals)
        rec.eq(args, copies, "arguments")
        rec.tag('form ' + query['form'])

    def observe(step, when):
        rows = []
        for i, person in enumerate(people):
            pension = deduction = 0
            income = person.gross_income
            for j, acc, account in accounts:
                if j != i:
                    continue
                out = -sum(v for v in account.transactions.values() if v < 0)
                if acc['kind'] == 'RRSP':
                    pension += out
                    income += out
                    deduction += sum(
                        v for v in account.transactions.values() if v > 0)
                elif acc['kind'] == 'TaxableAccount':
                    income += account.taxable_income
            credit = 0
            if case['people'][i]['other'] is not None:
                more = case['people'][i]['other'][step]
                income, deduction, credit = (
                    income + more[0], deduction + more[1], more[2])
                rec.tag('other credits', credit > 0)
            rec.close(person.taxable_income, income, "taxable income",
                      scale=1e5)
            rec.close(person.tax_deduction, deduction, "deduction",
                      scale=1e5)
            rows.append((income, deduction, pension, credit))
        figures[step:] = [rows]
        if case['early'] in (when, 'both'):
            for query in case['queries']:
                if query['year'] == step:
                    ask(query, " (that year)")

    for step in range(case['years']):
        if case['early']:
            # What's owed changes as the year goes by.
            for _, acc, account in accounts:
                for when, amount in acc['flows'][step][1:]:
                    account.add_transaction(amount, when)
            observe(step, 'start')
        for _, acc, account in accounts:
            for when, amount in acc['flows'][step][:1] if case['early'] \
                    else acc['flows'][step]:
                account.add_transaction(amount, when)
        observe(step, 'end')
        if step + 1 < case['years']:
            for person in people:
                person.next_year()
            for _, _, account in accounts:
                while account.this_year < case['year'] + step + 1:
                    account.next_year()
    for query in case['queries']:
        ask(query, " (afterwards)")
    for year, income, given in case['amounts']:
        kwargs = {k: v for k, v in zip(
            ('federal_deduction', 'federal_credit', 'provincial_deduction',
             'provincial_credit'), given) if v is not None}
        rec.close(tax(income, year, **kwargs), sum(
            ref.amount(income, year, given[2 * j] or 0, given[2 * j + 1] or 0)
            for j, ref in enumerate(refs)), "tax on an amount", rel=1e-8)
        parts = tax.federal_tax(
            income, year, deduction=given[0] or 0, credit=given[1] or 0
        ) + tax.provincial_tax(
            income, year, deduction=given[2] or 0, credit=given[3] or 0)
        rec.close(tax(income, year, **kwargs), parts, "sum of jurisdictions")
        for name, part in zip(names, (tax.federal_tax, tax.provincial_tax)):
            rec.close(part.personal_deduction(year), refs[
                names.index(name)].index('deduction', year), "deduction")
            rec.close(part.credit_rate(year), FIGURES[name]['rate'],
                      "credit rate")
    rec.eq(dict(tax.payment_timing), {0.3: 1}, "payment timing")
    rec.eq(dict(tax.refund_timing), {0.3: 1}, "refund timing")


CHECKS = [
    Check('canada', case_st, run, 1500, 40000,
          "taxes of households against federal and provincial references"),
]
