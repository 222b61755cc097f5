""" C09: progressive tax. """
from hypothesis import strategies as st
from core import Check, money, rate
import models

RULE = (
    "Cases are generated bracket tables (1-6 brackets, 1-4 specified years), "
    "deductions, credit rates, an inflation schedule and a sequence of "
    "queries; non-trivial = at least two brackets and at least one query "
    "whose income reaches beyond the first bracket")
ASSUMPTIONS = [
    "every year's brackets include a 0 threshold (documented advice), "
    "except in the 'schedule' check",
    "inflation factors are positive and path independent (see C12)"]

BASE = 2000
SPAN = 40


@st.composite
def bracket_list(draw, lowest=0):
    tops = draw(st.lists(
        st.one_of(
            st.integers(1, 300000),
            st.integers(100, 30000000).map(lambda c: c / 100)),
        max_size=5, unique=True))
    thresholds = sorted(tops)
    thresholds = [lowest] + [t for t in thresholds if t > lowest]
    rates = [draw(st.integers(0, 60)) / 100 for _ in thresholds]
    return [[t, r] for t, r in zip(thresholds, rates)]


@st.composite
def tax_table(draw, max_years=4, lowest=0, years=None):
    years = draw(st.lists(
        years or st.integers(BASE, BASE + SPAN), min_size=1,
        max_size=max_years, unique=True))
    return [[y, draw(bracket_list(lowest))] for y in years]


@st.composite
def year_values(draw, element, max_years=4, allow_none=True, years=None):
    if allow_none and draw(st.booleans()):
        return None
    years = draw(st.lists(
        years or st.integers(BASE, BASE + SPAN), min_size=1,
        max_size=max_years, unique=True))
    return [[y, draw(element)] for y in years]


inflation_rates = st.one_of(
    st.just([0.02] * SPAN),
    st.lists(rate(-0.05, 0.15), min_size=1, max_size=7).map(
        lambda rates: (rates * SPAN)[:SPAN]))


def make_adjust(mode, model):
    """ The different ways of describing inflation to the code. """
    if mode == 'none':
        return None, lambda target, base=None: 1.0
    if mode == 'dict':
        return dict(model.index), model.adjust
    return (lambda target, base=None: model.adjust(target, base)), model.adjust


@st.composite
def tax_spec(draw, lowest=0):
    # Tables of the same few years, or of any:
    years = draw(st.sampled_from([
        st.integers(BASE, BASE + SPAN), st.integers(BASE, BASE + 4)]))
    return {
        'table': draw(tax_table(lowest=lowest, years=years)),
        'deduction': draw(year_values(money(0, 30000), years=years)),
        'credit_rate': draw(year_values(
            st.integers(0, 100).map(lambda p: p / 100), years=years)),
        'mode': draw(st.sampled_from(['func', 'dict', 'none'])),
        'infl': draw(inflation_rates)}


def build(spec):
    from forecaster import Tax
    model = models.Inflation(BASE, spec['infl'])
    arg, adjust = make_adjust(spec['mode'], model)
    table = {y: dict((t, r) for t, r in b) for y, b in spec['table']}
    deduction = (None if spec['deduction'] is None
                 else {y: v for y, v in spec['deduction']})
    credit = (None if spec['credit_rate'] is None
              else {y: v for y, v in spec['credit_rate']})
    tax = Tax(table, personal_deduction=deduction, credit_rate=credit,
              inflation_adjust=arg)
    ref = {
        'table': {y: [(t, r) for t, r in b] for y, b in spec['table']},
        'deduction': deduction or {BASE: 0}, 'credit': credit or {BASE: 1},
        'adjust': adjust}
    return tax, ref, (table, deduction, credit)


def ref_credit_rate(ref, year):
    return ref['credit'][models.nearest(ref['credit'], year)]


def ref_tax(ref, income, year, deduction=0, credit=0):
    brackets = models.brackets_for(ref['table'], ref['adjust'], year)
    gross = models.bracket_tax(brackets, income - deduction)
    return max(gross - credit * ref_credit_rate(ref, year), 0)


@st.composite
def schedule_case(draw):
    case = draw(tax_spec(lowest=draw(st.sampled_from(
        [0, 0, 0, 0, 1000, 0.5, -500]))))
    query = st.fixed_dictionaries({
        'year': st.integers(BASE, BASE + SPAN),
        'income': money(0, 500000),
        'deduction': st.one_of(st.none(), money(0, 40000)),
        'credit': st.one_of(st.none(), money(0, 40000)),
        # How income is chosen relative to the year's thresholds:
        'at': st.one_of(st.none(), st.integers(0, 5)),
        'offset': st.sampled_from([0, 0.01, -0.01, 1, -1]),
        'how': st.sampled_from(['call', 'money'])})
    case['queries'] = draw(st.lists(query, min_size=1, max_size=8))
    return case


def schedule(case, rec):
    tax, ref, _ = build(case)
    for query in case['queries']:
        year, income = query['year'], query['income']
        brackets = models.brackets_for(ref['table'], ref['adjust'], year)
        deduction = query['deduction'] or 0
        credit = query['credit'] or 0
        if query['at'] is not None:
            index = query['at'] % len(brackets)
            income = brackets[index][0] + deduction + query['offset']
            rec.tag('at threshold', query['offset'] == 0)
        rec.tag('extended year', year not in ref['table'])
        rec.tag('before first year', year < min(ref['table']))
        rec.nontrivial(
            len(brackets) > 1 and income - deduction > brackets[1][0])
        kwargs = {}
        if query['deduction'] is not None:
            kwargs['deduction'] = deduction
        if query['credit'] is not None:
            kwargs['credit'] = credit
        func = tax if query['how'] == 'call' else tax.tax_money
        rec.close(
            func(income, year, **kwargs),
            ref_tax(ref, income, year, deduction, credit),
            "tax on %r in %r with %r" % (income, year, kwargs),
            rel=1e-8, abs_=1e-5)


@st.composite
def order_case(draw):
    case = draw(tax_spec())
    pair = st.tuples(
        st.integers(BASE, BASE + SPAN), money(0, 300000)).map(list)
    case['queries'] = draw(st.lists(pair, min_size=2, max_size=7))
    case['order'] = draw(st.permutations(range(len(case['queries']))))
    return case


def order(case, rec):
    """ The same questions in another order, of another object. """
    tax1, _, inputs1 = build(case)
    tax2, _, _ = build(case)
    snapshot = repr(inputs1)
    first = [tax1(inc, year) for year, inc in case['queries']]
    again = [tax1(inc, year) for year, inc in case['queries']]
    second = {}
    for i in case['order']:
        year, inc = case['queries'][i]
        tax2.accum(year)
        second[i] = tax2.tax_money(inc, year)
    for i, query in enumerate(case['queries']):
        rec.close(again[i], first[i], "same query repeated: %r" % query)
        rec.close(second[i], first[i], "query in another order: %r" % query)
    rec.nontrivial(len({q[0] for q in case['queries']}) > 1)
    years = {y for y, _ in case['table']}
    rec.eq({y: dict((t, r) for t, r in b) for y, b in case['table']},
           {y: inputs1[0][y] for y in inputs1[0]}, "brackets passed in")
    rec.eq(set(inputs1[0]), years, "years of the brackets passed in")
    rec.eq(repr(inputs1), snapshot, "arguments")


@st.composite
def lookup_case(draw):
    case = draw(tax_spec())
    case['years'] = draw(st.lists(
        st.integers(BASE, BASE + SPAN), min_size=1, max_size=6))
    case['incomes'] = draw(st.lists(money(0, 500000), min_size=1, max_size=4))
    case['amounts_first'] = draw(st.booleans())
    return case


def lookup(case, rec):
    """ Thresholds, rates, accumulated tax, deductions, credit rates. """
    tax, ref, _ = build(case)
    def amounts(year):
        rec.close(
            tax.personal_deduction(year),
            models.value_for(ref['deduction'], ref['adjust'], year),
            "personal deduction in %d" % year)
        rec.close(tax.credit_rate(year), ref_credit_rate(ref, year),
                  "credit rate in %d" % year)

    for year in case['years']:
        if case['amounts_first']:
            amounts(year)
        brackets = models.brackets_for(ref['table'], ref['adjust'], year)
        actual = sorted(tax.tax_brackets(year).items())
        rec.eq(len(actual), len(brackets), "number of brackets in %d" % year)
        accum = tax.accum(year)
        rec.eq(len(accum), len(brackets), "number of accums in %d" % year)
        rec.nontrivial(len(brackets) > 1)
        for i, ((thr, rate_), (rthr, rrate)) in enumerate(
                zip(actual, brackets)):
            rec.close(thr, rthr, "threshold %d in %d" % (i, year))
            rec.close(rate_, rrate, "rate %d in %d" % (i, year))
            rec.eq(tax.tax_brackets(year, thr), rate_, "rate of a bracket")
            rec.close(
                tax.accum(year, thr), models.bracket_tax(brackets, rthr),
                "accum at %r in %d" % (thr, year), abs_=1e-5)
        amounts(year)
        for income in case['incomes']:
            if any(abs(income - t) < 1e-3 for t, _ in brackets):
                continue
            below = [(t, r) for t, r in brackets if t < income]
            thr, rate_ = below[-1] if below else brackets[0]
            rec.close(tax.marginal_bracket(income, year), thr,
                      "marginal bracket of %r in %d" % (income, year))
            rec.close(tax.marginal_rate(income, year), rate_,
                      "marginal rate of %r in %d" % (income, year))


def shape(case, rec):
    """ Metamorphic: zero at 0, monotone, continuous, slope = rate. """
    tax, ref, _ = build(case)
    for year in case['years']:
        brackets = models.brackets_for(ref['table'], ref['adjust'], year)
        rec.nontrivial(len(brackets) > 1)
        deduction = tax.personal_deduction(year)
        rec.close(tax(0, year), 0, "tax on nothing")
        rec.close(
            tax(deduction, year, deduction=deduction), 0,
            "tax on income within the deduction")
        rec.close(
            tax(deduction / 2, year, deduction=deduction), 0,
            "tax on income within the deduction")
        points = sorted(case['incomes'] + [t for t, _ in brackets])
        prev = None
        for income in points:
            here = tax(income, year)
            rec.ok(here >= 0, "negative tax on %r", income)
            if prev is not None:
                rec.le(prev[1], here, "tax decreased between %r and %r" % (
                    prev[0], income))
                top = max(r for _, r in brackets)
                rec.le(here - prev[1], (income - prev[0]) * top,
                       "tax grew faster than the top rate")
            prev = (income, here)
        for thr, _ in brackets:
            if thr > 0:
                low = tax(thr * (1 - 1e-9), year)
                high = tax(thr * (1 + 1e-9), year)
                rec.close(high, low, "continuity at %r" % thr, abs_=1e-2)
        for income in case['incomes']:
            if all(abs(income - t) > 0.2 for t, _ in brackets):
                slope = (tax(income + 0.1, year) - tax(income, year)) / 0.1
                rec.close(slope, tax.marginal_rate(income, year),
                          "slope at %r" % income, abs_=1e-5)


@st.composite
def revise_case(draw):
    case = draw(tax_spec())
    years = [y for y, _ in case['table']]
    case['revisions'] = draw(st.lists(st.tuples(
        st.one_of(st.sampled_from(years), st.integers(BASE, BASE + SPAN)),
        bracket_list(), st.lists(money(0, 300000), min_size=1, max_size=3)
        ).map(list), min_size=1, max_size=4))
    case['queries'] = draw(st.lists(st.tuples(
        st.integers(BASE, BASE + SPAN), money(0, 300000)).map(list),
        min_size=1, max_size=4))
    return case


def revise(case, rec):
    """ Brackets that are added or replaced between queries. """
    tax, ref, _ = build(case)

    def query(year, income):
        rec.close(tax(income, year), ref_tax(ref, income, year),
                  "tax on %r in %d" % (income, year), rel=1e-8, abs_=1e-5)
        brackets = models.brackets_for(ref['table'], ref['adjust'], year)
        for (thr, value), (rthr, rrate) in zip(
                sorted(tax.tax_brackets(year).items()), brackets):
            rec.close(thr, rthr, "threshold in %d" % year)
            rec.close(value, rrate, "rate in %d" % year)
            rec.close(tax.accum(year, thr),
                      models.bracket_tax(brackets, rthr),
                      "accum in %d" % year, abs_=1e-5)

    for year, brackets, incomes in case['revisions']:
        if year in ref['table']:
            # (Years which weren't specified are asked about at the end)
            for income in incomes:
                query(year, income)
            rec.nontrivial(ref['table'][year] != [
                (t, r) for t, r in brackets])
        tax.add_brackets(dict((t, r) for t, r in brackets), year)
        ref['table'][year] = [(t, r) for t, r in brackets]
        for income in incomes:
            query(year, income)
    for year, income in case['queries']:
        query(year, income)


CHECKS = [
    Check('revise', revise_case, revise, 600, 10000,
          "brackets added and replaced between queries"),
    Check('schedule', schedule_case, schedule, 3000, 60000,
          "tax on money against a bracket-by-bracket reference"),
    Check('lookup', lookup_case, lookup, 1500, 30000,
          "extended thresholds, accums, deductions, credit rates, marginals"),
    Check('shape', lookup_case, shape, 1500, 30000,
          "zero, monotone, continuous, slope equals the marginal rate"),
    Check('order', order_case, order, 1500, 30000,
          "independence of query order and non-mutation of inputs"),
]
