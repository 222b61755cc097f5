""" C12: inflation. """
from hypothesis import strategies as st
from core import Check, money, rate
import models

RULE = (
    "Cases are inflation schedules (constant, list or table; including "
    "deflation and zero) with triples of years and sparse tables of nominal "
    "values; non-trivial = non-zero inflation between two different years")
ASSUMPTIONS = ["inflation is above -100%"]


def draw_rates(draw, n, values=rate(-0.2, 0.4), typical=rate(-0.03, 0.1)):
    """ A rate for each of n years (in a cycle if there are many). """
    if n <= 25:
        return draw(st.lists(values, min_size=n, max_size=n))
    cycle = draw(st.lists(typical, min_size=1, max_size=5))
    return (cycle * n)[:n]


@st.composite
def schedule(draw):
    first = draw(st.integers(1950, 2050))
    n = draw(st.one_of(
        st.integers(1, 25), st.integers(1, 25), st.integers(26, 160)))
    mode = draw(st.sampled_from(['list', 'dict', 'scalar', 'tuple']))
    rates = draw_rates(draw, n)
    if mode == 'scalar':
        rates = rates[:1] * n
    return {'first': first, 'rates': rates, 'mode': mode}


def as_input(case, rates=None):
    rates = case['rates'] if rates is None else rates
    mode = case['mode']
    if mode == 'scalar':
        return rates[0]
    if mode == 'dict':
        return {case['first'] + i: r for i, r in enumerate(rates)}
    return list(rates) if mode == 'list' else tuple(rates)


def build(case, **kwargs):
    from forecaster import Scenario
    args = dict(inflation=as_input(case), stock_return=0.07,
                bond_return=0.04, other_return=0.03, management_fees=0.005)
    args.update(kwargs)
    # (Rates may be known for years before the scenario's first)
    lead = case.get('lead', 0)
    return Scenario(
        case['first'] + lead, len(case['rates']) - lead, **args)


@st.composite
def leads(draw, case):
    """ How many years the rates begin before the scenario does. """
    if case['mode'] not in ('dict', 'scalar'):
        return 0
    return draw(st.one_of(
        st.just(0), st.integers(0, len(case['rates']) - 1)))


@st.composite
def law_case(draw):
    case = draw(schedule())
    n = len(case['rates'])
    case['lead'] = draw(leads(case))
    case['years'] = [draw(st.integers(0, n)) for _ in range(3)]
    case['revised'] = draw_rates(draw, n)
    case['revise'] = draw(st.sampled_from(['replace', 'in place']))
    return case


def laws(case, rec):
    scenario = build(case)
    model = models.Inflation(case['first'], case['rates'])
    a, b, c = (case['first'] + y for y in case['years'])
    adjust, accum = scenario.inflation_adjust, scenario.accumulation_function
    rec.nontrivial(a != b and model.adjust(a, b) != 1)
    rec.tag('backwards', a < b)
    rec.close(adjust(a, b), model.adjust(a, b), "adjusting %d to %d" % (b, a))
    rec.close(accum(a, b), model.adjust(b, a), "accumulation")
    start = case['first'] + case.get('lead', 0)
    rec.tag('before the scenario', min(a, b) < start)
    rec.close(adjust(a), model.adjust(a, start), "default base year")
    rec.close(adjust(a, a), 1, "same year")
    rec.close(adjust(a, b) * adjust(b, a), 1, "there and back")
    rec.close(adjust(a, b) * adjust(b, c), adjust(a, c), "path")
    rec.close(adjust(target_year=a, base_year=b), model.adjust(a, b),
              "keywords")
    table = scenario.inflation_adjustments(b)
    rec.eq(sorted(table), list(range(
        start, case['first'] + len(case['rates']))), "years")
    for year, value in table.items():
        rec.close(value, model.adjust(year, b), "adjustment of %d" % year)
    # Likewise for a scenario with different rates:
    revised = models.Inflation(case['first'], case['revised'])
    rates = {case['first'] + i: r for i, r in enumerate(case['revised'])}
    if case['revise'] == 'replace':
        scenario.inflation = rates
    else:
        for year, value in rates.items():
            scenario.inflation[year] = value
    rec.close(adjust(a, b), revised.adjust(a, b), "adjusting after a change")
    rec.close(accum(a, b), revised.adjust(b, a), "accumulation thereafter")
    for year, value in scenario.inflation_adjustments(b).items():
        rec.close(value, revised.adjust(year, b), "adjustment thereafter")
    # Changing the scenario changes the adjustment (it isn't a snapshot):
    other = build(case, inflation=0.5)
    adjust.scenario = other
    rec.close(adjust(case['first'] + 1, case['first']), 1.5,
              "adjustment after substituting the scenario")


@st.composite
def report_case(draw):
    case = draw(schedule())
    n = len(case['rates'])
    for name in ('stock', 'bond', 'other', 'fees'):
        case[name] = (
            [draw(rate(-0.5, 0.5))] * n if case['mode'] == 'scalar'
            else draw_rates(draw, n, rate(-0.5, 0.5), rate(-0.5, 0.5)))
    return case


def report(case, rec):
    inputs = {name: as_input(case, case[key]) for name, key in (
        ('inflation', 'rates'), ('stock_return', 'stock'),
        ('bond_return', 'bond'), ('other_return', 'other'),
        ('management_fees', 'fees'))}
    snapshot = repr(inputs)
    scenario = build(case, **inputs)
    n = len(case['rates'])
    rec.eq(len(scenario), n, "length")
    rec.eq(list(scenario), [case['first'] + i for i in range(n)], "years")
    rec.nontrivial(n > 1)
    for i in range(n):
        year = case['first'] + i
        rec.eq(scenario.inflation[year], case['rates'][i], "inflation")
        rec.eq(scenario.discount_rate(year), case['rates'][i], "discount")
        rec.eq(scenario.stock_return[year], case['stock'][i], "stocks")
        rec.eq(scenario.bond_return[year], case['bond'][i], "bonds")
        rec.eq(scenario.other_return[year], case['other'][i], "other")
        rec.eq(scenario.management_fees[year], case['fees'][i], "fees")
    rec.eq(repr(inputs), snapshot, "inputs")


@st.composite
def table_case(draw):
    case = draw(schedule())
    n = len(case['rates'])
    shape = draw(st.sampled_from(['scalar', 'dict', 'list', 'tuple']))
    value = money(-20000, 100000)
    if shape == 'dict':
        value = st.lists(st.tuples(st.sampled_from('abcd'), value).map(list),
                         min_size=1, max_size=3,
                         unique_by=lambda p: p[0])
    elif shape in ('list', 'tuple'):
        value = st.lists(value, min_size=1, max_size=3)
    case['shape'] = shape
    case['lead'] = draw(leads(case))
    case['table'] = [
        [y, draw(value)] for y in draw(st.lists(
            st.integers(0, n), min_size=1, max_size=4, unique=True))]
    case['years'] = draw(st.lists(st.integers(0, n), min_size=1, max_size=5))
    case['how'] = draw(st.sampled_from(['scenario', 'dict', 'none']))
    case['order'] = draw(st.sampled_from(['up', 'down', 'mixed']))
    return case


def extend(case, rec):
    from forecaster.utility import (
        extend_inflation_adjusted, nearest_year, build_inflation_adjust)
    first = case['first']
    model = models.Inflation(first, case['rates'])
    if case['how'] == 'scenario':
        adjust = build_inflation_adjust(build(case).inflation_adjust)
    elif case['how'] == 'dict':
        items = sorted(model.index.items(), reverse=case['order'] == 'down')
        if case['order'] == 'mixed':
            items = items[1::2] + items[::2]
        adjust = build_inflation_adjust(dict(items))
        for offset in case['years']:
            rec.close(adjust(first + offset),
                      model.adjust(first + offset, first),
                      "default base year")
    else:
        adjust = build_inflation_adjust(None)
    ref = (lambda t, b: 1.0) if case['how'] == 'none' else model.adjust
    table = {}
    for y, v in case['table']:
        table[first + y] = (
            dict(map(tuple, v)) if case['shape'] == 'dict'
            else list(v) if case['shape'] == 'list'
            else tuple(v) if case['shape'] == 'tuple' else v)
    snapshot = repr(table)
    for offset in case['years']:
        year = first + offset
        base = models.nearest(table, year)
        rec.eq(nearest_year(table, year), base, "nearest year to %d" % year)
        factor = 1.0 if base == year else ref(year, base)
        rec.nontrivial(base != year and factor != 1)
        rec.tag('later year', base > year)
        got = extend_inflation_adjusted(table, adjust, year)
        want = table[base]
        rec.eq(type(got), type(want), "type") if case['shape'] != 'scalar' \
            else None
        if case['shape'] == 'scalar':
            rec.close(got, want * factor, "value for %d" % year)
        elif case['shape'] == 'dict':
            rec.eq(set(got), set(want), "keys")
            for k in want:
                rec.close(got[k], want[k] * factor, "value of %s" % k)
        else:
            rec.eq(len(got), len(want), "length")
            for g, w in zip(got, want):
                rec.close(g, w * factor, "element")
    rec.eq(repr(table), snapshot, "table")
    rec.raises(ValueError, lambda: extend_inflation_adjusted(
        {}, adjust, first), "an empty table")
    rec.eq(nearest_year({}, first), None, "nearest of nothing")


CHECKS = [
    Check('laws', law_case, laws, 3000, 60000,
          "identity, inversion, path independence, default base"),
    Check('report', report_case, report, 800, 12000,
          "reported rates and years"),
    Check('extend', table_case, extend, 3000, 60000,
          "extension of sparse tables"),
]
