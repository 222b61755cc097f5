""" C10: taxes of people, groups and several jurisdictions. """
import copy
from hypothesis import strategies as st
from core import Check, horizon, money, rate
from props.c09 import (
    BASE, SPAN, bracket_list, build as build_tax, ref_credit_rate, ref_tax,
    tax_spec)
import models

RULE = (
    "Cases are tax schedules for one to three jurisdictions, households of "
    "people and couples with several accounts giving rise to income, "
    "deductions and credits over several years, and a list of ways to ask "
    "for tax (amounts, people, collections of any kind, with and without "
    "explicit deductions and credits); non-trivial = a taxed person has a "
    "deduction or credit from an account and a group query has two people")
ASSUMPTIONS = [
    "every year's brackets include a 0 threshold",
    "explicit deductions and credits are keyed by person (for groups) or "
    "by jurisdiction (for several jurisdictions), as documented"]


@st.composite
def household(draw, max_people=4):
    n = draw(st.integers(1, max_people))
    years = draw(horizon(3, 7))
    people = [{
        'income': draw(st.one_of(money(0, 60000), money(0, 400000))),
        'raise': draw(rate(-0.1, 0.2)),
        'retire': draw(st.integers(0, 5)),
        'accounts': [{
            'kind': draw(st.sampled_from(['custom', 'custom', 'plain'])),
            'balance': draw(money(0, 100000)), 'rate': draw(rate(-0.1, 0.3)),
            'values': [
                [draw(st.one_of(st.just(0), money(0, 30000),
                                money(-20000, 0)))]
                + [draw(st.one_of(st.just(0), money(0, 30000)))
                   for _ in range(2)] for _ in range(years)]}
                     for _ in range(draw(st.integers(0, 3)))]}
        for _ in range(n)]
    order = draw(st.permutations(range(n)))
    couples = [[order[2 * i], order[2 * i + 1]]
               for i in range(draw(st.integers(0, n // 2)))]
    return {'people': people, 'couples': couples, 'years': years,
            'names': draw(st.sampled_from(['P%d', 'P%d', 'P']))}


def custom_class():
    from forecaster import Account
    from forecaster.ledger import recorded_property

    class Custom(Account):
        """ An account whose tax attributes are given year by year. """
        def __init__(self, *args, values=None, **kwargs):
            self.values_by_year = values
            super().__init__(*args, **kwargs)

        def _value(self, i):
            row = self.this_year - self.initial_year
            return self.values_by_year[row][i] \
                if row < len(self.values_by_year) else 0

        @recorded_property
        def taxable_income(self):
            return self._value(0)

        @recorded_property
        def tax_deduction(self):
            return self._value(1)

        @recorded_property
        def tax_credit(self):
            return self._value(2)

    return Custom


def build_people(case):
    from forecaster import Account, Person

    Custom = custom_class()
    people = []
    for i, spec in enumerate(case['people']):
        person = Person(
            BASE, case['names'].replace('%d', str(i)), birth_date=BASE - 40,
            retirement_date='%d-12-31' % (BASE + spec['retire']),
            gross_income=spec['income'], raise_rate=spec['raise'])
        for acc in spec['accounts']:
            if acc['kind'] == 'custom':
                Custom(person, balance=acc['balance'], rate=acc['rate'],
                       values=acc['values'])
            else:
                Account(person, balance=acc['balance'], rate=acc['rate'])
        people.append(person)
    for a, b in case['couples']:
        people[a].spouse = people[b]
    return people


def figures(case, i):
    """ [(taxable income, deduction, credit)] of person `i` by year. """
    spec = case['people'][i]
    rows, income = [], spec['income']
    growing = [acc['balance'] for acc in spec['accounts']]
    for step in range(case['years']):
        if step:
            income = 0 if step > spec['retire'] \
                else income * (1 + spec['raise'])
        row = [income, 0, 0]
        for j, acc in enumerate(spec['accounts']):
            if acc['kind'] == 'custom':
                for k in range(3):
                    row[k] += acc['values'][step][k]
            else:
                row[0] += max(growing[j] * acc['rate'], 0)
            growing[j] *= 1 + acc['rate']
        rows.append(row)
    return rows


FORMS = {'list': list, 'set': set, 'tuple': tuple, 'dict': dict.fromkeys,
         'generator': lambda people: (p for p in people),
         'twice': lambda people: list(people) + list(people)}


@st.composite
def people_case(draw):
    case = draw(household())
    n = len(case['people'])
    case['taxes'] = draw(st.lists(
        tax_spec(), min_size=1, max_size=3))
    count = len(case['taxes'])
    extra = st.one_of(st.none(), st.lists(st.lists(
        st.one_of(st.none(), money(0, 20000)), min_size=n, max_size=n),
        min_size=count, max_size=count))
    case['queries'] = draw(st.lists(st.fixed_dictionaries({
        'year': st.integers(0, case['years'] - 1),
        'who': st.lists(st.integers(0, n - 1), max_size=n, unique=True),
        'form': st.sampled_from(sorted(FORMS) + ['person', 'person']),
        'deduction': extra, 'credit': extra,
        'how': st.sampled_from(['call', 'method', 'spouses'])}),
        min_size=1, max_size=6))
    for query in case['queries']:
        if query['how'] == 'spouses' and case['couples']:
            query['who'] = list(draw(st.sampled_from(case['couples'])))
    case['early'] = draw(st.sampled_from(
        [None, None, 'start', 'end', 'both']))
    # Later developments within a year: [year, person, which figure, value]
    case['events'] = [list(e) for e in draw(st.lists(st.tuples(
        st.integers(0, case['years'] - 1), st.integers(0, n - 1),
        st.integers(0, 2), money(0, 30000)), max_size=3))]
    return case


def ask(tax, multi, query, people, subjects, extras):
    """ Makes one query; returns (result, the arguments passed). """
    names = ('deductions', 'credits_') if multi else ('deduction', 'credit')
    kwargs, passed = {}, []
    single = query['form'] == 'person'
    for name, key in zip(names, ('deduction', 'credit')):
        rows = extras[key]
        if rows is None:
            continue
        args = []
        for row in rows:
            if single:
                args.append(row[subjects[0]] or 0)
            else:
                args.append({people[i]: row[i] for i in range(len(people))
                             if row[i] is not None})
        value = dict(zip(tax.jurisdictions, args)) if multi else args[0]
        kwargs[name] = value
        passed.append((value, {k: dict(v) if isinstance(v, dict) else v
                               for k, v in value.items()}
                       if isinstance(value, dict) else value))
    year = BASE + query['year']
    if single:
        subject = people[subjects[0]]
        method = tax if query['how'] == 'call' else tax.tax_person
    else:
        subject = FORMS[query['form']]([people[i] for i in subjects])
        method = tax if query['how'] == 'call' else tax.tax_people
        if query['how'] == 'spouses' and len(subjects) == 2 and people[
                subjects[0]].spouse is people[subjects[1]]:
            # (Counts each element, unlike a group.)
            method = tax.tax_spouses
            subject = {people[i] for i in subjects}
    return method(subject, year, **kwargs), passed


def expected_tax(refs, rows, subjects, query, extras):
    total = 0
    for j, ref in enumerate(refs):
        year = BASE + query['year']
        allowance = models.value_for(ref['deduction'], ref['adjust'], year)
        for i in subjects:
            income, deduction, credit = rows[i][query['year']]
            for key in ('deduction', 'credit'):
                if extras[key] is not None:
                    amount = extras[key][j][i] or 0
                    if key == 'deduction':
                        deduction += amount
                    else:
                        credit += amount
            total += ref_tax(
                ref, income, year, deduction=allowance + deduction,
                credit=credit)
    return total


def run_people(case, rec):
    from forecaster.tax import TaxMulti
    case = copy.deepcopy(case)
    people = build_people(case)
    taxes = [build_tax(spec) for spec in case['taxes']]
    multi = TaxMulti([tax for tax, _, _ in taxes])
    refs = [ref for _, ref, _ in taxes]
    rows = [figures(case, i) for i in range(len(people))]

    def go(queries, when):
        for query in queries:
            subjects = query['who']
            if query['form'] == 'person':
                if not subjects:
                    continue
                subjects = subjects[:1]
            for k, (tax, is_multi, used) in enumerate(
                    [(multi, True, refs)]
                    + [(tax, False, [ref]) for tax, ref, _ in taxes]):
                extras = {}
                for key in ('deduction', 'credit'):
                    given = query[key]
                    extras[key] = given if given is None or is_multi \
                        else [given[k - 1]]
                expected = expected_tax(used, rows, subjects, query, extras)
                what = "tax %s of %r (%s%s)" % (
                    query['year'], subjects, query['form'],
                    ', several jurisdictions' if is_multi else '')
                got, passed = ask(
                    tax, is_multi, query, people, subjects, extras)
                tol = dict(rel=1e-8, scale=1e5)
                rec.close(got, expected, what + when, **tol)
                for value, copy in passed:
                    rec.eq(value, copy, "arguments of " + what)
                again, _ = ask(tax, is_multi, query, people,
                               list(reversed(subjects)), extras)
                rec.close(again, expected, "repeated " + what, **tol)
            couple = any(a in subjects and b in subjects
                         for a, b in case['couples'])
            rec.tag('a couple together', couple)
            rec.tag('one of a couple', not couple and any(
                a in subjects or b in subjects for a, b in case['couples']))
            rec.tag('form ' + query['form'])
            rec.tag('explicit amounts', query['deduction'] is not None
                    or query['credit'] is not None)
            rec.nontrivial(len(subjects) > 1 and any(
                rows[i][query['year']][k] > 0
                for i in subjects for k in (1, 2)))

    def figures_of_year(step, when):
        for i, person in enumerate(people):
            income, deduction, credit = rows[i][step]
            rec.close(person.taxable_income, income, "taxable income",
                      scale=1e5)
            rec.close(person.tax_deduction, deduction, "deduction")
            rec.close(person.tax_credit, credit, "credit")
            year = BASE + step
            for tax, ref in zip((multi, *multi.jurisdictions),
                                (refs[0], *refs)):
                rec.close(tax.deduction(person, year), models.value_for(
                    ref['deduction'], ref['adjust'], year) + deduction,
                          "deductions of a person", scale=1e5)
                for kwargs in ({}, {'deduction': {}}) if tax is multi \
                        else ({}, {'deduction': deduction}):
                    rec.close(tax.credit(person, year, **kwargs), credit,
                              "credits of a person")
        if case['early'] in (when, 'both'):
            # (Asked in the year itself, so that the answer can't depend
            # on what happens afterwards.)
            go([q for q in case['queries'] if q['year'] == step],
               " (asked that year)")

    for step in range(case['years']):
        figures_of_year(step, 'start')
        events = [e for e in case['events'] if e[0] == step]
        for _, i, k, value in events:
            custom = [acc for acc in case['people'][i]['accounts']
                      if acc['kind'] == 'custom']
            if custom:
                custom[-1]['values'][step][k] = value
                rows[i] = figures(case, i)
                rec.tag('changed during the year')
        if events:
            figures_of_year(step, 'end')
        if step + 1 < case['years']:
            for person in people:
                person.next_year()
                for account in person.accounts:
                    account.next_year()
    go(case['queries'], " (asked afterwards)")


@st.composite
def multi_case(draw):
    count = draw(st.integers(1, 3))
    return {
        'amended': draw(st.lists(st.tuples(
            st.integers(0, count - 1), bracket_list(0)).map(list),
            max_size=2)),
        'replaced': draw(st.one_of(st.none(), tax_spec())),
        'taxes': [draw(tax_spec()) for _ in range(count)],
        'timings': [draw(st.sampled_from(
            [None, 0, 0.25, 0.5, 0.75, 1])) for _ in range(4)],
        'queries': draw(st.lists(st.tuples(
            st.integers(BASE, BASE + SPAN), money(0, 400000),
            st.lists(money(0, 20000), min_size=count, max_size=count),
            st.lists(money(0, 20000), min_size=count, max_size=count),
        ).map(list), min_size=1, max_size=5))}


def run_multi(case, rec):
    """ Amounts taxed in several jurisdictions. """
    from forecaster.tax import TaxMulti
    from forecaster.utility import Timing
    taxes = [build_tax(spec) for spec in case['taxes']]
    objs = [tax for tax, _, _ in taxes]
    refs = [ref for _, ref, _ in taxes]
    multi = TaxMulti(iter(objs))
    last = (dict(objs[-1].payment_timing), dict(objs[-1].refund_timing))
    rec.nontrivial(len(objs) > 1)
    rec.eq(tuple(multi.jurisdictions), tuple(objs), "jurisdictions")
    def inquire(objs, refs, query):
        year, income, deductions, credits_ = query
        plain = sum(ref_tax(ref, income, year) for ref in refs)
        for call in (multi, multi.tax_money):
            rec.close(call(income, year), plain, "tax on an amount",
                      rel=1e-8)
        ded, cred = dict(zip(objs, deductions)), dict(zip(objs, credits_))
        full = sum(ref_tax(ref, income, year, d, c) for ref, d, c in zip(
            refs, deductions, credits_))
        for call in (multi, multi.tax_money):
            rec.close(call(income, year, deductions=ded, credits_=cred),
                      full, "tax less deductions and credits",
                      rel=1e-8, scale=1e5)
        one = {objs[0]: deductions[0]}
        rec.close(multi(income, year, deductions=one),
                  ref_tax(refs[0], income, year, deductions[0]) + sum(
                      ref_tax(ref, income, year) for ref in refs[1:]),
                  "tax less one jurisdiction's deduction", rel=1e-8,
                  scale=1e5)
        rec.eq((ded, cred, one), (
            dict(zip(objs, deductions)), dict(zip(objs, credits_)),
            {objs[0]: deductions[0]}), "arguments")
        brackets = multi.tax_brackets(year)
        parts = [models.brackets_for(ref['table'], ref['adjust'], year)
                 for ref in refs]
        expected = sorted({t for part in parts for t, _ in part})
        rec.eq(len(brackets), len(set(brackets)), "combined thresholds")
        for t in expected:
            rec.ok(any(abs(t - b) <= 1e-6 + 1e-9 * t for b in brackets),
                   "combined brackets lack %r: %r", t, brackets)
        for threshold, combined in brackets.items():
            slope = sum(
                [r for t, r in part if t <= threshold + 1e-6
                 + 1e-9 * threshold][-1] for part in parts)
            near = any(abs(t - threshold) < 1e-3 and t != threshold
                       for t in expected)
            if not near:
                rec.close(combined, slope, "combined rate at %r" % threshold)
                rec.close(multi.tax_brackets(year, threshold), slope,
                          "combined rate")
            rec.close(multi.accum(year, threshold),
                      sum(ref_tax(ref, threshold, year) for ref in refs),
                      "tax up to a combined threshold", rel=1e-8)
            rec.close(multi.accum(year)[threshold],
                      multi.accum(year, threshold), "accum")
        rec.close(multi.marginal_rate(income, year),
                  sum(tax.marginal_rate(income, year) for tax in objs),
                  "marginal rate")
        rec.close(multi.marginal_bracket(income, year),
                  max(tax.marginal_bracket(income, year) for tax in objs),
                  "marginal bracket")
        rec.close(multi.credit_rate(year), ref_credit_rate(refs[0], year),
                  "credit rate")

    for query in case['queries']:
        inquire(objs, refs, query)
    for index, brackets in case['amended']:
        # The schedule of one jurisdiction is amended
        index, query = index % len(objs), case['queries'][-1]
        objs[index].add_brackets(
            {t: r for t, r in brackets}, query[0])
        refs = [dict(ref) for ref in refs]
        refs[index]['table'] = {  # (Only that year is asked about.)
            query[0]: [tuple(pair) for pair in brackets]}
        inquire(objs, refs, query)
    if case['replaced'] is not None:
        # Somebody moves
        tax, ref, _ = build_tax(case['replaced'])
        taxed = [tax] + objs[1:][::-1]
        multi.jurisdictions = iter(taxed)
        rec.eq(tuple(multi.jurisdictions), tuple(taxed), "jurisdictions")
        replaced = [ref] + refs[1:][::-1]
        for query in case['queries'][-1:]:
            inquire(taxed, replaced, query)
        multi.jurisdictions = objs
        rec.tag('jurisdictions replaced')

    def timings(expected, when):
        for name in ('payment_timing', 'refund_timing'):
            rec.eq(dict(getattr(multi, name)), dict(getattr(objs[0], name)),
                   name + when)
            if name in expected:
                rec.eq(dict(getattr(multi, name)), {expected[name]: 1},
                       name + " as set" + when)

    timings({}, "")
    expected = {}
    for k, (subject, name, when) in enumerate(zip(
            (multi, multi, objs[0], objs[0]),
            ('payment_timing', 'refund_timing') * 2, case['timings'])):
        if when is not None:
            setattr(subject, name, Timing(when))
            expected[name] = when
            timings(expected, " (change %d)" % k)
            if len(objs) > 1:
                rec.eq((dict(objs[-1].payment_timing),
                        dict(objs[-1].refund_timing)), last,
                       "the other jurisdiction's timings")


CHECKS = [
    Check('people', people_case, run_people, 1200, 25000,
          "taxes of people and groups against a reference"),
    Check('multi', multi_case, run_multi, 500, 12000,
          "several jurisdictions' taxes on amounts"),
]
