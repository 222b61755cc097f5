""" C13: people over the years. """
import calendar
import datetime
from hypothesis import strategies as st
from core import Check, money, rate
import models

RULE = (
    "Cases are birth dates (leap days included), query dates, retirement "
    "dates or ages, raise schedules, tax treatments, years of input income "
    "and sequences of marriages; non-trivial = a query on either side of a "
    "birthday, an income history reaching retirement or with raises, or at "
    "least two marriages")
ASSUMPTIONS = ["a person born on Feb 29 has a birthday on Feb 28 in other "
               "years (as dateutil defines it)",
               "input income isn't given for the initial year"]


def birth_dates():
    return st.one_of(
        st.dates(datetime.date(1905, 1, 1), datetime.date(2020, 12, 31)).map(
            lambda d: [d.year, d.month, d.day]),
        st.integers(1908 // 4, 2016 // 4).map(
            lambda k: [4 * k, 2, 29] if calendar.isleap(4 * k)
            else [4 * k, 3, 1]),
        st.integers(1910, 2015).map(lambda y: [y, 1, 1]),
        st.integers(1910, 2015).map(lambda y: [y, 12, 31]))


def birthday(born, year):
    month, day = born[1], born[2]
    if (month, day) == (2, 29) and not calendar.isleap(year):
        day = 28
    return (year, month, day)


def ref_age(born, date):
    """ Number of birthdays up to and including `date` (y, m, d). """
    age = date[0] - born[0]
    return age if tuple(date) >= birthday(born, date[0]) else age - 1


def make_date(parts, form):
    y, m, d = parts
    if form == 'datetime':
        return datetime.datetime(y, m, d)
    if form == 'iso':
        return "%04d-%02d-%02d" % (y, m, d)
    return "%d %s %d" % (d, calendar.month_name[m], y)


FORMS = st.sampled_from(['datetime', 'iso', 'text'])


@st.composite
def age_case(draw):
    born = draw(birth_dates())
    year = draw(st.integers(born[0], born[0] + 110))
    delta = draw(st.integers(-3, 3))
    if draw(st.booleans()):
        date = draw(st.dates(datetime.date(born[0], 1, 1),
                             datetime.date(born[0] + 110, 12, 31)))
    else:
        date = (datetime.date(*birthday(born, year))
                + datetime.timedelta(days=delta))
    return {'born': born, 'form': draw(FORMS), 'year': year,
            # (Somebody born on January 1 may be known by their birth year.)
            'bare': draw(st.sampled_from([None, 'int', 'str'])),
            'date': [date.year, date.month, date.day],
            'date_form': draw(FORMS),
            'retire': draw(st.integers(0, 90)),
            # What's later found to be right instead
            'later': draw(st.lists(st.one_of(
                st.tuples(st.just('birth'), birth_dates()),
                st.tuples(st.just('retire'), st.dates(
                    datetime.date(1900, 1, 1), datetime.date(2150, 12, 31)
                ).map(lambda d: [d.year, d.month, d.day])),
                st.tuples(st.just('age'), st.integers(0, 90))).map(list),
                max_size=3)),
            'how': draw(st.sampled_from(['age', 'date', 'year'])),
            'shift': draw(st.integers(-2, 2))}


def age(case, rec):
    from forecaster import Person
    born = case['born']
    retire_year = born[0] + case['retire']
    if case['how'] == 'date':
        day = (datetime.date(*birthday(born, retire_year))
               + datetime.timedelta(days=case['shift']))
        retired = [day.year, day.month, day.day]
        if tuple(retired) < tuple(born):
            retired = list(born)
    else:
        retired = list(birthday(born, retire_year))
    birth = make_date(born, case['form'])
    if case['bare'] and born[1:] == [1, 1]:
        birth = {'int': int, 'str': str}[case['bare']](born[0])
        rec.tag('birth year only')
    person = Person(
        2000, "A", birth,
        retirement_date=(
            (int if case['bare'] else str)(retire_year)
            if case['how'] == 'year'
            else make_date(retired, case['form'])))
    if case['how'] == 'age':
        person.retirement_date = '31 December 2100'
        person.retirement_age = case['retire']
    rec.nontrivial()
    bd = person.birth_date
    rec.eq([bd.year, bd.month, bd.day], born, "birth date")
    rd = person.retirement_date
    rec.eq([rd.year, rd.month, rd.day], retired, "retirement date")
    rec.eq(person.retirement_age, ref_age(born, retired),
           "retirement age for %r" % retired)
    if case['how'] == 'age':
        rec.eq(person.retirement_age, case['retire'], "retirement age")
    date = case['date']
    rec.eq(person.age(make_date(date, case['date_form'])),
           ref_age(born, date), "age on %r" % date)
    rec.eq(person.age(case['year']), case['year'] - born[0],
           "age attained in %d" % case['year'])
    rec.eq(person.age(datetime.datetime(*date)), ref_age(born, date),
           "age at a datetime")
    rec.tag('leap day', born[1:] == [2, 29])
    rec.tag('birthday', tuple(date) == birthday(born, date[0]))
    # The day before each birthday the person is a year younger:
    for year in (case['year'], case['year'] + 1):
        on = datetime.datetime(*birthday(born, year))
        rec.eq(person.age(on), year - born[0], "age on a birthday")
        rec.eq(person.age(on - datetime.timedelta(days=1)),
               year - born[0] - 1, "age on the eve of a birthday")
    if retire_year > born[0]:
        early = datetime.datetime(*born) - datetime.timedelta(days=1)

        def retire_early():
            person.retirement_date = early
        rec.raises(ValueError, retire_early, "retiring before birth")
        rd = person.retirement_date
        rec.eq([rd.year, rd.month, rd.day], retired,
               "retirement date after a rejected one")
    for what, value in case['later']:
        if what == 'birth':
            if tuple(value) > tuple(retired):
                continue
            born = value
            person.birth_date = make_date(born, case['form'])
        elif what == 'retire':
            if tuple(value) < tuple(born):
                continue
            retired = value
            person.retirement_date = make_date(retired, case['date_form'])
        else:
            retired = list(birthday(born, born[0] + value))
            person.retirement_age = value
            rec.eq(person.retirement_age, value, "retirement age as set")
        rec.tag('changed ' + what)
        bd, rd = person.birth_date, person.retirement_date
        rec.eq([bd.year, bd.month, bd.day], list(born), "birth date")
        rec.eq([rd.year, rd.month, rd.day], list(retired), "retirement date")
        rec.eq(person.retirement_age, ref_age(born, retired),
               "retirement age once changed")
        rec.eq(person.age(case['year']), case['year'] - born[0],
               "age once changed")
        if tuple(date) >= tuple(born):
            rec.eq(person.age(make_date(date, case['date_form'])),
                   ref_age(born, date), "age at a date once changed")


@st.composite
def income_case(draw):
    n = draw(st.integers(1, 8))
    initial = draw(st.integers(1990, 2030))
    return {
        'initial': initial, 'n': n,
        'income': draw(money(0, 300000)),
        'raise_mode': draw(st.sampled_from(
            ['const', 'dict', 'callable', 'none'])),
        'raises': draw(st.lists(rate(-0.2, 0.3), min_size=n + 1,
                                max_size=n + 1)),
        'retire': [initial + draw(st.integers(-2, n + 2)),
                   draw(st.integers(1, 12)), draw(st.integers(1, 28))],
        'tax': draw(st.one_of(st.none(), st.integers(0, 50))),
        'brackets': draw(st.booleans()),
        'inputs': [[initial + 1 + y, v] for y, v in draw(st.lists(
            st.tuples(st.integers(0, n - 1), money(0, 200000)), max_size=2,
            unique_by=lambda p: p[0]))],
        'reads': draw(st.lists(st.sampled_from(
            ['gross_income', 'net_income', 'raise_rate', 'tax_withheld',
             'gross_income_history']), max_size=3)),
        # Changes of plan, made as the numbered year begins
        'changes': draw(st.lists(st.one_of(
            st.tuples(st.just('raise'), st.integers(1, n),
                      st.one_of(st.none(), rate(-0.2, 0.3))),
            st.tuples(st.just('retire'), st.integers(1, n),
                      st.integers(-2, n + 2)),
            st.tuples(st.just('tax'), st.integers(1, n),
                      st.integers(0, 50)),
            st.tuples(st.just('income'), st.integers(1, n),
                      money(0, 300000))), max_size=3)),
        'peek': draw(st.booleans())}


def income(case, rec):
    from forecaster import Person, Tax
    initial, n = case['initial'], case['n']
    raises = {initial + i: r for i, r in enumerate(case['raises'])}
    mode = case['raise_mode']
    if mode == 'const':
        raises = {y: case['raises'][0] for y in raises}
        arg = case['raises'][0]
    elif mode == 'none':
        raises, arg = {y: 0 for y in raises}, None
    else:
        given = dict(raises)
        arg = given if mode == 'dict' else (lambda year: given[year])
    if case['tax'] is None:
        treatment, first_tax = None, lambda gross: 0
    else:
        low = case['tax'] / 100
        if case['brackets']:
            treatment = Tax({initial - 3: {0: low, 30000: low + 0.2}})
            first_tax = (lambda gross: models.bracket_tax(
                [(0, low), (30000, low + 0.2)], gross))
        else:
            treatment = (lambda gross, year: gross * low)
            first_tax = (lambda gross: gross * low)
    inputs = dict(map(tuple, case['inputs']))
    person = Person(
        initial, "A", datetime.datetime(initial - 40, 6, 1),
        retirement_date=datetime.datetime(*case['retire']),
        gross_income=case['income'], raise_rate=arg,
        tax_treatment=treatment,
        inputs={'gross_income': dict(inputs)} if inputs else None)
    gross = case['income']
    retire = case['retire'][0]
    born, retired = [initial - 40, 6, 1], case['retire']
    expected = {}
    tax_from = {initial: first_tax}

    def ref_tax(gross, year):
        return tax_from[max(y for y in tax_from if y <= year)](gross)

    for i in range(n + 1):
        year = initial + i
        if i:
            person.next_year()
            set_to = None
            changes = [c for c in case['changes'] if c[1] == i]
            if case['peek'] and {c[0] for c in changes} <= {'tax', 'income'}:
                # What was seen before the changes doesn't matter after.
                person.tax_withheld, person.taxable_income
            for what, when, value in changes:
                rec.tag('changed ' + what)
                if what == 'raise':
                    person.raise_rate_callable = value
                    raises.update({
                        y: value or 0 for y in raises if y >= year})
                elif what == 'tax':
                    person.tax_treatment = (
                        lambda gross, year, part=value / 100: gross * part)
                    tax_from[year] = (
                        lambda gross, part=value / 100: gross * part)
                elif what == 'income':
                    person.gross_income = set_to = value
                else:
                    retire = initial + value
                    retired = [retire, 6, 1]
                    person.retirement_date = datetime.datetime(*retired)
            for name in case['reads']:
                getattr(person, name)
            if year in inputs:
                gross = inputs[year]
                rec.tag('input income')
            elif set_to is not None:
                gross = set_to
            elif retire < year:
                gross = 0
                rec.tag('retired')
            else:
                gross = gross * (1 + raises[year])
        rec.nontrivial(i > 0 and (gross == 0 or raises[year] != 0))
        expected[year] = gross
        rec.eq(person.this_year, year, "year")
        rec.close(person.gross_income, gross, "gross income of %d" % year)
        rec.close(person.tax_withheld, ref_tax(gross, year), "tax withheld")
        rec.close(person.net_income, gross - ref_tax(gross, year),
                  "net income of %d" % year)
        rec.close(person.taxable_income, gross, "taxable income")
        rec.close(person.raise_rate, raises[year], "raise rate")
        rec.eq(person.retirement_age, ref_age(born, retired),
               "retirement age in %d" % year)
        rec.eq(person.retirement_date, datetime.datetime(*retired),
               "retirement date in %d" % year)
        for when in (initial, year, year + 1):
            rec.eq(person.age(when), when - born[0], "age in %d" % when)
        rec.eq(person.age(datetime.datetime(year, 5, 31)),
               year - born[0] - 1, "age in May %d" % year)
    for year, gross in expected.items():
        rec.close(person.gross_income_history[year], gross,
                  "recorded gross income of %d" % year)
        rec.close(person.net_income_history[year], gross - ref_tax(gross, year),
                  "recorded net income of %d" % year)


@st.composite
def marriage_case(draw):
    n = draw(st.integers(2, 5))
    who = st.integers(0, n - 1)
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just('marry'), who, who),
        st.tuples(st.just('marry'), who, who),
        st.tuples(st.just('part'), who),
        st.tuples(st.just('born'), who),
        st.tuples(st.just('account'), who),
        st.tuples(st.just('move'), st.integers(0, 9), who),
        st.tuples(st.just('drop'), st.integers(0, 9))),
        min_size=1, max_size=14))
    return {'n': n, 'ops': [list(o) for o in ops]}


def marriages(case, rec):
    from forecaster import Person, Account
    people = [Person(2000, "P%d" % i, '1 January 1980',
                     retirement_date='1 January 2045')
              for i in range(case['n'])]
    spouse = [None] * case['n']
    accounts, owner = [], []
    wed = 0
    for op in case['ops']:
        if op[0] == 'marry':
            a, b = op[1], op[2]
            if a == b:
                continue
            people[a].spouse = people[b]
            for x in (a, b):
                if spouse[x] is not None:
                    rec.tag('remarriage', spouse[x] not in (a, b))
                    spouse[spouse[x]] = None
                    spouse[x] = None
            spouse[a], spouse[b] = b, a
            wed += 1
        elif op[0] == 'part':
            people[op[1]].spouse = None
            if spouse[op[1]] is not None:
                spouse[spouse[op[1]]] = None
                spouse[op[1]] = None
        elif op[0] == 'born':
            # A new person who is married at construction:
            b = op[1]
            people.append(Person(2000, "N", '1 January 1985',
                                 retirement_date='1 January 2045',
                                 spouse=people[b]))
            if spouse[b] is not None:
                spouse[spouse[b]] = None
            spouse.append(b)
            spouse[b] = len(people) - 1
            wed += 1
        elif op[0] == 'account':
            accounts.append(Account(people[op[1]], balance=1))
            owner.append(op[1])
        elif op[0] == 'move' and accounts:
            k = op[1] % len(accounts)
            accounts[k].owner = people[op[2]]
            owner[k] = op[2]
        elif op[0] == 'drop' and accounts:
            k = op[1] % len(accounts)
            accounts[k].owner = None
            owner[k] = None
        rec.nontrivial(wed > 1)
        for i, person in enumerate(people):
            want = None if spouse[i] is None else people[spouse[i]]
            rec.ok(person.spouse is want, "spouse of %d after %r", i, op)
            held = [a for k, a in enumerate(accounts) if owner[k] == i]
            rec.eq(len(person.accounts), len(held), "number of accounts")
            for account in held:
                rec.ok(account in person.accounts, "account isn't listed")
        for k, account in enumerate(accounts):
            want = None if owner[k] is None else people[owner[k]]
            rec.ok(account.owner is want, "owner of account %d", k)
    rec.raises(TypeError, lambda: setattr(people[0], 'spouse', "B"),
               "a spouse who isn't a person")


CHECKS = [
    Check('age', age_case, age, 3000, 60000,
          "ages and retirement ages by counting birthdays"),
    Check('income', income_case, income, 1500, 30000,
          "gross and net income over the years"),
    Check('marriages', marriage_case, marriages, 1500, 30000,
          "spousal and ownership links under any sequence of changes"),
]
