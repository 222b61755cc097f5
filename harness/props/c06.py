""" C06: contribution room of RRSPs and TFSAs. """
from hypothesis import strategies as st
from core import Check, horizon, money, rate
import acct
import models

RULE = (
    "Cases are households of two contributors with several RRSPs and TFSAs "
    "(owned by either, some with separate rooms), incomes and raises, "
    "inflation, contributions and withdrawals each year, room supplied for "
    "some years, and an order in which accounts and people are advanced; "
    "non-trivial = two accounts share room and both have flows, or a "
    "contributor crosses age 18 or 71, or room accrues in an indexed year")
ASSUMPTIONS = [
    "room isn't supplied as an input for the initial year",
    "statutory amounts are those of the packaged constants (2017)",
    "amounts within rounding error of a $250 boundary may round either way"]
ACCRUAL = {2009: 5000, 2010: 5000, 2011: 5000, 2012: 5000, 2013: 5500,
           2014: 5500, 2015: 10000, 2016: 5500, 2017: 5500}
RRSP_MAX = {2017: 25750.55}
FIRST, LAST = 1998, 2062
KNOWN = 'tfsa-accrual-deflated'


def inflation_st():
    return st.one_of(
        st.just([0.0] * (LAST - FIRST)),
        rate(0.0, 0.08).map(lambda r: [r] * (LAST - FIRST)),
        st.lists(rate(-0.02, 0.12), min_size=8, max_size=8).map(
            lambda rs: (rs * 8)[:LAST - FIRST]))


def make_adjust(case):
    """ (callable given to the code, reference Inflation). """
    inflation = models.Inflation(FIRST, case['inflation'])
    if case['inflation_form'] == 'dict':
        return dict(inflation.index), inflation
    if case['inflation_form'] == 'none':
        return None, models.Inflation(FIRST, [0.0] * (LAST - FIRST))
    return inflation.adjust, inflation


def tfsa_accruals(year, birth_year, inflation, deflate=False):
    """ Possible accruals (more than one at a rounding boundary). """
    if year - birth_year < 18 or year < 2009:
        return {0}
    if year in ACCRUAL:
        return {ACCRUAL[year]}
    factor = (inflation.adjust(2009, year) if deflate
              else inflation.adjust(year, 2009))
    steps = 5000 * factor / 500
    return {500 * round(steps - 1e-7), 500 * round(steps + 1e-7)}


@st.composite
def household(draw):
    year = draw(st.one_of(st.integers(2005, 2035), st.integers(2014, 2020)))
    people = []
    for _ in range(2):
        age = draw(st.one_of(
            st.integers(15, 40), st.integers(64, 74), st.integers(15, 80),
            st.just(18)))
        people.append({
            'birth_year': year - age,
            'income': draw(st.one_of(money(0, 60000), money(0, 300000))),
            'raise': draw(rate(-0.05, 0.1)),
            'retires': draw(st.integers(year, year + 40))})
    accounts = []
    for _ in range(draw(st.integers(1, 4))):
        accounts.append({
            'kind': draw(st.sampled_from(['RRSP', 'TFSA'])),
            'owner': draw(st.sampled_from([0, 0, 1])),
            'contributor': draw(st.sampled_from([None, None, 0, 1])),
            'token': draw(st.sampled_from([None, None, None, 'other'])),
            'balance': draw(money(0, 100000)), 'rate': draw(rate(0, 0.1)),
            'room': draw(st.one_of(st.none(), money(0, 60000))),
            'past': draw(st.one_of(st.none(), st.none(), st.tuples(
                st.integers(1, 6), money(0, 30000)).map(list)))})
    years = draw(horizon(6, 14))
    inputs = draw(st.lists(st.tuples(
        st.integers(0, len(accounts) - 1), st.integers(1, years),
        money(0, 40000)).map(list), max_size=2,
        unique_by=lambda item: item[1]))
    flows = [[draw(acct.tx_list(-8000, 12000, 2)) for _ in accounts]
             for _ in range(years)]
    moves = draw(st.lists(st.tuples(
        st.integers(0, years - 1), st.integers(0, len(accounts) - 1),
        st.integers(0, 1), money(0, 40000)).map(list), max_size=2))
    orders = [draw(st.permutations(
        list(range(len(accounts))) + ['A', 'B']))
        for _ in range(years)]
    return {'year': year, 'people': people, 'accounts': accounts,
            'inputs': inputs, 'flows': flows, 'orders': orders,
            'moves': moves, 'early': draw(st.booleans()),
            'begun': draw(acct.age_st),
            'inflation': draw(inflation_st()),
            'inflation_form': draw(st.sampled_from(
                ['callable', 'callable', 'dict', 'none']))}


def contributor_of(spec):
    return spec['owner'] if spec['contributor'] is None \
        else spec['contributor']


def group_key(spec):
    return (contributor_of(spec), spec['kind'], spec['token'])


def build(case):
    from forecaster import Person
    from forecaster.canada import RRSP, TFSA
    adjust, inflation = make_adjust(case)
    # (People may have been around for some years)
    begun = case['year'] - case.get('begun', 0)
    people = [
        Person(begun, "P%d" % i,
               birth_date='%d-06-15' % spec['birth_year'],
               retirement_date='%d-12-31' % spec['retires'],
               gross_income=spec['income'],
               raise_rate=spec['raise'] if begun == case['year'] else (
                   lambda year, rate=spec['raise']:
                   rate if year > case['year'] else 0))
        for i, spec in enumerate(case['people'])]
    acct.advance(case['year'], *people)
    accounts = []
    for i, spec in enumerate(case['accounts']):
        kwargs = {}
        given = {case['year'] + n: value for who, n, value in case['inputs']
                 if who == i}
        if spec['past'] is not None and spec['kind'] == 'TFSA':
            given[case['year'] - spec['past'][0]] = spec['past'][1]
        if given:
            kwargs['inputs'] = {'contribution_room': given}
        if spec['contributor'] is not None:
            kwargs['contributor'] = people[spec['contributor']]
        if spec['token'] is not None:
            kwargs['max_inflow_token'] = spec['kind'] + spec['token']
        if spec['room'] is not None:
            kwargs['contribution_room'] = spec['room']
        cls = RRSP if spec['kind'] == 'RRSP' else TFSA
        accounts.append(cls(
            people[spec['owner']], balance=spec['balance'],
            rate=spec['rate'], inflation_adjust=adjust,
            initial_year=case['year'], **kwargs))
    return people, accounts, inflation


def initial_rooms(case, inflation):
    """ {group: set of possible rooms}, and the same if deflated. """
    rooms = {}
    for spec in case['accounts']:
        key = group_key(spec)
        if spec['room'] is not None:
            rooms[key] = ({spec['room']}, {spec['room']})
        elif key not in rooms:
            if spec['kind'] == 'RRSP':
                rooms[key] = ({0}, {0})
                continue
            born = case['people'][key[0]]['birth_year']
            start, base = 2009, 0
            if spec['past'] is not None:
                start = case['year'] - spec['past'][0] + 1
                base = spec['past'][1]
            found = []
            for deflate in (False, True):
                sums = {base}
                for year in range(start, case['year'] + 1):
                    sums = {a + b for a in sums for b in tfsa_accruals(
                        year, born, inflation, deflate)}
                found.append(sums)
            rooms[key] = tuple(found)
    return rooms


def expect(rec, actual, expected, wrong, what, **kwargs):
    """ `actual` is one of `expected` (or the known finding's value). """
    from core import is_close
    if any(is_close(actual, value, **kwargs) for value in expected):
        rec.checks += 1
        return
    if any(is_close(actual, value, **kwargs) for value in wrong):
        rec.known(KNOWN, "TFSA room accruing after the last tabulated year "
                         "is deflated rather than indexed (%s: got %r, "
                         "expected %r)" % (what, actual, sorted(expected)))
        return
    rec.ok(False, "%s: got %r, expected %r", what, actual, sorted(expected))


def move(rec, people, accounts, groups, i, to, value):
    """ Changes the contributor to account `i`. """
    old = next(key for key, members in groups.items() if i in members)
    new = (to,) + old[1:]
    accounts[i].contributor = people[to]
    groups[old].remove(i)
    groups.setdefault(new, [])
    if groups[new]:
        mate = accounts[groups[new][0]]
        rec.close(accounts[i].max_inflow_limit, mate.max_inflow_limit,
                  "room of an account under its new contributor")
    else:
        accounts[i].contribution_room = value
        rec.close(accounts[i].contribution_room, value, "assigned room")
    groups[new].append(i)
    rec.tag('new contributor', old != new)
    for key, members in list(groups.items()):
        for j in members:
            rec.ok(accounts[j].contributor is people[key[0]], "contributor")
            rec.ok(accounts[j].max_inflow_link.group
                   == {accounts[k] for k in members},
                   "accounts sharing room after a new contributor")
        if not members:
            del groups[key]


def rooms(case, rec):
    people, accounts, inflation = build(case)
    specs = case['accounts']
    groups = {}
    for i, spec in enumerate(specs):
        groups.setdefault(group_key(spec), []).append(i)
    first = initial_rooms(case, inflation)
    seen = {i: {} for i in range(len(specs))}
    for key, members in groups.items():
        for i in members:
            expect(rec, accounts[i].contribution_room, *first[key],
                   "initial room of %s %d" % (specs[i]['kind'], i))
            rec.ok(accounts[i].contributor is people[key[0]], "contributor")
            rec.ok(accounts[i].max_inflow_link.group
                   == {accounts[j] for j in members}, "accounts sharing room")
    for step, flows in enumerate(case['flows']):
        year = case['year'] + step
        for when, i, to, value in case['moves']:
            # Someone else becomes the account's contributor
            if when == step and not any(
                    who == i and n == step for who, n, _ in case['inputs']):
                move(rec, people, accounts, groups, i, to, value)
        if case['early']:
            # What it's to be is asked before it's settled
            for account in accounts:
                account.next_contribution_room()
        for account, pairs in zip(accounts, flows):
            for when, amount in pairs:
                account.add_transaction(amount, when)
        coming = [account.next_contribution_room() for account in accounts]
        income = [person.gross_income for person in people]
        before, totals = {}, {}
        for key, members in groups.items():
            totals[key] = (
                sum(accounts[i].inflows() for i in members),
                sum(accounts[i].outflows() for i in members))
            for i in members:
                room = accounts[i].contribution_room
                rec.close(room, accounts[members[0]].contribution_room,
                          "accounts sharing room report different rooms")
                rec.close(accounts[i].max_inflow_limit, room,
                          "inflow limit and contribution room")
                most = sum(accounts[i].max_inflows().values())
                rec.close(most, max(room - totals[key][0], 0),
                          "maximum contributions to %s %d" % (
                              specs[i]['kind'], i), scale=1e5)
                seen[i][year] = room
            before[key] = accounts[members[0]].contribution_room
        for who in case['orders'][step]:
            obj = people['AB'.index(who)] if who in ('A', 'B') \
                else accounts[who]
            if obj.this_year == year:
                obj.next_year()
        for key, members in groups.items():
            person, kind, _ = key
            born = case['people'][person]['birth_year']
            given = [value for i, n, value in case['inputs']
                     if i in members and year + n - step == year + 1]
            inflow, outflow = totals[key]
            wrong = ()
            if given:
                expected = {given[0]}
                rec.tag('input room')
            elif kind == 'RRSP':
                most = models.value_for(
                    RRSP_MAX, inflation.adjust, year + 1)
                accrual = min(0.18 * income[person], most)
                expected = {before[key] - inflow + accrual}
                if year + 1 - born > 71:
                    expected = {0}
                rec.tag('past 71', year + 1 - born > 71)
                rec.tag('maximum accrual', accrual == most)
                rec.nontrivial(abs(year + 1 - born - 71) <= 1)
            else:
                expected, wrong = (
                    {before[key] - inflow - outflow + accrual
                     for accrual in tfsa_accruals(
                         year + 1, born, inflation, deflate)}
                    for deflate in (False, True))
                rec.nontrivial(abs(year + 1 - born - 18) <= 1)
                rec.nontrivial(year >= 2017
                               and inflation.adjust(year, 2009) != 1)
            rec.nontrivial(sum(
                1 for i in members if case['flows'][step][i]) > 1)
            for i in members:
                rec.eq(accounts[i].this_year, year + 1, "year")
                if not given:
                    expect(rec, coming[i], expected, wrong,
                           "room to come of %s %d in %d" % (kind, i, year),
                           abs_=1e-4)
                expect(rec, accounts[i].contribution_room, expected, wrong,
                       "room of %s %d in %d" % (kind, i, year + 1),
                       abs_=1e-4)
    last = case['year'] + len(case['flows'])
    for i, account in enumerate(accounts):
        past = account.contribution_room_history
        for year in range(case['year'], last):
            rec.close(past[year], seen[i][year],
                      "recorded room of account %d" % i)


@st.composite
def alias_case(draw):
    return {'kind': draw(st.sampled_from(['RRSP', 'TFSA'])),
            'room': draw(money(0, 50000)), 'other': draw(money(0, 50000)),
            'form': draw(st.sampled_from(
                ['room', 'limit', 'both', 'link', 'link+token',
                 'link+contributor', 'AccountLink'])),
            'assign': draw(money(0, 50000))}


def alias(case, rec):
    """ The ways to state who contributes and how much. """
    from forecaster.canada import RRSP, TFSA
    from forecaster.accounts.link import AccountLink
    cls = RRSP if case['kind'] == 'RRSP' else TFSA
    owner, other = acct.person(2015, "A"), acct.person(2015, "B")
    token = case['kind'] + '.max_inflow'
    kwargs = {
        'room': {'contribution_room': case['room']},
        'limit': {'max_inflow_limit': case['room']},
        'both': {'contribution_room': case['room'],
                 'max_inflow_limit': case['room']},
        'link': {'contribution_room': case['room'],
                 'max_inflow_link': (other, token)},
        'link+token': {'max_inflow_link': (other, token),
                       'max_inflow_token': token},
        'link+contributor': {'max_inflow_link': (other, token),
                             'contributor': other},
        'AccountLink': {'contribution_room': case['room'],
                        'max_inflow_link': AccountLink((other, token))},
    }[case['form']]
    if case['form'] in ('both', 'link+token', 'link+contributor'):
        rec.raises(ValueError, lambda: cls(owner, **kwargs), case['form'])
        return
    account = cls(owner, **kwargs)
    linked = case['form'] in ('link', 'AccountLink')
    rec.nontrivial()
    rec.ok(account.contributor is (other if linked else owner),
           "contributor")
    rec.close(account.contribution_room, case['room'], "room")
    mate = cls(owner, contributor=other if linked else owner)
    rec.close(mate.contribution_room, case['room'], "room of a second one")
    mate2 = cls(other, contribution_room=case['other'],
                contributor=other if linked else owner)
    for each in (account, mate, mate2):
        rec.close(each.contribution_room, case['other'],
                  "room after another account sets it")
    mate.contribution_room = case['assign']
    for each in (account, mate, mate2):
        rec.close(each.contribution_room, case['assign'],
                  "room after it's assigned")
    stranger = cls(owner, contributor=owner if linked else other,
                   contribution_room=5)
    rec.close(account.contribution_room, case['assign'],
              "room after another person's account is made")
    rec.close(stranger.contribution_room, 5, "another person's room")


CHECKS = [
    Check('rooms', household, rooms, 1200, 30000,
          "room of every account, year by year, against the rules"),
    Check('alias', alias_case, alias, 300, 3000,
          "ways of providing room and contributors"),
]
