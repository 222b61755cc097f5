""" C05: accounts which share a limit. """
import math
from hypothesis import strategies as st
from core import Check, money, rate
import acct
import models

RULE = (
    "Cases are households of accounts, each linked (or not) by owner and "
    "token for each of the four kinds of limit, with recorded flows, "
    "proposed flows for any member, timings and histories of operations "
    "(fill some or all of the room, change the limit, advance a year); "
    "non-trivial = a group of at least two members in which some other "
    "member has flows, or a history in which two members use one limit")
ASSUMPTIONS = [
    "every link has a limit", "groups are advanced together",
    "tokens for different kinds of limit are different",
    "max-outflow limits aren't smaller in size than flows force (rooms are "
    "floored at zero)"]
YEAR = 2000
KINDS = ('max_inflow', 'min_inflow', 'max_outflow', 'min_outflow')


@st.composite
def household(draw, max_accounts=4, tx=True, tight=False):
    n = draw(st.integers(2, max_accounts))
    choices = [[0, 'a']] * (12 if tight else 3) + [None, [0, 'b'], [1, 'a']]
    accounts = []
    for _ in range(n):
        accounts.append({
            'owner': draw(st.integers(0, 1)),
            'links': [draw(st.sampled_from(choices)) for _ in KINDS],
            'balance': draw(st.one_of(money(0, 50000), st.just(100000))),
            'rate': draw(rate(-0.2, 0.3)), 'nper': draw(
                st.sampled_from(['C', 1, 12])),
            'tx': draw(acct.tx_list(-2000, 3000, 3)) if tx else []})
    # A limit for each link in use, and which member provides it and how:
    limits = []
    for k, kind in enumerate(KINDS):
        links = []
        for account in accounts:
            link = account['links'][k]
            if link is not None and link not in links:
                links.append(link)
        for link in links:
            members = [i for i in range(n)
                       if accounts[i]['links'][k] == link]
            limits.append({
                'kind': k, 'link': link, 'value': draw(money(0, 20000)),
                'via': draw(st.sampled_from(members)),
                'how': draw(st.sampled_from(
                    ['init', 'set', 'twice', 'each', 'each'])),
                'other': draw(money(0, 40000))})
    return {'accounts': accounts, 'limits': limits,
            'age': draw(acct.age_st),
            'order': draw(st.permutations(range(n))),
            'order2': draw(st.permutations(range(n)))}


def sign_of(k):
    return 1 if k < 2 else -1


def build(case, order):
    from forecaster import LinkedLimitAccount
    from forecaster.accounts.link import AccountLink
    age = case.get('age', 0)
    people = [acct.person(YEAR - age, "A"), acct.person(YEAR - age, "B")]
    accounts = [None] * len(case['accounts'])
    for i in order:
        spec = case['accounts'][i]
        kwargs = {}
        for k, kind in enumerate(KINDS):
            link = spec['links'][k]
            if link is None:
                continue
            pair = (people[link[0]], kind + link[1])
            kwargs[kind + '_link'] = (
                pair if i % 2 == 0
                else AccountLink(pair, default_factory=lambda: None))
            for lim in case['limits']:
                if lim['kind'] == k and lim['link'] == link:
                    value = sign_of(k) * lim['value']
                    if lim['via'] == i and lim['how'] == 'init':
                        kwargs[kind + '_limit'] = value
                    if lim['how'] == 'twice' and i == order[0]:
                        kwargs[kind + '_limit'] = value + sign_of(k) * 777
                    if lim['how'] == 'each':
                        # Every member gives a limit; the last one's holds.
                        last = [j for j in order if case['accounts'][j][
                            'links'][k] == link][-1]
                        kwargs[kind + '_limit'] = (
                            value if i == last else sign_of(k) * lim['other'])
        accounts[i] = LinkedLimitAccount(
            people[spec['owner']], balance=spec['balance'],
            rate=acct.rates_since(YEAR, age, spec['rate']),
            nper=spec['nper'], **kwargs)
    acct.advance(YEAR, *accounts)
    for i in order:
        for when, amount in case['accounts'][i]['tx']:
            accounts[i].add_transaction(amount, when)
    for lim in case['limits']:
        if lim['how'] not in ('init', 'each'):
            setattr(accounts[lim['via']], KINDS[lim['kind']] + '_limit',
                    sign_of(lim['kind']) * lim['value'])
    return people, accounts


def merge(pairs):
    flows = {}
    for when, amount in pairs or ():
        when = acct.when_ref(when)
        flows[when] = flows.get(when, 0) + amount
    return flows


def flow(flows, k):
    return sum(v for v in flows.values() if (v > 0) == (k < 2))


def limit_of(case, k, link):
    if link is None:
        return (math.inf, 0, -math.inf, 0)[k]
    for lim in case['limits']:
        if lim['kind'] == k and lim['link'] == link:
            return sign_of(k) * lim['value']
    raise KeyError(link)


@st.composite
def room_case(draw):
    case = draw(household())
    n = len(case['accounts'])
    case['group'] = draw(st.one_of(st.none(), st.lists(
        st.one_of(st.none(), acct.tx_list(-2000, 3000, 2)),
        min_size=n, max_size=n)))
    case['own'] = draw(st.one_of(
        st.none(), st.none(), acct.tx_list(-2000, 3000, 2)))
    case['cap'] = draw(st.one_of(st.none(), st.none(), money(0, 15000)))
    case['balance_limit'] = draw(st.one_of(
        st.none(), st.none(), st.none(), money(0, 60000)))
    case['timing'] = draw(acct.timing_spec())
    case['queries'] = draw(st.permutations(
        [[i, k] for i in range(n) for k in range(4)]))
    return case


def room(case, rec):
    specs = case['accounts']
    _, accounts = build(case, case['order'])
    _, others = build(case, case['order2'])
    recorded = [merge(spec['tx']) for spec in specs]
    group = [merge(tx) for tx in case['group'] or [()] * len(specs)]
    before = [dict(account.transactions) for account in accounts]
    shares = acct.timing_ref(case['timing'])

    def query(accts, i, k):
        kwargs = {}
        if case['group'] is not None:
            kwargs['group_transactions'] = {
                accts[j]: dict(group[j]) for j in range(len(specs))
                if case['group'][j] is not None}
        if case['own'] is not None:
            kwargs['transactions'] = merge(case['own'])
        if case['cap'] is not None:
            kwargs['transaction_limit'] = sign_of(k) * case['cap']
        if case['balance_limit'] is not None:
            kwargs['balance_limit'] = case['balance_limit']
        return getattr(accts[i], KINDS[k] + 's')(
            timing=acct.timing_arg(case['timing']), **kwargs)

    first = {}
    for i, k in case['queries']:
        spec, link = specs[i], specs[i]['links'][k]
        own = merge(case['own']) if case['own'] is not None else group[i]
        everything = list(recorded[i].items()) + list(own.items())
        mates = [j for j in range(len(specs))
                 if j != i and link is not None
                 and specs[j]['links'][k] == link]
        left = limit_of(case, k, link) - flow(recorded[i], k) - flow(own, k)
        others_flow = sum(
            flow(recorded[j], k) + flow(group[j], k) for j in mates)
        left -= others_flow
        if case['cap'] is not None:
            left = (min if k < 2 else max)(left, sign_of(k) * case['cap'])
        nper = acct.nper_ref(spec['nper'])
        end = models.balance_at(
            spec['balance'], everything, spec['rate'], nper, 1)
        grow = sum(w * models.growth(spec['rate'], nper, 1 - t)
                   for t, w in shares.items())
        floor = case['balance_limit']
        if floor is None:
            floor = math.inf if k < 2 else 0
        total = (min if k < 2 else max)(left, (floor - end) / grow)
        total = (max if k < 2 else min)(total, 0)
        scale = (spec['balance'] + abs(others_flow) + 20000
                 + sum(abs(v) for _, v in everything) + (
                     abs(floor) if math.isfinite(floor) else 0))
        result = query(accounts, i, k)
        first[i, k] = result
        what = "%ss of account %d" % (KINDS[k], i)
        for t, share in shares.items():
            if share == 0:
                rec.close(result.get(t, 0), 0, what)
            elif math.isinf(total):
                rec.eq(result.get(t), total, what)
            else:
                rec.close(result.get(t, 0), total * share, what,
                          scale=scale, rel=1e-8)
        rec.ok(set(result) <= set(shares), "%s: times %r", what, result)
        rec.nontrivial(bool(mates) and others_flow != 0)
        rec.tag('others use the room', others_flow != 0)
        rec.tag('limited by the shared limit',
                bool(mates) and total == left and total != 0)
        rec.tag('room exhausted', total == 0 and bool(mates))
        rec.close(getattr(accounts[i], KINDS[k] + '_limit'),
                  limit_of(case, k, link), what + ": limit")
    # The order of creation, linking and queries has no effect:
    for i, k in reversed(case['queries']):
        again = query(others, i, k)
        rec.eq(set(again), set(first[i, k]), "times, in another order")
        for t in again:
            rec.close(again[t], first[i, k][t],
                      "%ss of account %d, accounts built in another order"
                      % (KINDS[k], i), rel=1e-8, scale=1e5)
    for i, account in enumerate(accounts):
        rec.eq(dict(account.transactions), before[i],
               "account's transactions")


@st.composite
def history_case(draw):
    case = draw(household(
        max_accounts=3, tight=True, tx=draw(st.sampled_from([False, False, True]))))
    n = len(case['accounts'])
    flow_op = st.fixed_dictionaries({
        'op': st.sampled_from(['in', 'in', 'out']),
        'who': st.integers(0, n - 1),
        'fraction': st.sampled_from([1, 0.5, 0.5, 0.25, 0.1]),
        'timing': acct.timing_spec()})
    case['ops'] = draw(st.lists(st.one_of(
        flow_op, flow_op, flow_op, flow_op,
        st.fixed_dictionaries({
            'op': st.just('set'), 'who': st.integers(0, n - 1),
            'kind': st.integers(0, 3), 'value': money(0, 20000)}),
        st.fixed_dictionaries({'op': st.just('year')})),
        min_size=3, max_size=9))
    return case


def history(case, rec):
    """ Uses the room a member reports, again and again. """
    specs = case['accounts']
    _, accounts = build(case, case['order'])
    users = {}
    lims = {(lim['kind'], tuple(lim['link'])):
            sign_of(lim['kind']) * lim['value'] for lim in case['limits']}

    def members(k, link):
        return [j for j in range(len(specs))
                if specs[j]['links'][k] == link]

    def used(k, link):
        return sum(flow(dict(accounts[j].transactions), k)
                   for j in members(k, link))

    for step, op in enumerate(case['ops']):
        what = "step %d (%s)" % (step, op)
        if op['op'] == 'year':
            for account in accounts:
                account.next_year()
            for account in accounts:
                rec.eq(dict(account.transactions), {}, what)
            users = {}
        elif op['op'] == 'set':
            link = specs[op['who']]['links'][op['kind']]
            name = KINDS[op['kind']] + '_limit'
            value = sign_of(op['kind']) * op['value']
            if link is None:
                rec.raises(AttributeError, lambda: setattr(
                    accounts[op['who']], name, value), what)
            else:
                setattr(accounts[op['who']], name, value)
                lims[op['kind'], tuple(link)] = value
        else:
            k = 0 if op['op'] == 'in' else 2
            who = accounts[op['who']]
            link = specs[op['who']]['links'][k]
            timing = acct.timing_arg(op['timing'])
            flows = getattr(who, KINDS[k] + 's')(timing=timing)
            rec.tag('unlimited', any(map(math.isinf, flows.values())))
            if any(map(math.isinf, flows.values())):
                continue
            if link is not None:
                room_left = lims[k, tuple(link)] - used(k, link)
                rec.le(abs(sum(flows.values())),
                       max(room_left * sign_of(k), 0),
                       what + ": more than the room left", scale=1e5)
            for when, amount in flows.items():
                rec.ok(amount * sign_of(k) >= 0, "%s: direction", what)
                if amount:
                    who.add_transaction(amount * op['fraction'], when)
            total = sum(flows.values())
            if link is not None and total != 0:
                users.setdefault((k, tuple(link)), set()).add(op['who'])
                rec.nontrivial(len(users[k, tuple(link)]) > 1)
                exhausted = (
                    op['fraction'] == 1
                    and abs(total - room_left) <= 1e-6)
                rec.tag('room exhausted', exhausted)
                rec.nontrivial(exhausted and len(members(k, link)) > 1)
                if exhausted:
                    left = lims[k, tuple(link)] - used(k, link)
                    for j in members(k, link):
                        rest = getattr(accounts[j], KINDS[k] + 's')(
                            timing=timing)
                        rec.le(abs(sum(rest.values())),
                               max(left * sign_of(k), 0),
                               what + ": room left in account %d" % j,
                               scale=1e5)
        # The limits everyone sees, and no others:
        for j, account in enumerate(accounts):
            for k, kind in enumerate(KINDS):
                link = specs[j]['links'][k]
                expected = ((math.inf, 0, -math.inf, 0)[k] if link is None
                            else lims[k, tuple(link)])
                rec.close(getattr(account, kind + '_limit'), expected,
                          what + ": %s_limit of account %d" % (kind, j))
                if link is not None:
                    group = getattr(account, kind + '_link').group
                    rec.ok(group == {accounts[m] for m in members(k, link)},
                           "%s: group of account %d", what, j)


@st.composite
def link_case(draw):
    return {
        'init': draw(st.sampled_from(['none', 'list', 'zero'])),
        'names': draw(st.sampled_from(['AB', 'AA'])),
        'ops': draw(st.lists(st.fixed_dictionaries({
            'op': st.sampled_from([
                'make', 'link', 'unlink', 'data', 'unregister', 'register',
                'copy']),
            'owner': st.integers(0, 1),
            'token': st.sampled_from(['a', 'b', 3]),
            'account': st.integers(0, 2),
            'value': st.integers(0, 1000)}), min_size=1, max_size=14))}


def links(case, rec):
    """ AccountLink against a plain dictionary. """
    from forecaster import Account
    from forecaster.accounts.link import AccountLink
    people = [acct.person(YEAR, name) for name in case['names']]
    accounts = [Account(people[0], balance=1) for _ in range(3)]
    factory = {'none': lambda: None, 'list': list, 'zero': int}[case['init']]
    model, objs = {}, {}

    for op in case['ops']:
        key = (op['owner'], op['token'])
        if key not in objs or op['op'] == 'make':
            obj = AccountLink((people[op['owner']], op['token']),
                              default_factory=factory)
            objs.setdefault(key, []).append(obj)
            model.setdefault(key, [factory(), set()])
        link = objs[key][-1]
        if op['op'] == 'copy':
            objs[key].append(AccountLink(link))
            model.setdefault(key, [factory(), set()])
        elif op['op'] == 'register':
            link.register()
            model.setdefault(key, [factory(), set()])
        elif op['op'] == 'unregister':
            link.unregister()
            model.pop(key, None)
        elif key not in model:
            if op['op'] == 'link':
                rec.raises(KeyError, lambda: link.link_account(
                    accounts[op['account']]), "linking when unregistered")
            elif op['op'] == 'data':
                def assign():
                    link.data = 5
                rec.raises(AttributeError, assign, "data when unregistered")
        elif op['op'] == 'link':
            link.link_account(accounts[op['account']])
            model[key][1].add(op['account'])
            rec.tag('linked twice', len(model[key][1]) > 1)
        elif op['op'] == 'unlink' and op['account'] in model[key][1]:
            link.unlink_account(accounts[op['account']])
            model[key][1].discard(op['account'])
        elif op['op'] == 'data':
            link.data = op['value']
            model[key][0] = op['value']
        rec.nontrivial(len(objs) > 1 and any(
            len(lst) > 1 for lst in objs.values()))
        for other, lst in objs.items():
            for obj in lst:
                rec.eq(obj.is_registered(), other in model, "is_registered")
                rec.ok(obj == lst[0] and hash(obj) == hash(lst[0]),
                       "equality of links")
                for third in objs:
                    if third != other:
                        rec.ok(not obj == objs[third][0],
                               "links of different groups are equal")
                if other not in model:
                    rec.eq(obj.data, None, "data when unregistered")
                    rec.eq(obj.group, None, "group when unregistered")
                    continue
                rec.eq(obj.data, model[other][0], "data")
                rec.ok(obj.group == {accounts[i] for i in model[other][1]},
                       "group")
                for i, account in enumerate(accounts):
                    rec.eq(obj.is_linked(account), i in model[other][1],
                           "is_linked")


CHECKS = [
    Check('room', room_case, room, 1200, 30000,
          "room of every member against a reference, in any order"),
    Check('history', history_case, history, 1000, 25000,
          "histories of filling shared room, changing limits and years"),
    Check('links', link_case, links, 600, 15000,
          "AccountLink against a dictionary model"),
]
