""" C16: transaction plans honour limits, priorities and weights. """
from hypothesis import strategies as st
from core import Check, Violation, money, unit
import acct

RULE = (
    "Cases are (1) random nested ordered/weighted priority trees over "
    "accounts with minimum and maximum flows and node limits, with an "
    "amount to contribute or withdraw, (2) trees with repeated leaves or "
    "shared limits, (3) strategies over real accounts of two people with "
    "shared contribution room and minimum withdrawals; non-trivial = at "
    "least two accounts with room, and some limit or the amount binds")
ASSUMPTIONS = [
    "plans are made in units of 1e-5, so amounts agree to about 0.001",
    "minimum withdrawals are mandatory: they are made in full even if they "
    "exceed the amount wanted",
    "weights are positive; node limits are not below the minimums of the "
    "accounts below the node"]

TOL = dict(rel=1e-7, abs_=2e-3)


# ------------------------------------------------------------ references

def clamp(x, lo, hi):
    return min(max(x, lo), hi)


def water_fill(amount, weights, lows, highs):
    """ Shares in proportion to `weights`, within bounds.

    The shares are clamp(level * weight, low, high) for the level at which
    they total `amount` (which is limited to what's feasible).
    """
    amount = clamp(amount, sum(lows), sum(highs))

    def shares(level):
        return [clamp(level * w, lo, hi)
                for w, lo, hi in zip(weights, lows, highs)]

    points = sorted({x / w for w, lo, hi in zip(weights, lows, highs)
                     for x in (lo, hi)})
    below = 0
    for point in points:
        if sum(shares(point)) >= amount:
            above = point
            break
        below = point
    else:
        return list(highs)
    low, high = sum(shares(below)), sum(shares(above))
    # (Linear between consecutive points.)
    if high > low:
        below += (above - below) * (amount - low) / (high - low)
    return shares(below)


class Node:
    """ A priority tree with the limits which apply at each node. """

    def __init__(self, spec, leaves):
        self.kind = spec['kind']
        self.weight = spec.get('weight', 1)
        self.limit = spec.get('limit')
        if self.kind == 'leaf':
            self.index = len(leaves)
            leaves.append(self)
            self.low, self.high = min(spec['min'], spec['max']), spec['max']
            self.account_max = self.high
            self.children = []
        else:
            self.children = [Node(c, leaves) for c in spec['children']]
            self.low = sum(c.low for c in self.children)
            self.high = sum(c.high for c in self.children)
        if self.limit is not None:
            # (Limits below the minimums aren't explored)
            self.limit = max(self.limit, self.low)
            self.high = min(self.high, self.limit)
        self.cap = self.high

    def assign(self, amount, out, lows=None):
        """ Divides `amount` between the leaves. """
        low = (lambda n: n.low) if lows is None else lows
        if self.kind == 'leaf':
            out[self.index] += amount
        elif self.kind == 'weighted':
            shares = water_fill(
                amount, [c.weight for c in self.children],
                [low(c) for c in self.children],
                [c.cap for c in self.children])
            for child, share in zip(self.children, shares):
                child.assign(share, out, lows)
        else:
            spare = amount - sum(low(c) for c in self.children)
            for child in self.children:
                extra = min(spare, child.cap - low(child))
                spare -= extra
                child.assign(low(child) + extra, out, lows)

    def set_caps(self, lows_only):
        self.cap = self.low if lows_only else self.high
        for child in self.children:
            child.set_caps(lows_only)


def ignore_minimums(node):
    node.low = 0
    for child in node.children:
        ignore_minimums(child)


def reference(root, total, leaves):
    """ The amount each leaf should get. """
    out = [0] * len(leaves)
    amount = abs(total)
    if amount < 1e-4:
        return out
    if total > 0 and amount < root.low:
        # There isn't enough for the minimums.
        root.set_caps(True)
        root.assign(amount, out, lows=lambda n: 0)
        root.set_caps(False)
        return out
    # Minimum withdrawals are mandatory:
    amount = clamp(amount, root.low, root.high)
    root.assign(amount, out)
    return out


# ------------------------------------------------------------ fake accounts

class FakeAccount:
    """ Anything with the four limit methods can be a leaf.

    Amounts are divided between times in a fixed proportion.
    """

    def __init__(self, name, low, high, sign):
        self.name, self.low, self.high = name, low, high
        self.sign = sign
        self.calls = 0

    def __repr__(self):
        return self.name

    def _flows(self, amount, timing, limit):
        self.calls += 1
        if limit is not None:
            amount = min(amount, abs(limit))
        share = {t: k + 1 for k, t in enumerate(sorted(timing))}
        total = sum(share.values())
        return {t: self.sign * amount * n / total for t, n in share.items()}

    def _limit(self, inflow, amount, timing, limit):
        if inflow != (self.sign > 0):
            amount = 0
        return self._flows(amount, timing, limit)

    def max_inflows(self, timing=None, transaction_limit=None):
        return self._limit(True, self.high, timing, transaction_limit)

    def min_inflows(self, timing=None, transaction_limit=None):
        return self._limit(True, self.low, timing, transaction_limit)

    def max_outflows(self, timing=None, transaction_limit=None):
        return self._limit(False, self.high, timing, transaction_limit)

    def min_outflows(self, timing=None, transaction_limit=None):
        return self._limit(False, self.low, timing, transaction_limit)


def build_tree(node, accounts, sign, as_root=True):
    """ A `priority` argument for the tree. """
    from forecaster.accounts import LimitTuple
    from forecaster.strategy.transaction import TransactionNode
    if node.kind == 'leaf':
        source = accounts[node.index]
    elif node.kind == 'ordered':
        source = [build_tree(c, accounts, sign, False)
                  for c in node.children]
    else:
        source = {}
        for child in node.children:
            key = build_tree(child, accounts, sign, False)
            if isinstance(key, (dict, list)):
                key = TransactionNode(key)
            source[key] = child.weight
    if node.limit is not None:
        limits = (LimitTuple(max_inflow=node.limit) if sign > 0
                  else LimitTuple(max_outflow=-node.limit))
        source = TransactionNode(source, limits=limits)
    return source


def reverse_tree(tree, flip):
    """ Same tree, with weighted children listed in another order. """
    from forecaster.strategy.transaction import TransactionNode
    if isinstance(tree, TransactionNode):
        return TransactionNode(
            reverse_tree(tree.source, flip), limits=tree.limits)
    if isinstance(tree, dict):
        items = [(reverse_tree(k, flip), v) for k, v in tree.items()]
        return dict(reversed(items))
    if isinstance(tree, (list, tuple)):
        return [reverse_tree(c, flip) for c in tree]
    return tree


amount_st = st.one_of(
    st.sampled_from([0, 0, 100, 250, 500, 1000, 3000]),
    st.integers(0, 5000), st.integers(0, 500000).map(lambda c: c / 100))

weight_st = st.one_of(
    st.sampled_from([1, 1, 2, 3, 0.5]), st.integers(1, 20),
    st.integers(1, 300).map(lambda w: w / 100))

leaf_st = st.fixed_dictionaries({
    'kind': st.just('leaf'), 'weight': weight_st,
    'min': st.one_of(st.just(0), amount_st.map(lambda x: x / 4)),
    'max': amount_st,
    'limit': st.one_of(st.none(), st.none(), st.none(), amount_st)})


def parent(children):
    return st.fixed_dictionaries({
        'kind': st.sampled_from(['ordered', 'weighted']),
        'weight': weight_st,
        'limit': st.one_of(st.none(), st.none(), st.none(), amount_st),
        'children': st.lists(children, min_size=1, max_size=4)})


tree_spec = st.one_of(
    parent(leaf_st), parent(st.one_of(leaf_st, parent(leaf_st))),
    parent(st.one_of(leaf_st, parent(st.one_of(leaf_st, parent(leaf_st))))))


@st.composite
def tree_case(draw):
    sign = draw(st.sampled_from([1, -1]))
    flows = draw(st.lists(
        st.tuples(unit(), st.one_of(
            st.integers(1, 3000), money(1, 3000))).map(list),
        min_size=1, max_size=3, unique_by=lambda p: float(p[0])))
    return {'tree': draw(tree_spec), 'sign': sign, 'flows': flows,
            'total': draw(st.one_of(st.none(), amount_st)),
            'assign_min': draw(st.sampled_from([None, None, True, False])),
            'twice': draw(st.booleans())}


def summed(plan):
    return {account: sum(flows.values()) for account, flows in plan.items()}


def tree(case, rec):
    """ Nested trees against a recursive reference. """
    from forecaster.strategy.transaction import TransactionTraversal
    sign = case['sign']
    leaves = []
    root = Node(case['tree'], leaves)
    accounts = [FakeAccount('acc%d' % i, leaf.low, leaf.account_max, sign)
                for i, leaf in enumerate(leaves)]
    priority = build_tree(root, accounts, sign)
    available = {t: sign * v for t, v in case['flows']}
    kept = dict(available)
    kwargs = {}
    total = sum(available.values())
    if case['total'] is not None:
        total = kwargs['total'] = sign * case['total']
    if case['assign_min'] is not None:
        kwargs['assign_min'] = case['assign_min']
    if case['assign_min'] is False:
        ignore_minimums(root)
    want = reference(root, total, leaves)
    traversal = TransactionTraversal(priority)
    plan = traversal(available, **kwargs)
    rec.eq(available, kept, "the cash available")
    compare(rec, plan, accounts, want, sign, available)
    moved = sum(want)
    rec.nontrivial(
        sum(leaf.high > 1 for leaf in leaves) > 1 and moved > 1 and (
            moved > abs(total) - 1 or moved > root.high - 1))
    rec.tag('outflows' if sign < 0 else 'inflows')
    rec.tag('short of minimums', sign > 0 and abs(total) < root.low)
    rec.tag('minimum withdrawals exceed total',
            sign < 0 and abs(total) < root.low)
    rec.tag('limits bind', abs(total) > root.high + 1)
    if case['twice']:
        # Repeatable, in any listing order, also with an unrelated plan
        # made in between:
        traversal({0.5: sign * 17.0})
        compare(rec, traversal(available, **kwargs), accounts, want, sign,
                available)
        other = TransactionTraversal(reverse_tree(priority, True))
        compare(rec, other(available, **kwargs), accounts, want, sign,
                available)
        # ... and with priorities which are changed and changed back:
        simple = list(accounts)
        fresh = TransactionTraversal(simple)(available, **kwargs)
        traversal.priority = simple
        rec.ok(traversal.priority == simple, "priority once changed")
        again, fresh = summed(traversal(available, **kwargs)), summed(fresh)
        for account in accounts:
            rec.close(again.get(account, 0), fresh.get(account, 0),
                      "plan once the priorities have changed", abs_=2e-3)
        traversal.priority = priority
        rec.ok(traversal.priority == priority, "priority once restored")
        compare(rec, traversal(available, **kwargs), accounts, want, sign,
                available)


def compare(rec, plan, accounts, want, sign, available):
    """ Compares a plan to the amounts the reference gives. """
    got = summed(plan)
    for account, flows in plan.items():
        rec.ok(any(account is a for a in accounts),
               "plan includes unknown account %r", account)
        for when, value in flows.items():
            rec.ok(when in available, "unrequested time %r", when)
            rec.ok(value * sign >= -1e-6,
                   "%r has a flow of %r in the wrong direction",
                   account, value)
    for account, expected in zip(accounts, want):
        value = abs(got.get(account, 0))
        tol = max(2e-3, 1e-7 * expected)
        if abs(value - expected) > tol:
            raise Violation("%r gets %r, expected %r (plan %r, expected %r)" % (
                account, value, expected, [
                    abs(got.get(a, 0)) for a in accounts], want))
    rec.checks += len(accounts)


# ------------------------------------------------------- shared leaves/groups

@st.composite
def shared_case(draw):
    n = draw(st.integers(2, 5))
    leaf = st.fixed_dictionaries(
        {'kind': st.just('ref'), 'i': st.integers(0, n - 1),
         'weight': weight_st})

    def par(children, size):
        return st.fixed_dictionaries({
            'kind': st.sampled_from(['ordered', 'weighted']),
            'weight': weight_st, 'children': st.lists(
                children, min_size=1, max_size=size)})
    spec = draw(st.one_of(
        par(leaf, 5), par(st.one_of(leaf, par(leaf, 4)), 4)))
    sign = draw(st.sampled_from([1, -1]))
    return {'caps': draw(st.lists(amount_st, min_size=n, max_size=n)),
            'tree': spec, 'sign': sign, 'total': draw(amount_st),
            'groups': draw(st.lists(
                st.integers(0, 2), min_size=n, max_size=n)),
            'group_caps': draw(st.lists(
                amount_st, min_size=3, max_size=3)),
            'grouped': draw(st.booleans())}


def shared(case, rec):
    """ Accounts which occur repeatedly or share a limit. """
    from forecaster.accounts import LimitTuple
    from forecaster.strategy.transaction import (
        TransactionNode, TransactionTraversal)
    from forecaster.strategy.transaction.util import transaction_default_methods
    sign, n = case['sign'], len(case['caps'])
    caps = list(case['caps'])
    if case['grouped']:
        # Each member of a group can use the group's whole limit.
        caps = [case['group_caps'][g] for g in case['groups']]
    accounts = [FakeAccount('acc%d' % i, 0, cap, sign)
                for i, cap in enumerate(caps)]
    group = {id(a): (frozenset(
        b for b, h in zip(accounts, case['groups']) if h == g)
        if case['grouped'] else None)
             for a, g in zip(accounts, case['groups'])}
    used = []
    nested = []

    def build(spec):
        if spec['kind'] == 'ref':
            if spec['i'] in used:
                nested.append(spec['i'])
            used.append(spec['i'])
            return accounts[spec['i']]
        if spec['kind'] == 'ordered':
            return [build(c) for c in spec['children']]
        result = {}
        for c in spec['children']:
            if c['kind'] == 'ref' and accounts[c['i']] in result:
                continue
            child = build(c)
            if isinstance(child, (dict, list)):
                child = TransactionNode(child)
            result[child] = c['weight']
        return result
    priority = build(case['tree'])
    methods = transaction_default_methods()
    groups = LimitTuple(*[lambda a: group[id(a)]] * 4)
    traversal = TransactionTraversal(
        priority, transaction_methods=methods, group_methods=groups)
    total = case['total']
    plan = traversal({0.5: sign * total})
    got = {i: abs(sum(plan.get(a, {0: 0}).values()))
           for i, a in enumerate(accounts)}
    for account, flows in plan.items():
        for when, value in flows.items():
            rec.eq(when, 0.5, "time")
            rec.ok(value * sign >= -1e-6, "direction of %r", value)
    most = 0
    if case['grouped']:
        for g in range(3):
            members = [i for i in set(used) if case['groups'][i] == g]
            rec.le(sum(got[i] for i in members), case['group_caps'][g],
                   "flow into the group", **TOL)
            most += case['group_caps'][g] if members else 0
    else:
        for i in set(used):
            rec.le(got[i], caps[i], "flow into account %d" % i, **TOL)
            most += caps[i]
    for i in set(range(n)) - set(used):
        rec.eq(got[i], 0, "flow into an account which isn't listed")
    rec.close(sum(got.values()), min(total, most) if total > 1e-4 else 0,
              "total moved", **TOL)
    rec.nontrivial(most > 1 and total > 1 and len(set(used)) > 1
                   and (bool(nested) or case['grouped']))
    rec.tag('groups' if case['grouped'] else 'repeated', True)
    # Ordered lists of accounts: earlier ones are exhausted first.
    spec = case['tree']
    flat = []

    def flatten(node):
        if node['kind'] == 'ref':
            flat.append(node['i'])
            return True
        if node['kind'] == 'weighted' and len(node['children']) > 1:
            return False
        return all([flatten(c) for c in node['children']])
    if flatten(spec):
        rec.tag('ordered')
        left, room = total if total > 1e-4 else 0, {}
        want = dict.fromkeys(range(n), 0)
        for i in flat:
            key = ('g', case['groups'][i]) if case['grouped'] else i
            move = min(left, room.setdefault(key, caps[i]))
            room[key] -= move
            left -= move
            want[i] += move
        for i in want:
            rec.close(got[i], want[i], "account %d in %r" % (i, flat), **TOL)


# --------------------------------------------------------- real accounts

FIRST = 2010
KINDS = ['RRSP', 'TFSA', 'TaxableAccount', 'Account']
REGISTERED = ['RegisteredAccount', 'LinkedLimitAccount', 'Account']
# Weights apply to the nearest kind that's listed:
FAMILY = {'RRSP': ['RRSP'] + REGISTERED, 'TFSA': ['TFSA'] + REGISTERED,
          'TaxableAccount': ['TaxableAccount', 'Account'],
          'Account': ['Account']}
LISTABLE = KINDS + REGISTERED[:2]


@st.composite
def real_case(draw):
    accounts = draw(st.lists(st.fixed_dictionaries({
        'kind': st.sampled_from(KINDS), 'owner': st.integers(0, 1),
        'balance': st.one_of(st.just(0), money(0, 60000)),
        'rate': st.sampled_from([0, 0.05, 0.1, -0.05]),
        'flow': st.one_of(st.just(0), money(-2000, 5000))}),
        min_size=2, max_size=6))
    return {
        'accounts': accounts, 'order': draw(st.permutations(
            range(len(accounts)))),
        'ages': [draw(st.sampled_from([30, 60, 71, 73, 85])) for _ in '12'],
        'opened': draw(acct.age_st),
        'rooms': [[draw(st.one_of(st.just(0), money(0, 20000)))
                   for _ in 'RT'] for _ in '12'],
        'strategy': draw(st.sampled_from(['Ordered', 'Weighted'])),
        'weights': draw(st.permutations([1, 2, 3, 4, 5, 6])),
        'listed': draw(st.lists(
            st.sampled_from(LISTABLE), min_size=2, max_size=6,
            unique=True)),
        'before': {
            'strategy': draw(st.sampled_from(['Ordered', 'Weighted'])),
            'listed': draw(st.lists(
                st.sampled_from(LISTABLE), min_size=1, max_size=6,
                unique=True))},
        'sign': draw(st.sampled_from([1, 1, -1])),
        'flows': draw(st.lists(
            st.tuples(unit(), money(1, 20000)).map(list),
            min_size=1, max_size=3, unique_by=lambda p: float(p[0])))}


def real(case, rec):
    """ Strategies over real accounts. """
    from forecaster import Account, Person, TransactionStrategy
    from forecaster.canada import RRSP, TFSA, TaxableAccount
    types = {'Account': Account, 'RRSP': RRSP, 'TFSA': TFSA,
             'TaxableAccount': TaxableAccount}
    sign = case['sign']
    flat = lambda *args, **kwargs: 1
    available = {t: sign * v for t, v in case['flows']}
    total = sum(available.values())
    weights = {kind: case['weights'][LISTABLE.index(kind)]
               for kind in case['listed']}

    def build(order):
        opened = case.get('opened', 0)
        people = [Person(
            FIRST - opened, 'P%d' % i,
            birth_date='1 January %d' % (FIRST - age),
            retirement_date='31 December %d' % (FIRST + 1))
                  for i, age in enumerate(case['ages'])]
        built = {}
        for k in order:
            spec = case['accounts'][k]
            kwargs = {}
            if spec['kind'] in ('RRSP', 'TFSA'):
                kwargs = {
                    'inflation_adjust': flat,
                    'contribution_room': case['rooms'][spec['owner']][
                        spec['kind'] == 'TFSA']}
            if spec['kind'] == 'RRSP' and case['ages'][spec['owner']] > 71:
                kwargs['rrif_conversion_year'] = (
                    FIRST - case['ages'][spec['owner']] + 71)
            built[k] = types[spec['kind']](
                people[spec['owner']], balance=spec['balance'],
                rate=acct.rates_since(FIRST, opened, spec['rate']), **kwargs)
        acct.advance(FIRST, *people, *built.values())
        for k in built if opened else ():
            spec = case['accounts'][k]
            if spec['kind'] in ('RRSP', 'TFSA'):
                built[k].contribution_room = case['rooms'][spec['owner']][
                    spec['kind'] == 'TFSA']
        for k in sorted(order):
            spec = case['accounts'][k]
            if spec['flow'] and spec['kind'] in (
                    'TaxableAccount', 'Account') and (
                        spec['flow'] > 0 or spec['balance'] > 3000):
                built[k].add_transaction(spec['flow'], when=0.25)
        return built

    def figures(account):
        return (dict(account.transactions), account.balance,
                account.balance_at_time(1))

    built = build(range(len(case['accounts'])))
    strategy = TransactionStrategy(case['strategy'], dict(weights))
    before = {k: figures(a) for k, a in built.items()}
    caps, lows = {}, {}
    for k, account in built.items():
        if sign > 0:
            caps[k] = min(
                sum(account.max_inflows(available).values()), 1e9)
            lows[k] = sum(account.min_inflows(available).values())
        else:
            caps[k] = -sum(account.max_outflows(available).values())
            lows[k] = -sum(account.min_outflows(available).values())
    plan = strategy(dict(available), set(built.values()))
    for k, account in built.items():
        rec.eq(figures(account), before[k], "account %d" % k)
    got = {k: sign * sum(plan.get(a, {0: 0}).values())
           for k, a in built.items()}
    rec.eq(sum(1 for a in plan if a not in set(built.values())), 0,
           "unknown accounts in the plan")
    for account, flows in plan.items():
        for when, value in flows.items():
            rec.ok(when in available or abs(value) < 1e-6,
                   "unrequested time %r", when)
            rec.ok(value * sign >= -1e-6, "direction of %r", value)
    # Reference: groups of accounts with a shared limit, in types.
    chosen, types_of = {}, {}
    for k in built:
        kind = case['accounts'][k]['kind']
        name = next((n for n in FAMILY[kind] if n in weights), None)
        if name is not None:
            types_of.setdefault(name, []).append(k)
            chosen[k] = name

    def pool(k):
        spec = case['accounts'][k]
        if sign > 0 and spec['kind'] in ('RRSP', 'TFSA'):
            return (spec['owner'], spec['kind'])
        return k
    groups = {}
    for k in chosen:
        groups.setdefault(pool(k), []).append(k)
    group_cap = {g: caps[members[0]] for g, members in groups.items()}
    for g, members in groups.items():
        rec.ok(all(abs(caps[k] - group_cap[g]) < 1e-6 for k in members),
               "members of a group report different room: %r",
               [caps[k] for k in members])
    low_total = sum(lows[k] for k in chosen)
    kind_low = {n: sum(lows[k] for k in ks) for n, ks in types_of.items()}
    kind_cap = {
        n: sum(group_cap[g] for g in {pool(k) for k in ks})
        for n, ks in types_of.items()}
    most = sum(group_cap.values())
    amount = min(max(abs(total), low_total if sign < 0 else 0), most)
    if abs(total) < 1e-4:
        amount = 0
    for k in built:
        if k not in chosen:
            rec.eq(got[k], 0, "an unlisted kind of account")
        else:
            rec.le(got[k], caps[k], "account %d" % k, **TOL)
            if sign < 0:
                rec.le(lows[k], got[k], "minimum for account %d" % k, **TOL)
    for g, members in groups.items():
        rec.le(sum(got[k] for k in members), group_cap[g],
               "shared room of %r" % (g,), **TOL)
    rec.close(sum(got.values()), amount, "total moved", **TOL)
    names = sorted(types_of, key=weights.get)
    if case['strategy'] == 'Ordered':
        want, spare = {}, amount - low_total
        for n in names:
            extra = min(spare, kind_cap[n] - kind_low[n])
            want[n] = kind_low[n] + extra
            spare -= extra
    else:
        shares = water_fill(
            amount, [weights[n] for n in names],
            [kind_low[n] for n in names], [kind_cap[n] for n in names])
        want = dict(zip(names, shares))
    for n in names:
        rec.close(sum(got[k] for k in types_of[n]), want[n],
                  "total for %s (%r, expected %r)" % (n, got, want), **TOL)
        # Within a kind of account, equal shares as far as limits allow:
        members = types_of[n]
        if len({pool(k) for k in members}) == len(members):
            shares = water_fill(
                want[n], [1] * len(members), [lows[k] for k in members],
                [caps[k] for k in members])
            for k, share in zip(members, shares):
                rec.close(got[k], share, "account %d of kind %s" % (k, n),
                          **TOL)
    # The plan can be carried out:
    for account, flows in plan.items():
        for when, value in flows.items():
            if value:
                account.add_transaction(value, when=when)
    for k, account in built.items():
        if got[k] > 0.01 and sign < 0:
            rec.le(-0.01 if case['accounts'][k]['rate'] >= 0 else -0.1,
                   account.balance_at_time(1), "closing balance")
        elif sign > 0 and got[k] > 0.01 and k in chosen:
            room = sum(account.max_inflows(available).values())
            if room < 1e9:
                rec.le(abs(room - (caps[k] - sum(
                    got[j] for j in groups[pool(k)]))), 0.01,
                       "room which is left")
    # The same, whatever order they're listed (or made) in:
    # (This time, with a strategy that's been used in another way before.)
    again = build(case['order'])
    strategy = TransactionStrategy(case['before']['strategy'], {
        kind: case['weights'][-1 - LISTABLE.index(kind)]
        for kind in case['before']['listed']})
    for sign in (1, -1):
        strategy({t: sign * v for t, v in case['flows']},
                 set(again.values()))
    strategy.strategy = case['strategy']
    strategy.weights = dict(weights)
    sign = case['sign']
    other = strategy(dict(available), [again[k] for k in case['order']])
    by_group = lambda values: {
        g: sum(values[k] for k in members) for g, members in groups.items()}
    got2 = {k: sign * sum(other.get(a, {0: 0}).values())
            for k, a in again.items()}
    first, second = by_group(got), by_group(got2)
    for n in names:
        pools = {pool(k) for k in types_of[n]}
        if len(pools) == len(types_of[n]):
            for g in pools:
                rec.close(second[g], first[g],
                          "%r in another order" % (g,), **TOL)
    rec.nontrivial(len(chosen) > 1 and amount > 1 and (
        amount >= most - 1 or any(
            got[k] >= caps[k] - 0.01 for k in chosen)
        or case['strategy'] == 'Weighted'))
    rec.tag('shared room', sign > 0 and len(groups) < len(chosen))
    rec.tag('minimum withdrawals', sign < 0 and low_total > 0)
    rec.tag('all used up', amount >= most - 1)


# --------------------------------------------- accounts with linked limits

@st.composite
def linked_case(draw):
    return {
        'accounts': draw(st.lists(st.fixed_dictionaries({
            'group': st.sampled_from([None, 0, 0, 1]),
            'balance': st.one_of(st.just(0), money(0, 5000)),
            'flow': st.one_of(st.just(0), money(-500, 500))}),
            min_size=1, max_size=5)),
        'same_room': draw(st.booleans()),
        'limits': [draw(money(0, 8000)) for _ in '12'],
        'weights': draw(st.one_of(st.none(), st.lists(
            weight_st, min_size=5, max_size=5))),
        'sign': draw(st.sampled_from([1, -1])), 'total': draw(amount_st),
        'order': draw(st.permutations(range(5)))}


def linked(case, rec):
    """ Real accounts which share limits on in- or outflows. """
    from forecaster import Person
    from forecaster.accounts import LinkedLimitAccount
    from forecaster.strategy.transaction import TransactionTraversal
    sign, total = case['sign'], case['total']
    name = 'max_inflow' if sign > 0 else 'max_outflow'
    owner = Person(FIRST, 'A', birth_date='1 January 1970',
                   retirement_date='31 December 2050')
    accounts, keys = [], []
    for i, spec in enumerate(case['accounts']):
        kwargs = {}
        if spec['group'] is not None:
            kwargs = {name + '_link': (owner, 'g%d' % spec['group']),
                      name + '_limit': sign * case['limits'][spec['group']]}
        balance = spec['balance']
        if case['same_room']:
            balance = 10000  # (more than any limit)
        account = LinkedLimitAccount(
            owner, balance=balance, rate=0, nper=1, **kwargs)
        flow = spec['flow']
        if flow and (flow > 0 or balance >= -flow):
            account.add_transaction(flow, when=0)
        accounts.append(account)
        keys.append(i if spec['group'] is None else 'g%d' % spec['group'])
    order = [i for i in case['order'] if i < len(accounts)]
    # What each account could take (or give) alone:
    used = {key: 0 for key in keys}
    for account, key in zip(accounts, keys):
        used[key] += account.inflows() if sign > 0 else -account.outflows()
    own, room = {}, {}
    for i, (account, key) in enumerate(zip(accounts, keys)):
        own[i] = account.balance + account.inflows() + account.outflows() \
            if sign < 0 else float('inf')
        if isinstance(key, str):
            left = max(case['limits'][int(key[1])] - used[key], 0)
            room[key] = left
            own[i] = min(own[i], left)
        else:
            room[key] = own[i]
    kept = [dict(a.transactions) for a in accounts]
    priority = [accounts[i] for i in order]
    if case['weights'] is not None:
        priority = {accounts[i]: case['weights'][i] for i in order}
    plan = TransactionTraversal(priority)({0.5: sign * total})
    rec.eq([dict(a.transactions) for a in accounts], kept, "transactions")
    got = {}
    for i, account in enumerate(accounts):
        flows = plan.get(account, {})
        for when, value in flows.items():
            rec.eq(when, 0.5, "time")
            rec.ok(value * sign >= -1e-6, "direction of %r", value)
        got[i] = abs(sum(flows.values()))
        rec.le(got[i], own[i], "account %d's room" % i, **TOL)
    wanted = total if total > 1e-4 else 0
    groups = {key: [i for i in own if keys[i] == key] for key in keys}
    most = 0
    for key, members in groups.items():
        moved = sum(got[i] for i in members)
        rec.le(moved, room[key], "room of %r" % key, **TOL)
        most += min(room[key], sum(own[i] for i in members))
    want = min(wanted, most)
    moved = sum(got.values())
    uneven = [key for key, members in groups.items() if min(
        room[key], sum(own[i] for i in members)) > 1e-3 + max(
            own[i] for i in members)]
    # (Known: only what one of the members could move alone is let through)
    known = min(wanted, sum(
        max(own[i] for i in members) for members in groups.values()))
    exact = True
    if abs(moved - want) > 2e-3 + 1e-7 * want and uneven and \
            abs(moved - known) <= 5e-3 + 1e-7 * want:
        rec.known('group-room-of-one-member', "moved %r of %r" % (
            moved, want))
        exact = False
    if exact:
        rec.close(moved, want, "total moved", **TOL)
        if case['weights'] is None and not uneven:
            left = wanted
            for i in order:
                move = min(left, own[i], room[keys[i]])
                room[keys[i]] -= move
                left -= move
                rec.close(got[i], move, "account %d in order" % i, **TOL)
    rec.tag('shared', any(len(m) > 1 for m in groups.values()))
    rec.tag('uneven', bool(uneven))
    rec.nontrivial(want > 1 and any(len(m) > 1 for m in groups.values()))


CHECKS = [
    Check('tree', tree_case, tree, 1500, 30000,
          "nested priority trees match a recursive reference"),
    Check('shared', shared_case, shared, 1000, 20000,
          "repeated accounts and shared limits"),
    Check('real', real_case, real, 1000, 20000,
          "strategies over real accounts"),
    Check('linked', linked_case, linked, 800, 16000,
          "real accounts which share limits on flows in or out"),
]
