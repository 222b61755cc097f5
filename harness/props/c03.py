""" C03: transactions an account proposes. """
import math
from hypothesis import strategies as st
from core import Check, money, rate, unit
import acct
import models

RULE = (
    "Cases are an account state (balance, rate, frequency, recorded "
    "transactions, yearly limits), a timing in any supported form, proposed "
    "transactions, a balance limit and a cap; non-trivial = a non-zero rate "
    "or a limit other than the balance, and at least one non-zero result")
ASSUMPTIONS = [
    "limits are expressed through the documented limit properties of an "
    "Account subclass", "growth factors are positive"]
YEAR = 2000


@st.composite
def limits(draw):
    """ Yearly limits [min_in, max_in, min_out, max_out] (None = default). """
    lo_in = draw(st.one_of(st.none(), money(0, 3000)))
    hi_in = draw(st.one_of(st.none(), money(0, 9000)))
    if lo_in is not None and hi_in is not None:
        hi_in = hi_in + lo_in
    lo_out = draw(st.one_of(st.none(), money(0, 3000)))
    hi_out = draw(st.one_of(st.none(), money(0, 9000)))
    if lo_out is not None and hi_out is not None:
        hi_out = hi_out + lo_out
    return [lo_in, hi_in, lo_out, hi_out]


@st.composite
def state(draw):
    return {
        'kind': draw(st.sampled_from(['account', 'account', 'debt'])),
        'balance': draw(money(0, 50000)),
        'rate': draw(rate(-0.3, 0.6)), 'nper': draw(acct.nper_st),
        'tx': draw(acct.tx_list(-2000, 4000, 3)),
        'default': draw(acct.timing_spec()), 'age': draw(acct.age_st),
        'limits': draw(limits())}


def build(case):
    from forecaster import Account, Debt, Timing
    age = case.get('age', 0)
    person = acct.person(YEAR - age)
    default = acct.timing_arg(case['default'])
    rates = acct.rates_since(YEAR, age, case['rate'])
    if case['kind'] == 'debt':
        lo, hi = case['limits'][0], case['limits'][1]
        account = Debt(
            person, balance=-case['balance'], rate=rates,
            nper=case['nper'], default_timing=default,
            minimum_payment=lo or 0,
            accelerated_payment=(
                math.inf if hi is None else max(hi - (lo or 0), 0)))
    else:
        names = ('min_inflow_limit', 'max_inflow_limit',
                 'min_outflow_limit', 'max_outflow_limit')
        attrs = {}
        for name, sign, value in zip(names, (1, 1, -1, -1), case['limits']):
            if value is not None:
                attrs[name] = property(
                    lambda self, v=sign * value: v)
        cls = type('LimitedAccount', (Account,), attrs)
        account = cls(person, balance=case['balance'], rate=rates,
                      nper=case['nper'], default_timing=default)
    acct.advance(YEAR, account)
    for when, amount in case['tx']:
        account.add_transaction(amount, when)
    return account


def reference_state(case):
    flows = {}
    for when, amount in case['tx']:
        when = acct.when_ref(when)
        flows[when] = flows.get(when, 0) + amount
    lo_in, hi_in, lo_out, hi_out = case['limits']
    if case['kind'] == 'debt':
        lims = {'min_inflows': lo_in or 0,
                'max_inflows': math.inf if hi_in is None
                else max(hi_in, lo_in or 0),
                'min_outflows': 0, 'max_outflows': 0}
        balance = -case['balance']
    else:
        lims = {'min_inflows': lo_in or 0,
                'max_inflows': math.inf if hi_in is None else hi_in,
                'min_outflows': -(lo_out or 0),
                'max_outflows': -math.inf if hi_out is None else -hi_out}
        balance = case['balance']
    return balance, flows, lims


def closing(case, balance, flows):
    return models.balance_at(
        balance, flows, case['rate'], acct.nper_ref(case['nper']), 1)


def proportions(rec, result, shares, total, scale, what):
    """ `result` spreads `total` over `shares`. """
    for t, share in shares.items():
        if share == 0:
            rec.close(result.get(t, 0), 0, what + ": unweighted time")
        elif math.isinf(total):
            rec.eq(result.get(t), total, what + ": at %r" % t)
        else:
            rec.close(result.get(t, 0), total * share,
                      what + ": at %r" % t, scale=scale, rel=1e-8)
    for t in result:
        rec.ok(t in shares, "%s: %r isn't a requested time", what, t)


@st.composite
def target_case(draw):
    case = draw(state())
    case['target'] = draw(money(-20000, 80000))
    case['timing'] = draw(acct.timing_spec())
    case['max_total'] = draw(st.one_of(st.none(), money(-9000, 20000)))
    case['min_total'] = draw(st.one_of(st.none(), money(-20000, 9000)))
    if (case['max_total'] is not None and case['min_total'] is not None
            and case['min_total'] > case['max_total']):
        case['min_total'], case['max_total'] = (
            case['max_total'], case['min_total'])
    case['proposed'] = draw(st.one_of(
        st.none(), acct.tx_list(-2000, 2000, 3)))
    return case


def shares_of(case):
    """ The proportions the requested timing describes.

    A timing with no times at all falls back on the account's default.
    """
    default = acct.timing_ref(case['default'])
    return acct.timing_ref(case['timing'], default=tuple(default.items()))


def merge(pairs):
    flows = {}
    for when, amount in pairs or ():
        when = acct.when_ref(when)
        flows[when] = flows.get(when, 0) + amount
    return flows


def target(case, rec):
    account = build(case)
    balance, flows, _ = reference_state(case)
    extra = merge(case['proposed'])
    proposed = None if case['proposed'] is None else dict(extra)
    before = dict(account.transactions)
    timing = acct.timing_arg(case['timing'])
    result = account.transactions_to_balance(
        case['target'], timing=timing, transactions=proposed,
        max_total=case['max_total'], min_total=case['min_total'])
    shares = shares_of(case)
    everything = list(flows.items()) + list(extra.items())
    scale = (abs(balance) + sum(abs(v) for _, v in everything)
             + abs(case['target']) + 1)
    change = case['target'] - closing(case, balance, everything)
    nper = acct.nper_ref(case['nper'])
    total = change / sum(
        w * models.growth(case['rate'], nper, 1 - t)
        for t, w in shares.items())
    capped = total
    if case['max_total'] is not None:
        capped = min(capped, case['max_total'])
    if case['min_total'] is not None:
        capped = max(capped, case['min_total'])
    proportions(rec, result, shares, capped, scale, "transactions")
    rec.tag('capped', capped != total)
    rec.tag('zero weights', 0 in shares.values())
    rec.nontrivial(case['rate'] != 0 and abs(change) > 1)
    rec.eq(dict(account.transactions), before, "account's transactions")
    if proposed is not None:
        rec.eq(proposed, extra, "proposed transactions argument")
    for when, amount in result.items():
        account.add_transaction(amount, when)
    for when, amount in extra.items():
        account.add_transaction(amount, when)
    if capped == total:
        rec.close(account.balance_at_time('end'), case['target'],
                  "balance after the transactions", scale=scale, rel=1e-8)
        account.next_year()
        rec.close(account.balance, case['target'], "next year's balance",
                  scale=scale, rel=1e-8)


@st.composite
def limit_case(draw):
    case = draw(state())
    case['timing'] = draw(acct.timing_spec())
    case['proposed'] = draw(st.one_of(
        st.none(), st.none(), acct.tx_list(-2000, 2000, 3)))
    case['cap'] = draw(st.one_of(st.none(), st.none(), money(0, 20000)))
    case['balance_limit'] = draw(st.one_of(
        st.none(), st.none(), money(-5000, 80000)))
    return case


def limit(case, rec):
    balance, flows, lims = reference_state(case)
    extra = merge(case['proposed'])
    shares = shares_of(case)
    everything = list(flows.items()) + list(extra.items())
    nper = acct.nper_ref(case['nper'])
    scale = (abs(balance) + sum(abs(v) for _, v in everything)
             + abs(case['balance_limit'] or 0) + 1)
    end = closing(case, balance, everything)
    inflows = sum(v for _, v in everything if v > 0)
    # (Flows at the same time are netted within each set, not between.)
    outflows = sum(v for _, v in everything if v < 0)
    growth = sum(w * models.growth(case['rate'], nper, 1 - t)
                 for t, w in shares.items())
    account = build(case)
    before = dict(account.transactions)
    for name in ('max_inflows', 'max_outflows', 'min_inflows',
                 'min_outflows'):
        is_inflow = name.endswith('inflows')
        sign = 1 if is_inflow else -1
        kwargs = {}
        if case['proposed'] is not None:
            kwargs['transactions'] = dict(extra)
        if case['cap'] is not None:
            kwargs['transaction_limit'] = sign * case['cap']
        if case['balance_limit'] is not None:
            kwargs['balance_limit'] = case['balance_limit']
        result = getattr(account, name)(
            timing=acct.timing_arg(case['timing']), **kwargs)
        # Room left by the yearly limit:
        room = lims[name] - (inflows if is_inflow else outflows)
        if case['cap'] is not None:
            room = (min if is_inflow else max)(room, sign * case['cap'])
        # Room left by the balance:
        floor = case['balance_limit']
        if floor is None:
            floor = 0 if (not is_inflow or case['kind'] == 'debt') \
                else math.inf
        by_balance = (floor - end) / growth
        total = (min if is_inflow else max)(room, by_balance)
        total = (max if is_inflow else min)(total, 0)
        what = "%s(%r)" % (name, kwargs)
        proportions(rec, result, shares, total, scale, what)
        rec.tag(name + ': limited by the balance', total == by_balance)
        rec.tag(name + ': limited by the yearly limit',
                total == room and total != 0)
        rec.nontrivial(total != 0 and not math.isinf(total))
        rec.eq(dict(account.transactions), before, "account's transactions")
        if case['proposed'] is not None:
            rec.eq(kwargs['transactions'], extra, "proposed argument")
        # Stated consequences:
        got = sum(result.values())
        rec.ok(got * sign >= 0, "%s has the wrong sign: %r", what, result)
        if case['cap'] is not None:
            rec.le(abs(got), case['cap'], what + " exceeds the cap")
        if total == by_balance and not math.isinf(total):
            check = build(case)
            for source in (result, extra):
                for when, amount in source.items():
                    check.add_transaction(amount, when)
            rec.close(check.balance_at_time('end'), floor,
                      what + ": closing balance", scale=scale, rel=1e-8)
        if name == 'max_outflows' and end >= floor and not is_inflow:
            check = build(case)
            for source in (result, extra):
                for when, amount in source.items():
                    check.add_transaction(amount, when)
            rec.le(floor, check.balance_at_time('end'),
                   what + " overdraws the account", scale=scale, rel=1e-8)
        if (total == room and case['cap'] is None and total != 0
                and not math.isinf(total)):
            # Once applied, there's no room left.
            check = build(case)
            for source in (result, extra):
                for when, amount in source.items():
                    check.add_transaction(amount, when)
            if all((v > 0) == is_inflow for v in
                   list(flows.values()) + list(extra.values()) if v):
                again = getattr(check, name)(
                    timing=acct.timing_arg(case['timing']),
                    **({'balance_limit': case['balance_limit']}
                       if case['balance_limit'] is not None else {}))
                rec.close(sum(again.values()), 0,
                          what + ": room left after using it", scale=scale,
                          rel=1e-8)


def point(case, rec):
    """ Limits at a single moment. """
    account = build(case)
    balance, flows, lims = reference_state(case)
    nper = acct.nper_ref(case['nper'])
    for t in (0, 1, 0.5):
        here = models.balance_at(
            balance, list(flows.items()), case['rate'], nper, t)
        scale = abs(balance) + sum(map(abs, flows.values())) + 1
        rec.nontrivial(bool(flows))
        rec.close(account.max_outflow(t),
                  max(min(-here, 0), lims['max_outflows']),
                  "max_outflow at %r" % t, scale=scale)
        rec.close(account.min_outflow(t), lims['min_outflows'],
                  "min_outflow")
        expected = lims['max_inflows']
        if case['kind'] == 'debt':
            expected = min(max(-here, 0), expected)
        rec.close(account.max_inflow(t), expected, "max_inflow",
                  scale=scale)
        rec.close(account.min_inflow(t), lims['min_inflows'], "min_inflow")
    rec.close(account.max_inflow_limit, lims['max_inflows'], "limit")
    rec.close(account.max_outflow_limit, lims['max_outflows'], "limit")
    rec.close(account.min_inflow_limit, lims['min_inflows'], "limit")
    rec.close(account.min_outflow_limit, lims['min_outflows'], "limit")


@st.composite
def session_case(draw):
    """ Planning interleaved with changes to the account. """
    case = draw(state())
    case['kind'] = draw(st.sampled_from(
        ['account', 'account', 'account', 'Debt', 'RRSP', 'TFSA',
         'TaxableAccount', 'PrincipleResidence']))
    op = st.one_of(
        st.tuples(st.just('add'), unit(), money(-2000, 4000)),
        st.tuples(st.just('set'), st.integers(0, 5), money(-2000, 4000)),
        st.tuples(st.just('del'), st.integers(0, 5)),
        st.tuples(st.just('nper'), acct.nper_st),
        st.tuples(st.just('rate'), rate(-0.3, 0.6)),
        st.tuples(st.just('balance'), money(0, 50000)),
        st.tuples(st.just('timing'), acct.timing_spec()),
        st.tuples(st.just('next')),
        st.tuples(st.just('limits'), limits()))
    case['ops'] = draw(st.lists(op.map(list), min_size=1, max_size=7))
    case['ask'] = draw(st.lists(
        st.sampled_from(['max_inflows', 'max_outflows', 'min_inflows',
                         'min_outflows', 'target', 'max_outflow']),
        min_size=1, max_size=3))
    case['target'] = draw(money(0, 80000))
    case['asked'] = draw(st.one_of(
        st.just({'kind': 'none'}), acct.timing_spec()))
    return case


def session(case, rec):
    """ What's planned always reflects the account as it stands. """
    from forecaster import Account
    person = acct.person(YEAR)
    plain = case['kind'] == 'account'
    current = {'limits': case['limits']}

    def limited(index, sign, default):
        def get(_):
            value = current['limits'][index]
            return default if value is None else sign * value
        return property(get)

    cls = type('LimitedAccount', (Account,), {
        'min_inflow_limit': limited(0, 1, 0),
        'max_inflow_limit': limited(1, 1, math.inf),
        'min_outflow_limit': limited(2, -1, 0),
        'max_outflow_limit': limited(3, -1, -math.inf)})
    settings = {}
    sign = -1 if case['kind'] == 'Debt' else 1
    if not plain:
        # (What these limit is for the other properties.)
        from forecaster import Debt
        from forecaster.canada import accounts as canada
        cls = Debt if case['kind'] == 'Debt' else getattr(
            canada, case['kind'])
        if case['kind'] in ('RRSP', 'TFSA'):
            settings['inflation_adjust'] = lambda *args, **kwargs: 1
            settings['contribution_room'] = 10000
    account = cls(
        person, balance=sign * case['balance'], rate=case['rate'],
        nper=case['nper'], default_timing=acct.timing_arg(case['default']),
        **settings)
    balance, growth_rate = sign * case['balance'], case['rate']
    base_rate, nper = case['rate'], acct.nper_ref(case['nper'])
    default, flows = case['default'], {}
    pairs = merge(case['tx'])
    for when, amount in pairs.items():
        account.add_transaction(amount, when)
        flows[when] = flows.get(when, 0) + amount
    size = abs(balance)

    def look(what):
        shares = acct.timing_ref(
            case['asked'],
            default=tuple(acct.timing_ref(default).items()))
        end = models.balance_at(
            balance, list(flows.items()), growth_rate, nper, 1)
        per_unit = sum(w * models.growth(growth_rate, nper, 1 - t)
                       for t, w in shares.items())
        scale = (size + abs(balance) + abs(case['target']) + 1
                 + sum(map(abs, flows.values()))) * max(
                     1, models.growth(growth_rate, nper, 1))
        lo_in, hi_in, lo_out, hi_out = current['limits']
        inflows = sum(v for v in flows.values() if v > 0)
        outflows = sum(v for v in flows.values() if v < 0)
        rec.close(account.balance, balance, what + ": balance", scale=scale,
                  rel=1e-8)
        rec.close(account.balance_at_time('end'), end,
                  what + ": closing balance", scale=scale, rel=1e-8)
        for name in case['ask'] if plain else ['target']:
            if name == 'max_outflow':
                here = models.balance_at(
                    balance, list(flows.items()), growth_rate, nper, 0.5)
                rec.close(
                    account.max_outflow(0.5),
                    max(min(-here, 0),
                        -math.inf if hi_out is None else -hi_out),
                    what + ": max_outflow", scale=scale, rel=1e-8)
                continue
            timing = acct.timing_arg(case['asked'])
            if name == 'target':
                result = account.transactions_to_balance(
                    case['target'], timing=timing)
                total = (case['target'] - end) / per_unit
            else:
                result = getattr(account, name)(timing=timing)
                if name == 'max_inflows':
                    total = max(
                        (math.inf if hi_in is None else hi_in) - inflows, 0)
                elif name == 'min_inflows':
                    total = max((lo_in or 0) - inflows, 0)
                else:
                    room = (-(lo_out or 0) if name == 'min_outflows' else
                            -math.inf if hi_out is None else -hi_out)
                    total = min(max(min(room - outflows, 0),
                                    -end / per_unit), 0)
            proportions(rec, result, shares, total, scale,
                        "%s: %s" % (what, name))

    look("at first")
    year = YEAR
    for number, step in enumerate(case['ops']):
        kind = step[0]
        if kind == 'add':
            account.add_transaction(step[2], step[1])
            flows[step[1]] = flows.get(step[1], 0) + step[2]
        elif kind in ('set', 'del'):
            if not flows:
                continue
            times = sorted(flows)
            when = times[step[1] % len(times)]
            if kind == 'set':
                account[when] = step[2]
                flows[when] = step[2]
            else:
                del account[when]
                del flows[when]
        elif kind == 'nper':
            account.nper = step[1]
            nper = acct.nper_ref(step[1])
        elif kind == 'rate':
            account.rate = growth_rate = step[1]
        elif kind == 'balance':
            account.balance = balance = sign * step[1]
        elif kind == 'timing':
            if step[1]['kind'] == 'none':
                del account.default_timing
            else:
                account.default_timing = acct.timing_arg(step[1])
            default = step[1]
        elif kind == 'limits':
            current['limits'] = step[1]
        else:
            balance = models.balance_at(
                balance, list(flows.items()), growth_rate, nper, 1)
            account.next_year()
            growth_rate, flows = base_rate, {}
            size = max(size, abs(balance))
            year += 1
        rec.tag(kind)
        rec.tag(case['kind'])
        rec.nontrivial(growth_rate != 0)
        look("after step %d, %r" % (number, step))


CHECKS = [
    Check('target', target_case, target, 3000, 60000,
          "transactions_to_balance reaches its target in proportion"),
    Check('limit', limit_case, limit, 2500, 60000,
          "max/min in/outflows against the stated limits"),
    Check('point', state, point, 600, 10000,
          "limits at single moments"),
    Check('session', session_case, session, 1200, 24000,
          "plans asked again after each change to the account"),
]
