""" C04: timings. """
from hypothesis import strategies as st
from core import Check, money, unit
import acct

RULE = (
    "Cases are descriptions of timings (times, periods, codes, weights, "
    "signed cashflows) and amounts; non-trivial = at least two times (and, "
    "for cashflows, both signs)")
ASSUMPTIONS = ["a continuous frequency can't be enumerated as a timing"]

CODES = ['D', 'W', 'BW', 'SM', 'M', 'BM', 'Q', 'SA', 'A']


@st.composite
def period_case(draw):
    return {
        'form': draw(st.sampled_from(['both', 'both', 'when', 'code',
                                      'default', 'copy'])),
        'when': draw(st.one_of(unit(), st.sampled_from(['start', 'end']))),
        'freq': draw(st.one_of(st.integers(1, 60), st.sampled_from(CODES))),
        'code': draw(st.sampled_from(CODES)),
        'amount': draw(money(-10000, 100000))}


def periods(case, rec):
    from forecaster import Timing
    when, n = acct.when_ref(case['when']), acct.nper_ref(case['freq'])
    form = case['form']
    if form == 'both':
        timing = Timing(case['when'], case['freq'])
    elif form == 'when':
        timing, n = Timing(case['when']), 1
    elif form == 'code':
        timing, n, when = Timing(case['code']), acct.nper_ref(
            case['code']), 0.5
    elif form == 'default':
        timing, n, when = Timing(), 1, 0.5
    else:
        source = Timing(case['when'], frequency=case['freq'])
        timing = Timing(source)
        rec.eq(dict(timing), dict(source), "copy of a timing")
        before = dict(timing)
        source[0.123] = 7
        rec.eq(dict(timing), before, "a copy after its source is changed")
    rec.nontrivial(n > 1)
    times = sorted(timing)
    rec.eq(len(times), n, "number of times")
    for k, t in enumerate(times):
        rec.close(t, (k + when) / n, "time %d of %d" % (k, n))
        rec.ok(0 <= t <= 1, "time %r outside of [0,1]", t)
        rec.close(timing[t], 1 / n, "weight")
    series = timing.time_series(case['amount'])
    rec.eq(set(series), set(timing), "times of the series")
    for value in series.values():
        rec.close(value, case['amount'] / n, "even share of the amount")


@st.composite
def weight_case(draw):
    pairs = draw(acct.weights(1, 6))
    return {
        'pairs': pairs, 'negate': draw(st.booleans()),
        'amount': draw(money(-10000, 100000)),
        'changed': draw(st.tuples(unit(), st.integers(1, 9))),
        'subset': draw(st.lists(st.sampled_from(
            [p[0] for p in pairs]), unique=True, max_size=5))}


def weighted(case, rec):
    from forecaster import Timing
    from forecaster.utility.timing import transactions_from_timing
    sign = -1 if case['negate'] else 1
    given = {t: sign * w for t, w in case['pairs']}
    snapshot = dict(given)
    timing = Timing(given)
    expected = {t: w for t, w in case['pairs']}
    if all(w == 0 for w in expected.values()):
        expected = {t: 1 for t in expected}
        rec.tag('all-zero weights')
    rec.nontrivial(sum(w > 0 for w in expected.values()) > 1)
    rec.eq(given, snapshot, "weights passed in")
    rec.eq(set(timing), set(expected), "times")
    total = sum(expected.values())
    for t, w in expected.items():
        rec.close(timing[t], w, "weight at %r" % t)
    normal = timing.normalized()
    rec.ok(isinstance(normal, Timing), "normalized() isn't a timing")
    rec.close(sum(normal.values()), 1, "normalised total")
    series = timing.time_series(case['amount'])
    flows = transactions_from_timing(timing, case['amount'])
    flows_2 = transactions_from_timing(dict(expected), case['amount'])
    for name, result in (('time_series', series), ('transactions', flows),
                         ('transactions of a dict', flows_2)):
        rec.close(sum(result.values()), case['amount'], name + " total")
        rec.eq(set(result), set(expected), name + " times")
        for t, w in expected.items():
            rec.close(result[t], case['amount'] * w / total,
                      name + " at %r" % t)
    for t, w in expected.items():
        rec.close(normal[t], w / total, "normalised weight")
    # Spreading an amount and converting back recovers the proportions:
    if case['amount'] != 0:
        back = Timing(series).normalized()
        for t, w in expected.items():
            rec.close(back.get(t, 0), w / total, "recovered weight")
    keys = case['subset']
    part = sum(expected[k] for k in keys)
    if keys and part > 0:
        some = timing.normalized(keys)
        rec.eq(set(some), set(keys), "subset of times")
        for k in keys:
            rec.close(some[k], expected[k] / part, "subset weight")
        some = timing.time_series(case['amount'], keys)
        rec.eq(set(some), set(keys), "subset of times")
        for k in keys:
            rec.close(some[k], case['amount'] * expected[k] / part,
                      "subset amount")
    for t, w in expected.items():
        rec.close(timing[t], w, "weight after use")
    # What's returned is the caller's, and a changed timing is used as it is:
    when, weight = case['changed']
    for result in (normal, series, flows):
        result[when] = 77
    timing[when] = weight
    expected[when] = weight
    total = sum(expected.values())
    changed = (timing.time_series(case['amount']),
               transactions_from_timing(timing, case['amount']),
               timing.normalized().time_series(case['amount']))
    for result in changed:
        rec.eq(set(result), set(expected), "times once changed")
        for t, w in expected.items():
            rec.close(result[t], case['amount'] * w / total,
                      "amount at %r once changed" % t)


@st.composite
def flow_case(draw):
    amount = st.one_of(st.integers(-20, 20), money(-5000, 5000))
    pairs = draw(st.lists(
        st.tuples(unit(), amount).map(list), min_size=1, max_size=8,
        unique_by=lambda p: float(p[0])))
    return {'pairs': pairs}


def cashflows(case, rec):
    from forecaster import Timing
    flows = {t: v for t, v in case['pairs']}
    snapshot = dict(flows)
    timing = Timing(flows)
    rec.eq(flows, snapshot, "cashflows passed in")
    values = list(flows.values())
    total = sum(values)
    scale = sum(map(abs, values)) + 1
    for t, w in timing.items():
        rec.ok(0 <= t <= 1 and t in flows, "unexpected time %r", t)
        rec.ok(w >= 0, "negative weight %r", w)
    if not (any(v > 0 for v in values) and any(v < 0 for v in values)):
        rec.tag('one direction')
        if any(values):
            rec.eq({t: w for t, w in timing.items() if w},
                   {t: abs(v) for t, v in flows.items() if v}, "weights")
        return
    times = sorted(flows)
    rec.nontrivial()
    if abs(total) <= 1e-9 * scale:
        rec.tag('balanced')
        # (Which branch applies depends on rounding.)
        if total == 0:
            rec.eq(dict(timing), {}, "balanced cashflows")
        return
    running, tally = {}, 0
    for t in times:
        tally += flows[t]
        running[t] = tally
    if total > 0:
        rec.tag('net inflow')
        # Earliest and largest: by time t, the most that can have been
        # withdrawn is the lowest running total from t on (if positive).
        taken = 0
        for t in times:
            fundable = max(min(running[u] for u in times if u >= t), 0)
            taken += timing.get(t, 0)
            rec.close(taken, fundable, "withdrawn by %r" % t, scale=scale)
        rec.close(taken, total, "total withdrawn", scale=scale)
    else:
        rec.tag('net outflow')
        # Just sufficient, just in time: by time t, contributions equal
        # the deepest deficit so far.
        added = 0
        for t in times:
            deficit = max(0, -min(running[u] for u in times if u <= t))
            added += timing.get(t, 0)
            rec.close(added, deficit, "contributed by %r" % t, scale=scale)


@st.composite
def invalid_case(draw):
    return {
        'when': draw(st.one_of(
            st.integers(2, 1000), st.integers(-1000, -1),
            st.integers(1001, 9999).map(lambda k: k / 1000),
            st.integers(-9999, -1).map(lambda k: k / 1000))),
        'freq': draw(st.one_of(
            st.integers(-50, 0), st.sampled_from(['X', 'm', 'YY', '']),
            st.just(1.5))),
        'value': draw(money(1, 100)),
        'valid': draw(unit()), 'n': draw(st.integers(1, 500))}


def invalid(case, rec):
    from forecaster import Timing, Account
    from forecaster.utility import when_conv, frequency_conv
    rec.nontrivial()
    rec.raises(ValueError, lambda: when_conv(case['when']), "when_conv")
    rec.raises(ValueError, lambda: Timing(case['when']), "Timing")
    rec.raises((ValueError, TypeError),
               lambda: frequency_conv(case['freq']), "frequency_conv")
    rec.raises((ValueError, TypeError),
               lambda: Timing(0.5, case['freq']), "Timing")
    account = Account(acct.person(2000), balance=100)
    rec.raises(ValueError, lambda: account.add_transaction(
        case['value'], case['when']), "add_transaction")
    rec.eq(len(account), 0, "transactions after a rejected one")
    rec.eq(when_conv(case['valid']), case['valid'], "valid time")
    rec.eq(when_conv('start'), 0, "start")
    rec.eq(when_conv('end'), 1, "end")
    rec.eq(frequency_conv(case['n']), case['n'], "valid frequency")
    rec.eq(frequency_conv(None), None, "continuous")
    for code, n in acct.NPER_CODES.items():
        rec.eq(frequency_conv(code), n, "code %s" % code)


@st.composite
def sum_case(draw):
    pairs = st.lists(st.tuples(unit(), money(-500, 500)).map(list),
                     max_size=5, unique_by=lambda p: float(p[0]))
    return {'a': draw(pairs), 'b': draw(pairs)}


def combine(case, rec):
    """ Adding and subtracting series of transactions. """
    from forecaster.utility import add_transactions, subtract_transactions
    a, b = dict(map(tuple, case['a'])), dict(map(tuple, case['b']))
    rec.nontrivial(bool(set(a) & set(b)))
    for func, sign in ((add_transactions, 1), (subtract_transactions, -1)):
        base, added = dict(a), dict(b)
        func(base, added)
        rec.eq(added, b, "second argument")
        rec.eq(set(base), set(a) | set(b), "times")
        for t in base:
            rec.close(base[t], a.get(t, 0) + sign * b.get(t, 0), "sum")


CHECKS = [
    Check('periods', period_case, periods, 1200, 20000,
          "timings described by times, periods and codes"),
    Check('weighted', weight_case, weighted, 2000, 40000,
          "explicit weights, normalising and spreading amounts"),
    Check('cashflows', flow_case, cashflows, 4000, 100000,
          "timings built from signed cashflows"),
    Check('combine', sum_case, combine, 800, 10000,
          "sums and differences of series"),
    Check('invalid', invalid_case, invalid, 800, 8000,
          "rejection of invalid times and periods"),
]
