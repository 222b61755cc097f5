""" C01: growth of balances. """
import math
from hypothesis import strategies as st
from core import Check, horizon, money, rate, unit
import acct
import models

RULE = (
    "Cases are an opening balance, a compounding frequency, 1-4 years each "
    "with a rate and up to 5 transactions, and query times; non-trivial = "
    "a non-zero rate together with at least one transaction")
ASSUMPTIONS = ["rates are above -100% per compounding period",
               "account subclasses are covered by C06-C08 and C17"]
YEAR = 2000


@st.composite
def history_case(draw):
    n = draw(horizon(4, 12))
    return {
        'balance': draw(money(-100000, 100000)),
        'nper': draw(acct.nper_st),
        'rate_mode': draw(st.sampled_from(
            ['dict', 'callable', 'const', 'inputs', 'assign', 'replace'])),
        'rates': draw(st.lists(rate(), min_size=n, max_size=n)),
        'years': [draw(acct.tx_list()) for _ in range(n)],
        'times': draw(st.lists(unit(), max_size=3)),
        'extra': draw(st.one_of(st.none(), acct.tx_list(max_size=3))),
        'touch': draw(st.lists(st.sampled_from(
            ['balance', 'returns', 'rate', 'history', 'taxable_income']),
            max_size=2))}


def build(case):
    from forecaster import Account
    rates = list(case['rates'])
    kwargs = {}
    if case['rate_mode'] == 'inputs':
        arg = 0.03
        kwargs['inputs'] = {'rate': {
            YEAR + i: r for i, r in enumerate(rates)}}
    elif case['rate_mode'] in ('assign', 'replace'):
        arg = 0.03
    elif case['rate_mode'] == 'const':
        rates = [rates[0]] * len(rates)
        arg = rates[0]
    else:
        table = {YEAR + i: r for i, r in enumerate(rates + [0.07])}
        arg = table if case['rate_mode'] == 'dict' else (
            lambda year: table[year])
    account = Account(
        acct.person(YEAR), balance=case['balance'], rate=arg,
        nper=case['nper'], **kwargs)
    return account, rates


def merged(transactions):
    result = {}
    for when, amount in transactions:
        when = acct.when_ref(when)
        result[when] = result.get(when, 0) + amount
    return result


def history(case, rec):
    account, rates = build(case)
    nper = acct.nper_ref(case['nper'])
    balance = case['balance']
    scale = abs(balance) + 1
    expected_history = {}
    for i, transactions in enumerate(case['years']):
        year, rate_ = YEAR + i, rates[i]
        rec.nontrivial(rate_ != 0 and bool(transactions))
        rec.tag('later year with a different rate',
                i > 0 and rates[i] != rates[i - 1])
        if case['rate_mode'] == 'assign':
            account.rate = rate_
        elif case['rate_mode'] == 'replace':
            account.rate_callable = rate_
            del account.rate
        for prop in case['touch']:
            getattr(account, prop if prop != 'history'
                    else 'balance_history')
        for when, amount in transactions:
            account.add_transaction(amount, when)
            scale += abs(amount)
        flows = merged(transactions)
        rec.eq(account.this_year, year, "year")
        rec.close(account.balance, balance, "opening balance of %d" % year,
                  scale=scale)
        rec.close(account.rate, rate_, "rate of %d" % year)
        # What was recorded:
        rec.eq(set(account.transactions), set(flows), "transaction times")
        for when, amount in flows.items():
            rec.close(account.transactions[when], amount,
                      "transaction at %r" % when, scale=scale)
            rec.close(account[when], amount, "lookup at %r" % when,
                      scale=scale)
        rec.close(account.inflows(), sum(v for v in flows.values() if v > 0),
                  "inflows", scale=scale)
        rec.close(account.outflows(), sum(v for v in flows.values() if v < 0),
                  "outflows", scale=scale)
        # Balances through the year:
        times = list(case['times']) + [0, 1] + list(flows)
        for t in times:
            expected = models.balance_at(
                balance, list(flows.items()), rate_, nper, t)
            rec.close(account.balance_at_time(t), expected,
                      "balance at %r of %d" % (t, year), scale=scale)
            if case['extra'] is not None:
                extra = merged(case['extra'])
                arg = dict(extra)
                rec.close(
                    account.balance_at_time(t, transactions=arg),
                    models.balance_at(
                        balance, list(flows.items()) + list(extra.items()),
                        rate_, nper, t),
                    "balance with proposed transactions", scale=scale)
                rec.eq(arg, extra, "proposed transactions argument")
        rec.close(account.balance_at_time('start'), models.balance_at(
            balance, list(flows.items()), rate_, nper, 0), "start",
            scale=scale)
        closing = models.balance_at(
            balance, list(flows.items()), rate_, nper, 1)
        rec.close(account.balance_at_time('end'), closing, "end", scale=scale)
        if case['extra'] is not None:
            extra = merged(case['extra'])
            rec.close(account.inflows(dict(extra)), sum(
                v for v in list(extra.values()) + list(flows.values())
                if v > 0), "inflows with proposals", scale=scale)
            rec.close(account.outflows(dict(extra)), sum(
                v for v in list(extra.values()) + list(flows.values())
                if v < 0), "outflows with proposals", scale=scale)
        returns = closing - balance - sum(flows.values())
        rec.close(account.returns, returns, "returns of %d" % year,
                  scale=scale)
        rec.close(account.taxable_income, max(returns, 0),
                  "taxable income", scale=scale)
        expected_history[year] = (balance, returns, flows)
        account.next_year()
        rec.close(account.balance, closing,
                  "balance carried into %d" % (year + 1), scale=scale)
        rec.eq(dict(account.transactions), {}, "new year's transactions")
        balance = closing
        scale = max(scale, abs(closing))
    for year, (balance, returns, flows) in expected_history.items():
        rec.close(account.balance_history[year], balance,
                  "recorded balance of %d" % year, scale=scale)
        rec.close(account.returns_history[year], returns,
                  "recorded returns of %d" % year, scale=scale)
        rec.eq(set(account.transactions_history[year]), set(flows),
               "recorded transactions of %d" % year)


@st.composite
def edit_case(draw):
    op = st.one_of(
        st.tuples(st.just('add'), unit(), money(-1000, 1000)),
        st.tuples(st.just('set'), unit(), money(-1000, 1000)),
        st.tuples(st.just('del'), st.integers(0, 5)),
        st.tuples(st.just('clear')),
        st.tuples(st.just('read'), unit()))
    return {
        'balance': draw(money(-1000, 100000)),
        'nper': draw(acct.nper_st), 'rate': draw(rate()),
        'ops': [list(o) for o in draw(st.lists(op, min_size=2, max_size=12))]}


def edits(case, rec):
    """ An account used as a mapping of transactions. """
    from forecaster import Account
    account = Account(acct.person(YEAR), balance=case['balance'],
                      rate=case['rate'], nper=case['nper'])
    nper = acct.nper_ref(case['nper'])
    model = {}
    scale = abs(case['balance']) + 1
    for op in case['ops']:
        if op[0] == 'add':
            account.add_transaction(op[2], op[1])
            model[op[1]] = model.get(op[1], 0) + op[2]
            scale += abs(op[2])
        elif op[0] == 'set':
            account[op[1]] = op[2]
            model[op[1]] = op[2]
            scale += abs(op[2])
        elif op[0] == 'del' and model:
            key = sorted(model)[op[1] % len(model)]
            del account[key]
            del model[key]
        elif op[0] == 'clear':
            account.clear()
            model = {}
        elif op[0] == 'read':
            rec.close(account[op[1]], model.get(op[1], 0), "lookup")
            rec.eq(account.get(op[1], None) is None, op[1] not in model,
                   "get")
            rec.eq(op[1] in account, op[1] in model, "contains")
        rec.nontrivial(len(model) > 1 and case['rate'] != 0)
        rec.eq(len(account), len(model), "number of transactions")
        rec.eq(list(account), sorted(model), "iteration order")
        for key, value in model.items():
            rec.close(dict(account.items())[key], value, "items")
        rec.close(sum(account.values()), sum(model.values()), "values",
                  scale=scale)
        rec.eq(set(account.keys()), set(model), "keys")
        closing = models.balance_at(
            case['balance'], list(model.items()), case['rate'], nper, 1)
        rec.close(account.balance_at_time(1), closing, "closing balance",
                  scale=scale)
        rec.close(account.returns,
                  closing - case['balance'] - sum(model.values()),
                  "returns", scale=scale)
    expected = models.balance_at(
        case['balance'], list(model.items()), case['rate'], nper, 1)
    account.next_year()
    rec.close(account.balance, expected, "next year's balance", scale=scale)


@st.composite
def growth_case(draw):
    return {
        'rate': draw(st.one_of(rate(), st.integers(1, 200).map(
            lambda k: k / 100))),
        'nper': draw(acct.nper_st),
        't': draw(unit()), 'u': draw(unit()),
        'value': draw(money(1, 100000)),
        'factor': draw(st.integers(0, 300).map(lambda k: 1 + k / 100))}


def growth_laws(case, rec):
    """ Present/future values invert, compose and can be solved. """
    from forecaster import Account
    from forecaster.accounts.util import (
        accumulation_function, accumulation_function_inverse, value_at_time,
        time_to_value)
    nper, r = acct.nper_ref(case['nper']), case['rate']
    t, u, value = case['t'], case['u'], case['value']
    rec.nontrivial(r != 0 and t != u)
    rec.close(accumulation_function(t, r, nper), models.growth(r, nper, t),
              "accumulation over %r" % t)
    rec.close(accumulation_function(t + u, r, nper),
              accumulation_function(t, r, nper)
              * accumulation_function(u, r, nper), "composition")
    rec.close(accumulation_function(-t, r, nper)
              * accumulation_function(t, r, nper), 1, "inversion")
    there = value_at_time(value, r, t, u, nper)
    rec.close(there, value * models.growth(r, nper, u - t), "value at time")
    rec.close(value_at_time(there, r, u, t, nper), value, "round trip")
    rec.close(value_at_time(value, r, nper=nper),
              value * models.growth(r, nper, 1), "over the year")
    if r != 0:
        target = value * case['factor']
        time = time_to_value(r, value, target, nper)
        rec.close(models.growth(r, nper, time), case['factor'],
                  "growth by the time found", rel=1e-7)
        rec.close(accumulation_function_inverse(case['factor'], r, nper),
                  time, "inverse accumulation", rel=1e-7)
    for start, end in ((value, 0), (0, value), (value, -value), (-value, 0)):
        rec.eq(time_to_value(r, start, end, nper), float('inf'),
               "time from %r to %r" % (start, end))
    rec.eq(time_to_value(r, 0, 0, nper), 0, "time from zero to zero")
    rec.eq(time_to_value(0, value, value * 2, nper), float('inf'),
           "time to grow without growth")
    rec.eq(time_to_value(0, value * 2, value, nper), -float('inf'),
           "time since growing without growth")
    rec.eq(time_to_value(0, value, value, nper), 0, "no time")
    debt = Account(acct.person(YEAR), balance=-value, rate=0,
                   nper=case['nper'])
    rec.eq(debt.time_to_balance(0), float('inf'), "time to pay off")
    debt.add_transaction(value, t)
    rec.eq(debt.time_to_balance(0), t, "time at which it's paid off")
    if r > 0:
        account = Account(acct.person(YEAR), balance=value, rate=r,
                          nper=case['nper'])
        target = models.balance_at(value, [], r, nper, t) * case['factor']
        time = account.time_to_balance(target, when=t)
        rec.close(value * models.growth(r, nper, time), target,
                  "balance at the time found", rel=1e-6)


@st.composite
def reach_case(draw):
    return {
        'balance': draw(st.one_of(
            money(-5000, 5000), money(0, 5000))),
        'rate': draw(rate(-0.4, 0.8)), 'nper': draw(acct.nper_st),
        'flows': draw(st.lists(
            st.tuples(unit(), money(-3000, 3000)).map(list), max_size=4,
            unique_by=lambda p: float(p[0]))),
        'when': draw(unit()), 'value': draw(money(-6000, 6000)),
        'of': draw(st.one_of(st.none(), unit(), unit()))}


def reach(case, rec):
    """ When a balance is next reached. """
    from forecaster import Account
    nper, r, when = acct.nper_ref(case['nper']), case['rate'], case['when']
    flows = [tuple(p) for p in case['flows']]
    account = Account(acct.person(YEAR), balance=case['balance'], rate=r,
                      nper=case['nper'])
    for t, v in flows:
        account.add_transaction(v, t)

    def balance(t, until=None):
        counted = flows if until is None else [
            f for f in flows if f[0] <= until]
        return models.balance_at(case['balance'], counted, r, nper, t)

    value = case['value'] if case['of'] is None else balance(case['of'])
    got = account.time_to_balance(value, when=when)
    size = abs(case['balance']) + abs(value) + sum(
        abs(v) for _, v in flows) + 1
    eps = 1e-6 * size
    rec.ok(got >= when, "%r is reached at %r, before %r", value, got, when)
    # Pieces of the year (and what follows it) between transactions:
    starts = [when] + sorted(t for t, _ in flows if t > when)
    for i, start in enumerate(starts):
        here = balance(start)
        last = i + 1 == len(starts)
        end = starts[i + 1] if not last else 50
        # (Balances after the year's end are those without other flows.)
        before_end = here * models.growth(r, nper, end - start)
        jump = before_end if last else balance(end)
        spread = sorted([here, before_end])
        if got < end - 1e-9 or (last and math.isfinite(got)):
            rec.close(here * models.growth(r, nper, got - start), value,
                      "balance at %r" % got, scale=size, rel=1e-6, abs_=eps)
            rec.nontrivial(got > when)
            rec.tag('by growth', got > when)
            return
        # Not reached in this piece:
        if i or here != value:
            rec.ok(not spread[0] + eps < value < spread[1] - eps,
                   "%r is reached before %r (between %r and %r)", value, got,
                   start, end)
        if got <= end + 1e-9:
            low, high = sorted([before_end, jump])
            rec.ok(low - eps <= value <= high + eps,
                   "%r isn't reached at %r (from %r to %r)", value, got,
                   low, high)
            rec.nontrivial(True)
            rec.tag('by a transaction')
            return
        if not last:
            low, high = sorted([before_end, jump])
            rec.ok(not low + eps < value < high - eps,
                   "%r is reached by the transaction at %r (%r)", value, end,
                   got)
    rec.tag('never')


CHECKS = [
    Check('reach', reach_case, reach, 800, 16000,
          "the time at which a balance is next reached"),
    Check('history', history_case, history, 3000, 80000,
          "multi-year balances, returns and flows against a growth model"),
    Check('edits', edit_case, edits, 1500, 40000,
          "adding, replacing and removing transactions in any sequence"),
    Check('growth', growth_case, growth_laws, 1500, 40000,
          "inversion, composition and solving of the growth function"),
]
