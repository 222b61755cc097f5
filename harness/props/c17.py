""" C17: debts are repaid, minimums first, in the chosen order. """
import math
from hypothesis import strategies as st
from core import Check, money, rate, unit
import acct
import models
from props.c16 import TOL, water_fill

RULE = (
    "Cases are (1) a debt's life: years of payments within its reported "
    "limits with changing minimums, caps and timings, (2) a set of debts "
    "with an amount available at some times, repaid by either strategy year "
    "after year, (3) debts repaid alongside other accounts with or without "
    "a high-interest threshold; non-trivial = a payment limited by what is "
    "owed, by the yearly allowance or by what is available")
ASSUMPTIONS = [
    "interest rates are not negative",
    "plans are made in units of 1e-5, so payments agree to about 0.001",
    "debts which tie on rate and balance are interchangeable, so aren't "
    "generated"]
FIRST = 2000


# ------------------------------------------------------------- one debt

@st.composite
def life_case(draw):
    return {
        'balance': draw(money(0, 30000)), 'positive': draw(st.booleans()),
        'rate': draw(rate(0, 0.4)), 'nper': draw(acct.nper_st),
        'years': draw(st.lists(st.fixed_dictionaries({
            'minimum': money(0, 5000),
            'accelerated': st.one_of(st.none(), money(0, 20000)),
            'timing': acct.timing_spec(),
            'what': st.sampled_from(['max', 'max', 'min', 'both']),
            'cap': st.one_of(st.none(), money(0, 15000)),
            'first': st.one_of(st.none(), st.tuples(
                unit(), money(0, 3000)).map(list))}),
            min_size=1, max_size=5))}


def life(case, rec):
    """ One debt, year after year. """
    from forecaster import Debt
    owner = acct.person(FIRST)
    balance = case['balance']
    debt = Debt(owner, balance=balance if case['positive'] else -balance,
                rate=case['rate'], nper=case['nper'])
    nper = acct.nper_ref(case['nper'])
    balance = -balance
    grow = lambda t: models.growth(case['rate'], nper, t)
    scale = case['balance'] * grow(len(case['years']))
    for year in case['years']:
        debt.minimum_payment = low = year['minimum']
        high = math.inf if year['accelerated'] is None \
            else year['accelerated']
        debt.accelerated_payment = high
        high += low
        rec.close(debt.balance, balance, "opening balance", scale=scale,
                  rel=1e-8)
        flows = []
        if year['first'] is not None:
            when, value = year['first']
            # (Only what's actually owed then)
            value = min(value, max(-balance * grow(when), 0))
            if value:
                debt.add_transaction(value, when=when)
                flows.append((when, value))
        paid = sum(v for _, v in flows)
        rec.eq(debt.inflows(), paid, "payments")
        shares = acct.timing_ref(year['timing'])
        closing = models.balance_at(
            balance, flows, case['rate'], nper, 1)
        owed = max(-closing, 0) / sum(
            share * grow(1 - t) for t, share in shares.items())

        def limits(what, cap):
            """ What should be paid, and what's reported. """
            want = min(owed, max((low if what == 'min' else high) - paid, 0),
                       math.inf if cap is None else cap)
            timing = acct.timing_arg(year['timing'])
            kwargs = {} if cap is None else {'transaction_limit': cap}
            method = debt.min_inflows if what == 'min' else debt.max_inflows
            got = method(timing, **kwargs)
            rec.close(sum(got.values()), want, what + " payments",
                      scale=scale, rel=1e-8)
            for t, v in got.items():
                rec.ok(t in shares, "%r isn't a requested time", t)
                rec.close(v, want * shares[t], "%s payment at %r" % (what, t),
                          scale=scale, rel=1e-8)
            rec.nontrivial(want > 1 and (year['accelerated'] is not None
                                         or cap is not None))
            rec.tag('pays off', want == owed and want > 1)
            rec.tag('by allowance', want > 1 and want == (
                low if what == 'min' else high) - paid)
            return got
        top = limits('max', year['cap'])
        bottom = limits('min', year['cap'])
        rec.le(sum(bottom.values()), sum(top.values()),
               "minimum and maximum", scale=scale, rel=1e-8)
        for method in (debt.max_outflows, debt.min_outflows):
            out = method(acct.timing_arg(year['timing']))
            rec.ok(not any(out.values()), "withdrawals %r from a debt", out)
        rec.close(
            debt.max_inflow(0.5), min(max(-models.balance_at(
                balance, flows, case['rate'], nper, 0.5), 0), high),
            "largest payment at 0.5", scale=scale, rel=1e-8)
        if year['what'] == 'both':
            for t, v in bottom.items():
                if v:
                    debt.add_transaction(v, when=t)
                    flows.append((t, v))
            paid = sum(v for _, v in flows)
            closing = models.balance_at(
                balance, flows, case['rate'], nper, 1)
            owed = max(-closing, 0) / sum(
                share * grow(1 - t) for t, share in shares.items())
            payment = limits('max', year['cap'])
        else:
            payment = top if year['what'] == 'max' else bottom
        for t, v in payment.items():
            if v:
                debt.add_transaction(v, when=t)
                flows.append((t, v))
        for t in sorted({0, 0.5, 1} | set(shares)):
            want = models.balance_at(balance, flows, case['rate'], nper, t)
            rec.close(debt.balance_at_time(t), want, "balance at %r" % t,
                      scale=scale, rel=1e-8)
            rec.le(want, 0, "balance at %r" % t, scale=scale, rel=1e-8)
        if high < math.inf:
            rec.le(sum(v for _, v in flows),
                   max(high, sum(v for _, v in flows[:1])),
                   "payments in the year", scale=scale, rel=1e-8)
        balance = models.balance_at(balance, flows, case['rate'], nper, 1)
        if abs(balance) < 1e-6 + 1e-8 * scale:
            rec.tag('repaid')
        debt.next_year()
        if abs(balance) < 1e-6 + 1e-8 * scale:
            # (Don't let rounding error matter.)
            balance = debt.balance


# ------------------------------------------------------------ sets of debts

debt_st = st.fixed_dictionaries({
    'balance': st.one_of(st.just(0), money(0, 20000), money(0, 20000)),
    'rate': rate(0, 0.3), 'nper': st.sampled_from([1, 12, 'C']),
    'minimum': st.one_of(st.just(0), money(0, 3000)),
    'accelerated': st.one_of(st.none(), money(0, 8000))})

flows_st = st.lists(
    st.tuples(unit(), money(1, 12000)).map(list),
    min_size=1, max_size=3, unique_by=lambda p: float(p[0]))


def debts_st(max_size=4):
    return st.lists(
        debt_st, min_size=1, max_size=max_size,
        unique_by=lambda d: (float(d['balance']), float(d['rate'])))


def later_rates(debts):
    """ Rates in the second year and after that. """
    return st.one_of(st.just([]), st.lists(
        st.lists(rate(0, 0.3), min_size=len(debts), max_size=len(debts)),
        min_size=2, max_size=6))


@st.composite
def plan_case(draw):
    debts = draw(debts_st())
    return {'debts': debts,
            'strategy': draw(st.sampled_from(['Avalanche', 'Snowball'])),
            'years': draw(st.lists(flows_st, min_size=1, max_size=7)),
            'rates': draw(later_rates(debts)),
            'order': draw(st.permutations(range(len(debts))))}


def build_debts(specs, owner, years=()):
    """ Debts, whose rates might be different in later years. """
    from forecaster import Debt
    rates = [spec['rate'] for spec in specs]
    if years:
        rates = [
            {FIRST + n: row[k] for n, row in enumerate(
                [rates] + list(years) + [years[-1]] * 7)}
            for k in range(len(specs))]
    return [Debt(
        owner, balance=-spec['balance'], rate=rates[k],
        nper=spec['nper'], minimum_payment=spec['minimum'],
        accelerated_payment=math.inf if spec['accelerated'] is None
        else spec['accelerated']) for k, spec in enumerate(specs)]


def repay_order(specs, balances, strategy):
    """ The order in which debts are repaid. """
    keys = {'Avalanche': lambda k: (-specs[k]['rate'], balances[k]),
            'Snowball': lambda k: (balances[k], -specs[k]['rate'])}
    return sorted(range(len(specs)), key=keys[strategy])


def most(spec, balance, available):
    """ Least and most to pay on a debt at the times `available`. """
    nper = acct.nper_ref(spec['nper'])
    total = sum(available.values())
    owed = balance * models.growth(spec['rate'], nper, 1) / sum(
        v / total * models.growth(spec['rate'], nper, 1 - t)
        for t, v in available.items())
    high = math.inf if spec['accelerated'] is None \
        else spec['accelerated'] + spec['minimum']
    return min(spec['minimum'], owed), min(high, owed)


def in_order(amount, order, lows, highs):
    """ Minimums first, then as much as possible in order. """
    want = {}
    for k in order:
        want[k] = min(lows[k], amount)
        amount -= want[k]
    for k in order:
        extra = min(highs[k] - want[k], amount)
        want[k] += extra
        amount -= extra
    return want


def ambiguous(specs, balances):
    """ Whether rounding error could decide the order. """
    values = sorted(balances)
    return any(b - a < 0.01 and not a == b == 0
               for a, b in zip(values, values[1:]))


def plan(case, rec):
    """ Debt payment strategies, year after year. """
    from forecaster.strategy import DebtPaymentStrategy
    specs = case['debts']
    owner = acct.person(FIRST)
    debts = build_debts(specs, owner, case['rates'])
    strategy = DebtPaymentStrategy(case['strategy'])
    for n, flows in enumerate(case['years']):
        if n and case['rates']:
            specs = [dict(spec, rate=value) for spec, value in zip(
                specs, case['rates'][min(n, len(case['rates'])) - 1])]
        available = {t: v for t, v in flows}
        total = sum(available.values())
        balances = [-debt.balance for debt in debts]
        if n and ambiguous(specs, balances):
            return
        rec.ok(all(b > -0.01 for b in balances), "balances %r", balances)
        bounds = [most(spec, max(balance, 0), available)
                  for spec, balance in zip(specs, balances)]
        order = repay_order(specs, balances, case['strategy'])
        want = in_order(total, order, [b[0] for b in bounds],
                        [b[1] for b in bounds])
        before = [dict(debt.transactions) for debt in debts]
        kept = dict(available)
        listed = debts if n % 2 else [debts[k] for k in case['order']]
        for each in (listed, set(debts)):
            got = strategy(each, available)
            rec.eq(available, kept, "the cash available")
            rec.eq([dict(debt.transactions) for debt in debts], before,
                   "recorded payments")
            for k, debt in enumerate(debts):
                row = got.get(debt, {})
                rec.close(sum(row.values()), want[k],
                          "payments on debt %d (order %r, limits %r)" % (
                              k, order, bounds), **TOL)
                for t, v in row.items():
                    rec.ok(t in available, "%r isn't a requested time", t)
                    rec.close(v, sum(row.values()) * available[t] / total,
                              "payment at %r" % t, **TOL)
                if balances[k] <= 0:
                    rec.ok(not any(row.values()),
                           "payments %r on a repaid debt", row)
        paid = sum(want.values())
        rec.nontrivial(len(debts) > 1 and paid > 1)
        rec.tag(case['strategy'])
        rec.tag('short of minimums', total < sum(b[0] for b in bounds) - 1)
        rec.tag('all repaid', paid < total - 1)
        for debt, row in got.items():
            for t, v in row.items():
                if v:
                    debt.add_transaction(v, when=t)
        for debt in debts:
            rec.le(debt.balance_at_time(1), 0, "closing balance", abs_=0.01)
            debt.next_year()


# --------------------------------------------------- alongside other accounts

def manner_st(debts):
    """ A way to divide money between debts and other accounts. """
    return st.fixed_dictionaries({
        'strategy': st.sampled_from(['Ordered', 'Weighted']),
        'debt_strategy': st.sampled_from([None, 'Avalanche', 'Snowball']),
        'threshold': st.one_of(
            rate(0, 0.3), st.sampled_from([d['rate'] for d in debts])),
        'weights': st.tuples(
            st.sampled_from([1, 2, 3]), st.sampled_from([1.5, 4])).map(list)})


@st.composite
def mixed_case(draw):
    debts = draw(debts_st(4))
    return {
        'debts': debts, 'n_accounts': draw(st.integers(0, 2)),
        'room': draw(st.one_of(st.none(), money(0, 5000))),
        'manner': draw(manner_st(debts)),
        'subclass': draw(st.lists(
            st.booleans(), min_size=len(debts), max_size=len(debts))),
        'flows': draw(flows_st), 'rates': draw(later_rates(debts)),
        'later': draw(st.lists(st.fixed_dictionaries({
            'flows': flows_st, 'manner': st.one_of(
                st.none(), manner_st(debts))}), max_size=2)),
        'pay': draw(st.booleans())}


def mixed(case, rec):
    """ High-interest debts come before other accounts. """
    from forecaster import Account, Debt, TransactionStrategy

    class Mortgage(Debt):
        """ A kind of debt without a weight of its own. """

    specs = case['debts']
    owner = acct.person(FIRST)
    debts = build_debts(specs, owner, case['rates'])
    for k, sub in enumerate(case['subclass']):
        if sub:
            debts[k].__class__ = Mortgage
    attrs = {}
    if case['room'] is not None:
        attrs['max_inflow_limit'] = property(lambda self: case['room'])
    saving = type('Saving', (Account,), attrs)
    accounts = [saving(owner, balance=100, rate=0.05)
                for _ in range(case['n_accounts'])]
    manner = case['manner']
    kwargs = {}
    if manner['debt_strategy'] is not None:
        kwargs['debt_strategy'] = manner['debt_strategy']
    strategy = TransactionStrategy(
        manner['strategy'], dict(zip(['Debt', 'Saving'], manner['weights'])),
        high_interest_threshold=manner['threshold'], **kwargs)
    got = mixed_year(case, rec, specs, debts, accounts, strategy, manner,
                     case['flows'], [s['balance'] for s in specs])
    # The same strategy in later years, perhaps after it's amended:
    for n, later in enumerate(case['later']):
        for account, row in got.items():
            for when, value in row.items():
                if case['pay'] and account in debts:
                    account.add_transaction(value, when=when)
        for each in debts + accounts:
            each.next_year()
        if case['rates']:
            specs = [dict(spec, rate=value) for spec, value in zip(
                specs, case['rates'][n])]
        balances = [-debt.balance for debt in debts]
        if ambiguous(specs, balances):
            return
        if later['manner'] is not None:
            manner = later['manner']
            strategy.strategy = manner['strategy']
            strategy.weights = dict(
                zip(['Debt', 'Saving'], manner['weights']))
            strategy.high_interest_threshold = manner['threshold']
            manner = dict(
                manner, debt_strategy=manner['debt_strategy'] or 'Avalanche')
            strategy.debt_strategy = manner['debt_strategy']
        got = mixed_year(
            case, rec, specs, debts, accounts, strategy, manner,
            later['flows'], [max(balance, 0) for balance in balances])
        rec.tag('later years')


def mixed_year(case, rec, specs, debts, accounts, strategy, manner, flows,
               balances):
    """ Checks one year of payments; returns them. """
    available = {t: v for t, v in flows}
    total = sum(available.values())
    got = strategy(available, set(debts) | set(accounts))
    bounds = [most(spec, balance, available)
              for spec, balance in zip(specs, balances)]
    lows = {k: b[0] for k, b in enumerate(bounds)}
    highs = {k: b[1] for k, b in enumerate(bounds)}
    order = repay_order(specs, balances,
                        manner['debt_strategy'] or 'Avalanche')
    dear = [k for k in order if balances[k] > 0
            and specs[k]['rate'] >= manner['threshold']]
    cheap = [k for k in order if k not in dear]
    room = (math.inf if case['room'] is None else case['room'])
    room = min(room * len(accounts), 1e9) if accounts else 0

    def divide(amount, low, high):
        """ Divides amount between cheap debts and savings. """
        totals = [sum(low[k] for k in cheap), 0]
        tops = [sum(high[k] for k in cheap), room if high is highs else 0]
        if manner['strategy'] == 'Weighted':
            return water_fill(amount, manner['weights'], totals, tops)
        spare, result = amount - sum(totals), list(totals)
        for i in sorted((0, 1), key=lambda i: manner['weights'][i]):
            extra = min(spare, tops[i] - totals[i])
            result[i] += extra
            spare -= extra
        return result

    zeros = dict.fromkeys(lows, 0)
    low_dear = sum(lows[k] for k in dear)
    low_cheap = sum(lows[k] for k in cheap)
    if total < low_dear + low_cheap:
        want = in_order(min(total, low_dear), dear, zeros, lows)
        rest = max(total - low_dear, 0)
        to_cheap, to_saving = divide(rest, zeros, lows)
        want.update(in_order(to_cheap, cheap, zeros, lows))
        rec.tag('short of minimums')
    else:
        to_dear = min(total - low_cheap, sum(highs[k] for k in dear))
        want = in_order(to_dear, dear, lows, highs)
        to_cheap, to_saving = divide(total - to_dear, lows, highs)
        want.update(in_order(to_cheap, cheap, lows, highs))
    for k, debt in enumerate(debts):
        rec.close(sum(got.get(debt, {}).values()), want[k],
                  "payments on debt %d (high-interest: %r, limits %r)" % (
                      k, dear, bounds), **TOL)
    saved = sum(sum(got.get(a, {}).values()) for a in accounts)
    rec.close(saved, to_saving if accounts else 0, "saved", **TOL)
    for account in accounts:
        rec.close(sum(got.get(account, {}).values()),
                  saved / len(accounts), "saved to one account", **TOL)
    rec.nontrivial(sum(want.values()) > 1 and (
        saved > 1 or len(debts) > 1))
    rec.tag('high-interest', bool(dear))
    rec.tag('both', bool(dear) and bool(cheap) and saved > 1)
    return got


CHECKS = [
    Check('life', life_case, life, 600, 12000,
          "a debt's payments and balance year after year"),
    Check('plan', plan_case, plan, 700, 15000,
          "debt payment plans, minimums first and in order"),
    Check('mixed', mixed_case, mixed, 900, 20000,
          "debts repaid alongside other accounts"),
]
