""" C08: adjusted cost base and capital gains. """
from hypothesis import strategies as st
from core import Check, horizon, money, rate, unit
import acct
import models

RULE = (
    "Cases are an opening balance and cost base, a rate and frequency, and "
    "years of interleaved additions, replacements, removals and reads of "
    "contributions and withdrawals in any order of time, with values "
    "supplied for some years; non-trivial = a withdrawal follows growth or "
    "a contribution in a year, or transactions change after a read")
ASSUMPTIONS = [
    "there is a positive balance before each withdrawal and withdrawals "
    "don't exceed it (other than withdrawals from empty accounts, without "
    "growth)", "simultaneous transactions are one net transaction",
    "values aren't supplied as inputs for the initial year"]
YEAR = 2000


@st.composite
def case_st(draw):
    years = draw(horizon(4, 9))
    times = draw(st.lists(unit(), min_size=1, max_size=4, unique_by=float))
    op = st.one_of(
        st.fixed_dictionaries({
            'op': st.just('in'), 'when': st.sampled_from(times),
            'amount': money(0, 20000)}),
        st.fixed_dictionaries({
            'op': st.just('out'), 'when': st.sampled_from(times),
            'share': st.integers(1, 100)}),
        st.fixed_dictionaries({
            'op': st.just('set'), 'when': st.sampled_from(times),
            'amount': money(0, 20000)}),
        st.fixed_dictionaries({
            'op': st.just('del'), 'when': st.sampled_from(times)}),
        st.fixed_dictionaries({
            'op': st.sampled_from(['read', 'read', 'clear', 'history'])}))
    return {
        'balance': draw(st.one_of(money(0, 100000), st.just(1000))),
        'acb': draw(st.one_of(st.none(), money(0, 150000))),
        'rate': draw(rate(-0.3, 0.5)), 'nper': draw(acct.nper_st),
        'ops': [draw(st.lists(op, max_size=6)) for _ in range(years)],
        'in_acb': draw(st.lists(st.tuples(
            st.integers(1, 8), money(0, 50000)).map(list), max_size=1)),
        'in_gain': draw(st.lists(st.tuples(
            st.integers(1, 8), money(-5000, 50000)).map(list), max_size=1)),
        'liquidate': draw(st.booleans())}


def reference(balance, acb, rate_, nper, flows):
    """ (gain, closing acb) given net flows by time. """
    gain, done = 0.0, []
    for when in sorted(flows):
        value = flows[when]
        before = models.balance_at(balance, done, rate_, nper, when)
        if value >= 0:
            acb += value
        else:
            share = -value / before
            gain += -value - acb * share
            acb -= acb * share
        done.append((when, value))
    return gain, acb


def affordable(balance, rate_, nper, flows):
    """ Whether every withdrawal leaves (and finds) a sound balance. """
    done = []
    for when in sorted(flows):
        before = models.balance_at(balance, done, rate_, nper, when)
        if flows[when] < 0 and (before < 1 or -flows[when] > before + 1e-9):
            return False
        done.append((when, flows[when]))
    return True


def gains(case, rec):
    from forecaster.canada import TaxableAccount
    inputs = {}
    in_acb = {YEAR + n: v for n, v in case['in_acb']}
    in_gain = {YEAR + n: v for n, v in case['in_gain']}
    if in_acb:
        inputs['acb'] = dict(in_acb)
    if in_gain:
        inputs['capital_gain'] = dict(in_gain)
    owner = acct.person(YEAR)

    def make(year, balance, acb):
        return TaxableAccount(
            owner, balance=balance, rate=case['rate'], nper=case['nper'],
            acb=acb, initial_year=year)

    account = TaxableAccount(
        owner, balance=case['balance'], rate=case['rate'],
        nper=case['nper'], acb=case['acb'],
        **({'inputs': inputs} if inputs else {}))
    nper = acct.nper_ref(case['nper'])
    acb = case['balance'] if case['acb'] is None else case['acb']
    rec.close(account.acb, acb, "initial acb")
    contributed, withdrawn, realised, history = 0.0, 0.0, 0.0, {}
    pure = not inputs
    start = acb
    for step, ops in enumerate(case['ops']):
        year = YEAR + step
        if year in in_acb:
            acb = in_acb[year]
        opening = account.balance
        flows, stale = {}, False
        tol = dict(rel=1e-8, scale=abs(opening) + abs(acb) + 20000)
        rec.close(account.acb, acb, "acb in %d" % year, **tol)
        last = (step == len(case['ops']) - 1)
        if last and case['liquidate']:
            ops = ops + [{'op': 'everything'}]

        def check(what):
            gain, after = reference(
                opening, acb, case['rate'], nper, flows)
            expected = in_gain.get(year, gain)
            what = "%s in %d with %r" % (what, year, flows)
            rec.close(account.capital_gain, expected,
                      "capital gain " + what, **tol)
            rec.close(account.taxable_income, expected / 2,
                      "taxable income " + what, **tol)
            rec.close(account.capital_gain_history[year], expected,
                      "history of capital gain " + what, **tol)
            rec.close(account.taxable_income_history[year], expected / 2,
                      "history of taxable income " + what, **tol)
            rec.close(account.acb, acb, "opening acb " + what, **tol)
            rec.close(account.acb_history[year], acb,
                      "history of acb " + what, **tol)
            return gain, after

        for op in ops:
            trial = dict(flows)
            if op['op'] in ('read', 'history'):
                check("read")
                stale = True
                continue
            if op['op'] == 'in':
                trial[op['when']] = trial.get(op['when'], 0) + op['amount']
            elif op['op'] == 'out':
                before = models.balance_at(
                    opening, [f for f in flows.items()], case['rate'],
                    nper, op['when'])
                amount = max(before, 0) * op['share'] / 100
                if amount < 1:
                    continue
                trial[op['when']] = trial.get(op['when'], 0) - amount
            elif op['op'] == 'set':
                trial[op['when']] = op['amount']
            elif op['op'] == 'del':
                if op['when'] not in trial:
                    continue
                del trial[op['when']]
            elif op['op'] == 'everything':
                amount = models.balance_at(
                    opening, [f for f in flows.items()], case['rate'],
                    nper, 1)
                if amount < 1 or 1 in flows:
                    continue
                trial[1] = -amount
            else:
                trial = {}
            if not affordable(opening, case['rate'], nper, trial):
                rec.tag('skipped an unaffordable operation')
                continue
            rec.tag('changed after a read', stale)
            rec.nontrivial(stale and any(v < 0 for v in trial.values()))
            if op['op'] in ('in', 'out', 'everything'):
                when = op.get('when', 1)
                account.add_transaction(
                    trial[when] - flows.get(when, 0), when)
                # (so that both agree to the last bit:)
                trial[when] = account.transactions[when]
            elif op['op'] == 'set':
                account[op['when']] = op['amount']
            elif op['op'] == 'del':
                del account[op['when']]
            else:
                account.clear()
            flows = trial
        rec.eq(dict(account.transactions), flows, "transactions")
        gain, after = check("at year end")
        # Inserting the final set in any order is the same:
        for order in (sorted(flows), sorted(flows, reverse=True)):
            other = make(year, opening, acb)
            for when in order:
                other.add_transaction(flows[when], when)
            if year not in in_gain:
                rec.close(other.capital_gain, account.capital_gain,
                          "capital gain in another order", **tol)
            other.next_year()
            rec.close(other.acb, after, "acb in another order", **tol)
        withdraws = [when for when, v in flows.items() if v < 0]
        rec.nontrivial(bool(withdraws) and case['rate'] != 0)
        rec.tag('withdrawals', len(withdraws))
        rec.tag('gain', gain > 1)
        rec.tag('loss', gain < -1)
        realised += gain
        contributed += sum(v for v in flows.values() if v > 0)
        withdrawn -= sum(v for v in flows.values() if v < 0)
        if last and 1 in flows and abs(account.balance_at_time(1)) < 1e-6 \
                and pure and flows[1] < 0:
            rec.tag('liquidated')
            rec.close(realised, withdrawn - contributed - start,
                      "gains over all years", rel=1e-7,
                      scale=withdrawn + contributed + abs(start) + 1)
            rec.close(after, 0, "acb of nothing", **tol)
        history[year] = (account.acb, account.capital_gain,
                         account.taxable_income)
        account.next_year()
        acb = after
        if account.balance < -1e-6:
            break
    for year, values in history.items():
        rec.eq((account.acb_history[year], account.capital_gain_history[year],
                account.taxable_income_history[year]), values,
               "history of %d" % year)


overdrawn_case = st.fixed_dictionaries({
    'out': st.lists(money(1, 5000), min_size=1, max_size=3),
    'back': money(15000, 30000), 'high': st.booleans(),
    'years': st.integers(0, 2)})


def overdrawn(case, rec):
    """ There's nothing to gain from an account which is empty. """
    from decimal import Decimal
    from forecaster.canada import TaxableAccount
    num = (lambda v: Decimal(str(v))) if case['high'] else (lambda v: v)
    kwargs = {'high_precision': Decimal} if case['high'] else {}
    account = TaxableAccount(
        acct.person(YEAR), balance=num(0), rate=num(0), **kwargs)
    for _ in range(case['years']):
        account.next_year()
    for i, amount in enumerate(case['out']):
        account.add_transaction(num(-amount), num((i + 1) / 8))
    account.add_transaction(num(case['back']), num(0.75))
    rec.nontrivial(True)
    rec.close(float(account.capital_gain), 0, "gain from an empty account",
              scale=30000)
    rec.close(float(account.taxable_income), 0,
              "income from an empty account", scale=30000)
    account.next_year()
    rec.close(float(account.acb), case['back'] - sum(case['out']),
              "acb once the overdraft is made up", scale=30000)


@st.composite
def exempt_case(draw):
    return {'kind': draw(st.sampled_from(['TFSA', 'PrincipleResidence'])),
            'balance': draw(money(0, 500000)), 'rate': draw(rate()),
            'years': [draw(acct.tx_list(-20000, 20000, 3))
                      for _ in range(draw(st.integers(1, 4)))]}


def exempt(case, rec):
    """ Accounts whose gains aren't taxable. """
    from forecaster.canada import TFSA
    from forecaster.canada.accounts.principle_residence import (
        PrincipleResidence)
    cls = TFSA if case['kind'] == 'TFSA' else PrincipleResidence
    owner = acct.person(2015)
    account = cls(owner, balance=case['balance'], rate=case['rate'])
    for pairs in case['years']:
        for when, amount in pairs:
            account.add_transaction(amount, when)
            rec.nontrivial(amount < 0)
        for name in ('taxable_income', 'tax_withheld', 'tax_deduction',
                     'tax_credit'):
            rec.eq(getattr(account, name), 0, name)
            rec.eq(getattr(account, name + '_history')[account.this_year],
                   0, name)
        account.next_year()


CHECKS = [
    Check('gains', case_st, gains, 2500, 60000,
          "acb and gains against a reference, with edits between reads"),
    Check('overdrawn', lambda: overdrawn_case, overdrawn, 200, 3000,
          "withdrawals from empty accounts realise nothing"),
    Check('exempt', exempt_case, exempt, 200, 3000,
          "gains of TFSAs and residences aren't taxable"),
]
