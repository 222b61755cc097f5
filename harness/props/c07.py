""" C07: RRSPs and RRIFs. """
from hypothesis import strategies as st
from core import Check, horizon, is_close, money, rate
from props.c06 import FIRST, LAST, inflation_st
import acct
import models

RULE = (
    "Cases are an RRSP (owned and contributed to by the same or different "
    "people) of any age, a way of choosing the conversion year, inflation, "
    "an optional shared minimum, and several years of contributions and "
    "withdrawals (some at the withholding thresholds or the minimum); "
    "non-trivial = a withdrawal is made and either the account is converted "
    "or inflation isn't zero")
ASSUMPTIONS = [
    "withdrawals don't exceed the balance", "statutory figures are those of "
    "the packaged constants (2017)", "indexed withdrawals within rounding "
    "error of a threshold may fall on either side"]
FACTORS = dict(zip(range(71, 96), (
    .0528, .0540, .0553, .0567, .0582, .0598, .0617, .0636, .0658, .0682,
    .0708, .0738, .0771, .0808, .0851, .0899, .0955, .1021, .1099, .1192,
    .1306, .1449, .1634, .1879, .2000)))


def factor(age):
    if age < 71:
        return 1 / (90 - age)
    return FACTORS.get(age, 0.20)


def withholding_rates(amount, adjust, exact):
    """ Possible rates (two at a threshold subject to rounding). """
    def pick(value):
        return 0.3 if value > 15000 else 0.2 if value > 5000 else 0.1
    value = amount * adjust
    if exact:
        return {pick(value)}
    return {pick(value * (1 - 1e-9)), pick(value * (1 + 1e-9))}


@st.composite
def rrsp_case(draw):
    year = draw(st.integers(2005, 2035))
    years = draw(horizon(6, 14))
    age = draw(st.one_of(
        st.integers(66, 73), st.integers(20, 70), st.integers(70, 104)))
    other = draw(st.one_of(st.none(), st.integers(20, 100)))
    mandatory = year - age + 71
    convert = draw(st.one_of(
        st.none(), st.integers(-10, 0).map(lambda d: mandatory + d),
        st.integers(year - 3, year + 4), st.just(mandatory)))
    flow = st.one_of(
        st.fixed_dictionaries({
            'op': st.just('out'), 'when': st.one_of(
                st.sampled_from([0, 0.5, 1, 'start', 'end']),
                st.integers(0, 12).map(lambda k: k / 12)),
            'share': st.integers(0, 100)}),
        st.fixed_dictionaries({
            'op': st.just('out'), 'when': st.sampled_from([0, 0.5, 1]),
            'amount': st.sampled_from(
                [5000, 5000.01, 4999.99, 15000, 15000.01, 14999.99, 2500,
                 10000, 20000])}),
        st.fixed_dictionaries({
            'op': st.just('in'), 'when': st.sampled_from([0, 0.25, 1]),
            'amount': money(0, 20000)}),
        st.fixed_dictionaries({
            'op': st.sampled_from(['min', 'min', 'max']),
            'timing': acct.timing_spec()}),
        st.fixed_dictionaries({'op': st.just('convert'),
                               'year': st.one_of(
                                   st.none(), st.integers(-3, 8))}))
    return {
        'year': year, 'age': age, 'other': other, 'convert': convert,
        'convert_form': draw(st.sampled_from(['int', 'str'])),
        'balance': draw(st.one_of(money(0, 300000), st.just(100000))),
        'rate': draw(rate(0, 0.12)),
        'nper': draw(st.sampled_from([1, 'C', 12])),
        'shared': draw(st.one_of(st.none(), st.none(), money(0, 15000))),
        'inflation': draw(inflation_st()), 'watch': draw(st.booleans()),
        # In which year the account passes to a spouse of what age
        'passes': draw(st.one_of(st.none(), st.none(), st.tuples(
            st.integers(0, years - 1), st.integers(20, 100)).map(list))),
        'flows': [draw(st.lists(flow, max_size=3)) for _ in range(years)]}


def rrsp(case, rec):
    from forecaster import Person
    from forecaster.canada import RRSP
    year = case['year']
    born = year - case['age']
    mandatory = born + 71
    owner = Person(year, "Owner", birth_date='%d-03-31' % born,
                   retirement_date='%d-12-31' % (year + 1))
    other = None
    if case['other'] is not None:
        other = Person(
            year, "Other", birth_date='%d-03-31' % (year - case['other']),
            retirement_date='%d-12-31' % (year + 1))
    inflation = models.Inflation(FIRST, case['inflation'])
    exact = not any(case['inflation'])
    kwargs = {}
    if case['shared'] is not None:
        kwargs = {'min_outflow_link': (owner, 'HBP'),
                  'min_outflow_limit': -case['shared']}

    def make(convert):
        return RRSP(
            owner, balance=case['balance'], rate=case['rate'],
            nper=case['nper'], contributor=other,
            inflation_adjust=inflation.adjust,
            rrif_conversion_year=convert, **kwargs)

    convert = case['convert']
    if convert is not None and convert > mandatory:
        rec.raises(ValueError, lambda: make(convert),
                   "conversion after the mandatory year")
        convert = None
    account = make(str(convert) if convert is not None
                   and case['convert_form'] == 'str' else convert)
    conversion = mandatory if convert is None else convert
    explicit = convert is not None
    rec.eq(account.rrif_conversion_year, conversion, "conversion year")
    nper = acct.nper_ref(case['nper'])
    history = {}
    for step, ops in enumerate(case['flows']):
        this_year = year + step
        if case['passes'] is not None and case['passes'][0] == step:
            figure_before = account.min_outflow_limit
            heir_born = this_year - case['passes'][1]
            # (What becomes of a later conversion isn't specified.)
            if not explicit or conversion <= heir_born + 71:
                if not explicit:
                    conversion = heir_born + 71
                born, mandatory = heir_born, heir_born + 71
                account.owner = Person(
                    this_year, "Heir", birth_date='%d-11-30' % born,
                    retirement_date='%d-12-31' % (this_year + 1))
                rec.tag('passes to a spouse', figure_before != 0)
        age = this_year - born
        opening = account.balance
        spent = 0.0
        flows = {}
        tol = dict(rel=1e-8, scale=opening + 50000)

        def minimum():
            least = opening * factor(age) if conversion < this_year else 0
            return max(least, case['shared'] or 0)

        def add(amount, when):
            account.add_transaction(amount, when)
            when = acct.when_ref(when)
            flows[when] = flows.get(when, 0) + amount

        def closing():
            return models.balance_at(
                opening, list(flows.items()), case['rate'], nper, 1)

        def figures():
            """ Checks this year's figures; returns the tax withheld. """
            rec.eq(account.rrif_conversion_year, conversion, "conversion year")
            what = " in %d (age %d, converted %d)" % (
                this_year, age, conversion)
            outflows = -sum(v for v in flows.values() if v < 0)
            inflows = sum(v for v in flows.values() if v > 0)
            rec.close(account.min_outflow_limit, -minimum(),
                      "minimum withdrawal" + what, **tol)
            rec.close(account.taxable_income, outflows,
                      "taxable income" + what, **tol)
            rec.close(account.tax_deduction, inflows, "deduction" + what, **tol)
            base = outflows
            if conversion <= this_year:
                base = max(outflows - minimum(), 0)
            rates = withholding_rates(
                base, inflation.adjust(2017, this_year), exact
                and base == round(base, 2))
            actual = account.tax_withheld
            rec.ok(any(is_close(actual, base * r, **tol) for r in rates),
                   "tax withheld%s on %r: got %r, expected %r times one of %r",
                   what, outflows, actual, base, sorted(rates))
            rec.nontrivial(outflows > 0 and (
                conversion <= this_year or not exact))
            rec.tag('converted', conversion <= this_year)
            rec.tag('in the conversion year', conversion == this_year)
            rec.tag('minimum by age, under 71',
                    conversion < this_year and age < 71)
            rec.tag('minimum by age, over 95',
                    conversion < this_year and age > 95)
            rec.tag('withheld at %s' % sorted(rates), base > 0)
            rec.tag("contributor isn't the owner", other is not None)
            return actual

        for op in ops:
            if case['watch']:
                figures()
            if op['op'] == 'convert':
                target = this_year if op['year'] is None \
                    else this_year + op['year']
                args = () if op['year'] is None else (target,)
                if target > mandatory:
                    rec.raises(ValueError, lambda: account.convert_to_rrif(
                        *args), "late conversion")
                else:
                    account.convert_to_rrif(*args)
                    conversion, explicit = target, True
                    rec.tag('converted explicitly')
                rec.eq(account.rrif_conversion_year, conversion,
                       "conversion year")
            elif op['op'] == 'in':
                add(op['amount'], op['when'])
            elif op['op'] == 'out':
                amount = op.get('amount', opening * op.get('share', 0) / 100)
                amount = min(amount, opening - spent)
                if amount > 0:
                    spent += amount
                    add(-amount, op['when'])
            else:
                timing = acct.timing_arg(op['timing'])
                shares = acct.timing_ref(op['timing'])
                grow = sum(w * models.growth(case['rate'], nper, 1 - t)
                           for t, w in shares.items())
                room = closing() / grow
                out = -sum(v for v in flows.values() if v < 0)
                least = min(max(minimum() - out, 0), room)
                low = account.min_outflows(timing=timing)
                high = account.max_outflows(timing=timing)
                rec.close(sum(low.values()), -max(least, 0),
                          "minimum outflows", **tol)
                rec.close(sum(high.values()), -max(room, 0),
                          "maximum outflows", **tol)
                for flows_ in (low, high):
                    rec.ok(set(flows_) <= set(shares), "times %r", flows_)
                    for when, amount in flows_.items():
                        rec.ok(amount <= 1e-9, "direction of %r", flows_)
                if op['op'] == 'min':
                    rec.tag('minimum withdrawn', least > 1)
                    for when, amount in low.items():
                        add(amount, when)
                    spent += least
                    if (least >= minimum() - out > 0
                            and not any(o['op'] == 'in' for o in ops)):
                        rec.le(minimum(), -account.outflows(),
                               "minimum withdrawals reached", **tol)
                    if room > 0 and spent > opening:
                        break
                else:
                    for when, amount in high.items():
                        add(amount, when)
                    spent += max(room, 0)
                    rec.tag('everything withdrawn', room > 1)
                    if room > 0:
                        break
        actual = figures()
        history[this_year] = (actual, account.taxable_income,
                              account.tax_deduction)
        account.next_year()
        if account.balance < 0:
            break
    for past, values in history.items():
        rec.eq((account.tax_withheld_history[past],
                account.taxable_income_history[past],
                account.tax_deduction_history[past]), values,
               "history of %d" % past)


@st.composite
def lifetime_case(draw):
    age = draw(st.integers(50, 71))
    return {
        'year': draw(st.integers(2005, 2017)), 'age': age,
        'convert': draw(st.one_of(st.none(), st.integers(0, 71 - age))),
        'balance': draw(money(1000, 500000)), 'rate': draw(rate(0, 0.12)),
        'share': draw(st.one_of(
            st.just(None), st.integers(0, 12).map(lambda n: n / 100))),
        'until': draw(st.integers(90, 99))}


def lifetime(case, rec):
    """ The minimum of every age, from before conversion to old age. """
    from forecaster import Person
    from forecaster.canada import RRSP
    year = case['year']
    born = year - case['age']
    owner = Person(year, "Owner", birth_date='%d-11-30' % born,
                   retirement_date='%d-12-31' % (year + 1))
    conversion = born + 71 if case['convert'] is None \
        else year + case['convert']
    kwargs = {} if case['convert'] is None \
        else {'rrif_conversion_year': conversion}
    account = RRSP(
        owner, balance=case['balance'], rate=case['rate'], nper=1,
        inflation_adjust=lambda *args, **kw: 1, **kwargs)
    balance, this_year = case['balance'], year
    while this_year - born <= case['until']:
        age = this_year - born
        tol = dict(rel=1e-8, scale=balance + 1)
        rec.close(account.balance, balance, "balance at %d" % age, **tol)
        minimum = balance * factor(age) if conversion < this_year else 0
        rec.close(account.min_outflow_limit, -minimum,
                  "minimum withdrawal at %d" % age, **tol)
        low = account.min_outflows()
        rec.close(sum(low.values()), -minimum,
                  "minimum outflows at %d" % age, **tol)
        out = minimum if case['share'] is None else balance * case['share']
        if out:
            account.add_transaction(-out, 'start')
        base = out if conversion > this_year else max(out - minimum, 0)
        if conversion >= this_year:
            base = out
        part = 0.3 if base > 15000 else 0.2 if base > 5000 else 0.1
        if abs(base - 15000) > 1e-3 and abs(base - 5000) > 1e-3:
            rec.close(account.tax_withheld, base * part,
                      "tax withheld at %d" % age, **tol)
        balance = (balance - out) * (1 + case['rate'])
        rec.tag('over 95', age > 95)
        rec.nontrivial(conversion < this_year and balance > 0)
        account.next_year()
        this_year += 1


CHECKS = [
    Check('lifetime', lifetime_case, lifetime, 300, 6000,
          "minimum withdrawals and withholding at every age to 99"),
    Check('rrsp', rrsp_case, rrsp, 2500, 60000,
          "conversion, minimum withdrawals, withholding and taxation"),
]
