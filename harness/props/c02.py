""" C02: recorded yearly history. """
import copy
import math
from hypothesis import strategies as st
from core import Check, horizon, money, rate, unit
import acct
import models

RULE = (
    "Cases are sequences of read/assign/delete/change-state/advance "
    "operations over several objects with some years given as inputs; "
    "non-trivial = at least one advance and, before it, an assignment, a "
    "cached read or a transaction")
ASSUMPTIONS = [
    "inputs are given for years after the initial year (the docs leave "
    "the initial year undefined)"]
YEAR = 2000


def sample_class():
    """ A record-keeping class using every kind of recorded property. """
    from forecaster.ledger import (
        Ledger, recorded_property, recorded_property_cached)

    class Sample(Ledger):
        def __init__(self, initial_year, inputs=None, start=0):
            super().__init__(initial_year, inputs=inputs)
            self.state = 0
            self._custom = 0
            self.chained = start

        @recorded_property
        def plain(self):
            return self.state

        @recorded_property_cached
        def cached(self):
            return self.state * 2 + self.this_year

        @recorded_property
        def derived(self):
            return self.plain + self.cached

        @recorded_property_cached
        def chained(self):
            return (self.plain_history.get(self.this_year - 1, 5) * 2
                    + self.plain)

        @recorded_property
        def custom(self):
            return self._custom

        @custom.setter
        def custom(self, val):
            self._custom = val + 1

        @custom.deleter
        def custom(self):
            self._custom = -7

    return Sample


class Model:
    """ What the docs say about each kind of recorded property. """
    PROPS = ('plain', 'cached', 'derived', 'chained', 'custom')
    CACHED = ('cached', 'chained')

    def __init__(self, inputs, start):
        self.inputs = inputs
        self.year = YEAR
        self.state = 0
        self._custom = 0
        self.hist = {p: dict(inputs.get(p, {})) for p in self.PROPS}
        self.set('chained', start)

    def is_input(self, prop):
        return self.year in self.inputs.get(prop, {})

    def compute(self, prop):
        if prop == 'plain':
            return self.state
        if prop == 'cached':
            return self.state * 2 + self.year
        if prop == 'derived':
            return self.get('plain') + self.get('cached')
        if prop == 'chained':
            return (self.history('plain').get(self.year - 1, 5) * 2
                    + self.get('plain'))
        return self._custom

    def get(self, prop):
        if self.year in self.hist[prop]:
            return self.hist[prop][self.year]
        val = self.compute(prop)
        if prop in self.CACHED:
            self.hist[prop][self.year] = val
        return val

    def set(self, prop, val):
        if self.is_input(prop):
            return
        if prop == 'custom':
            self.hist[prop].pop(self.year, None)
            self._custom = val + 1
        else:
            self.hist[prop][self.year] = val

    def delete(self, prop):
        if self.is_input(prop):
            return
        self.hist[prop].pop(self.year, None)
        if prop == 'custom':
            self._custom = -7

    def history(self, prop):
        value = self.get(prop)
        result = dict(self.hist[prop])
        result[self.year] = value
        return result

    def next_year(self):
        for prop in self.PROPS:
            if self.year not in self.hist[prop]:
                self.hist[prop][self.year] = self.get(prop)
        self.year += 1

    def clear_cache(self):
        for prop in self.CACHED:
            self.delete(prop)


@st.composite
def machine_case(draw):
    n = draw(horizon(3, 7))
    objects = []
    for _ in range(n):
        inputs = {}
        for prop in draw(st.lists(st.sampled_from(Model.PROPS), max_size=3,
                                  unique=True)):
            inputs[prop] = [
                [y, draw(st.integers(-9, 9))] for y in draw(st.lists(
                    st.integers(YEAR + 1, YEAR + 5), min_size=1, max_size=4,
                    unique=True))]
        objects.append({'inputs': inputs, 'start': draw(st.integers(-5, 5))})
    prop = st.sampled_from(Model.PROPS)
    who = st.integers(0, n - 1)
    op = st.one_of(
        st.tuples(st.just('get'), who, prop),
        st.tuples(st.just('history'), who, prop),
        st.tuples(st.just('set'), who, prop, st.integers(-50, 50)),
        st.tuples(st.just('del'), who, prop),
        st.tuples(st.just('state'), who, st.integers(-50, 50)),
        st.tuples(st.just('clear'), who),
        st.tuples(st.just('next'), who), st.tuples(st.just('next'), who))
    return {'objects': objects, 'ops': [
        list(o) for o in draw(st.lists(op, min_size=6, max_size=25))]}


def machine(case, rec):
    cls = sample_class()
    pairs = []
    for spec in case['objects']:
        inputs = {p: dict((y, v) for y, v in vals)
                  for p, vals in spec['inputs'].items()}
        real = cls(YEAR, inputs=copy.deepcopy(inputs) or None,
                   start=spec['start'])
        pairs.append((real, Model(inputs, spec['start'])))
    touched = False
    for op in case['ops']:
        real, model = pairs[op[1]]
        kind = op[0]
        if kind == 'get':
            rec.eq(getattr(real, op[2]), model.get(op[2]),
                   "%s in %d" % (op[2], model.year))
            touched = touched or op[2] in Model.CACHED
        elif kind == 'history':
            rec.eq(dict(getattr(real, op[2] + '_history')),
                   model.history(op[2]), "%s history" % op[2])
        elif kind == 'set':
            setattr(real, op[2], op[3])
            rec.tag('assign to an input year', model.is_input(op[2]))
            model.set(op[2], op[3])
            touched = True
        elif kind == 'del':
            delattr(real, op[2])
            model.delete(op[2])
        elif kind == 'state':
            real.state = model.state = op[2]
        elif kind == 'clear':
            real.clear_cache()
            model.clear_cache()
        elif kind == 'next':
            real.next_year()
            model.next_year()
            rec.nontrivial(touched)
        rec.eq(real.this_year, model.year, "year")
    for real, model in pairs:
        for prop in Model.PROPS:
            rec.eq(dict(getattr(real, prop + '_history')),
                   model.history(prop), "final %s history" % prop)
            rec.eq(getattr(real, prop), model.get(prop), "final %s" % prop)
            for y, v in model.inputs.get(prop, {}).items():
                rec.eq(real.inputs[prop][y], v, "input of %d" % y)


# ------------------------------------------------------------ real objects

INPUTTABLE = {
    'person': ['gross_income', 'net_income', 'raise_rate', 'taxable_income',
               'tax_withheld'],
    'account': ['balance', 'rate', 'returns', 'taxable_income',
                'tax_withheld', 'tax_credit'],
    'debt': ['balance', 'rate'],
    'taxable': ['balance', 'acb', 'capital_gain'],
    'rrsp': ['balance', 'contribution_room', 'tax_withheld'],
    'tfsa': ['balance', 'contribution_room']}


@st.composite
def objects_case(draw):
    kinds = draw(st.lists(st.sampled_from(sorted(INPUTTABLE)[:-1]
                                          + ['tfsa']), min_size=1,
                          max_size=3))
    kinds = ['person'] + [k for k in kinds if k != 'person']
    objects = []
    for kind in kinds:
        inputs = {}
        for prop in draw(st.lists(st.sampled_from(INPUTTABLE[kind]),
                                  max_size=2, unique=True)):
            is_rate = 'rate' in prop
            inputs[prop] = [
                [y, draw(rate(0, 0.2) if is_rate else money(0, 50000))]
                for y in draw(st.lists(
                    st.integers(YEAR + 1, YEAR + 4), min_size=1, max_size=3,
                    unique=True))]
            if kind == 'debt' and prop == 'balance':
                inputs[prop] = [[y, -v] for y, v in inputs[prop]]
        objects.append({
            'kind': kind, 'inputs': inputs, 'start': draw(money(100, 90000)),
            'rate': draw(rate(0, 0.2))})
    years = []
    for _ in range(draw(st.integers(1, 5))):
        years.append({
            'tx': [[i, t, v] for i, t, v in draw(st.lists(st.tuples(
                st.integers(0, 3), unit(), money(-50, 3000)), max_size=4))],
            'reads': [list(r) for r in draw(st.lists(st.tuples(
                st.integers(0, 3), st.integers(0, 30)), max_size=4))]})
    return {'objects': objects, 'years': years}


def build(spec, owner):
    from forecaster import Person, Account, Debt, Tax
    from forecaster.canada import RRSP, TFSA, TaxableAccount
    inputs = {p: dict((y, v) for y, v in vals)
              for p, vals in spec['inputs'].items()}
    kind = spec['kind']
    if kind == 'person':
        return Person(
            YEAR, "A", '1 January 1980', retirement_date='1 June 2003',
            gross_income=spec['start'], raise_rate=spec['rate'],
            tax_treatment=Tax({YEAR: {0: 0.1, 20000: 0.3}}), inputs=inputs)
    kwargs = dict(balance=spec['start'], rate=spec['rate'], inputs=inputs)
    if kind == 'account':
        return Account(owner, **kwargs)
    if kind == 'debt':
        kwargs['balance'] = -abs(kwargs['balance'])
        return Debt(owner, **kwargs)
    if kind == 'taxable':
        return TaxableAccount(owner, acb=spec['start'] / 2, **kwargs)
    adjust = models.Inflation(1950, [0.02] * 150).adjust
    if kind == 'rrsp':
        return RRSP(owner, inflation_adjust=adjust,
                    contribution_room=10000, **kwargs)
    return TFSA(owner, inflation_adjust=adjust, contribution_room=10000,
                **kwargs)


def plain(value):
    """ A comparable, independent copy of a recorded value. """
    if isinstance(value, dict):
        return {k: plain(v) for k, v in value.items()}
    return value


def same(a, b):
    if isinstance(a, dict) or isinstance(b, dict):
        return (isinstance(a, dict) and isinstance(b, dict)
                and set(a) == set(b) and all(same(a[k], b[k]) for k in a))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return (a == b or (math.isnan(a) and math.isnan(b))
                or abs(a - b) <= 1e-9 * max(1, abs(a), abs(b)))
    return a == b


def objects(case, rec):
    specs = case['objects']
    person = build(specs[0], None)
    objs = [person] + [build(s, person) for s in specs[1:]]
    props = [acct.history_props(o) for o in objs]
    for i, obj in enumerate(objs):
        rec.ok(props[i], "no recorded properties on %r", specs[i]['kind'])
    past = {}
    for n, ops in enumerate(case['years']):
        year = YEAR + n
        for i, when, amount in ops['tx']:
            obj = objs[i % len(objs)]
            if obj is not person:
                obj.add_transaction(abs(amount), when)
        for i, j in ops['reads']:
            i %= len(objs)
            getattr(objs[i], props[i][j % len(props[i])])
        before = [
            {p: plain(getattr(o, p)) for p in props[i]}
            for i, o in enumerate(objs)]
        for i, obj in enumerate(objs):
            for prop in props[i]:
                # Reading again changes nothing:
                rec.ok(same(plain(getattr(obj, prop)), before[i][prop]),
                       "%s.%s changed when read", specs[i]['kind'], prop)
                hist = getattr(obj, prop + '_history')
                rec.ok(year in hist, "%s history lacks this year", prop)
                rec.ok(same(plain(hist[year]), before[i][prop]),
                       "%s history differs from this year's value", prop)
            for prop, vals in specs[i]['inputs'].items():
                for y, v in vals:
                    if y == year:
                        rec.tag('input year')
                        rec.ok(same(before[i][prop], v),
                               "%s.%s in %d is %r, not the input %r",
                               specs[i]['kind'], prop, year,
                               before[i][prop], v)
                    elif prop in ('returns', 'rate') and y > year:
                        rec.ok(same(
                            getattr(objs[i], prop + '_history')[y], v),
                            "future input of %s", prop)
        for i, obj in enumerate(objs):
            if obj.this_year == year:
                obj.next_year()
        rec.nontrivial(bool(ops['tx']) or bool(ops['reads']))
        for i, obj in enumerate(objs):
            rec.eq(obj.this_year, year + 1, "year after advancing")
            for prop in props[i]:
                past[i, prop, year] = before[i][prop]
                if prop == 'transactions' and i:
                    rec.eq(dict(getattr(obj, prop)), {},
                           "transactions of a new year")
        for (i, prop, y), value in past.items():
            hist = getattr(objs[i], prop + '_history')
            rec.ok(y in hist, "%s of %d was lost", prop, y)
            rec.ok(same(plain(hist[y]), value),
                   "%s.%s recorded for %d changed from %r to %r",
                   specs[i]['kind'], prop, y, value, hist[y])
    for i, obj in enumerate(objs):
        for prop, vals in specs[i]['inputs'].items():
            for y, v in vals:
                rec.ok(same(getattr(obj, prop + '_history').get(y), v),
                       "%s input of %d was replaced", prop, y)


def twins(case, rec):
    """ What happens to one object never shows in its twin. """
    specs = case['objects']
    a_person = build(specs[0], None)
    b_person = build(specs[0], None)
    a_objs = [a_person] + [build(s, a_person) for s in specs[1:]]
    b_objs = [b_person] + [build(s, b_person) for s in specs[1:]]
    props = [acct.history_props(o) for o in a_objs]
    first = [{p: plain(dict(getattr(o, p + '_history'))) for p in props[i]}
             for i, o in enumerate(b_objs)]
    for n, ops in enumerate(case['years']):
        for i, when, amount in ops['tx']:
            obj = a_objs[i % len(a_objs)]
            if obj is not a_person:
                obj.add_transaction(abs(amount), when)
        for i, obj in enumerate(a_objs):
            if obj.this_year == YEAR + n:
                obj.next_year()
        rec.nontrivial(bool(ops['tx']))
    for i, obj in enumerate(b_objs):
        rec.eq(obj.this_year, YEAR, "twin's year")
        for prop in props[i]:
            rec.ok(same(plain(dict(getattr(obj, prop + '_history'))),
                        first[i][prop]),
                   "%s.%s of the twin changed", specs[i]['kind'], prop)


CHECKS = [
    Check('machine', machine_case, machine, 3000, 60000,
          "random operation sequences against a model of recorded values"),
    Check('objects', objects_case, objects, 1200, 24000,
          "people and accounts advanced over years: permanence and inputs"),
    Check('twins', objects_case, twins, 600, 12000,
          "objects of the same kind don't share records"),
]
