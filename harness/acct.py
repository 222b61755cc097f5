""" Building blocks shared by the properties about accounts. """
from hypothesis import strategies as st
from core import money, rate, unit
import models

NPER_CODES = {
    'C': None, 'D': 365, 'W': 52, 'BW': 26, 'SM': 24, 'M': 12, 'BM': 6,
    'Q': 4, 'SA': 2, 'A': 1}

nper_st = st.one_of(
    st.sampled_from(['C', 'A', 'M', 'Q', 1, 2, 12]),
    st.sampled_from(sorted(NPER_CODES)),
    st.integers(1, 400))


def nper_ref(nper):
    return NPER_CODES[nper] if isinstance(nper, str) else nper


def to_pairs(items):
    return [[when, value] for when, value in items]


def tx_list(lo=-5000, hi=5000, max_size=5):
    return st.lists(
        st.tuples(st.one_of(unit(), st.sampled_from(['start', 'end'])),
                  money(lo, hi)).map(list), max_size=max_size)


def when_ref(when):
    return {'start': 0, 'end': 1}.get(when, when)


# Weights at distinct times. Zero weights and unnormalised totals happen.
def weights(min_size=1, max_size=4, zeros=True):
    weight = st.one_of(
        st.just(1), st.integers(0 if zeros else 1, 10),
        st.integers(1, 1000).map(lambda w: w / 100))
    return st.lists(
        st.tuples(unit(), weight).map(list), min_size=min_size,
        max_size=max_size, unique_by=lambda pair: float(pair[0]))


def timing_spec():
    """ JSON descriptions of the ways to describe a timing. """
    return st.one_of(
        st.fixed_dictionaries({'kind': st.just('dict'), 'pairs': weights()}),
        st.fixed_dictionaries({
            'kind': st.just('freq'),
            'when': st.one_of(unit(), st.sampled_from(['start', 'end'])),
            'n': st.one_of(st.integers(1, 13),
                           st.sampled_from(['A', 'SA', 'Q', 'BM', 'M']))}),
        st.fixed_dictionaries({
            'kind': st.just('when'),
            'when': st.one_of(unit(), st.sampled_from(['start', 'end']))}),
        st.fixed_dictionaries({'kind': st.just('none')}))


def timing_arg(spec):
    """ What's passed to the code for a timing spec. """
    from forecaster import Timing
    if spec['kind'] == 'none':
        return None
    if spec['kind'] == 'dict':
        return {t: w for t, w in spec['pairs']}
    if spec['kind'] == 'freq':
        return Timing(spec['when'], spec['n'])
    # (A bare number isn't a documented form of `timing` arguments.)
    return (spec['when'] if isinstance(spec['when'], str)
            else Timing(spec['when']))


def timing_ref(spec, default=((0.5, 1),)):
    """ Normalised {when: weight} the spec describes. """
    if spec['kind'] == 'none':
        pairs = list(default)
    elif spec['kind'] == 'dict':
        pairs = [(t, w) for t, w in spec['pairs']]
        if all(w == 0 for _, w in pairs):
            pairs = [(t, 1) for t, _ in pairs]
    elif spec['kind'] == 'freq':
        n = nper_ref(spec['n'])
        pairs = [((k + when_ref(spec['when'])) / n, 1) for k in range(n)]
    else:
        pairs = [(when_ref(spec['when']), 1)]
    total = sum(w for _, w in pairs)
    return {t: w / total for t, w in pairs}


def person(initial_year, name="A", **kwargs):
    from forecaster import Person
    kwargs.setdefault('birth_date', '1 January 1980')
    kwargs.setdefault('retirement_date', '31 December 2060')
    return Person(initial_year, name, **kwargs)


# How many years before the year of interest an account was opened.
age_st = st.sampled_from([0, 0, 0, 1, 2, 4, 6])


def rates_since(year, age, value):
    """ A rate that leaves the balance as it is until `year`. """
    if not age:
        return value
    return {y: (value if y >= year else 0)
            for y in range(year - age, year + 16)}


def advance(year, *objs):
    """ Brings people and accounts to `year`. """
    for obj in objs:
        while obj.this_year < year:
            obj.next_year()


def history_props(obj):
    """ Names of everything the object records year by year. """
    return sorted(
        name[:-len('_history')] for name in dir(type(obj))
        if name.endswith('_history') and not name.startswith('_')
        and hasattr(type(obj), name[:-len('_history')]))
