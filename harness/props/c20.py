""" C20: settings and values survive JSON round trips without loss. """
import datetime
import json
import os
import re
import shutil
import tempfile
from decimal import Decimal
from fractions import Fraction

from hypothesis import strategies as st
from core import Check, HarnessError

from forecaster.value_reader import ValueReader, ValueReaderAttribute
from forecaster.settings import Settings
from forecaster.canada import SettingsCanada
from forecaster.canada.constants import ConstantsCanada

RULE = (
    "Cases are JSON files (nested mappings and lists of numbers of every "
    "form and size, numeric and other text, booleans, nulls, infinities) in "
    "ordinary, Decimal and float-only high-precision modes, and sequences of "
    "reads, writes, attribute accesses and deletions on interleaved readers "
    "and settings; non-trivial = at least one number and one nested "
    "container (round trips) or a default overridden or deleted (attributes)")
ASSUMPTIONS = [
    "NaN is not supported by the file format and must be rejected",
    "mutable default values are not modified in place",
    "keys which become equal numbers (such as '1' and '1.0') don't occur in "
    "one mapping"]


class Scratch:
    """ A directory which lasts as long as the case. """

    def __enter__(self):
        self.path = tempfile.mkdtemp(prefix='c20-')
        return self

    def __exit__(self, *_):
        shutil.rmtree(self.path, ignore_errors=True)

    def file(self, name, text=None):
        path = os.path.join(self.path, name)
        if text is not None:
            with open(path, 'w', encoding='utf-8') as out:
                out.write(text)
        return path


# ------------------------------------------------------------ value trees

# (JSON reads a pair of surrogates as one character)
PAIR = re.compile('[\ud800-\udbff][\udc00-\udfff]')



def is_numeric(text):
    try:
        float(text)
    except ValueError:
        return False
    return True


@st.composite
def integer_text(draw):
    return str(draw(st.one_of(
        st.integers(-20, 3000), st.integers(-10 ** 30, 10 ** 30),
        st.sampled_from([2 ** 53, 2 ** 53 + 1, 2 ** 63, -2 ** 63 - 1,
                         10 ** 15 + 1, 10 ** 16, 99999999999999999999]))))


@st.composite
def decimal_text(draw):
    """ Numbers with a fraction and/or an exponent, valid in JSON. """
    text = str(draw(st.integers(-10 ** draw(
        st.sampled_from([1, 3, 6, 20])), 10 ** 20)))
    digits = draw(st.text('0123456789', max_size=draw(
        st.sampled_from([1, 2, 5, 30]))))
    if digits:
        text += '.' + digits
    if not digits or draw(st.booleans()):
        text += draw(st.sampled_from(['e', 'E'])) + draw(st.sampled_from(
            ['0', '+2', '-2', '5', '-7', '+20', '-20', '25']))
    return text


numeric_text = st.one_of(
    integer_text(), decimal_text(),
    st.sampled_from([
        '007', '+5', ' 12 ', '5.', '.5', '-0', '-0.0', '1e5', '1E-5',
        '0.1', '3.0', '1e3', '100000000000000000001', '12345678901234567.5',
        '1e22', '1e23', '5e-324', '1.7e308', '2017', '0']))
infinite_text = st.sampled_from(
    ['inf', '-inf', 'Infinity', '-Infinity', 'INF', '+inf'])
plain_text = st.one_of(
    st.sampled_from([
        '', 'start', 'Constant contribution', 'BC', '2017-01-05',
        '1/2', '1,000', '0x10', '12 months', 'RRSP', 'True', 'None', 'null',
        'true', '5%', '$5', '--5', '1e', 'e5', '1.2.3', 'infinite', 'n-age',
        '\u00e9t\u00e9', '\u6f22\u5b57', '"quoted"', 'back\\slash', 'a\nb',
        'Jan 1 2000', '\U0001f600', '\ud800', 'x\udfffy']),
    st.text(st.characters(exclude_categories=['Cs']), max_size=8),
    # (Unpaired surrogates can only be written with escapes)
    st.text(st.characters(exclude_categories=[]), max_size=4).filter(
        lambda t: not PAIR.search(t))).filter(
        lambda t: not is_numeric(t))

number_node = st.one_of(
    integer_text(), decimal_text()).map(lambda t: ['num', t])
leaf = st.one_of(
    number_node, number_node,
    numeric_text.map(lambda t: ['text', t]),
    infinite_text.map(lambda t: ['text', t]),
    plain_text.map(lambda t: ['text', t]),
    st.sampled_from([['num', 'Infinity'], ['num', '-Infinity'],
                     ['const', True], ['const', False], ['const', None]]))
key_text = st.one_of(
    plain_text, st.text('abcdefgh_', min_size=1, max_size=5),
    numeric_text, infinite_text)


def unique(pairs):
    """ Drops entries whose keys can't be told apart after conversion. """
    seen, result = set(), []
    for key, node in pairs:
        mark = float(key) if is_numeric(key) else key
        if mark not in seen:
            seen.add(mark)
            result.append([key, node])
    return result


def mapping(children, **kwargs):
    return st.lists(st.tuples(key_text, children), **kwargs).map(
        lambda pairs: ['dict', unique(pairs)])


tree = mapping(st.recursive(leaf, lambda children: st.one_of(
    st.lists(children, max_size=4).map(lambda v: ['list', v]),
    mapping(children, max_size=4)), max_leaves=12), max_size=6)


def count(node, kinds):
    """ Number of nodes of these kinds. """
    own = node[0] in kinds
    if node[0] == 'list':
        return own + sum(count(child, kinds) for child in node[1])
    if node[0] == 'dict':
        return own + sum(count(child, kinds) for _, child in node[1])
    return own


def to_json(node):
    """ JSON text for a tree. """
    kind, val = node
    if kind == 'num':
        return val
    if kind == 'list':
        return '[' + ', '.join(to_json(child) for child in val) + ']'
    if kind == 'dict':
        return '{' + ', '.join(
            json.dumps(key) + ': ' + to_json(child)
            for key, child in val) + '}'
    return quoted(val)


def quoted(val):
    """ JSON text for a leaf (escaped only if it has to be). """
    text = json.dumps(val, ensure_ascii=False)
    try:
        text.encode('utf-8')
    except UnicodeEncodeError:
        return json.dumps(val)
    return text


MODES = {
    'float': None, 'decimal': Decimal,
    # (accepts only floats, as documented)
    'fraction': Fraction.from_float}


def is_integer_literal(text):
    try:
        int(text)
    except ValueError:
        return False
    return True


def number(text, mode):
    """ The number which a literal denotes in a mode.

    Returns its value and the types which may represent it.
    """
    if is_integer_literal(text):
        return int(text), (int,)
    if mode == 'decimal':
        val = Decimal(text)
        exact = val.is_finite() and val == val.to_integral_value()
        return val, (int, Decimal) if exact else (Decimal,)
    val = float(text)
    exact = val.is_integer()
    if mode == 'fraction':
        val = Fraction.from_float(val)
        return val, (int, Fraction) if exact else (Fraction,)
    return val, (int, float) if exact else (float,)


def same_number(rec, actual, text, mode, what, as_text):
    expected, types = number(text, mode)
    rec.ok(type(actual) in types, "%s: %r (written as %s) has type %s in "
           "%s mode", what, actual, text, type(actual).__name__, mode)
    rec.ok(actual == expected, "%s: %s was read as %r in %s mode",
           what, text, actual, mode)
    if as_text and int in types:
        # Numeric text denoting a whole number becomes an int:
        rec.ok(type(actual) is int, "%s: text %r was read as %r", what,
               text, actual)


def same(rec, actual, node, mode, convert, what='values'):
    """ Compares what was read with what was in the file. """
    kind, val = node
    if kind == 'num':
        same_number(rec, actual, val, mode, what, False)
    elif kind == 'text':
        if convert and is_numeric(val):
            same_number(rec, actual, val, mode, what, True)
        else:
            rec.ok(type(actual) is str and actual == val,
                   "%s: text %r was read as %r", what, val, actual)
    elif kind == 'const':
        rec.ok(actual is val, "%s: %r was read as %r", what, val, actual)
    elif kind == 'list':
        rec.ok(type(actual) is list and len(actual) == len(val),
               "%s: %r was read as %r", what, to_json(node), actual)
        for i, (item, child) in enumerate(zip(actual, val)):
            same(rec, item, child, mode, convert, '%s[%d]' % (what, i))
    else:
        rec.ok(type(actual) is dict and len(actual) == len(val),
               "%s: %s was read as %r", what, to_json(node), actual)
        # Match entries by position where order is kept, otherwise by key:
        for key, child in val:
            found = [k for k in actual if same_key(k, key, mode, convert)]
            rec.ok(len(found) == 1, "%s: key %r is missing from %r",
                   what, key, actual)
            if convert and is_numeric(key):
                same_number(rec, found[0], key, mode, what + ' key', True)
            same(rec, actual[found[0]], child, mode, convert,
                 '%s[%r]' % (what, key))


def same_key(key, text, mode, convert):
    if convert and is_numeric(text):
        return not isinstance(key, str) and key == number(text, mode)[0]
    return isinstance(key, str) and key == text


def identical(a, b):
    """ Equality which tells types apart. """
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return len(a) == len(b) and all(
            type(x) is type(y) and x == y and identical(a[x], b[y])
            for x, y in zip(a, b))
    if isinstance(a, list):
        return len(a) == len(b) and all(map(identical, a, b))
    return a == b


def has_infinity(node):
    if node[0] in ('num', 'text'):
        return is_numeric(node[1]) and abs(float(node[1])) == float('inf')
    if node[0] == 'list':
        return any(map(has_infinity, node[1]))
    if node[0] == 'dict':
        return any(
            has_infinity(['text', key]) or has_infinity(child)
            for key, child in node[1])
    return False


@st.composite
def reading_case(draw):
    return {'tree': draw(tree), 'mode': draw(st.sampled_from(sorted(MODES))),
            'convert': draw(st.sampled_from([True, True, True, False])),
            'before': draw(st.one_of(st.none(), tree)),
            'at_init': draw(st.booleans()), 'indent': draw(st.booleans())}


def reading(case, rec):
    node, mode, convert = case['tree'], case['mode'], case['convert']
    if mode == 'fraction' and (
            has_infinity(node) or
            (case['before'] and has_infinity(case['before']))):
        mode = 'decimal'
    rec.nontrivial(
        count(node, ('num', 'text')) and count(node, ('list', 'dict')) > 1)
    rec.tag(mode)
    with Scratch() as scratch:
        path = scratch.file('a.json', to_json(node))
        if case['at_init']:
            reader = ValueReader(
                path, high_precision=MODES[mode], numeric_convert=convert)
        else:
            reader = ValueReader(high_precision=MODES[mode])
            rec.eq(reader.values, {}, 'values of a new reader')
            if case['before']:
                reader.read(scratch.file('0.json', to_json(case['before'])))
            reader.read(path, numeric_convert=convert)
        same(rec, reader.values, node, mode, convert)
        # The file is left alone:
        with open(path, encoding='utf-8') as file:
            rec.eq(file.read(), to_json(node), 'file which was read')


@st.composite
def roundtrip_case(draw):
    return {'tree': draw(tree), 'other': draw(tree),
            'mode': draw(st.sampled_from(['float', 'decimal'])),
            'how': draw(st.sampled_from(['own', 'dict', 'reader', 'own'])),
            'kinds': draw(st.lists(
                st.sampled_from(['text', 'value']), min_size=1, max_size=7)),
            'before': draw(st.one_of(st.none(), st.integers(0, 20000))),
            'times': draw(st.integers(1, 3))}


def in_memory(node, mode, kinds, counter=None):
    """ A value equivalent to a tree: numbers as numbers (or as text). """
    counter = counter if counter is not None else [0]
    kind, val = node
    if kind == 'list':
        return [in_memory(child, mode, kinds, counter) for child in val]
    if kind == 'dict':
        result = {}
        for key, child in val:
            result[text_value(key, mode, kinds, counter)] = in_memory(
                child, mode, kinds, counter)
        return result
    if kind == 'text':
        return text_value(val, mode, kinds, counter)
    if kind == 'num':
        return number(val, mode)[0]
    return val


def text_value(text, mode, kinds, counter):
    counter[0] += 1
    if not is_numeric(text) or kinds[counter[0] % len(kinds)] == 'text':
        return text
    return number(text, mode)[0]


def roundtrip(case, rec):
    node, mode = case['tree'], case['mode']
    rec.nontrivial(
        count(node, ('num', 'text')) and count(node, ('list', 'dict')) > 1)
    rec.tag(mode)
    rec.tag(case['how'])
    values = in_memory(node, mode, case['kinds'])
    twin = in_memory(node, mode, case['kinds'])
    other = in_memory(case['other'], mode, case['kinds'])
    other_twin = in_memory(case['other'], mode, case['kinds'])
    with Scratch() as scratch:
        path = scratch.file('a.json', None if case['before'] is None
                            else ' ' * case['before'] + '{"old": 1}')
        reader = ValueReader(high_precision=MODES[mode])
        if case['how'] == 'own':
            reader.values = values
            reader.write(path)
            rec.ok(identical(reader.values, twin),
                   'writing changed %r to %r', twin, reader.values)
        elif case['how'] == 'dict':
            reader.values = other
            reader.write(path, values)
            rec.ok(identical(reader.values, other_twin),
                   'writing other values changed the own ones %r to %r',
                   other_twin, reader.values)
        else:
            reader.values = other
            source = ValueReader(high_precision=MODES[mode])
            source.values = values
            reader.write(path, source)
            rec.ok(identical(reader.values, other_twin),
                   'writing other values changed the own ones %r to %r',
                   other_twin, reader.values)
            rec.ok(identical(source.values, twin),
                   'writing changed %r to %r', twin, source.values)
        rec.ok(identical(values, twin), 'writing changed %r to %r',
               twin, values)
        # Valid JSON, in any reader's eyes:
        with open(path, encoding='utf-8') as file:
            json.load(file)
        for _ in range(case['times']):
            result = ValueReader(path, high_precision=MODES[mode])
            compare(rec, result.values, twin, mode)
            result.write(path)
        # A different file isn't affected by another one:
        second = scratch.file('b.json')
        ValueReader(high_precision=MODES[mode]).write(
            second, in_memory(case['other'], mode, case['kinds']))
        compare(rec, ValueReader(
            path, high_precision=MODES[mode]).values, twin, mode)
        compare(rec, ValueReader(
            second, high_precision=MODES[mode]).values, other_twin, mode)


def compare(rec, actual, expected, mode, what='values'):
    """ Equality up to numeric text having become numbers. """
    if isinstance(expected, str) and is_numeric(expected):
        same_number(rec, actual, expected, mode, what, True)
    elif isinstance(expected, dict):
        rec.ok(type(actual) is dict and len(actual) == len(expected),
               "%s: %r was read back as %r", what, expected, actual)
        for key, val in expected.items():
            restored = number(key, mode)[0] if (
                isinstance(key, str) and is_numeric(key)) else key
            rec.ok(restored in actual and (
                isinstance(restored, str) or not isinstance(
                    [k for k in actual if k == restored][0], str)),
                "%s: key %r is missing from %r", what, key, actual)
            compare(rec, actual[restored], val, mode,
                    '%s[%r]' % (what, key))
    elif isinstance(expected, list):
        rec.ok(type(actual) is list and len(actual) == len(expected),
               "%s: %r was read back as %r", what, expected, actual)
        for i, (item, val) in enumerate(zip(actual, expected)):
            compare(rec, item, val, mode, '%s[%d]' % (what, i))
    else:
        rec.ok(actual == expected and isinstance(actual, str) == isinstance(
            expected, str) and isinstance(actual, bool) == isinstance(
                expected, bool), "%s: %r was read back as %r", what,
               expected, actual)


@st.composite
def bad_case(draw):
    return {'tree': draw(tree), 'mode': draw(st.sampled_from(
        ['float', 'decimal'])), 'what': draw(st.sampled_from(
            ['list', 'scalar', 'nan', 'missing', 'syntax'])),
            'leaf': draw(leaf), 'class': draw(st.sampled_from(
                ['ValueReader', 'Settings', 'SettingsCanada']))}


CLASSES = {'ValueReader': ValueReader, 'Settings': Settings,
           'SettingsCanada': SettingsCanada}


def rejected(case, rec):
    """ Files which don't describe a mapping of values are refused. """
    cls, mode = CLASSES[case['class']], MODES[case['mode']]
    rec.nontrivial(len(case['tree'][1]) > 0)
    rec.tag(case['what'])
    with Scratch() as scratch:
        if case['what'] == 'list':
            error, text = TypeError, '[' + to_json(case['tree']) + ']'
        elif case['what'] == 'scalar':
            error, text = TypeError, to_json(case['leaf'])
        elif case['what'] == 'nan':
            error, text = ValueError, '{"a": %s, "b": [NaN]}' % to_json(
                case['tree'])
        elif case['what'] == 'syntax':
            error, text = ValueError, to_json(case['tree'])[:-1]
        else:
            error, text = FileNotFoundError, None
        path = scratch.file('a.json', text)
        rec.raises(error, lambda: cls(path, high_precision=mode),
                   'reading %r' % text)


# -------------------------------------------------------------- attributes

class Example(ValueReader):
    number = ValueReaderAttribute(5)
    zero = ValueReaderAttribute(0)
    no = ValueReaderAttribute(False)
    blank = ValueReaderAttribute('')
    text = ValueReaderAttribute('text')
    nested = ValueReaderAttribute({2017: {0: 0.5}})
    bare = ValueReaderAttribute()


class Derived(Example):
    number = ValueReaderAttribute(6)
    extra = ValueReaderAttribute(7)


EXAMPLE = {'number': 5, 'zero': 0, 'no': False, 'blank': '', 'text': 'text',
           'nested': {2017: {0: 0.5}}}
# As documented (other than those which depend on today's date):
SETTINGS = {
    'currency': 'CAD', 'inflation': 0.02, 'stock_return': 0.07,
    'bond_return': 0.04, 'other_return': 0.03, 'management_fees': 0.005,
    'num_years': 100, 'living_expenses_strategy': 'Constant living expenses',
    'living_expenses_base_amount': 60000, 'living_expenses_rate': 0.2,
    'living_expenses_inflation_adjust': True, 'saving_strategy': 'Ordered',
    'saving_weights': {'Account': 1}, 'allocation_strategy': 'n-age',
    'allocation_min_equity': 0.3, 'allocation_max_equity': 0.3,
    'allocation_std_retirement_age': 65, 'allocation_target': 65,
    'allocation_risk_trans_period': 20, 'allocation_adjust_retirement': True,
    'debt_payment_strategy': 'Avalanche', 'tax_payment_timing': 'start'}
CANADA = dict(SETTINGS, **{
    'saving_weights': {'RRSP': 2, 'TFSA': 1, 'TaxableAccount': 3},
    'withdrawal_weights': {'RRSP': 1, 'TFSA': 2, 'SavingsAccount': 3},
    'tax_province': 'BC', 'resp_child_other_income': 0, 'resp_start_age': 18,
    'resp_withdrawal_years': 4, 'cpp_person1_init_tape': 0,
    'cpp_person1_init_drop_periods': 0, 'cpp_person1_init_drop_tape': 0,
    'cpp_person2_init_tape': 0, 'cpp_person2_init_drop_periods': 0,
    'cpp_person2_init_drop_tape': 0})
KINDS = {
    'Example': (Example, EXAMPLE, ['bare', 'other']),
    'Derived': (Derived, dict(EXAMPLE, number=6, extra=7), ['bare', 'other']),
    'Settings': (Settings, SETTINGS, []),
    'SettingsCanada': (SettingsCanada, CANADA, [])}

value_st = st.one_of(
    st.sampled_from([0, None, False, True, '', 'x', 0.0, -1, 0.25, 2017]),
    st.integers(-10 ** 20, 10 ** 20), plain_text,
    st.lists(st.integers(0, 5), max_size=2),
    st.dictionaries(st.sampled_from(['a', 'b']), st.integers(0, 3),
                    max_size=2))


@st.composite
def attributes_case(draw):
    kind = draw(st.sampled_from(sorted(KINDS)))
    names = sorted(KINDS[kind][1]) + KINDS[kind][2]
    # A few names, so that operations meet:
    some = draw(st.lists(st.sampled_from(names), min_size=1, max_size=4))
    name = st.sampled_from(some)
    which = st.integers(0, 1)
    contents = st.dictionaries(st.one_of(
        name, name, st.sampled_from(['unrelated', 'Account'])), value_st,
        max_size=4)
    operation = st.one_of(
        st.tuples(st.just('set'), which, name, value_st),
        st.tuples(st.just('set'), which, name, value_st),
        st.tuples(st.just('delete'), which, name),
        st.tuples(st.just('store'), which, name, value_st),
        st.tuples(st.just('drop'), which, name),
        st.tuples(st.just('read'), which, contents),
        st.tuples(st.just('write'), which),
        st.tuples(st.just('copy'), which),
        st.tuples(st.just('defaults'), which, st.booleans()))
    return {'kind': kind, 'contents': draw(st.lists(
        contents, min_size=2, max_size=2)),
        'defaults': [draw(st.sampled_from([True, True, False]))
                     for _ in range(2)],
        'operations': draw(st.lists(operation, max_size=10))}


MISSING = object()


def attribute(reader, name):
    """ The value of an attribute; MISSING if it has none. """
    try:
        return getattr(reader, name)
    except (KeyError, AttributeError):
        return MISSING


def attributes(case, rec):
    cls, defaults, others = KINDS[case['kind']]
    names = sorted(defaults) + [n for n in others if n != 'other']
    rec.tag(case['kind'])
    with Scratch() as scratch:
        readers, models = [], []
        for i, contents in enumerate(case['contents']):
            path = scratch.file('%d.json' % i, json.dumps(contents))
            readers.append(cls(path, use_defaults=case['defaults'][i]))
            models.append(dict(contents))
        use_defaults = list(case['defaults'])

        def verify(step):
            for i, (reader, model) in enumerate(zip(readers, models)):
                what = '%s: reader %d' % (step, i)
                rec.ok(identical_unordered(reader.values, model),
                       "%s has values %r, expected %r", what, reader.values,
                       model)
                for name in names:
                    expected = model.get(name, MISSING)
                    if expected is MISSING and use_defaults[i]:
                        expected = defaults.get(name, MISSING)
                    actual = attribute(reader, name)
                    rec.ok(type(actual) is type(expected) and
                           actual == expected,
                           "%s: %s is %r, expected %r", what, name, actual,
                           expected)
        verify('initially')
        for step, (action, i, *args) in enumerate(case['operations']):
            reader, model = readers[i], models[i]
            what = 'step %d (%s %r on reader %d)' % (step, action, args, i)
            if action in ('set', 'delete') and args[0] not in names:
                continue
            if action == 'set':
                setattr(reader, args[0], args[1])
                model[args[0]] = args[1]
                rec.nontrivial()
            elif action == 'delete':
                if args[0] in model:
                    delattr(reader, args[0])
                    del model[args[0]]
                    rec.nontrivial()
                else:
                    rec.raises((KeyError, AttributeError), lambda: delattr(
                        reader, args[0]), what)
            elif action == 'store':
                reader.values[args[0]] = args[1]
                model[args[0]] = args[1]
            elif action == 'drop':
                reader.values.pop(args[0], None)
                model.pop(args[0], None)
            elif action == 'read':
                reader.read(scratch.file('x.json', json.dumps(args[0])))
                models[i] = dict(args[0])
            elif action == 'write':
                path = scratch.file('y.json')
                reader.write(path)
                readers[i] = cls(path, use_defaults=use_defaults[i])
            elif action == 'copy':
                # What one writes, the other reads:
                path = scratch.file('z.json')
                reader.write(path)
                readers[1 - i].read(path)
                models[1 - i] = dict(model)
                models[i] = dict(model)
                for target in readers:
                    rec.ok(target.values is not reader.values or
                           target is reader, "%s shares values", what)
            elif action == 'defaults':
                reader.use_defaults = args[0]
                use_defaults[i] = args[0]
            else:
                raise HarnessError(action)
            verify(what)


def identical_unordered(a, b):
    return isinstance(a, dict) and set(a) == set(b) and all(
        type(a[k]) is type(b[k]) and a[k] == b[k] for k in b)


@st.composite
def files_case(draw):
    return {'class': draw(st.sampled_from(
        ['Settings', 'SettingsCanada', 'ConstantsCanada'])),
        'mode': draw(st.sampled_from(['float', 'decimal'])),
        'convert': draw(st.sampled_from([True, True, False])),
        'other_class': draw(st.sampled_from(
            ['Settings', 'SettingsCanada', 'ConstantsCanada'])),
        'override': draw(st.dictionaries(
            st.integers(0, 60).map(str), value_st, max_size=4)),
        'defaults': draw(st.booleans())}


FILES = {'Settings': (Settings, 'settings.json'),
         'SettingsCanada': (SettingsCanada, 'canada.settings.json'),
         'ConstantsCanada': (ConstantsCanada, 'canada.constants.json')}


class Literal(str):
    """ A JSON number, as written. """


def as_tree(text):
    """ Tree for JSON text, keeping literals as they were written. """
    def build(val):
        if isinstance(val, Literal):
            return ['num', str(val)]
        if isinstance(val, str):
            return ['text', val]
        if isinstance(val, list):
            return ['list', [build(item) for item in val]]
        if isinstance(val, Pairs):
            return ['dict', [[k, build(v)] for k, v in val.pairs]]
        return ['const', val]

    class Pairs:
        def __init__(self, pairs):
            self.pairs = pairs

    return build(json.loads(
        text, parse_int=Literal, parse_float=Literal,
        object_pairs_hook=Pairs))


def files(case, rec):
    """ The files which come with the package are read faithfully. """
    import forecaster
    cls, name = FILES[case['class']]
    other_cls, _ = FILES[case['other_class']]
    mode = case['mode']
    with open(os.path.join(os.path.dirname(forecaster.__file__), 'data',
                           name), encoding='utf-8') as file:
        node = as_tree(file.read())
    settings = cls(high_precision=MODES[mode], numeric_convert=case[
        'convert'], use_defaults=case['defaults'])
    same(rec, settings.values, node, mode, case['convert'])
    for key, _ in node[1]:
        rec.ok(getattr(settings, key) is settings.values[key],
               "%s is %r but the file says %r", key, getattr(settings, key),
               settings.values[key])
    # Overriding some affects neither the others nor other instances:
    other, fresh = other_cls(), cls(high_precision=MODES[mode],
                                    numeric_convert=case['convert'])
    before = {key: getattr(fresh, key) for key, _ in node[1]}
    other_before = dict(other.values)
    keys = sorted(before)
    changed = {keys[int(k) % len(keys)]: v
               for k, v in case['override'].items()}
    rec.nontrivial(len(changed) > 0)
    for key, val in changed.items():
        setattr(settings, key, val)
    for key, _ in node[1]:
        rec.ok(getattr(settings, key) is changed.get(key, settings.values[
            key]), "%s is %r", key, getattr(settings, key))
        if key not in changed:
            rec.eq(getattr(settings, key), before[key], key)
        rec.eq(getattr(fresh, key), before[key], key + ' of another instance')
    rec.eq(other.values, other_before, 'values of another class')
    # A file which supplies only some settings leaves defaults for others:
    with Scratch() as scratch:
        partial = cls(scratch.file('p.json', json.dumps(changed)),
                      numeric_convert=False)
        empty = cls(scratch.file('e.json', '{}'))
        strict = cls(scratch.file('e.json'), use_defaults=False)
        for key, _ in node[1]:
            if key in changed:
                rec.eq(getattr(partial, key), changed[key], key)
            else:
                rec.eq(getattr(partial, key), getattr(empty, key), key)
            rec.raises((KeyError, AttributeError),
                       lambda: getattr(strict, key), key)
        documented = {'Settings': SETTINGS, 'SettingsCanada': CANADA}.get(
            case['class'], {})
        for key, val in documented.items():
            rec.eq(getattr(empty, key), val, 'default ' + key)
        if documented:
            this_year = datetime.date.today().year
            for key in ('initial_year', 'display_year'):
                rec.ok(abs(getattr(empty, key) - this_year) <= 1,
                       'default %s is %r', key, getattr(empty, key))


# --------------------------------------------------- customized encodings

# Ways to write high-precision numbers (all of which lose nothing)
SERIALIZERS = {
    'default': None,
    'engineering': lambda val: val.to_eng_string(),
    'plain': lambda val: format(val, 'f'),
    'scientific': lambda val: format(val, 'E')}


class DateEncoder(json.JSONEncoder):
    """ Writes dates, fractions and Decimals. """

    def default(self, o):
        if isinstance(o, datetime.date):
            return {'__date__': o.isoformat()}
        if isinstance(o, Fraction):
            return {'__over__': [o.numerator, o.denominator]}
        if isinstance(o, Decimal):
            return {'__exact__': 'x' + str(o)}
        return super().default(o)


class DateDecoder(json.JSONDecoder):
    """ Reads what DateEncoder writes. """

    def __init__(self, *args, **kwargs):
        super().__init__(*args, object_hook=self.restore, **kwargs)

    @staticmethod
    def restore(val):
        if set(val) == {'__date__'}:
            return datetime.date.fromisoformat(val['__date__'])
        if set(val) == {'__over__'}:
            return Fraction(*val['__over__'])
        if set(val) == {'__exact__'}:
            return Decimal(val['__exact__'][1:])
        return val


@st.composite
def custom_case(draw):
    leaf = st.one_of(
        st.tuples(st.just('int'), st.integers(-10 ** 20, 10 ** 20)),
        st.tuples(st.just('high'), decimal_text()),
        st.tuples(st.just('high'), decimal_text()),
        st.tuples(st.just('date'), st.integers(1, 3000000)),
        st.tuples(st.just('over'), st.tuples(
            st.integers(-99, 99), st.integers(1, 99)).map(list)),
        st.tuples(st.just('word'), st.sampled_from(
            ['', 'a', 'no number', 'e5', '__date__'])),
        st.tuples(st.just('const'), st.sampled_from([None, True, False])))
    children = st.lists(leaf.map(list), max_size=4)
    nodes = st.one_of(leaf, st.tuples(st.just('list'), children), st.tuples(
        st.just('dict'), st.lists(st.tuples(
            st.sampled_from(['k', 'l', 'm', 'n']), leaf.map(list)).map(list),
            max_size=4, unique_by=lambda pair: pair[0]))).map(list)
    return {
        'class': draw(st.sampled_from(
            ['ValueReader', 'Settings', 'SettingsCanada'])),
        'items': draw(st.lists(st.tuples(
            st.sampled_from(['one', 'two', 'three', 'four', 'num_years']),
            nodes).map(list), min_size=1, max_size=4,
            unique_by=lambda pair: pair[0])),
        'keys': draw(st.lists(st.integers(1, 999), max_size=2, unique=True)),
        'serializer': draw(st.sampled_from(sorted(SERIALIZERS))),
        'classes': draw(st.booleans()), 'convert': draw(st.booleans())}


def custom(case, rec):
    """ Clients' own encodings are the ones used. """
    cls = {'ValueReader': ValueReader, 'Settings': Settings,
           'SettingsCanada': SettingsCanada}[case['class']]
    serialize = SERIALIZERS[case['serializer']]

    def build(node):
        kind, val = node
        if kind == 'high':
            return Decimal(val)
        if kind == 'date':
            return datetime.date.fromordinal(val)
        if kind == 'over':
            return Fraction(*val)
        if kind == 'list':
            return [build(child) for child in val]
        if kind == 'dict':
            return {key: build(child) for key, child in val}
        return val

    def usable(node):
        kind, val = node
        if kind in ('list', 'dict'):
            return all(usable(child if kind == 'list' else child[1])
                       for child in val)
        return case['classes'] or kind not in ('date', 'over')

    items = [[key, node] for key, node in case['items'] if usable(node)]
    values = {key: build(node) for key, node in items}
    if case['keys']:
        values['keyed'] = {
            Decimal(key) / 1000: key for key in case['keys']}
    kwargs = {'high_precision': Decimal}
    if serialize is not None:
        kwargs['high_precision_serialize'] = serialize
    if case['classes']:
        kwargs.update(encoder_cls=DateEncoder, decoder_cls=DateDecoder)
    text = serialize or str

    def written(val):
        """ What's to be in the file. """
        if isinstance(val, dict):
            return {written(key) if isinstance(key, Decimal) else key:
                    written(child) for key, child in val.items()}
        if isinstance(val, list):
            return [written(child) for child in val]
        if isinstance(val, Decimal):
            return text(val)
        return val

    with Scratch() as scratch:
        path = scratch.file('a.json', '{}')
        writer = cls(path, **kwargs)
        writer.values = values
        before = written(values) if not case['classes'] else None
        writer.write(path)
        if case['classes']:
            with open(path, encoding='utf-8') as file:
                raw = json.load(file, cls=DateDecoder)
            want = {key: val for key, val in values.items()
                    if key != 'keyed'}
            rec.eq({key: val for key, val in raw.items() if key != 'keyed'},
                   want, "what a custom encoder wrote")
        else:
            with open(path, encoding='utf-8') as file:
                raw = json.load(file)
            rec.eq(raw, before, "what was written")
        # (Text which isn't converted must be read with a decoder.)
        convert = case['convert'] or not case['classes']
        result = cls(path, numeric_convert=convert, **kwargs)
        if convert:
            rec.eq(result.values, values, "what was read back")
        else:
            rec.eq({key: val for key, val in result.values.items()
                    if key != 'keyed'}, want, "what was read back")
            rec.eq(sorted(result.values.get('keyed', {})), sorted(
                text(key) for key in values.get('keyed', {})),
                   "keys which were read back")
        if 'num_years' in values and cls is not ValueReader:
            rec.eq(result.num_years, values['num_years'], "a setting")
        result.write(path)
        again = cls(path, numeric_convert=convert, **kwargs)
        rec.eq(again.values, result.values, "what was read back again")
    kinds = {node[0] for _, node in items}
    rec.tag('custom classes', case['classes'])
    rec.tag('custom serializer', serialize is not None)
    rec.nontrivial(
        'high' in kinds or 'keyed' in values or case['classes']
        and bool(kinds & {'date', 'over', 'list', 'dict'}))


CHECKS = [
    Check('reading', reading_case, reading, 1500, 60000,
          "every number, text and container in a file is read as written"),
    Check('roundtrip', roundtrip_case, roundtrip, 1500, 60000,
          "writing then reading restores values, which writing leaves alone"),
    Check('rejected', bad_case, rejected, 300, 5000,
          "files which aren't mappings of supported values are refused"),
    Check('attributes', attributes_case, attributes, 1200, 40000,
          "attributes, stored values and defaults agree in any sequence of "
          "operations on independent readers"),
    Check('custom', custom_case, custom, 600, 20000,
          "clients' own encoders, decoders and serializers are used"),
    Check('files', files_case, files, 250, 4000,
          "packaged settings and constants are read faithfully and can be "
          "overridden individually"),
]
