"""C25: conversion of scalars."""
import base64
import collections.abc
import datetime
import logging
import math
import numbers
import typing
import warnings

import marsh
import typing_extensions
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Sub
from vlib.types import MISSING, Unspecified, is_map, is_missing, is_primitive, is_seq, to_bytes, to_scalar

PROPERTY = 'C25'
RULE = (
    'A case is a scalar type (also a subclass of one, or a runtime protocol) with an element: a '
    'spelling of a value in the documented syntax (every alphabet, padding, sign, spacing, offset), '
    'a near miss of it made by editing one place, or an arbitrary element. Non-trivial: the '
    'element is not already an instance of the type, and fits the syntax or misses it by one edit.'
)


class Int(int):
    pass


class Float(float):
    pass


class Str(str):
    pass


class Bytes(bytes):
    pass


class Complex(complex):
    pass


class Datetime(datetime.datetime):
    pass


class Time(datetime.time):
    pass


PRIMITIVES = {
    'int': int, 'float': float, 'bool': bool, 'str': str, 'Int': Int, 'Float': Float, 'Str': Str,
    'LiteralString': getattr(typing, 'LiteralString', typing_extensions.LiteralString),
}
NOTHING = object()


def convert(type_, element, ctx):
    """The result, or NOTHING; any error which is not an unmarshal error is a failure."""
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            value = marsh.unmarshal(type_, element)
    except marsh.errors.MissingValueError:
        ctx.check(is_missing(element) or not is_primitive(element), f'{element!r} as {type_!r} is reported as missing')
        return NOTHING
    except marsh.errors.UnmarshalError:
        ctx.label('rejected')
        return NOTHING
    ctx.label('accepted')
    return value


def alike(a, b):
    return type(a) is type(b) and repr(a) == repr(b)


# ------------------------------------------------------------------ primitives

NUMBER = st.one_of(
    gen.ints.map(str),
    gen.finite_floats.map(repr),
    st.builds(
        '{}{}{}{}'.format,
        st.sampled_from(['', '', '-', '+', ' ', '--']),
        st.sampled_from(['', '0', '1', '00', '12', '1_0', '_1', '1__0', '٣', '9007199254740993', '1' * 25]),
        st.sampled_from(['', '.', '.0', '.5', '.00', '.0_0', ',0']),
        st.sampled_from(['', 'e3', 'E-2', 'e+1', ' ', '\n', 'e', 'j', 'e400', 'f']),
    ),
    st.sampled_from(['nan', 'inf', '-inf', 'Infinity', 'NaN', '0x10', '0b1', '1 0', '½', '²', '\t7\u2003', '0e0', '-0', '-0.0']),
)
WORDS = ['1', 'true', 'y', 'yes', 'on', '0', 'false', 'n', 'no', 'off']


@st.composite
def word(draw):
    text = draw(st.sampled_from(WORDS + ['null', 'none', 't', 'f', 'ok', 'oof', 'offf', 'ye', '']))
    text = ''.join(c.upper() if draw(st.booleans()) else c for c in text)
    edit = draw(st.integers(0, 5))
    if edit == 5:
        text = draw(st.sampled_from([' ' + text, text + ' ', text + '\n', text + 's', text[:-1], text.replace('f', 'ﬀ')]))
    return text


SCALAR = gen.pick(NUMBER, word(), gen.scalars(), st.floats(), gen.any_text(), st.just(MISSING))
ELEMENT = gen.pick(
    SCALAR, SCALAR, SCALAR, SCALAR, SCALAR,
    gen.pick(st.lists(SCALAR, max_size=2), st.lists(SCALAR, max_size=2).map(tuple), st.dictionaries(gen.simple_key(), SCALAR, max_size=2)),
)


def primitive(case, ctx):
    name, element = case
    type_ = PRIMITIVES[name]
    base = {'LiteralString': 'str'}.get(name, name.lower())
    ctx.label(base)
    try:
        want = NOTHING if is_missing(element) else to_scalar(base, element)
    except ValueError:
        want = NOTHING
    got = convert(type_, element, ctx)
    ctx.nontrivial(is_primitive(element) and type(element).__name__ != base)
    if want is NOTHING:
        ctx.check(got is NOTHING, f'{element!r} as {name} gives {got!r}')
        return
    if name in ('Int', 'Float', 'Str'):
        want = type_(want)
    ctx.check(got is not NOTHING, f'{element!r} as {name} is rejected, expected {want!r}')
    ctx.check(alike(got, want), f'{element!r} as {name} gives {got!r}, expected {want!r}')
    again = marsh.unmarshal(type_, marsh.marshal(got))
    ctx.check(alike(again, got), f'{got!r} as {name} marshaled and unmarshaled is {again!r}')


def call(fn, *args):
    try:
        return fn(*args)
    except ValueError:
        return ValueError


def helpers(case, ctx):
    """The casts behind the schemas, which are public functions as well."""
    element, literals = case
    ctx.nontrivial(isinstance(element, str))
    for name in ('int', 'float', 'bool', 'str'):
        want = call(to_scalar, name, element)
        got = call(marsh.utils.cast_primitive, PRIMITIVES[name], element)
        ctx.check(alike(got, want), f'cast_primitive({name}, {element!r}) gives {got!r}, expected {want!r}')
    if is_primitive(element):
        text = str(element)
        for fn, name, arg in (
            (marsh.utils.str_to_int, 'int', text), (marsh.utils.str_to_bool, 'bool', text),
            (marsh.utils.primitive_to_bool, 'bool', element),
        ):
            want, got = call(to_scalar, name, arg), call(fn, arg)
            ctx.check(alike(got, want), f'{fn.__name__}({arg!r}) gives {got!r}, expected {want!r}')
        if isinstance(element, float):
            want, got = call(to_scalar, 'int', element), call(marsh.utils.float_to_int, element)
            ctx.check(alike(got, want), f'float_to_int({element!r}) gives {got!r}, expected {want!r}')
    matched = NOTHING
    for literal in literals:
        try:
            if to_scalar(type(literal).__name__, element) == literal:
                matched = literal
        except ValueError:
            pass
        want = literal if matched is literal and matched is not NOTHING else ValueError
        got = call(marsh.utils.cast_literal, literal, element)
        if matched is not NOTHING:
            ctx.label('literal')
            break
        ctx.check(alike(got, want), f'cast_literal({literal!r}, {element!r}) gives {got!r}')
    want = ValueError if matched is NOTHING else matched
    got = call(marsh.utils.match_literal, literals, element)
    ctx.check(alike(got, want), f'match_literal({literals!r}, {element!r}) gives {got!r}, expected {want!r}')
    none = element is None or is_missing(element) or (
        is_primitive(element) and str(element).lower() in ('null', 'none')
    )
    got = call(marsh.utils.cast_none, element)
    ctx.check(got is (None if none else ValueError), f'cast_none({element!r}) gives {got!r}')
    got = convert(None, element, ctx)
    ctx.check(got is (None if element is None or is_missing(element) else NOTHING), f'{element!r} as None gives {got!r}')


# ------------------------------------------------------------------ bytes

@st.composite
def bytes_cases(draw):
    data = draw(st.one_of(
        st.binary(max_size=12), st.lists(st.sampled_from([0xff, 0xfb, 0xef, 0xbe, 0x3e, 0]), max_size=8).map(bytes),
        st.binary(max_size=300),
    ))
    text = base64.b64encode(data).decode()
    alphabet = draw(st.integers(0, 2))
    if alphabet == 1:
        text = text.replace('+', '-').replace('/', '_')
    elif alphabet == 2:
        text = ''.join(draw(st.sampled_from([c, {'+': '-', '/': '_'}.get(c, c)])) for c in text)
    if draw(st.booleans()):
        text = text.rstrip('=')
    kind = draw(st.integers(0, 4))
    if kind == 3:
        at = draw(st.integers(0, len(text)))
        text = text[:at] + draw(st.sampled_from(['', '=', '.', 'A', ' ', 'é', '\ud800'])) + text[at + 1:]
        data = None
    elif kind == 4:
        text = draw(ELEMENT)
        data = None
    return draw(st.sampled_from(['bytes', 'Bytes'])), text, data


def bytes_(case, ctx):
    name, element, data = case
    type_ = {'bytes': bytes, 'Bytes': Bytes}[name]
    got = convert(type_, element, ctx)
    if data is None:
        if not is_primitive(element) or is_missing(element):
            want = NOTHING
        else:
            try:
                want = to_bytes(str(element))
            except ValueError:
                want = NOTHING
            except Unspecified:
                want = got
    else:
        ctx.nontrivial(bool(data))
        want = data
    if want is NOTHING:
        ctx.check(got is NOTHING, f'{element!r} as {name} gives {got!r}')
    elif want is not got or got is not NOTHING:
        ctx.check(got is not NOTHING, f'{element!r} as {name} is rejected, expected {want!r}')
        ctx.check(type(got) is type_ and got == bytes(want), f'{element!r} as {name} gives {got!r}, expected {want!r}')
    if got is not NOTHING:
        text = marsh.marshal(got)
        ctx.check(text == base64.urlsafe_b64encode(got).decode(), f'{got!r} is marshaled to {text!r}')
        again = marsh.unmarshal(type_, text)
        ctx.check(type(again) is type_ and again == got, f'{got!r} is marshaled to {text!r} and read as {again!r}')


# ------------------------------------------------------------------ complex

COMPLEX = {'complex': complex, 'Complex': Complex, 'numbers.Complex': numbers.Complex}
COMPLEX_ELEMENT = gen.pick(
    SCALAR,
    st.lists(gen.pick(NUMBER, gen.ints, gen.finite_floats, SCALAR), max_size=3),
    st.lists(gen.pick(NUMBER, gen.finite_floats), max_size=3).map(tuple),
    st.dictionaries(st.sampled_from(['real', 'imag', 'real', 'imag', 'name', 'Real', 're']), gen.pick(NUMBER, gen.finite_floats, SCALAR), max_size=3),
)


def complex_want(element):
    if is_missing(element):
        raise ValueError
    if is_seq(element):
        parts = dict(zip(('real', 'imag'), element))
        if len(element) > 2:
            raise ValueError
    elif is_map(element):
        parts = element
        if set(parts) - {'real', 'imag'}:
            raise ValueError
    else:
        parts = {'real': element}
    if any(map(is_missing, parts.values())):
        raise ValueError
    return complex(*(to_scalar('float', parts.get(key, 0.0)) for key in ('real', 'imag')))


def complex_(case, ctx):
    name, element = case
    type_ = COMPLEX[name]
    ctx.nontrivial(is_seq(element) or is_map(element))
    got = convert(type_, element, ctx)
    try:
        want = complex_want(element)
    except ValueError:
        ctx.check(got is NOTHING, f'{element!r} as {name} gives {got!r}')
        return
    ctx.check(got is not NOTHING, f'{element!r} as {name} is rejected, expected {want!r}')
    ctx.check(type(got) is (Complex if name == 'Complex' else complex), f'{element!r} as {name} gives a {type(got)!r}')
    ctx.check(
        alike(got.real, want.real) and alike(got.imag, want.imag),
        f'{element!r} as {name} gives {got!r}, expected {want!r}',
    )
    element = marsh.marshal(got)
    ctx.check(
        alike(element, got.real) if got.imag == 0
        else is_map(element) and list(map(repr, element.items())) == [repr(('real', got.real)), repr(('imag', got.imag))],
        f'{got!r} is marshaled to {element!r}',
    )
    again = marsh.unmarshal(type_, element)
    ctx.check(type(again) is type(got) and (again == got or repr(again) == repr(got)), f'{got!r} is read as {again!r}')


# ------------------------------------------------------------------ date and time

UTC = datetime.timezone.utc


def zone(seconds):
    return None if seconds is None else datetime.timezone(datetime.timedelta(microseconds=seconds))


ZONES = gen.pick(
    st.none(),
    st.sampled_from([0, 3600, -3600, 19800, -43200, 50400, 86340, -86340, 45900]).map(lambda s: s * 10**6),
    st.integers(-86399, 86399).map(lambda s: s * 10**6),
    # (python itself reads a sub-second offset as UTC)
    st.integers(-86399999999, 86399999999).filter(lambda us: us == 0 or abs(us) >= 10**6),
)


def stamp(parts, type_=datetime.datetime):
    fields, offset = parts
    return type_(*fields, tzinfo=zone(offset))


DATETIMES = st.tuples(
    st.datetimes().map(lambda d: (d.year, d.month, d.day, d.hour, d.minute, d.second, d.microsecond)), ZONES,
)
TIMES = st.tuples(st.times().map(lambda t: (t.hour, t.minute, t.second, t.microsecond)), ZONES)
DATES = {'datetime': datetime.datetime, 'Datetime': Datetime, 'time': datetime.time, 'Time': Time, 'date': datetime.date}


def iso_cases():
    return st.tuples(
        st.sampled_from(['datetime', 'Datetime']), DATETIMES, st.sampled_from(['T', ' ', 'T', '_']),
        st.sampled_from(['auto', 'auto', 'hours', 'minutes', 'seconds', 'milliseconds', 'microseconds']),
        st.booleans(),
    )


def iso(case, ctx):
    name, parts, separator, timespec, zulu = case
    type_ = DATES[name]
    value = stamp(parts, type_)
    text = value.isoformat(separator, timespec)
    want = type_.fromisoformat(text)
    if zulu and text.endswith('+00:00'):
        text = text[:-6] + 'Z'
    ctx.nontrivial()
    ctx.label('with offset' if parts[1] is not None else 'naive')
    got = convert(type_, text, ctx)
    ctx.check(got is not NOTHING, f'{text!r} as {name} is rejected')
    ctx.check(type(got) is type_, f'{text!r} as {name} gives {got!r}')
    ctx.check(got == want and got.utcoffset() == want.utcoffset(), f'{text!r} as {name} gives {got!r}')
    element = marsh.marshal(value)
    ctx.check(element == value.isoformat(), f'{value!r} is marshaled to {element!r}')
    again = marsh.unmarshal(type_, element)
    ctx.check(
        type(again) is type_ and again == value and again.utcoffset() == value.utcoffset(),
        f'{value!r} is marshaled to {element!r} and read as {again!r}',
    )
    date = value.date()
    element = marsh.marshal(date)
    again = marsh.unmarshal(datetime.date, element)
    ctx.check(
        isinstance(again, datetime.date) and (again.year, again.month, again.day) == (date.year, date.month, date.day),
        f'{date!r} is marshaled to {element!r} and read as {again!r}',
    )
    items = list(parts[0])
    for element in (items, tuple(items), [str(i) for i in items][:0] + items[:3]):
        again = marsh.unmarshal(type_, element)
        ctx.check(alike(again, type_(*element)), f'{element!r} as {name} gives {again!r}')
    element = dict(zip(('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond'), items))
    again = marsh.unmarshal(type_, element)
    ctx.check(alike(again, type_(**element)), f'{element!r} as {name} gives {again!r}')


def time_(case, ctx):
    name, parts = case
    type_ = DATES[name]
    value = stamp(parts, type_)
    element = marsh.marshal(value)
    ctx.check(element == value.isoformat(), f'{value!r} is marshaled to {element!r}')
    ctx.nontrivial()
    got = convert(type_, element, ctx)
    ctx.check(
        type(got) is type_ and got == value and got.utcoffset() == value.utcoffset(),
        f'{value!r} is marshaled to {element!r} and read as {got!r}',
    )
    got = convert(type_, list(parts[0]), ctx)
    ctx.check(alike(got, type_(*parts[0])), f'{parts[0]!r} as {name} gives {got!r}')
    got = convert(type_, dict(hour=parts[0][0], second=parts[0][2]), ctx)
    ctx.check(alike(got, type_(hour=parts[0][0], second=parts[0][2])), f'{parts[0]!r} as {name} gives {got!r}')


STAMPS = gen.pick(
    st.integers(-62135596800, 253402300799),
    st.floats(min_value=-62135596800, max_value=253402300799),
    st.integers(0, 2 * 10**9),
    st.integers(0, 2 * 10**15).map(lambda i: i / 10**6),
    st.sampled_from([0, 1, -1, 0.5, -0.5, 1e9, 999999999.999999]),
)


def timestamp(case, ctx):
    name, number, text = case
    type_ = DATES[name]
    element = repr(number) if text else number
    want = datetime.datetime.fromtimestamp(float(number), UTC)
    ctx.nontrivial()
    got = convert(type_, element, ctx)
    ctx.check(got is not NOTHING, f'{element!r} as {name} is rejected')
    if issubclass(type_, datetime.time):
        ctx.check(type(got) is type_ and got == want.time(), f'{element!r} as {name} gives {got!r}, expected {want!r}')
    else:
        # the documented result for a date is a datetime
        ctx.check(
            type(got) is (type_ if type_ is not datetime.date else datetime.datetime)
            and got == want and got.utcoffset() == want.utcoffset(),
            f'{element!r} as {name} gives {got!r}, expected {want!r}',
        )


def written_cases():
    return st.tuples(st.datetimes(datetime.datetime(1900, 1, 1), datetime.datetime(2100, 1, 1)).map(
        lambda d: (d.year, d.month, d.day, d.hour, d.minute, d.second),
    ), st.integers(0, 4))


MONTHS = 'Jan Feb Mar Apr May Jun Jul Aug Sep Oct Nov Dec'.split()


def written(case, ctx):
    """Texts in other formats, where the order of numbers is day, month, year."""
    (year, month, day, hour, minute, second), style = case
    clock = f'{hour:02}:{minute:02}:{second:02}'
    text = [
        f'{day:02}/{month:02}/{year:04} {clock}',
        f'{day:02}-{month:02}-{year:04} {clock}',
        f'{day:02}.{month:02}.{year:04} {clock}',
        f'{day} {MONTHS[month - 1]} {year:04} {clock}',
        f'{MONTHS[month - 1]} {day}, {year:04} {clock}',
    ][style]
    ctx.nontrivial(day <= 12)
    want = datetime.datetime(year, month, day, hour, minute, second)
    got = convert(datetime.datetime, text, ctx)
    ctx.check(got is not NOTHING and got == want, f'{text!r} gives {got!r}')
    got = convert(datetime.time, text, ctx)
    ctx.check(got is not NOTHING and got == want.time(), f'{text!r} as time gives {got!r}')


TOKENS = st.sampled_from([
    '0', '1', '12', '31', '99', '2020', '20200101', '9999', '10000', '1e9', '1' * 20, '٣', '²', '/', '-', ':', '.', ',', ' ', ' ', 'T', 'Z',
    '+', '+05:00', '+99:99', 'UTC', 'EST', 'Jan', 'feb', 'Mai', 'Fri', 'in', 'days', 'day', 'ago', 'week', 'months', 'years', 'tomorrow',
    'yesterday', 'now', 'am', 'PM', 'noon', 'last', 'next', 'W53', '-366', '24:00', '23:59:60', '00:00', '0000-00-00', '\x00', '\n', 'é', '日',
    '年', '(', '[', '\\', '%d', '\ud800', 'nan', 'inf',
])


def anydate_cases():
    return st.tuples(
        st.sampled_from(sorted(DATES)),
        gen.pick(
            st.lists(TOKENS, min_size=1, max_size=7).map(''.join),
            st.lists(TOKENS, min_size=1, max_size=5).map(' '.join),
            ELEMENT,
            st.lists(gen.pick(gen.ints, SCALAR), max_size=9),
            st.dictionaries(
                st.sampled_from(['year', 'month', 'day', 'hour', 'fold', 'tzinfo', 'x', 'a-b']),
                gen.pick(st.integers(-1, 2100), SCALAR), max_size=4,
            ),
            st.one_of(st.floats(), st.integers(-10**20, 10**20)),
        ),
    )


def anydate(case, ctx):
    name, element = case
    type_ = DATES[name]
    ctx.nontrivial(isinstance(element, str))
    got = convert(type_, element, ctx)
    if is_missing(element):
        ctx.check(got is NOTHING, f'{element!r} as {name} gives {got!r}')
    elif is_seq(element) or is_map(element):
        try:
            want = type_(*element) if is_seq(element) else type_(**element)
        except Exception:
            want = NOTHING
        ctx.check(got is want or alike(got, want), f'{element!r} as {name} gives {got!r}, expected {want!r}')
    elif got is not NOTHING:
        ctx.check(isinstance(got, type_), f'{element!r} as {name} gives {got!r}')


# ------------------------------------------------------------------ slices

def slice_of(text):
    """Reference parser of the slice syntax: two or three optional integers and colons."""
    parts = text.split(':')
    if len(parts) not in (2, 3):
        raise ValueError
    values = []
    for part in parts:
        part = part.strip()
        if not part:
            values.append(None)
            continue
        sign = part[0] == '-'
        digits = part[1:].lstrip() if sign else part
        if not digits or not all(c.isdecimal() for c in digits):
            raise ValueError
        values.append(-int(digits) if sign else int(digits))
    return slice(*values)


INDEX = gen.pick(
    st.just(''), gen.ints.map(str),
    st.builds('{}{}{}{}'.format, st.sampled_from(['', '', ' ', '\t', '\n']), st.sampled_from(['', '', '-', '- ', '+', '--']),
              st.sampled_from(['0', '1', '12', '٣', '', '1 2', '1.0', '1_0', 'a', '1' * 30, '²']), st.sampled_from(['', '', ' ', '\n', '\xa0'])),
)


def slice_cases():
    limit = gen.pick(st.none(), gen.ints, SCALAR)
    return gen.pick(
        st.lists(INDEX, min_size=1, max_size=4).map(':'.join),
        st.lists(gen.pick(st.just(''), gen.ints.map(str)), min_size=2, max_size=3).map(':'.join),
        st.lists(limit, max_size=4),
        st.lists(gen.pick(st.none(), gen.ints), min_size=1, max_size=3).map(tuple),
        st.dictionaries(st.sampled_from(['start', 'stop', 'step', 'start', 'stop', 'step', 'x', 'Stop']), limit, max_size=3),
        ELEMENT,
    )


def slice_(element, ctx):
    got = convert(slice, element, ctx)

    def index(value):
        return None if value is None or is_missing(value) else to_scalar('int', value)

    try:
        if is_missing(element):
            want = slice(None)
        elif is_map(element):
            if set(element) - {'start', 'stop', 'step'}:
                raise ValueError
            want = slice(*(index(element.get(key)) for key in ('start', 'stop', 'step')))
        elif is_seq(element):
            if len(element) > 3:
                raise ValueError
            want = slice(*map(index, element or [None]))
        elif isinstance(element, str):
            want = slice_of(element)
            ctx.nontrivial()
        else:
            want = NOTHING if element is None else got    # a single number is not specified
    except ValueError:
        want = NOTHING
    ctx.nontrivial(want is not NOTHING)
    if want is NOTHING:
        ctx.check(got is NOTHING, f'{element!r} gives {got!r}')
        return
    if got is NOTHING and want is got:
        return
    ctx.check(got is not NOTHING, f'{element!r} is rejected, expected {want!r}')
    ctx.check(alike(got, want), f'{element!r} gives {got!r}, expected {want!r}')
    out = marsh.marshal(got)
    ctx.check(
        list(out.items()) == [('start', got.start), ('stop', got.stop), ('step', got.step)], f'{got!r} is marshaled to {out!r}',
    )
    ctx.check(alike(marsh.unmarshal(slice, out), got), f'{got!r} does not survive marshaling')


# ------------------------------------------------------------------ loggers

NAMES = gen.pick(
    gen.pick(st.sampled_from(['a', 'a.b', 'x.y.z', '007', '1e3', '1.0', ' 5 ', 'True', '-1', 'no', '0x1', '१']), NUMBER),
    gen.any_text(min_size=1),
    gen.scalars(),
)
LEVELS = gen.pick(
    st.sampled_from(['DEBUG', 'INFO', 'WARNING', 'ERROR', 'CRITICAL', 'NOTSET', 'WARN', 'FATAL', 'VT', 'debug', 'Info', 'bogus', '', 'Level 5']),
    st.integers(-5, 60), NUMBER, SCALAR,
)


def logger_cases():
    return gen.pick(
        st.fixed_dictionaries({'name': NAMES, 'level': LEVELS}),
        st.fixed_dictionaries({}, optional={'name': NAMES, 'level': LEVELS}),
        NAMES,
        ELEMENT,
        st.dictionaries(st.sampled_from(['name', 'level', 'Name', 'x']), LEVELS, max_size=3),
    )


def logger(element, ctx):
    logging.addLevelName(23, 'VT')
    manager = logging.Logger.manager
    known = dict(manager.loggerDict)
    levels = {name: item.level for name, item in known.items() if isinstance(item, logging.Logger)}
    root = logging.getLogger()
    root_level = root.level
    try:
        name, level = None, None
        valid = True
        if is_map(element):
            valid = not set(element) - {'name', 'level'}
            for key, value in element.items():
                if not is_primitive(value) or is_missing(value):
                    valid = False
            if valid:
                name = str(element['name']) if 'name' in element else None
                if 'level' in element:
                    try:
                        level = to_scalar('int', element['level'])
                    except ValueError:
                        level = element['level'] if isinstance(element['level'], str) else None
                        if isinstance(element['level'], float):
                            # 1.5, nan and inf are neither a name nor a level
                            level = str(element['level'])
                        level = {
                            'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50,
                            'NOTSET': 0, 'WARN': 30, 'FATAL': 50, 'VT': 23,
                        }.get(level)
                        valid = level is not None
        elif is_missing(element):
            pass
        elif is_primitive(element):
            name = str(element)
        else:
            valid = False
        before = root_level
        if name and name in levels:
            before = levels[name]
        elif name and name != 'root':
            before = 0
        got = convert(logging.Logger, element, ctx)
        ctx.nontrivial(is_map(element) and len(element) == 2)
        if not valid:
            ctx.check(got is NOTHING, f'{element!r} gives {got!r}')
            now = {
                n: item.level for n, item in manager.loggerDict.items()
                if isinstance(item, logging.Logger) and item.level != levels.get(n, 0)
            }
            ctx.check(not now and root.level == root_level, f'{element!r} is rejected but changes levels: {now!r}')
            return
        ctx.check(got is not NOTHING, f'{element!r} is rejected')
        ctx.check(got is logging.getLogger(name), f'{element!r} gives {got!r}')
        ctx.check(got.level == (before if level is None else level), f'{element!r} gives {got!r} with level {got.level!r}')
        out = marsh.marshal(got)
        want = {'name': got.name}
        if got.level:
            text = logging.getLevelName(got.level)
            want['level'] = got.level if text.startswith('Level ') else text
        ctx.check(out == want and repr(out) == repr(want), f'{got!r} is marshaled to {out!r}')
        was = got.level
        if was:
            got.setLevel(was + 1)
        again = marsh.unmarshal(logging.Logger, out)
        ctx.check(again is got and got.level == was, f'{got!r} is marshaled to {out!r} and read as {again!r}')
    finally:
        for item in manager.loggerDict.values():
            if isinstance(item, logging.Logger):
                item.setLevel(levels.get(item.name, 0))
        root.setLevel(root_level)
        manager.loggerDict.clear()
        manager.loggerDict.update(known)


# ------------------------------------------------------------------ protocols

# (expected candidate, methods which a class must have to count as it)
CANDIDATES = [
    ('float', float), ('int', int), ('bool', bool), ('bytes', bytes),
    ('dict', collections.abc.MutableMapping), ('mapping', collections.abc.Mapping),
    ('list', collections.abc.MutableSequence), ('sequence', collections.abc.Sequence), ('str', str),
    ('complex', numbers.Complex),
]
CONCRETE = {'dict': dict, 'list': list, 'complex': complex}
METHODS = [
    '__abs__', '__float__', '__int__', '__index__', '__complex__', '__round__', '__len__', '__iter__',
    '__contains__', '__getitem__', '__setitem__', '__delitem__', 'keys', 'items', 'pop', 'append', 'insert', 'index',
    'count', 'upper', 'encode', 'decode', 'hex', 'is_integer', 'bit_length', 'conjugate', 'update', 'extend',
    '__reversed__', '__pow__', '__truediv__', '__invert__', 'fromhex', 'nothing_has_this',
]
for _method in METHODS:
    for _name, _type in CONCRETE.items():
        _abstract = dict(CANDIDATES)[_name]
        if hasattr(_abstract, _method) != hasattr(_type, _method):
            assert not hasattr(_abstract, _method), (_name, _method)
TYPING = ['SupportsAbs', 'SupportsBytes', 'SupportsComplex', 'SupportsFloat', 'SupportsIndex', 'SupportsInt', 'SupportsRound']
_PROTOCOLS = {}


def protocol_of(methods):
    if methods not in _PROTOCOLS:
        body = {name: (lambda self: None) for name in methods}
        _PROTOCOLS[methods] = typing.runtime_checkable(typing.Protocol.__class__('P', (typing.Protocol,), body))
    return _PROTOCOLS[methods]


def protocol_cases():
    return st.tuples(
        gen.pick(
            st.sampled_from(TYPING),
            st.lists(st.sampled_from(METHODS[:-1]), min_size=1, max_size=2, unique=True).map(lambda m: tuple(sorted(m))),
            st.lists(st.sampled_from(METHODS), min_size=2, max_size=4, unique=True).map(lambda m: tuple(sorted(m))),
        ),
        gen.pick(
            ELEMENT, NUMBER, gen.finite_floats, st.sampled_from(['abc', 'aGVsbG8=', 'yes']),
            st.lists(gen.ints, max_size=3), st.dictionaries(gen.simple_key(), gen.ints, max_size=3),
            st.dictionaries(st.sampled_from(['real', 'imag']), gen.finite_floats, max_size=2),
        ),
    )


def protocol(case, ctx):
    which, element = case
    if isinstance(which, str):
        type_ = getattr(typing, which)
        methods = {'SupportsAbs': ['__abs__']}.get(which, ['__' + which[8:].lower() + '__'])
    else:
        type_, methods = protocol_of(which), which
    candidates = [
        (name, candidate) for name, candidate in CANDIDATES if all(getattr(candidate, method, None) is not None for method in methods)
    ]
    ctx.label(f'{min(len(candidates), 4)} candidates')
    got = convert(type_, element, ctx)
    ctx.nontrivial(bool(candidates) and candidates[0][0] != 'float')
    want = NOTHING
    for name, candidate in candidates:
        try:
            want = marsh.unmarshal(candidate, element)
        except marsh.errors.UnmarshalError:
            continue
        ctx.label('as ' + name)
        break
    if want is NOTHING:
        ctx.check(got is NOTHING, f'{element!r} as a protocol of {methods!r} gives {got!r}')
        return
    ctx.check(got is not NOTHING, f'{element!r} as a protocol of {methods!r} is rejected, expected {want!r}')
    ctx.check(alike(got, want), f'{element!r} as a protocol of {methods!r} gives {got!r}, expected {want!r}')
    ctx.check(isinstance(got, type_), f'{element!r} as a protocol of {methods!r} gives {got!r}')


SUBS = [
    Sub('primitive', lambda: st.tuples(st.sampled_from(sorted(PRIMITIVES)), ELEMENT), primitive, 8000, 400000),
    Sub(
        'helpers',
        lambda: st.tuples(SCALAR, st.lists(gen.pick(st.integers(-1, 2), st.booleans(), st.sampled_from(['1', 'a', 'true', '0', '1.0', '']), st.sampled_from([0.5, 1e3])), max_size=4)),
        helpers, 3000, 200000,
    ),
    Sub('bytes', bytes_cases, bytes_, 4000, 200000),
    Sub('complex', lambda: st.tuples(st.sampled_from(sorted(COMPLEX)), COMPLEX_ELEMENT), complex_, 3000, 150000),
    Sub('iso', iso_cases, iso, 2500, 120000),
    Sub('time', lambda: st.tuples(st.sampled_from(['time', 'Time']), TIMES), time_, 1500, 60000),
    Sub('timestamp', lambda: st.tuples(st.sampled_from(sorted(DATES)), STAMPS, st.booleans()), timestamp, 2500, 120000),
    Sub('written', written_cases, written, 150, 5000),
    Sub('anydate', anydate_cases, anydate, 800, 20000),
    Sub('slice', slice_cases, slice_, 4000, 200000),
    Sub('logger', logger_cases, logger, 3000, 120000),
    Sub('protocol', protocol_cases, protocol, 3000, 120000),
]
