"""Reference model of element operations (independent of the library)."""
import re

from hypothesis import strategies as st

from vlib import gen
from vlib.oracle import norm, ref_escape, same

INDEX = re.compile(r'^-?[0-9]{1,9}$', re.ASCII)


class Bad(Exception):
    """The operation is invalid; args[0] is the list of valid leading fields."""


class Ambiguous(Exception):
    """The field is neither clearly an index nor clearly not an index."""


def is_map(value):
    return isinstance(value, dict)


def is_seq(value):
    return isinstance(value, (list, tuple))


def is_index(field):
    if INDEX.match(field):
        return True
    try:
        int(field)
    except ValueError:
        return False
    raise Ambiguous(field)


def resolve_index(field, length, allow_end=False):
    """The index a field refers to, or None."""
    if not is_index(field):
        return None
    index = int(field)
    if index < 0:
        index += length
    if 0 <= index < length + (1 if allow_end else 0):
        return index
    return None


def select_all(element, fields):
    """List of elements along the path; raises Bad(prefix)."""
    out = [element]
    for i, field in enumerate(fields):
        if is_map(element):
            if field not in element:
                raise Bad(list(fields[:i]))
            element = element[field]
        elif is_seq(element):
            index = resolve_index(field, len(element))
            if index is None:
                raise Bad(list(fields[:i]))
            element = element[index]
        else:
            raise Bad(list(fields[:i]))
        out.append(element)
    return out


def combine(old, new):
    if is_map(old) and is_map(new):
        return {**old, **new}
    if is_seq(old) and is_seq(new):
        return tuple(old) + tuple(new)
    return new


def override(element, fields, value, merge=False, done=()):
    if not fields:
        return combine(element, value) if merge else value
    field, rest = fields[0], fields[1:]
    if isinstance(element, str) and element == '???':
        element = {}
    if is_map(element):
        out = dict(element)
        out[field] = override(out.get(field, {}), rest, value, merge, (*done, field))
        return out
    if is_seq(element):
        index = resolve_index(field, len(element), allow_end=True)
        if index is None:
            raise Bad(list(done))
        out = list(element)
        if index == len(out):
            out.append({})
        out[index] = override(out[index], rest, value, merge, (*done, field))
        return out
    raise Bad(list(done))


def remove(element, fields, done=()):
    field, rest = fields[0], fields[1:]
    if is_map(element):
        if field not in element:
            raise Bad(list(done))
        out = dict(element)
        if rest:
            out[field] = remove(out[field], rest, (*done, field))
        else:
            del out[field]
        return out
    if is_seq(element):
        index = resolve_index(field, len(element))
        if index is None:
            raise Bad(list(done))
        out = list(element)
        if rest:
            out[index] = remove(out[index], rest, (*done, field))
        else:
            del out[index]
        return out
    raise Bad(list(done))


def merge(elements, concatenate=False):
    absent = object()

    def missing(value):
        return value is absent or (isinstance(value, str) and value == '???')

    def one(a, b):
        if is_map(a) and is_map(b):
            out = {}
            for key in [*a, *(k for k in b if k not in a)]:
                if key in a and key in b:
                    out[key] = one(a[key], b[key])
                else:
                    out[key] = a[key] if key in a else b[key]
            return out
        if concatenate and is_seq(a) and is_seq(b):
            return tuple(a) + tuple(b)
        if missing(b):
            return a
        return b

    result = elements[0]
    for element in elements[1:]:
        result = one(result, element)
    return result


# ------------------------------------------------------------------ path generation

STYLES = st.sampled_from(['escape', 'escape', 'single', 'double', 'all'])


def picks(max_size=4, edges=False):
    """Instructions for a walk through an element, with fields just outside of it if there are edges."""
    number = gen.pick(*[st.integers(0, 7)] * 5, st.integers(8, 11)) if edges else st.integers(0, 7)
    step = st.tuples(number, st.booleans(), STYLES)
    return gen.pick(
        st.lists(step, min_size=2, max_size=max(2, max_size)),
        st.lists(step, min_size=2, max_size=max(2, max_size)),
        st.lists(step, max_size=max_size),
    )


def extra_fields(max_size=2):
    return st.lists(
        st.tuples(
            st.one_of(
                st.sampled_from(['0', '1', '-1', '-2', '2', '5', 'a', 'x', 'b.c', '-', '1.5', '1e0', '--1']),
                gen.field(),
            ),
            STYLES,
        ),
        max_size=max_size,
    )


def walk(element, steps):
    """Fields of an existing path: every step picks one of the children (or ends the walk just outside)."""
    fields = []
    for number, negative, style in steps:
        if number > 7 and (is_seq(element) or is_map(element)):
            if is_seq(element):
                outside = len(element) + number % 2
                field = str((-outside - 1, outside)[number > 9])
            else:
                key = ([key for key in element if key] or ['a'])[negative - 1]
                field = (key.swapcase(), key + ' ', key[:-1], key + key)[number % 4]
            if field:
                fields.append((field, style))
            break
        if is_map(element):
            keys = [key for key in element if key]
            if not keys:
                break
            field = keys[number % len(keys)]
            element = element[field]
        elif is_seq(element):
            if not element:
                break
            index = number % len(element)
            field = str(index - len(element)) if negative else str(index)
            element = element[index]
        else:
            break
        fields.append((field, style))
    return fields


def render(styled):
    """Path text for styled fields."""
    out = []
    for text, style in styled:
        if style == 'escape':
            out.append(ref_escape(text))
        elif style == 'all':
            out.append(''.join('\\' + c for c in text))
        else:
            quote = "'" if style == 'single' else '"'
            out.append(quote + text.replace('\\', '\\\\').replace(quote, '\\' + quote) + quote)
    return '.'.join(out)


def snapshot(element):
    return repr(element)


def same_norm(a, b):
    return same(norm(a), norm(b))
