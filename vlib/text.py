"""Rendering of elements and overrides to the documented command line text format."""
from hypothesis import strategies as st

from vlib import gen


def looks_special(text):
    """Unquoted text which is not parsed to a plain string."""
    if text.strip().lower() in ('true', 'false', 'null', ''):
        return True
    for number in (int, float):
        try:
            number(text)
        except ValueError:
            continue
        return True
    return False


def quoted(text, quote):
    return quote + text.replace('\\', '\\\\').replace(quote, '\\' + quote) + quote


def bare(text, terminals, first='\'"', eager=False):
    """Unquoted text with everything reserved escaped.

    terminals: characters that would end the text; first: characters that are special as
    the first character; eager: escape every character.
    """
    out = []
    for i, char in enumerate(text):
        if eager or char == '\\' or char in terminals or (
            i == 0 and (char in first or char.isspace())
        ):
            out.append('\\')
        out.append(char)
    return ''.join(out)


# A styled element is a literal:
#   ['scalar', value, style, pad]        style: how to write the value
#   ['seq', [items...], style, pad]
#   ['map', [[key, keystyle, item]...], style, pad]

_STYLE = st.integers(0, 5)
_PAD = st.sampled_from(['', '', '', ' ', '  ', '\n', '\t ', '\x0b', '\x0c\r', '\u2003', '\xa0 ', '\x85', '\x1c\u2028'])


def styled_elements(max_leaves=10, keys=None):
    keys = gen.pick(st.just(''), gen.simple_key(), gen.field(), gen.field()) if keys is None else keys
    scalar = st.tuples(st.just('scalar'), gen.scalars(), _STYLE, _PAD)

    def extend(inner):
        return gen.pick(
            st.tuples(st.just('seq'), st.lists(inner, max_size=4), _STYLE, _PAD),
            st.tuples(
                st.just('map'),
                st.lists(st.tuples(keys, _STYLE, inner), max_size=4, unique_by=lambda e: e[0]),
                _STYLE,
                _PAD,
            ),
        )
    return gen.pick(
        st.recursive(scalar, extend, max_leaves=max_leaves),
        extend(st.recursive(scalar, extend, max_leaves=max_leaves)),
    )


def value_of(styled):
    """The element that the text of a styled element stands for."""
    kind, content = styled[0], styled[1]
    if kind == 'seq':
        return tuple(map(value_of, content))
    if kind == 'map':
        return {key: value_of(item) for key, _, item in content}
    if isinstance(content, float) and content.is_integer():
        # the format has one kind of number: integral numbers are integers
        return int(content)
    return content


def render(styled, terminals='', allow_pad=True):
    kind, content, style, pad = styled
    if not allow_pad:
        pad = ''
    if kind == 'seq':
        opening, closing = ('[]', '()')[style % 2]
        body = ','.join(
            (pad if i % 2 else '') + render(item, ',' + closing)
            for i, item in enumerate(content)
        )
        return f'{pad}{opening}{pad}{body}{_tail(content, pad)}{closing}{pad}'
    if kind == 'map':
        parts = []
        for key, keystyle, item in content:
            text, was_quoted = render_key(key, keystyle)
            parts.append(
                f'{pad}{text}{pad if was_quoted else ""}:{pad}{render(item, ",}")}',
            )
        body = ','.join(parts)
        return f'{pad}{{{pad}{body}{_tail([i for _, _, i in content], pad)}}}{pad}'
    return pad + scalar(content, style, terminals, pad)


def _tail(items, pad):
    """Whitespace in front of a closing bracket (not after unquoted text)."""
    if not items or items[-1][0] in ('seq', 'map'):
        return pad
    return ''


def render_key(key, style):
    if style % 3 == 1:
        return quoted(key, '"'), True
    if style % 3 == 2:
        return quoted(key, "'"), True
    return bare(key, ':', first='\'"}', eager=style >= 3), False


def scalar(value, style, terminals, pad=''):
    if value is None:
        return ('null', 'Null', 'NULL')[style % 3]
    if value is True:
        return ('true', 'True', 'TRUE')[style % 3]
    if value is False:
        return ('false', 'False', 'FALSE')[style % 3]
    if isinstance(value, (int, float)):
        return repr(value)
    if style % 3 == 1 or (style % 3 == 0 and looks_special(value)):
        return quoted(value, '"') + pad
    if style % 3 == 2 or looks_special(value):
        return quoted(value, "'") + pad
    return bare(value, terminals, first='\'"{[(', eager=style >= 3)


def override_path(path, quote_style=0):
    """Text of a path within an override."""
    if quote_style == 1:
        return quoted(path, '"')
    if quote_style == 2:
        return quoted(path, "'")
    return bare(path, '+=@', first='\'"~', eager=quote_style == 3)


def names(items, style):
    """Text of the names in a config assignment. style = [bracket, quote per name...]"""
    bracket, quoting, pad = style
    closing = {'[': ']', '(': ')', '': ''}[bracket]
    out = []
    for i, name in enumerate(items):
        q = quoting[i % len(quoting)]
        if q == 1:
            out.append(pad + quoted(name, '"') + pad)
        elif q == 2:
            out.append(pad + quoted(name, "'") + pad)
        else:
            out.append(pad + bare(name, ',' + closing, first='\'"[(', eager=q == 3))
    # blanks around the brackets, but not around a bare name
    return (pad + bracket if bracket else bracket) + ','.join(out) + closing
