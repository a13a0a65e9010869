"""C13: path algebra."""
import marsh
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Sub
from vlib.oracle import PathSyntaxError, ref_split

PROPERTY = 'C13'
RULE = (
    'Cases are lists of path fields over an alphabet rich in delimiters, quotes, '
    'backslashes and non-ASCII characters, a delimiter, and raw path texts with escapes '
    'and quoted parts. A case is non-trivial when a field holds a character that has to '
    'be escaped, or the raw text uses quoting/escaping, or it has at least two fields.'
)

DELIMITERS = st.sampled_from(['.', '/', ':', ' ', '-', '.', '.', 'a', '€', '\n'])
SPECIAL = set('.\\\'"')


def _fields(min_size=0):
    return st.lists(gen.field(), min_size=min_size, max_size=5)


def _rendered():
    """(fields, delimiter, per-field rendering style, extra delimiters)."""
    return st.tuples(
        st.lists(
            st.tuples(gen.field(), st.sampled_from(['escape', 'single', 'double', 'all', 'mixed'])),
            max_size=4,
        ),
        DELIMITERS,
        st.tuples(st.integers(0, 2), st.integers(0, 2), st.integers(0, 2)),
    )


def _render(fields, delimiter, extra):
    out = []
    for text, style in fields:
        if style == 'escape':
            out.append(''.join(
                '\\' + c if c in ('\\', '"', "'", delimiter) else c for c in text
            ))
        elif style == 'all':
            out.append(''.join('\\' + c for c in text))
        elif style == 'mixed':
            half = len(text) // 2
            out.append(
                ''.join('\\' + c if c in ('\\', '"', "'", delimiter) else c for c in text[:half])
                + '"' + text[half:].replace('\\', '\\\\').replace('"', '\\"') + '"'
            )
        else:
            quote = "'" if style == 'single' else '"'
            out.append(quote + text.replace('\\', '\\\\').replace(quote, '\\' + quote) + quote)
    lead, mid, trail = extra
    return delimiter * lead + (delimiter * (mid + 1)).join(out) + delimiter * trail


def _note(ctx, fields, delimiter):
    if any(set(f) & (SPECIAL | {delimiter}) for f in fields):
        ctx.label('needs escape')
        ctx.nontrivial()
    if len(fields) > 1:
        ctx.label('several fields')
        ctx.nontrivial()
    if delimiter != '.':
        ctx.label('other delimiter')


def split_join(case, ctx):
    fields, delimiter = case
    path = marsh.path.join_fields(fields, delimiter=delimiter)
    _note(ctx, fields, delimiter)
    got = marsh.path.split(path, delimiter=delimiter)
    ctx.check(isinstance(path, str), 'join_fields returned', repr(path))
    ctx.check(list(got) == list(fields), f'split(join({fields!r}, {delimiter!r})) = {got!r} via {path!r}')
    ctx.check(
        list(marsh.path.iterative_split(path, delimiter=delimiter)) == list(fields),
        f'iterative_split disagrees for {path!r}',
    )
    # joining is canonical: join(split(path)) == path
    again = marsh.path.join_fields(got, delimiter=delimiter)
    ctx.check(again == path, f'join(split({path!r})) = {again!r}')
    # empty fields vanish
    padded = [x for f in fields for x in ('', f)] + ['']
    ctx.check(
        marsh.path.join_fields(padded, delimiter=delimiter) == path,
        f'empty fields changed the path: {padded!r}',
    )
    if delimiter == '.':
        ctx.check(marsh.path.split(marsh.path.join_fields(fields)) == tuple(fields), 'default delimiter')


def escape_roundtrip(case, ctx):
    field, delimiter = case
    _note(ctx, [field], delimiter)
    escaped = marsh.path.escape_field(field, delimiter=delimiter)
    got = marsh.path.split(escaped, delimiter=delimiter)
    ctx.check(tuple(got) == ((field,) if field else ()), f'split(escape({field!r})) = {got!r}')


def head_tail(case, ctx):
    fields, delimiter = case
    _note(ctx, fields, delimiter)
    path = marsh.path.join_fields(fields, delimiter=delimiter)
    head, rest = marsh.path.head(path, delimiter=delimiter)
    ctx.check(head == (fields[0] if fields else ''), f'head({path!r}) = {head!r}')
    ctx.check(
        list(marsh.path.split(rest, delimiter=delimiter)) == list(fields[1:]),
        f'head({path!r}).path = {rest!r}',
    )
    tail, rest = marsh.path.tail(path, delimiter=delimiter)
    ctx.check(tail == (fields[-1] if fields else ''), f'tail({path!r}) = {tail!r}')
    ctx.check(
        list(marsh.path.split(rest, delimiter=delimiter)) == list(fields[:-1]),
        f'tail({path!r}).path = {rest!r}',
    )


def raw_head_tail(case, ctx):
    rendered, delimiter, extra = case
    fields = [f for f, _ in rendered]
    _note(ctx, fields, delimiter)
    path = _render(rendered, delimiter, extra)
    got = marsh.path.split(path, delimiter=delimiter)
    ctx.check(tuple(got) == tuple(fields), f'split({path!r}, {delimiter!r}) = {got!r} != {fields!r}')
    head, rest = marsh.path.head(path, delimiter=delimiter)
    ctx.check(
        [head, *marsh.path.split(rest, delimiter=delimiter)] == (fields or ['']),
        f'head({path!r}) = {head!r}, {rest!r}',
    )
    tail, rest = marsh.path.tail(path, delimiter=delimiter)
    ctx.check(
        [*marsh.path.split(rest, delimiter=delimiter), tail] == (fields or ['']),
        f'tail({path!r}) = {tail!r}, {rest!r}',
    )


def extend(case, ctx):
    rendered, delimiter, extra, field = case
    fields = [f for f, _ in rendered]
    _note(ctx, [*fields, field], delimiter)
    path = _render(rendered, delimiter, extra)
    new = [field] if field else []
    got = marsh.path.split(marsh.path.append(path, field, delimiter=delimiter), delimiter=delimiter)
    ctx.check(list(got) == fields + new, f'append({path!r}, {field!r}) -> {got!r}')
    got = marsh.path.split(marsh.path.prepend(path, field, delimiter=delimiter), delimiter=delimiter)
    ctx.check(list(got) == new + fields, f'prepend({path!r}, {field!r}) -> {got!r}')
    for cls, err_delimiter in ((marsh.errors.MarshError, '.'), (marsh.errors.ConfigFileError, '/')):
        err = cls('x', path=marsh.path.join_fields(fields, delimiter=err_delimiter))
        err.append(field)
        got = marsh.path.split(err.path, delimiter=err_delimiter)
        ctx.check(list(got) == fields + new, f'error path append {fields!r} + {field!r} -> {err.path!r}')
        err.prepend(field)
        got = marsh.path.split(err.path, delimiter=err_delimiter)
        ctx.check(list(got) == new + fields + new, f'error path prepend -> {err.path!r}')


def strip(case, ctx):
    fields, delimiter, lead, trail = case
    _note(ctx, fields, delimiter)
    path = marsh.path.join_fields(fields, delimiter=delimiter)
    padded = delimiter * lead + path + delimiter * trail
    if path.endswith('\\'):
        # an escaped backslash in front of a delimiter reads like an escaped delimiter
        trail = 0
        padded = delimiter * lead + path
    got = marsh.path.strip_delimiter(padded, delimiter=delimiter)
    ctx.check(
        list(marsh.path.split(got, delimiter=delimiter)) == fields,
        f'strip_delimiter({padded!r}) = {got!r} changed the fields',
    )
    ctx.check(got == path, f'strip_delimiter({padded!r}) = {got!r}, expected {path!r}')


def raw_split(case, ctx):
    path, delimiter = case
    try:
        expected = ref_split(path, delimiter)
    except PathSyntaxError:
        expected = None
    ctx.nontrivial(bool(set(path) & {'\\', '"', "'"}))
    ctx.label('malformed' if expected is None else 'wellformed')
    try:
        got = tuple(marsh.path.split(path, delimiter=delimiter))
    except marsh.errors.PathError:
        got = None
    ctx.check(got == expected, f'split({path!r}, {delimiter!r}) = {got!r}, expected {expected!r}')
    if expected is None:
        for fn in (marsh.path.head, marsh.path.tail):
            try:
                fn(path, delimiter=delimiter)
            except marsh.errors.PathError:
                continue
            ctx.fail(f'{fn.__name__}({path!r}) accepted a malformed path')


SUBS = [
    Sub('split_join', lambda: st.tuples(_fields(), DELIMITERS), split_join, 3000, 200000),
    Sub('escape', lambda: st.tuples(st.one_of(st.just(''), gen.field()), DELIMITERS), escape_roundtrip, 1500, 60000),
    Sub('head_tail', lambda: st.tuples(_fields(), DELIMITERS), head_tail, 2500, 120000),
    Sub('raw_head_tail', _rendered, raw_head_tail, 2500, 120000),
    Sub(
        'extend',
        lambda: st.tuples(_rendered(), st.one_of(st.just(''), gen.field())).map(lambda c: (*c[0], c[1])),
        extend, 3000, 200000,
    ),
    Sub(
        'strip',
        lambda: st.tuples(_fields(), DELIMITERS, st.integers(0, 3), st.integers(0, 3)),
        strip, 1500, 60000,
    ),
    Sub(
        'raw_split',
        lambda: st.tuples(st.text(alphabet='ab. \\"\'/', max_size=14), DELIMITERS),
        raw_split, 4000, 300000,
    ),
]
