"""C18: text to element parsing."""
import marsh
from hypothesis import strategies as st

from vlib import gen, text
from vlib.core import Sub
from vlib.oracle import same_element, shape

PROPERTY = 'C18'
RULE = (
    'Cases are generated elements rendered by an independent renderer with generated '
    'bracket, quoting, escaping and whitespace styles (round trip), and generated or '
    'mutated texts over the characters the format reserves (totality). Non-trivial: the '
    'text holds a container, a quote or an escape.'
)


def _reserved(source):
    return any(c in source for c in '{[(\\\'"')


def roundtrip(case, ctx):
    source = text.render(case)
    expected = text.value_of(case)
    ctx.nontrivial(_reserved(source))
    ctx.label(*shape(expected))
    got = marsh.parse.element(source)
    ctx.check(same_element(got, expected, order=True), f'element({source!r}) = {got!r}, expected {expected!r}')
    again = marsh.parse.element('  ' + source)
    ctx.check(same_element(again, expected, order=True), f'leading whitespace changed {source!r} to {again!r}')


def strings(case, ctx):
    value, style = case
    ctx.nontrivial()
    source = text.quoted(value, style)
    for padded in (source, f' {source} '):
        got = marsh.parse.element(padded)
        ctx.check(got == value and type(got) is str, f'element({padded!r}) = {got!r}')
    got = marsh.parse.element(f'[{source}, {source}]')
    ctx.check(same_element(got, (value, value)), f'[{source}, {source}] parsed to {got!r}')
    got = marsh.parse.element(f'{{{source}: {source}}}')
    ctx.check(same_element(got, {value: value}), f'{{{source}: {source}}} parsed to {got!r}')


def numbers(case, ctx):
    kind, value, wrap = case
    ctx.nontrivial()
    ctx.label(kind)
    source = repr(value) if kind != 'exp' else f'{value:e}'
    number = int(source) if kind == 'int' else float(source)
    expected = int(number) if isinstance(number, float) and number.is_integer() else number
    got = marsh.parse.element({'': '%s', '[': '[%s]', '{': '{k: %s}', '(': '(0,%s)'}[wrap] % source)
    got = {'': lambda v: v, '[': lambda v: v[0], '{': lambda v: v['k'], '(': lambda v: v[1]}[wrap](got)
    ctx.check(
        type(got) is type(expected) and got == expected,
        f'number {source} in {wrap!r} parsed to {got!r}, expected {expected!r}',
    )


def _plain(value):
    if isinstance(value, dict):
        return all(type(k) is str and _plain(v) for k, v in value.items())
    if isinstance(value, (list, tuple)):
        return all(map(_plain, value))
    return value is None or type(value) in (int, float, bool, str)


def total(case, ctx):
    source = case
    ctx.nontrivial(_reserved(source))
    for parser in (
        marsh.parse.element,
        marsh.parse.terminal,
        marsh.parse.string,
        marsh.parse.sequence,
        marsh.parse.mapping,
        marsh.parse.override,
        marsh.parse.config_names,
    ):
        try:
            got = parser(source)
        except marsh.parse.ParseError as err:
            message = str(err)
            ctx.check(isinstance(message, str), 'error without message')
            ctx.label(f'{parser.__name__} rejects')
            continue
        ctx.label(f'{parser.__name__} accepts')
        if parser is marsh.parse.override:
            ctx.check(isinstance(got, marsh.parse.Override) and type(got.path) is str, f'{source!r} -> {got!r}')
        elif parser is marsh.parse.config_names:
            ctx.check(all(type(n) is str for n in got), f'config_names({source!r}) = {got!r}')
        else:
            ctx.check(_plain(got), f'{parser.__name__}({source!r}) = {got!r} is not an element')
        if parser is marsh.parse.element and len(repr(got)) < 3000:
            # whatever was parsed can be written down and parsed again
            again = marsh.parse.element(text.render(_styled(got)))
            ctx.check(same_element(again, got, order=True), f'element({source!r}) = {got!r} does not round trip: {again!r}')


def _styled(value):
    if isinstance(value, dict):
        return ('map', [(k, 1, _styled(v)) for k, v in value.items()], 0, '')
    if isinstance(value, (list, tuple)):
        return ('seq', [_styled(v) for v in value], 0, '')
    return ('scalar', value, 1, '')


def malformed(case, ctx):
    styled, kind, number = case
    source = text.render(styled, allow_pad=False)
    ctx.nontrivial()
    ctx.label(kind)
    if kind == 'truncate' and styled[0] in ('seq', 'map'):
        # a container without its closing bracket
        cut = source.rstrip()[:-1]
    elif kind == 'trailing' and styled[0] in ('seq', 'map'):
        cut = source + 'x]}'[number % 3]
    elif kind == 'quote':
        cut = '"\'"'[number % 3] + 'some text'
    elif kind == 'escape':
        cut = 'text' + '\\'
    else:
        ctx.reject()
    try:
        got = marsh.parse.element(cut)
    except marsh.parse.ParseError:
        return
    ctx.fail(f'element({cut!r}) = {got!r}, expected a parse error')


_GRAMMAR = st.text(alphabet='{}[](),:"\'\\ ab01.=+@~-e\n', max_size=16)
_TOKENS = st.lists(
    st.sampled_from(
        ['{', '}', '[', ']', '(', ')', ',', ':', '"', "'", '\\', ' ', 'a', 'b', '1', '2.5', 'true', 'null',
         '=', '+', '@', '~', '+=', '+@', 'a.b', '{a:1}', '[1,2]', '"q"', "'r'", '\n'],
    ),
    max_size=12,
).map(''.join)


@st.composite
def _mutated(draw):
    source = text.render(draw(text.styled_elements(max_leaves=5)))
    for _ in range(draw(st.integers(0, 2))):
        if not source:
            break
        at = draw(st.integers(0, len(source)))
        kind = draw(st.integers(0, 2))
        if kind == 0:
            source = source[:at] + source[at + 1:]
        elif kind == 1:
            source = source[:at] + draw(st.sampled_from('{}[](),:"\'\\ a1')) + source[at:]
        else:
            source = source[:at]
    return source


_FLOATS = gen.finite_floats

SUBS = [
    Sub('roundtrip', lambda: text.styled_elements(), roundtrip, 8000, 300000),
    Sub('strings', lambda: st.tuples(gen.any_text(), st.sampled_from(['"', "'"])), strings, 1500, 50000),
    Sub(
        'numbers',
        lambda: st.tuples(
            gen.pick(
                st.tuples(st.just('int'), gen.ints),
                st.tuples(st.just('float'), _FLOATS),
                st.tuples(st.just('exp'), _FLOATS),
            ),
            st.sampled_from(['', '[', '{', '(']),
        ).map(lambda c: (*c[0], c[1])),
        numbers, 2000, 60000,
    ),
    Sub('total', lambda: gen.pick(_GRAMMAR, _TOKENS, _mutated(), gen.any_text()), total, 8000, 400000),
    Sub(
        'malformed',
        lambda: st.tuples(
            text.styled_elements(max_leaves=4),
            st.sampled_from(['truncate', 'trailing', 'trailing', 'quote', 'escape']),
            st.integers(0, 2),
        ),
        malformed, 1500, 40000,
    ),
]
