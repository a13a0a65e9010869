"""C19: overrides: text, application and order."""
import marsh
from hypothesis import strategies as st

from vlib import elem, gen, text
from vlib.core import Sub
from vlib.oracle import norm, ref_join, ref_split, same_element

PROPERTY = 'C19'
RULE = (
    'Cases are override texts rendered (own renderer: quoting/escaping of paths, values '
    'and config names) from generated operations, applied one by one to an element and '
    'compared with a reference model of the operation. Non-trivial: the path or value '
    'needs escaping/quoting, or at least two operations touch one path.'
)

PATHS = st.lists(gen.field(), max_size=3)


def _needs_quoting(*texts):
    return any(set(t) & set('+=@~\\\'" ,') for t in texts)


def refused(override, source, element, prefix, ctx):
    """What the operation can not do is reported, with the fields that exist."""
    ctx.label('refused')
    before = repr(element)
    try:
        got = override.apply(element)
    except marsh.errors.PathError as err:
        ctx.check(
            prefix is None or list(ref_split(err.path)) == prefix,
            f'{source!r} applied to {element!r} is refused at {err.path!r}, expected {prefix!r}',
        )
    else:
        ctx.fail(f'{source!r} applied to {element!r} gives {got!r}, expected a path error')
    ctx.check(repr(element) == before, f'{source!r} changed {before} to {element!r}')


def set_value(case, ctx):
    fields, quote, op, styled, element, lead = case
    path = ref_join(fields)
    source = lead + text.override_path(path, quote) + op + text.render(styled)
    value = text.value_of(styled)
    ctx.nontrivial(_needs_quoting(path) or styled[0] != 'scalar')
    ctx.label(op)
    override = marsh.parse.override(source)
    ctx.check(isinstance(override, marsh.parse.SetValue), f'override({source!r}) = {override!r}')
    ctx.check(override.path == path, f'override({source!r}).path = {override.path!r}, expected {path!r}')
    ctx.check(same_element(override.value, value, order=True), f'override({source!r}).value = {override.value!r}')
    ctx.check(override.combine is (op == '+='), f'override({source!r}).combine = {override.combine!r}')
    try:
        expected = elem.override(element, fields, value, op == '+=')
    except elem.Bad as err:
        return refused(override, source, element, err.args[0], ctx)
    except elem.Ambiguous:
        return
    got = override.apply(element)
    ctx.check(same_element(got, expected, order=True), f'{source!r} applied to {element!r} gives {got!r}, expected {expected!r}')


def delete(case, ctx):
    element, steps, extra, quote, lead = case
    styled = elem.walk(element, steps) + extra
    fields = [f for f, _ in styled]
    path = elem.render(styled)
    source = lead + '~' + text.override_path(path, quote)
    if not fields:
        try:
            override = marsh.parse.override(source)
        except marsh.parse.ParseError:
            return
        return refused(override, source, element, [], ctx)
    ctx.nontrivial(_needs_quoting(path) or len(fields) > 1)
    override = marsh.parse.override(source)
    ctx.check(
        isinstance(override, marsh.parse.DeleteValue) and override.path == path,
        f'override({source!r}) = {override!r}',
    )
    try:
        expected = elem.remove(element, fields)
    except elem.Bad as err:
        return refused(override, source, element, err.args[0], ctx)
    except elem.Ambiguous:
        ctx.reject()
    got = override.apply(element)
    ctx.check(same_element(got, expected, order=True), f'{source!r} applied to {element!r} gives {got!r}')


def config_names(case, ctx):
    fields, quote, op, names, style = case
    path = ref_join(fields)
    names_text = text.names(names, style)
    source = text.override_path(path, quote) + op + names_text
    ctx.nontrivial(len(names) > 1 or _needs_quoting(path, *names))
    ctx.label(op, f'{len(names)} names', f'bracket {style[0]!r}')
    override = marsh.parse.override(source)
    ctx.check(isinstance(override, marsh.parse.SetConfig), f'override({source!r}) = {override!r}')
    ctx.check(override.path == path, f'override({source!r}).path = {override.path!r}, expected {path!r}')
    ctx.check(list(override.names) == names, f'override({source!r}).names = {override.names!r}, expected {names!r}')
    ctx.check(override.combine is (op == '+@'), f'override({source!r}).combine = {override.combine!r}')
    got = marsh.parse.config_names(names_text)
    ctx.check(list(got) == names, f'config_names({names_text!r}) = {got!r}, expected {names!r}')


def _flatten(prefix, value):
    if isinstance(value, dict) and value:
        for key, item in value.items():
            yield from _flatten([*prefix, key], item)
    else:
        yield prefix, value


def _styled(value):
    if isinstance(value, dict):
        return ('map', [(k, 1, _styled(v)) for k, v in value.items()], 0, '')
    if isinstance(value, (list, tuple)):
        return ('seq', [_styled(v) for v in value], 0, '')
    return ('scalar', value, 1, '')


def expand(case, ctx):
    """path={a:0,b:1} is the same as path.a=0 path.b=1."""
    fields, mapping, start = case
    value = norm(mapping)
    leaves = list(_flatten(fields, value))
    ctx.nontrivial(len(leaves) > 1)
    start = marsh.MISSING if start is None else start
    whole = f'{text.override_path(ref_join(fields))}={text.render(_styled(value))}'
    at_once = marsh.parse.override(whole).apply(start)
    stepwise = start
    for leaf, item in leaves:
        source = f'{text.override_path(ref_join(leaf))}={text.render(_styled(item))}'
        stepwise = marsh.parse.override(source).apply(stepwise)
    expected = text.value_of(_styled(at_once))
    ctx.check(same_element(text.value_of(_styled(stepwise)), expected), f'{whole!r} gives {at_once!r}, stepwise {stepwise!r}')


def twice(case, ctx):
    """path={a:0,a:1} is the same as path.a=0 path.a=1: the last one wins."""
    fields, entries = case
    ctx.nontrivial(len({k for k, _ in entries}) < len(entries))
    body = ','.join(f'{text.render_key(key, 1)[0]}:{text.render(_styled(norm(value)), ",}")}' for key, value in entries)
    source = f'{text.override_path(ref_join(fields))}={{{body}}}'
    at_once = marsh.parse.override(source).apply({})
    stepwise = {}
    for key, value in entries:
        one = f'{text.override_path(ref_join([*fields, key]))}={text.render(_styled(norm(value)))}'
        stepwise = marsh.parse.override(one).apply(stepwise)
    ctx.check(same_element(at_once, stepwise, order=True), f'{source!r} gives {at_once!r}, stepwise {stepwise!r}')
    ctx.check(
        same_element(at_once, elem.override({}, fields, text.value_of(_styled(dict(entries))))),
        f'{source!r} gives {at_once!r}',
    )


def history(case, ctx):
    element, ops = case
    model = real = element
    applied = set()
    for op, steps, extra, styled, quote in ops:
        fields = [f for f, _ in elem.walk(model, steps)] + [f for f, _ in extra]
        value = text.value_of(styled)
        path = ref_join(fields)
        try:
            if op == '~':
                if not fields:
                    continue
                expected = elem.remove(model, fields)
            else:
                expected = elem.override(model, fields, value, op == '+=')
        except elem.Bad:
            expected = elem.Bad
        except elem.Ambiguous:
            continue
        if op == '~':
            source = '~' + text.override_path(path, quote)
        else:
            source = text.override_path(path, quote) + op + text.render(styled)
        if expected is elem.Bad:
            # nothing happens, later operations are not affected
            refused(marsh.parse.override(source), source, real, None, ctx)
            continue
        got = marsh.parse.override(source).apply(real)
        ctx.check(same_element(got, expected, order=True), f'{source!r} applied to {real!r} gives {got!r}, expected {expected!r}')
        ctx.label(op)
        ctx.nontrivial(path in applied or len(fields) > 1)
        applied.add(path)
        real, model = got, expected
        if not elem.is_map(model) and not elem.is_seq(model):
            break


def rejects(case, ctx):
    source = case
    ctx.nontrivial()
    try:
        got = marsh.parse.override(source)
    except marsh.parse.ParseError:
        return
    ctx.fail(f'override({source!r}) = {got!r}, expected a parse error')


_WORD = st.text(alphabet='abc.xyz019_-[]{}(),: é', min_size=0, max_size=6).map(str.strip)


def _bad_overrides():
    word = st.text(alphabet='abc.xyz019_', min_size=1, max_size=6)
    return gen.pick(
        word,                                                    # no operator
        st.tuples(word, word).map('+'.join),                     # + without = or @
        st.tuples(word, st.sampled_from('=@+'), word).map(lambda t: '~' + ''.join(t)),
        word.map(lambda w: w + '='  + '{a'),
        word.map(lambda w: w + '=' + '[1, 2'),
        word.map(lambda w: w + '="' + w),
        word.map(lambda w: '"' + w + '=1'),
        word.map(lambda w: w + '=[1] ' + w),
        word.map(lambda w: w + '=1\\'),
        st.just(''),
        st.tuples(word, st.sampled_from(['@', '+@']), st.sampled_from(['', '[]', '()', '[ ]'])).map(''.join),
    )


NAMES = st.lists(gen.field(), min_size=1, max_size=3)
NAME_STYLE = st.tuples(
    st.sampled_from(['', '', '[', '(']),
    st.lists(st.integers(0, 3), min_size=1, max_size=3),
    st.sampled_from(['', '', ' ']),
)
LEAD = st.sampled_from(['', '', '', ' ', '\t'])

SUBS = [
    Sub(
        'set_value',
        lambda: st.tuples(
            PATHS, st.integers(0, 3), st.sampled_from(['=', '+=']), text.styled_elements(max_leaves=6),
            gen.containers(max_leaves=5, keys=gen.pick(gen.simple_key(), gen.field())), LEAD,
        ),
        set_value, 5000, 200000,
    ),
    Sub(
        'delete',
        lambda: st.tuples(
            gen.pick(gen.containers(), gen.containers(), gen.elements(max_leaves=4), st.just('???')), elem.picks(3, edges=True),
            gen.pick(st.just([]), st.just([]), elem.extra_fields(1)), st.integers(0, 3), LEAD,
        ),
        delete, 2500, 80000,
    ),
    Sub(
        'config_names',
        lambda: st.tuples(PATHS, st.integers(0, 3), st.sampled_from(['@', '+@']), NAMES, NAME_STYLE),
        config_names, 3000, 100000,
    ),
    Sub(
        'expand',
        lambda: st.tuples(
            PATHS,
            st.dictionaries(gen.field(), gen.elements(max_leaves=5), min_size=1, max_size=4),
            st.sampled_from([None, {}, None]),
        ),
        expand, 2500, 80000,
    ),
    Sub(
        'twice',
        lambda: st.tuples(
            PATHS,
            st.lists(
                st.tuples(st.sampled_from(['a', 'b', 'a.b', '0']), gen.pick(gen.scalars(), gen.elements(max_leaves=3))),
                min_size=2, max_size=4,
            ),
        ),
        twice, 800, 20000,
    ),
    Sub(
        'history',
        lambda: st.tuples(
            gen.containers(keys=gen.pick(gen.simple_key(), gen.field()), max_leaves=5),
            st.lists(
                st.tuples(
                    st.sampled_from(['=', '=', '+=', '~']), elem.picks(3, edges=True),
                    gen.pick(st.just([]), elem.extra_fields(1)),
                    text.styled_elements(max_leaves=4), st.integers(0, 3),
                ),
                min_size=2, max_size=6,
            ),
        ),
        history, 2500, 80000,
    ),
    Sub('rejects', _bad_overrides, rejects, 800, 10000),
]
