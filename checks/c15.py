"""C15: setting and removing values of an element by path."""
import marsh
from hypothesis import strategies as st

from vlib import elem, gen
from vlib.core import Sub
from vlib.oracle import dress, norm, ref_split, same_element

PROPERTY = 'C15'
RULE = (
    'A case is a generated element, a styled path obtained by walking it (plus generated '
    'extra fields) and a value, or a history of set/combine/remove operations on one '
    'element. Oracle: an independent reference model plus the frame laws. Non-trivial: '
    'the path has at least two fields, or the operation combines containers, appends, '
    'creates intermediate maps or is rejected.'
)

VALUES = gen.pick(
    gen.scalars(),
    st.just('???'),
    gen.elements(max_leaves=5),
    st.lists(gen.ints, max_size=3),
    st.dictionaries(gen.field(), gen.scalars(), max_size=3),
)

_LEAVES = gen.pick(gen.scalars(), gen.scalars(), st.just('???'))
ELEMENTS = gen.pick(
    gen.containers(leaves=_LEAVES),
    gen.containers(leaves=_LEAVES),
    gen.elements(leaves=_LEAVES, max_leaves=10),
)


def _error_fields(err):
    return list(ref_split(err.path))


def one_override(element, styled, value, merge, ctx, kinds=('dict', 'same')):
    fields = [f for f, _ in styled]
    path = elem.render(styled)
    try:
        expected, bad = elem.override(element, fields, value, merge), None
    except elem.Bad as err:
        expected, bad = None, err.args[0]
    except elem.Ambiguous:
        ctx.reject()
    element, value = dress(element, kinds), dress(value, kinds)
    what = f'override({element!r}, path={path!r}, value={value!r}, combine={merge})'
    before, value_before = repr(element), repr(value)
    try:
        got = marsh.element.override(element=element, value=value, path=path, combine=merge)
    except marsh.errors.PathError as err:
        ctx.check(bad is not None, f'{what} raised {err!r}')
        ctx.check(_error_fields(err) == bad, f'{what} failed with path {err.path!r}, expected {bad!r}')
        ctx.label('rejected')
        ctx.nontrivial()
        got = None
    else:
        ctx.check(bad is None, f'{what} = {got!r}, expected an error')
        ctx.check(same_element(got, expected, order=True), f'{what} = {got!r}, expected {expected!r}')
        if not merge or not isinstance(norm(value), (dict, tuple)):
            # what was set can be read back
            sub = marsh.element.select(got, path)
            ctx.check(same_element(sub, value), f'{what}: reading back gives {sub!r}')
    ctx.check(repr(element) == before, f'{what} changed its input to {element!r}')
    ctx.check(repr(value) == value_before, f'{what} changed the value to {value!r}')
    ctx.nontrivial(len(fields) > 1)
    return expected


def override(case, ctx):
    element, steps, extra, value, merge, kinds = case
    one_override(element, elem.walk(element, steps) + extra, value, merge, ctx, kinds)


def combine(case, ctx):
    element, styled, old, new, kinds = case
    # put a container at the end of a path, then combine into it
    prepared = one_override(element, styled, old, False, ctx)
    if prepared is None:
        ctx.reject()
    ctx.nontrivial(bool(styled))
    ctx.label(f'{type(old).__name__}+{type(new).__name__}')
    merged = one_override(prepared, styled, new, True, ctx, kinds)
    if merged is None:
        ctx.reject()


def remove(case, ctx):
    element, steps, extra, kinds = case
    styled = elem.walk(element, steps) + extra
    fields = [f for f, _ in styled]
    if not fields or not (elem.is_map(element) or elem.is_seq(element)):
        ctx.reject()
    path = elem.render(styled)
    try:
        expected, bad = elem.remove(element, fields), None
    except elem.Bad as err:
        expected, bad = None, err.args[0]
    except elem.Ambiguous:
        ctx.reject()
    element = dress(element, kinds)
    before = repr(element)
    what = f'remove({element!r}, {path!r})'
    try:
        got = marsh.element.remove(element, path)
    except marsh.errors.PathError as err:
        ctx.check(bad is not None, f'{what} raised {err!r}')
        ctx.check(_error_fields(err) == bad, f'{what} failed with path {err.path!r}, expected {bad!r}')
        ctx.label('rejected')
        ctx.nontrivial()
    else:
        ctx.check(bad is None, f'{what} = {got!r}, expected an error')
        ctx.check(same_element(got, expected, order=True), f'{what} = {got!r}, expected {expected!r}')
        ctx.label('removed')
    ctx.check(repr(element) == before, f'{what} changed its input to {element!r}')
    ctx.nontrivial(len(fields) > 1)


def history(case, ctx):
    element, ops, kinds = case
    real = dress(element, kinds)
    model = element
    for op, steps, extra, value in ops:
        styled = elem.walk(model, steps) + extra
        fields = [f for f, _ in styled]
        path = elem.render(styled)
        before = repr(real)
        try:
            if op == 'remove':
                if not fields or not (elem.is_map(model) or elem.is_seq(model)):
                    continue
                expected = elem.remove(model, fields)
            else:
                expected = elem.override(model, fields, value, op == 'combine')
        except elem.Bad:
            expected = None
        except elem.Ambiguous:
            continue
        try:
            if op == 'remove':
                result = marsh.element.remove(real, path)
            else:
                result = marsh.element.override(real, value, path, combine=op == 'combine')
        except marsh.errors.PathError as err:
            ctx.check(expected is None, f'{op} {path!r} on {real!r} raised {err!r}')
        else:
            ctx.check(
                expected is not None or value is None and result is None,
                f'{op} {path!r} on {real!r} gave {result!r} instead of an error',
            )
            ctx.check(same_element(result, expected, order=True), f'{op} {path!r}, {value!r} on {real!r} = {result!r}')
            ctx.label(op)
            ctx.check(repr(real) == before, f'{op} {path!r} changed its input')
            real, model = result, expected
            ctx.nontrivial(len(fields) > 1)


def root_dot(case, ctx):
    element, value, path, merge = case
    ctx.nontrivial()
    got = marsh.element.override(element, value, path, combine=merge)
    expected = elem.override(element, [], value, merge)
    ctx.check(same_element(got, expected, order=True), f'override({element!r}, {value!r}, {path!r}, {merge}) = {got!r}')


EXTRA = gen.pick(st.just([]), elem.extra_fields(), elem.extra_fields(1))
FIELDS = st.lists(st.tuples(gen.field(), elem.STYLES), max_size=3)
PAIRS = gen.pick(
    st.tuples(*[st.dictionaries(st.sampled_from(['a', 'b', 'c', 'a.b']), gen.elements(max_leaves=3), max_size=3)] * 2),
    st.tuples(*[gen.pick(st.lists(gen.scalars(), max_size=3), st.lists(gen.scalars(), max_size=3).map(tuple))] * 2),
    st.tuples(gen.elements(max_leaves=3), gen.elements(max_leaves=3)),
)

SUBS = [
    Sub(
        'override',
        lambda: st.tuples(ELEMENTS, elem.picks(edges=True), EXTRA, VALUES, st.booleans(), gen.dresses()),
        override, 6000, 250000,
    ),
    Sub(
        'combine',
        lambda: st.tuples(
            st.dictionaries(gen.field(), gen.elements(max_leaves=3), max_size=3), FIELDS, PAIRS, gen.dresses(),
        ).map(lambda c: (c[0], c[1], *c[2], c[3])),
        combine, 4000, 150000,
    ),
    Sub('remove', lambda: st.tuples(ELEMENTS, elem.picks(edges=True), EXTRA, gen.dresses()), remove, 5000, 200000),
    Sub(
        'history',
        lambda: st.tuples(
            ELEMENTS,
            st.lists(
                st.tuples(
                    st.sampled_from(['set', 'set', 'combine', 'remove']), elem.picks(3, edges=True), EXTRA, VALUES,
                ),
                min_size=2,
                max_size=6,
            ),
            gen.dresses(),
        ),
        history, 2500, 100000,
    ),
    Sub(
        'root',
        lambda: st.tuples(ELEMENTS, VALUES, st.sampled_from(['', '.']), st.booleans()),
        root_dot, 500, 5000,
    ),
]
