"""C16: merging elements."""
import marsh
from hypothesis import strategies as st

from vlib import elem, gen
from vlib.core import Sub
from vlib.oracle import dress, same_element

PROPERTY = 'C16'
RULE = (
    'A case is 1..4 generated elements which share keys (so that they overlap at several '
    'depths), with missing values in some positions, and the concatenate flag. Oracle: '
    'independent left fold of a two-element reference merge. Non-trivial: at least two '
    'elements share a key that holds a container or a missing value in one of them.'
)

KEYS = gen.pick(st.sampled_from(['a', 'b', 'c']), st.sampled_from(['a', 'b']), gen.field(3))
LEAVES = gen.pick(gen.scalars(), st.just('???'), st.just(None))
_ITEM = gen.pick(
    LEAVES,
    st.lists(LEAVES, max_size=3),
    st.dictionaries(st.sampled_from(['a', 'b', 'c']), gen.pick(LEAVES, st.lists(LEAVES, max_size=2)), max_size=3),
)
_TREE = st.dictionaries(
    st.sampled_from(['a', 'b', 'c']),
    gen.pick(_ITEM, st.dictionaries(st.sampled_from(['a', 'b']), _ITEM, min_size=1, max_size=2)),
    min_size=2,
    max_size=3,
)
ELEMENTS = gen.pick(
    _TREE,
    _TREE,
    _TREE,
    gen.containers(keys=KEYS, leaves=LEAVES, max_leaves=6),
    st.dictionaries(
        KEYS,
        gen.pick(
            LEAVES,
            gen.containers(keys=KEYS, leaves=LEAVES, max_leaves=5, min_size=0),
            st.lists(LEAVES, max_size=3),
            st.lists(LEAVES, max_size=3).map(tuple),
        ),
        max_size=4,
    ),
    st.lists(LEAVES, max_size=3),
    LEAVES,
)


def _overlap(a, b):
    if not (isinstance(a, dict) and isinstance(b, dict)):
        return False
    for key in a:
        if key in b:
            pair = (a[key], b[key])
            if any(isinstance(v, (dict, list, tuple)) or (isinstance(v, str) and v == '???') for v in pair):
                return True
    return False


def merge(case, ctx):
    elements, concatenate, kinds = case
    expected = elem.merge(elements, concatenate)
    ctx.nontrivial(any(_overlap(a, b) for a in elements for b in elements if a is not b))
    elements = [dress(e, k) for e, k in zip(elements, kinds)]
    before = [repr(e) for e in elements]
    got = marsh.element.merge(*elements, concatenate=concatenate)
    what = f'merge(*{elements!r}, concatenate={concatenate})'
    ctx.label(f'{len(elements)} elements')
    ctx.check(same_element(got, expected), f'{what} = {got!r}, expected {expected!r}')
    ctx.check([repr(e) for e in elements] == before, f'{what} changed an input: {elements!r}')
    if not concatenate:
        ctx.check(
            same_element(marsh.element.merge(*elements), expected),
            f'{what}: concatenation is not off by default',
        )
    # left fold: merging in two steps is the same
    if len(elements) > 2:
        step = marsh.element.merge(
            marsh.element.merge(*elements[:2], concatenate=concatenate),
            *elements[2:],
            concatenate=concatenate,
        )
        ctx.check(same_element(step, got), f'{what} differs from merging stepwise: {step!r}')


def laws(case, ctx):
    element, concatenate = case
    ctx.nontrivial(isinstance(element, (dict, list, tuple)))
    before = repr(element)
    for other in ([element, '???'], ['???', element], [element, marsh.MISSING]):
        got = marsh.element.merge(*other, concatenate=concatenate)
        ctx.check(same_element(got, element), f'merge(*{other!r}, concatenate={concatenate}) = {got!r}')
    got = marsh.element.merge(element, concatenate=concatenate)
    ctx.check(same_element(got, element), f'merge({element!r}) = {got!r}')
    if isinstance(element, dict):
        for other in ([element, {}], [{}, element]):
            got = marsh.element.merge(*other, concatenate=concatenate)
            ctx.check(same_element(got, element), f'merge(*{other!r}) = {got!r}')
    if not concatenate:
        got = marsh.element.merge(element, element)
        ctx.check(same_element(got, element), f'merging {element!r} with itself gives {got!r}')
    ctx.check(repr(element) == before, 'input changed')


SUBS = [
    Sub(
        'merge',
        lambda: st.tuples(
            gen.pick(*[st.lists(ELEMENTS, min_size=2, max_size=4)] * 5, st.lists(ELEMENTS, min_size=1, max_size=1)),
            st.booleans(),
            st.lists(gen.dresses(), min_size=4, max_size=4),
        ),
        merge, 8000, 300000,
    ),
    Sub('laws', lambda: st.tuples(ELEMENTS, st.booleans()), laws, 1500, 50000),
]
