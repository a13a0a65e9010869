"""C14: selecting sub-elements by path."""
import marsh
from hypothesis import strategies as st

from vlib import elem, gen
from vlib.core import Sub
from vlib.oracle import dress, ref_split, same_element

PROPERTY = 'C14'
RULE = (
    'A case is a generated nested element (dicts, lists, tuples, scalars; keys rich in '
    'delimiters/quotes) with a path made by walking it, each field rendered with its own '
    'escape/quote style and index sign, optionally extended by generated fields that may '
    'not exist. Non-trivial: the path has at least two fields, or is invalid.'
)


def _call(path, element):
    try:
        return list(marsh.element.iterative_select(element, path)), None
    except marsh.errors.PathError as err:
        return None, err


def select(case, ctx):
    element, steps, extra, kinds = case
    styled = elem.walk(element, steps) + extra
    fields = [f for f, _ in styled]
    path = elem.render(styled)
    try:
        expected = elem.select_all(element, fields)
        bad = None
    except elem.Bad as err:
        expected, bad = None, err.args[0]
    except elem.Ambiguous:
        ctx.reject()
    ctx.nontrivial(len(fields) > 1 or bad is not None)
    element = dress(element, kinds)
    before = repr(element)
    ctx.label('valid' if bad is None else 'invalid', f'{min(len(fields), 4)} fields')
    selections, error = _call(path, element)
    if bad is not None:
        ctx.check(error is not None, f'select({element!r}, {path!r}) accepted an invalid path')
        ctx.check(
            list(ref_split(error.path)) == bad,
            f'select({element!r}, {path!r}) failed with error path {error.path!r}, expected fields {bad!r}',
        )
        try:
            value = marsh.element.select(element, path)
        except marsh.errors.PathError:
            pass
        else:
            ctx.fail(f'select({element!r}, {path!r}) = {value!r} for an invalid path')
    else:
        ctx.check(error is None, f'select({element!r}, {path!r}) raised {error!r}')
        value = marsh.element.select(element, path)
        ctx.check(value is expected[-1] or same_element(value, expected[-1]), f'select({element!r}, {path!r}) = {value!r}')
        ctx.check(
            len(selections) == len(expected),
            f'iterative_select({element!r}, {path!r}) yielded {len(selections)} selections',
        )
        for i, selection in enumerate(selections):
            ctx.check(
                same_element(selection.element, expected[i]),
                f'selection {i} of {path!r} in {element!r} has element {selection.element!r}',
            )
            ctx.check(
                list(ref_split(selection.path)) == fields[:i],
                f'selection {i} of {path!r} in {element!r} has path {selection.path!r}',
            )
            ctx.check(
                list(ref_split(selection.remaining_path)) == fields[i:],
                f'selection {i} of {path!r} in {element!r} has remaining path {selection.remaining_path!r}',
            )
            # a selection is itself selectable: path leads to its element, and its
            # remaining path leads from it to the target
            ctx.check(
                same_element(marsh.element.select(element, selection.path), expected[i])
                and same_element(marsh.element.select(selection.element, selection.remaining_path), expected[-1]),
                f'selection {i} of {path!r} in {element!r} does not select itself',
            )
    ctx.check(repr(element) == before, f'selecting {path!r} changed the element')


def root(case, ctx):
    element, path = case
    ctx.nontrivial()
    value = marsh.element.select(element, path)
    ctx.check(same_element(value, element), f'select({element!r}, {path!r}) = {value!r}')


SUBS = [
    Sub(
        'select',
        lambda: st.tuples(
            gen.pick(gen.containers(), gen.containers(), gen.elements()), elem.picks(edges=True), gen.pick(st.just([]), st.just([]), elem.extra_fields()),
            gen.dresses(),
        ),
        select, 8000, 300000,
    ),
    Sub('root', lambda: st.tuples(gen.elements(max_leaves=4), st.sampled_from(['', '.', '..'])), root, 400, 5000),
]
