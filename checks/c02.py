"""C02: unmarshaling accepts exactly the fitting elements and gives the described value."""
import typing

import marsh
from hypothesis import strategies as st

from vlib import containers, gen
from vlib import types as t
from vlib.core import Sub
from vlib.oracle import dress

PROPERTY = 'C02'
RULE = (
    'Cases are a generated type and an element which fits, almost fits (one or two places '
    'replaced, removed, added or marked as missing) or is arbitrary; an independent '
    'reference decides acceptance and gives the expected value. Non-trivial: the type has '
    'at least two different kinds of nodes.'
)


def conform(case, ctx):
    (spec, element), kinds = case
    model = t.Model(spec)
    # the order of the keys of a typed dict is not specified
    with t.ordered('typeddict' not in model.kinds()):
        decide(model, element, kinds, ctx)


def decide(model, element, kinds, ctx):
    try:
        expected = model.ref(element)
    except t.Unspecified:
        ctx.reject()
    if 'any' not in model.kinds():
        # (what is typed as Any is passed on as it is)
        element = dress(element, kinds)
    ctx.label(expected[0], *(f'type {k}' for k in model.kinds()))
    ctx.nontrivial(len(model.kinds()) > 1)
    snapshot = repr(element)
    try:
        got = marsh.unmarshal(model.type, element)
    except marsh.errors.MarshError as err:
        ctx.check(
            expected[0] == 'bad',
            f'{model.type} rejects {element!r}: {err!r}\nexpected {expected[1]!r}',
        )
        return
    ctx.check(repr(element) == snapshot, f'unmarshaling changed {snapshot} to {element!r}')
    form = model.neutral(got)
    ctx.check(expected[0] == 'ok', f'{model.type} accepts {element!r} as {got!r}, errors expected at {expected[1]!r}')
    ctx.check(form == expected[1], f'{model.type} from {element!r} is {got!r}: {form!r}\nexpected {expected[1]!r}')


def _asterisk_key():
    type_ = typing.TypedDict('Star', {'*': int})
    try:
        return marsh.unmarshal(type_, {'*': 1}) != {'*': 1}
    except marsh.errors.MarshError:
        return True


FINDINGS = [
    (
        "TypedDict('Star', {'*': int}) rejects {'*': 1}: keys of typed dicts with leading asterisks "
        'are mistaken for variable arguments',
        _asterisk_key,
    ),
]

SLOTS = gen.pick(
    t.LEAVES, st.builds(lambda s: ('opt', s), t.SCALARS), st.builds(lambda s: ('list', s, True), t.SCALARS),
    st.just(('list', None, True)), t.structs(t.SCALARS, ('dataclass', 'namedtuple')),
)
# places of fixed size of which some need no value
FIXED = gen.pick(
    st.lists(SLOTS, min_size=1, max_size=4).map(lambda slots: ('tuple', slots, True)),
    st.lists(SLOTS, min_size=1, max_size=4).map(lambda slots: ('list', ('tuple', slots, True), True)),
    t.structs(SLOTS, ('dataclass', 'namedtuple', 'class')),
)


@st.composite
def sized(draw):
    """Sequences with more or less items than there are places."""
    spec = draw(FIXED)
    element = draw(t.valid(spec))

    def cut(value):
        if isinstance(value, dict):
            value = tuple(value.values()) if draw(st.booleans()) else value
        if not isinstance(value, (list, tuple)):
            return value
        size = draw(st.integers(0, len(value) + 1))
        return type(value)([*value, None][:size])
    if spec[0] == 'list' and isinstance(element, (list, tuple)):
        element = type(element)(map(cut, element))
    else:
        element = cut(element)
    return spec, element


SUBS = [
    Sub('sized', lambda: st.tuples(sized(), gen.dresses()), conform, 2000, 60000),
    Sub('conform', lambda: st.tuples(t.typed_elements(t.specs(2)), gen.dresses()), conform, 4000, 150000),
    Sub('nested', lambda: st.tuples(t.typed_elements(t.specs(3)), gen.dresses()), conform, 1200, 60000),
    Sub('containers', lambda: st.tuples(t.typed_elements(containers.specs()), gen.dresses()), conform, 2500, 80000),
]
