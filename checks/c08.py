"""C08: unions, literals and enums take the first member that accepts the element."""
import dataclasses
import enum
import functools
import operator
import typing

import marsh
from hypothesis import strategies as st

from vlib import gen
from vlib import types as t
from vlib.core import Sub

PROPERTY = 'C08'
RULE = (
    'Cases are unions (written as Union, X | Y, Optional, nested or as a constrained type '
    'variable, at the top or inside of containers and fields), literals and enums together '
    'with elements which fit one of the members, several or none. Metamorphic oracle: the '
    'result for each member on its own. Non-trivial: two or more members accept the '
    'element, or the first member does not.'
)


def attempt(type_, element, model):
    """('ok', form) or ('bad', error)."""
    try:
        return 'ok', model.neutral(marsh.unmarshal(type_, element))
    except marsh.errors.MarshError as err:
        return 'bad', err


def _nested(types):
    # flattened by typing, the order is kept
    if len(types) < 3:
        return typing.Union[tuple(types)]
    t.clear_typing_caches()
    return typing.Union[types[0], typing.Union[tuple(types[1:])]]


SPELLINGS = {
    'union': lambda types: typing.Union[tuple(types)],
    'nested': _nested,
    'bar': lambda types: functools.reduce(operator.or_, types),
    'typevar': lambda types: typing.TypeVar('TV', *types) if len(types) > 1 else types[0],
    'bound': lambda types: typing.TypeVar('TV', bound=typing.Union[tuple(types)]),
    'annotated': lambda types: typing.Annotated[typing.Union[tuple(types)], 'note'],
}

PLACES = {
    'top': (lambda u: u, lambda e: e),
    'list': (lambda u: typing.List[u], lambda e: [e]),
    'tuple': (lambda u: typing.Tuple[int, u], lambda e: (1, e)),
    'dict': (lambda u: typing.Dict[str, u], lambda e: {'k': e}),
    'field': (lambda u: typing.NamedTuple('Box', [('field', u)]), lambda e: {'field': e}),
}
INNER = {
    'top': lambda v: v,
    'list': lambda v: v[0],
    'tuple': lambda v: v[1],
    'dict': lambda v: v['k'],
    'field': lambda v: v.field,
}


def union(case, ctx):
    specs, spelling, place, element = case
    model = t.Model(('tuple', specs, True))
    members = model.root.items
    types = []
    for node in members:
        type_ = node.type if node.type is not None else type(None)
        if isinstance(node, t.Union_) or isinstance(node, t.TypeVar_):
            ctx.reject()
        # equal members are dropped by typing
        if not any(type_ == other for other in types):
            types.append(type_)
    if len(types) < 2:
        ctx.reject()
    t.clear_typing_caches()
    try:
        whole = SPELLINGS[spelling](types)
    except TypeError:
        ctx.reject()
    if spelling != 'typevar' and tuple(typing.get_args(getattr(whole, '__bound__', None) or (typing.get_args(whole)[0] if spelling == 'annotated' else whole))) != tuple(types):
        # typing may also reorder or merge
        ctx.reject()
    t.clear_typing_caches()
    wrap, enclose = PLACES[place]
    type_ = wrap(whole)
    alone = [attempt(member, element, model) for member in types]
    accepted = [i for i, (status, _) in enumerate(alone) if status == 'ok']
    ctx.nontrivial(len(accepted) > 1 or (accepted and accepted[0] > 0))
    ctx.label(f'{min(len(accepted), 3)} accept', spelling, place)
    missing = t.is_missing(element)
    expected = alone[accepted[0]] if accepted else None
    if len(types) == 2 and type(None) in types:
        ctx.label('optional')
        status, form = alone[0 if types[1] is type(None) else 1]
        expected = (status, form) if status == 'ok' else None
        if expected is None and (element is None or missing):
            expected = 'ok', t.scalar(None)
    what = f'{type_} ({types!r}) from {enclose(element)!r}'
    try:
        value = marsh.unmarshal(type_, enclose(element))
    except marsh.errors.MarshError as err:
        ctx.check(expected is None, f'{what}: {err!r}, but {types[accepted[0]] if accepted else None} accepts the element')
        ctx.check(isinstance(err, marsh.errors.UnmarshalError), f'{what}: {err!r}')
        return
    got = model.neutral(INNER[place](value))
    ctx.check(expected is not None, f'{what}: {got!r}, but every member rejects the element')
    ctx.check(got == expected[1], f'{what}: {got!r}, but the first member that accepts it gives {expected[1]!r}')


class Color(enum.Enum):
    RED = 1
    green = 'RED'
    blue = 'a'


class Level(enum.IntEnum):
    low = 1
    high = 10


MEMBERS = {(type(m).__name__, m.name): m for m in (*Color, *Level)}
_LITERALS = st.sampled_from([
    0, 1, 2, True, False, 'a', '1', 'RED', 'true', 'low', '', 'é', None, b'ab', b'', *MEMBERS, 'YWI=', -1, 10**20,
])
_LITERAL_ELEMENTS = gen.pick(
    _LITERALS.map(lambda v: v[1] if isinstance(v, tuple) else 'YWI=' if isinstance(v, bytes) else v),
    _LITERALS.map(lambda v: str(MEMBERS[v].value) if isinstance(v, tuple) else str(v) if not isinstance(v, bytes) else 'YWI='),
    st.sampled_from([1.0, 0.0, 'True', 'YES', 'no', '1.0', ' 1', t.MISSING, [], {}, 'A', '1e20', 1e20]),
    t.MESSY,
)


def _exact(value):
    if isinstance(value, enum.Enum):
        return ('enum', type(value).__name__, value.name)
    return t.scalar(value)


def literal(case, ctx):
    """The first literal whose value the element gives for the type of the literal."""
    values, element, place = case
    values = [MEMBERS[value] if isinstance(value, tuple) else value for value in values]
    t.clear_typing_caches()
    type_ = typing.Literal[tuple(values)]
    values = typing.get_args(type_)
    wrap, enclose = PLACES[place]
    accepted = []
    for value in values:
        try:
            got = marsh.unmarshal(type(value), element)
        except marsh.errors.MarshError:
            continue
        if type(got) is type(value) and got == value:
            accepted.append(value)
        # and the literal alone agrees with the type alone
    for value in values:
        t.clear_typing_caches()
        try:
            single = marsh.unmarshal(typing.Literal[value], element)
        except marsh.errors.MarshError:
            ctx.check(
                not any(_exact(value) == _exact(v) for v in accepted),
                f'Literal[{value!r}] rejects {element!r}, but it is the value for {type(value)}',
            )
        else:
            ctx.check(
                _exact(single) == _exact(value) and any(_exact(value) == _exact(v) for v in accepted),
                f'Literal[{value!r}] from {element!r} is {single!r}',
            )
    ctx.nontrivial(len(accepted) > 1 or (accepted and accepted[0] is not values[0]))
    ctx.label(f'{min(len(accepted), 2)} accept', place, *(type(v).__name__ for v in accepted[:1]))
    what = f'{type_} from {element!r} ({place})'
    full = wrap(type_)
    try:
        got = INNER[place](marsh.unmarshal(full, enclose(element)))
    except marsh.errors.MarshError as err:
        ctx.check(not accepted, f'{what}: {err!r}, expected {accepted[:1]!r}')
        ctx.check(isinstance(err, marsh.errors.UnmarshalError), f'{what}: {err!r}')
        return
    ctx.check(bool(accepted), f'{what}: {got!r}, but no literal matches')
    ctx.check(_exact(got) == _exact(accepted[0]), f'{what}: {got!r}, expected {accepted[0]!r}')


def enums(case, ctx):
    """Members are tried in the order of their definition, by name, then by value."""
    spec, element = case
    model = t.Model(spec)
    members = model.root.members
    ctx.nontrivial(len(members) > 1)
    try:
        status, expected = model.ref(element)
    except t.Unspecified:
        ctx.reject()
    ctx.label(status, spec[1])
    try:
        got = marsh.unmarshal(model.type, element)
    except marsh.errors.MarshError as err:
        ctx.check(status == 'bad', f'{list(model.type)} from {element!r}: {err!r}, expected {expected!r}')
        return
    ctx.check(
        status == 'ok' and got is model.type[expected[2]],
        f'{list(model.type)} from {element!r}: {got!r}, expected {expected!r}',
    )


@st.composite
def _unions(draw):
    leaf = gen.pick(t.LEAVES, t.SCALARS, t.SCALARS)
    member = gen.pick(
        leaf, leaf, leaf,
        st.tuples(st.sampled_from(['list', 'vtuple', 'set', 'seq']), t.SCALARS, st.just(True)),
        st.tuples(st.sampled_from(['dict', 'map', 'ddict']), st.just(('str',)), t.SCALARS, st.just(True)),
        t.structs(leaf), t.specs(1),
    )
    members = draw(st.lists(member, min_size=2, max_size=4))
    if draw(st.integers(0, 3)) == 0:
        members[draw(st.integers(0, len(members) - 1))] = ('none',)
    element = draw(gen.pick(
        t.valid(draw(st.sampled_from(members))), t.valid(draw(st.sampled_from(members))),
        t.MESSY, st.sampled_from([None, t.MISSING, '1', 1, True, '0', [], {}, ['1'], {'a': '1'}, 'true']),
    ))
    return members, draw(st.sampled_from(sorted(SPELLINGS))), draw(st.sampled_from(['top', 'top', *sorted(PLACES)])), element


class Strange(Exception):
    """An error that marsh knows nothing about."""

    def __str__(self):
        raise ValueError('no text')


ERRORS = {
    'ValueError': ValueError, 'TypeError': TypeError, 'KeyError': KeyError, 'RuntimeError': RuntimeError,
    'StopIteration': StopIteration, 'OSError': OSError, 'AssertionError': AssertionError, 'own': type('Own', (Exception,), {}),
    'attribute': AttributeError, 'arithmetic': ZeroDivisionError, 'marsh': marsh.errors.MarshError,
    'missing': marsh.errors.MissingValueError, 'path': marsh.errors.PathError, 'strange': Strange,
}


def _raising(index, kind, inner, values, error):
    """A type which is made from `inner` and does not take some values."""
    error = ERRORS[error]

    def check(value):
        if value in values:
            raise error('no')
        return value
    name = f'Member{index}'
    if kind == 'init':
        def __init__(self, x: inner):
            self.x = check(x)
        return type(name, (), {'__init__': __init__})
    if kind == 'new':
        def __new__(cls, x: inner):
            self = object.__new__(cls)
            self.x = check(x)
            return self
        return type(name, (), {'__new__': __new__})
    if kind == 'post':
        return dataclasses.make_dataclass(name, [('x', inner)], namespace={'__post_init__': lambda self: check(self.x) and None})
    if kind == 'factory':
        # the default is used for elements without the field
        return dataclasses.make_dataclass(name, [('x', inner, dataclasses.field(default_factory=lambda: check(values[0])))], namespace={'__post_init__': lambda self: check(self.x) and None})
    if kind == 'annotation':
        class Note(marsh.annotation.Annotation):
            def __call__(self, value):
                return check(value['x']) and value or value
        return typing.Annotated[typing.Dict[str, inner], Note]
    if kind == 'pre':
        class Pre(marsh.annotation.PreAnnotation):
            def __call__(self, element):
                return check(element['x']) and element or element
        return typing.Annotated[typing.Dict[str, inner], Pre]
    # container: the items are given to the constructor at once
    class Items(dict):
        def __init__(self, *args):
            super().__init__(*args)
            check(self['x'])
    Items.__name__ = name
    return Items


RAISING = ('init', 'new', 'post', 'factory', 'annotation', 'pre', 'container')


def _shape(value):
    """Type and content of a value of one of the members."""
    if isinstance(value, dict):
        return type(value), {k: (type(v), v) for k, v in value.items()}
    if hasattr(value, 'x'):
        return type(value), type(value.x), value.x
    return type(value), value


def raising(case, ctx):
    """Members that raise whatever error are members that do not accept the element."""
    members, optional, place, element = case
    types = [
        _raising(i, kind, {'int': int, 'str': str, 'float': float}[inner], values, error)
        for i, (kind, inner, values, error) in enumerate(members)
    ]
    if optional is not None:
        types.insert(min(optional, len(types)), type(None))
    alone = []
    for type_ in types:
        try:
            alone.append(('ok', _shape(marsh.unmarshal(type_, element))))
        except Exception as err:
            alone.append(('bad', err))
    accepted = [shape for status, shape in alone if status == 'ok']
    ctx.label(f'{min(len(accepted), 3)} accept', place, *(kind for kind, *_ in members))
    if any(status == 'bad' and not isinstance(err, marsh.errors.MarshError) for status, err in alone):
        ctx.label('foreign error')
        ctx.nontrivial(bool(accepted))
    expected = accepted[:1]
    missing = t.is_missing(element)
    if len(types) == 2 and optional is not None:
        status, shape = alone[1 if types[0] is type(None) else 0]
        expected = [shape] if status == 'ok' else []
        if not expected and (element is None or missing):
            expected = [_shape(None)]
    wrap, enclose = PLACES[place]
    t.clear_typing_caches()
    type_ = wrap(typing.Union[tuple(types)])
    try:
        value = marsh.unmarshal(type_, enclose(element))
    except Exception as err:
        ctx.check(not expected, f'{members} {element!r}: {type(err)}, but a member accepts the element: {expected}')
        return
    shape = _shape(INNER[place](value))
    ctx.check(expected and shape == expected[0], f'{members} {element!r}: {shape}, expected {expected}')


@st.composite
def raising_cases(draw):
    # converted these are often the same
    value = st.sampled_from([0, 1, '1', 'a', 1.0, 0.5, '0', 'b', '0.5'])
    members = []
    for _ in range(draw(st.integers(1, 3))):
        values = draw(st.lists(value, min_size=1, max_size=4))
        inner = draw(st.sampled_from(['int', 'str', 'float']))
        convert = {'int': int, 'str': str, 'float': float}[inner]
        for v in list(values):
            try:
                values.append(convert(v))
            except ValueError:
                pass
        members.append((draw(st.sampled_from(RAISING)), inner, values, draw(st.sampled_from(sorted(ERRORS)))))
    given = draw(gen.pick(st.sampled_from(members[0][2]), st.sampled_from(members[-1][2]), value))
    element = draw(gen.pick(
        st.just({'x': given}), st.just({'x': given}), st.just({'x': given}), st.just([given]), st.just(given),
        st.sampled_from([None, t.MISSING, {}, [], {'y': 1}, {'x': 1, 'y': 2}]),
    ))
    return members, draw(st.sampled_from([None, None, 0, 1, 3])), draw(st.sampled_from(['top', 'top', *sorted(PLACES)])), element


_ENUM_ELEMENTS = gen.pick(
    st.sampled_from(['A', 'B', 'C', 'D', 'one', 'true_', 'a', '1', 1, 0, True, 'true', 'x.y', 0.5, '0.5', 1.0, None, t.MISSING, [], 'None']),
    t.MESSY,
)

SUBS = [
    Sub('union', _unions, union, 3000, 100000),
    Sub('literal', lambda: st.tuples(
        gen.pick(
            st.lists(_LITERALS, min_size=1, max_size=4),
            # these compare equal, or are given by the same elements
            st.lists(st.sampled_from([0, 1, True, False, '1', '0', 'true', 'yes']), min_size=2, max_size=4),
        ),
        gen.pick(_LITERAL_ELEMENTS, st.sampled_from(['true', 'no', 'yes', 'on', True, False, 1, 0, '1', '0', 'off'])),
        st.sampled_from(['top', 'top', *sorted(PLACES)])), literal, 1500, 50000),
    Sub('raising', raising_cases, raising, 1500, 50000),
    Sub('enum', lambda: t._enums().flatmap(lambda s: st.tuples(st.just(s), gen.pick(t.valid(s), _ENUM_ELEMENTS))), enums, 1000, 30000),
]
