"""C03: marshaling gives plain JSON-like data with the documented content."""
import collections
import decimal
import enum
import pathlib
import types

import marsh
import omegaconf
from hypothesis import strategies as st

from vlib import containers, gen
from vlib import types as t
from vlib.core import Sub
from vlib.oracle import norm, same

PROPERTY = 'C03'
RULE = (
    'Cases are values of generated types (sub-check typed) and arbitrary nestings of '
    'builtin, collections and user defined containers, iterables, primitive subclasses and '
    'objects without a schema (sub-checks duck and unsupported). Non-trivial: the value '
    'holds a container.'
)


def plain(element, ctx, where='.'):
    """Only plain dicts with text keys, lists/tuples and exact primitives."""
    if type(element) is dict:
        for key, value in element.items():
            ctx.check(type(key) is str, f'key {key!r} at {where} is no str but {type(key)}')
            plain(value, ctx, f'{where}.{key}')
    elif type(element) in (list, tuple):
        for i, value in enumerate(element):
            plain(value, ctx, f'{where}.{i}')
    else:
        ctx.check(
            type(element) in (bool, int, float, str, type(None)),
            f'{element!r} at {where} of the marshaled element is a {type(element)}',
        )


def mutables(value, seen=None):
    """Ids of all mutable builtin containers within a value."""
    seen = {} if seen is None else seen
    if id(value) in seen:
        return seen
    if isinstance(value, (list, dict, set, collections.deque)):
        seen[id(value)] = value
    if isinstance(value, (dict, types.MappingProxyType)):
        for item in value.values():
            mutables(item, seen)
    elif isinstance(value, (list, tuple, set, collections.deque)):
        for item in value:
            mutables(item, seen)
    elif hasattr(value, '__dict__') and not isinstance(value, (type, enum.Enum)):
        mutables(vars(value), seen)
    return seen


def decide(value, expected, ctx):
    before = repr(value)
    element = marsh.marshal(value)
    plain(element, ctx)
    ctx.check(
        same(norm(element), norm(expected), order=True),
        f'{value!r} was marshaled to {element!r}, expected {expected!r}',
    )
    ctx.check(repr(value) == before, f'marshaling changed the value {before} to {value!r}')
    again = marsh.marshal(element)
    ctx.check(same(norm(again), norm(element)), f'the marshaled element {element!r} was marshaled to {again!r}')
    shared = set(mutables(element)) & set(mutables(value))
    ctx.check(not shared, f'{value!r} and its marshaled element share mutable containers')
    ctx.nontrivial(isinstance(expected, (dict, tuple)))


def typed(case, ctx):
    spec, element = case
    model = t.Model(spec)
    try:
        status, form = model.ref(element)
        if status != 'ok':
            ctx.reject()
        value = model.realize(form)
        expected = t.marshaled_value(value, model.registry)
    except t.Unspecified:
        ctx.reject()
    ctx.label(*(f'type {k}' for k in model.kinds()))
    decide(value, expected, ctx)


# arbitrary values: recipes (kind, ...) -> (value, expected element)

class MyInt(int):
    def __str__(self):
        return 'my int'

    def __int__(self):
        return int.__int__(self)


class MyStr(str):
    def __str__(self):
        return 'my str'

    def __repr__(self):
        return 'MyStr()'


class MyFloat(float):
    pass


class MyList(list):
    pass


class MyDict(dict):
    pass


class Iter:
    """Iterable without length."""

    def __init__(self, values):
        self.items = list(values)

    def __iter__(self):
        return iter(self.items)


class DuckSequence:

    def __init__(self, values):
        self.items = list(values)

    def __contains__(self, item):
        return item in self.items

    def __getitem__(self, index):
        return self.items[index]

    def __len__(self):
        return len(self.items)

    def __iter__(self):
        return iter(self.items)


class DuckMapping:

    def __init__(self, values):
        self.entries = dict(values)

    def __contains__(self, key):
        return key in self.entries

    def __getitem__(self, key):
        return self.entries[key]

    def __len__(self):
        return len(self.entries)

    def __iter__(self):
        return iter(self.entries)

    def get(self, key, default=None):
        return self.entries.get(key, default)

    def keys(self):
        return self.entries.keys()

    def values(self):
        return self.entries.values()

    def items(self):
        return self.entries.items()


class ArraySequence(DuckSequence):
    """Compares like arrays do."""
    __hash__ = None

    def __eq__(self, other):
        return ArraySequence([other, other])

    def __bool__(self):
        raise ValueError('the truth value is ambiguous')


class FrameMapping(DuckMapping):
    __hash__ = None

    def __eq__(self, other):
        raise ValueError('can not be compared')

    def __bool__(self):
        raise ValueError('the truth value is ambiguous')


class EqualSequence(DuckSequence):
    """Is equal to everything."""

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1


class EqualMapping(DuckMapping):

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1


class Color(enum.Enum):
    RED = 1
    BLUE = 'b'


class Level(enum.IntEnum):
    LOW = 1
    HIGH = 10


class Text(str, enum.Enum):
    A = 'x'
    B = 'A'


SEQUENCES = {
    'list': list, 'tuple': tuple, 'deque': collections.deque, 'mylist': MyList, 'userlist': collections.UserList,
    'iter': Iter, 'duck': DuckSequence, 'array': ArraySequence, 'equal': EqualSequence,
}
MAPPINGS = {
    'dict': dict, 'ordered': collections.OrderedDict, 'proxy': types.MappingProxyType, 'mydict': MyDict,
    'userdict': collections.UserDict, 'duck': DuckMapping, 'frame': FrameMapping, 'equal': EqualMapping,
    'default': lambda values: collections.defaultdict(list, values),
    'chain': lambda values: collections.ChainMap({}, dict(values)),
}
ENUMS = {'Color': Color, 'Level': Level, 'Text': Text}
PRIMITIVES = {'int': MyInt, 'str': MyStr, 'float': MyFloat}


class Opaque:
    """Nothing is known about it."""


class Equal:
    """Is equal to everything."""

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1


class Incomparable:
    __hash__ = None

    def __eq__(self, other):
        raise ValueError('can not be compared')


OPAQUE = {
    'object': Opaque(), 'plain object': object(), 'class': Opaque, 'type': int, 'ellipsis': ..., 'not implemented': NotImplemented,
    'function': lambda: 1, 'method': Opaque().__str__, 'builtin': len, 'module': collections, 'exception': ValueError('a'),
    'namespace': types.SimpleNamespace(a=1), 'decimal': decimal.Decimal('1.5'), 'enum type': Color, 'property': property(), 'equal': Equal(), 'incomparable': Incomparable(),
}


def build(recipe):
    kind, payload, *rest = recipe
    if kind == 'plain':
        return payload, payload
    if kind == 'bytes':
        return payload, t.marshaled_value(payload, {})
    if kind == 'sub':
        return PRIMITIVES[type(payload).__name__](payload), payload
    if kind == 'enum':
        member = ENUMS[payload][rest[0]]
        return member, member.name if payload == 'Color' else member.value
    if kind == 'range':
        return range(payload), tuple(range(payload))
    if kind == 'generator':
        values = [build(item) for item in rest[0]]
        return iter([value for value, _ in values]), tuple(expected for _, expected in values)
    if kind == 'seq':
        values = [build(item) for item in rest[0]]
        return SEQUENCES[payload](value for value, _ in values), tuple(expected for _, expected in values)
    if kind == 'map':
        entries, expected = {}, {}
        for key, item in rest[0]:
            real, text = build(key)
            value, element = build(item)
            entries[real] = value
            expected[str(text)] = element
        if len(entries) != len(expected):
            return {}, {}
        return MAPPINGS[payload](entries), expected
    if kind == 'opaque':
        return OPAQUE[payload], None
    raise ValueError(recipe)


def holds(recipe, kinds):
    if recipe[0] in kinds:
        return True
    if recipe[0] in ('seq', 'generator'):
        return any(holds(item, kinds) for item in recipe[2])
    if recipe[0] == 'map':
        return any(holds(item, kinds) or holds(key, kinds) for key, item in recipe[2])
    return False


def duck(case, ctx):
    value, expected = build(case)
    ctx.label(*sorted({case[0]} | ({f'{case[0]} {case[1]}'} if case[0] in ('seq', 'map') else set())))
    if holds(case, ('generator',)):
        # iterators are consumed, they can only be marshaled once
        ctx.nontrivial()
        element = marsh.marshal(value)
        plain(element, ctx)
        ctx.check(same(norm(element), norm(expected), order=True), f'{case!r} was marshaled to {element!r}, expected {expected!r}')
        return
    decide(value, expected, ctx)


def omega(case, ctx):
    """OmegaConf containers, within plain ones or not, hold the same as the plain ones."""
    recipe, outer, path = case
    value, expected = build(recipe)
    try:
        value = omegaconf.OmegaConf.create(value)
    except Exception:
        ctx.reject()
    if path:
        # supported by OmegaConf, but by no schema
        opaque = value
        while len(opaque) and omegaconf.OmegaConf.is_config(opaque[next(iter(opaque)) if omegaconf.OmegaConf.is_dict(opaque) else 0]):
            opaque = opaque[next(iter(opaque)) if omegaconf.OmegaConf.is_dict(opaque) else 0]
        if omegaconf.OmegaConf.is_list(opaque):
            opaque.append(pathlib.Path('a'))
        else:
            opaque['p'] = pathlib.Path('a')
    if outer:
        value, expected = {'outer': [value]}, {'outer': (expected,)}
    ctx.label('enum' if holds(recipe, ('enum',)) else 'plain', 'bytes' if holds(recipe, ('bytes',)) else 'no bytes')
    if path:
        ctx.label('path')
        ctx.nontrivial()
        try:
            element = marsh.marshal(value)
        except marsh.errors.MarshalError:
            return
        ctx.fail(f'{value!r} was marshaled to {element!r}')
    decide(value, expected, ctx)


def unsupported(case, ctx):
    value, _ = build(case)
    ctx.label(repr(case).partition("'opaque', ")[2].partition(')')[0])
    ctx.nontrivial(case[0] in ('seq', 'map'))
    try:
        element = marsh.marshal(value)
    except marsh.errors.MarshalError:
        return
    ctx.fail(f'{case!r} with an object that can not be marshaled was marshaled to {element!r}')


_PLAIN = st.builds(lambda v: ('plain', v), gen.scalars())
_LEAF = gen.pick(
    _PLAIN, _PLAIN,
    st.builds(lambda v: ('bytes', v), st.binary(max_size=6)),
    st.builds(lambda v: ('sub', v), gen.pick(gen.ints, gen.finite_floats, gen.any_text())),
    st.sampled_from([
        ('enum', 'Color', 'RED'), ('enum', 'Color', 'BLUE'), ('enum', 'Level', 'LOW'), ('enum', 'Level', 'HIGH'),
        ('enum', 'Text', 'A'), ('enum', 'Text', 'B'),
    ]),
    st.builds(lambda n: ('range', n), st.integers(0, 3)),
)
_KEY = gen.pick(
    st.builds(lambda v: ('plain', v), gen.any_text()),
    st.builds(lambda v: ('plain', v), gen.scalars()),
    st.sampled_from([('enum', 'Color', 'RED'), ('enum', 'Level', 'HIGH'), ('enum', 'Text', 'A'), ('bytes', b'ab'), ('sub', 'text')]),
)


_OMEGA_LEAF = gen.pick(
    _PLAIN, st.builds(lambda v: ('bytes', v), st.binary(max_size=6)), st.sampled_from([('enum', 'Color', 'RED'), ('enum', 'Color', 'BLUE')]),
)
_OMEGA_KEY = gen.pick(
    st.builds(lambda v: ('plain', v), gen.any_text()), st.builds(lambda v: ('plain', v), gen.any_text()),
    st.builds(lambda v: ('plain', v), gen.pick(st.integers(-5, 5), st.booleans(), st.sampled_from([0.5, 1e100]))),
    st.sampled_from([('enum', 'Color', 'RED'), ('bytes', b'ab')]),
)


def _omega_recipes():
    def containers(inner):
        return gen.pick(
            st.tuples(st.just('seq'), st.sampled_from(['list', 'list', 'tuple']), st.lists(inner, max_size=3)),
            st.tuples(st.just('map'), st.sampled_from(['dict', 'dict', 'ordered']), st.lists(st.tuples(_OMEGA_KEY, inner), max_size=3)),
        )
    return containers(st.recursive(_OMEGA_LEAF, containers, max_leaves=5))


def _recipes(leaf, sequences=tuple(SEQUENCES)):
    return st.recursive(
        leaf,
        lambda inner: gen.pick(
            st.tuples(st.just('seq'), st.sampled_from(sequences), st.lists(inner, max_size=3)),
            st.tuples(st.just('map'), st.sampled_from(tuple(MAPPINGS)), st.lists(st.tuples(_KEY, inner), max_size=3)),
            st.tuples(st.just('generator'), st.just(''), st.lists(inner, max_size=3)),
        ),
        max_leaves=6,
    )


def _plant(recipe, opaque, steps):
    """Replace one leaf by an opaque object."""
    if recipe[0] == 'seq':
        items = list(recipe[2]) or [opaque]
        index = steps[0] % len(items) if steps else 0
        items[index] = _plant(items[index], opaque, steps[1:])
        return ('seq', recipe[1], items)
    if recipe[0] == 'map':
        items = [(('plain', 'k'), recipe[2][0][1] if recipe[2] else opaque)]
        return ('map', recipe[1], [(items[0][0], _plant(items[0][1], opaque, steps[1:]))])
    return opaque


SUBS = [
    Sub('typed', lambda: t.typed_elements(t.specs(2, t.MARSHALABLE), mutate=False), typed, 2500, 80000),
    Sub('containers', lambda: t.typed_elements(containers.specs(t.specs(1, t.MARSHALABLE)), mutate=False), typed, 1000, 40000),
    Sub('duck', lambda: _recipes(_LEAF), duck, 2500, 80000),
    Sub('omega', lambda: st.tuples(_omega_recipes(), st.booleans(), st.sampled_from([False] * 9 + [True])), omega, 800, 20000),
    Sub(
        'unsupported',
        lambda: st.builds(_plant, _recipes(_LEAF), st.tuples(st.just('opaque'), st.sampled_from(sorted(OPAQUE))), st.lists(st.integers(0, 5), min_size=3, max_size=3)),
        unsupported, 1200, 20000,
    ),
]
