"""C31: the queries of types and values."""
import collections
import collections.abc
import dataclasses
import enum
import itertools
import types
import typing

import marsh
import typing_extensions
from hypothesis import strategies as st

from vlib.core import Sub

PROPERTY = 'C31'
RULE = (
    'Cases are types put together from classes, containers in all spellings, unions, literals and annotations, classes '
    'with generated sets of container methods, and values. What holds for a type is known from its construction. '
    'Non-trivial: the type is parametrised, has a base or a metaclass made for the case, or is the type of a value.'
)
u = marsh.utils
T = typing.TypeVar('T')
K = typing.TypeVar('K')
_COUNT = itertools.count()


@dataclasses.dataclass
class Facts:
    type: typing.Any
    # names of the queries that hold
    holds: frozenset = frozenset()
    # names of the queries for which no answer is specified
    unspecified: frozenset = frozenset()
    # what get_type gives
    cls: typing.Any = None
    name: typing.Any = None
    words: tuple = ()
    item: typing.Any = None
    key: typing.Any = None
    value: typing.Any = None
    optional: typing.Any = None
    # whether the types of the content are specified
    content: bool = True
    annotations: typing.Any = None
    forward: bool = False
    members: tuple = ()
    instances: tuple = ()


TYPE_QUERIES = (
    'is_sequence_type', 'is_empty_tuple_type', 'is_fixed_size_tuple_type', 'is_mapping_type', 'is_primitive_type',
    'is_namedtuple_type', 'is_typed_namedtuple_type', 'is_typeddict_type', 'is_defaultdict_type', 'is_protocol',
    'is_literal', 'is_union', 'is_optional', 'is_annotated',
)
# never hold for types
VALUE_QUERIES = ('is_sequence', 'is_mapping', 'is_primitive', 'is_namedtuple', 'is_typed_namedtuple', 'is_obj_instance', 'is_missing')
SEQ = frozenset({'is_sequence_type'})
MAP = frozenset({'is_mapping_type'})
PRIM = frozenset({'is_primitive_type'})
Any = typing.Any


class Plain:
    pass


class Called:
    def __call__(self):
        return None


class Color(enum.Enum):
    red = 1


class Text(str):
    pass


class Number(int):
    pass


class Octets(bytes):
    pass


class Mode(str, enum.Enum):
    fast = 'fast'


class Level(enum.IntEnum):
    low = 1


@dataclasses.dataclass
class Data:
    x: int = 0


class Proto(typing.Protocol):
    def run(self):
        ...


class ExtProto(typing_extensions.Protocol):
    x: int


class Implements(Proto):
    def run(self):
        return 1


class SubProto(Proto, typing.Protocol):
    def walk(self):
        ...


Pair = collections.namedtuple('Pair', 'a b')


class TypedPair(typing.NamedTuple):
    a: int
    b: 'Data' = None


class SubPair(Pair):
    pass


class SubTypedPair(TypedPair):
    extra = 1


class Mixin:
    def total(self):
        return 0


class DeepPair(Mixin, SubPair):
    pass


class DeepTypedPair(SubTypedPair):
    pass


class DeeperTypedPair(Mixin, DeepTypedPair):
    pass


class GenericPair(typing.NamedTuple, typing.Generic[T]):
    a: T
    b: int = 0


class TD(typing.TypedDict):
    a: int


class ExtTD(typing_extensions.TypedDict, total=False):
    a: int


class SubTD(TD):
    b: str


class GenericTD(typing.TypedDict, typing.Generic[T]):
    a: T


class DeepTD(SubTD, total=False):
    c: str


class DeepDefault(type('SubDefault', (collections.defaultdict,), {})):
    pass


class DeepText(type('SubText', (Mixin, str), {})):
    pass


class NoPair(tuple):
    _fields = ('a', 'b')


NT = SEQ | {'is_namedtuple_type'}
TNT = NT | {'is_typed_namedtuple_type'}
TDS = MAP | {'is_typeddict_type'}

LEAVES = {
    'int': (int, PRIM, (3, 0)),
    'str': (str, PRIM, ('abc', '')),
    'bool': (bool, PRIM, (True,)),
    'float': (float, PRIM, (0.5,)),
    'bytes': (bytes, frozenset(), (b'ab',)),
    'Text': (Text, PRIM, (Text('x'),)),
    'Number': (Number, PRIM, (Number(2),)),
    'Octets': (Octets, frozenset(), (Octets(b'x'),)),
    'Mode': (Mode, PRIM, (Mode.fast,)),
    'Level': (Level, PRIM, (Level.low,)),
    'Color': (Color, frozenset(), (Color.red,)),
    'NoneType': (type(None), frozenset(), (None,)),
    'object': (object, frozenset(), ()),
    'complex': (complex, frozenset(), (1j,)),
    'Plain': (Plain, frozenset(), (Plain(),)),
    'Called': (Called, frozenset(), (Called(),)),
    'Data': (Data, frozenset(), (Data(),)),
    'set': (set, frozenset(), ({1}, set())),
    'frozenset': (frozenset, frozenset(), (frozenset({1}),)),
    'list': (list, SEQ, ([1], [])),
    'tuple': (tuple, SEQ, ((1,), ())),
    'range': (range, SEQ, (range(3),)),
    'deque': (collections.deque, SEQ, (collections.deque([1]),)),
    'UserList': (collections.UserList, SEQ, (collections.UserList([1]),)),
    'dict': (dict, MAP, ({'a': 1}, {})),
    'OrderedDict': (collections.OrderedDict, MAP, (collections.OrderedDict(a=1),)),
    'UserDict': (collections.UserDict, MAP, (collections.UserDict(a=1),)),
    'ChainMap': (collections.ChainMap, MAP, (collections.ChainMap({}),)),
    'Counter': (collections.Counter, MAP, (collections.Counter('ab'),)),
    'defaultdict': (collections.defaultdict, MAP | {'is_defaultdict_type'}, (collections.defaultdict(int),)),
    'abc.Sequence': (collections.abc.Sequence, SEQ, ()),
    'abc.Mapping': (collections.abc.Mapping, MAP, ()),
    'Pair': (Pair, NT, (Pair(1, 2),)),
    'TypedPair': (TypedPair, TNT, (TypedPair(1),)),
    'SubPair': (SubPair, NT, (SubPair(1, 2),)),
    'SubTypedPair': (SubTypedPair, TNT, (SubTypedPair(1),)),
    'GenericPair': (GenericPair, TNT, (GenericPair(1),)),
    'DeepPair': (DeepPair, NT, (DeepPair(1, 2),)),
    'DeepTypedPair': (DeepTypedPair, TNT, (DeepTypedPair(1),)),
    'DeeperTypedPair': (DeeperTypedPair, TNT, (DeeperTypedPair(1),)),
    'DeepTD': (DeepTD, TDS, ()),
    'DeepDefault': (DeepDefault, MAP | {'is_defaultdict_type'}, (DeepDefault(int),)),
    'DeepText': (DeepText, PRIM, (DeepText('a'),)),
    'NoPair': (NoPair, SEQ, (NoPair((1, 2)),)),
    'TD': (TD, TDS, ()),
    'ExtTD': (ExtTD, TDS, ()),
    'SubTD': (SubTD, TDS, ()),
    'GenericTD': (GenericTD, TDS, ()),
    'Proto': (Proto, frozenset({'is_protocol'}), ()),
    'ExtProto': (ExtProto, frozenset({'is_protocol'}), ()),
    'SubProto': (SubProto, frozenset({'is_protocol'}), ()),
    'Implements': (Implements, frozenset(), (Implements(),)),
}
# aliases without arguments: type, what holds, what get_type gives
BARE = {
    'List': (typing.List, SEQ, list),
    'Sequence': (typing.Sequence, SEQ, collections.abc.Sequence),
    'MutableSequence': (typing.MutableSequence, SEQ, collections.abc.MutableSequence),
    'Tuple': (typing.Tuple, SEQ, tuple),
    'Deque': (typing.Deque, SEQ, collections.deque),
    'Dict': (typing.Dict, MAP, dict),
    'Mapping': (typing.Mapping, MAP, collections.abc.Mapping),
    'MutableMapping': (typing.MutableMapping, MAP, collections.abc.MutableMapping),
    'DefaultDict': (typing.DefaultDict, MAP | {'is_defaultdict_type'}, collections.defaultdict),
    'OrderedDict': (typing.OrderedDict, MAP, collections.OrderedDict),
    'Set': (typing.Set, frozenset(), set),
    'FrozenSet': (typing.FrozenSet, frozenset(), frozenset),
}
SEQUENCES = {
    'list': (list, list), 'List': (typing.List, list), 'Sequence': (typing.Sequence, collections.abc.Sequence),
    'abc.Sequence': (collections.abc.Sequence, collections.abc.Sequence), 'deque': (collections.deque, collections.deque),
    'MutableSequence': (typing.MutableSequence, collections.abc.MutableSequence), 'Deque': (typing.Deque, collections.deque),
}
MAPPINGS = {
    'dict': (dict, dict), 'Dict': (typing.Dict, dict), 'Mapping': (typing.Mapping, collections.abc.Mapping),
    'abc.Mapping': (collections.abc.Mapping, collections.abc.Mapping), 'OrderedDict': (typing.OrderedDict, collections.OrderedDict),
    'MutableMapping': (typing.MutableMapping, collections.abc.MutableMapping), 'ChainMap': (typing.ChainMap, collections.ChainMap),
    'DefaultDict': (typing.DefaultDict, collections.defaultdict),
    'defaultdict': (collections.defaultdict, collections.defaultdict),
}
OTHERS = {
    'Set': (typing.Set, set), 'set': (set, set), 'FrozenSet': (typing.FrozenSet, frozenset), 'Type': (typing.Type, type),
    'Iterable': (typing.Iterable, collections.abc.Iterable), 'Iterator': (typing.Iterator, collections.abc.Iterator),
}
CONTAINER_METHODS = ('__contains__', '__getitem__', '__len__', '__iter__', 'get', 'items', 'keys', 'values')
SEQ_METHODS = {'__contains__', '__getitem__', '__len__'}
MAP_METHODS = {'__contains__', '__getitem__', '__iter__', 'get', 'items', 'keys', 'values'}


def _new_class(name, bases, attributes=None, **kwargs):
    return types.new_class(name, bases, kwargs, lambda ns: ns.update(attributes or {}, __module__=__name__))


def _method(*args, **kwargs):
    return None


def build(spec):
    kind = spec[0]
    if kind == 'leaf':
        type_, holds, instances = LEAVES[spec[1]]
        return Facts(type_, holds, cls=type_, name=type_.__name__, words=(type_.__name__,), instances=instances)
    if kind == 'bare':
        type_, holds, cls = BARE[spec[1]]
        return Facts(type_, holds, cls=cls, words=(spec[1],))
    if kind == 'any':
        return Facts(typing.Any, cls=typing.Any, words=('Any',))
    if kind == 'forward':
        return Facts(spec[1], forward=True, words=(spec[1],))
    if kind == 'none':
        # `None` inside of other types is the type
        return build(('leaf', 'NoneType'))
    if kind in ('seq', 'other'):
        alias, cls = {'seq': SEQUENCES, 'other': OTHERS}[kind][spec[1]]
        item = build(spec[2])
        return Facts(
            alias[item.type], SEQ if kind == 'seq' else frozenset(), cls=cls, words=item.words,
            item=item if kind == 'seq' else None, forward=item.forward, members=(item,),
        )
    if kind == 'tuple':
        item = build(spec[2])
        return Facts(
            {'tuple': tuple, 'Tuple': typing.Tuple}[spec[1]][item.type, ...], SEQ, cls=tuple, words=item.words, item=item,
            forward=item.forward, members=(item,),
        )
    if kind == 'fixed':
        items = [build(item) for item in spec[2]]
        holds = SEQ | {'is_fixed_size_tuple_type'} | ({'is_empty_tuple_type'} if not items else set())
        return Facts(
            {'tuple': tuple, 'Tuple': typing.Tuple}[spec[1]][tuple(item.type for item in items)], frozenset(holds), cls=tuple,
            words=sum((item.words for item in items), ()), item=items[0] if len(items) == 1 else None,
            forward=any(item.forward for item in items), members=tuple(items),
        )
    if kind == 'map':
        alias, cls = MAPPINGS[spec[1]]
        key, value = build(spec[2]), build(spec[3])
        holds = MAP | ({'is_defaultdict_type'} if cls is collections.defaultdict else set())
        return Facts(
            alias[key.type, value.type], frozenset(holds), cls=cls, words=key.words + value.words, key=key, value=value,
            forward=key.forward or value.forward, members=(key, value),
        )
    if kind == 'class':
        return _container_class(*spec[1:])
    if kind == 'union':
        members = [build(member) for member in spec[2]]
        if spec[1] == '|' and all(isinstance(member.type, type) for member in members):
            type_ = members[0].type
            for member in members[1:]:
                type_ = type_ | member.type
        else:
            type_ = typing.Union[tuple(member.type for member in members)]
        flat = []
        for member in members:
            for inner in member.members if 'is_union' in member.holds else (member,):
                if not any(inner.type == other.type for other in flat):
                    flat.append(inner)
        if len(flat) == 1:
            return flat[0]
        holds = {'is_union'}
        optional = None
        if any(member.type is type(None) for member in flat):
            holds.add('is_optional')
            optional = [member.type for member in flat if member.type is not type(None)]
        return Facts(
            type_, frozenset(holds), members=tuple(flat), words=sum((member.words for member in flat), ()) if optional is None else (),
            optional=optional, forward=any(member.forward for member in flat),
        )
    if kind == 'annotated':
        inner = build(spec[1])
        annotations = tuple(spec[2])
        type_ = typing.Annotated[(inner.type, *annotations)]
        if 'is_annotated' in inner.holds:
            annotations = inner.annotations + annotations
        return Facts(
            type_, frozenset(inner.holds & {'is_optional'} | {'is_annotated'}), frozenset((inner.holds | inner.unspecified) - {'is_optional', 'is_annotated'}),
            name=inner.name, words=() if isinstance(inner.type, str) else inner.words, item=inner.item, key=inner.key, value=inner.value, optional=inner.optional,
            annotations=annotations, forward=inner.forward, content=inner.content,
        )
    if kind == 'literal':
        return Facts(
            typing.Literal[tuple(spec[1])], frozenset({'is_literal'}), words=tuple(map(repr, spec[1])),
            members=tuple(build(('leaf', type(value).__name__)) for value in spec[1]),
        )
    if kind == 'methods':
        return _method_class(*spec[1:])
    if kind == 'callable':
        members = [build(member) for member in spec[1]]
        result = build(spec[2])
        return Facts(
            typing.Callable[[member.type for member in members], result.type], cls=collections.abc.Callable,
            forward=result.forward or any(member.forward for member in members),
        )
    assert kind == 'generic'
    alias = {'pair': GenericPair, 'td': GenericTD}[spec[1]]
    arg = build(spec[2])
    return Facts(
        alias[arg.type], {'pair': TNT, 'td': TDS}[spec[1]], frozenset(), cls=alias, words=(alias.__name__, *arg.words),
        forward=arg.forward, content=False,
    )


def _container_class(style, which, first, second):
    """A class of the user for a sequence or mapping."""
    key, value = build(first), build(second)
    name = f'Class{next(_COUNT)}'
    if which in ('list', 'List', 'Sequence', 'Deque', 'abc.Sequence'):
        alias, item, common = SEQUENCES[which][0], value, dict(holds=SEQ, item=value, forward=False)
        arguments = item.type
        variable = T
    else:
        alias = MAPPINGS[which][0]
        holds = MAP | ({'is_defaultdict_type'} if which in ('DefaultDict', 'defaultdict') else set())
        common = dict(holds=frozenset(holds), key=key, value=value, forward=False)
        arguments = (key.type, value.type)
        variable = (K, T)
    sequence = 'item' in common
    if style == 'subclass':
        cls = _new_class(name, (alias[arguments],))
    elif style == 'subsubclass':
        cls = _new_class(name, (_new_class(f'{name}Base', (alias[arguments],)),))
    elif style == 'mixed':
        cls = _new_class(name, (Plain, alias[arguments]))
    elif style == 'bare':
        cls = _new_class(name, (alias,))
        common.update(item=None, key=None, value=None)
    elif style in ('generic', 'generic sub'):
        cls = _new_class(f'{name}Base' if style == 'generic sub' else name, (alias[variable],))
        type_ = cls[arguments]
        if style == 'generic sub':
            cls = type_ = _new_class(name, (type_,))
        else:
            return Facts(type_, cls=cls, words=(name, *key.words * (not sequence), *value.words), **dict(
                common, forward=value.forward or not sequence and key.forward,
            ))
    elif style == 'swapped' and not sequence:
        cls = _new_class(name, (alias[K, T], typing.Generic[T, K]))
        return Facts(
            cls[value.type, key.type], cls=cls, words=(name, *key.words, *value.words),
            **dict(common, forward=value.forward or key.forward),
        )
    else:
        # with a variable that has nothing to do with the content
        cls = _new_class(name, (alias[arguments], typing.Generic[variable if not sequence else K]))
        return Facts(cls[(str, bytes) if not sequence else str], cls=cls, words=(name,), **common)
    return Facts(cls, cls=cls, name=name, words=(name,), **common)


def _method_class(methods, where, none):
    name = f'Class{next(_COUNT)}'
    body = {method: _method for method in methods}
    holds = set()
    given = set(methods)
    if none in body and where != 'metaclass':
        body[none] = None
        given.discard(none)
    if where == 'metaclass':
        cls = _new_class(name, (), {}, metaclass=_new_class(f'{name}Meta', (type,), body))
        given = set()
    elif where == 'base':
        cls = _new_class(name, (_new_class(f'{name}Base', (), body),))
    elif where == 'split':
        half = len(methods) // 2
        first = _new_class(f'{name}First', (), {method: body[method] for method in methods[:half]})
        second = _new_class(f'{name}Second', (), {method: body[method] for method in methods[half:]})
        cls = _new_class(name, (first, second))
    elif where == 'property':
        cls = _new_class(name, (), {method: value and property(_method) for method, value in body.items()})
    else:
        cls = _new_class(name, (), body)
    if given >= MAP_METHODS:
        holds.add('is_mapping_type')
    elif given >= SEQ_METHODS:
        holds.add('is_sequence_type')
    return Facts(cls, frozenset(holds), cls=cls, name=name, words=(name,), instances=(cls(),))


def queries(spec, ctx):
    facts = build(spec)
    type_ = facts.type
    show = repr(type_)
    ctx.label(spec[0], *(f'{name} holds' for name in facts.holds))
    ctx.nontrivial(spec[0] not in ('leaf', 'bare', 'any'))
    if not isinstance(type_, str):
        for query in TYPE_QUERIES:
            if query in facts.unspecified:
                continue
            answer = getattr(u, query)(type_)
            ctx.check(answer is (query in facts.holds), f'{query}({show}) gives {answer!r}')
        for query in VALUE_QUERIES:
            answer = getattr(u, query)(type_)
            ctx.check(answer is False, f'{query}({show}) gives {answer!r}')
        alias = not isinstance(type_, type) or typing.get_origin(type_) is not None
        if spec[0] != 'any':
            ctx.check(u.is_typing_alias(type_) is alias, f'is_typing_alias({show}) gives {not alias}')
            answer = not alias and 'is_protocol' not in facts.holds
            ctx.check(u.is_callable(type_) is answer, f'is_callable({show}) gives {not answer}')
    if facts.cls is not None:
        ctx.check(u.get_type(type_) is facts.cls, f'get_type({show}) gives {u.get_type(type_)}')
    if not isinstance(type_, str):
        name = u.get_type_name(type_)
        ctx.check(isinstance(name, str) and (facts.name is None or name == facts.name), f'get_type_name({show}) gives {name!r}')
        for word in facts.words:
            ctx.check(word in name, f'get_type_name({show}) gives {name!r}, which does not name {word}')
        item = u.inspect_sequence_type(type_)
        if facts.content and 'is_sequence_type' in facts.holds | facts.unspecified:
            _same(ctx, item, facts.item, f'inspect_sequence_type({show})')
        elif facts.content:
            ctx.check(item is Any, f'inspect_sequence_type({show}) gives {item}')
        key, value = u.inspect_mapping_type(type_)
        if facts.content and 'is_mapping_type' in facts.holds | facts.unspecified:
            _same(ctx, key, facts.key, f'the key of inspect_mapping_type({show})')
            _same(ctx, value, facts.value, f'the value of inspect_mapping_type({show})')
        elif facts.content:
            ctx.check(key is value is Any, f'inspect_mapping_type({show}) gives {key}, {value}')
        if facts.optional is None:
            try:
                got = u.get_optional_type(type_)
            except ValueError:
                pass
            else:
                ctx.fail(f'get_optional_type({show}) gives {got}')
        else:
            got = u.get_optional_type(type_)
            want = facts.optional
            if len(want) == 1:
                ctx.check(got is want[0] or got == want[0], f'get_optional_type({show}) gives {got}')
            else:
                # (the tables of the typing module may give an equal type of another order)
                union = type_
                while typing_extensions.get_origin(union) is typing_extensions.Annotated:
                    union = typing_extensions.get_args(union)[0]
                actual = tuple(arg for arg in typing.get_args(union) if arg is not type(None))
                ctx.check(
                    u.is_union(got) and not u.is_optional(got) and typing.get_args(got) == actual and set(actual) == set(want),
                    f'get_optional_type({show}) gives {got}',
                )
        if facts.annotations is None:
            try:
                got = u.get_annotations(type_)
            except ValueError:
                pass
            else:
                ctx.fail(f'get_annotations({show}) gives {got}')
        else:
            got = tuple(u.get_annotations(type_))
            ctx.check(got == facts.annotations, f'get_annotations({show}) gives {got}')
    ctx.check(u.has_forward_ref(type_) is facts.forward, f'has_forward_ref({show}) gives {not facts.forward}')
    for instance in facts.instances:
        values(ctx, instance, facts)


def _same(ctx, got, facts, what):
    if facts is None:
        ctx.check(got is Any, f'{what} is {got}')
    elif facts.forward:
        ctx.check(got is facts.type or u.has_forward_ref(got), f'{what} is {got}')
    else:
        ctx.check(got is facts.type or got == facts.type, f'{what} is {got} instead of {facts.type}')


def values(ctx, instance, facts):
    show = f'{instance!r} of {type(instance)}'
    ctx.label('instance')
    for query in ('sequence', 'mapping', 'primitive', 'namedtuple', 'typed_namedtuple'):
        answer = getattr(u, f'is_{query}')(instance)
        expected = f'is_{query}_type' in facts.holds
        ctx.check(answer is expected, f'is_{query} of {show} gives {answer!r}')
    ctx.check(u.is_obj_instance(instance) is True, f'is_obj_instance of {show} gives False')
    ctx.check(u.get_type(instance) is type(instance), f'get_type of {show} gives {u.get_type(instance)}')
    ctx.check(u.get_type_name(instance) == type(instance).__name__, f'get_type_name of {show} gives {u.get_type_name(instance)}')
    ctx.check(u.is_callable(instance) is callable(instance), f'is_callable of {show}')
    for query in TYPE_QUERIES:
        if query != 'is_namedtuple_type' and query != 'is_typed_namedtuple_type':
            answer = getattr(u, query)(instance)
            ctx.check(answer is False, f'{query} of {show} gives {answer!r}')


def _leaf():
    return st.one_of(
        st.tuples(st.just('leaf'), st.sampled_from(list(LEAVES))),
        st.tuples(st.just('leaf'), st.sampled_from(['int', 'str', 'bool', 'Plain', 'Data', 'list', 'dict'])),
        st.tuples(st.just('bare'), st.sampled_from(list(BARE))),
        st.just(('any',)),
        st.tuples(st.just('literal'), st.lists(st.sampled_from(['a', 'Data', 1, 'b c', True, 'None']), min_size=1, max_size=3, unique_by=lambda v: (type(v), v)).map(tuple)),
        st.tuples(st.just('methods'), st.one_of(
            st.lists(st.sampled_from(CONTAINER_METHODS), unique=True, max_size=8).map(tuple),
            st.sampled_from([CONTAINER_METHODS, tuple(sorted(SEQ_METHODS)), tuple(sorted(MAP_METHODS)), (*sorted(MAP_METHODS), '__call__')]),
        ), st.sampled_from(['class', 'metaclass', 'base', 'split', 'property']), st.none() | st.sampled_from(CONTAINER_METHODS)),
    )


def _extend(children):
    inner = st.one_of(children, children, st.tuples(st.just('forward'), st.sampled_from(['Data', 'Missing'])))
    return st.one_of(
        st.tuples(st.just('seq'), st.sampled_from(list(SEQUENCES)), inner),
        st.tuples(st.just('other'), st.sampled_from(list(OTHERS)), inner),
        st.tuples(st.just('tuple'), st.sampled_from(['tuple', 'Tuple']), inner),
        st.tuples(st.just('fixed'), st.sampled_from(['tuple', 'Tuple']), st.lists(inner, max_size=3).map(tuple)),
        st.tuples(st.just('map'), st.sampled_from(list(MAPPINGS)), children, inner),
        st.tuples(
            st.just('class'), st.sampled_from(['subclass', 'subsubclass', 'mixed', 'bare', 'generic', 'generic sub', 'swapped', 'unrelated']),
            st.sampled_from(['list', 'List', 'Sequence', 'Deque', 'dict', 'Dict', 'Mapping', 'DefaultDict', 'defaultdict', 'OrderedDict']),
            children, children,
        ),
        st.tuples(
            st.just('union'), st.sampled_from(['|', 'Union']),
            st.lists(st.one_of(children, children, st.just(('none',))), min_size=2, max_size=4).map(tuple),
        ),
        st.tuples(st.just('annotated'), inner, st.lists(st.sampled_from(['text', 'Data', 1, None, 2.5, 'x']), min_size=1, max_size=3).map(tuple)),
        st.tuples(st.just('callable'), st.lists(inner, max_size=2).map(tuple), inner),
        st.tuples(st.just('generic'), st.sampled_from(['pair', 'td']), inner),
    )


def _cases():
    return st.recursive(_leaf(), _extend, max_leaves=5)


# qualifiers of typed dict keys

QUALIFIERS = {
    'Required': typing.Required, 'NotRequired': typing.NotRequired, 'ExtRequired': typing_extensions.Required,
    'ExtNotRequired': typing_extensions.NotRequired, 'ReadOnly': typing_extensions.ReadOnly,
}


def qualifiers(case, ctx):
    spec, wraps = case
    facts = build(spec)
    plain = type_ = facts.type
    for wrap in wraps:
        if wrap in QUALIFIERS:
            type_ = QUALIFIERS[wrap][type_]
        else:
            type_ = typing.Annotated[type_, wrap]
            plain = typing.Annotated[plain, wrap]
    ctx.label(spec[0], *(wrap if wrap in QUALIFIERS else 'annotation' for wrap in wraps))
    ctx.nontrivial(any(wrap in QUALIFIERS for wrap in wraps))
    got = u.strip_type_qualifiers(type_)
    ctx.check(got is plain or got == plain, f'strip_type_qualifiers({type_}) gives {got}')
    if type_ is plain:
        ctx.check(got is type_, f'strip_type_qualifiers({type_}) gives another {got}')
    again = u.strip_type_qualifiers(got)
    ctx.check(again is got, f'strip_type_qualifiers({got}) gives {again}')


# missing values

def _function():
    pass


class Odd:
    """Equal to everything."""

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 1


class Broken:
    def __eq__(self, other):
        raise RuntimeError('no comparison')

    __hash__ = None

    def __getattr__(self, name):
        raise RuntimeError(f'no attribute {name}')


class Array:
    """Compares like arrays do."""

    def __eq__(self, other):
        return Array()

    def __bool__(self):
        raise ValueError('ambiguous')

    __hash__ = None


class Anything:
    def __getattr__(self, name):
        return lambda *args, **kwargs: None


# value: (is missing, is callable)
VALUES = {
    'marsh.MISSING': (lambda: marsh.MISSING, True, False),
    'dataclasses.MISSING': (lambda: dataclasses.MISSING, True, False),
    'text': (lambda: '???', True, False),
    'subclass text': (lambda: Text('???'), True, False),
    'other text': (lambda: '??', False, False),
    'longer text': (lambda: '????', False, False),
    'bytes': (lambda: b'???', False, False),
    'list': (lambda: ['???'], False, False),
    'empty': (lambda: '', False, False),
    'none': (lambda: None, False, False),
    'zero': (lambda: 0, False, False),
    'function': (lambda: _function, False, True),
    'lambda': (lambda: (lambda: 1), False, True),
    'method': (lambda: Implements().run, False, True),
    'builtin': (lambda: len, False, True),
    'class': (lambda: Plain, False, True),
    'callable': (lambda: Called(), False, True),
    'protocol': (lambda: Proto, False, False),
    'alias': (lambda: typing.List[int], False, False),
    'bare alias': (lambda: typing.List, False, False),
    'union': (lambda: typing.Optional[int], False, False),
    'builtin alias': (lambda: list[int], False, False),
    'odd': (lambda: Odd(), False, False),
    'array': (lambda: Array(), False, False),
    'broken': (lambda: Broken(), False, False),
    'anything': (lambda: Anything(), False, False),
    'module': (lambda: collections, False, False),
}


def missing(case, ctx):
    name, order = case
    make, is_missing, is_callable = VALUES[name]
    ctx.label(name)
    ctx.nontrivial()
    for query in order:
        value = make()
        answer = getattr(u, query)(value)
        expected = {'is_missing': is_missing, 'is_callable': is_callable}.get(query)
        if expected is None:
            if name in ('class', 'alias', 'bare alias', 'union', 'builtin alias', 'protocol'):
                expected = False
            elif query == 'is_obj_instance':
                expected = True
            elif query == 'is_primitive':
                expected = isinstance(value, (int, float, str))
            elif query == 'is_sequence':
                expected = isinstance(value, list)
            else:
                expected = False
        ctx.check(answer is expected, f'{query} of {name} ({type(value)}) gives {answer!r}')


def _missing_cases():
    return st.tuples(
        st.sampled_from(list(VALUES)),
        st.permutations(['is_missing', 'is_callable', 'is_obj_instance', 'is_primitive', 'is_sequence', 'is_mapping', 'is_namedtuple']).map(tuple),
    )


SUBS = [
    Sub('queries', _cases, queries, quick=12000, thorough=300000),
    Sub('qualifiers', lambda: st.tuples(
        st.recursive(_leaf(), _extend, max_leaves=2),
        st.lists(st.sampled_from([*QUALIFIERS, 'text', 'Data']), max_size=4).map(tuple),
    ), qualifiers, quick=2000, thorough=60000),
    Sub('missing', _missing_cases, missing, quick=800, thorough=20000),
]
