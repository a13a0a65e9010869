"""C05: missing values, default values and default factories."""
import collections
import copy
import dataclasses
import datetime
import enum
import functools
import logging
import typing

import marsh
from hypothesis import strategies as st

from vlib import gen
from vlib import types as t
from vlib.core import Sub
from vlib.oracle import ref_split

PROPERTY = 'C05'
RULE = (
    'Cases are structured types (dataclasses, classes, named tuples, typed dicts, fixed '
    'tuples, nested in containers and in each other) with and without default values, and '
    'elements that fit up to values which are left out or marked as missing, including '
    'the whole element. kinds: every kind of type with a default value or factory at every '
    'place. Non-trivial: a value is missing somewhere.'
)


@st.composite
def _blank(draw, spec, depth=0):
    """A fitting element with missing parts."""
    if draw(st.integers(0, 4 if depth else 9)) == 0:
        return t.MISSING
    kind, *rest = spec
    if kind in ('dataclass', 'frozen', 'namedtuple', 'typeddict', 'class'):
        out = {}
        for name, type_, _ in rest[0]:
            if draw(st.integers(0, 3)):
                out[name] = draw(_blank(type_, depth + 1))
        if draw(st.integers(0, 3)) == 0:
            values = []
            for name, _, _ in rest[0]:
                values.append(out.get(name, t.MISSING))
            return values[:draw(st.integers(0, len(values)))]
        return out
    if kind in ('list', 'vtuple', 'seq', 'mseq') and rest[0]:
        return [draw(_blank(rest[0], depth + 1)) for _ in range(draw(st.integers(0, 2)))]
    if kind == 'tuple':
        values = [draw(_blank(item, depth + 1)) for item in rest[0]]
        if draw(st.booleans()):
            return {str(i): v for i, v in enumerate(values) if draw(st.booleans())}
        return values
    if kind in ('dict', 'map', 'mmap', 'ddict') and rest[0] and rest[0][0] == 'str':
        return {k: draw(_blank(rest[1], depth + 1)) for k in draw(st.lists(t.IDENT, max_size=2, unique=True))}
    if kind in ('opt', 'annotated'):
        return draw(_blank(rest[0], depth + 1))
    if kind in ('union', 'typevar'):
        return draw(_blank(draw(st.sampled_from(rest[0])), depth + 1))
    return draw(t.valid(spec))


def _structs(depth=2):
    level = t.LEAVES
    for _ in range(depth):
        struct = t.structs(level)
        level = gen.pick(
            struct, struct, struct, level,
            *t._options(level, t.ALL_KINDS),
        )
    return gen.pick(struct, level)


@st.composite
def _cases(draw):
    spec = draw(_structs())
    return spec, draw(_blank(spec))


def _has_missing(element):
    if isinstance(element, dict):
        return any(map(_has_missing, element.values()))
    if isinstance(element, (list, tuple)):
        return any(map(_has_missing, element))
    return element == t.MISSING and isinstance(element, str)


def missing(case, ctx):
    spec, element = case
    model = t.Model(spec)
    try:
        status, expected = model.ref(element)
    except t.Unspecified:
        ctx.reject()
    ctx.nontrivial(_has_missing(element) or status == 'bad')
    ctx.label(status, *(f'type {k}' for k in model.kinds()))
    whole = isinstance(element, str) and element == t.MISSING
    if whole:
        ctx.label('nothing given')
    try:
        got = marsh.unmarshal(model.type) if whole else marsh.unmarshal(model.type, element)
    except marsh.errors.MarshError as err:
        ctx.check(status == 'bad', f'{model.type} from {element!r}: {err!r}, expected {expected!r}')
        location = ref_split(err.path)
        ctx.check(
            any(location == path for path, _ in expected),
            f'{model.type} from {element!r}: error {err!r} at {err.path!r}, expected at {expected!r}',
        )
        if all(is_missing for _, is_missing in expected):
            ctx.label('only missing values')
            ctx.check(
                isinstance(err, marsh.errors.MissingValueError),
                f'{model.type} from {element!r}: values are missing but the error is {err!r}',
            )
        return
    ctx.check(status == 'ok', f'{model.type} accepts {element!r} as {got!r}, but values are missing: {expected!r}')
    form = model.neutral(got)
    ctx.check(form == expected, f'{model.type} from {element!r} is {got!r}: {form!r}\nexpected {expected!r}')


def factories(case, ctx):
    """Factories are called once for each value they provide, and only then."""
    spec, elements = case
    model = t.Model(spec)
    node = model.root
    wanted = {name: 0 for name in node.factories}
    seen = []
    for element in elements:
        try:
            status, expected = model.ref(element)
        except t.Unspecified:
            ctx.reject()
        if status != 'ok':
            continue
        before = {name: len(f.made) for name, f in node.factories.items()}
        value = marsh.unmarshal(model.type, copy.deepcopy(element))
        given = dict(zip([f[0] for f in node.fields], element)) if isinstance(element, (list, tuple)) else element
        for name, factory in node.factories.items():
            absent = given == t.MISSING or given.get(name, t.MISSING) == t.MISSING
            calls = len(factory.made) - before[name]
            ctx.check(
                calls == int(absent),
                f'{model.type} from {element!r}: the factory of {name} was called {calls} times',
            )
            if absent:
                wanted[name] += 1
                got = getattr(value, name)
                ctx.check(
                    got is factory.made[-1],
                    f'{model.type} from {element!r}: {name} is {got!r}, not what its factory made',
                )
                if isinstance(got, list):
                    got.append('changed')
                elif isinstance(got, dict):
                    got['changed'] = True
        form = model.neutral(marsh.unmarshal(model.type, element))
        ctx.check(form == expected, f'{model.type} from {element!r} is {form!r}, expected {expected!r}')
    ctx.nontrivial(any(wanted.values()))


_ANY_DEFAULT = gen.pick(
    st.builds(lambda v: ('factory', v), st.sampled_from([[], [1, 2], {}, {'k': 1}, 5, [[]]])),
    st.builds(lambda v: ('factory', v), st.sampled_from([[], [1, 2], {}, {'k': 1}, 5, [[]]])),
    t.DEFAULTS,
)


@st.composite
def _factory_cases(draw):
    names = draw(st.lists(t.IDENT, min_size=1, max_size=4, unique=True))
    fields = [(name, draw(gen.pick(t.LEAVES, st.just(('list', ('any',), True)), st.just(('opt', ('int',))))), draw(_ANY_DEFAULT)) for name in names]
    fields.sort(key=lambda f: f[2] is not None)
    spec = (draw(st.sampled_from(['dataclass', 'frozen'])), fields, True)
    return spec, [draw(_blank(spec)) for _ in range(draw(st.integers(1, 3)))]


WAYS = {
    'copy': copy.copy, 'method': lambda value: value.copy(), 'deepcopy': copy.deepcopy,
    'nested': lambda value: copy.deepcopy([value])[0], 'deepcopy twice': lambda value: copy.deepcopy(copy.deepcopy(value)),
}


def defaultdict(case, ctx):
    """Values of a defaultdict default to a zero value of their type, each time a new one."""
    spec, keys, before, way = case
    model = t.Model(spec)
    got = marsh.unmarshal(typing.DefaultDict[str, model.type], {})
    if before:
        # the original was asked for the default already
        try:
            got['before']
        except marsh.errors.MarshError:
            pass
        got.clear()
    ctx.label(way)
    if way != 'original':
        ctx.check(type(WAYS[way](got)) is type(got), f'{way} of a defaultdict is {type(WAYS[way](got))}')
        got = WAYS[way](got)
    expected = None
    for element in (t.MISSING, 0, '', None):
        try:
            status, form = model.ref(element)
        except t.Unspecified:
            ctx.reject()
        if status == 'ok':
            expected = form
            break
    if model.type is typing.Any:
        expected = t.scalar(None)
    ctx.label('no zero value' if expected is None else f'default {expected[0]}')
    ctx.nontrivial(len(keys) > 1)
    made = []
    for key in keys:
        try:
            value = got[key]
        except marsh.errors.MarshError as err:
            ctx.check(expected is None, f'no default value for {model.type}: {err!r}, expected {expected!r}')
            continue
        ctx.check(
            expected is not None and model.neutral(value) == expected,
            f'default value for {model.type}: {value!r}, expected {expected!r}',
        )
        for other in made:
            ctx.check(
                other is not value or not isinstance(value, (list, dict, set)),
                f'default values for {model.type} are the same object: {value!r}',
            )
        made.append(value)
    ctx.check(not expected or set(got) == set(keys), f'{got!r} has not the keys {keys!r}')


# ------------------------------------------------------------------ every kind of type

class _Color(enum.Enum):
    red = 1


class _SubInt(int):
    pass


class _SubList(typing.List[int]):
    pass


@typing.runtime_checkable
class _Proto(typing.Protocol):
    def __index__(self) -> int: ...


@dataclasses.dataclass
class _Data:
    x: int = 1


class _Class:
    def __init__(self, x: int = 1):
        self.x = x

    def __eq__(self, other):
        return type(self) is type(other) and self.x == other.x


class _Named(typing.NamedTuple):
    x: int = 1


class _Dict(typing.TypedDict, total=False):
    x: int


_Bound = typing.TypeVar('_Bound', bound=int)
_Constrained = typing.TypeVar('_Constrained', int, str)

# type, a fitting element
KINDS = {
    'int': (int, 3), 'float': (float, 1.5), 'str': (str, 'a'), 'bool': (bool, True), 'none': (None, None),
    'bytes': (bytes, 'aGk='), 'complex': (complex, [1.0, 2.0]), 'bytearray': (bytearray, [1, 2]),
    'subclass': (_SubInt, 3), 'any': (typing.Any, 3),
    'enum': (_Color, 'red'), 'literal': (typing.Literal['a', 1], 'a'), 'one literal': (typing.Literal[1], 1),
    'datetime': (datetime.datetime, '2020-01-02T00:00:00'), 'date': (datetime.date, '2020-01-02'),
    'time': (datetime.time, '10:00:00'), 'slice': (slice, '1:2'), 'logger': (logging.Logger, 'c05'),
    'protocol': (_Proto, 3),
    'list': (typing.List[int], [1]), 'plain list': (list, [1]), 'list class': (_SubList, [1]),
    'set': (typing.Set[int], [1]), 'deque': (typing.Deque[int], [1]),
    'sequence': (typing.Sequence[int], [1]),
    'dict': (typing.Dict[str, int], {'k': 1}), 'mapping': (typing.Mapping[str, int], {'k': 1}),
    'defaultdict': (typing.DefaultDict[str, int], {'k': 1}), 'ordered': (collections.OrderedDict, {'k': 1}),
    'counter': (collections.Counter, {'k': 1}),
    'tuple': (typing.Tuple[int, ...], [1]), 'fixed': (typing.Tuple[int, str], [1, 'a']), 'empty': (typing.Tuple[()], []),
    'union': (typing.Union[int, str], 1), 'optional': (typing.Optional[int], 1), 'pipe': (int | None, 1),
    'annotated': (typing.Annotated[int, 'x'], 1), 'bound': (_Bound, 1), 'constrained': (_Constrained, 1),
    'typeddict': (_Dict, {'x': 2}), 'dataclass': (_Data, {'x': 2}), 'class': (_Class, {'x': 2}),
    'namedtuple': (_Named, {'x': 2}),
    'nested': (typing.List[typing.Dict[str, _Data]], [{'k': {'x': 2}}]),
    'union of types': (typing.Union[_Data, typing.List[int]], [1]),
}


def kind_cases():
    return st.tuples(
        st.sampled_from(sorted(KINDS)), st.sampled_from(['default', 'factory']),
        st.sampled_from(['schema', 'field', 'parameter', 'keyword only', 'nested', 'item', 'partial']),
        st.lists(st.sampled_from(['missing', 'missing', 'left out', 'given']), min_size=1, max_size=4),
    )


def kinds(case, ctx):
    """Whatever the type is: missing values give the default as it is, others do not."""
    name, how, place, steps = case
    type_, element = KINDS[name]
    made = []

    def factory():
        made.append(object())
        return made[-1]
    default = object()
    if how == 'factory' and place not in ('schema', 'field', 'nested', 'item'):
        ctx.reject()
    arguments = {'default': default} if how == 'default' else {'default_factory': factory}
    if place == 'schema':
        outer, path = marsh.schema.UnmarshalSchema(type_, **arguments), None
        unmarshal = outer.unmarshal
    else:
        if place in ('parameter', 'partial'):
            def function(x: type_ = default):
                return x
            outer = function
        elif place == 'keyword only':
            def function(*, x: type_ = default):
                return x
            outer = function
        else:
            outer = dataclasses.make_dataclass('Outer', [('x', type_, dataclasses.field(**arguments))])
        if place == 'nested':
            inner = outer
            outer = dataclasses.make_dataclass('Nested', [('n', inner)])
        if place == 'item':
            outer = typing.List[outer]
        if place == 'partial':
            outer = functools.partial(outer)

        def unmarshal(given):
            built = {} if given == ('left out',) else {'x': given}
            if place == 'nested':
                built = {'n': built} if given != ('left out',) or len(steps) > 2 else {}
            if place == 'item':
                built = [built]
            got = marsh.unmarshal(outer, built)
            if place == 'nested':
                got = got.n
            if place == 'item':
                got = got[0]
            return got.x if place in ('field', 'nested', 'item') else got
    ctx.label(name, how, place)
    ctx.nontrivial('missing' in steps or 'left out' in steps)
    wanted = 0
    for step in steps:
        given = {'missing': marsh.MISSING, 'left out': ('left out',), 'given': element}[step]
        if step == 'left out' and place == 'schema':
            given = marsh.MISSING
        got = unmarshal(given)
        if step == 'given':
            ctx.check(got is not default and got not in made[-1:], f'{name}: the default in place of {element!r}')
        elif how == 'default':
            ctx.check(got is default, f'{name}: {got!r} in place of the default')
        else:
            wanted += 1
            ctx.check(made and got is made[-1], f'{name}: {got!r} in place of what the factory made')
        ctx.check(len(made) == wanted, f'{name}: the factory was called {len(made)} times, expected {wanted}')


SUBS = [
    Sub('kinds', kind_cases, kinds, 1500, 30000),
    Sub(
        'defaultdict',
        lambda: st.tuples(
            t.specs(1), st.lists(st.sampled_from(['a', 'b', 'c']), min_size=1, max_size=3, unique=True),
            st.booleans(), st.sampled_from(['original', 'original', *WAYS]),
        ),
        defaultdict, 1200, 20000,
    ),
    Sub('missing', _cases, missing, 3000, 100000),
    Sub('factories', _factory_cases, factories, 1200, 40000),
]
