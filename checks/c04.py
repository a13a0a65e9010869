"""C04: failures are marsh errors which locate the offending part of the input."""
import dataclasses
import typing

import marsh
from hypothesis import strategies as st

from vlib import containers, gen
from vlib import types as t
from vlib.core import Sub
from vlib.oracle import ref_split

PROPERTY = 'C04'
RULE = (
    'Cases are a generated type and an element that was damaged in one or two places (or '
    'is arbitrary). The independent reference computes the set of all locations at which '
    'the element does not fit; the path of the raised error must be one of these. '
    'Non-trivial: the element does not fit and at least one location is below the root.'
)


def located(case, ctx):
    spec, element = case
    model = t.Model(spec)
    try:
        status, errors = model.ref(element)
    except t.Unspecified:
        ctx.reject()
    if status == 'ok':
        marsh.unmarshal(model.type, element)
        return
    ctx.label(*(f'depth {min(len(path), 4)}' for path, _ in errors))
    ctx.nontrivial(any(path for path, _ in errors))
    try:
        value = marsh.unmarshal(model.type, element)
    except marsh.errors.MarshError as caught:
        err = caught
    else:
        ctx.fail(f'{model.type} accepts {element!r} as {value!r}, errors expected at {errors!r}')
    ctx.check(
        isinstance(err, marsh.errors.UnmarshalError),
        f'{model.type} from {element!r}: {type(err)} is no UnmarshalError',
    )
    fields = ref_split(err.path)
    missing = isinstance(err, marsh.errors.MissingValueError)
    locations = {path for path, _ in errors}
    ctx.check(
        fields in locations,
        f'{model.type} from {element!r}: the error {err!r} is located at {err.path!r}, expected one of {locations!r}',
    )
    if (fields, not missing) in errors and (fields, missing) not in errors:
        ctx.fail(
            f'{model.type} from {element!r}: the error at {err.path!r} is a {type(err).__name__}'
            f', but the value is {"not " if missing else ""}missing',
        )
    if missing:
        ctx.label('missing')
    text = str(err)
    ctx.check(
        not fields or err.path in text,
        f'the message {text!r} of the error does not include its path {err.path!r}',
    )


# combinations of types which put hard to escape keys and indices on the way to the error
@st.composite
def _deep(draw):
    """(spec, element, path): a wrong leaf below a chain of containers."""
    spec, element = ('int',), draw(st.sampled_from(['no int', None, [], '???', 'x.5', {'a': 1}, (1, 2)]))
    path = []
    for kind in draw(st.lists(st.sampled_from(['list', 'dict', 'tuple', 'dataclass', 'typeddict', 'namedtuple', 'opt', 'class', 'annotated', 'seq', 'map', 'cont list', 'cont dict']), min_size=1, max_size=5)):
        style = None
        if kind.startswith('cont '):
            kind = kind[5:]
            styles = containers.SEQUENCE if kind == 'list' else containers.MAPPING
            style = draw(st.sampled_from([s for s in styles if s not in containers.UNTYPED]))
        if kind in ('list', 'seq'):
            good = draw(st.integers(0, 3))
            element = draw(st.sampled_from([list, tuple]))([draw(t.valid(spec, True)) for _ in range(good)] + [element])
            spec = (kind, spec, draw(st.booleans()))
            path.insert(0, str(good))
        elif kind in ('dict', 'map'):
            key = draw(gen.field())
            others = [k for k in draw(st.lists(gen.field(), max_size=2)) if k != key and k != '???']
            element = {**{k: draw(t.valid(spec, True)) for k in others}, key: element}
            spec = (kind, ('str',), spec, draw(st.booleans()))
            path.insert(0, key)
        elif kind == 'tuple':
            good = draw(st.integers(0, 2))
            element = [1] * good + [element]
            if draw(st.booleans()):
                element = {str(i): v for i, v in enumerate(element)}
            spec = ('tuple', [('int',)] * good + [spec], draw(st.booleans()))
            path.insert(0, str(good))
        elif kind in ('opt', 'annotated'):
            if kind == 'opt' and (element is None or element == '???'):
                continue
            if spec[0] != 'opt':
                spec = (kind, spec)
        else:
            name = draw(t.IDENT if kind != 'typeddict' else gen.field())
            if name == '???' or name != name.strip('*'):
                # keys of typed dicts with leading or trailing asterisks: see known_findings.txt
                name = 'q'
            fields = [(name, spec, None)]
            if draw(st.booleans()):
                fields.insert(0, ('first' if kind != 'typeddict' else 'fir.st', ('int',), None))
            if draw(st.booleans()):
                fields.append(('last', ('str',), ('value', 'x') if kind != 'typeddict' else None))
            given = {f: 1 for f, type_, default in fields if f != name and default is None}
            element = {**given, name: element}
            if kind != 'typeddict' and draw(st.booleans()):
                element = [element[f] for f, _, _ in fields if f in element]
            spec = (kind, fields, True)
            path.insert(0, name)
        if style is not None:
            spec = ('cont', style, spec)
    return spec, element, path


def deep(case, ctx):
    spec, element, path = case
    model = t.Model(spec)
    if '???' in path:
        ctx.reject()
    try:
        status, errors = model.ref(element)
    except t.Unspecified:
        ctx.reject()
    ctx.nontrivial(status == 'bad')
    if status == 'bad':
        ctx.label(f'path of length {len(path)}')
        located((spec, element), ctx)


# types which can not be unmarshaled

UNSUPPORTED = {
    'frozenset': (typing.FrozenSet[int], [1]),
    'callable': (typing.Callable[[int], int], 'os.getcwd'),
    'variable': (typing.TypeVar('Unbound'), 1),
    'iterator': (typing.Iterator[int], [1]),
    'inside': (typing.List[typing.FrozenSet[int]], [[1]]),
    'key': (typing.Dict[typing.FrozenSet[int], int], {'a': 1}),
    'value': (typing.Mapping[str, typing.Iterator[str]], {'a': 'b'}),
}
# kind: the type with a single field (that matters)
AROUND = {
    'dataclass': lambda name, type_: dataclasses.make_dataclass('D', [(name, type_)]),
    'frozen': lambda name, type_: dataclasses.make_dataclass('D', [('first', int, 0), (name, type_, dataclasses.field(kw_only=True))]),
    'init only': lambda name, type_: dataclasses.make_dataclass('D', [(name, dataclasses.InitVar[type_])]),
    'namedtuple': lambda name, type_: typing.NamedTuple('N', [(name, type_)]),
    'typeddict': lambda name, type_: typing.TypedDict('T', {name: type_}),
    'optional key': lambda name, type_: typing.TypedDict('T', {name: type_}, total=False),
    'class': lambda name, type_: _class(name, type_),
    'function': lambda name, type_: _function(name, type_),
    'keyword only': lambda name, type_: _function(f'*, {name}', type_),
}
BETWEEN = {
    'list': (lambda type_: typing.List[type_], lambda element: ('0', [element])),
    'tuple': (lambda type_: typing.Tuple[int, type_], lambda element: ('1', [1, element])),
    'dict': (lambda type_: typing.Dict[str, type_], lambda element: ('k', {'k': element})),
    'optional': (lambda type_: typing.Optional[type_], lambda element: (None, element)),
    'annotated': (lambda type_: typing.Annotated[type_, 'note'], lambda element: (None, element)),
}


def _function(parameters, type_):
    scope = {'TYPE': type_}
    exec(f'def function({parameters}: TYPE):\n    return 1', scope)
    return scope['function']


def _class(name, type_):
    scope = {'TYPE': type_}
    exec(f'class C:\n    def __init__(self, {name}: TYPE):\n        self.value = {name}', scope)
    return scope['C']


def unsupported(case, ctx):
    """A type that can not be unmarshaled is located at the field it is the type of."""
    name, levels = case
    type_, element = UNSUPPORTED[name]
    path, required = [], []
    for level in reversed(levels):
        if level in BETWEEN:
            wrap, fill = BETWEEN[level]
            if callable(type_) and not isinstance(type_, type) and not hasattr(type_, '__origin__'):
                # a function is no type
                ctx.reject()
            type_ = wrap(type_)
            field, element = fill(element)
            if field is not None:
                path.insert(0, field)
        else:
            kind, field = level
            type_ = AROUND[kind](field, type_)
            element = {field: element}
            path.insert(0, field)
            required.insert(0, field)
    ctx.label(name, *(level if level in BETWEEN else level[0] for level in levels))
    ctx.nontrivial(len(required) > 0)
    try:
        value = marsh.unmarshal(type_, element)
    except marsh.errors.MarshError as caught:
        err = caught
    else:
        ctx.fail(f'{type_} accepts {element!r} as {value!r}')
    where = f'{type_} ({levels!r}) from {element!r}'
    ctx.check(isinstance(err, marsh.errors.UnmarshalError), f'{where}: {type(err)} is no UnmarshalError')
    fields = list(ref_split(err.path))
    # whether items of containers are part of the path does not matter, as the type is the same for all of them
    ctx.check(
        _subsequence(required, fields) and _subsequence(fields, path),
        f'{where}: the error {err!r} is located at {err.path!r} instead of {required!r}',
    )


def _subsequence(some, all_):
    rest = iter(all_)
    return all(item in rest for item in some)


def _unsupported_cases():
    around = st.tuples(st.sampled_from(list(AROUND)), st.sampled_from(['x', 'first_', 'value', 'name_of', 'k', 'é']))
    return st.tuples(
        st.sampled_from(list(UNSUPPORTED)),
        st.lists(st.one_of(around, around, st.sampled_from(list(BETWEEN))), min_size=1, max_size=5).map(tuple),
    )


SUBS = [
    Sub('located', lambda: t.typed_elements(t.specs(2)), located, 2500, 100000),
    Sub('containers', lambda: t.typed_elements(containers.specs()), located, 1000, 40000),
    Sub('deep', _deep, deep, 2000, 80000),
    Sub('unsupported', _unsupported_cases, unsupported, 2000, 60000),
]
