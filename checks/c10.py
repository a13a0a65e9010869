"""C10: annotation callbacks run once, in order, on the way through."""
import dataclasses
import typing

import marsh
import typing_extensions
from hypothesis import strategies as st

from vlib import gen, modules
from vlib import types as t
from vlib.core import Sub
from vlib.oracle import ref_split

PROPERTY = 'C10'
RULE = (
    'Cases are annotated types with any mix of pre-callbacks, post-callbacks (given as '
    'classes or instances, from nested Annotated forms) and unrelated metadata, at the top '
    'or inside of containers, fields and unions, with callbacks that replace, wrap, pass on '
    'or fail. The log of all calls and the result are compared with a reference. '
    'Non-trivial: at least two callbacks, or a callback that fails.'
)


class Failure(Exception):
    pass


ERRORS = {
    'value': ValueError, 'type': TypeError, 'key': KeyError, 'zero': ZeroDivisionError, 'assert': AssertionError,
    'own': Failure, 'marsh': marsh.errors.MarshError, 'unmarshal': marsh.errors.UnmarshalError, 'stop': StopIteration,
}


def make(kind, name, action, argument, as_class, log):
    base = marsh.annotation.PreAnnotation if kind == 'pre' else marsh.annotation.Annotation

    def call(self, value):
        log.append((name, repr(value)))
        if action == 'fail':
            raise ERRORS[argument]('failed on purpose')
        if action == 'replace':
            return argument
        if action == 'wrap':
            return [value, name]
        return value
    if action == 'bare':
        # the base itself changes nothing
        return base if as_class else base()
    cls = type(f'Callback{name}', (base,), {'__call__': call})
    return cls if as_class else cls()


SOURCES = {
    'namedtuple': 'class Box(typing.NamedTuple):\n%s',
    'typeddict': 'class Box(typing.TypedDict):\n%s',
    'dataclass': '@dataclasses.dataclass\nclass Box:\n%s',
    'optionals': 'class Box(typing.TypedDict, total=False):\n%s',
    'required': 'class Box(typing.TypedDict, total=False):\n%s',
    'plain': None,
}
STRUCTURES = [kind + style for kind in SOURCES for style in ('', ' text')]


def structure(place, type_, size):
    """A class with fields of the type, annotated by the type or by its name."""
    kind, _, text = place.partition(' ')
    annotation = 'T'
    if kind == 'required':
        annotation = 'typing.Required[T]'
    if kind == 'plain':
        source = 'class Box:\n def __init__(self, %s):\n' % ', '.join(f'f{i}: T' for i in range(size))
        source += ''.join(f'  self.f{i} = f{i}\n' for i in range(size))
    else:
        source = SOURCES[kind] % ''.join(f' f{i}: {annotation}\n' for i in range(size))
    if text:
        source = 'from __future__ import annotations\n' + source
    return modules.define(source, T=type_, typing=typing, dataclasses=dataclasses).Box


def run(ops, inner, element, path, log):
    """Reference: the result, or raises Bad / Stop."""
    result = element
    for i, kind, action, argument, _ in numbered(ops):
        if kind == 'pre':
            if action != 'bare':
                log.append((i, repr(result)))
            if action == 'fail':
                t.fail(path)
            result = _apply(action, argument, result, i)
    form = inner.ref(result, path)
    for i, kind, action, argument, _ in numbered(ops):
        if kind == 'post':
            if action != 'bare':
                log.append((i, None))
            if action == 'fail':
                t.fail(path)
            if action == 'replace':
                form = t.element_neutral(argument)
            elif action == 'wrap':
                form = ('list', [form, t.scalar(i)])
    return form


def numbered(ops):
    """(name, operation...): an operation can be there several times."""
    for i, op in enumerate(ops):
        if op[0] == 'again':
            i = op[1] % len(ops)
            op = ops[i]
            if op[0] == 'again':
                op = ('note', 'text', None, False)
        yield (str(i), *op)


def _apply(action, argument, value, name):
    return argument if action == 'replace' else [value, name] if action == 'wrap' else value


NOTES = {
    'text': 'note', 'number': 3, 'list': ['a'], 'dict': {'k': 1}, 'type': int, 'none': None, 'function': len,
    'set': {1}, 'class': Failure, 'typevar': typing.TypeVar('T'), 'dataclass': dataclasses.make_dataclass('M', ['a'])(1),
}


def annotate(type_, ops, nested, log):
    metadata, made = [], {}
    for i, kind, action, argument, as_class in numbered(ops):
        if i not in made:
            made[i] = NOTES[action] if kind == 'note' else make(kind, i, action, argument, as_class, log)
        metadata.append(made[i])
    annotated = typing.Annotated if nested != 'ext' else typing_extensions.Annotated
    if not metadata:
        return annotated[type_, 'note']
    if nested == 'nested' and len(metadata) > 1:
        half = len(metadata) // 2
        return typing.Annotated[(typing.Annotated[(type_, *metadata[:half])], *metadata[half:])]
    return annotated[(type_, *metadata)]


def callbacks(case, ctx):
    spec, ops, elements, place, nested = case
    model = t.Model(spec)
    log, expected_log = [], []
    t.clear_typing_caches()
    type_ = annotate(model.type, ops, nested, log)
    if place == 'top':
        elements = elements[:1]
    if place in ('optionals', 'optionals text', 'required text') and any(map(t.is_missing, elements)):
        # these are left out
        ctx.reject()
    real = [op[1:] for op in numbered(ops) if op[1] != 'note']
    ctx.nontrivial(len(real) > 1 or any(op[1] == 'fail' for op in real))
    ctx.label(place, nested, *(f'{k} {a}' for k, a, _, _ in real))
    paths = {
        'top': lambda i: (), 'list': lambda i: (str(i),), 'tuple': lambda i: (str(i),), 'dict': lambda i: (f'k.{i}',),
        'field': lambda i: (f'f{i}',), 'opt': lambda i: (str(i),), 'double': lambda i: (str(i), '0'),
    }.get(place, lambda i: (f'f{i}',))
    forms, failed = [], None
    errors = []
    try:
        for i, element in enumerate(elements):
            if place == 'opt' and (element is None or t.is_missing(element)):
                try:
                    forms.append(run(ops, model.root, element, paths(i), expected_log))
                except t.Bad:
                    forms.append(t.scalar(None))
                continue
            forms.append(run(ops, model.root, element, paths(i), expected_log))
    except t.Bad as err:
        errors = [tuple(f for f in path if f) for path, _ in err.errors]
        failed = True
    except t.Unspecified:
        ctx.reject()
    full, element = {
        'top': lambda: (type_, elements[0]),
        'list': lambda: (typing.List[type_], list(elements)),
        'tuple': lambda: (typing.Tuple[tuple(type_ for _ in elements)], list(elements)),
        'dict': lambda: (typing.Dict[str, type_], {f'k.{i}': e for i, e in enumerate(elements)}),
        'field': lambda: (
            dataclasses.make_dataclass('Box', [(f'f{i}', type_) for i in range(len(elements))]),
            {f'f{i}': e for i, e in enumerate(elements)},
        ),
        'opt': lambda: (typing.List[typing.Optional[type_]], list(elements)),
        'double': lambda: (typing.List[typing.Tuple[type_, ...]], [[e] for e in elements]),
    }.get(place, lambda: (
        structure(place, type_, len(elements)), {f'f{i}': e for i, e in enumerate(elements)},
    ))()
    what = f'{full} from {element!r}, callbacks {ops!r}'
    try:
        value = marsh.unmarshal(full, element)
    except marsh.errors.MarshError as err:
        ctx.check(failed, f'{what}: {err!r}')
        ctx.check(
            ref_split(err.path) in errors,
            f'{what}: error at {err.path!r}, expected at {errors!r}',
        )
    else:
        ctx.check(not failed, f'{what}: accepted as {value!r}')
        values = {
            'top': lambda: [value], 'list': lambda: value, 'tuple': lambda: list(value), 'dict': lambda: list(value.values()),
            'field': lambda: [getattr(value, f'f{i}') for i in range(len(elements))], 'opt': lambda: value,
            'double': lambda: [v[0] for v in value],
        }.get(place, lambda: [
            value[f'f{i}'] if isinstance(value, dict) else getattr(value, f'f{i}') for i in range(len(elements))
        ])()
        got = [model.neutral(v) for v in values]
        ctx.check(got == forms, f'{what}: {got!r}, expected {forms!r}')
    ctx.check(
        len(log) == len(expected_log)
        and all(a[0] == b[0] and b[1] in (None, a[1]) for a, b in zip(log, expected_log)),
        f'{what}: calls {log!r}, expected {expected_log!r}',
    )


def fallback(case, ctx):
    """A failing callback makes a member of a union fail; defaults pass through post-callbacks."""
    first_fails, kind, value, default, error = case
    log = []
    failing = make(kind, '0', 'fail' if first_fails else 'pass', error, False, log)
    type_ = typing.Union[typing.Annotated[int, failing], str]
    ctx.nontrivial()
    got = marsh.unmarshal(type_, value)
    expected = str(value) if first_fails else value
    ctx.check(got == expected and type(got) is type(expected), f'{type_} from {value!r}: {got!r}')
    ctx.check(len(log) == 1, f'{type_} from {value!r}: calls {log!r}')
    mark = make('post', '1', 'wrap', None, default % 2 == 0, log)
    box = dataclasses.make_dataclass('Box', [('a', typing.Annotated[int, mark], default)])
    ctx.check(marsh.unmarshal(box, {'a': value}).a == [value, '1'], 'a given value does not pass the callback')
    got = marsh.unmarshal(box, {}).a
    ctx.check(got == [default, '1'], f'the default value {default} does not pass the callback: {got!r}')


def builtin(case, ctx):
    """Positive, Negative, Unsigned and Populated."""
    names, as_class, spec, element = case
    limits = {
        'Positive': lambda v: v > 0, 'Negative': lambda v: v < 0, 'Unsigned': lambda v: v >= 0, 'Populated': lambda v: len(v) > 0,
    }
    sized = spec[0] not in ('int', 'float', 'bool')
    names = [n for n in names if (n == 'Populated') == sized]
    if not names:
        ctx.reject()
    model = t.Model(spec)
    metadata = [getattr(marsh.annotation, n) for n in names]
    if not as_class:
        metadata = [m() for m in metadata]
    type_ = typing.Annotated[(model.type, *metadata)]
    status, expected = model.ref(element)
    fits = status == 'ok' and all(limits[n](model.realize(expected)) for n in names)
    ctx.nontrivial(status == 'ok')
    ctx.label(*names, 'ok' if fits else 'bad')
    try:
        got = marsh.unmarshal(type_, element)
    except marsh.errors.UnmarshalError as err:
        ctx.check(not fits, f'{type_} from {element!r}: {err!r}')
    else:
        ctx.check(fits, f'{type_} accepts {element!r} as {got!r}')
        ctx.check(model.neutral(got) == expected, f'{type_} from {element!r}: {got!r}')


_ACTIONS = gen.pick(
    st.just(('pass', None)), st.just(('pass', None)), st.just(('bare', None)), st.just(('wrap', None)),
    st.tuples(st.just('replace'), gen.pick(gen.scalars(), st.just(5), st.just('1'), st.just([1]))),
    st.tuples(st.just('fail'), st.sampled_from(sorted(ERRORS))),
)
_OPS = st.lists(
    gen.pick(
        st.builds(lambda a, c: ('pre', *a, c), gen.pick(_ACTIONS, st.just(('pass', None))), st.booleans()),
        st.builds(lambda a, c: ('post', *a, c), _ACTIONS, st.booleans()),
        st.builds(lambda a, c: ('post', *a, c), _ACTIONS, st.booleans()),
        st.builds(lambda n: ('note', n, None, False), st.sampled_from(sorted(NOTES))),
        st.builds(lambda n: ('again', n, None, False), st.integers(0, 4)),
    ),
    max_size=5,
)


@st.composite
def _cases(draw):
    inner = draw(gen.pick(t.SCALARS, t.LEAVES, t.specs(1)).filter(lambda s: s[0] not in ('annotated', 'opt', 'union', 'none', 'any', 'typevar')))
    elements = draw(st.lists(gen.pick(t.valid(inner), t.valid(inner), t.valid(inner), st.sampled_from([t.MISSING, None]), t.MESSY), min_size=1, max_size=3))
    place = draw(st.sampled_from(['top', 'top', 'list', 'tuple', 'dict', 'field', 'opt', 'double', *STRUCTURES]))
    if place == 'opt':
        elements = [None if draw(st.integers(0, 3)) == 0 else e for e in elements]
    return inner, draw(_OPS), elements, place, draw(st.sampled_from(['plain', 'nested', 'ext']))


SUBS = [
    Sub('callbacks', _cases, callbacks, 3000, 80000),
    Sub('fallback', lambda: st.tuples(
        st.booleans(), st.sampled_from(['pre', 'post']), st.integers(0, 99), st.integers(0, 99), st.sampled_from(sorted(ERRORS))), fallback, 150, 2000),
    Sub('builtin', lambda: st.tuples(
        st.lists(st.sampled_from(['Positive', 'Negative', 'Unsigned', 'Populated', 'Populated']), min_size=1, max_size=3), st.booleans(),
        gen.pick(st.just(('int',)), st.just(('float',)), st.just(('str',)), st.just(('list', ('int',), True)), st.just(('dict', ('str',), ('int',), True))),
        gen.pick(st.integers(-2, 2), st.sampled_from([0.0, -0.5, 0.5, '', 'a', '0', '-1', [], [1], {}, {'a': 1}]))), builtin, 700, 10000),
]
