"""C32: the helpers given to users for their own tests and classes."""
import dataclasses
import os
import typing

import marsh
import marsh.testing
import pytest
from hypothesis import strategies as st

from vlib import gen
from vlib import types as t
from vlib.core import Sub

PROPERTY = 'C32'
RULE = (
    'Cases are types with elements and expected values, values with expected elements, chains of errors, and class '
    'definitions which are turned into dataclasses several times. Non-trivial: the assertion is wrong in its result but not '
    'in that there is one, an error is raised with a cause of its own, or a class has options of fields or a base that is a dataclass.'
)

FAILED = (AssertionError, pytest.fail.Exception)


def outcome(function, *args, **kwargs):
    """('passed', result), ('failed', None) or ('raised', error) of an assertion."""
    try:
        return 'passed', function(*args, **kwargs)
    except FAILED:
        return 'failed', None
    except Exception as err:
        return 'raised', err


def attempt(function, *args):
    try:
        return 'ok', function(*args)
    except Exception as err:
        return 'bad', err


def _differs(value, how):
    """Something else than the value, the more alike the better."""
    if how == 'nested' and isinstance(value, (list, tuple)) and value:
        return type(value)([*value[:-1], _differs(value[-1], how)]) if type(value) in (list, tuple) else object()
    if how == 'nested' and type(value) is dict and value:
        *_, last = value
        return {**value, last: _differs(value[last], how)}
    if how == 'longer' and type(value) in (list, tuple):
        return type(value)([*value, None])
    if how == 'longer' and type(value) is dict:
        return {**value, 'another key': None}
    if how == 'shorter' and type(value) in (list, tuple) and value:
        return value[:-1]
    if how == 'shorter' and type(value) is dict and value:
        return dict(list(value.items())[:-1])
    if value is None:
        return False
    return None


HOW = st.sampled_from(['same', 'same', 'nested', 'longer', 'shorter', 'other'])


def unmarshal(case, ctx):
    spec, element, how = case
    model = t.Model(spec)
    try:
        status, _ = model.ref(element)
    except t.Unspecified:
        ctx.reject()
    what = f'{model.type} from {element!r}'
    actual, value = attempt(marsh.unmarshal, model.type, element)
    if status != actual:
        # subject of other properties
        ctx.reject()
    ctx.label(status, how)
    got = outcome(marsh.testing.unmarshal_fails, model.type, element)
    if actual == 'bad':
        kind = 'passed' if isinstance(value, marsh.errors.UnmarshalError) else 'raised'
        ctx.check(got[0] == kind, f'{what}: unmarshal_fails {got}, but there is {value!r}')
        got = outcome(marsh.testing.unmarshal_succeeds, model.type, element, None)
        ctx.check(got[0] != 'passed', f'{what}: unmarshal_succeeds {got}, but there is {value!r}')
        return
    ctx.check(got[0] == 'failed', f'{what}: unmarshal_fails {got}, but the result is {value!r}')
    expected = value if how == 'same' else _differs(value, how)
    same = bool(expected == value)
    if how == 'same' and not same:
        # a nan
        ctx.label('not equal to itself')
    again = attempt(marsh.unmarshal, model.type, element)[1]
    if bool(expected == again) != same:
        ctx.reject()
    ctx.nontrivial(not same)
    got = outcome(marsh.testing.unmarshal_succeeds, model.type, element, expected)
    ctx.check(got[0] == ('passed' if same else 'failed'), f'{what}: unmarshal_succeeds with {expected!r} {got}, the result is {value!r}')
    if same:
        ctx.check(model.neutral(got[1]) == model.neutral(value), f'{what}: unmarshal_succeeds returns {got[1]!r}')


class Odd:
    """Nothing that can be marshaled."""

    def __call__(self):
        pass


def _plain(value):
    if isinstance(value, dict):
        return {k: _plain(v) for k, v in value.items()}
    if isinstance(value, (list, tuple)):
        return tuple(map(_plain, value))
    return value


def _written(value, style):
    """The same element with other sequence types, and its mappings in another order."""
    if isinstance(value, dict):
        items = list(value.items())
        return {k: _written(v, style) for k, v in (items[::-1] if style % 3 == 1 else items)}
    if isinstance(value, (list, tuple)):
        return (list, tuple)[style % 2](_written(v, style // 2) for v in value)
    return value


def marshal(case, ctx):
    spec, element, how, style, odd = case
    if how == 'plain':
        value = element
    else:
        model = t.Model(spec)
        status, value = attempt(marsh.unmarshal, model.type, element)
        if status == 'bad':
            ctx.reject()
    if odd:
        value = {'a': [value, Odd()]} if odd == 1 else [Odd(), value]
    actual, written = attempt(marsh.marshal, value)
    ctx.label(actual, how)
    got = outcome(marsh.testing.marshal_fails, value)
    if actual == 'bad':
        kind = 'passed' if isinstance(written, marsh.errors.MarshalError) else 'raised'
        ctx.nontrivial()
        ctx.check(got[0] == kind, f'{value!r}: marshal_fails {got}, but there is {written!r}')
        got = outcome(marsh.testing.marshal_succeeds, value, None)
        ctx.check(got[0] != 'passed', f'{value!r}: marshal_succeeds {got}, but there is {written!r}')
        return
    ctx.check(got[0] == 'failed', f'{value!r}: marshal_fails {got}, but the result is {written!r}')
    expected = _written(written if how in ('same', 'plain') else _differs(written, how), style)
    same = bool(_plain(expected) == _plain(written))
    ctx.nontrivial(not same)
    got = outcome(marsh.testing.marshal_succeeds, value, expected)
    ctx.check(got[0] == ('passed' if same else 'failed'), f'{value!r}: marshal_succeeds with {expected!r} {got}, the result is {written!r}')


# ------------------------------------------------------------------ causes

KINDS = {
    'value': ValueError, 'unicode': UnicodeError, 'key': KeyError, 'lookup': LookupError, 'type': TypeError,
    'marsh': marsh.errors.MarshError, 'unmarshal': marsh.errors.UnmarshalError, 'missing': marsh.errors.MissingValueError,
    'marshal': marsh.errors.MarshalError, 'path': marsh.errors.PathError, 'exception': Exception, 'runtime': RuntimeError,
}


def _raise(chain):
    """The errors of a chain are raised from the last to the first."""
    kind, how, other = chain[0]
    error = KINDS[kind]('no')
    if len(chain) == 1:
        raise error
    try:
        _raise(chain[1:])
    except Exception as err:
        if how == 'from':
            raise error from err
        if how == 'none':
            raise error from None
        if how == 'other':
            # another error than the one which is handled is the cause
            raise error from KINDS[other]('cause')
        raise error


def _causes(error):
    while error is not None:
        yield error
        error = error.__cause__


def _related(error):
    todo, seen = [error], []
    while todo:
        error = todo.pop()
        if error is not None and not any(error is e for e in seen):
            seen.append(error)
            todo += [error.__cause__, error.__context__]
    return seen


def causes(case, ctx):
    chain, base, cause, through = case
    status, raised = attempt(_raise, chain) if chain else ('ok', None)
    expected_base = KINDS[base] if base else marsh.errors.MarshError
    expected_cause = KINDS[cause] if cause else None

    def run():
        kwargs = {'base': KINDS[base]} if base else {}
        if cause:
            kwargs['cause'] = expected_cause
        with marsh.testing.catch_cause(**kwargs):
            if chain:
                _raise(chain)

    class Failing(marsh.annotation.Annotation):
        def __call__(self, value):
            if chain:
                _raise(chain)
            return value

    if through:
        # errors that are not those of marsh become the cause of one
        type_ = typing.Annotated[int, Failing]
        status, raised = attempt(marsh.unmarshal, type_, 1)
        expected_base = marsh.errors.UnmarshalError

        def run():  # noqa: F811
            marsh.testing.unmarshal_fails(type_, 1, *([expected_cause] if cause else []))
    ctx.label(f'chain {len(chain)}', 'through' if through else 'direct', *(how for _, how, _ in chain[:-1]))
    kind, result = outcome(run)
    what = f'{chain} base {base} cause {cause} {through}'
    if status == 'ok':
        ctx.check(kind == 'failed', f'{what}: {kind}, but nothing is raised')
        return
    if not isinstance(raised, expected_base):
        ctx.check(kind == 'raised' and type(result) is type(raised), f'{what}: {kind} {result!r}, but {raised!r} is raised')
        return
    if cause is None:
        ctx.check(kind == 'passed', f'{what}: {kind}')
        return
    if any(isinstance(e, expected_cause) for e in _causes(raised)):
        ctx.nontrivial(not isinstance(raised, expected_cause))
        ctx.check(kind == 'passed', f'{what}: {kind}, but there is the cause {[*_causes(raised)]!r}')
    elif not any(isinstance(e, expected_cause) for e in _related(raised)):
        ctx.nontrivial()
        ctx.check(kind == 'failed', f'{what}: {kind}, but there is no such cause {[*_causes(raised)]!r}')


@st.composite
def cause_cases(draw):
    kind = st.sampled_from(sorted(KINDS))
    chain = draw(st.lists(st.tuples(kind, st.sampled_from(['from', 'from', 'none', 'other', 'other', 'context']), kind), max_size=4))
    parts = [k for k, *_ in chain] + [k for _, how, k in chain[:-1] if how == 'other']
    near = gen.pick(st.sampled_from(parts), st.sampled_from(parts), kind) if parts else kind
    base = gen.pick(st.sampled_from(['exception', chain[0][0]]), st.none() | kind) if chain else st.none() | kind
    return chain, draw(base), draw(gen.pick(near, near, near, st.none())), draw(st.booleans())


# ------------------------------------------------------------------ dataclasses

_DEFAULTS = {'zero': 0, 'text': 'a', 'none': None, 'tuple': ()}
_FACTORIES = {'list': list, 'dict': dict}


def _define(description, base):
    """A class with the fields of the description, not yet a dataclass."""
    name, fields, _, extra = description
    namespace = {'__annotations__': {}}
    for field, hint, options in fields:
        if hint:
            namespace['__annotations__'][field] = typing.Any if hint == 'any' else typing.ClassVar[int] if hint == 'class' else int
        options = dict(options)
        default = options.pop('default', None)
        factory = options.pop('factory', None)
        if factory and hint == 'any':
            namespace[field] = dataclasses.field(default_factory=_FACTORIES[factory], **options)
        elif default and options and hint in ('any', 'int'):
            namespace[field] = dataclasses.field(default=_DEFAULTS[default], **options)
        elif default:
            namespace[field] = _DEFAULTS[default]
        elif options and hint in ('any', 'int'):
            namespace[field] = dataclasses.field(**options)
    if extra:
        namespace['method'] = lambda self: 'method'
    return type(name, (base,) if base else (), namespace)


def _signature(cls):
    return [
        (f.name, f.init, f.repr, f.hash, f.compare, f.kw_only, f.default is dataclasses.MISSING or f.default,
         f.default_factory is dataclasses.MISSING or f.default_factory, f.type)
        for f in dataclasses.fields(cls)
    ]


def as_dataclass(case, ctx):
    descriptions, times, values = case
    base = other = None
    try:
        for i, description in enumerate(descriptions):
            cls, twin = _define(description, base), _define(description, other)
            decorated = description[2]
            if decorated is not None:
                # is a dataclass already
                options = dict(decorated)
                cls, twin = dataclasses.dataclass(**options)(cls), dataclasses.dataclass(**options)(twin)
            elif i == len(descriptions) - 1 or description[3]:
                twin = dataclasses.dataclass(twin)
                before = cls
                for _ in range(times):
                    try:
                        cls = marsh.utils.as_dataclass(cls)
                    except Exception as err:
                        ctx.fail(f'{descriptions}: {err!r}')
                    ctx.check(cls is before, f'{descriptions}: another class')
            base, other = cls, twin
        if descriptions[-1][2] is not None:
            for _ in range(times):
                try:
                    cls = marsh.utils.as_dataclass(cls)
                except Exception as err:
                    ctx.fail(f'{descriptions}: {err!r} for a class that is a dataclass')
    except (AttributeError, TypeError, ValueError):
        # not a valid definition
        ctx.reject()
    ctx.label(f'{len(descriptions)} classes', f'{times} times')
    ctx.nontrivial(times > 1 or len(descriptions) > 1)
    what = f'{descriptions} {times} times'
    ctx.check(_signature(cls) == _signature(twin), f'{what}: {_signature(cls)}, expected {_signature(twin)}')
    made, want = [], []
    for target, into in ((cls, made), (twin, want)):
        for args, kwargs in values:
            try:
                value = target(*args, **kwargs)
            except TypeError:
                into.append('refused')
                continue
            for action in (
                lambda v: repr(v).partition(' at 0x')[0], hash, vars, lambda v: v == target(*args, **kwargs), lambda v: v < target(*args, **kwargs),
                lambda v: v.__match_args__,
            ):
                try:
                    into.append(action(value) if action is not hash else bool(hash(value)) or 'hash')
                except Exception as err:
                    into.append(type(err))
            try:
                value.a = 5
                into.append('assigned')
            except Exception as err:
                into.append(type(err))
    ctx.check(made == want, f'{what}: {made}, expected {want}')


@st.composite
def dataclass_cases(draw):
    options = st.dictionaries(st.sampled_from(['init', 'repr', 'compare', 'kw_only']), st.booleans(), max_size=2)
    fields = st.lists(st.tuples(
        st.sampled_from(['a', 'b', 'c']), st.sampled_from(['any', 'any', 'int', 'class', '']),
        st.tuples(options, st.sampled_from([None, None, *_DEFAULTS]), st.sampled_from([None, None, *_FACTORIES])).map(
            lambda o: sorted({**o[0], **({'factory': o[2]} if o[2] else {'default': o[1]} if o[1] else {})}.items())),
    ), max_size=3, unique_by=lambda f: f[0])
    decorated = gen.pick(st.none(), st.none(), st.dictionaries(
        st.sampled_from(['frozen', 'kw_only', 'order', 'unsafe_hash', 'eq', 'repr']), st.booleans(), max_size=2).map(lambda d: sorted(d.items())))
    descriptions = [
        (f'C{i}', draw(fields), draw(decorated), draw(st.booleans())) for i in range(draw(st.integers(1, 3)))
    ]
    values = draw(st.lists(st.tuples(
        st.lists(st.integers(0, 2), max_size=2), st.dictionaries(st.sampled_from(['a', 'b', 'c']), st.integers(3, 5), max_size=2),
    ), max_size=4))
    return descriptions, draw(st.integers(1, 3)), [((), {}), *values]


def width(case, ctx):
    """The width for texts follows the terminal but is never too small for a text."""
    columns, lines = case
    before = {name: os.environ.get(name) for name in ('COLUMNS', 'LINES')}
    try:
        os.environ.update(COLUMNS=columns, LINES=lines)
        got = marsh.utils.get_terminal_width()
        ctx.nontrivial()
        ctx.check(isinstance(got, int) and got >= 11, f'{columns!r}: {got!r}')
        if columns.isdecimal() and int(columns) > 13:
            ctx.check(got == int(columns) - 2, f'{columns!r}: {got!r}')
    finally:
        for name, value in before.items():
            if value is None:
                os.environ.pop(name, None)
            else:
                os.environ[name] = value


def _typed():
    return t.specs(2).flatmap(lambda s: st.tuples(st.just(s), gen.pick(t.valid(s), t.valid(s), t.MESSY)))


SUBS = [
    Sub('unmarshal', lambda: st.tuples(_typed(), HOW).map(lambda c: (*c[0], c[1])), unmarshal, 1500, 50000),
    Sub('marshal', lambda: st.tuples(
        t.specs(2).flatmap(lambda s: st.tuples(st.just(s), t.valid(s))), gen.pick(HOW, st.just('plain')), st.integers(0, 7),
        st.sampled_from([0, 0, 0, 1, 2]),
    ).map(lambda c: (*c[0], *c[1:])), marshal, 1500, 50000),
    Sub('causes', cause_cases, causes, 1500, 50000),
    Sub('as_dataclass', dataclass_cases, as_dataclass, 1500, 50000),
    Sub('width', lambda: st.tuples(gen.pick(st.integers(-5, 300).map(str), st.sampled_from(['', 'a', '0', '13', '14', '12'])), st.sampled_from(['', '24', '0'])), width, 200, 2000),
]
