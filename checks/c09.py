"""C09: argument binding agrees with calling the function."""
import collections
import functools
import inspect

import marsh
from hypothesis import strategies as st

from vlib import gen
from vlib import types as t
from vlib.core import Sub
from vlib.oracle import ref_split

PROPERTY = 'C09'
RULE = (
    'Cases are generated signatures (positional-only, ordinary, variable and keyword-only '
    'parameters, annotated or not, with and without defaults) of functions, methods, '
    'classes, partials, wrapped functions and callable objects, and arguments as a '
    'sequence or a mapping, fitting or not. The bound arguments are passed to the real '
    'callable and what it receives is compared with a reference of python\'s own binding '
    'and of the conversions. Non-trivial: two kinds of parameters, or the arguments do not fit.'
)

RESERVED = {'self', 'cls'}
CLASSES = ('class', 'new', 'meta', 'after new', 'inherited new', 'decorated', 'partial class')
NEW = 'class B:\n    def __new__(cls, *args, **kwargs):\n        return object.__new__(cls)\n'


class Param:

    def __init__(self, name, kind, node, default):
        self.name, self.kind, self.node, self.default = name, kind, node, default


def source(params, name, strings, first=''):
    parts = [first] if first else []
    star = False
    previous = None
    for i, p in enumerate(params):
        if previous == 'pos' and p.kind != 'pos':
            parts.append('/')
        if p.kind == 'kwonly' and not star:
            parts.append('*')
            star = True
        previous = p.kind
        prefix = {'var': '*', 'varkw': '**'}.get(p.kind, '')
        star = star or p.kind == 'var'
        text = prefix + p.name
        if p.node is not None:
            text += f': "T{i}"' if strings else f': T{i}'
        if p.default is not None:
            text += f' = D{i}'
        parts.append(text)
    if previous == 'pos':
        parts.append('/')
    received = ', '.join(f'({p.name!r}, {p.name})' for p in params)
    return f'def {name}({", ".join(parts)}):\n    return [{received}]\n'


def build(params, form, strings):
    """(callable, function giving what was received)"""
    scope = {'functools': functools}
    for i, p in enumerate(params):
        if p.node is not None:
            scope[f'T{i}'] = p.node.type
        if p.default is not None:
            scope[f'D{i}'] = p.default[1]
    if form in ('function', 'wrapped', 'partial'):
        exec(source(params, 'f', strings), scope)
        function = scope['f']
        if form == 'wrapped':
            @functools.wraps(function)
            def wrapper(*args, **kwargs):
                return function(*args, **kwargs)
            return wrapper, lambda r: r
        if form == 'partial':
            return functools.partial(function), lambda r: r
        return function, lambda r: r
    name = {
        'method': 'f', 'static': 'f', 'classmethod': 'f', 'object': '__call__', 'new': '__new__', 'inherited new': '__new__',
        'meta': '__call__',
    }.get(form, '__init__')
    first = {'static': '', 'classmethod': 'cls', 'new': 'cls', 'inherited new': 'cls', 'meta': 'cls'}.get(form, 'self')
    body = source(params, name, strings, first)
    if form in CLASSES:
        made = {'meta': 'super().__call__()', '__new__': 'object.__new__(cls)'}
        if first == 'cls':
            body = body.replace('    return [', f'    self = {made.get(form) or made[name]}\n    self.received = [') + '    return self\n'
        else:
            body = body.replace('return [', 'self.received = [')
    body = ''.join('    ' + line + '\n' for line in body.splitlines())
    decorator = {
        'static': '    @staticmethod\n', 'classmethod': '    @classmethod\n', 'decorated': '    @decorate\n',
    }.get(form, '')
    if form == 'decorated':
        exec('def decorate(f):\n    @functools.wraps(f)\n    def g(*args, **kwargs):\n        return f(*args, **kwargs)\n    return g\n', scope)
    head = {'meta': 'class Meta(type):', 'after new': NEW + 'class C(B):', 'inherited new': 'class B:'}.get(form, 'class C:')
    tail = {
        'meta': 'class C(metaclass=Meta):\n    pass\n', 'inherited new': 'class C(B):\n    pass\n',
    }.get(form, '')
    exec(f'{head}\n{decorator}{body}{tail}', scope)
    cls = scope['C']
    if form == 'partial class':
        return functools.partial(cls), lambda r: r.received
    if form in CLASSES:
        return cls, lambda r: r.received
    if form == 'object':
        return cls(), lambda r: r
    if form == 'classmethod':
        return cls.f, lambda r: r
    return cls().f, lambda r: r


def reference(params, element):
    """Expected [(name, form)]; raises Bad."""
    if t.is_missing(element):
        element = {}
    errors, out = [], []
    named = [p for p in params if p.kind in ('pos', 'any', 'kwonly')]
    var = [p for p in params if p.kind == 'var']
    varkw = [p for p in params if p.kind == 'varkw']
    extra, more = [], {}
    if t.is_seq(element):
        positional = [p for p in named if p.kind != 'kwonly']
        given = {p.name: v for p, v in zip(positional, element)}
        extra = list(element[len(positional):])
        if extra and not var:
            errors.append(((), False))
    elif t.is_map(element):
        given = {p.name: element[p.name] for p in named if p.name in element}
        more = {k: v for k, v in element.items() if k not in given}
        if more and not varkw:
            errors.append(((), False))
    else:
        t.fail(())

    def convert(node, value, path):
        try:
            return (node or t.AnyNode()).ref(value, path)
        except t.Bad as err:
            errors.extend(err.errors)
    for p in params:
        if p.kind == 'var':
            out.append((p.name, ('tuple', [convert(p.node, v, (p.name, str(i))) for i, v in enumerate(extra)] if var else [])))
        elif p.kind == 'varkw':
            out.append((p.name, t.dict_form('dict', [(t.scalar(k), convert(p.node, v, (p.name, k))) for k, v in more.items()])))
        elif p.name in given and not t.is_missing(given[p.name]):
            out.append((p.name, convert(p.node, given[p.name], (p.name,))))
        elif p.default is not None:
            out.append((p.name, t.element_neutral(p.default[1])))
        else:
            out.append((p.name, convert(p.node, t.MISSING, (p.name,))))
    if errors:
        raise t.Bad(errors)
    return out


def _params(specs):
    model = t.Model(('tuple', [('any',) if s is None else s for _, _, s, _ in specs], True))
    nodes = model.root.items
    return model, [
        Param(name, kind, None if spec is None else node, default)
        for (name, kind, spec, default), node in zip(specs, nodes)
    ]


def bind(case, ctx):
    specs, element, form, strings = case
    model, params = _params(specs)
    function, received = build(params, form, strings)
    what = f'{form} {inspect.signature(function)} from {element!r}'
    try:
        expected = reference(params, element)
        errors = None
    except t.Bad as err:
        errors = {(tuple(f for f in path if f), missing) for path, missing in err.errors}
    except t.Unspecified:
        ctx.reject()
    ctx.nontrivial(errors is not None or len({p.kind for p in params}) > 1)
    ctx.label(form, 'bad' if errors else 'ok', type(element).__name__, *(f'param {p.kind}' for p in params))
    try:
        bound = marsh.unmarshal_args(function, element)
    except marsh.errors.MarshError as err:
        ctx.check(errors is not None, f'{what}: {err!r}, expected {None if errors else expected!r}')
        ctx.check(isinstance(err, marsh.errors.UnmarshalError), f'{what}: {err!r} is no unmarshal error')
        location = ref_split(err.path)
        ctx.check(
            any(location == path for path, _ in errors),
            f'{what}: error at {err.path!r}, expected at one of {errors!r}',
        )
        if all(missing for _, missing in errors):
            ctx.check(isinstance(err, marsh.errors.MissingValueError), f'{what}: {err!r} is no missing value error')
        return
    ctx.check(errors is None, f'{what}: accepted as {bound!r}, expected errors at {errors!r}')
    args, kwargs = bound
    try:
        result = received(function(*args, **kwargs))
    except TypeError as err:
        ctx.fail(f'{what}: calling with the bound arguments {bound!r} fails: {err}')
    forms = [(name, model.neutral(value)) for name, value in result]
    ctx.check(forms == expected, f'{what}: the call receives {result!r}: {forms!r}\nexpected {expected!r}')
    if form in CLASSES:
        other = received(marsh.unmarshal(function, element))
        forms = [(name, model.neutral(value)) for name, value in other]
        ctx.check(forms == expected, f'unmarshal {what}: the constructor receives {other!r}, expected {expected!r}')
    else:
        # a fitting value for all given arguments is python's own binding
        inspect.signature(function).bind(*args, **kwargs)


def caller(case, ctx):
    """Arguments of the caller (as they are) fill what the element does not give."""
    before = repr(case)
    try:
        fill(case, ctx)
    finally:
        ctx.check(repr(case) == before, f'the arguments {before} are {case!r} afterwards')


def fill(case, ctx):
    specs, element, default_args, default_kwargs = case
    model, params = _params(specs)
    function, received = build(params, 'function', False)
    signature = inspect.signature(function)
    try:
        given = signature.bind_partial(*default_args, **default_kwargs)
    except TypeError as err:
        # neither does any other call take these arguments
        ctx.label('no call')
        ctx.nontrivial()
        try:
            got = marsh.schema.argument.ArgumentsUnmarshalSchema(function).unmarshal(
                element, default_args=default_args, default_kwargs=default_kwargs)
        except (TypeError, marsh.errors.MarshError):
            return
        ctx.fail(f'{signature} from {element!r} with {default_args!r}, {default_kwargs!r}: {got!r}, but {err}')
    if t.is_seq(element) and default_args and len(default_args) > len([p for p in params if p.kind in ('pos', 'any')]):
        # both give variable positional arguments
        ctx.reject()
    var = next((p.name for p in params if p.kind == 'var'), None)
    varkw = next((p.name for p in params if p.kind == 'varkw'), None)
    provided = dict(given.arguments)
    # the element overrides the arguments of the caller: look at them as defaults
    filled = []
    for p in params:
        if p.kind in ('var', 'varkw') or p.name not in provided:
            filled.append(p)
        else:
            filled.append(Param(p.name, p.kind, p.node, ('value', provided[p.name])))
    if _has_missing(element):
        ctx.reject()
    try:
        expected = reference(filled, element)
        if provided.get(var):
            if t.is_map(element) and var:
                expected = [(n, t.element_neutral(tuple(provided[n])) if n == var else f) for n, f in expected]
        if provided.get(varkw):
            expected = [
                (n, t.dict_form('dict', [
                    *f[1],
                    *((t.scalar(k), t.element_neutral(v)) for k, v in provided[n].items()
                      if not any(key == t.scalar(k) for key, _ in f[1])),
                ]) if n == varkw else f)
                for n, f in expected
            ]
        bad = False
    except t.Bad:
        bad = True
    except t.Unspecified:
        ctx.reject()
    ctx.nontrivial(bool(element) and bool(provided))
    ctx.label('bad' if bad else 'ok', type(element).__name__, *(f'param {p.kind}' for p in params))
    what = f'{signature} from {element!r} with {default_args!r}, {default_kwargs!r}'
    schema = marsh.schema.argument.ArgumentsUnmarshalSchema(function)
    try:
        args, kwargs = schema.unmarshal(element, default_args=default_args, default_kwargs=default_kwargs)
    except marsh.errors.MarshError as err:
        ctx.check(bad, f'{what}: {err!r}')
        return
    ctx.check(not bad, f'{what}: accepted as {(args, kwargs)!r}')
    result = received(function(*args, **kwargs))
    forms = [(name, model.neutral(value)) for name, value in result]
    ctx.check(forms == expected, f'{what}: the call receives {result!r}: {forms!r}\nexpected {expected!r}')


def _value(model, node, element):
    """(value of the type of a parameter, the element it is marshaled to)"""
    try:
        form = node.ref(element)
        return model.realize(form), t.marshaled(form, model.registry)
    except (t.Bad, t.Unspecified):
        return element, element


def _values(model, params, element, which):
    """The element with some of the arguments as values."""
    if t.is_map(element):
        pairs = [(k, next((p for p in params if p.name == k), None), v) for k, v in element.items()]
    elif t.is_seq(element):
        positional = [p for p in params if p.kind in ('pos', 'any')]
        pairs = [(i, positional[i] if i < len(positional) else None, v) for i, v in enumerate(element)]
    else:
        return element, element
    values, plain = {}, {}
    for i, (key, param, value) in enumerate(pairs):
        values[key] = plain[key] = value
        if param is not None and param.node is not None and which[i % len(which)]:
            values[key], plain[key] = _value(model, param.node, value)
    # what is marshaled has tuples
    if t.is_map(element):
        return values, t._plain_tuples(plain)
    return type(element)(values.values()), t._plain_tuples(tuple(plain.values()))


ROUTES = ('unmarshal', 'cast', 'cast_args', 'build', 'build', 'cast function')


def given(case, ctx):
    """All the ways to pass arguments: as an element, as values, as additional arguments."""
    specs, element, extra, route, which, dressed = case
    model, params = _params(specs)
    with t.ordered(False):
        ways(model, params, element, extra, route, which, dressed, ctx)


def ways(model, params, element, extra, route, which, dressed, ctx):
    function, received = build(params, 'function' if route in ('cast_args', 'cast function') else 'class', False)
    what = f'{route} of {inspect.signature(function)} from {element!r} and {extra!r}'
    args, kwargs = (), {}
    refused = False
    if route in ('cast', 'cast_args', 'cast function'):
        value, plain = _values(model, params, element, which)
        what = f'{route} of {inspect.signature(function)} from {value!r}'
        if dressed and not any(p.node is None or 'any' in {n.kind for n in p.node.walk()} for p in params):
            value = tuple(value) if t.is_seq(value) else collections.OrderedDict(value) if t.is_map(value) else value
    else:
        more, more_plain = _values(model, params, extra, which)
        value = plain = element
        if t.is_seq(extra) and route == 'build':
            args = tuple(more)
            if args and t.is_seq(element):
                plain = [*element, *more_plain]
            elif args and (element is None or t.is_missing(element)):
                plain = more_plain
            elif args:
                refused = True
        elif t.is_map(extra):
            kwargs = more
            if set(kwargs) & {'type_', 'element', 'name', 'self'}:
                ctx.reject()
            if kwargs and t.is_map(element):
                plain = {**element, **more_plain}
            elif kwargs and (t.is_missing(element) or route == 'build' and element is None):
                plain = dict(more_plain)
            elif kwargs:
                refused = True
    try:
        expected = reference(params, plain)
    except t.Bad:
        expected = None
    except t.Unspecified:
        ctx.reject()
    ctx.nontrivial(bool(args or kwargs or route.startswith('cast')) and bool(params))
    ctx.label(route, 'refused' if refused else 'bad' if expected is None else 'ok', f'{len(args)} more', f'{len(kwargs)} named')
    try:
        if route == 'unmarshal':
            result = marsh.unmarshal(function, value, **kwargs)
        elif route == 'cast':
            result = marsh.cast(function, value)
        elif route == 'cast function':
            result = marsh.cast(function, value)
        elif route == 'cast_args':
            arguments = marsh.cast_args(function, value)
            result = function(*arguments[0], **arguments[1])
        else:
            space = marsh.namespaces.new('verif', function)
            space.register(function, name='it')
            result = space.build(value, *args, name='it', **kwargs)
    except marsh.errors.MarshError as err:
        ctx.check(expected is None and not refused, f'{what}: {err!r}, expected {"a TypeError" if refused else expected!r}')
        return
    except TypeError as err:
        ctx.check(refused, f'{what}: {err!r}, expected {expected!r}')
        return
    ctx.check(not refused and expected is not None, f'{what}: accepted as {result!r}')
    result = received(result)
    forms = [(name, model.neutral(v)) for name, v in result]
    ctx.check(forms == expected, f'{what}: the call receives {result!r}: {forms!r}\nexpected {expected!r}')


def _has_missing(element):
    if isinstance(element, dict):
        return any(map(_has_missing, element.values()))
    if isinstance(element, (list, tuple)):
        return any(map(_has_missing, element))
    return isinstance(element, str) and element == t.MISSING


_NAMES = ['a', 'b', 'c', 'x', 'args', 'kwargs', 'value', 'element', 'type_', 'é']
_TYPES = gen.pick(
    st.none(), t.SCALARS, t.SCALARS, t.LEAVES, t.specs(1),
    st.sampled_from([('list', ('int',), True), ('opt', ('int',)), ('dict', ('str',), ('int',), True)]),
)


@st.composite
def _signatures(draw, defaults=t.DEFAULTS):
    names = draw(st.permutations(_NAMES))
    counts = [draw(st.integers(0, 2)) for _ in range(3)]
    kinds = ['pos'] * counts[0] + ['any'] * counts[1]
    if draw(st.booleans()):
        kinds.append('var')
    kinds += ['kwonly'] * counts[2]
    if draw(st.booleans()):
        kinds.append('varkw')
    params = []
    defaulted = False
    for kind in kinds:
        default = None
        if kind not in ('var', 'varkw'):
            default = draw(defaults)
            if default is None and defaulted and kind in ('pos', 'any'):
                default = ('value', 7)
            if default is not None and default[0] == 'factory':
                default = ('value', 'd')
            if kind in ('pos', 'any'):
                defaulted = defaulted or default is not None
        params.append((names[len(params)], kind, draw(_TYPES), default))
    return params


@st.composite
def _arguments(draw, specs, complete=2):
    value = lambda s: draw(t.valid(s or ('any',)))  # noqa: E731
    if draw(st.booleans()):
        values = [value(s) for _, kind, s, _ in specs if kind in ('pos', 'any')]
        var = [s for _, kind, s, _ in specs if kind == 'var']
        if var and draw(st.integers(0, 3)):
            values += [value(var[0]) for _ in range(draw(st.integers(0, 2)))]
        if draw(st.integers(0, 3)) == 0:
            values = values[:draw(st.integers(0, len(values)))]
        return values
    out = {}
    for name, kind, s, default in specs:
        if kind in ('var', 'varkw'):
            continue
        if draw(st.integers(0, complete)) or (default is None and draw(st.booleans())):
            out[name] = value(s)
    varkw = [s for _, kind, s, _ in specs if kind == 'varkw']
    if varkw:
        taken = {n for n, k, _, _ in specs if k not in ('var', 'varkw')}
        for key in draw(st.lists(gen.pick(st.sampled_from([*_NAMES, 'extra', 'more']), gen.field()), max_size=2, unique=True)):
            if key not in taken:
                out[key] = value(varkw[0])
    if draw(st.booleans()):
        out = dict(reversed(list(out.items())))
    return out


@st.composite
def _cases(draw):
    specs = draw(_signatures())
    element = draw(_arguments(specs))
    how = draw(st.integers(0, 9))
    if how == 9:
        element = draw(t.MESSY)
    elif how >= 6:
        element = t._mutate(
            element, draw(st.lists(st.integers(0, 5), max_size=2)),
            draw(st.sampled_from(['replace', 'missing', 'drop', 'add', 'add'])), draw(t.MESSY),
        )
    form = draw(st.sampled_from(['function', 'function', 'method', 'static', 'classmethod', 'class', 'object', 'wrapped', 'partial', *CLASSES]))
    return specs, element, form, draw(st.booleans())


@st.composite
def _caller_cases(draw):
    specs = draw(_signatures(gen.pick(st.none(), t.DEFAULTS)))
    specs = [(n, k, s, d) for n, k, s, d in specs]
    element = draw(_arguments(specs, 1))
    if draw(st.integers(0, 2)) == 2:
        # values that are false in a boolean context are given as well
        blank = st.sampled_from([0, '', False, None, [], {}, 0.0])
        if isinstance(element, dict):
            element = {k: draw(blank) if draw(st.booleans()) else v for k, v in element.items()}
            if any(k == 'varkw' for _, k, _, _ in specs) and draw(st.booleans()):
                element[draw(st.sampled_from(['extra', 'more']))] = draw(blank)
        else:
            element = [draw(blank) if draw(st.booleans()) else v for v in element]
    values = st.sampled_from(['caller', 1, 2.5, None, (1,), True])
    default_args = draw(st.lists(values, max_size=4))
    default_kwargs = {}
    for name, kind, _, _ in specs:
        if kind in ('any', 'kwonly') and draw(st.integers(0, 2)) == 0:
            default_kwargs[name] = draw(values)
        elif kind == 'varkw' and draw(st.booleans()):
            default_kwargs[draw(st.sampled_from(['extra', 'more']))] = draw(values)
    positional = [n for n, k, _, _ in specs if k in ('pos', 'any')]
    if draw(st.integers(0, 7)) == 7:
        # no call takes an argument twice
        at = draw(st.integers(0, 3))
        if any(k == 'any' for n, k, _, _ in specs if n in positional[at:at + 1]):
            default_args = [*default_args, *draw(st.lists(values, min_size=4, max_size=4))][:max(at + 1, len(default_args))]
            default_kwargs[positional[at]] = draw(values)
            return specs, element, tuple(default_args), default_kwargs
    if not any(k == 'var' for _, k, _, _ in specs):
        default_args = default_args[:len(positional)]
    for name in positional[:len(default_args)]:
        default_kwargs.pop(name, None)
    return specs, element, tuple(default_args), default_kwargs


@st.composite
def _given_cases(draw):
    specs = draw(_signatures())
    route = draw(st.sampled_from(ROUTES))
    element = draw(_arguments(specs))
    extra = None
    if route in ('unmarshal', 'build'):
        extra = draw(_arguments(specs, 1))
        how = draw(st.integers(0, 9))
        if how == 9:
            element = draw(st.sampled_from([None, t.MISSING, 1, 'a', [], {}, ()]))
        elif how >= 7:
            element = draw(st.sampled_from([t.MISSING, None, {} if isinstance(extra, dict) else []]))
        elif isinstance(element, list) and isinstance(extra, list):
            at = draw(st.integers(0, len(element)))
            element, extra = element[:at], (element if draw(st.booleans()) else extra)[at:]
    which = draw(st.lists(st.booleans(), min_size=1, max_size=4))
    return specs, element, extra, route, which, draw(st.booleans())


SUBS = [
    Sub('given', _given_cases, given, 2500, 60000),
    Sub('bind', _cases, bind, 3000, 100000),
    Sub('caller', _caller_cases, caller, 3000, 60000),
]
