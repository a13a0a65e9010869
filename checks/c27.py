"""C27: structured types are constructed exactly as their definition says."""
import collections
import dataclasses
import inspect
import typing

import marsh
import typing_extensions
from hypothesis import strategies as st

from vlib import gen, modules, oracle
from vlib import types as t
from vlib.core import Sub

PROPERTY = 'C27'
RULE = (
    'Cases are definitions of dataclasses (inheritance, overridden, keyword-only, init-only, '
    'excluded and class fields, default values and factories, post-init, slots, frozen), '
    'named tuples (of either kind, derived ones), typed dicts (inheritance, required and '
    'optional keys) and classes (inherited initializers, positional-only, keyword-only, '
    '`__new__`) together with elements and keyword arguments. Every field is converted on '
    'its own by the reference of its type and the values are passed to the type by plain '
    'python; the outcome, including the number of calls, must be the same. Non-trivial: a '
    'feature other than plain fields is involved.'
)

SPECS = st.sampled_from([
    ('int',), ('int',), ('str',), ('bool',), ('float',), ('list', ('int',), False), ('opt', ('int',)),
    ('dict', ('str',), ('int',), False), ('union', [('int',), ('str',)]), ('vtuple', ('bool',), True), ('any',),
])
DEFAULTS = gen.pick(
    st.none(), st.none(),
    st.builds(lambda v: ('value', v), st.sampled_from([0, 1, True, 'd', '', None, (), (1, 'x'), 0.0, '???x'])),
    st.sampled_from([('factory', []), ('factory', {'k': [1]}), ('factory', 3), ('special', 'equal'), ('special', 'odd'),
                     ('special', 'function'), ('special', 'class')]),
)
NAMES = ['a', 'b', 'c', 'd', 'x', 'self_', 'é', 'cls', 'value', 'element', 'type_', 'args', 'name', 'default',
         'kwargs', 'schema', '_p', '__q__']


class Equal:
    """Equal to anything."""

    def __eq__(self, other):
        return True

    def __hash__(self):
        return 5


class Odd:
    """Can not be compared."""

    def __eq__(self, other):
        raise ValueError('not comparable')

    def __hash__(self):
        return 6


def function_default():
    return 1


SPECIAL = {'equal': Equal(), 'odd': Odd(), 'function': function_default, 'class': Equal}


class Factory:

    def __init__(self, literal, log):
        self.literal, self.log = literal, log

    def __call__(self):
        self.log.append('factory')
        return eval(repr(self.literal))


class Field:

    def __init__(self, spec, default):
        self.spec, self.default = spec, default
        self.model = t.Model(spec)

    def convert(self, element):
        """The value of an element; raises Bad."""
        got, form = self.model.ref(element)
        if got == 'bad':
            raise t.Bad([])
        return self.model.realize(form)


# ------------------------------------------------------------------ definitions

def dataclass_source(definition, scope, log):
    """Source text, and the fields which can be given by name."""
    fields = {}
    lines = ['import dataclasses, typing']
    if definition['future']:
        lines.insert(0, 'from __future__ import annotations')
    for i, level in enumerate(definition['levels']):
        options = dict(level['options'], **definition['options'])
        lines.append(f'@dataclasses.dataclass({", ".join(f"{k}={v}" for k, v in options.items())})')
        lines.append(f'class C{i}' + (f'(C{i - 1})' if i else '') + ':')
        after_sentinel = False
        for j, (name, spec, how, default) in enumerate(level['fields']):
            hint = scope_name(scope, 'T', t.Model(spec).type)
            given = {}
            if default is not None:
                if default[0] == 'factory':
                    given['default_factory'] = scope_name(scope, 'D', Factory(default[1], log))
                else:
                    given['default'] = scope_name(scope, 'D', SPECIAL[default[1]] if default[0] == 'special' else default[1])
            if how == 'initvar':
                hint = f'dataclasses.InitVar[{hint}]'
            elif how == 'classvar':
                hint = f'typing.ClassVar[{hint}]'
            if how == 'sentinel':
                lines.append(' _: dataclasses.KW_ONLY')
                continue
            if how == 'kw':
                given['kw_only'] = 'True'
            elif how == 'noinit':
                given['init'] = 'False'
            if how == 'classvar':
                lines.append(f' {name}: {hint}' + (f' = {given["default"]}' if 'default' in given else ''))
            elif list(given) == ['default'] and j % 2:
                lines.append(f' {name}: {hint} = {given["default"]}')
            else:
                text = ', '.join(f'{k}={v}' for k, v in given.items())
                lines.append(f' {name}: {hint}' + (f' = dataclasses.field({text})' if text else ''))
            fields[name] = Field(spec, default)
        if level['post']:
            lines += [' def __post_init__(self, *given):', f'  LOG.append(("post {i}", given))']
        if level['method']:
            lines += [' @property', ' def prop(self): return 1', ' def method(self): return 2']
        lines.append(' pass')
    scope['LOG'] = log
    name = f'C{len(definition["levels"]) - 1}'
    if definition['plain'] is not None:
        # a derived class which is no dataclass of its own
        lines.append(f'class P({name}):')
        lines += [f' {attribute} = {value!r}' for attribute, value in definition['plain']]
        lines.append(' pass')
        name = 'P'
    return '\n'.join(lines), name, fields


def scope_name(scope, prefix, value):
    name = f'{prefix}{len(scope)}'
    scope[name] = value
    return name


def class_source(definition, scope, log):
    fields = {}
    positional, normal, keyword = [], [], []
    for name, spec, how, default in definition['fields']:
        if default is not None and default[0] == 'factory':
            default = ('value', 7)
        fields[name] = Field(spec, default)
        text = name
        if not (spec == ('any',) and len(name) == 1):
            hint = scope_name(scope, 'T', fields[name].model.type)
            if definition['style'] == 'text':
                hint = repr(hint)
            text += f': {hint}'
        if default is not None:
            text += ' = ' + scope_name(scope, 'D', SPECIAL[default[1]] if default[0] == 'special' else default[1])
        {'positional': positional, 'kw': keyword}.get(how, normal).append((default is not None, text))
    if any(has for has, _ in positional):
        normal = [(True, text) if has else None for has, text in normal]
    if None in normal:
        return None
    parts = [text for _, text in sorted(positional, key=lambda p: p[0])]
    if parts:
        parts.append('/')
    parts += [text for _, text in sorted(normal, key=lambda p: p[0])]
    if keyword:
        parts += ['*', *(text for _, text in keyword)]
    lines = ['import typing']
    if definition['style'] == 'future':
        lines.insert(0, 'from __future__ import annotations')
    body = [f'  self.{name} = {name}' for name in fields] + [f'  LOG.append("made {definition["kind"]}")']
    kind = definition['kind']
    if kind == 'new':
        lines += ['class C0:', f' def __new__({", ".join(["cls", *parts])}):', '  self = object.__new__(cls)', *body, '  return self']
        name = 'C0'
    else:
        lines += ['class C0:', f' def __init__({", ".join(["self", *parts])}):', *body]
        name = 'C0'
    if kind == 'inherited':
        lines += ['class C1(C0):', ' extra: int = 3', ' def method(self, z: int): return z', 'class C2(C1): pass']
        name = 'C2'
    elif kind == 'slots':
        lines.insert(2 if definition['style'] == 'future' else 1, f'NAMES = {list(fields)!r}')
        lines.append('class C1(C0): __slots__ = ()')
        name = 'C1'
    scope['LOG'] = log
    return '\n'.join(lines), name, fields


def define(definition, log):
    scope = {}
    kind = definition['type']
    if kind == 'dataclass':
        source, name, fields = dataclass_source(definition, scope, log)
    else:
        made = class_source(definition, scope, log)
        if made is None:
            return None
        source, name, fields = made
    try:
        module = modules.define(source, **scope)
    except (TypeError, SyntaxError, ValueError):
        return None   # not a valid definition
    return getattr(module, name), fields, source


def state(value, cls):
    """Everything there is about an object."""
    if type(value) is not cls:
        return ('not of the type', repr(value))
    names = []
    for base in cls.__mro__:
        names += list(getattr(base, '__annotations__', ())) + list(base.__dict__.get('__slots__', ()))
    names += list(getattr(value, '__dict__', ()))
    values = [(name, getattr(value, name, 'no such attribute')) for name in sorted(set(names)) if name != '__dict__']
    return [(name, getattr(item, '__func__', item)) for name, item in values]


def same_state(a, b):
    if isinstance(a, (list, tuple)) and type(a) is type(b) and len(a) == len(b):
        return all(map(same_state, a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same_state(a[k], b[k]) for k in a)
    if a is b:
        return True
    if isinstance(a, (Equal, Odd)) or isinstance(b, (Equal, Odd)):
        return False
    return oracle.same(a, b)


def bind(cls, fields, element):
    """Arguments (by name) of the call the element stands for; raises Bad."""
    parameters = inspect.signature(cls).parameters
    given = element
    if t.is_missing(given):
        given = {}
    if t.is_seq(given):
        names = [name for name, p in parameters.items() if p.kind is not p.KEYWORD_ONLY]
        if len(given) > len(names):
            raise t.Bad([])
        given = dict(zip(names, given))
    elif not t.is_map(given):
        raise t.Bad([])
    if set(given) - set(parameters):
        raise t.Bad([])
    out = {}
    for name, parameter in parameters.items():
        value = given.get(name, t.MISSING)
        if t.is_missing(value) and parameter.default is not parameter.empty:
            continue
        out[name] = fields[name].convert(value)
    return out, parameters


def call(cls, arguments, parameters):
    args, kwargs = [], {}
    for name, parameter in parameters.items():
        if name not in arguments:
            if parameter.kind is parameter.POSITIONAL_ONLY:
                args.append(parameter.default)
        elif parameter.kind is parameter.POSITIONAL_ONLY:
            args.append(arguments[name])
        else:
            kwargs[name] = arguments[name]
    return cls(*args, **kwargs)


def construct(case, ctx):
    definition, element, kwargs = case
    log = []
    made = define(definition, log)
    if made is None:
        ctx.reject()
    cls, fields, source = made
    given = element
    if kwargs:
        if t.is_missing(element):
            given = t._plain_tuples(kwargs)
        elif not t.is_map(element):
            try:
                got = marsh.unmarshal(cls, element, **kwargs)
            except TypeError:
                ctx.label('keyword arguments refused')
                return
            ctx.fail(f'keyword arguments {kwargs!r} accepted with {element!r}: {got!r}')
        else:
            given = {**element, **t._plain_tuples(kwargs)}
        ctx.label('keyword arguments')
    what = f'{element!r}, {kwargs!r} as\n{source}'
    try:
        arguments, parameters = bind(cls, fields, given)
    except t.Bad:
        expected = None
    except t.Unspecified:
        ctx.reject()
    else:
        expected = call(cls, arguments, parameters)
    expected_log = list(log)
    log.clear()
    snapshot = repr((element, kwargs))
    try:
        got = marsh.unmarshal(cls, element, **kwargs)
    except marsh.errors.MarshError as err:
        ctx.check(expected is None, f'rejects {what}\n{err!r}')
        ctx.label('rejected')
    else:
        ctx.check(expected is not None, f'accepts {what}\nas {state(got, cls)!r}')
        ctx.check(same_state(state(got, cls), state(expected, cls)), f'{what}\ngives {state(got, cls)!r}\nnot {state(expected, cls)!r}')
        ctx.check(same_state(log, expected_log), f'{what}\ndid {log!r}\nnot {expected_log!r}')
        ctx.label('accepted')
    ctx.check(repr((element, kwargs)) == snapshot, f'{what}: changed its input to {element!r}, {kwargs!r}')
    features = set()
    if definition['type'] == 'dataclass':
        features |= {how for level in definition['levels'] for _, _, how, _ in level['fields']} - {'plain'}
        features |= {k for k, v in definition['options'].items() if v}
        features |= {k for level in definition['levels'] for k, v in level['options'].items() if v}
        if len(definition['levels']) > 1:
            features.add('inheritance')
        if any(level['post'] for level in definition['levels']):
            features.add('post-init')
        if definition['plain'] is not None:
            features.add('plain subclass')
    else:
        features |= {how for _, _, how, _ in definition['fields']} - {'plain'} | {definition['kind'], definition['style']}
    ctx.label(*features, definition['type'])
    ctx.nontrivial(bool(features) or bool(kwargs))


# ------------------------------------------------------------------ generation

plain_ = gen.pick(
    st.none(), st.none(),
    st.lists(st.tuples(st.sampled_from(NAMES), st.sampled_from([8, 'own', None])), max_size=2, unique_by=lambda p: p[0]),
)


@st.composite
def dataclasses_(draw):
    frozen = draw(st.sampled_from([False, False, True]))
    levels = []
    defaults = False
    for _ in range(draw(st.sampled_from([1, 1, 2, 3]))):
        fields = []
        kw_only = draw(st.integers(0, 4)) == 4
        sentinel = False
        for name in draw(st.lists(st.sampled_from(NAMES), max_size=4, unique=True)):
            how = draw(st.sampled_from(['plain'] * 5 + ['kw', 'initvar', 'initvar', 'classvar', 'noinit', 'noinit']))
            default = draw(DEFAULTS)
            if how == 'initvar' and default is not None and default[0] == 'factory':
                default = ('value', 2)
            if how == 'classvar' and default is not None and default[0] == 'factory':
                default = None
            if how in ('plain', 'initvar') and not (kw_only or sentinel):
                if defaults and default is None:
                    default = ('value', 4)
                defaults = defaults or default is not None
            fields.append((name, draw(SPECS), how, default))
            if not sentinel and draw(st.integers(0, 9)) == 9:
                sentinel = True
                fields.append(('_', ('any',), 'sentinel', None))
        options = {'kw_only': True} if kw_only else {}
        if draw(st.integers(0, 3)) == 3:
            options['slots'] = True
        if draw(st.integers(0, 3)) == 3:
            options['eq'] = False
        post = any(how == 'initvar' for level in levels for _, _, how, _ in level['fields']) or \
            any(how == 'initvar' for _, _, how, _ in fields) or draw(st.booleans())
        levels.append({'options': options, 'fields': fields, 'post': post, 'method': draw(st.booleans())})
    return {
        'type': 'dataclass', 'options': {'frozen': True} if frozen else {}, 'levels': levels,
        'future': draw(st.booleans()),
        'plain': draw(plain_) if not frozen and not any(level['options'].get('slots') for level in levels) else None,
    }


@st.composite
def classes(draw):
    fields = []
    for name in draw(st.lists(st.sampled_from([n for n in NAMES if n != 'cls']), max_size=4, unique=True)):
        fields.append((name, draw(SPECS), draw(st.sampled_from(['plain', 'plain', 'plain', 'positional', 'kw'])), draw(DEFAULTS)))
    kind = draw(st.sampled_from(['init', 'init', 'inherited', 'slots', 'new']))
    style = draw(st.sampled_from(['direct', 'future', 'text']))
    if kind == 'new':
        style = 'direct'
    return {'type': 'class', 'fields': fields, 'kind': kind, 'style': style}


def known_fields(definition):
    if definition['type'] == 'dataclass':
        out = {}
        for level in definition['levels']:
            for name, spec, how, default in level['fields']:
                if how != 'sentinel':
                    out.pop(name, None) if how == 'classvar' else None
                    out[name] = (spec, how, default)
        return [(name, *rest) for name, rest in out.items()]
    return definition['fields']


@st.composite
def elements_for(draw, fields):
    if draw(st.integers(0, 19)) == 19:
        return draw(st.sampled_from([t.MISSING, None, 3, 'x', [], {}]))
    usable = [f for f in fields if f[2] not in ('classvar', 'noinit')]
    out = {}
    for name, spec, _, default in usable:
        choice = draw(st.integers(0, 9))
        if choice == 9:
            out[name] = draw(t.MESSY)
        elif choice == 8:
            out[name] = t.MISSING
        elif default is None or choice >= 3:
            out[name] = draw(t.valid(spec))
    extra = draw(st.integers(0, 19))
    if extra == 19:
        out[draw(st.sampled_from(['zz', 'self', '', 'A', 'a ', '_']))] = 1
    others = [f[0] for f in fields if f not in usable]
    if extra >= 17 and others:
        out[draw(st.sampled_from(others))] = 1
    if draw(st.integers(0, 4)) == 4:
        values = list(out.values())
        if draw(st.integers(0, 5)) == 5:
            values.append(1)
        return values
    keys = draw(st.permutations(list(out)))
    return {key: out[key] for key in keys}


@st.composite
def keywords(draw, fields):
    usable = [f for f in fields if f[2] not in ('classvar', 'noinit') and f[0] not in ('element', 'type_')]
    out = {}
    for name, spec, _, _ in usable:
        if draw(st.integers(0, 2)) == 0:
            out[name] = draw(t.valid(spec))
    return {key: value for key, value in out.items() if plain(value)}


def plain(element):
    """The keyword argument is its own marshaled form."""
    try:
        return oracle.same_element(marsh.marshal(element), element)
    except marsh.errors.MarshError:
        return False


@st.composite
def cases(draw, definitions):
    definition = draw(definitions)
    fields = known_fields(definition)
    element = draw(elements_for(fields))
    kwargs = draw(keywords(fields)) if draw(st.integers(0, 2)) == 2 else {}
    return definition, element, kwargs


# ------------------------------------------------------------------ named tuples and typed dicts

def tuples(case, ctx):
    kind, fields, derived, element, kwargs = case
    scope = {'collections': collections, 'typing': typing}
    made = {name: Field(spec, default) for name, spec, default in fields}
    names = [scope_name(scope, 'T', field.model.type) for field in made.values()]
    defaults = [
        scope_name(scope, 'D', SPECIAL[d[1]] if d[0] == 'special' else d[1]) if d else None for _, _, d in fields
    ]
    lines = []
    if kind == 'future':
        lines.append('from __future__ import annotations')
    if kind == 'collections':
        given = [d for d in defaults if d]
        lines.append(f'C = collections.namedtuple("C", {list(made)!r}, defaults=[{", ".join(given)}])')
        made = {name: Field(('any',), field.default) for name, field in made.items()}
    elif kind == 'call':
        lines.append(f'C = typing.NamedTuple("C", [{", ".join(f"({n!r}, {h})" for n, h in zip(made, names))}])')
        made = {name: Field(field.spec, None) for name, field in made.items()}
    else:
        lines.append('class C(typing.NamedTuple):')
        quote = repr if kind == 'text' else str
        lines += [f' {n}: {quote(h)}' + (f' = {d}' if d else '') for n, h, d in zip(made, names, defaults)]
        lines.append(' pass')
    if derived:
        lines += ['class D(C):', ' __slots__ = ()', ' def total(self): return len(self)']
        if len(made) % 2:
            # classes between, and beside
            lines += ['class Beside:', ' pass', 'class B(D):', ' pass', 'class D(Beside, B):', ' pass']
    source = '\n'.join(lines)
    module = modules.define(source, **scope)
    cls = module.D if derived else module.C
    check_call(cls, made, element, kwargs, ctx, source, lambda value: ('of the type' if type(value) is cls else type(value), list(value)))
    ctx.label(kind, 'derived' if derived else 'direct')
    ctx.nontrivial(kind != 'class' or derived or bool(kwargs))


def check_call(cls, fields, element, kwargs, ctx, source, show):
    given = element
    if kwargs:
        if t.is_missing(element):
            given = t._plain_tuples(kwargs)
        elif not t.is_map(element):
            try:
                got = marsh.unmarshal(cls, element, **kwargs)
            except TypeError:
                return
            ctx.fail(f'keyword arguments {kwargs!r} accepted with {element!r}: {got!r}')
        else:
            given = {**element, **t._plain_tuples(kwargs)}
    what = f'{element!r}, {kwargs!r} as\n{source}'
    try:
        arguments, parameters = bind(cls, fields, given)
    except t.Bad:
        expected = None
    except t.Unspecified:
        ctx.reject()
    else:
        expected = call(cls, arguments, parameters)
    try:
        got = marsh.unmarshal(cls, element, **kwargs)
    except marsh.errors.MarshError as err:
        ctx.check(expected is None, f'rejects {what}\n{err!r}')
        ctx.label('rejected')
        return
    ctx.check(expected is not None, f'accepts {what}\nas {show(got)!r}')
    ctx.check(same_state(show(got), show(expected)), f'{what}\ngives {show(got)!r}\nnot {show(expected)!r}')
    ctx.label('accepted')


@st.composite
def tuple_cases(draw):
    kind = draw(st.sampled_from(['class', 'text', 'future', 'collections', 'call']))
    names = [n for n in NAMES if n != 'default' and n[0] != '_']
    fields = []
    started = False
    for name in draw(st.lists(st.sampled_from(names), max_size=4, min_size=1, unique=True)):
        default = draw(DEFAULTS)
        if default is not None and default[0] == 'factory':
            default = ('value', 5)
        if kind == 'call':
            default = None
        if started and default is None:
            default = ('value', None)
        started = started or default is not None
        fields.append((name, draw(SPECS), default))
    pseudo = [(name, ('any',) if kind == 'collections' else spec, 'plain', default) for name, spec, default in fields]
    element = draw(elements_for(pseudo))
    kwargs = draw(keywords(pseudo)) if draw(st.integers(0, 2)) == 2 else {}
    return kind, fields, draw(st.booleans()), element, kwargs


def dicts(case, ctx):
    levels, ext, functional, element, kwargs = case
    scope = {'typing': typing, 'ext': typing_extensions}
    lines = []
    fields = {}
    module = 'ext' if ext else 'typing'
    for i, (total, items) in enumerate(levels):
        body = []
        for name, spec, qualifier in items:
            field = Field(spec, None)
            hint = scope_name(scope, 'T', field.model.type)
            if qualifier == 'Annotated':
                hint = f'typing.Annotated[{hint}, "note"]'
            elif qualifier == 'nested':
                hint = f'typing.Annotated[{module}.NotRequired[{hint}], "note"]'
            elif qualifier:
                hint = f'{module}.{qualifier}[{hint}]'
            field.required = {'Required': True, 'NotRequired': False, 'nested': False}.get(qualifier, total)
            fields[name] = field
            body.append((name, hint))
        if functional and i == 0:
            entries = ', '.join(f'{n!r}: {h}' for n, h in body)
            lines.append(f'C{i} = {module}.TypedDict("C{i}", {{{entries}}}, total={total})')
        else:
            base = f'C{i - 1}' if i else f'{module}.TypedDict'
            lines.append(f'class C{i}({base}, total={total}):')
            lines += [f' {n}: {h}' for n, h in body] + [' pass']
    source = '\n'.join(lines)
    cls = getattr(modules.define(source, **scope), f'C{len(levels) - 1}')
    given = element
    if kwargs and t.is_missing(element):
        given = t._plain_tuples(kwargs)
    elif kwargs and not t.is_map(element):
        ctx.reject()
    elif kwargs:
        given = {**element, **t._plain_tuples(kwargs)}
    mixed = len({field.required for field in fields.values()}) > 1
    try:
        expected = {}
        if t.is_missing(given):
            given = {}
        if t.is_seq(given):
            if mixed:
                ctx.reject()
            if len(given) > len(fields):
                raise t.Bad([])
            given = dict(zip(fields, given))
        if not t.is_map(given) or set(given) - set(fields):
            raise t.Bad([])
        for name, field in fields.items():
            value = given.get(name, t.MISSING)
            if t.is_missing(value) and not field.required:
                continue
            expected[name] = field.convert(value)
    except t.Bad:
        expected = None
    except t.Unspecified:
        ctx.reject()
    what = f'{element!r}, {kwargs!r} as\n{source}'
    try:
        got = marsh.unmarshal(cls, element, **kwargs)
    except marsh.errors.MarshError as err:
        ctx.check(expected is None, f'rejects {what}\n{err!r}')
        ctx.label('rejected')
    else:
        ctx.check(expected is not None, f'accepts {what}\nas {got!r}')
        ctx.check(oracle.same(got, expected), f'{what}\ngives {got!r}\nnot {expected!r}')
        ctx.label('accepted')
    ctx.label('mixed' if mixed else 'uniform', f'{len(levels)} levels', 'functional' if functional else 'class')
    ctx.nontrivial(mixed or len(levels) > 1)


@st.composite
def dict_cases(draw):
    levels = []
    pseudo = {}
    functional = draw(st.integers(0, 3)) == 3
    for i in range(draw(st.sampled_from([1, 2, 2, 3]))):
        total = draw(st.booleans())
        names = gen.pick(st.sampled_from(NAMES), st.sampled_from(['a b', 'class', '1', 'x.y'])) if functional and i == 0 \
            else st.sampled_from(NAMES)
        items = []
        for name in draw(st.lists(names.filter(lambda n: n not in pseudo), max_size=3, unique=True)):
            spec = draw(SPECS)
            qualifier = draw(st.sampled_from(['', '', '', 'Required', 'NotRequired', 'Annotated', 'nested']))
            items.append((name, spec, qualifier))
            pseudo[name] = (name, spec, 'plain', None if qualifier == 'Required' or (total and qualifier in ('', 'Annotated')) else ('value', 0))
        levels.append((total, items))
    fields = list(pseudo.values())
    element = draw(elements_for(fields))
    kwargs = draw(keywords(fields)) if draw(st.integers(0, 2)) == 2 else {}
    return levels, draw(st.booleans()), functional, element, kwargs


# fields of types given by type variables

ARGUMENTS = [
    'int', 'int', 'str', 'bool', 'float', 'typing.List[int]', 'typing.Optional[int]', 'Inner', 'typing.Tuple[int, str]',
    'typing.Union[int, str]', 'typing.Dict[str, int]', 'typing.Any', 'typing.Literal["a", 1]', 'None',
]
TEMPLATES = [
    '{T}', '{T}', '{T}', '{K}', 'typing.List[{T}]', 'list[{T}]', 'typing.Dict[str, {T}]', 'dict[str, typing.List[{K}]]',
    'typing.Optional[{T}]', 'typing.Tuple[{T}, {K}]', 'typing.Tuple[{T}, ...]', 'typing.Union[{T}, {K}, None]', '{T} | None',
    'typing.Annotated[{T}, "note"]', 'typing.List[typing.Annotated[{T}, "note"]]', 'int', 'str', 'Pair[{T}]',
    'typing.Sequence[{T}]', 'typing.Set[{T}]', 'collections.abc.Mapping[str, {K}]', 'typing.Type[{T}]',
    'list[{T}] | None', 'int | list[{T}]', 'dict[str, {K}] | list[{T}] | None',
]
PRELUDE = """
import collections.abc, dataclasses, typing, typing_extensions
T = typing.TypeVar('T')
K = typing.TypeVar('K')
@dataclasses.dataclass
class Inner:
 x: int = 0
class Pair(typing.NamedTuple, typing.Generic[T]):
 first: T
 second: typing.List[T] = ()
"""


def _fill(template, args):
    return template.format(**{'T': args[0], 'K': args[-1]})


def generics(case, ctx):
    """A class given by type variables is the one where these are written out."""
    kind, future, levels, final, element = case
    lines = ['from __future__ import annotations' if future else '', PRELUDE]
    flat = [PRELUDE]
    # from the last class to the first
    args = final
    written = []
    for i in reversed(range(len(levels))):
        variables, fields, base_args = levels[i]
        written[:0] = [(name, _fill(hint, args), optional) for name, hint, optional in fields]
        args = tuple(_fill(arg, args) for arg in base_args) or ('int',)
    names = [name for name, _, _ in written]
    if len(set(names)) != len(names):
        ctx.reject()
    head = {'dataclass': '@dataclasses.dataclass\n', 'namedtuple': '', 'typeddict': ''}[kind]
    base = {'dataclass': [], 'namedtuple': ['typing.NamedTuple'], 'typeddict': ['typing.TypedDict']}[kind]

    def body(fields):
        if kind == 'typeddict':
            return [f' {name}: typing.NotRequired[{hint}]' if optional else f' {name}: {hint}' for name, hint, optional in fields] + [' pass']
        return [f' {name}: {hint}' + (' = None' if optional else '') for name, hint, optional in fields] + [' pass']

    for i, (variables, fields, base_args) in enumerate(levels):
        bases = list(base) if i == 0 else [f'C{i - 1}[{", ".join(_fill(arg, ("T", "K")) for arg in base_args)}]' if base_args else f'C{i - 1}']
        if variables:
            bases.append(f'typing.Generic[{", ".join(variables)}]')
        own = [(name, _fill(hint, ('T', 'K')), optional) for name, hint, optional in fields]
        lines += [f'{head if i == 0 or kind == "dataclass" else ""}class C{i}({", ".join(bases)}):', *body(own)]
    flat += [f'{head}class C({", ".join(base)}):', *body(written)]
    source = '\n'.join(lines)
    last = len(levels) - 1
    module = modules.define(source)
    alias = cls = getattr(module, f'C{last}')
    if levels[-1][0]:
        alias = eval(f'C{last}[{", ".join(final)}]', vars(module))
    # (both refer to the same classes)
    same_classes = '\n'.join(flat).replace(PRELUDE, 'import collections.abc, dataclasses, typing, typing_extensions')
    try:
        plain = modules.define(same_classes, Inner=module.Inner, Pair=module.Pair).C
    except TypeError:
        # None | None
        ctx.reject()
    what = f'{element!r} as {alias} of\n{source}'
    ctx.label(kind, f'{len(levels)} levels', 'alias' if levels[-1][0] else 'class', 'future' if future else 'evaluated')
    ctx.nontrivial()
    outcomes = []
    for type_ in (plain, alias):
        try:
            outcomes.append(('ok', marsh.unmarshal(type_, element)))
        except marsh.errors.UnmarshalError as err:
            outcomes.append(('error', type(err), err.path))
    want, got = outcomes
    ctx.label(want[0])
    if want[0] == 'error' or got[0] == 'error':
        ctx.check(want == got, f'{what}\ngives {got!r}\nnot {want!r}')
        return
    want, got = want[1], got[1]
    ctx.check(type(got) is (dict if kind == 'typeddict' else cls), f'{what}\ngives {got!r}')
    if kind == 'dataclass':
        want, got = vars(want), vars(got)
    elif kind == 'namedtuple':
        want, got = want._asdict(), got._asdict()
    ctx.check(oracle.same(got, want), f'{what}\ngives {got!r}\nnot {want!r}')


_GENERIC_LEAF = gen.pick(st.sampled_from([1, '1', 1, '1', [1], {}]), st.sampled_from([1, '1']), st.sampled_from([0, 1, 5, '7', 'a', 'x', True, None, 1.5, '2.0', 'null', '', [], {}, [1, '2'], ['a'], {'x': '3'}, [3, 'b'], {'first': '1'}]))


@st.composite
def generic_cases(draw):
    kind = draw(st.sampled_from(['dataclass', 'namedtuple', 'typeddict']))
    names = st.lists(st.sampled_from(['a', 'b', 'c', 'd', 'x', 'value', 'item']), min_size=1, max_size=3, unique=True)
    depth = draw(st.sampled_from([1, 2, 2, 3])) if kind != 'dataclass' else draw(st.sampled_from([2, 2, 3]))
    arguments = st.sampled_from(ARGUMENTS)
    nested = st.sampled_from(['{T}', 'typing.List[{T}]', 'typing.Optional[{T}]', 'typing.Dict[str, {K}]', '{K}'])
    levels = []
    required = []
    hints = {}
    used = set()
    count = 0
    for i in range(depth):
        fields = []
        started = i > 0 and kind != 'typeddict' and draw(st.booleans())
        # a class without variables ends the chain of generic ones
        generic = i == 0 or count and draw(st.booleans())
        if i == depth - 1 and kind == 'dataclass':
            generic = False
        base_args = ()
        if i:
            pool = gen.pick(arguments, nested, nested) if generic else arguments
            base_args = tuple(draw(pool) for _ in range(count))
        count = draw(st.integers(1, 2)) if generic else 0
        variables = ('T', 'K')[:count]
        if i == 0 or kind != 'namedtuple':
            for name in draw(names):
                if name in used:
                    continue
                used.add(name)
                hint = draw(st.sampled_from(TEMPLATES))
                if not generic:
                    hint = draw(arguments)
                optional = draw(st.booleans())
                if kind != 'typeddict':
                    optional = started = optional or started or any(f[2] for level in levels for f in level[1])
                fields.append((name, hint, optional))
                hints[name] = hint
        levels.append((variables, tuple(fields), base_args))
    # variables which are not declared are those of the first parameter
    levels = [
        (v, tuple((n, h.replace('{K}', '{T}') if len(v) == 1 else h, o) for n, h, o in f), tuple(b.replace('{K}', '{T}') if len(v) == 1 else b for b in a))
        for v, f, a in levels
    ]
    final = tuple(draw(arguments) for _ in range(count)) or ('int',)
    element = {}
    for name, hint in hints.items():
        value = draw(_GENERIC_LEAF)
        if any(word in hint for word in ('List', 'list', 'Sequence', 'Set', 'Tuple')) and draw(st.integers(0, 3)):
            value = [draw(_GENERIC_LEAF) for _ in range(draw(st.integers(0, 2)))]
        elif any(word in hint for word in ('Dict', 'dict', 'Mapping')) and draw(st.integers(0, 3)):
            value = {'k': value}
        elif 'Pair' in hint and draw(st.integers(0, 3)):
            value = {'first': value}
        if draw(st.integers(0, 7)):
            element[name] = value
    if draw(st.integers(0, 7)) == 0:
        element = list(element.values())
    elif draw(st.integers(0, 9)) == 0:
        element['unknown'] = 1
    # (python does not know which keys are required if the hints are texts)
    future = draw(st.booleans()) and (kind != 'typeddict' or not any(f[2] for level in levels for f in level[1]))
    return kind, future, levels, final, element


SUBS = [
    Sub('dataclasses', lambda: cases(dataclasses_()), construct, 3000, 120000),
    Sub('classes', lambda: cases(classes()), construct, 1500, 60000),
    Sub('namedtuples', tuple_cases, tuples, 1200, 50000),
    Sub('typeddicts', dict_cases, dicts, 1200, 50000),
    Sub('generics', generic_cases, generics, 2500, 80000),
]
