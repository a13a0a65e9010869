"""C26: recursive, forward referenced and late types work like plain ones."""
import typing

import marsh
from hypothesis import strategies as st

from vlib import gen, modules
from vlib import types as t
from vlib.core import Sub

PROPERTY = 'C26'
RULE = (
    'Cases are one or two modules (made from source text) whose classes refer to themselves '
    'and to each other: dataclasses, named tuples, typed dicts and plain classes, equally '
    'named in both modules, annotated by strings, by nested forward references, under '
    '`from __future__ import annotations` or directly, together with a history of calls '
    'with deep and damaged elements, possibly with a name that is defined or a schema that '
    'is registered between calls. An interpreter working on the description of the modules '
    'gives every single result. Non-trivial: some element reaches through at least two '
    'references, or the history has a late definition or registration.'
)

# parts of one another
NAMES = (('Node', 'SubNode', 'Nod'), ('Node', 'node', 'unique'), ('unique', 'Uniqu', 'Unique_'))
SCALARS = ('int', 'str', 'bool')
STYLES = ('text', 'nested', 'future', 'direct', 'nested', 'text')
KINDS = ('dataclass', 'namedtuple', 'typeddict', 'class', 'frozen')


# ------------------------------------------------------------------ reference

class Lazy(t.Struct):
    """A structure whose fields are given later."""

    def __init__(self, name, kind):
        self.kind, self.name, self.total, self.fields, self.type = kind, name, True, [], None
        self.custom = False
        self.pending = False

    def ref(self, element, path=()):
        if self.custom:
            return t.scalar('custom ' + repr(element))
        if not t.is_missing(element):
            return super().ref(element, path)
        if self.pending:
            # needs a value of itself, out of nothing
            raise t.Unspecified
        self.pending = True
        try:
            for _, node, default in self.fields:
                if default is None:
                    try:
                        node.ref(t.MISSING, path)
                    except t.Unspecified:
                        pass
            return super().ref(element, path)
        finally:
            self.pending = False


class Alias(t.Node):
    kind = 'alias'

    def ref(self, element, path=()):
        return self.inner.ref(element, path)


def plain(cls):
    """Node classes need no actual type here."""
    return type(cls.__name__, (cls,), {'__init__': lambda self, **given: vars(self).update(given)})


Sequence, FixedTuple, Mapping, Union_ = map(plain, (t.Sequence, t.FixedTuple, t.Mapping, t.Union_))


class System:

    def __init__(self, description):
        self.description = description
        self.modules = [modules.define('') for _ in description]
        self.nodes = {}
        self.unique = None
        for m, module in enumerate(description):
            for c, (kind, _, _, _) in enumerate(module['classes']):
                self.nodes[m, c] = Lazy(f'{m}.{c}', kind)
        self.aliases = {}
        for m, module in enumerate(description):
            if module['alias'] is not None:
                self.aliases[m] = Alias()
        for m, module in enumerate(description):
            if module['alias'] is not None:
                self.aliases[m].inner = self.node(module['alias'], m)
            for c, (_, _, fields, _) in enumerate(module['classes']):
                self.nodes[m, c].fields = [
                    (name, self.node(type_, m), default) for name, type_, default in fields
                ]
        self.registry = {node.name: node for node in self.nodes.values()}

    def node(self, spec, m):
        kind, *rest = spec
        if kind in SCALARS:
            return t.Scalar(kind)
        if kind == 'ref':
            return self.nodes[tuple(rest)]
        if kind == 'alias':
            return self.aliases[rest[0]]
        if kind in ('list', 'vtuple'):
            return Sequence(kind=kind, item=self.node(rest[0], m))
        if kind == 'dict':
            return Mapping(kind='dict', key=t.Scalar('str'), value=self.node(rest[0], m))
        if kind == 'pair':
            return FixedTuple(items=[self.node(s, m) for s in rest])
        if kind == 'opt':
            return Union_(members=[self.node(rest[0], m), t.NoneNode()])
        if kind == 'union':
            return Union_(members=[self.node(s, m) for s in rest[0]])
        raise ValueError(spec)

    # source text

    def class_name(self, m, c):
        if self.description[m].get('local'):
            return 'Node'
        if (m, c) == self.unique:
            return 'Unique'
        names = NAMES[self.description[m].get('names', 0)]
        if any(module['alias'] is not None for module in self.description):
            # nothing tells where the names within a plain alias are to be found
            return f'{names[c]}{m}'
        return names[c]

    def alias_name(self, m):
        # python itself is unable to compare recursive aliases of the same name
        return f'Alias_{self.modules[m].__name__}'

    def text(self, spec, m, quote):
        """The annotation; references are given in quotes if quote is set."""
        kind, *rest = spec
        go = lambda s: self.text(s, m, quote)  # noqa: E731
        if kind in SCALARS:
            return kind
        if kind in ('ref', 'alias'):
            name = self.class_name(*rest) if kind == 'ref' else self.alias_name(rest[0])
            if rest[0] != m:
                name = f'other{rest[0]}.{name}'
            return repr(name) if quote else name
        if kind == 'list':
            return f'typing.List[{go(rest[0])}]'
        if kind == 'vtuple':
            return f'typing.Tuple[{go(rest[0])}, ...]'
        if kind == 'dict':
            return f'typing.Dict[str, {go(rest[0])}]'
        if kind == 'pair':
            return f'typing.Tuple[{go(rest[0])}, {go(rest[1])}]'
        if kind == 'opt':
            return f'typing.Optional[{go(rest[0])}]'
        return f'typing.Union[{", ".join(map(go, rest[0]))}]'

    def known(self, spec, m, c):
        """The annotation may refer to the types directly."""
        kind, *rest = spec
        if kind == 'ref':
            return tuple(rest) < (m, c)
        if kind == 'alias':
            return rest[0] < m
        return all(self.known(s, m, c) for s in specs_in(spec))

    def annotation(self, spec, m, c, style):
        if style == 'future':
            return self.text(spec, m, False)
        if style == 'text':
            return repr(self.text(spec, m, False))
        if style == 'direct' and self.known(spec, m, c):
            return self.text(spec, m, False)
        return self.text(spec, m, True)

    def class_source(self, m, c):
        kind, style, fields, extra = self.description[m]['classes'][c]
        if self.description[m]['future']:
            style = 'future'
        elif style == 'future':
            style = 'text'
        name = self.class_name(m, c)
        hints = [(f, self.annotation(type_, m, c, style), default) for f, type_, default in fields]
        items = [f'{f}: {hint}' + (f' = {default[1]!r}' if default else '') for f, hint, default in hints]
        if kind in ('dataclass', 'frozen'):
            head = '@dataclasses.dataclass' + ('(frozen=True)' if kind == 'frozen' else '')
            if extra == 'initvar' and style in ('future', 'text') and kind == 'dataclass':
                # the last field is given as init-only variable
                f, hint, default = hints[-1]
                hint = f'dataclasses.InitVar[{hint}]'
                if style == 'text':
                    hint = f'dataclasses.InitVar[{hints[-1][1]}]'
                items[-1] = f'{f}: {hint}' + (f' = {default[1]!r}' if default else '')
                items += [f'def __post_init__(self, {f}): self.{f} = {f}']
            return [head, f'class {name}:'] + [f' {item}' for item in items]
        if kind == 'namedtuple':
            return [f'class {name}(typing.NamedTuple):'] + [f' {item}' for item in items]
        if kind == 'typeddict':
            items = [f'{f}: {hint}' for f, hint, _ in hints]
            return [f'class {name}(typing.TypedDict):'] + [f' {item}' for item in items]
        return [f'class {name}:', f' def __init__(self, {", ".join(items)}):'] + [
            f'  self.{f} = {f}' for f, _, _ in fields
        ]

    def source(self, m):
        module = self.description[m]
        lines = ['import dataclasses, typing']
        if module['future']:
            lines.insert(0, 'from __future__ import annotations')
        if module['alias'] is not None:
            lines.append(f'{self.alias_name(m)} = ' + self.text(module['alias'], m, True))
        for c in range(len(module['classes'])):
            if module.get('local'):
                lines += [f'def make{c}():'] + [f' {line}' for line in self.class_source(m, c)] + [' return Node']
                lines.append(f'class{c} = make{c}()')
            else:
                lines += self.class_source(m, c)
        return '\n'.join(lines)

    def define(self, skip=None):
        self.unique = skip
        """Execute the modules; the class skip is left out."""
        for m, module in enumerate(self.modules):
            for other, value in enumerate(self.modules):
                if other != m:
                    vars(module)[f'other{other}'] = value
        for m, module in enumerate(self.modules):
            exec(compile(self.source(m), f'<{module.__name__}>', 'exec', dont_inherit=True), vars(module))
            for c in range(len(self.description[m]['classes'])):
                name = f'class{c}' if self.description[m].get('local') else self.class_name(m, c)
                self.nodes[m, c].type = getattr(module, name)
        if skip is not None:
            m, c = skip
            self.hidden = vars(self.modules[m]).pop('Unique')

    def reveal(self, skip):
        m, c = skip
        vars(self.modules[m])['Unique'] = self.hidden

    def root(self, form):
        """The type of a call and its node."""
        outer, style, target = form
        node = self.aliases[target[1]] if target[0] == 'alias' else self.nodes[tuple(target[1:])]
        module = self.modules[target[1]]
        local = self.description[target[1]].get('local')
        name = self.alias_name(target[1]) if target[0] == 'alias' else self.class_name(*target[1:])
        if local:
            name = f'class{target[2]}'
        if style == 'bare':
            # of the types used before
            names = [self.class_name(*key) for key in self.nodes]
            if target[0] == 'alias' or local or names.count(name) > 1:
                style = 'direct'
            else:
                for key in sorted(self.nodes):
                    marsh.schema.UnmarshalSchema(self.nodes[key].type)
        if style == 'direct':
            type_ = getattr(module, name)
        elif style == 'bare':
            type_ = typing.ForwardRef(name)
        elif style == 'ref':
            type_ = typing.ForwardRef(f'{module.__name__}.{name}')
        else:
            type_ = f'{module.__name__}.{name}'
        t.clear_typing_caches()
        if outer == 'list':
            return typing.List[type_], Sequence(kind='list', item=node)
        if outer == 'dict':
            return typing.Dict[str, type_], Mapping(kind='dict', key=t.Scalar('str'), value=node)
        if outer == 'opt':
            return typing.Optional[type_], Union_(members=[node, t.NoneNode()])
        if outer == 'union':
            return typing.Union[bool, type_, str], Union_(members=[t.Scalar('bool'), node, t.Scalar('str')])
        if isinstance(type_, str):
            type_ = typing.ForwardRef(type_)
        return type_, node


def specs_in(spec):
    kind, *rest = spec
    if kind in SCALARS or kind in ('ref', 'alias'):
        return []
    return rest[0] if kind == 'union' else rest


def refs_in(spec):
    if spec[0] == 'ref':
        return [tuple(spec[1:])]
    return [ref for s in specs_in(spec) for ref in refs_in(s)]


# ------------------------------------------------------------------ generation

def field_types(m, c, sizes, local, alias):
    """Types whose references can not go on forever."""
    if local:
        targets = [('ref', m, c)]
    else:
        targets = [('ref', i, j) for i, size in enumerate(sizes) for j in range(size)]
    later = [target for target in targets if target[1:] > (m, c)]
    scalars = st.sampled_from([(s,) for s in SCALARS])
    ref = st.sampled_from(targets)
    if alias:
        ref = gen.pick(ref, st.just(('alias', m)))
    inner = gen.pick(scalars, ref, ref)
    inner = gen.pick(
        inner, inner, ref,
        st.tuples(st.just('list'), ref), st.tuples(st.just('opt'), ref), st.tuples(st.just('dict'), inner),
        st.tuples(st.just('union'), st.lists(inner, min_size=2, max_size=3, unique=True)),
        st.tuples(st.just('pair'), inner, inner),
    )
    guarded = gen.pick(
        st.tuples(st.sampled_from(['list', 'vtuple', 'dict', 'opt']), inner),
        st.tuples(st.sampled_from(['list', 'vtuple', 'dict', 'opt']), inner),
        st.builds(lambda s, r: ('union', [s, r]), scalars, ref),
        st.builds(lambda s, r: ('union', [r, s]), scalars, ref),
        st.builds(lambda s, r: ('pair', s, ('opt', r)), scalars, ref),
    )
    if later and not local:
        return gen.pick(scalars, guarded, guarded, st.sampled_from(later))
    return gen.pick(scalars, guarded, guarded, guarded)


@st.composite
def systems(draw):
    count = draw(st.sampled_from([1, 2, 2, 2]))
    sizes = [draw(st.integers(1, 3)) for _ in range(count)]
    aliased = draw(st.integers(0, 3))
    out = []
    locals_ = []
    for m in range(count):
        locals_.append(draw(st.integers(0, 4)) == 4)
    if any(locals_):
        # classes defined in functions can not be referred to by name
        locals_ = [True] * count
    for m in range(count):
        local = locals_[m]
        alias = None
        if aliased == 2 + m and not local:
            ref = st.sampled_from([('ref', m, c) for c in range(sizes[m])] + [('alias', m)])
            members = [draw(st.sampled_from([(s,) for s in SCALARS])), ('list', ('alias', m)), ('dict', draw(ref))]
            alias = ('union', draw(st.permutations(members)))
        classes = []
        for c in range(sizes[m]):
            kind = draw(st.sampled_from(KINDS))
            names = draw(st.lists(st.sampled_from(['a', 'b', 'next', 'x']), min_size=1, max_size=3, unique=True))
            types = field_types(m, c, sizes, local, alias is not None)
            fields = [(name, draw(types), None) for name in names]
            if kind != 'typeddict' and draw(st.booleans()):
                name, type_, _ = fields[-1]
                fields[-1] = (name, type_, ('value', draw(st.sampled_from([None, 0, 'd']))))
            classes.append((kind, draw(st.sampled_from(STYLES)), fields, draw(st.sampled_from(['', 'initvar']))))
        future = draw(st.integers(0, 3)) == 3
        module = {'future': future, 'classes': classes, 'alias': alias, 'names': draw(st.integers(0, 2))}
        if local:
            module['local'] = True
        out.append(module)
    return out


@st.composite
def fitting(draw, system, spec, budget):
    kind, *rest = spec
    go = lambda s, b=budget - 1: draw(fitting(system, s, b))  # noqa: E731
    if kind == 'int':
        return draw(st.sampled_from([0, 1, -7, '3']))
    if kind == 'str':
        return draw(st.sampled_from(['s', '', 'x.y', '1']))
    if kind == 'bool':
        return draw(st.sampled_from([True, False, 'yes']))
    if kind == 'alias':
        return go(system[rest[0]]['alias'])
    if kind == 'ref':
        m, c = rest
        _, _, fields, _ = system[m]['classes'][c]
        out = {}
        deep = draw(st.integers(0, len(fields) - 1))
        for i, (name, type_, default) in enumerate(fields):
            if default is not None and (budget <= 0 or i != deep) and draw(st.integers(0, 2)):
                continue
            out[name] = go(type_, budget - 1 if i == deep else 0)
        if len(out) == len(fields) and draw(st.integers(0, 5)) == 5:
            return list(out.values())
        return out
    if kind in ('list', 'vtuple'):
        if budget <= 0:
            return []
        items = [go(rest[0])]
        if draw(st.integers(0, 3)) == 3:
            items.insert(0, go(rest[0], 0))
        return items
    if kind == 'dict':
        return {} if budget <= 0 else {draw(st.sampled_from(['k', 'a', '1'])): go(rest[0])}
    if kind == 'pair':
        return [go(rest[0]), go(rest[1])]
    if kind == 'opt':
        return None if budget <= 0 or draw(st.integers(0, 9)) == 9 else go(rest[0])
    members = rest[0]
    if budget <= 0:
        members = [s for s in members if not refs_in(s) and s[0] != 'alias'] or members
    return go(draw(st.sampled_from(members)))


@st.composite
def uses(draw, system, local, bare=False):
    m = draw(st.integers(0, len(system) - 1))
    target = ('ref', m, draw(st.integers(0, len(system[m]['classes']) - 1)))
    style = draw(st.sampled_from(['direct', 'direct', 'text', 'ref']))
    if bare and draw(st.integers(0, 4)) == 0:
        style = 'bare'
    if system[m]['alias'] is not None and draw(st.booleans()):
        # nothing tells where names of a plain alias are to be found
        target = ('alias', m)
    outer = draw(st.sampled_from(['', '', 'list', 'dict', 'opt', 'union']))
    budget = draw(gen.pick(st.integers(0, 8), st.integers(5, 60)))
    element = draw(fitting(system, target, budget))
    if outer == 'list':
        element = [element]
    elif outer == 'dict':
        element = {'top': element}
    for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2]))):
        element = t._mutate(
            element, draw(st.lists(st.integers(0, 3), max_size=30)),
            draw(st.sampled_from(['replace', 'replace', 'missing', 'drop', 'add'])),
            draw(st.sampled_from([None, 'bad', 5, [], {}, {'a': 1}, ['x'], True])),
        )
    return (outer, style, target), element


@st.composite
def histories(draw):
    system = draw(systems())
    local = bool(system[0].get('local'))
    calls = draw(st.lists(uses(system, local, True), min_size=1, max_size=6))
    return system, calls


def levels(element):
    if t.is_map(element):
        element = list(element.values())
    if t.is_seq(element):
        return 1 + max(map(levels, element), default=0)
    return 0


def nesting(form):
    deepest, todo = 0, [(form, 0)]
    while todo:
        form, depth = todo.pop()
        deepest = max(deepest, depth)
        if isinstance(form, (list, tuple)):
            todo += [(item, depth + 1) for item in form]
    return deepest


def expected(node, element):
    try:
        return 'ok', node.ref(element)
    except t.Bad as err:
        return 'bad', {tuple(field for field in path if field) for path, _ in err.errors}


def call(system, form, element, ctx, note='', given=None):
    type_, node = system.root(form)
    given = element if given is None else given
    what = f'{form!r} of {given!r} {note}'
    try:
        want = expected(node, element)
    except t.Unspecified:
        # there is more than one way to fill in missing values, but they all come to an end
        ctx.label('open ended')
        try:
            got = marsh.unmarshal(type_, given)
        except marsh.errors.MarshError:
            return False
        ctx.check(
            nesting(t.neutral(got, system.registry)) <= 4 * (levels(element) + 20),
            f'{what}: missing values are filled in without end\n{sources(system)}',
        )
        return False
    try:
        got = marsh.unmarshal(type_, given)
    except marsh.errors.MarshError as err:
        ctx.check(want[0] == 'bad', f'{what}: rejected: {err!r}\nexpected {want[1]!r}\n{sources(system)}')
        return False
    form = t.neutral(got, system.registry)
    ctx.check(want[0] == 'ok', f'{what}: accepted as {got!r}, errors expected at {want[1]!r}\n{sources(system)}')
    ctx.check(form == want[1], f'{what}: is {form!r}\nexpected {want[1]!r}\n{sources(system)}')
    return True


def sources(system):
    return '\n'.join(f'--- {module.__name__}\n{system.source(m)}' for m, module in enumerate(system.modules))


def recursive(case, ctx):
    description, calls = case
    system = System(description)
    system.define()
    if any(module['alias'] is not None for module in description):
        ctx.label('alias')
        # names of a plain alias are looked up where types used before are defined
        m = [module['alias'] is not None for module in description].index(True)
        for c in range(len(description[m]['classes'])):
            marsh.schema.UnmarshalSchema(system.nodes[m, c].type)
    for form, element in calls:
        fits = call(system, form, element, ctx)
        deep = levels(element)
        ctx.label('fits' if fits else 'does not fit', f'top {form[0]} {form[1]}')
        ctx.label(*[f'depth>={n}' for n in (5, 15, 40) if deep >= n])
        ctx.nontrivial(deep >= 3)
    for module in description:
        ctx.label(*(f'{kind} {"future" if module["future"] else style}' for kind, style, _, _ in module['classes']))
        if module.get('local'):
            ctx.label('local')


# ------------------------------------------------------------------ late

def reaching(description, target):
    """Classes whose schema involves the target."""
    found = {target}
    changed = True
    while changed:
        changed = False
        for m, module in enumerate(description):
            for c, (_, _, fields, _) in enumerate(module['classes']):
                refs = {ref for _, type_, _ in fields for ref in refs_in(type_)}
                if (m, c) not in found and refs & found:
                    found.add((m, c))
                    changed = True
    return found


@st.composite
def late_histories(draw):
    system = draw(systems().filter(lambda s: not s[0].get('local') and all(m['alias'] is None for m in s)))
    m = draw(st.integers(0, len(system) - 1))
    target = (m, draw(st.integers(0, len(system[m]['classes']) - 1)))
    before = draw(st.lists(uses(system, False), min_size=1, max_size=3))
    after = draw(st.lists(uses(system, False), min_size=1, max_size=4))
    return system, target, before, after


def defined(case, ctx):
    """A name that is defined after a use has failed."""
    description, target, before, after = case
    if any(kind == 'class' for module in description for kind, _, _, _ in module['classes']):
        ctx.reject()   # parameters whose annotation can not be resolved accept anything
    system = System(description)
    # the other classes must not refer to the name while they are being defined
    for m, module in enumerate(description):
        for c, (kind, style, fields, extra) in enumerate(module['classes']):
            if style == 'direct':
                module['classes'][c] = (kind, 'nested', fields, extra)
    system.define(skip=target)
    users = reaching(description, target)
    failed = 0
    for form, element in before:
        if tuple(form[2][1:]) == target and form[1] != 'direct':
            form = (form[0], 'direct', form[2])
        if tuple(form[2][1:]) == target:
            continue
        if tuple(form[2][1:]) not in users:
            call(system, form, element, ctx, '(not concerned)')
            continue
        type_, _ = system.root(form)
        try:
            marsh.unmarshal(type_, element)
        except Exception:
            failed += 1
    system.reveal(target)
    for form, element in after:
        call(system, form, element, ctx, '(after the definition)')
    for node in system.nodes.values():
        fields = marsh.schema.UnmarshalSchema(node.type).doc(1).fields
        ctx.check(
            list(fields or ()) == [name for name, _, _ in node.fields],
            f'{node.type} documents the fields {fields!r}\n{sources(system)}',
        )
    ctx.label(f'failed {failed}')
    ctx.nontrivial(failed > 0)


def registered(case, ctx):
    """A schema that is registered after its type was used, alone or inside of others."""
    description, target, before, after = case
    system = System(description)
    system.define()
    for form, element in before:
        call(system, form, element, ctx, '(before the registration)')
    cls = system.nodes[target].type

    class CustomUnmarshalSchema(marsh.schema.UnmarshalSchema):

        @classmethod
        def match(cls_, value):
            return value is cls

        def unmarshal(self, element):
            if marsh.utils.is_missing(element) and self.has_default():
                return self.get_default()
            return 'custom ' + repr(element)

    registry = marsh.schema.UnmarshalSchema.registry
    try:
        registry.register(CustomUnmarshalSchema, priority=100)
        system.nodes[target].custom = True
        for form, element in after:
            call(system, form, element, ctx, '(after the registration)')
    finally:
        del registry.priority[list(registry.priority).index(CustomUnmarshalSchema)]
        marsh.schema.UnmarshalSchema.cache_clear()
    system.nodes[target].custom = False
    users = reaching(description, target)
    ctx.nontrivial(any(tuple(form[2][1:]) in users for form, _ in before))
    for form, _ in before:
        ctx.label('used before' if tuple(form[2][1:]) in users else 'unrelated')


# ------------------------------------------------------------------ components

def named(system, spec, element, marks):
    """The element with the names of the components that are meant."""
    kind, *rest = spec
    if kind == 'ref':
        types = {f: type_ for f, type_, _ in system[rest[0]]['classes'][rest[1]][2]}
        if not t.is_map(element):
            return element
        element = {k: named(system, types[k], v, marks) if k in types else v for k, v in element.items()}
        if marks and marks.pop():
            element = {'name': 'C{}{}'.format(*rest), **element}
        return element
    if kind in ('list', 'vtuple') and t.is_seq(element):
        return [named(system, rest[0], v, marks) for v in element]
    if kind == 'dict' and t.is_map(element):
        return {k: named(system, rest[0], v, marks) for k, v in element.items()}
    if kind == 'opt':
        return named(system, rest[0], element, marks)
    if kind == 'pair' and t.is_seq(element) and len(element) == 2:
        return [named(system, s, v, marks) for s, v in zip(rest, element)]
    return element


@st.composite
def component_histories(draw):
    system = draw(systems().filter(lambda s: all(m['alias'] is None for m in s)))
    calls = draw(st.lists(uses(system, bool(system[0].get('local'))), min_size=1, max_size=6))
    for module in system:
        for c, (kind, style, fields, extra) in enumerate(module['classes']):
            if kind == 'typeddict':
                module['classes'][c] = ('dataclass', style, fields, extra)
    marks = draw(st.lists(st.booleans(), max_size=12))
    return system, calls, marks, draw(st.booleans())


def components(case, ctx):
    """Classes that are components of a namespace."""
    description, calls, marks, one = case
    system = System(description)
    system.define()
    spaces = [marsh.namespaces.new('first', object)]
    spaces.append(spaces[0] if one else marsh.namespaces.new('second', object))
    for (m, c), node in system.nodes.items():
        spaces[m].register(node.type, name=f'C{m}{c}')
    for form, element in calls:
        marks_ = list(marks)
        inner = named(description, form[2], element, marks_)
        ctx.nontrivial(levels(element) >= 3)
        ctx.label(f'names {min(2, len(marks) - len(marks_))}')
        if form[0] in ('', 'opt'):
            fits = call(system, form, element, ctx, '(component)', inner)
        else:
            fits = call(system, form, element, ctx, '(component)')
        ctx.label('fits' if fits else 'does not fit')
    for (m, c), node in system.nodes.items():
        for schema in (marsh.schema.UnmarshalSchema(node.type), spaces[m][f'C{m}{c}']):
            names = [name for name, _, _ in node.fields]
            fields = schema.doc(2).fields
            ctx.check(list(fields or ()) == names, f'{node.type} documents {fields!r}\n{sources(system)}')
            ctx.check(isinstance(str(schema), str), 'str')


SUBS = [
    Sub('recursive', histories, recursive, 2500, 100000),
    Sub('defined', late_histories, defined, 800, 30000),
    Sub('registered', late_histories, registered, 800, 30000),
    Sub('components', component_histories, components, 1000, 30000),
]
