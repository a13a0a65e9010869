"""C11: namespaces build exactly the registered component, whatever came before."""
import dataclasses
import typing

import marsh
from hypothesis import strategies as st

from vlib import gen
from vlib import types as t
from vlib.core import Sub
from vlib.oracle import ref_join, ref_split, same_element

PROPERTY = 'C11'
RULE = (
    'Cases are a generated class hierarchy (dataclasses which hold each other) and a history '
    'of creating and deleting namespaces, registering and replacing components, and between '
    'these unmarshaling (directly and inside of other types), building, marshaling, '
    'documenting and selecting, with caches disabled, enabled and cleared. A model of the '
    'namespaces decides every single step. Non-trivial: a use follows two changes.'
)

NAMES = ['a', 'b', 'c', 'd.e', 'K1', 'é']
SPACES = ['s', 't', 'u']


class Classes:
    """classes: [(parent or None, nested or None, list of nested)]"""

    def __init__(self, specs):
        self.types = []
        self.twins = []
        self.subs = []
        self.fields = []
        for i, (parent, nested, many) in enumerate(specs):
            own = [(f'f{i}', int, i)]
            kinds = [(f'f{i}', 'int', None)]
            if nested is not None:
                own.append((f'n{i}', typing.Optional[self.types[nested]], None))
                kinds.append((f'n{i}', 'opt', nested))
            if many is not None:
                own.append((f'm{i}', typing.Tuple[self.types[many], ...], ()))
                kinds.append((f'm{i}', 'many', many))
            bases = (self.types[parent],) if parent is not None else ()
            inherited = self.fields[parent] if parent is not None else []
            self.types.append(dataclasses.make_dataclass(f'K{i}', own, bases=bases))
            if i % 2:
                self.types[i].__doc__ = f'Component {i}.'
            # classes which are equal by all but identity
            self.twins.append(dataclasses.make_dataclass(f'K{i}', own, bases=bases))
            self.subs.append(type(f'K{i}', (self.types[i],), {'__doc__': self.types[i].__doc__}))
            self.fields.append(inherited + kinds)

    def issub(self, i, j):
        return issubclass(self.types[i], self.types[j])

    def form(self, value):
        for i, type_ in enumerate(self.types):
            if type(value) is type_:
                return (i, {name: self.form(getattr(value, name)) for name, _, _ in self.fields[i]})
        if isinstance(value, (tuple, list)):
            return [self.form(v) for v in value]
        return ('plain', type(value).__name__, value)


class World:
    """Model of all namespaces."""

    def __init__(self, classes):
        self.classes = classes
        self.spaces = {}

    def matches(self, cls):
        return any(self.classes.issub(cls, base) for base, _ in self.spaces.values())

    def candidates(self, cls):
        return [
            (name, component)
            for _, components in self.spaces.values()
            for name, component in components.items()
            if self.classes.issub(component, cls)
        ]

    def name_of(self, cls):
        for _, components in reversed(self.spaces.values()):
            for name, component in components.items():
                if component == cls:
                    return name
        return None

    def unmarshal(self, cls, element, path=()):
        if not self.matches(cls) or not isinstance(element, dict):
            return self.plain(cls, element, path)
        element = dict(element)
        name = element.pop('name', t.MISSING)
        if t.is_missing(name):
            return self.plain(cls, element, path)
        found = {component for n, component in self.candidates(cls) if isinstance(name, str) and n == name}
        if len(found) > 1:
            raise t.Unspecified
        if not found:
            raise t.Bad([((*path, 'name'), False), (path, False)])
        return self.plain(found.pop(), element, path)

    def plain(self, cls, element, path):
        if t.is_missing(element):
            element = {}
        fields = self.classes.fields[cls]
        errors = []
        if isinstance(element, (list, tuple)):
            if len(element) > len(fields):
                errors.append((path, False))
            element = {name: value for (name, _, _), value in zip(fields, element)}
        if not isinstance(element, dict):
            t.fail(path)
        if set(element) - {name for name, _, _ in fields}:
            errors.append((path, False))
        out = {}
        for name, kind, other in fields:
            value = element.get(name, t.MISSING)
            here = (*path, name)
            try:
                if t.is_missing(value):
                    default = {'int': int(name[1:]), 'opt': None, 'many': ()}[kind]
                    out[name] = self.classes.form(default)
                elif kind == 'int':
                    try:
                        out[name] = ('plain', 'int', t.to_scalar('int', value))
                    except ValueError:
                        t.fail(here)
                elif kind == 'opt' and value is None:
                    out[name] = self.classes.form(None)
                elif kind == 'opt':
                    out[name] = self.unmarshal(other, value, here)
                elif isinstance(value, (list, tuple)):
                    out[name] = [self.unmarshal(other, v, (*here, str(i))) for i, v in enumerate(value)]
                else:
                    t.fail(here)
            except t.Bad as err:
                errors += err.errors
        if errors:
            raise t.Bad(errors)
        return (cls, out)

    def marshal(self, form):
        if isinstance(form, list):
            return [self.marshal(f) for f in form]
        if form[0] == 'plain':
            return form[2]
        out = {name: self.marshal(f) for name, f in form[1].items()}
        name = self.name_of(form[0])
        if name:
            out['name'] = name
        return out


PLACES = {
    'top': (lambda c: c, lambda e: e, lambda v: v, ()),
    'list': (lambda c: typing.List[c], lambda e: [e], lambda v: v[0], ('0',)),
    'opt': (lambda c: typing.Optional[c], lambda e: e, lambda v: v, ()),
    'dict': (lambda c: typing.Dict[str, c], lambda e: {'k': e}, lambda v: v['k'], ('k',)),
    'box': (lambda c: typing.NamedTuple('Box', [('x', c)]), lambda e: {'x': e}, lambda v: v.x, ('x',)),
}


def history(case, ctx):
    specs, ops = case
    classes = Classes(specs)
    world = World(classes)
    boxes = {}
    count = len(specs)
    changes = 0
    try:
        for step, (op, i, _, name, extra, element) in enumerate(ops):
            i %= count
            space = SPACES[extra % len(SPACES)]
            flag = bool(extra // len(SPACES) % 2)
            what = f'step {step}: {op}'
            if _apply(ctx, world, classes, boxes, op, i, name, space, flag, extra, element, what):
                changes += 1
            else:
                ctx.nontrivial(changes > 1)
            _compare(ctx, world, classes, what)
    finally:
        marsh.schema.caches.cache_enable()


def _compare(ctx, world, classes, what):
    ctx.check(list(marsh.namespaces) == list(world.spaces), f'{what}: namespaces {list(marsh.namespaces)!r}')
    for space, (base, components) in world.spaces.items():
        real = marsh.namespaces[space]
        ctx.check(real.base is classes.types[base], f'{what}: base of {space}')
        ctx.check(
            list(real) == list(components) and len(real) == len(components),
            f'{what}: components of {space} are {list(real)!r}, expected {list(components)!r}',
        )


def _apply(ctx, world, classes, boxes, op, i, name, space, flag, extra, element, what):
    ctx.label(op)
    if op == 'new':
        what += f' {space} of K{i}'
        try:
            marsh.namespaces.new(space, base=classes.types[i])
        except marsh.errors.MarshError as err:
            ctx.check(space in world.spaces, f'{what}: {err!r}')
        else:
            ctx.check(space not in world.spaces, f'{what}: replaced an existing namespace')
            world.spaces[space] = (i, {})
            return True
    elif op == 'delete':
        what += f' {space}'
        try:
            del marsh.namespaces[space]
        except KeyError:
            ctx.check(space not in world.spaces, f'{what}: not found')
        else:
            ctx.check(space in world.spaces, f'{what}: deleted what does not exist')
            del world.spaces[space]
            return True
    elif op == 'register':
        if space not in world.spaces:
            return False
        base, components = world.spaces[space]
        what += f' {name} in {space}: K{i} (replace {flag})'
        error = None
        if name in components and not flag:
            error = marsh.errors.MarshError
        elif not classes.issub(i, base):
            error = ValueError
        try:
            if extra >= 6:
                got = marsh.namespaces[space].register(name=name, replace=flag)(classes.types[i])
            else:
                got = marsh.namespaces[space].register(classes.types[i], name=name, replace=flag)
        except (marsh.errors.MarshError, ValueError) as err:
            ctx.check(error and isinstance(err, error), f'{what}: {err!r}')
        else:
            ctx.check(not error, f'{what}: accepted')
            ctx.check(got is classes.types[i], f'{what}: gives {got!r}')
            components[name] = i
            return True
    elif op in ('unmarshal', 'marshal'):
        place = sorted(PLACES)[extra % len(PLACES)]
        wrap, enclose, inner, prefix = PLACES[place]
        # types are used again and again
        type_ = boxes.setdefault((i, place), wrap(classes.types[i]))
        what += f' {type_} from {enclose(element)!r} with {world.spaces!r}'
        try:
            if place == 'opt' and (element is None or t.is_missing(element)):
                try:
                    expected, errors = world.unmarshal(i, element, prefix), None
                except t.Bad:
                    expected, errors = classes.form(None), None
            else:
                expected, errors = world.unmarshal(i, element, prefix), None
        except t.Bad as err:
            errors = {path for path, _ in err.errors}
        except t.Unspecified:
            ctx.label('ambiguous name')
            return False
        try:
            value = inner(marsh.unmarshal(type_, enclose(element)))
        except marsh.errors.MarshError as err:
            ctx.check(errors, f'{what}: {err!r}, expected {None if errors else expected!r}')
            ctx.check(isinstance(err, marsh.errors.UnmarshalError), f'{what}: {err!r}')
            ctx.check(ref_split(err.path) in errors, f'{what}: error at {err.path!r}, expected at {errors!r}')
            ctx.label('rejected')
            return False
        ctx.check(not errors, f'{what}: {value!r}, expected errors at {errors!r}')
        got = classes.form(value)
        ctx.check(got == expected, f'{what}: {value!r}, expected {expected!r}')
        if isinstance(element, dict) and 'name' in element:
            ctx.label('built by name')
        if op == 'marshal' and value is not None:
            plain = world.marshal(expected)
            out = marsh.marshal(value)
            ctx.check(same_element(out, plain), f'{what}: marshals as {out!r}, expected {plain!r}')
            try:
                back = world.unmarshal(i, plain)
            except (t.Bad, t.Unspecified):
                return False
            again = marsh.unmarshal(classes.types[i], out)
            ctx.check(classes.form(again) == back, f'{what}: unmarshals again as {again!r}')
            if world.name_of(expected[0]) and world.matches(i):
                ctx.check(back == expected, f'{what}: does not round trip')
                ctx.label('round trip by name')
    elif op == 'build':
        if space not in world.spaces:
            return False
        components = world.spaces[space][1]
        rest = {k: v for k, v in element.items() if k != 'name'} if isinstance(element, dict) else element
        what += f' {name} of {space} from {rest!r} with {world.spaces!r}'
        try:
            if name not in components:
                t.fail(())
            expected, errors = world.plain(components[name], rest, ()), None
        except t.Bad as err:
            errors = err.errors
        except t.Unspecified:
            return False
        try:
            if flag and isinstance(rest, dict) and all(k.isidentifier() and v != t.MISSING for k, v in rest.items()):
                half = dict(list(rest.items())[::2])
                # keyword arguments replace what the element has
                first = {k: ['replaced'] if j % 4 == 0 else v for j, (k, v) in enumerate(rest.items()) if j % 4 == 0 or k not in half}
                ctx.label('built with keyword arguments')
                value = marsh.namespaces[space].build(first, name=name, **half)
            elif flag and isinstance(rest, (list, tuple)):
                value = marsh.namespaces[space].build(rest[:1], *rest[1:], name=name)
            else:
                value = marsh.namespaces[space].build(rest, name=name)
        except marsh.errors.UnmarshalError as err:
            ctx.check(errors, f'{what}: {err!r}')
        else:
            ctx.check(not errors, f'{what}: {value!r}')
            ctx.check(classes.form(value) == expected, f'{what}: {value!r}, expected {expected!r}')
    elif op == 'doc':
        what += f' of K{i} with {world.spaces!r}'
        text = marsh.doc.terminal.format_unmarshal_help(classes.types[i], width=100, depth=2)
        ctx.check(isinstance(text, str), what)
        found = marsh.schema.UnmarshalSchema(classes.types[i]).doc(1).special_fields or []
        expected = [f'name = "{n}"' for n, _ in world.candidates(i)] if world.matches(i) else []
        ctx.check(
            sorted(f.value.split(' -> ')[0] for f in found) == sorted(expected),
            f'{what}: lists {[f.value for f in found]!r}, expected {expected!r}',
        )
        for field in found:
            ctx.check(
                any(field.value == f'name = "{n}" -> K{c}(...)' for n, c in world.candidates(i)),
                f'{what}: {field.value!r}, components {world.candidates(i)!r}',
            )
            number = int(field.value.rpartition('-> K')[2].partition('(')[0])
            ctx.check(
                field.description == (f'Component {number}.' if number % 2 else None), f'{what}: {field.value!r} is {field.description!r}')
            ctx.check(not field.description or field.description in text, f'{what}: {field.description!r} is not in {text!r}')
    elif op == 'select':
        what += f' {name} of K{i} with {world.spaces!r}'
        if not world.matches(i):
            return False
        found = {c for n, c in world.candidates(i) if n == name}
        if len(found) > 1:
            return False
        path = ref_join([name])
        try:
            schema = marsh.schema.UnmarshalSchema(classes.types[i]).select(path)
        except marsh.errors.PathError as err:
            ctx.check(not found, f'{what}: {err!r}')
        else:
            ctx.check(found and schema.value is classes.types[found.pop()], f'{what}: {schema!r}')
    elif op == 'lookup':
        got = marsh.namespaces.find_class(classes.types[i])
        ctx.check(got == world.name_of(i), f'{what}: the name of K{i} is {got!r}, expected {world.name_of(i)!r}')
        for other in (classes.twins[i], classes.subs[i]):
            got = marsh.namespaces.find_class(other)
            ctx.check(got is None, f'{what}: a class like K{i} has the name {got!r}')
            got = marsh.marshal(other())
            ctx.check('name' not in got, f'{what}: an instance of a class like K{i} marshals as {got!r}')
        got = [(n, s.name) for n, s in marsh.namespaces.find_subclasses(classes.types[i])]
        expected = [
            (n, s) for s, (_, components) in world.spaces.items() for n, c in components.items() if classes.issub(c, i)
        ]
        ctx.check(got == expected, f'{what}: subclasses of K{i} {got!r}, expected {expected!r}')
        got = [s.name for s in marsh.namespaces.find_namespaces(classes.types[i])]
        expected = [s for s, (base, _) in world.spaces.items() if classes.issub(i, base)]
        ctx.check(got == expected, f'{what}: namespaces of K{i} {got!r}, expected {expected!r}')
        for s, (_, components) in world.spaces.items():
            for n, c in components.items():
                ctx.check(n in marsh.namespaces[s], f'{what}: {n} is not in {s}')
                schema = marsh.namespaces[s][n]
                ctx.check(schema.value is classes.types[c], f'{what}: the schema of {n} in {s} is {schema!r}')
        listing(world, classes, name, what, ctx)
    elif op == 'clear':
        marsh.schema.UnmarshalSchema.cache_clear()
        marsh.namespaces.cache_clear(full=flag)
    elif op == 'disable':
        marsh.schema.caches.cache_disable()
    elif op == 'enable':
        marsh.schema.caches.cache_enable()
    return False


def listing(world, classes, name, what, ctx):
    """Namespaces are mappings of what they hold."""
    spaces = marsh.namespaces
    mapping(spaces, list(world.spaces), [s for s in SPACES if s not in world.spaces], f'{what}: the namespaces', ctx)
    for s, (base, components) in world.spaces.items():
        space = spaces[s]
        ctx.check(spaces.get(s) is space and space.name == s, f'{what}: {spaces.get(s)!r} is not {space!r}')
        ctx.check(space.base is classes.types[base], f'{what}: the base of {s} is {space.base!r}')
        mapping(space, list(components), [n for n in NAMES if n not in components], f'{what}: {s}', ctx)
        got = [(n, schema.value) for n, schema in space.items()]
        expected = [(n, classes.types[c]) for n, c in components.items()]
        ctx.check(got == expected, f'{what}: the items of {s} are {got!r}, expected {expected!r}')
        got = [schema.value for schema in space.values()]
        ctx.check(got == [c for _, c in expected], f'{what}: the values of {s} are {got!r}')
    missing = next((s for s in SPACES if s not in world.spaces), None)
    if missing is not None:
        try:
            del spaces[missing]
        except KeyError:
            pass
        else:
            ctx.fail(f'{what}: the namespace {missing} was deleted, but does not exist')


def mapping(value, names, others, what, ctx):
    got = list(value)
    ctx.check(got == names, f'{what} are {got!r}, expected {names!r}')
    ctx.check(list(value.keys()) == names and len(value) == len(names), f'{what} have the keys {list(value.keys())!r}, expected {names!r}')
    for n in names:
        ctx.check(n in value, f'{what}: {n} is not among them')
    for n in others:
        ctx.check(n not in value and value.get(n, 'default') == 'default', f'{what}: {n} is among them')
        try:
            got = value[n]
        except KeyError:
            continue
        ctx.fail(f'{what}: {n} is {got!r}')


class Sketch:
    """The namespaces as far as they are needed for generating useful steps."""

    def __init__(self, specs):
        self.specs = specs
        self.spaces = {}

    def chain(self, i):
        out = []
        while i is not None:
            out.append(i)
            i = self.specs[i][0]
        return out

    def apply(self, op, i, name, extra):
        space = SPACES[extra % len(SPACES)]
        flag = extra // len(SPACES) % 2
        if op == 'new':
            self.spaces.setdefault(space, (i, {}))
        elif op == 'delete':
            self.spaces.pop(space, None)
        elif op == 'register' and space in self.spaces:
            base, components = self.spaces[space]
            if base in self.chain(i) and (flag or name not in components):
                components[name] = i

    def candidates(self, i):
        return [(n, c) for _, cs in self.spaces.values() for n, c in cs.items() if i in self.chain(c)]


@st.composite
def _elements(draw, sketch, cls, depth=2):
    """An element for a class, which usually fits."""
    if draw(st.integers(0, 19)) == 19:
        return draw(gen.pick(t.MESSY, st.just(t.MISSING), st.none()))
    out = {}
    names = sketch.candidates(cls)
    name = None
    named = False
    if names and draw(st.integers(0, 3)):
        name, cls = draw(st.sampled_from(names))
        named = True
    elif draw(st.integers(0, 5)) == 5:
        name = draw(st.sampled_from([*NAMES, 'zz', t.MISSING, 1, ['a'], '', 0, None, False, [], {}]))
        named = True
    for i in reversed(sketch.chain(cls)):
        if draw(st.booleans()):
            out[f'f{i}'] = draw(st.sampled_from([3, 7, '3', 12, t.MISSING, 0, -2, 25, '8', 1.0, 'x', None]))
        nested, many = sketch.specs[i][1:]
        if nested is not None and depth and draw(st.integers(0, 2)):
            out[f'n{i}'] = draw(gen.pick(st.none(), _elements(sketch, nested, depth - 1), _elements(sketch, nested, depth - 1)))
        if many is not None and depth and draw(st.integers(0, 2)):
            out[f'm{i}'] = draw(st.lists(_elements(sketch, many, depth - 1), max_size=2))
    how = draw(st.integers(0, 15))
    if how == 14:
        return list(out.values())
    if how == 15:
        out['zz'] = 1
    if named:
        out['name'] = name
        if draw(st.booleans()):
            out = dict(reversed(list(out.items())))
    return out


@st.composite
def _cases(draw):
    specs = []
    for i in range(draw(st.integers(2, 5))):
        index = st.integers(0, i - 1) if i else st.none()
        specs.append((
            draw(gen.pick(st.none(), index, index, index)), draw(gen.pick(st.none(), index)), draw(gen.pick(st.none(), index)),
        ))
    sketch = Sketch(specs)
    ops = []
    if draw(st.booleans()):
        below = [i for i in range(len(specs)) if 0 in sketch.chain(i)]
        setup = [('new', 0, 0, 'a', 0, None)] + [
            ('register', draw(st.sampled_from(below)), 0, name, 0, None) for name in NAMES[:draw(st.integers(1, 3))]
        ]
        for op, cls, _, name, extra, _ in setup:
            sketch.apply(op, cls, name, extra)
        ops += setup
    for step in range(draw(st.integers(3, 12))):
        op = draw(gen.pick(
            st.sampled_from(['new', 'register', 'register', 'register', 'register', 'delete']) if step else st.just('new'),
            st.sampled_from(['unmarshal', 'unmarshal', 'marshal']),
            st.sampled_from(['unmarshal', 'marshal', 'build', 'build', 'doc', 'select', 'lookup', 'clear', 'disable', 'enable']),
        ))
        extra = draw(st.integers(0, 11))
        cls = draw(gen.pick(st.integers(0, len(specs) - 1), st.just(0)))
        name = draw(gen.pick(st.sampled_from(NAMES[:3]), st.sampled_from(NAMES)))
        if op == 'register' and sketch.spaces and draw(st.integers(0, 4)):
            # usually something that can be registered
            space = draw(st.sampled_from(sorted(sketch.spaces)))
            extra = SPACES.index(space) + 3 * draw(st.integers(0, 3))
            cls = draw(st.sampled_from([i for i in range(len(specs)) if sketch.spaces[space][0] in sketch.chain(i)]))
        if op in ('build', 'select') and sketch.spaces and draw(st.integers(0, 4)):
            names = sketch.candidates(cls)
            if op == 'build':
                space = draw(st.sampled_from(sorted(sketch.spaces)))
                extra = SPACES.index(space) + 3 * draw(st.integers(0, 3))
                names = list(sketch.spaces[space][1].items())
            if names:
                name = draw(st.sampled_from(sorted(names)))[0]
        element = None
        if op in ('unmarshal', 'marshal'):
            element = draw(_elements(sketch, cls))
        elif op == 'build':
            component = dict(sketch.spaces[SPACES[extra % 3]][1]).get(name, cls) if SPACES[extra % 3] in sketch.spaces else cls
            element = draw(_elements(sketch, component))
        sketch.apply(op, cls, name, extra)
        ops.append((op, cls, 0, name, extra, element))
    return specs, ops


def reserved(case, ctx):
    """Components must marshal to a mapping without a field called name."""
    kind, value = case
    base = type('Base', (), {})
    space = marsh.namespaces.new('verif', base=base)
    ctx.nontrivial()
    if kind == 'field':
        component = dataclasses.make_dataclass('Named', [('name', str)], bases=(base,))
        instance = component(value)
    else:
        component = dataclasses.make_dataclass('Other', [('x', int)], bases=(base,))
        instance = component(value)
    space.register(component, name='k')
    try:
        got = marsh.marshal(instance)
    except marsh.errors.MarshalError:
        ctx.check(kind == 'field', 'can not be marshaled')
    else:
        ctx.check(kind != 'field', f'the field name is lost: {got!r}')
        ctx.check(got == {'x': value, 'name': 'k'}, f'marshals as {got!r}')


SUBS = [
    Sub('history', _cases, history, 3000, 100000),
    Sub('reserved', lambda: st.one_of(
        st.tuples(st.just('field'), st.sampled_from(['', 'k', 'x', '0', ' '])),
        st.tuples(st.just('other'), st.integers(0, 9)),
    ), reserved, 30, 100),
]
