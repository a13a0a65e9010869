"""C29: schemas added by a user take part everywhere."""
import dataclasses
import typing

import marsh
from hypothesis import strategies as st

from checks import c03, c05, c08, c09, c10, c11, c23, c26, c27
from checks import c02 as conform
from vlib import gen, own, wrappers
from vlib import types as t
from vlib.core import Sub
from vlib.oracle import ref_split

PROPERTY = 'C29'
RULE = (
    'own: generated types which contain types of a user with schemas of the user (from '
    'scratch, from each of the templates, or wrapping the schema of the library), '
    'registered before or after first uses, with elements that fit, nearly fit or do not '
    'fit; the reference interpreter of C02 extended by these types decides. '
    'stack: up to four wrappers around a schema which change elements, results or texts, take '
    'arguments, look behind the next ones or replace them, against a model; cNN_*: the '
    'cases of other checks with their oracles, while wrappers which pass everything on are '
    'registered for all types, classes, aliases or others. Non-trivial: an own type is '
    'nested within another type, or a wrapper was used (and the case is non-trivial there).'
)


# ------------------------------------------------------------------ own types

def own_cases():
    return st.tuples(
        t.typed_elements(own.specs()), st.booleans(), st.booleans(),
        st.lists(wrapper_descriptions(), max_size=1),
    )


def wrapper_descriptions():
    return st.tuples(
        st.sampled_from(wrappers.CLASSES), st.sampled_from([1000, 1000, 1000, 7, 1]),
        st.sampled_from([True, True, True, False]),
    )


def attempt(type_, element):
    try:
        marsh.unmarshal(type_, element)
    except Exception:
        pass


def own_types(case, ctx):
    (spec, element), late, reverse, transparent = case
    model = t.Model(spec)
    try:
        expected = model.ref(element)
    except t.Unspecified:
        ctx.reject()
    nodes = [node for node in model.root.walk() if node.kind == 'own']
    if not nodes:
        ctx.reject()
    ctx.label(expected[0], *(f'style {node.style}' for node in nodes))
    ctx.nontrivial(nodes[0] is not model.root or len(nodes) > 1)
    if late:
        # first uses, as if there were no schemas
        ctx.label('registered late')
        attempt(model.type, element)
        for node in nodes:
            attempt(node.type, {})
            attempt(list[node.type], [element])
    schemas = [schema for node in nodes for schema in node.schemas()]
    if reverse:
        schemas.reverse()
    try:
        for schema in schemas:
            marsh.schema.register(schema)
            if late:
                attempt(model.type, element)
        with wrappers.installed(transparent):
            decide(model, spec, element, expected, ctx)
    finally:
        wrappers.remove(schemas)


def decide(model, spec, element, expected, ctx):
    schema = marsh.schema.UnmarshalSchema(model.type)
    for unmarshal in (lambda: marsh.unmarshal(model.type, element), lambda: schema.unmarshal(element)):
        try:
            got = unmarshal()
        except marsh.errors.MarshError as err:
            ctx.check(
                expected[0] == 'bad',
                f'{spec} rejects {element!r}: {err!r}\nexpected {expected[1]!r}',
            )
            located(err, expected[1], ctx, spec, element)
            continue
        form = model.neutral(got)
        ctx.check(expected[0] == 'ok', f'{spec} accepts {element!r} as {got!r}, errors expected at {expected[1]!r}')
        ctx.check(form == expected[1], f'{spec} from {element!r} is {form!r}\nexpected {expected[1]!r}')
        marshaled(model, spec, got, ctx)
    # all own types have a documentation and a text
    doc = schema.doc(3)
    ctx.check(isinstance(doc, marsh.schema.UnmarshalSchema.Doc) and isinstance(str(schema), str), 'doc', doc)


def located(err, errors, ctx, spec, element):
    path = ref_split(err.path)
    ctx.check(
        any(path == where for where, _ in errors),
        f'{spec} from {element!r}: error at {path!r}, expected at one of {errors!r}',
    )


def marshaled(model, spec, value, ctx):
    if any(text in repr(spec) for text in ("('dict', ('own'", "'set'")):
        return
    try:
        want = t.marshaled_value(value, model.registry)
    except t.Unspecified:
        return
    ctx.label('marshaled')
    got = marsh.marshal(value)
    with t.ordered():
        ctx.check(
            t.element_neutral(t._plain_tuples(got)) == t.element_neutral(t._plain_tuples(want)),
            f'{value!r} is marshaled to {got!r}, expected {want!r}',
        )


# ------------------------------------------------------------------ transparent wrappers

def under(module, name, quick, thorough, unless=None):
    """The cases of a sub-check of another check, with transparent wrappers."""
    sub = next(s for s in module.SUBS if s.name == name)

    def strategy():
        return st.tuples(st.lists(wrapper_descriptions(), min_size=1, max_size=3), sub.strategy())

    def decide(case, ctx):
        descriptions, inner = case
        with wrappers.installed(descriptions) as used:
            sub.fn(inner, ctx)
        ctx.label(*(f'used to {use}' for use in used))
        ctx.is_nontrivial = ctx.is_nontrivial and bool(used)

    return Sub(f'{module.PROPERTY.lower()}_{name}', strategy, decide, quick, thorough)


# ------------------------------------------------------------------ stacks of wrappers

BEHAVIORS = ('pass', 'tag', 'tag', 'unpack', 'short', 'bypass', 'doc', 'note', 'setter')
PLACES = ('top', 'list', 'dict', 'union', 'field', 'direct', 'direct', 'tuple', 'iterator')


def stack_cases():
    layers = st.lists(
        st.tuples(st.integers(1, 9), st.sampled_from(BEHAVIORS)),
        max_size=4, unique_by=lambda layer: layer[0],
    )
    element = st.recursive(
        gen.pick(st.integers(-3, 3), st.sampled_from(['short', 'bad', 'a'])),
        lambda inner: st.tuples(st.integers(0, 3), inner), max_leaves=3,
    )
    return st.tuples(
        layers, st.sampled_from(PLACES), st.sampled_from([None, None, 'default', 'factory']),
        st.sampled_from([None, None, 'n']), st.lists(st.one_of(element, element, st.none()), min_size=1, max_size=3),
        st.one_of(st.none(), st.integers(0, 3)),
    )


def stack_element(form):
    """Elements with layers for the wrappers which unpack."""
    if isinstance(form, tuple):
        return {f'w{form[0]}': stack_element(form[1])}
    return marsh.MISSING if form is None else form


class StackModel:

    def __init__(self, layers, default, note):
        self.layers = [(f'w{i}', behavior) for i, (_, behavior) in enumerate(layers)]
        self.default, self.note = default, note
        self.base = False       # constructed

    def unmarshal(self, element, index=0):
        if index == len(self.layers):
            self.base = True
            if marsh.utils.is_missing(element):
                if self.default is None:
                    t.fail(())
                return 'the default'
            if element == 'bad':
                t.fail(())
            return ('base', self.note, element)
        name, behavior = self.layers[index]
        if behavior == 'short' and element == 'short':
            return name
        if behavior == 'unpack' and isinstance(element, dict) and name in element:
            return self.unmarshal(element[name], index + 1)
        if behavior == 'bypass':
            return (name, self.unmarshal(element, len(self.layers)))
        if behavior == 'setter':
            return (name, 'set', element)
        inner = self.unmarshal(element, index + 1)
        if behavior == 'tag':
            return (name, inner)
        if behavior == 'note':
            return (name, self.note, inner)
        return inner

    def description(self):
        names = []
        for name, behavior in self.layers:
            if behavior == 'setter':
                return ' '.join([*names, 'set'])
            if behavior == 'doc':
                names.append(name)
        self.base = True
        return ' '.join([*names, 'base'])


def stack_schemas(layers, own, built):
    """Classes of schemas, from the outermost to the one which is no wrapper."""
    class Base(marsh.schema.UnmarshalSchema):

        def __init__(self, value, *args, note=None, **kwargs):
            super().__init__(value, *args, **kwargs)
            built.append(self)
            self.note = note

        @classmethod
        def match(cls, value):
            return value is own

        def doc_description(self):
            return 'base'

        def unmarshal(self, element):
            if marsh.utils.is_missing(element):
                if self.has_default():
                    return self.get_default()
                raise marsh.errors.MissingValueError
            if element == 'bad':
                raise marsh.errors.UnmarshalError('bad', element=element, type=self.value)
            return own(('base', self.note, element))

    class Other(Base):

        def doc_description(self):
            return 'set'

        def unmarshal(self, element):
            return own(('set', element))

    made = [stack_wrapper(f'w{i}', behavior, own, Other) for i, (_, behavior) in enumerate(layers)]
    return [*made, Base]


def stack_wrapper(name, behavior, own, other):
    class Layer(marsh.schema.core.unmarshal.WrapperUnmarshalSchema):

        def __init__(self, value, *args, **kwargs):
            super().__init__(value, *args, **kwargs)
            self.note = kwargs.get('note')
            if behavior == 'setter':
                self.schema = other.__new__(other)
                marsh.schema.UnmarshalSchema.__init__(self.schema, value)

        @classmethod
        def match(cls, value):
            return value is own

        def doc(self, depth=0):
            doc = super().doc(depth)
            if behavior == 'doc':
                doc.description = f'{name} {doc.description}'
            return doc

        def unmarshal(self, element):
            if behavior == 'short' and element == 'short':
                return own(name)
            if behavior == 'unpack' and isinstance(element, dict) and name in element:
                with marsh.errors.prepend(name):
                    return super().unmarshal(element[name])
            if behavior == 'bypass':
                return own((name, plain(self.inner_schema.unmarshal(element))))
            inner = super().unmarshal(element)
            if behavior == 'setter':
                return own((name, *plain(inner)))
            if behavior == 'tag':
                return own((name, plain(inner)))
            if behavior == 'note':
                return own((name, self.note, plain(inner)))
            return inner

    return Layer


def plain(value):
    return value.inner if hasattr(value, 'inner') else value


PLACED = {
    # type, element, inner value
    'top': (lambda own: own, lambda e: e, lambda v: v),
    'list': (lambda own: list[own], lambda e: [e], lambda v: v[0]),
    'dict': (lambda own: dict[str, own], lambda e: {'k': e}, lambda v: v['k']),
    'union': (lambda own: typing.Union[own, None], lambda e: e, lambda v: v),
    'field': (lambda own: dataclasses.make_dataclass('Field', [('k', own)]), lambda e: {'k': e}, lambda v: v.k),
}
PLACES_WITHOUT_ARGUMENTS = ('list', 'dict', 'union', 'field')


def stack(case, ctx):
    layers, place, default, note, forms, move = case
    # registered and used from the highest priority to the lowest
    layers = sorted(layers, reverse=True)
    if any(behavior == 'bypass' for _, behavior in layers) and any(b == 'setter' for _, b in layers):
        ctx.reject()

    class Own:
        def __init__(self, inner):
            self.inner = inner
    built = []
    schemas = stack_schemas(layers, Own, built)
    arguments = {}
    if place not in PLACES_WITHOUT_ARGUMENTS:
        if default:
            arguments['default' if default == 'default' else 'default_factory'] = (
                'the default' if default == 'default' else lambda: 'the default')
        if note is not None:
            arguments['note'] = note
    else:
        default = note = None
    model = StackModel(layers, default, note)
    direct = place in ('direct', 'tuple', 'iterator')
    type_, element_of, value_of = PLACED['top' if direct else place]
    type_ = type_(Own)
    ctx.label(place, f'{len(layers)} layers', *(behavior for _, behavior in layers))
    ctx.nontrivial(len(layers) > 1)
    registered = []
    try:
        if direct:
            classes = schemas[1:]
            if len(schemas) == 1:
                schema = schemas[0](Own, **arguments)
            else:
                wrapped = {'direct': lambda: classes if len(classes) > 1 else classes[0],
                           'tuple': lambda: tuple(classes), 'iterator': lambda: iter(classes)}[place]()
                schema = schemas[0](Own, wrapped=wrapped, **arguments)
        else:
            order = [*zip([priority for priority, _ in layers], schemas), (0, schemas[-1])]
            for priority, class_ in sorted(order, key=lambda item: (item[0] * 7) % 10):
                marsh.schema.register(class_, priority=priority)
                registered.append(class_)
            schema = marsh.schema.UnmarshalSchema(type_, **arguments)
        if place in ('top', 'direct', 'tuple', 'iterator'):
            chain = []
            ctx.check(type(schema) is schemas[0], 'the outermost is', type(schema))
            ctx.check(bool(built) == (not layers), 'built before any use', built)
            ctx.check(schema.has_default() == bool(default), 'has_default', default)
            ctx.check(not default or schema.get_default() == 'the default', 'get_default')
        for form in forms:
            stack_decide(model, schema, form, place, element_of, value_of, built, type_, ctx)
        if place in ('top', 'direct', 'tuple', 'iterator'):
            ctx.check(schema.doc().description == model.description(), 'doc', schema.doc().description)
            ctx.check(schema.doc_description() == model.description().split()[-1], 'description')
            if not any(behavior == 'setter' for _, behavior in layers):
                while isinstance(schema, marsh.schema.core.unmarshal.WrapperUnmarshalSchema):
                    chain.append(type(schema))
                    ctx.check([*schema.wrapped] == schemas[len(chain):], 'wrapped', schema.wrapped)
                    ctx.check(type(schema.inner_schema) is schemas[-1], 'inner_schema', schema.inner_schema)
                    schema = schema.schema
                ctx.check([*chain, type(schema)] == schemas, 'layers', chain)
                ctx.check(schema.default is arguments.get('default', marsh.MISSING), 'default', schema.default)
                ctx.check(schema.note == note, 'note', schema.note)
            invalid_stacks(schemas, Own, ctx)
        elif move is not None and layers:
            # registered again, now in front of the others
            ctx.label('moved')
            move %= len(layers)
            marsh.schema.register(schemas[move], priority=20, replace=True)
            model = StackModel(layers, default, note)
            model.layers.insert(0, model.layers.pop(move))
            for form in forms:
                stack_decide(model, marsh.schema.UnmarshalSchema(type_), form, place, element_of, value_of, built, type_, ctx)
    finally:
        wrappers.remove(registered)


def stack_decide(model, schema, form, place, element_of, value_of, built, type_, ctx):
    element = stack_element(form)
    if marsh.utils.is_missing(element) and place in ('list', 'dict', 'field', 'union'):
        return
    try:
        want = model.unmarshal(element)
    except t.Bad:
        want = None
    uses = [schema.unmarshal]
    if place not in ('direct', 'tuple', 'iterator') and model.default is None and model.note is None:
        uses.append(lambda element: marsh.unmarshal(type_, element))
    for use in uses:
        try:
            got = plain(value_of(use(element_of(element))))
        except marsh.errors.UnmarshalError as err:
            ctx.check(want is None, f'{element!r} is rejected with {err!r}, expected {want!r}')
            continue
        ctx.check(want is not None, f'{element!r} is accepted as {got!r}')
        ctx.check(got == want, f'{element!r} is {got!r}, expected {want!r}')
    if place in ('top', 'direct', 'tuple', 'iterator'):
        # the wrapped schema is built at its first use and only then
        ctx.check(bool(built) == (model.base or not model.layers), 'built', built, 'after', element)
        ctx.check(not built or any(b == 'setter' for _, b in model.layers) or place == 'top' or len(built) == 1,
                  'built again', built)


def invalid_stacks(schemas, own, ctx):
    """A stack has to end with a schema which is no wrapper."""
    for class_ in schemas[:-1]:
        for wrapped in ([], (), iter(()), class_, [class_], [schemas[-1], class_]):
            try:
                class_(own, wrapped=wrapped)
            except ValueError:
                continue
            ctx.fail(f'wrapping {wrapped!r} is accepted')


SUBS = [
    Sub('stack', stack_cases, stack, 3000, 100000),
    Sub('own', own_cases, own_types, 4000, 150000),
    under(conform, 'nested', 500, 20000),
    under(conform, 'containers', 400, 15000),
    under(c03, 'typed', 400, 10000),
    under(c05, 'missing', 400, 10000),
    under(c08, 'union', 300, 10000),
    under(c09, 'bind', 300, 10000),
    under(c10, 'callbacks', 400, 10000),
    under(c11, 'history', 400, 10000),
    under(c23, 'structured', 300, 10000),
    under(c26, 'recursive', 600, 20000),
    under(c26, 'registered', 300, 10000),
    under(c27, 'dataclasses', 300, 10000),
]
