"""Types of a user together with schemas of the user, for ``vlib.types``.

A spec ``('own', style, plain)`` is a type of its own. What fits it is what fits the plain
spec, unmarshaled into ``Box(inner=...)``. The schema is made in one of the ways to extend
the library: from scratch, from one of its templates, or by wrapping another schema.
"""
import marsh
from hypothesis import strategies as st

from vlib import gen
from vlib import types as t

ANY = ('leaf', 'nested')
SEQUENCE = ('leaf', 'sequence', 'sequence', 'strict')
MAPPING = ('nested', 'mapping', 'mapping', 'strict')
STRUCT = ('structured', 'structured', 'callable')


class Box(t.Node):
    """Entry of the registry for the values of an own type."""
    kind = 'own'
    form_kind = 'own'
    fields = [('inner', None, None)]

    def __init__(self, name):
        self.name = name

        class Own:
            def __init__(self, inner):
                self.inner = inner

            def __eq__(self, other):
                return type(self) is type(other) and self.inner == other.inner

            def __hash__(self):
                return hash(name)

            def __repr__(self):
                return f'{name}({self.inner!r})'

        Own.__name__ = Own.__qualname__ = name
        Own.__module__ = __name__
        self.type = Own


class OwnNode(t.Node):
    kind = 'own'

    def __init__(self, model, style, plain):
        name = model.name()
        model.registry[name] = self.box = Box(name)
        self.style, self.plain = style, plain
        if style == 'union':
            self.members = [model.build(member) for member in plain[1]]
            self.inner = None
        else:
            self.members = []
            self.inner = model.build(plain)
        self.type = self.box.type
        if style in ('callable', 'wrapper', 'given'):
            self.type = self.inner.type

    def children(self):
        return self.members or (self.inner,)

    def ref(self, element, path=()):
        if self.style == 'leaf' and t.is_missing(element):
            t.fail(path, True)
        if self.style == 'given' and not t.is_missing(element):
            if not t.is_map(element) or set(element) != {'given'}:
                t.fail(path)
            if t.is_missing(element['given']):
                # the wrapped schema knows about the default value as well
                raise t.Unspecified
            return self.form(self.inner.ref(element['given'], (*path, 'given')))
        if self.style == 'union':
            for member in self.members:
                try:
                    return self.form(member.ref(element, path))
                except t.Bad:
                    pass
            t.fail(path, t.is_missing(element))
        form = self.inner.ref(element, path)
        if self.style == 'strict' and len(form[1]) == 2:
            t.fail(path)
        return self.form(form)

    def form(self, inner):
        return ('obj-own', self.box.name, [('inner', inner)])

    # the schemas

    def schemas(self):
        """The schemas a user would write."""
        return [getattr(self, f'_{self.style}')(), self._marshal()]

    def _marshal(self):
        own = self.box.type

        class OwnMarshalSchema(marsh.schema.MarshalSchema):

            @classmethod
            def match(cls, value):
                return isinstance(value, own)

            def marshal(self):
                return {'inner': marsh.marshal(self.value.inner)}

        return OwnMarshalSchema

    def _match(self):
        type_ = self.type

        class Match:
            @classmethod
            def match(cls, value):
                return value is type_

        return Match

    def _leaf(self):
        node, own = self, self.box.type

        class Leaf(self._match(), marsh.schema.UnmarshalSchema):

            def unmarshal(self, element):
                if marsh.utils.is_missing(element):
                    if self.has_default():
                        return self.get_default()
                    raise marsh.errors.MissingValueError
                return own(marsh.unmarshal(node.inner.type, element))

        return Leaf

    def _nested(self):
        node, own = self, self.box.type

        class Nested(self._match(), marsh.schema.UnmarshalSchema):

            def __init__(self, *args, **kwargs):
                super().__init__(*args, **kwargs)
                self.nested = marsh.schema.UnmarshalSchema(node.inner.type)

            def unmarshal(self, element):
                if marsh.utils.is_missing(element) and self.has_default():
                    return self.get_default()
                return own(self.nested.unmarshal(element))

        return Nested

    def _sequence(self, strict=False):
        node, own = self, self.box.type

        class Sequence(self._match(), marsh.schema.template.SequenceUnmarshalSchema):

            def __init__(self, *args, **kwargs):
                super().__init__(*args, **kwargs)
                self.value_schema = marsh.schema.UnmarshalSchema(node.inner.item.type)

            def construct(self, value):
                if strict and len(value) == 2:
                    raise ValueError('not two of them')
                return own(list(value))

        return Sequence

    def _mapping(self, strict=False):
        node, own = self, self.box.type

        class Mapping(self._match(), marsh.schema.template.MappingUnmarshalSchema):

            def __init__(self, *args, **kwargs):
                super().__init__(*args, **kwargs)
                self.key_schema = marsh.schema.UnmarshalSchema(node.inner.key.type)
                self.value_schema = marsh.schema.UnmarshalSchema(node.inner.value.type)

            def construct(self, value):
                if strict and len(value) == 2:
                    raise LookupError('not two of them')
                return own(dict(value))

        return Mapping

    def _strict(self):
        return self._mapping(True) if self.plain[0] == 'dict' else self._sequence(True)

    def _union(self):
        node, own = self, self.box.type

        class Union(self._match(), marsh.schema.template.UnionUnmarshalSchema):

            def __init__(self, *args, **kwargs):
                super().__init__(*args, **kwargs)
                self.schemas = [marsh.schema.UnmarshalSchema(member.type) for member in node.members]

            def unmarshal(self, element):
                if marsh.utils.is_missing(element) and self.has_default():
                    return self.get_default()
                return own(super().unmarshal(element))

        return Union

    def _structured(self):
        node, own = self, self.box.type

        class Structured(self._match(), marsh.schema.template.StructuredUnmarshalSchema):

            def __init__(self, *args, **kwargs):
                super().__init__(*args, **kwargs)
                self.schemas = {
                    name: marsh.schema.UnmarshalSchema(
                        field.type, **({} if default is None else {'default': default[1]}))
                    for name, field, default in node.inner.fields
                }

            def construct(self, *args, **kwargs):
                return own(node.inner.type(*args, **kwargs))

        return Structured

    def _callable(self):
        own = self.box.type

        class Callable(self._match(), marsh.schema.template.CallableUnmarshalSchema):

            def construct(self, *args, **kwargs):
                return own(super().construct(*args, **kwargs))

        return Callable

    def _wrapper(self):
        own = self.box.type

        class Wrapper(self._match(), marsh.schema.core.unmarshal.WrapperUnmarshalSchema):

            def unmarshal(self, element):
                if marsh.utils.is_missing(element) and self.has_default():
                    return self.get_default()
                return own(super().unmarshal(element))

        return Wrapper

    def _given(self):
        own = self.box.type

        class Given(self._match(), marsh.schema.core.unmarshal.WrapperUnmarshalSchema):

            def unmarshal(self, element):
                if marsh.utils.is_missing(element):
                    if self.has_default():
                        return self.get_default()
                    return own(super().unmarshal(element))
                if not marsh.utils.is_mapping(element) or set(element) != {'given'}:
                    raise marsh.errors.UnmarshalError('not given', element=element, type=self.value)
                with marsh.errors.prepend('given'):
                    return own(super().unmarshal(element['given']))

        return Given


def build(model, style, plain):
    return OwnNode(model, style, plain)


# ------------------------------------------------------------------ strategies

@st.composite
def own(draw, inner, comparable=False):
    which = draw(st.integers(0, 6))
    kinds = ('dataclass', 'frozen', 'namedtuple') if comparable else ('dataclass', 'frozen', 'class', 'namedtuple')
    if which == 0:
        return ('own', draw(st.sampled_from(ANY)), draw(inner))
    if which == 1:
        return ('own', draw(st.sampled_from(SEQUENCE)), ('list', draw(inner), True))
    if which == 2:
        key = draw(st.sampled_from([('str',), ('str',), ('int',)]))
        return ('own', draw(st.sampled_from(MAPPING)), ('dict', key, draw(inner), True))
    if which == 3:
        return ('own', 'union', ('union', draw(st.lists(inner, min_size=1, max_size=3))))
    if which == 4 and not comparable:
        return ('own', draw(st.sampled_from(STRUCT)), draw(t.structs(inner, ('class',))))
    return ('own', draw(st.sampled_from(['wrapper', 'wrapper', 'given'])), draw(t.structs(inner, kinds)))


def specs():
    low = own(gen.pick(t.SCALARS, t.SCALARS, t.LEAVES))
    middle = own(gen.pick(t.LEAVES, low, t.specs(1, leaves=gen.pick(t.LEAVES, low))))
    leaves = gen.pick(t.LEAVES, low, low, middle, middle)
    keys = own(gen.pick(t.SCALARS, t.SCALARS, t.LEAVES), True)
    return gen.pick(
        t.specs(2, leaves=leaves), t.specs(2, leaves=leaves), t.specs(1, leaves=leaves), middle,
        st.tuples(st.just('set'), keys, st.just(True)),
        st.tuples(st.just('dict'), keys, leaves, st.just(True)),
    )
