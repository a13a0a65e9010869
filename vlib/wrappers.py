"""Schemas of a user which pass everything on to the schemas they wrap."""
import contextlib
import inspect
import typing

import marsh

CLASSES = ('all', 'classes', 'aliases', 'others')


def matches(which, type_):
    if which == 'all':
        return True
    if which == 'classes':
        return inspect.isclass(type_)
    if which == 'aliases':
        return typing.get_origin(type_) is not None
    return not inspect.isclass(type_)


def make(which, used, unmarshal=True):
    """A wrapper that changes nothing; ``used`` collects what it is used for."""
    if unmarshal:
        class Pass(marsh.schema.core.unmarshal.WrapperUnmarshalSchema):
            @classmethod
            def match(cls, value):
                return matches(which, value)

            def unmarshal(self, element):
                used.add('unmarshal')
                return super().unmarshal(element)
    else:
        class Pass(marsh.schema.core.marshal.WrapperMarshalSchema):
            @classmethod
            def match(cls, value):
                return matches(which, type(value))

            def marshal(self):
                used.add('marshal')
                return super().marshal()
    return Pass


def remove(schemas):
    for root in (marsh.schema.UnmarshalSchema, marsh.schema.MarshalSchema):
        priority = root.registry.priority
        for i in reversed(range(len(priority))):
            if priority[i] in schemas:
                del priority[i]
    marsh.schema.UnmarshalSchema.cache_clear()


@contextlib.contextmanager
def installed(descriptions):
    """descriptions: [(class of types, base priority, unmarshal)]; gives the set of uses."""
    used = set()
    made = []
    try:
        for which, priority, unmarshal in descriptions:
            schema = make(which, used, unmarshal)
            made.append(schema)
            marsh.schema.register(schema, priority=priority)
        yield used
    finally:
        remove(made)
