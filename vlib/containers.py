"""Container classes of a user, for ``vlib.types``.

A spec ``('cont', style, plain)`` is a container type which is no builtin one: subclasses,
generic classes, classes of ``collections`` and classes that merely look like a sequence
or a mapping. What fits it is what fits the plain spec (a list or a dict); the value is a
container of that class with the same contents.
"""
import abc
import collections
import collections.abc
import typing

from hypothesis import strategies as st

from vlib import types as t

T = typing.TypeVar('T')
K = typing.TypeVar('K')
V = typing.TypeVar('V')

# classes of these do not tell the type of what they contain
UNTYPED = ('user-plain', 'sub-plain')
# the type arguments of the class are not those of the container
GENERIC = ('plain-generic', 'plain-generic-sub', 'generic-first', 'generic-first-sub', 'unrelated', 'unrelated-bare', 'renamed', 'mixin', 'mixin-sub', 'nested', 'nested-sub')
SEQUENCE = (
    'sub', 'sub-tuple', 'generic', 'generic-sub', 'subsub', 'user', 'user-sub', 'builtin', 'builtin-typing', 'abc', 'abc-generic',
    'duck', 'duck', 'duck-iter', 'abstract', *UNTYPED, *GENERIC,
)
MAPPING = (
    'sub', 'generic', 'generic-sub', 'subsub', 'user', 'user-sub', 'builtin', 'builtin-typing', 'abc', 'abc-generic',
    'duck', 'duck', 'chain', 'abstract', *UNTYPED, *GENERIC, 'partial', 'partial-sub', 'swapped', 'default-sub', 'default-partial',
)

SET = ('sub', 'generic', 'generic-sub', 'subsub', 'sub-plain', *GENERIC)


class Held:
    """The contents of a class are held in the attribute ``held``."""
    __hash__ = None

    def __eq__(self, other):
        return type(self) is type(other) and self.held == other.held

    def __repr__(self):
        return f'{type(self).__name__}({self.held!r})'


class HeldList(Held):

    def __init__(self, items=()):
        self.held = list(items)

    def __contains__(self, value):
        return value in self.held

    def __getitem__(self, index):
        return self.held[index]

    def __len__(self):
        return len(self.held)


class HeldDict(Held):

    def __init__(self, items=()):
        self.held = dict(items)

    def __contains__(self, key):
        return key in self.held

    def __getitem__(self, key):
        return self.held[key]

    def __iter__(self):
        return iter(self.held)

    def __len__(self):
        return len(self.held)

    def get(self, key, default=None):
        return self.held.get(key, default)

    def items(self):
        return self.held.items()

    def keys(self):
        return self.held.keys()

    def values(self):
        return self.held.values()


# (a class without type arguments that merely looks like a container is built from the
# arguments of its constructor: these are not among the styles)

class Mixin:
    __slots__ = ()


class Other:
    pass


def _template(type_):
    """(type with a type variable, what the variable has to be replaced by to give the type)"""
    args = typing.get_args(type_)
    if typing.get_origin(type_) in (list, dict, tuple, set) and args and hasattr(type_, 'copy_with') and args[-1] is not ...:
        return type_.copy_with((*args[:-1], T)), args[-1]
    return T, type_


def _generic(style, alias, *args):
    """The styles of ``GENERIC`` for the typing alias of a container."""
    *others, last = args
    if any(isinstance(arg, typing.TypeVar) or getattr(arg, '__parameters__', ()) for arg in args):
        style = 'mixin'
    if style in ('generic-first', 'generic-first-sub'):
        variables = (K, V)[:len(args)]

        class Sub(typing.Generic[variables], alias[variables]):
            __hash__ = None
        if style == 'generic-first':
            return Sub[args], Sub

        class SubSub(Sub[args]):
            pass
        return SubSub, SubSub
    if style in ('plain-generic', 'plain-generic-sub'):
        # (such a base does not add its type variables to the class)
        class Sub(typing.get_origin(alias)[(*others, T)]):
            __hash__ = None
        if style == 'plain-generic':
            return Sub[last], Sub

        class SubSub(Sub[T]):
            pass
        return SubSub[last], SubSub
    if style in ('unrelated', 'unrelated-bare'):
        class Sub(alias[args], typing.Generic[T]):
            __hash__ = None
        return (Sub if style == 'unrelated-bare' else Sub[bytes]), Sub
    if style == 'renamed':
        class Base(alias[(*others, T)]):
            __hash__ = None

        class Sub(Base[V], typing.Generic[K, V]):
            pass
        return Sub[bytes, last], Sub
    if style in ('mixin', 'mixin-sub'):
        class Sub(Mixin, alias[args]):
            __hash__ = None
        if style == 'mixin':
            return Sub, Sub

        class SubSub(Sub, Other):
            pass
        return SubSub, SubSub
    template, argument = _template(last)

    class Sub(alias[(*others, template)]):
        __hash__ = None
    if style == 'nested':
        return Sub[argument], Sub

    class SubSub(Sub[argument]):
        pass
    return SubSub, SubSub


def _sequence(style, item):
    """(type, concrete class)"""
    if style in GENERIC:
        return _generic(style, typing.List, item)
    if style == 'sub':
        class Sub(typing.List[item]):
            __hash__ = None
        return Sub, Sub
    if style == 'sub-plain':
        class Sub(list):
            __hash__ = None
        return Sub, Sub
    if style == 'sub-tuple':
        class Sub(typing.Tuple[item, ...]):
            __hash__ = None
        return Sub, Sub
    if style in ('generic', 'generic-sub', 'subsub'):
        class Sub(typing.List[T]):
            __hash__ = None
        if style == 'generic':
            return Sub[item], Sub

        class SubSub(Sub[item]):
            pass
        if style == 'generic-sub':
            return SubSub, SubSub

        class SubSubSub(SubSub):
            pass
        return SubSubSub, SubSubSub
    if style in ('user', 'user-plain'):
        if style == 'user-plain':
            return collections.UserList, collections.UserList
        return collections.UserList[item], collections.UserList
    if style == 'user-sub':
        class Sub(collections.UserList, typing.MutableSequence[item]):
            pass
        return Sub, Sub
    if style == 'builtin':
        return collections.deque[item], collections.deque
    if style == 'builtin-typing':
        return typing.Deque[item], collections.deque
    if style in ('abc', 'abc-generic'):
        base = typing.Sequence[item if style == 'abc' else T]

        class Sub(HeldList, base):
            pass
        return (Sub if style == 'abc' else Sub[item]), Sub
    if style == 'abstract':
        class Abstract(abc.ABC, typing.Generic[T]):

            @abc.abstractmethod
            def __contains__(self, value):
                ...

            @abc.abstractmethod
            def __getitem__(self, index):
                ...

            @abc.abstractmethod
            def __len__(self):
                ...
        return Abstract[item], list

    class Duck(HeldList, typing.Generic[T]):
        if style == 'duck-iter':
            def __iter__(self):
                return iter(self.held)
    return Duck[item], Duck


def _mapping(style, key, value):
    if style in GENERIC:
        return _generic(style, typing.Dict, key, value)
    if style in ('partial', 'partial-sub', 'swapped', 'default-partial') and isinstance(key, typing.TypeVar):
        style = 'sub'
    if style in ('partial', 'partial-sub'):
        class Sub(typing.Dict[key, V]):
            __hash__ = None
        if style == 'partial':
            return Sub[value], Sub

        class SubSub(Sub[value]):
            pass
        return SubSub, SubSub
    if style == 'swapped':
        class Sub(typing.Dict[K, V], typing.Generic[V, K]):
            __hash__ = None
        return Sub[value, key], Sub
    if style in ('default-sub', 'default-partial'):
        class Sub(typing.DefaultDict[key, value if style == 'default-sub' else V]):
            __hash__ = None
        return (Sub if style == 'default-sub' else Sub[value]), Sub
    if style == 'sub':
        class Sub(typing.Dict[key, value]):
            __hash__ = None
        return Sub, Sub
    if style == 'sub-plain':
        class Sub(dict):
            __hash__ = None
        return Sub, Sub
    if style in ('generic', 'generic-sub', 'subsub'):
        class Sub(typing.Dict[K, V]):
            __hash__ = None
        if style == 'generic':
            return Sub[key, value], Sub

        class SubSub(Sub[key, value]):
            pass
        if style == 'generic-sub':
            return SubSub, SubSub

        class SubSubSub(SubSub):
            pass
        return SubSubSub, SubSubSub
    if style == 'user-plain':
        return collections.UserDict, collections.UserDict
    if style == 'user':
        return collections.UserDict[key, value], collections.UserDict
    if style == 'user-sub':
        class Sub(collections.UserDict, typing.MutableMapping[key, value]):
            pass
        return Sub, Sub
    if style == 'builtin':
        return collections.OrderedDict[key, value], collections.OrderedDict
    if style == 'builtin-typing':
        return typing.OrderedDict[key, value], collections.OrderedDict
    if style == 'chain':
        return typing.ChainMap[key, value], collections.ChainMap
    if style in ('abc', 'abc-generic'):
        base = typing.Mapping[key, value] if style == 'abc' else typing.Mapping[K, V]

        class Sub(HeldDict, base):
            pass
        return (Sub if style == 'abc' else Sub[key, value]), Sub
    if style == 'abstract':
        class Abstract(abc.ABC, typing.Generic[K, V]):
            pass
        for name in ('__contains__', '__getitem__', '__iter__', '__len__', 'get', 'items', 'keys', 'values'):
            def method(self, *args):
                ...
            method.__name__ = name
            setattr(Abstract, name, abc.abstractmethod(method))
        abc.update_abstractmethods(Abstract)
        return Abstract[key, value], dict

    class Duck(HeldDict, typing.Generic[K, V]):
        pass
    return Duck[key, value], Duck


def _set(style, item):
    if style in GENERIC:
        return _generic(style, typing.Set, item)
    if style == 'sub':
        class Sub(typing.Set[item]):
            pass
        return Sub, Sub
    if style == 'sub-plain':
        class Sub(set):
            pass
        return Sub, Sub

    class Sub(typing.Set[T]):
        pass
    if style == 'generic':
        return Sub[item], Sub

    class SubSub(Sub[item]):
        pass
    if style == 'generic-sub':
        return SubSub, SubSub

    class SubSubSub(SubSub):
        pass
    return SubSubSub, SubSubSub


class Held_:
    """Entry of the registry for the values of a container class."""
    kind = 'cont'
    form_kind = 'cont'

    def __init__(self, name, type_, plain):
        self.name, self.type, self.plain = name, type_, plain

    def view(self, value):
        """The contents as a list or dict."""
        if self.plain is set:
            return set(value)
        if self.plain is list:
            return [value[i] for i in range(len(value))]
        return {key: value[key] for key in value.keys()}

    def make(self, plain):
        if issubclass(self.type, collections.defaultdict):
            return self.type(None, plain)
        return self.type(plain)


class ContNode(t.Node):
    kind = 'cont'

    def __init__(self, model, style, plain):
        t.clear_typing_caches()
        self.style = style
        self.inner = model.build(plain)
        if plain[0] == 'list':
            self.type, class_ = _sequence(style, self.inner.item.type)
        elif plain[0] == 'set':
            self.type, class_ = _set(style, self.inner.item.type)
        else:
            self.type, class_ = _mapping(style, self.inner.key.type, self.inner.value.type)
        self.entry = None
        if class_ not in (list, dict):
            name = model.name()
            if class_.__module__ == 'collections':
                # the same class wherever it is used
                name = class_.__name__
            else:
                class_.__name__ = class_.__qualname__ = name
                class_.__module__ = __name__
            self.entry = model.registry[name] = Held_(name, class_, {'list': list, 'set': set, 'dict': dict}[plain[0]])

    def children(self):
        return (self.inner,)

    def ref(self, element, path=()):
        form = self.inner.ref(element, path)
        if self.entry is None:
            return form
        return ('obj-cont', self.entry.name, [('inner', form)])


def build(model, style, plain):
    return ContNode(model, style, plain)


# ------------------------------------------------------------------ strategies

@st.composite
def cont(draw, inner, keys=None):
    which = draw(st.integers(0, 8))
    if which == 8:
        style = draw(st.sampled_from(SET))
        return ('cont', style, ('set', None if style in UNTYPED else draw(t.HASHABLE), True))
    if which < 4:
        style = draw(st.sampled_from(SEQUENCE))
        return ('cont', style, ('list', None if style in UNTYPED else draw(inner), True))
    style = draw(st.sampled_from(MAPPING))
    if style in UNTYPED:
        return ('cont', style, ('dict', None, None, True))
    return ('cont', style, ('dict', draw(t.KEYS if keys is None else keys), draw(inner), True))


def specs(leaves=None):
    plain = t.LEAVES if leaves is None else leaves
    low = cont(t.gen.pick(t.SCALARS, plain))
    middle = cont(t.gen.pick(plain, low, t.specs(1, leaves=t.gen.pick(plain, low))))
    mixed = t.gen.pick(plain, low, low, middle)
    return t.gen.pick(
        middle, middle, t.specs(2, leaves=mixed), t.specs(1, leaves=mixed), t.specs(1, leaves=mixed),
    )
