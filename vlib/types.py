"""Generated types together with an independent reference of their (un)marshaling.

A *spec* is a literal describing a type. ``Model(spec)`` builds the python type and a
tree of nodes. Every node knows

* ``type``: the python type handed to the library,
* ``ref(element)``: the *neutral form* of the value the element stands for; raises
  ``Bad`` with the set of all locations at which the element does not fit.

A neutral form is a literal describing a value including the types of all of its parts.
``neutral(value)`` computes it for an actual value, ``realize`` is its inverse and
``marshaled`` gives the element the value should be marshaled to.
"""
import base64
import binascii
import collections
import contextlib
import collections.abc
import dataclasses
import enum
import math
import types
import typing
from typing import Any, Optional, Union

import typing_extensions
from hypothesis import strategies as st

from vlib import gen

MISSING = '???'
ABSENT = object()


class Bad(Exception):
    """The element does not fit: errors is a list of (path, is_missing)."""

    def __init__(self, errors):
        super().__init__(errors)
        self.errors = errors


class Unspecified(Exception):
    """The documented behaviour does not determine the result."""


def is_missing(element):
    return isinstance(element, str) and element == MISSING


def is_map(value):
    return isinstance(value, dict)


def is_seq(value):
    return isinstance(value, (list, tuple))


def is_primitive(value):
    return isinstance(value, (bool, int, float, str))


def fail(path, missing=False):
    raise Bad([(path, missing)])


def clear_typing_caches():
    # typing's own memo tables ignore the order of a union's members
    for cleanup in typing._cleanups:
        cleanup()


# ------------------------------------------------------------------ scalar rules

TRUE = ('1', 'true', 'y', 'yes', 'on')
FALSE = ('0', 'false', 'n', 'no', 'off')


def to_int(value):
    if isinstance(value, (bool, int)):
        return int(value)
    if isinstance(value, float):
        if not math.isfinite(value) or value != math.floor(value):
            raise ValueError
        return int(value)
    try:
        return int(value)
    except ValueError:
        number = float(value)
        return to_int(number)


def to_bool(value):
    if isinstance(value, bool):
        return value
    if isinstance(value, (int, float)):
        if value == 1:
            return True
        if value == 0:
            return False
        raise ValueError
    if value.lower() in TRUE:
        return True
    if value.lower() in FALSE:
        return False
    raise ValueError


def to_scalar(kind, value):
    """The value of a primitive element as a primitive type; raises ValueError."""
    if not is_primitive(value):
        raise ValueError
    try:
        if kind == 'int':
            return to_int(value)
        if kind == 'bool':
            return to_bool(value)
        if kind == 'float':
            return float(value)
        return str(value)
    except OverflowError:
        raise ValueError from None


def scalar(value):
    """Neutral form of an exact None/bool/int/float/str/bytes/complex."""
    if isinstance(value, float):
        return ('float', repr(value))
    if isinstance(value, complex):
        return ('complex', repr(value.real), repr(value.imag))
    return (type(value).__name__, value)


_KEEP_ORDER = [False]


@contextlib.contextmanager
def ordered(enabled=True):
    """Forms made within tell mappings with different orders of keys apart."""
    before = _KEEP_ORDER[0]
    _KEEP_ORDER[0] = enabled
    try:
        yield
    finally:
        _KEEP_ORDER[0] = before


def dict_form(name, items):
    if _KEEP_ORDER[0]:
        return (name, list(items))
    return (name, sorted(items, key=repr))


def element_neutral(element):
    if is_map(element):
        return dict_form('dict', [(scalar(k), element_neutral(v)) for k, v in element.items()])
    if isinstance(element, list):
        return ('list', [element_neutral(v) for v in element])
    if isinstance(element, tuple):
        return ('tuple', [element_neutral(v) for v in element])
    return scalar(element)


def has_missing(element):
    if is_map(element):
        if MISSING in element:
            raise Unspecified
        return any(map(has_missing, element.values()))
    if is_seq(element):
        return any(map(has_missing, element))
    return is_missing(element)


def hashable(form):
    if form[0] in ('list', 'set', 'dict', 'defaultdict', 'mappingproxy', 'obj-dataclass', 'obj-typeddict', 'obj-cont'):
        return False
    if form[0] in ('tuple', 'obj-namedtuple'):
        return all(hashable(f) for f in (form[1] if form[0] == 'tuple' else [v for _, v in form[2]]))
    return True


# ------------------------------------------------------------------ nodes

class Node:
    kind = ''

    def ref(self, element, path=()):
        raise NotImplementedError

    def children(self):
        return ()

    def walk(self):
        yield self
        for child in self.children():
            yield from child.walk()

    def accepts_missing(self):
        try:
            self.ref(MISSING)
        except Bad:
            return False
        return True


class Scalar(Node):
    TYPES = {'int': int, 'float': float, 'str': str, 'bool': bool}

    def __init__(self, kind):
        self.kind = kind
        self.type = self.TYPES[kind]

    def ref(self, element, path=()):
        if is_missing(element):
            fail(path, True)
        try:
            return scalar(to_scalar(self.kind, element))
        except ValueError:
            fail(path)


class NoneNode(Node):
    kind = 'none'

    def __init__(self, literal=True):
        self.type = None if literal else type(None)

    def ref(self, element, path=()):
        if element is None or is_missing(element):
            return scalar(None)
        fail(path)


class AnyNode(Node):
    kind = 'any'
    type = Any

    def ref(self, element, path=()):
        if has_missing(element):
            fail(path, True)
        return element_neutral(element)


def to_bytes(text):
    """Strict base64 (standard or URL-safe alphabet, padding optional)."""
    plain = text.rstrip('=')
    padding = len(text) - len(plain)
    plain = plain.replace('-', '+').replace('_', '/')
    if padding and (len(plain) + padding) % 4:
        raise Unspecified
    if any(c not in 'ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/' for c in plain):
        raise Unspecified
    if len(plain) % 4 == 1:
        raise ValueError
    try:
        return base64.b64decode(plain + '=' * (-len(plain) % 4), validate=True)
    except binascii.Error:
        raise ValueError from None


class Bytes(Node):
    kind = 'bytes'
    type = bytes

    def ref(self, element, path=()):
        if is_missing(element):
            fail(path, True)
        if not is_primitive(element):
            fail(path)
        try:
            return scalar(to_bytes(str(element)))
        except ValueError:
            fail(path)


class Complex(Node):
    kind = 'complex'
    type = complex

    def ref(self, element, path=()):
        if is_missing(element):
            fail(path, True)
        try:
            if is_seq(element):
                if len(element) > 2:
                    raise ValueError
                parts = [to_scalar('float', MISSING if is_missing(v) else v) for v in element]
                return scalar(complex(*parts))
            if is_map(element):
                if set(element) in ({'0'}, {'0', '1'}):
                    # a tuple can be given by its indices
                    raise Unspecified
                if set(element) - {'real', 'imag'}:
                    raise ValueError
                return scalar(complex(**{k: to_scalar('float', v) for k, v in element.items()}))
            return scalar(complex(to_scalar('float', element)))
        except ValueError:
            fail(path)


class Sequence(Node):
    # name: (typing constructor, builtin constructor, constructed type)
    KINDS = {
        'list': (typing.List, list, 'list'),
        'vtuple': (typing.Tuple, tuple, 'tuple'),
        'seq': (typing.Sequence, collections.abc.Sequence, 'tuple'),
        'mseq': (typing.MutableSequence, collections.abc.MutableSequence, 'list'),
        'set': (typing.Set, set, 'set'),
    }

    def __init__(self, kind, item, alias):
        self.kind = kind
        self.item = item
        origin = self.KINDS[kind][1 if alias else 0]
        clear_typing_caches()
        if item is None:
            self.type = origin
            self.item = AnyNode()
        elif kind == 'vtuple':
            self.type = origin[item.type, ...]
        else:
            self.type = origin[item.type]

    def children(self):
        return (self.item,)

    def ref(self, element, path=()):
        name = self.KINDS[self.kind][2]
        if is_missing(element):
            return (name, [])
        if not is_seq(element):
            fail(path)
        forms, errors = [], []
        for i, value in enumerate(element):
            try:
                forms.append(self.item.ref(value, (*path, str(i))))
            except Bad as err:
                errors += err.errors
        if errors:
            raise Bad(errors)
        if name == 'set':
            if not all(map(hashable, forms)):
                fail(path)
            return ('set', as_set(forms))
        return (name, forms)


def as_set(forms):
    """Members of a set: equal values collapse to the first one."""
    members = []
    seen = []
    for form in forms:
        value = realize(form, {})
        if any(value == other for other in seen):
            continue
        seen.append(value)
        members.append(form)
    return sorted(members, key=repr)


class FixedTuple(Node):
    kind = 'tuple'

    def __init__(self, items, alias):
        self.items = items
        clear_typing_caches()
        origin = tuple if alias else typing.Tuple
        if items:
            self.type = origin[tuple(item.type for item in items)]
        else:
            self.type = origin[()]

    def children(self):
        return self.items

    def ref(self, element, path=()):
        given = element
        if is_missing(given):
            given = {}
        if is_map(given):
            given = dict(given)
            unknown = set(given) - {str(i) for i in range(len(self.items))}
            given = [given.get(str(i), MISSING) for i in range(len(self.items))]
        elif is_seq(given):
            unknown = len(given) > len(self.items)
        else:
            fail(path)
        errors, forms = [], []
        for i, item in enumerate(self.items):
            try:
                forms.append(item.ref(given[i] if i < len(given) else MISSING, (*path, str(i))))
            except Bad as err:
                errors += err.errors
        if unknown or len(given) < len(self.items):
            errors.append((path, False))
        if errors:
            raise Bad(errors)
        return ('tuple', forms)


class Mapping(Node):
    KINDS = {
        'dict': (typing.Dict, dict, 'dict'),
        'map': (typing.Mapping, collections.abc.Mapping, 'mappingproxy'),
        'mmap': (typing.MutableMapping, collections.abc.MutableMapping, 'dict'),
        'ddict': (typing.DefaultDict, collections.defaultdict, 'defaultdict'),
    }

    def __init__(self, kind, key, value, alias):
        self.kind = kind
        self.key = key or AnyNode()
        self.value = value or AnyNode()
        clear_typing_caches()
        origin = self.KINDS[kind][1 if alias else 0]
        self.type = origin[key.type, value.type] if key else origin

    def children(self):
        return (self.key, self.value)

    def ref(self, element, path=()):
        name = self.KINDS[self.kind][2]
        if is_missing(element):
            return (name, [])
        if not is_map(element):
            fail(path)
        forms, errors = [], []
        keys = []
        for key, value in element.items():
            try:
                key_form = self.key.ref(key, (*path, key))
            except Bad:
                # whatever is wrong with a key, it is located at the entry
                errors.append(((*path, key), is_missing(key)))
                continue
            try:
                value_form = self.value.ref(value, (*path, key))
            except Bad as err:
                errors += err.errors
                continue
            real = realize(key_form, {})
            for i, other in enumerate(keys):
                if other == real:
                    forms[i] = (forms[i][0], value_form)
                    break
            else:
                keys.append(real)
                forms.append((key_form, value_form))
        if errors:
            raise Bad(errors)
        return dict_form(name, forms)


class Union_(Node):
    kind = 'union'

    def __init__(self, members):
        flat = []
        for member in members:
            for node in (member.members if isinstance(member, Union_) else [member]):
                if not any((node.type or type(None)) == (other.type or type(None)) for other in flat):
                    flat.append(node)
        self.members = flat
        clear_typing_caches()
        self.type = Union[tuple(node.type for node in flat)]
        if len(flat) == 1:
            self.type = flat[0].type

    def children(self):
        return self.members

    def optional(self):
        if len(self.members) == 2:
            rest = [node for node in self.members if node.kind != 'none']
            if len(rest) == 1:
                return rest[0]
        return None

    def ref(self, element, path=()):
        if len(self.members) == 1:
            return self.members[0].ref(element, path)
        inner = self.optional()
        if inner is not None:
            try:
                return inner.ref(element, path)
            except Bad:
                if element is None or is_missing(element):
                    return scalar(None)
                raise
        for member in self.members:
            try:
                return member.ref(element, path)
            except Bad:
                pass
        fail(path, is_missing(element))


class Literal(Node):
    kind = 'literal'

    def __init__(self, values):
        self.values = values
        clear_typing_caches()
        self.type = typing.Literal[tuple(values)]
        self.values = list(typing.get_args(self.type))

    def ref(self, element, path=()):
        for value in self.values:
            if value is None:
                if element is None or is_missing(element):
                    return scalar(None)
                continue
            if is_missing(element):
                continue
            try:
                got = to_scalar(type(value).__name__, element)
            except ValueError:
                continue
            if got == value:
                return scalar(value)
        fail(path, is_missing(element))


class Enum(Node):
    kind = 'enum'
    MIXINS = {'enum': (enum.Enum,), 'int': (enum.IntEnum,), 'str': (str, enum.Enum), 'strenum': (enum.StrEnum,)}

    def __init__(self, name, mixin, members):
        self.name = name
        self.mixin = mixin
        namespace = enum.EnumMeta.__prepare__(name, self.MIXINS[mixin])
        for member, value in members:
            namespace[member] = value
        self.type = enum.EnumMeta(name, self.MIXINS[mixin], namespace)
        self.members = [(member.name, member.value) for member in self.type]

    def form(self, name):
        return ('obj-enum', self.name, name)

    def ref(self, element, path=()):
        if is_missing(element):
            fail(path, True)
        if not is_primitive(element):
            fail(path)
        if self.mixin != 'enum':
            # primitive subclasses are looked up by value
            try:
                value = to_scalar('int' if self.mixin == 'int' else 'str', element)
            except ValueError:
                fail(path)
            for member, member_value in self.members:
                if member_value == value:
                    return self.form(member)
            fail(path)
        for member, value in self.members:
            if str(element) == member:
                return self.form(member)
            if is_primitive(value):
                try:
                    if to_scalar(type(value).__name__, element) == value:
                        return self.form(member)
                except ValueError:
                    pass
        fail(path)


def _source(kind, name, fields, total):
    names = [f[0] for f in fields]
    if kind == 'dataclass':
        lines = ['@dataclass(slots=True)' if total == 'slots' else '@dataclass', f'class {name}:'] + [
            f'    {f}: T{i}' + (f' = D{i}' if default is not None else '')
            for i, (f, _, default) in enumerate(fields)
        ] + ['    pass']
    elif kind == 'frozen':
        lines = [f"@dataclass(frozen=True, slots={total == 'slots'})", f'class {name}:'] + [
            f'    {f}: T{i}' + (f' = D{i}' if default is not None else '')
            for i, (f, _, default) in enumerate(fields)
        ] + ['    pass']
    elif kind == 'namedtuple':
        lines = [f'class {name}(NamedTuple):'] + [
            f'    {f}: T{i}' + (f' = D{i}' if default is not None else '')
            for i, (f, _, default) in enumerate(fields)
        ] + ['    pass']
    elif kind == 'class':
        args = ''.join(
            f', {f}: T{i}' + (f' = D{i}' if default is not None else '')
            for i, (f, _, default) in enumerate(fields)
        )
        lines = [f'class {name}:', f'    def __init__(self{args}):', '        pass'] + [
            f'        self.{f} = {f}' for f in names
        ]
    else:
        raise ValueError(kind)
    return '\n'.join(lines)


class Struct(Node):
    """fields: [(name, Node, default)]; default: None | ('value', literal) | ('factory', literal)."""

    def __init__(self, name, kind, fields, total=True):
        self.kind = kind
        self.name = name
        self.total = total
        self.fields = fields
        self.factories = {}
        if kind == 'typeddict':
            hints = {}
            for field, node, default in fields:
                hints[field] = node.type
                if total and default is not None:
                    clear_typing_caches()
                    hints[field] = typing_extensions.NotRequired[node.type]
            clear_typing_caches()
            self.type = typing.TypedDict(name, hints, total=total)
        else:
            scope = {'NamedTuple': typing.NamedTuple, 'dataclass': dataclasses.dataclass, '__name__': __name__}
            for i, (_, node, default) in enumerate(fields):
                scope[f'T{i}'] = node.type
                if default is not None:
                    if default[0] == 'factory':
                        self.factories[fields[i][0]] = factory = _Factory(default[1])
                        scope[f'D{i}'] = dataclasses.field(default_factory=factory)
                    else:
                        scope[f'D{i}'] = default[1]
            exec(_source(kind, name, fields, total), scope)
            self.type = scope[name]

    @property
    def form_kind(self):
        return {'frozen': 'dataclass', 'class': 'class'}.get(self.kind, self.kind)

    def children(self):
        return [node for _, node, _ in self.fields]

    def optional_key(self, default):
        return self.kind == 'typeddict' and (not self.total or default is not None)

    def order(self):
        """Order of the fields when given by position."""
        return self.fields

    def ref(self, element, path=()):
        given = element
        if is_missing(given):
            given = {}
        if is_seq(given):
            if self.kind == 'typeddict' and self.total and len({d is None for _, _, d in self.fields}) > 1:
                # required keys are in front of optional ones
                raise Unspecified
            names = [name for name, _, _ in self.order()]
            extra = len(given) > len(names)
            given = dict(zip(names, given))
        elif is_map(given):
            extra = bool(set(given) - {name for name, _, _ in self.fields})
        else:
            fail(path)
        errors, forms = [], []
        for name, node, default in self.fields:
            value = given.get(name, MISSING)
            if is_missing(value):
                if self.optional_key(default):
                    continue
                if default is not None:
                    forms.append((name, element_neutral(default[1])))
                    continue
            try:
                forms.append((name, node.ref(value, (*path, name))))
            except Bad as err:
                errors += err.errors
        if extra:
            errors.append((path, False))
        if errors:
            raise Bad(errors)
        if self.kind == 'typeddict':
            return dict_form('dict', [(scalar(name), form) for name, form in forms])
        return (f'obj-{self.form_kind}', self.name, forms)


class _Factory:

    def __init__(self, literal):
        self.literal = literal
        self.made = []

    def __call__(self):
        self.made.append(eval(repr(self.literal)))
        return self.made[-1]


class TypeVar_(Node):
    kind = 'typevar'

    def __init__(self, name, members):
        if len(members) == 1:
            self.inner = members[0]
            self.type = typing.TypeVar(name, bound=members[0].type or type(None))
        else:
            self.inner = Union_(members)
            self.type = typing.TypeVar(name, *(m.type for m in members))

    def children(self):
        return (self.inner,)

    def ref(self, element, path=()):
        return self.inner.ref(element, path)


class Annotated(Node):
    kind = 'annotated'

    def __init__(self, inner):
        self.inner = inner
        clear_typing_caches()
        self.type = typing.Annotated[inner.type, 'some note']

    def children(self):
        return (self.inner,)

    def ref(self, element, path=()):
        return self.inner.ref(element, path)


class Model:
    """A type and its reference, built from a spec."""

    def __init__(self, spec, prefix='S'):
        self.registry = {}
        self.prefix = prefix
        self.root = self.build(spec)
        self.type = self.root.type

    def name(self):
        return f'{self.prefix}{len(self.registry)}'

    def build(self, spec):
        kind, *rest = spec
        if kind in Scalar.TYPES:
            return Scalar(kind)
        if kind == 'none':
            return NoneNode()
        if kind == 'any':
            return AnyNode()
        if kind == 'bytes':
            return Bytes()
        if kind == 'complex':
            return Complex()
        if kind in Sequence.KINDS:
            item, alias = rest
            return Sequence(kind, item and self.build(item), alias)
        if kind == 'tuple':
            items, alias = rest
            return FixedTuple([self.build(item) for item in items], alias)
        if kind in Mapping.KINDS:
            key, value, alias = rest
            return Mapping(kind, key and self.build(key), value and self.build(value), alias)
        if kind == 'opt':
            return Union_([self.build(rest[0]), NoneNode(False)])
        if kind == 'union':
            return Union_([self.build(member) for member in rest[0]])
        if kind == 'literal':
            return Literal(rest[0])
        if kind == 'enum':
            name = self.name()
            self.registry[name] = None
            self.registry[name] = node = Enum(name, *rest)
            return node
        if kind in ('dataclass', 'frozen', 'namedtuple', 'class', 'typeddict'):
            fields, total = rest
            name = self.name()
            self.registry[name] = None
            self.registry[name] = node = Struct(
                name, kind, [(field, self.build(type_), default) for field, type_, default in fields], total,
            )
            return node
        if kind == 'typevar':
            return TypeVar_('TV', [self.build(member) for member in rest[0]])
        if kind == 'annotated':
            return Annotated(self.build(rest[0]))
        if kind == 'own':
            from vlib import own
            return own.build(self, *rest)
        if kind == 'cont':
            from vlib import containers
            return containers.build(self, *rest)
        raise ValueError(spec)

    def ref(self, element):
        """('ok', neutral) or ('bad', {(path, missing)})."""
        try:
            return 'ok', self.root.ref(element)
        except Bad as err:
            return 'bad', {
                (tuple(field for field in path if field), missing)
                for path, missing in err.errors
            }

    def neutral(self, value):
        return neutral(value, self.registry)

    def realize(self, form):
        return realize(form, self.registry)

    def kinds(self):
        return {node.kind for node in self.root.walk()}


def neutral(value, registry):
    type_ = type(value)
    for name, node in registry.items():
        if type_ is node.type:
            if node.kind == 'enum':
                return ('obj-enum', name, value.name)
            if node.kind == 'cont':
                return ('obj-cont', name, [('inner', neutral(node.view(value), registry))])
            if node.kind == 'namedtuple':
                if len(value) != len(node.fields):
                    return ('malformed', repr(value))
                items = list(zip((f[0] for f in node.fields), value))
            else:
                items = [(f, getattr(value, f, 'no such attribute')) for f, _, _ in node.fields]
            return (f'obj-{node.form_kind}', name, [(f, neutral(v, registry)) for f, v in items])
    if type_ in (bool, int, float, str, bytes, complex, type(None)):
        return scalar(value)
    if type_ in (list, tuple):
        return (type_.__name__, [neutral(v, registry) for v in value])
    if type_ is set:
        return ('set', sorted((neutral(v, registry) for v in value), key=repr))
    if type_ in (dict, types.MappingProxyType, collections.defaultdict):
        return dict_form(type_.__name__, [(neutral(k, registry), neutral(v, registry)) for k, v in value.items()])
    return ('other', type_.__name__, repr(value))


def realize(form, registry):
    """The value a neutral form describes."""
    kind = form[0]
    if kind == 'float':
        return float(form[1])
    if kind == 'complex':
        return complex(float(form[1]), float(form[2]))
    if kind in ('bool', 'int', 'str', 'bytes', 'NoneType'):
        return form[1]
    if kind == 'list':
        return [realize(f, registry) for f in form[1]]
    if kind == 'tuple':
        return tuple(realize(f, registry) for f in form[1])
    if kind == 'set':
        return {realize(f, registry) for f in form[1]}
    if kind in ('dict', 'mappingproxy', 'defaultdict'):
        items = {realize(k, registry): realize(v, registry) for k, v in form[1]}
        if kind == 'mappingproxy':
            return types.MappingProxyType(items)
        if kind == 'defaultdict':
            return collections.defaultdict(list, items)
        return items
    if kind == 'obj-enum':
        if form[1] not in registry:
            return form
        return registry[form[1]].type[form[2]]
    if kind == 'obj-cont' and form[1] in registry:
        return registry[form[1]].make(realize(form[2][0][1], registry))
    if kind.startswith('obj-'):
        if form[1] not in registry:
            return (form[1], tuple(realize(v, registry) for _, v in form[2]))
        return registry[form[1]].type(**{f: realize(v, registry) for f, v in form[2]})
    raise ValueError(form)


def marshaled(form, registry):
    """The element the value of a neutral form is marshaled to."""
    kind = form[0]
    if kind == 'bytes':
        return base64.urlsafe_b64encode(form[1]).decode()
    if kind == 'complex':
        real, imag = float(form[1]), float(form[2])
        return real if imag == 0 else {'real': real, 'imag': imag}
    if kind in ('bool', 'int', 'str', 'NoneType', 'float'):
        return realize(form, registry)
    if kind in ('list', 'tuple', 'set'):
        return tuple(marshaled(f, registry) for f in form[1])
    if kind in ('dict', 'mappingproxy', 'defaultdict'):
        return {str(marshaled(k, registry)): marshaled(v, registry) for k, v in form[1]}
    if kind == 'obj-enum':
        node = registry[form[1]]
        if node.mixin == 'enum':
            return form[2]
        return dict(node.members)[form[2]]
    if kind == 'obj-class':
        raise Unspecified
    if kind == 'obj-cont':
        return marshaled(form[2][0][1], registry)
    return {f: marshaled(v, registry) for f, v in form[2]}


def element_key(element, model, form):
    """Identifies an element, regardless of the order of the members of a set."""
    if any(f'{kind!r}' in repr(form) for kind in ('set',)):
        return repr(sorted(_leaves(element), key=repr))
    return repr(element_neutral(_plain_tuples(element)))


def _plain_tuples(element):
    if is_map(element):
        return {k: _plain_tuples(v) for k, v in element.items()}
    if is_seq(element):
        return tuple(map(_plain_tuples, element))
    return element


def _leaves(element):
    if is_map(element):
        for key, value in element.items():
            yield key
            yield from _leaves(value)
    elif is_seq(element):
        for value in element:
            yield from _leaves(value)
    else:
        yield scalar(element)


def marshaled_value(value, registry):
    """The element a value should be marshaled to."""
    type_ = type(value)
    if type_ in (bool, int, float, str, type(None)):
        return value
    if type_ is bytes:
        return base64.urlsafe_b64encode(value).decode()
    if type_ is complex:
        return value.real if value.imag == 0 else {'real': value.real, 'imag': value.imag}
    for node in registry.values():
        if type_ is not node.type:
            continue
        if node.kind == 'enum':
            return value.name if node.mixin == 'enum' else value.value
        if node.kind == 'class':
            raise Unspecified
        if node.kind == 'cont':
            return marshaled_value(node.view(value), registry)
        return {
            name: marshaled_value(getattr(value, name), registry)
            for name, _, _ in node.fields
        }
    if type_ in (dict, types.MappingProxyType, collections.defaultdict):
        return {str(marshaled_value(k, registry)): marshaled_value(v, registry) for k, v in value.items()}
    if type_ in (list, tuple, set, frozenset):
        return tuple(marshaled_value(v, registry) for v in value)
    raise Unspecified


# ------------------------------------------------------------------ strategies

IDENT = st.sampled_from(['a', 'b', 'c', 'x', 'y', 'value', 'name_1', 'é', 'A', 'lr'])
ALIAS = st.booleans()

LITERAL_VALUES = st.lists(
    gen.pick(
        st.integers(-2, 11), st.booleans(), st.sampled_from(['a', 'b', 'x.y', '1', 'True', 'yes', '', 'null', 'on']),
        st.none(),
    ),
    min_size=1, max_size=4,
)


@st.composite
def _enums(draw):
    mixin = draw(st.sampled_from(['enum', 'enum', 'enum', 'int', 'str', 'strenum']))
    values = {
        'enum': gen.pick(st.integers(-2, 5), st.sampled_from(['a', 'B', 'x.y', '1', 'true', 'C']), st.sampled_from([0.5, 1.0, True, None]),
                         st.tuples(st.integers(0, 2))),
        'int': st.integers(-2, 8),
        'str': st.sampled_from(['a', 'B', 'x.y', '1', 'true', 'A']),
        'strenum': st.sampled_from(['a', 'B', 'x.y', '1', 'true', 'A']),
    }[mixin]
    names = draw(st.lists(st.sampled_from(['A', 'B', 'C', 'D', 'one', 'true_']), min_size=1, max_size=4, unique=True))
    return ('enum', mixin, [(name, draw(values)) for name in names])


SCALARS = st.sampled_from([('int',), ('float',), ('str',), ('bool',)])
LEAVES = gen.pick(
    SCALARS, SCALARS, SCALARS, SCALARS,
    st.sampled_from([('any',), ('bytes',), ('complex',), ('none',), ('any',)]),
    st.builds(lambda v: ('literal', v), LITERAL_VALUES),
    _enums(),
)
HASHABLE = gen.pick(
    SCALARS, SCALARS, st.just(('bytes',)), _enums(),
    st.builds(lambda s: ('vtuple', s, True), SCALARS),
    st.builds(lambda s: ('opt', s), SCALARS),
)
KEYS = gen.pick(
    st.just(('str',)), st.just(('str',)), st.just(('str',)),
    SCALARS, _enums(), st.sampled_from([('bytes',), ('any',)]),
    st.builds(lambda v: ('literal', v), st.lists(st.sampled_from(['a', 'b', 'k.1']), min_size=1, max_size=3)),
)
DEFAULTS = gen.pick(
    st.none(), st.none(), st.none(),
    st.builds(
        lambda v: ('value', v),
        st.sampled_from([0, 1, True, False, 0.0, 1.0, -3, 'dflt', '', None, (), (1, 'a'), '1', 'a.b']),
    ),
    st.builds(lambda v: ('factory', v), st.sampled_from([[], [1, 2], {}, {'k': 1}, 5])),
)


@st.composite
def structs(draw, inner, kinds=('dataclass', 'dataclass', 'frozen', 'namedtuple', 'typeddict', 'class')):
    kind = draw(st.sampled_from(kinds))
    names = IDENT if kind != 'typeddict' else gen.pick(IDENT, st.sampled_from(['a.b', 'x y', '0', '"q"']))
    fields = draw(st.lists(st.tuples(names, inner, DEFAULTS), min_size=0 if kind != 'namedtuple' else 1, max_size=4,
                           unique_by=lambda f: f[0]))
    out = []
    for name, type_, default in fields:
        if default is not None and default[0] == 'factory' and kind not in ('dataclass', 'frozen'):
            default = ('value', draw(st.sampled_from([0, 'x', None])))
        out.append((name, type_, default))
    if kind != 'typeddict':
        out.sort(key=lambda f: f[2] is not None)
    if kind in ('dataclass', 'frozen'):
        # hold their values in slots
        return (kind, out, draw(st.sampled_from([True, True, 'slots'])))
    return (kind, out, draw(st.booleans()) if kind == 'typeddict' else True)


def _extend(inner, options):
    return gen.pick(*options(inner))


def _options(inner, kinds):
    seq = lambda *names: st.tuples(st.sampled_from(names), inner, ALIAS)  # noqa: E731
    return [
        seq('list', 'list', 'vtuple', 'seq', 'mseq'),
        st.tuples(st.just('set'), HASHABLE, ALIAS),
        st.tuples(st.just('tuple'), st.lists(inner, max_size=3), ALIAS),
        st.tuples(st.sampled_from(['dict', 'dict', 'map', 'mmap', 'ddict']), KEYS, inner, ALIAS),
        gen.pick(
            st.tuples(st.just('opt'), inner), st.tuples(st.just('opt'), inner),
            inner.map(lambda spec: ('union', [('none',), spec])),
        ),
        st.tuples(st.just('union'), st.lists(inner, min_size=2, max_size=4)),
        structs(inner, kinds), structs(inner, kinds), structs(inner, kinds),
        st.tuples(st.sampled_from(['list', 'vtuple', 'set']), st.none(), ALIAS),
        st.tuples(st.sampled_from(['dict', 'map', 'mmap']), st.none(), st.none(), ALIAS),
        st.tuples(st.just('typevar'), st.lists(inner, min_size=1, max_size=3)),
        st.tuples(st.just('annotated'), inner),
    ]


ALL_KINDS = ('dataclass', 'dataclass', 'frozen', 'namedtuple', 'typeddict', 'class')
MARSHALABLE = ('dataclass', 'dataclass', 'frozen', 'namedtuple', 'typeddict')


def specs(depth=2, kinds=ALL_KINDS, leaves=None):
    leaves = LEAVES if leaves is None else leaves
    level = leaves
    for _ in range(depth):
        options = _options(level, kinds)
        level = gen.pick(leaves, leaves, *options)
    # the root is a container more often than not
    return gen.pick(level, *options)


# elements for a spec ---------------------------------------------------------

def _int_texts(value):
    return st.sampled_from([value, value, value, str(value), f'{value}.0', f' {value}', float(value) if abs(value) < 2**53 else value])


MESSY = gen.pick(
    gen.scalars(), gen.scalars(st.sampled_from(['', '1', '1.0', 'true', 'no', 'a', 'null', '0x1', '1e2', 'nan', 'YES', 'Off'])),
    st.just(MISSING), st.just([]), st.just({}), st.just(()), gen.elements(max_leaves=3),
)


FLOATS = gen.pick(*[gen.finite_floats] * 9, st.sampled_from([float('inf'), -float('inf')]))


@st.composite
def valid(draw, spec, exact=False):
    """An element that usually fits the spec. exact: as it would be marshaled."""
    kind, *rest = spec
    go = lambda s: draw(valid(s, exact))  # noqa: E731
    if kind == 'int':
        value = draw(gen.ints)
        return value if exact else draw(_int_texts(value))
    if kind == 'float':
        value = draw(FLOATS)
        return value if exact else draw(st.sampled_from([value, value, str(value), draw(gen.ints)]))
    if kind == 'str':
        return draw(gen.any_text() if exact else gen.pick(gen.any_text(), gen.any_text(), gen.ints, gen.finite_floats, st.booleans()))
    if kind == 'bool':
        value = draw(st.booleans())
        return value if exact else draw(st.sampled_from([value, value, *((1, '1', 'true', 'Yes', 'ON', 'y', 1.0) if value else (0, '0', 'False', 'no', 'OFF', 'n', 0.0))]))
    if kind == 'none':
        return None
    if kind == 'any':
        return draw(gen.elements(max_leaves=5))
    if kind == 'bytes':
        text = base64.urlsafe_b64encode(draw(st.binary(max_size=8))).decode()
        if not exact and draw(st.booleans()):
            text = draw(st.sampled_from([text.rstrip('='), text.replace('-', '+').replace('_', '/')]))
        return text
    if kind == 'complex':
        real, imag = draw(FLOATS), draw(FLOATS)
        if exact:
            return {'real': real, 'imag': imag}
        return draw(st.sampled_from([real, [real, imag], (real,), {'imag': imag}, {'real': real, 'imag': str(imag)}, [], str(real)]))
    if kind in ('list', 'vtuple', 'seq', 'mseq', 'set'):
        item = rest[0] or ('any',)
        if kind == 'set' and rest[0] is None:
            items = draw(st.lists(gen.scalars(), max_size=3))
        else:
            items = [go(item) for _ in range(draw(st.integers(0, 3)))]
        return draw(st.sampled_from([list, tuple]))(items)
    if kind == 'tuple':
        return draw(st.sampled_from([list, tuple]))([go(item) for item in rest[0]])
    if kind in ('dict', 'map', 'mmap', 'ddict'):
        key, value = rest[0] or ('any',), rest[1] or ('any',)
        out = {}
        for _ in range(draw(st.integers(0, 3))):
            k = draw(gen.field()) if key[0] in ('any', 'str') else str(go(key))
            out[k] = go(value)
        return out
    if kind == 'opt':
        return None if draw(st.integers(0, 3)) == 0 else go(rest[0])
    if kind in ('union', 'typevar'):
        return go(draw(st.sampled_from(rest[0])))
    if kind == 'literal':
        value = draw(st.sampled_from(rest[0]))
        return value if exact or value is None or draw(st.booleans()) else str(value)
    if kind == 'enum':
        name, value = draw(st.sampled_from(rest[1]))
        use_value = rest[0] != 'enum' or (not exact and is_primitive(value) and draw(st.booleans()))
        return value if use_value else name
    if kind == 'annotated':
        return go(rest[0])
    if kind == 'own':
        return {'given': go(rest[1])} if rest[0] == 'given' else go(rest[1])
    if kind == 'cont':
        return go(rest[1])
    fields = rest[0]
    given = {}
    for name, type_, default in fields:
        if default is not None and draw(st.booleans()):
            if draw(st.integers(0, 3)) == 0 and not exact:
                given[name] = MISSING
            continue
        given[name] = go(type_)
    if not exact and draw(st.integers(0, 3 if kind != 'typeddict' else 5)) == 0:
        values = []
        for name, _, _ in fields:
            if name not in given:
                break
            values.append(given[name])
        return values
    items = list(given.items())
    if draw(st.booleans()):
        items.reverse()
    return dict(items)


def _mutate(element, steps, op, payload):
    """Change one place of an element."""
    if steps:
        step, rest = steps[0], steps[1:]
        if is_map(element) and element:
            key = list(element)[step % len(element)]
            return {k: _mutate(v, rest, op, payload) if k == key else v for k, v in element.items()}
        if is_seq(element) and element:
            out = list(element)
            index = step % len(out)
            out[index] = _mutate(out[index], rest, op, payload)
            return type(element)(out)
    if op == 'replace':
        return payload
    if op == 'missing':
        return MISSING
    if is_map(element):
        if op == 'drop' and element:
            return {k: v for k, v in list(element.items())[:-1]}
        if op == 'add':
            return {**element, 'extra.key': payload}
        return element
    if is_seq(element):
        if op == 'drop' and element:
            return element[:-1]
        if op == 'add':
            return type(element)([*element, payload])
        return element
    return payload


@st.composite
def typed_elements(draw, spec_strategy, mutate=True):
    """(spec, element) where the element fits, nearly fits or is arbitrary."""
    spec = draw(spec_strategy)
    how = draw(st.integers(0, 9))
    if how == 9 and mutate:
        return spec, draw(MESSY)
    element = draw(valid(spec, exact=how % 3 == 0))
    if mutate and how >= 4:
        for _ in range(draw(st.integers(1, 2))):
            element = _mutate(
                element, draw(st.lists(st.integers(0, 5), max_size=4)),
                draw(st.sampled_from(['replace', 'replace', 'missing', 'drop', 'add'])), draw(MESSY),
            )
    return spec, element
