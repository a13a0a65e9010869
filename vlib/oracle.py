"""Comparison helpers and small reference implementations used by several checks."""
import collections
import math
import types


def same(a, b, order=False):
    """Deep equality that also distinguishes types (1 / 1.0 / True, list / tuple).

    With ``order`` the keys of mappings have to be in the same order.
    """
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return (
            len(a) == len(b)
            and (not order or list(a) == list(b))
            and all(any(same(k, l) for l in b if l == k) for k in a)
            and all(same(a[k], b[k], order) for k in a)
        )
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, order) for x, y in zip(a, b))
    if isinstance(a, float):
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        return a == b and math.copysign(1, a) == math.copysign(1, b)
    return a == b


def norm(element):
    """Sequences to tuples, mappings to dicts; scalars untouched."""
    if isinstance(element, (dict, *MAPPINGS)):
        return {key: norm(value) for key, value in element.items()}
    if isinstance(element, (list, tuple, *SEQUENCES)):
        return tuple(norm(value) for value in element)
    return element


def same_element(a, b, order=False):
    """Equality of JSON-like elements up to the types of sequences and mappings."""
    return same(norm(a), norm(b), order)


# other kinds of containers an element may consist of
MAPPINGS = (types.MappingProxyType, collections.UserDict)
SEQUENCES = (collections.deque, collections.UserList)
DRESS_MAPPINGS = {
    'dict': dict,
    'OrderedDict': collections.OrderedDict,
    'UserDict': collections.UserDict,
    'proxy': types.MappingProxyType,
    # makes values for missing keys
    'defaultdict': lambda value: collections.defaultdict(dict, value),
}
DRESS_SEQUENCES = {
    'same': None, 'list': list, 'tuple': tuple, 'deque': collections.deque, 'UserList': collections.UserList,
}


def dress(element, kinds):
    """The element with its containers replaced by other types of containers."""
    mapping, sequence = kinds
    if isinstance(element, dict):
        return DRESS_MAPPINGS[mapping]({k: dress(v, kinds) for k, v in element.items()})
    if isinstance(element, (list, tuple)):
        return (DRESS_SEQUENCES[sequence] or type(element))([dress(v, kinds) for v in element])
    return element


def shape(element):
    """Labels that describe an element."""
    labels = set()

    def walk(value, depth):
        if isinstance(value, dict):
            labels.add('mapping')
            if any(set(key) & set('.\\\'"') for key in value if isinstance(key, str)):
                labels.add('key needs escape')
            for item in value.values():
                walk(item, depth + 1)
        elif isinstance(value, (list, tuple)):
            labels.add(type(value).__name__)
            for item in value:
                walk(item, depth + 1)
        else:
            labels.add(type(value).__name__)
        if depth >= 2:
            labels.add('depth>=2')
    walk(element, 0)
    return labels


class PathSyntaxError(Exception):
    pass


def ref_split(path, delimiter='.'):
    """Reference path splitter (independent of the library)."""
    fields = []
    current = ''
    i = 0
    while i < len(path):
        char = path[i]
        if char == '\\':
            if i + 1 >= len(path):
                raise PathSyntaxError
            current += path[i + 1]
            i += 2
        elif char in '"\'':
            j = i + 1
            while True:
                if j >= len(path):
                    raise PathSyntaxError
                if path[j] == '\\':
                    if j + 1 >= len(path):
                        raise PathSyntaxError
                    current += path[j + 1]
                    j += 2
                elif path[j] == char:
                    break
                else:
                    current += path[j]
                    j += 1
            i = j + 1
        elif char == delimiter:
            if current:
                fields.append(current)
            current = ''
            i += 1
        else:
            current += char
            i += 1
    if current:
        fields.append(current)
    return tuple(fields)


def ref_escape(field, delimiter='.'):
    return ''.join(
        '\\' + char if char in ('\\', '"', "'", delimiter) else char
        for char in field
    )


def ref_join(fields, delimiter='.'):
    return delimiter.join(ref_escape(field, delimiter) for field in fields if field)
