"""C17: whole-element transformations: standardize, has_missing, resolve."""
import collections
import collections.abc
import dataclasses
import os
import types

import marsh
import omegaconf
from hypothesis import strategies as st

from vlib import elem, gen
from vlib.core import Sub
from vlib.oracle import dress, norm, same, same_element

PROPERTY = 'C17'
RULE = (
    'Cases are generated elements, for resolve with generated acyclic ${...} references '
    '(absolute, relative, list index, chained, embedded in text, to containers) placed in '
    'a generated configuration. Oracle: reference recursion / a reference substitution '
    'model. Non-trivial: the element nests containers, holds a missing value below the '
    'root, or holds at least one interpolation.'
)

LEAVES = gen.pick(gen.scalars(), gen.scalars(), st.just('???'))
ELEMENTS = gen.pick(gen.containers(leaves=LEAVES), gen.elements(leaves=LEAVES))

MAPPINGS = {
    'dict': dict,
    'OrderedDict': collections.OrderedDict,
    'UserDict': collections.UserDict,
    'proxy': types.MappingProxyType,
}
SEQUENCES = {'tuple': tuple, 'list': list, 'deque': collections.deque, 'UserList': collections.UserList}


def _nested(element):
    if isinstance(element, dict):
        element = list(element.values())
    return isinstance(element, (list, tuple)) and any(isinstance(v, (dict, list, tuple)) for v in element)


def _rebuild(element, mapping, sequence):
    """The element with its containers replaced by the given types."""
    if isinstance(element, dict):
        return mapping({k: _rebuild(v, mapping, sequence) for k, v in element.items()})
    if isinstance(element, (list, tuple)):
        return sequence([_rebuild(v, mapping, sequence) for v in element])
    return element


def _matches(got, element, mapping, sequence):
    if isinstance(element, dict):
        return (
            type(got) is mapping
            and len(got) == len(element)
            and list(got) == list(element)
            and all(_matches(got[k], element[k], mapping, sequence) for k in element)
        )
    if isinstance(element, (list, tuple)):
        return (
            type(got) is sequence
            and len(got) == len(element)
            and all(_matches(a, b, mapping, sequence) for a, b in zip(got, element))
        )
    return same(got, element)


def _containers(value):
    """The containers that can be changed."""
    if isinstance(value, collections.abc.Mapping):
        out = [] if isinstance(value, types.MappingProxyType) else [value]
        return out + [c for v in value.values() for c in _containers(v)]
    if isinstance(value, (list, tuple, collections.deque, collections.UserList)):
        out = [] if isinstance(value, tuple) else [value]
        return out + [c for v in value for c in _containers(v)]
    return []


def standardize(case, ctx):
    element, source, target = case
    real = _rebuild(element, MAPPINGS[source[0]], SEQUENCES[source[1]])
    before = repr(real)
    ctx.nontrivial(_nested(element))
    mapping, sequence = MAPPINGS[target[0]], SEQUENCES[target[1]]
    got = marsh.element.standardize(real, mapping_type=mapping, sequence_type=sequence)
    ctx.check(
        _matches(got, element, mapping, sequence),
        f'standardize({real!r}, mapping_type={mapping.__name__}, sequence_type={sequence.__name__}) = {got!r}',
    )
    got = marsh.element.standardize(real)
    ctx.check(_matches(got, element, dict, tuple), f'standardize({real!r}) = {got!r}')
    for kinds in ((dict, tuple), (dict, list), (mapping, sequence)):
        parts = _containers(marsh.element.standardize(real, mapping_type=kinds[0], sequence_type=kinds[1]))
        ctx.check(
            not set(map(id, parts)) & set(map(id, _containers(real))),
            f'standardize({real!r}) shares containers with its input',
        )
    again = marsh.element.standardize(got)
    ctx.check(same(again, got), f'standardize is not idempotent on {got!r}: {again!r}')
    ctx.check(repr(real) == before, f'standardize changed its input: {real!r}')


def has_missing(case, ctx):
    element, sentinel, steps, kinds, key_steps = case

    def plant(value):
        if isinstance(value, dict):
            return {plant(k): plant(v) for k, v in value.items()}
        if isinstance(value, (list, tuple)):
            return type(value)(plant(v) for v in value)
        if isinstance(value, str) and value == '???':
            return {'dataclasses': dataclasses.MISSING, 'marsh': marsh.MISSING, 'text': '???'}[sentinel]
        return value

    def expected(value):
        if isinstance(value, dict):
            return any(map(expected, value.values())) or any(map(expected, value))
        if isinstance(value, (list, tuple)):
            return any(map(expected, value))
        return isinstance(value, str) and value == '???'

    ctx.label(str(expected(element)))
    ctx.nontrivial(isinstance(element, (dict, list, tuple)) and bool(element))
    real = dress(plant(element), kinds)
    before = repr(real)
    got = marsh.element.has_missing(real)
    ctx.check(got is expected(element), f'has_missing({real!r}) = {got!r}')
    ctx.check(repr(real) == before, f'has_missing changed {before} to {real!r}')
    # and so does a missing key
    fields = [f for f, _ in elem.walk(element, key_steps)]
    sub = elem.select_all(element, fields)[-1]
    if isinstance(sub, dict):
        for key in ('???', ('a', '???'), (1, ('???', 'b')), ('a', ())):
            keyed = {**sub, key: 1}
            keyed = elem.override(element, fields, keyed) if fields else keyed
            real = dress(plant(keyed), kinds)
            ctx.label('missing key')
            wanted = expected(keyed)
            ctx.check(marsh.element.has_missing(real) is wanted, f'has_missing({real!r}) is not {wanted}')
    # making a (string) value missing makes any element it is part of missing
    fields = [f for f, _ in elem.walk(element, steps)]
    if fields:
        planted = elem.override(element, fields, '???')
        ctx.check(
            marsh.element.has_missing(planted) is True,
            f'has_missing({planted!r}) is not True',
        )


# ------------------------------------------------------------------------- resolve

def resolve_identity(case, ctx):
    element = case
    before = repr(element)
    ctx.nontrivial(_nested(element))
    got = marsh.element.resolve(element)
    ctx.check(same_element(got, element), f'resolve({element!r}) = {got!r}')
    ctx.check(repr(element) == before, f'resolve changed its input: {element!r}')


NAMES = ['a', 'b', 'c', 'd', 'e', 'x1', 'under_score']
SAFE_TEXT = st.text(alphabet='abc XYZ0123.,:;-_/()[]=+*&^%#@!é\n', max_size=6)


ENVIRONMENT = {'VERIF_A': 'text', 'VERIF_B': '12', 'VERIF_C': '', 'VERIF_D': 'a: b, [c]'}


def _config():
    """{name: value} where some values are interpolations onto earlier names.

    value: ['lit', element] | ['ref', n, style, steps] | ['text', [parts]] | ['sub', {name: value}]
    """
    leaf = gen.pick(
        st.tuples(st.just('lit'), gen.scalars(SAFE_TEXT)),
        st.tuples(st.just('lit'), gen.containers(
            keys=st.sampled_from(NAMES), leaves=gen.scalars(SAFE_TEXT), max_leaves=4,
        )),
    )
    ref = st.tuples(
        st.just('ref'), st.integers(0, 20), st.booleans(), elem.picks(2),
    )
    text = st.tuples(
        st.just('text'), st.lists(gen.pick(st.tuples(st.just('raw'), SAFE_TEXT), ref), min_size=1, max_size=3),
    )
    special = gen.pick(
        st.tuples(st.just('escaped'), st.sampled_from(['', 'x ', 'Y']), st.sampled_from([*NAMES, 'missing', 'a.b', 'a[0]'])),
        st.tuples(st.just('env'), st.sampled_from(sorted(ENVIRONMENT)), st.sampled_from([None, None, 'word'])),
        st.tuples(st.just('env'), st.just('VERIF_NOT_SET'), st.sampled_from(['word', 'a_b', 'Some'])),
    )
    value = gen.pick(leaf, leaf, ref, ref, ref, text, text, special)
    nested = gen.pick(
        value, value,
        st.tuples(
            st.just('sub'),
            st.lists(st.tuples(st.sampled_from(NAMES), value), min_size=1, max_size=3, unique_by=lambda i: i[0]),
        ),
        st.tuples(st.just('list'), st.lists(value, min_size=1, max_size=3)),
    )
    return st.lists(
        st.tuples(st.sampled_from(NAMES), nested), min_size=1, max_size=6, unique_by=lambda i: i[0],
    )


def _key_syntax(keys, bracket):
    out = ''
    for i, key in enumerate(keys):
        if bracket and i:
            out += f'[{key}]'
        else:
            out += ('.' if i else '') + str(key)
    return out


def _build(spec):
    """Returns (raw element, expected resolved element, kinds used)."""
    raw, expected = {}, {}
    used = set()
    nodes = []  # resolved absolute locations that can be referred to

    def reference(number, bracket, steps, where):
        """Pick an existing location."""
        if not nodes:
            return None
        base = nodes[number % len(nodes)]
        value = elem.select_all(expected, list(base))[-1] if base else expected
        keys = list(base)
        for number, negative, _ in steps:
            if isinstance(value, dict) and value:
                key = list(value)[number % len(value)]
            elif isinstance(value, (list, tuple)) and value:
                key = number % len(value)
            else:
                break
            keys.append(str(key))
            value = value[key]
        style = number % 3 if where is not None else 0
        text = _key_syntax(keys, bracket)
        if style == 2 and len(where) >= 1:
            # relative to the parent of the node: one dot per level
            used.add('relative')
            text = '.' * len(where) + text
            if bracket:
                text = '.' * len(where) + _key_syntax(keys, False)
        return '${' + text + '}', value

    def build(value, where):
        kind = value[0]
        if kind == 'lit':
            return value[1], norm(value[1])
        if kind == 'escaped':
            used.add('escaped')
            return value[1] + '\\${' + value[2] + '}', value[1] + '${' + value[2] + '}'
        if kind == 'env':
            used.add('environment')
            name, default = value[1:]
            if name in ENVIRONMENT:
                default = default if default and default.isalnum() else None
            return '${oc.env:' + name + ('' if default is None else ',' + default) + '}', ENVIRONMENT.get(name, default)
        if kind == 'ref':
            ref = reference(value[1], value[2], value[3], where)
            if ref is None:
                return 0, 0
            used.add('container reference' if isinstance(ref[1], (dict, tuple, list)) else 'reference')
            return ref
        if kind == 'text':
            text, result, refs = '', '', 0
            for part in value[1]:
                if part[0] == 'raw':
                    text += part[1]
                    result += part[1]
                    continue
                ref = reference(part[1], part[2], part[3], where)
                if ref is None or isinstance(ref[1], (dict, tuple, list)):
                    continue
                text += ref[0]
                result += str(ref[1])
                refs += 1
                last = ref
            if refs == 1 and text == last[0]:
                return last
            if refs:
                used.add('text')
            return text, result
        raise AssertionError(kind)

    for name, value in spec:
        if value[0] == 'sub':
            raw[name], expected[name] = {}, {}
            for key, inner in value[1]:
                raw[name][key], expected[name][key] = build(inner, (name, key))
                nodes.append((name, key))
        elif value[0] == 'list':
            raw_items, items = [], []
            for inner in value[1]:
                r, e = build(inner, (name, '0'))
                raw_items.append(r)
                items.append(e)
            raw[name], expected[name] = raw_items, tuple(items)
            nodes.append((name,))
            nodes.append((name, '0'))
        else:
            raw[name], expected[name] = build(value, (name,))
            nodes.append((name,))
    return raw, expected, used


def resolve(case, ctx):
    raw, expected, used = _build(case)
    ctx.label(*used)
    ctx.nontrivial(bool(used))
    before = repr(raw)
    os.environ.update(ENVIRONMENT)
    os.environ.pop('VERIF_NOT_SET', None)
    got = marsh.element.resolve(raw)
    ctx.check(same_element(got, expected), f'resolve({raw!r}) = {got!r}, expected {expected!r}')
    ctx.check(repr(raw) == before, f'resolve changed its input: {raw!r}')


def _listed():
    """The items of an element that is a sequence: literals, references onto earlier items, environment variables."""
    leaf = gen.pick(
        st.tuples(st.just('lit'), gen.scalars(SAFE_TEXT)),
        st.tuples(st.just('lit'), gen.containers(
            keys=st.sampled_from(NAMES), leaves=gen.scalars(SAFE_TEXT), max_leaves=4,
        )),
    )
    value = gen.pick(
        leaf, st.tuples(st.just('ref'), st.integers(0, 20), st.integers(0, 2)),
        st.tuples(st.just('ref'), st.integers(0, 20), st.integers(0, 2)),
        st.tuples(st.just('env'), st.sampled_from(sorted(ENVIRONMENT))),
    )
    return st.tuples(
        st.lists(gen.pick(leaf, value, value, st.tuples(st.just('sub'), st.sampled_from(NAMES), value)), min_size=1, max_size=6),
        st.booleans(),
    )


def resolve_list(case, ctx):
    """The same for an element that is a sequence itself."""
    spec, as_tuple = case
    raw, expected, used = [], [], set()

    def build(value, level):
        if value[0] == 'lit':
            return value[1], norm(value[1])
        if value[0] == 'env':
            used.add('environment')
            return '${oc.env:' + value[1] + '}', ENVIRONMENT[value[1]]
        if value[0] == 'sub':
            r, e = build(value[2], 2)
            return {value[1]: r}, {value[1]: e}
        if not expected:
            return None, None
        number, style = value[1] % len(expected), value[2]
        used.add(('plain', 'brackets', 'relative')[style])
        return '${' + (str(number), f'[{number}]', '.' * level + str(number))[style] + '}', expected[number]

    for value in spec:
        r, e = build(value, 1)
        raw.append(r)
        expected.append(e)
    raw, expected = (tuple(raw) if as_tuple else raw), tuple(expected)
    ctx.label(*used)
    ctx.nontrivial(bool(used))
    before = repr(raw)
    os.environ.update(ENVIRONMENT)
    got = marsh.element.resolve(raw)
    ctx.check(same_element(got, expected), f'resolve({raw!r}) = {got!r}, expected {expected!r}')
    ctx.check(repr(raw) == before, f'resolve changed its input: {raw!r}')


FRAGMENTS = st.sampled_from([
    '${', '${', '}', '}', '${a}', '${b.c}', '${.a}', '${..b}', '${a[0]}', '${[a]}', '\\', '\\${', '$', '{', 'a', 'b', 'c', '.', ':', ',',
    '${oc.env:', '${oc.env:VERIF_NOT_SET}', '${oc.env:VERIF_NOT_SET,1}', '${nothing:1}', '${oc.decode:', '${oc.create:', '???', '${e}', ' ',
    '"', "'", '${a}${b}', '[', ']', '0', '${a.b.c.a}', '${}', '${oc.select:a,1}', '${oc.dict.keys:a}', '${oc.deprecated:a}',
])


def resolve_any(case, ctx):
    """Any use of the syntax gives a plain element or one of the documented errors."""
    before = repr(case)
    os.environ.pop('VERIF_NOT_SET', None)
    ctx.nontrivial('${' in before)
    try:
        got = marsh.element.resolve(case)
    except (marsh.errors.MarshError, omegaconf.errors.OmegaConfBaseException) as err:
        ctx.label(type(err).__name__)
        ctx.check(repr(case) == before, f'resolve changed its input {before} to {case!r}')
        return
    except RecursionError:
        ctx.fail(f'resolve({case!r}) ends in a RecursionError')
    ctx.label('resolved')
    ctx.check(repr(case) == before, f'resolve changed its input {before} to {case!r}')
    # whatever has no interpolation stays as it is
    frame(case, got, (), case, ctx)


def frame(value, got, where, case, ctx):
    what = f'resolve({case!r}) at {where!r}'
    if isinstance(value, dict):
        ctx.check(type(got) is dict and list(got) == list(value), f'{what} is {got!r}')
        for key in value:
            frame(value[key], got[key], (*where, key), case, ctx)
    elif isinstance(value, (list, tuple)):
        ctx.check(isinstance(got, (list, tuple)) and len(got) == len(value), f'{what} is {got!r}')
        for i, item in enumerate(value):
            frame(item, got[i], (*where, i), case, ctx)
    elif isinstance(value, str) and '${' in value:
        plain(got, what, ctx)
    else:
        ctx.check(same(got, value), f'{what} is {got!r}')


def plain(got, what, ctx):
    if isinstance(got, dict):
        for key, value in got.items():
            ctx.check(type(key) is str, f'{what} has the key {key!r}')
            plain(value, what, ctx)
    elif isinstance(got, (list, tuple)):
        for value in got:
            plain(value, what, ctx)
    else:
        ctx.check(got is None or type(got) in (bool, int, float, str, bytes), f'{what} has the value {got!r}')


ANYTHING = gen.containers(
    keys=st.sampled_from(['a', 'b', 'c', 'e']),
    leaves=gen.pick(st.lists(FRAGMENTS, min_size=1, max_size=3).map(''.join), FRAGMENTS, gen.scalars()),
)

IDENTITY = gen.containers(
    keys=gen.pick(st.sampled_from(NAMES), gen.any_text(min_size=1).filter(lambda t: '$' not in t)),
    leaves=gen.scalars(gen.pick(st.just('???'), gen.any_text().filter(lambda t: '${' not in t))),
)

SUBS = [
    Sub(
        'standardize',
        lambda: st.tuples(
            ELEMENTS,
            st.tuples(st.sampled_from(sorted(MAPPINGS)), st.sampled_from(['tuple', 'list', 'UserList'])),
            st.tuples(st.sampled_from(sorted(MAPPINGS)), st.sampled_from(sorted(SEQUENCES))),
        ),
        standardize, 3000, 100000,
    ),
    Sub(
        'has_missing',
        lambda: st.tuples(
            ELEMENTS, st.sampled_from(['marsh', 'dataclasses', 'text']), elem.picks(), gen.dresses(), elem.picks(),
        ),
        has_missing, 4000, 120000,
    ),
    Sub('resolve_identity', lambda: gen.pick(IDENTITY, gen.scalars(gen.any_text())), resolve_identity, 2000, 60000),
    Sub('resolve', _config, resolve, 2500, 80000),
    Sub('resolve_list', _listed, resolve_list, 1000, 40000),
    Sub('resolve_any', lambda: ANYTHING, resolve_any, 2500, 80000),
]
