"""C07: inputs are not modified and results share no mutable state."""
import collections
import copy
import types
import typing

import marsh
from hypothesis import strategies as st

from vlib import gen
from vlib import types as t
from vlib.core import Sub
from vlib.oracle import same

PROPERTY = 'C07'
RULE = (
    'Cases are a generated type and elements (fitting or not). The element and the result '
    'are compared with deep copies taken before; the mutable containers of the input and '
    'of several results must be disjoint, and changing all of one result in place must '
    'leave the others and later results as they are. Non-trivial: the result or the '
    'element holds a mutable container.'
)


def mutables(value, found=None):
    """All mutable objects reachable from a value."""
    found = {} if found is None else found
    if id(value) in found:
        return found
    if isinstance(value, (dict, types.MappingProxyType)):
        if isinstance(value, dict):
            found[id(value)] = value
        for key, item in list(value.items()):
            mutables(key, found)
            mutables(item, found)
    elif isinstance(value, (list, set)):
        found[id(value)] = value
        for item in list(value):
            mutables(item, found)
    elif isinstance(value, (tuple, frozenset)):
        for item in value:
            mutables(item, found)
    elif type(value).__module__ == 'vlib.types' and not isinstance(value, type):
        if not hasattr(value, '_value_'):
            found[id(value)] = value
            for name in names(value):
                mutables(getattr(value, name), found)
    return found


def names(value):
    return [name for name in (*getattr(value, '__dict__', ()), *getattr(value, '__slots__', ())) if hasattr(value, name)]


def spoil(value):
    """Change everything that can be changed in place."""
    for item in mutables(value).values():
        if isinstance(item, dict):
            item.clear()
            item['spoiled'] = 'spoiled'
        elif isinstance(item, list):
            item[:] = ['spoiled']
        elif isinstance(item, set):
            item.clear()
            item.add('spoiled')
        else:
            for name in names(item):
                object.__setattr__(item, name, 'spoiled')


def _attempt(type_, element):
    try:
        return True, marsh.unmarshal(type_, element)
    except marsh.errors.MarshError:
        return False, None


def disjoint(ctx, parts, what):
    owners = {}
    for name, value in parts:
        for key, item in mutables(value).items():
            other = owners.setdefault(key, name)
            ctx.check(other == name, f'{what}: {name} and {other} share {item!r}')


def unmarshal(case, ctx):
    spec, element, other = case
    model = t.Model(spec)
    what = f'{model.type} from {element!r}'
    inputs = [copy.deepcopy(element) for _ in range(3)]
    results = []
    for index, given in enumerate(inputs):
        ok, value = _attempt(model.type, given)
        ctx.check(same(given, element), f'{what}: the element was changed to {given!r}')
        results.append((ok, value))
        if index == 0:
            _attempt(model.type, copy.deepcopy(other))
    ctx.check(len({ok for ok, _ in results}) == 1, f'{what}: repeated calls differ: {results!r}')
    ctx.nontrivial(mutables(element) or mutables(results[0][1]))
    ctx.label('ok' if results[0][0] else 'bad', *(f'type {k}' for k in model.kinds()))
    if not results[0][0]:
        return
    values = [value for _, value in results]
    form = model.neutral(values[0])
    parts = [(f'result {i}', value) for i, value in enumerate(values)]
    if 'any' not in model.kinds():
        # Any passes the element through
        parts += [(f'input {i}', given) for i, given in enumerate(inputs)]
    disjoint(ctx, parts, what)
    spoil(values[0])
    ctx.check(model.neutral(values[1]) == form, f'{what}: changing one result changed another: {values[1]!r}')
    if 'any' not in model.kinds():
        ctx.check(same(inputs[0], element), f'{what}: changing the result changed the input: {inputs[0]!r}')
    spoil(inputs[1])
    if 'any' not in model.kinds():
        ctx.check(model.neutral(values[1]) == form, f'{what}: changing the input changed the result: {values[1]!r}')
    again = marsh.unmarshal(model.type, inputs[2])
    ctx.check(
        model.neutral(again) == form,
        f'{what}: after changing one result the same call gives {again!r}, before {form!r}',
    )


def schema(case, ctx):
    """The same for the results of one schema, which is used again and again."""
    spec, elements = case
    model = t.Model(spec)
    schema = marsh.schema.UnmarshalSchema(model.type)
    values = []
    for element in elements:
        given = copy.deepcopy(element)
        try:
            values.append((element, schema.unmarshal(given)))
        except marsh.errors.MarshError:
            pass
        ctx.check(same(given, element), f'{model.type} changed {element!r} to {given!r}')
    forms = [model.neutral(value) for _, value in values]
    ctx.nontrivial(len(values) > 1 and mutables([value for _, value in values][0]))
    disjoint(ctx, [(f'result {i} ({e!r})', value) for i, (e, value) in enumerate(values)], str(model.type))
    for i, (element, value) in enumerate(values):
        spoil(value)
        for j in range(i + 1, len(values)):
            ctx.check(
                model.neutral(values[j][1]) == forms[j],
                f'{model.type}: changing the result for {element!r} changed the one for {values[j][0]!r}',
            )
    for (element, _), form in zip(values, forms):
        again = schema.unmarshal(copy.deepcopy(element))
        ctx.check(model.neutral(again) == form, f'{model.type}: {element!r} now gives {again!r}, before {form!r}')


def marshal(case, ctx):
    spec, element = case
    model = t.Model(spec)
    ok, value = _attempt(model.type, element)
    if not ok:
        ctx.reject()
    form = model.neutral(value)
    what = f'{value!r}'
    ctx.nontrivial(bool(mutables(value)))
    try:
        first = marsh.marshal(value)
    except marsh.errors.MarshError:
        ctx.label('not supported')
        ctx.check(model.neutral(value) == form, f'failing to marshal {what} changed it to {value!r}')
        return
    ctx.label('ok')
    ctx.check(model.neutral(value) == form, f'marshaling {what} changed it to {value!r}')
    second = marsh.marshal(value)
    keep = copy.deepcopy(second)
    disjoint(ctx, [('the value', value), ('result 0', first), ('result 1', second)], f'marshaled {what}')
    spoil(first)
    ctx.check(model.neutral(value) == form, f'changing the marshaled {what} changed the value to {value!r}')
    ctx.check(same(second, keep), f'{what}: changing one marshaled element changed the other: {second!r}')
    ctx.check(same(marsh.marshal(value), keep), f'{what}: marshaling again gives another result')
    spoil(value)
    ctx.check(same(second, keep), f'{what}: changing the value changed the marshaled element: {second!r}')


class Box:
    """Marshaled by duck typing."""


def plain(case, ctx):
    """Elements and builtin containers of every kind are marshaled without a change."""
    value, how = case
    wrap = {
        'as is': lambda v: v,
        'ordered': collections.OrderedDict,
        'default': lambda v: collections.defaultdict(list, v),
        'user': collections.UserDict,
        'chain': lambda v: collections.ChainMap(v, {'zz': [1]}),
        'deque': lambda v: collections.deque([v, [1]]),
        'userlist': lambda v: collections.UserList([v, [1]]),
    }[how]
    wrapped = wrap(value)
    before = copy.deepcopy(wrapped)
    ctx.nontrivial(bool(mutables(value)))
    ctx.label(how)
    first, second = marsh.marshal(wrapped), marsh.marshal(wrapped)
    ctx.check(type(wrapped) is type(before) and wrapped == before, f'marshaling {before!r} changed it to {wrapped!r}')
    keep = copy.deepcopy(second)
    disjoint(ctx, [('the value', value), ('result 0', first), ('result 1', second)], f'marshaled {before!r}')
    spoil(first)
    ctx.check(wrapped == before and same(second, keep), f'{before!r}: changing the marshaled element changes more')


def kwargs(case, ctx):
    """Keyword arguments of a call do not change the element they replace keys of."""
    element, extra = case
    model = t.Model(('dataclass', [('a', ('any',), ('value', 1)), ('b', ('list', ('any',), True), ('factory', [])), ('c', ('dict', ('str',), ('any',), True), ('factory', {}))], True))
    given, args = copy.deepcopy(element), copy.deepcopy(extra)
    ctx.nontrivial(bool(element) and bool(extra))
    try:
        marsh.unmarshal(model.type, given, **args)
    except marsh.errors.MarshError:
        ctx.label('bad')
    ctx.check(same(given, element), f'unmarshal({element!r}, **{extra!r}) changed the element to {given!r}')
    ctx.check(same(args, extra), f'unmarshal({element!r}, **{extra!r}) changed the arguments to {args!r}')


def caller(case, ctx):
    """Arguments given by the caller are not changed by what uses them."""
    kind, element, args, keywords, uses = case
    if kind == 'function':
        def type_(a: typing.Any, b: typing.List[typing.Any] = (), *more: typing.Any, c: int = 3, **rest: typing.Any):
            return None
    elif kind == 'positional':
        def type_(a: typing.Any, b: typing.Any = 2, /, c: typing.Any = 3):
            return None
    else:
        type_ = t.Model(('namedtuple' if kind == 'namedtuple' else 'dataclass', [
            ('a', ('any',), None), ('b', ('any',), ('value', 1)), ('c', ('any',), ('value', 2)),
        ], True)).type
    before = copy.deepcopy((element, args, keywords))
    ctx.nontrivial(bool(args or keywords))
    ctx.label(kind)
    schemas = [marsh.schema.UnmarshalSchema(type_)]
    if kind in ('function', 'positional'):
        schemas.append(marsh.schema.argument.ArgumentsUnmarshalSchema(type_))
    for schema in schemas:
        for use in uses:
            try:
                if use == 'doc':
                    schema.doc(1, default_args=args, default_kwargs=keywords)
                else:
                    schema.unmarshal(element, default_args=args, default_kwargs=keywords)
            except (marsh.errors.MarshError, TypeError):
                ctx.label('bad')
            ctx.check(
                same((element, args, keywords), before),
                f'{use} of {kind} changed {before!r} to {(element, args, keywords)!r}',
            )


SUBS = [
    Sub('caller', lambda: st.tuples(
        st.sampled_from(['function', 'positional', 'dataclass', 'namedtuple']),
        gen.pick(
            st.dictionaries(st.sampled_from(['a', 'b', 'c', 'd']), gen.elements(max_leaves=3), max_size=3),
            st.lists(gen.elements(max_leaves=3), max_size=3), st.just('???'),
        ),
        st.lists(gen.elements(max_leaves=3), max_size=3),
        st.dictionaries(st.sampled_from(['a', 'b', 'c', 'd']), gen.elements(max_leaves=3), max_size=3),
        st.lists(st.sampled_from(['doc', 'unmarshal']), min_size=1, max_size=3)), caller, 800, 30000),
    Sub('unmarshal', lambda: t.typed_elements(t.specs(2)).flatmap(
        lambda c: st.tuples(st.just(c[0]), st.just(c[1]), gen.pick(t.valid(c[0]), t.MESSY))), unmarshal, 2000, 60000),
    Sub('schema', lambda: t.specs(2).flatmap(
        lambda s: st.tuples(st.just(s), st.lists(t.valid(s), min_size=2, max_size=4))), schema, 1200, 40000),
    Sub('marshal', lambda: t.typed_elements(t.specs(2), mutate=False), marshal, 1200, 40000),
    Sub('plain', lambda: st.tuples(
        st.dictionaries(gen.simple_key(), gen.elements(max_leaves=4), max_size=3),
        st.sampled_from(['as is', 'ordered', 'default', 'user', 'chain', 'deque', 'userlist'])), plain, 500, 20000),
    Sub('kwargs', lambda: st.tuples(
        st.dictionaries(st.sampled_from(['a', 'b', 'c']), gen.elements(max_leaves=3), max_size=3),
        st.dictionaries(st.sampled_from(['a', 'b', 'c']), gen.elements(max_leaves=3), max_size=2)), kwargs, 300, 10000),
]
