"""C12: priority orders and the selection of schemas."""
import typing

import marsh
from hypothesis import strategies as st

from vlib.core import Sub

PROPERTY = 'C12'
RULE = (
    'order: sequences of additions (base priorities, relations given as values, hashes or '
    'iterables of these, replacements, decorator form), removals, slices and reloads on a '
    'PriorityOrder, against a list based model and the documented invariants. selection: '
    'registrations of generated schemas (wrappers, raising matchers, base priorities, '
    'relations) interleaved with unmarshal/marshal of types nested in builtin types. '
    'Non-trivial: a relation decides a position, or two schemas match the same value.'
)


# ----------------------------------------------------------------------------- model

class Entry:

    def __init__(self, value, priority, lower, higher, index):
        self.value, self.priority, self.index = value, priority, index
        self.lower, self.higher = frozenset(lower), frozenset(higher)

    def above(self, other):
        """Should stand before ``other``."""
        return other.value in self.lower or self.value in other.higher


class Contradiction(Exception):
    pass


class ModelOrder:

    def __init__(self):
        self.entries = []
        self.count = 0
        self.decided = False

    def values(self):
        return [entry.value for entry in self.entries]

    def add(self, value, priority, lower, higher, replace):
        if set(lower) & set(higher):
            raise Contradiction
        exists = value in self.values()
        if exists and not replace:
            raise Contradiction
        entry = Entry(value, priority, lower, higher, self.count)
        others = [other for other in self.entries if other.value != value]
        if any(entry.above(other) and other.above(entry) for other in others):
            raise Contradiction
        self.count += 1
        self.entries = self.place(others, entry)

    def place(self, others, entry):
        # has to stand before the first value it is higher than ...
        end = len(others)
        for i, other in enumerate(others):
            if entry.above(other):
                end = i
                break
        # ... and up to there behind anything of greater or related priority
        start = 0
        for i in range(end):
            if others[i].above(entry) or others[i].priority > entry.priority:
                start = i + 1
        plain = sum(other.priority > entry.priority for other in others)
        if start != plain:
            self.decided = True
        return others[:start] + [entry] + others[start:]

    def remove(self, indices):
        removed = [e for i, e in enumerate(self.entries) if i in indices]
        self.entries = [e for i, e in enumerate(self.entries) if i not in indices]
        if any(a.above(b) or b.above(a) for a in removed for b in self.entries):
            self.reload()

    def reload(self):
        entries = sorted(self.entries, key=lambda e: e.index)
        self.entries = []
        for entry in entries:
            self.entries = self.place(self.entries, entry)


def relation(values, form):
    """The same relation in one of the supported forms."""
    if form == 'none' or not values and form in ('value', 'hash'):
        return None if not values else list(values)
    if form == 'value':
        return values[0] if len(values) == 1 else tuple(values)
    if form == 'hash':
        return hash(values[0]) if len(values) == 1 else [hash(v) for v in values]
    if form == 'set':
        return set(values)
    if form == 'iterator':
        return iter(list(values))
    return list(values)


# ----------------------------------------------------------------------------- order

VALUES = ['a', 'b', 'c', 'd', 'e', 7, 8, 2**61 + 9]
RELATED = VALUES + ['unknown']


def order_cases():
    rel = st.one_of(
        st.just([]),
        st.lists(st.sampled_from(RELATED), min_size=1, max_size=3, unique=True),
    )
    form = st.sampled_from(['list', 'set', 'iterator', 'value', 'hash'])
    add = st.tuples(
        st.just('add'), st.sampled_from(VALUES), st.integers(-2, 2),
        rel, form, rel, form, st.sampled_from([False, False, True]), st.booleans(),
    )
    op = st.one_of(
        add, add, add, add,
        st.tuples(st.just('del'), st.integers(-9, 9)),
        st.tuples(
            st.just('slice'), st.one_of(st.none(), st.integers(-5, 5)),
            st.one_of(st.none(), st.integers(-5, 5)), st.sampled_from([None, 1, 2, -1]),
            st.booleans(),
        ),
        st.tuples(st.just('reload')),
    )
    span = st.tuples(
        st.just('slice'), st.one_of(st.none(), st.integers(-6, 6)),
        st.one_of(st.none(), st.integers(-6, 6)), st.sampled_from([None, 1, 2, -1]), st.just(True),
    )
    return st.one_of(
        st.lists(op, min_size=2, max_size=14),
        # many values, some of which are removed together
        st.tuples(
            st.lists(add, min_size=4, max_size=9), span, st.lists(op, max_size=3),
        ).map(lambda parts: [*parts[0], parts[1], *parts[2]]),
    )


def invariants(order, model, ctx):
    values = list(order)
    ctx.check(values == model.values(), 'order', values, 'expected', model.values())
    ctx.check(len(order) == len(values), 'len', len(order), values)
    for i, value in enumerate(values):
        ctx.check(order[i] == value and order[i - len(values)] == value, 'index', i)
        ctx.check(value in order, 'contains', value)
        ctx.check(order.index(value) == i, 'index()', value)
    ctx.check(list(reversed(order)) == values[::-1], 'reversed')
    entries = {e.value: e for e in model.entries}
    related = any(
        a.above(b) for a in model.entries for b in model.entries if a is not b
    )
    if not related and not model.decided:
        for before, after in zip(values, values[1:]):
            a, b = entries[before], entries[after]
            ctx.check(
                (a.priority, a.index) > (b.priority, b.index),
                'base priority not respected', values,
            )


def order(case, ctx):
    order = marsh.utils.PriorityOrder()
    model = ModelOrder()
    for op in case:
        before = list(order)
        if op[0] == 'add':
            _, value, priority, lower, lower_form, higher, higher_form, replace, deco = op
            kwargs = dict(
                priority=priority, replace=replace,
                lower_priority=relation(lower, lower_form),
                higher_priority=relation(higher, higher_form),
            )
            try:
                model.add(value, priority, lower, higher, replace)
                expected = True
            except Contradiction:
                expected = False
            try:
                if deco:
                    result = order.add(**kwargs)(value)
                else:
                    result = order.add(value, **kwargs)
                accepted = True
            except ValueError:
                accepted = False
            ctx.check(accepted == expected, 'addition accepted:', accepted, op, before)
            if accepted:
                ctx.check(result == value, 'add returned', result)
                position = list(order).index(value)
                # a value just added respects all of its own relations towards values
                # which allow for that
                entry = model.entries[position]
                for i, other in enumerate(model.entries):
                    if other is not entry and entry.above(other):
                        ctx.check(position < i, 'lower value in front', op, list(order))
            else:
                ctx.label('rejected addition')
                ctx.check(list(order) == before, 'rejected addition changed the order')
            if replace and accepted and value in before:
                ctx.label('replaced')
        elif op[0] == 'del':
            index = op[1]
            if -len(before) <= index < len(before):
                del order[index]
                model.remove({index % len(before)})
                ctx.label('deleted')
            else:
                try:
                    del order[index]
                except IndexError:
                    pass
                else:
                    ctx.fail('index out of range deleted', before, index)
        elif op[0] == 'slice':
            part = slice(op[1], op[2], op[3])
            if op[4]:
                del order[part]
                model.remove(set(range(len(before))[part]))
            else:
                copy = order[part]
                ctx.check(list(copy) == before[part], 'slice', list(copy), part)
                copy.add('other')
                if len(copy) > 1:
                    del copy[1]
        else:
            order.reload()
            model.reload()
        invariants(order, model, ctx)
    ctx.nontrivial(model.decided)
    if model.decided:
        ctx.label('relation decided')


# ----------------------------------------------------------------------------- selection

TYPES = 4
NAMES = ['S0', 'S1', 'S2', 'S3', 'S4']


def selection_cases():
    rel = st.one_of(
        st.just([]), st.just([]),
        st.lists(st.sampled_from(range(len(NAMES))), min_size=1, max_size=2, unique=True),
    )
    register = st.tuples(
        st.just('register'), st.integers(0, len(NAMES) - 1), st.integers(100, 103),
        rel, rel, st.booleans(), st.sampled_from([False, True, 'registry', 'registry deco']),
    )
    use = st.tuples(
        st.just('use'), st.integers(0, TYPES - 1),
        st.sampled_from(['top', 'list', 'optional', 'dict', 'field', 'tuple', 'schema']),
        st.integers(0, 3),
    )
    schema = st.tuples(
        st.lists(st.integers(0, TYPES - 1), min_size=1, max_size=TYPES, unique=True),
        st.sampled_from(['plain', 'plain', 'wrapper', 'raises']),
    )
    return st.tuples(
        st.sampled_from(['unmarshal', 'marshal']),
        st.lists(schema, min_size=len(NAMES), max_size=len(NAMES)),
        st.lists(st.one_of(register, register, use, use, use), min_size=3, max_size=14),
    )


def make_schemas(which, schemas, types):
    unmarshal = which == 'unmarshal'
    core = marsh.schema.core
    made = []
    for i, (matched, kind) in enumerate(schemas):
        wrapper = kind == 'wrapper'
        if unmarshal:
            base = core.unmarshal.WrapperUnmarshalSchema if wrapper else core.unmarshal.UnmarshalSchema
        else:
            base = core.marshal.WrapperMarshalSchema if wrapper else core.marshal.MarshalSchema

        def match(cls, value, matched=frozenset(matched), raises=kind == 'raises'):
            if not unmarshal:
                value = type(value)
            if value in types:
                if types.index(value) in matched:
                    return True
                if raises:
                    raise TypeError('no')
            return False

        def convert(self, *args, i=i, wrapper=wrapper, base=base):
            name = NAMES[i]
            if wrapper:
                inner = getattr(base, which)(self, *args)
                return [name, inner]
            return [name, *args]

        made.append(type(base)(NAMES[i], (base,), {
            'match': classmethod(match), which: convert,
        }))
    return made


def make_types():
    types = []
    for i in range(TYPES):
        def __init__(self, x: int = 5):
            self.x = x
        types.append(type(f'T{i}', (), {'__init__': __init__, '__module__': __name__}))
    return types


WRAP_TYPE = {
    'top': lambda t: t,
    'list': lambda t: typing.List[t],
    'optional': lambda t: typing.Optional[t],
    'dict': lambda t: typing.Dict[str, t],
    'field': lambda t: typing.NamedTuple('Box', [('field', t)]),
    'tuple': lambda t: typing.Tuple[t, int],
}
WRAP_ELEMENT = {
    'top': lambda e: e,
    'list': lambda e: [e],
    'optional': lambda e: e,
    'dict': lambda e: {'k': e},
    'field': lambda e: {'field': e},
    'tuple': lambda e: [e, 1],
}
WRAP_VALUE = dict(WRAP_ELEMENT, optional=lambda e: e, tuple=lambda e: (e, 1))
INNER = {
    'top': lambda r: r,
    'list': lambda r: r[0],
    'optional': lambda r: r,
    'dict': lambda r: r['k'],
    'field': lambda r: r[0],
    'tuple': lambda r: r[0],
}


def selection(case, ctx):
    which, specs, ops = case
    types = make_types()
    wrapped = {}
    schemas = make_schemas(which, specs, types)
    root = (
        marsh.schema.UnmarshalSchema if which == 'unmarshal'
        else marsh.schema.MarshalSchema
    )
    registry = root.registry
    builtin = list(registry)
    model = ModelOrder()

    def expected(index, element):
        matching = []
        for name in model.values():
            if index in specs[name][0]:
                matching.append(name)
        ctx.nontrivial(len(matching) > 1)
        if len(matching) > 1:
            ctx.label('several match')
        chain = []
        for name in matching:
            chain.append(name)
            if specs[name][1] != 'wrapper':
                break
        plain = chain and specs[chain[-1]][1] != 'wrapper'
        if plain:
            value = [NAMES[chain.pop()]]
            if which == 'unmarshal':
                value.append(element)
        elif which == 'unmarshal':
            value = ('object', element['x'])
        else:
            return None     # no builtin schema marshals plain objects
        for name in reversed(chain):
            ctx.label('wrapper used')
            value = [NAMES[name], value]
        return value

    def normal(value):
        if type(value) in types:
            return ('object', value.x)
        if isinstance(value, list) and len(value) == 2 and isinstance(value[1], (list, *types)):
            return [value[0], normal(value[1])]
        return value

    try:
        for op in ops:
            if op[0] == 'register':
                _, i, priority, lower, higher, replace, deco = op
                kwargs = dict(
                    priority=priority, replace=replace,
                    lower_priority=[schemas[k] for k in lower] or None,
                    higher_priority=[schemas[k] for k in higher] or None,
                )
                try:
                    model.add(i, priority, lower, higher, replace)
                    ok = True
                except Contradiction:
                    ok = False
                try:
                    if deco == 'registry':
                        result = registry.register(schemas[i], **kwargs)
                    elif deco == 'registry deco':
                        result = registry.register(**kwargs)(schemas[i])
                    elif deco:
                        result = marsh.schema.register(**kwargs)(schemas[i])
                    else:
                        result = marsh.schema.register(schemas[i], **kwargs)
                    accepted = True
                except ValueError:
                    accepted = False
                ctx.check(ok == accepted, 'registration accepted', accepted, op)
                if accepted:
                    ctx.check(result is schemas[i], 'register returned', result)
                names = [schemas.index(s) for s in registry if s in schemas]
                ctx.check(names == model.values(), 'registered', names, model.values())
                ctx.check(
                    [s for s in registry if s not in schemas] == builtin,
                    'order of the other schemas changed',
                )
            else:
                _, index, place, number = op
                if place == 'schema':
                    place, direct = 'top', True
                else:
                    direct = False
                element = {'x': number}
                want = expected(index, element)
                if which == 'unmarshal':
                    if (index, place) not in wrapped:
                        wrapped[index, place] = WRAP_TYPE[place](types[index])
                    else:
                        ctx.label('type used again')
                    type_ = wrapped[index, place]
                    if direct:
                        got = marsh.schema.UnmarshalSchema(type_).unmarshal(element)
                    else:
                        got = marsh.unmarshal(type_, WRAP_ELEMENT[place](element))
                    got = normal(INNER[place](got))
                    ctx.check(got == want, op, 'gave', got, 'expected', want)
                else:
                    value = WRAP_VALUE[place](types[index](number))
                    try:
                        got = marsh.marshal(value)
                    except marsh.errors.MarshError:
                        ctx.check(want is None, op, 'failed, expected', want)
                        continue
                    ctx.check(want is not None, op, 'gave', got, 'expected a failure')
                    if place == 'field':
                        place = 'dict'
                        got = {'k': got['field']}
                    got = INNER[place](got)
                    ctx.check(got == want, op, 'gave', got, 'expected', want)
    finally:
        for i in reversed(range(len(registry.priority))):
            if registry.priority[i] in schemas:
                del registry.priority[i]
        if which == 'unmarshal':
            marsh.schema.UnmarshalSchema.cache_clear()
    ctx.check(list(registry) == builtin, 'order of the builtin schemas changed')


def unmatched(case, ctx):
    """Nothing matches: the error type of the library."""
    number, place = case

    class Tag:
        def __eq__(self, other):
            return isinstance(other, Tag)

        def __hash__(self):
            return 3
    tag = Tag()
    type_ = {'top': tag, 'list': list[tag], 'dict': dict[str, tag], 'tuple': tuple[int, tag]}[place]
    element = {
        'top': number, 'list': [number], 'dict': {'k': number}, 'tuple': (1, number),
    }[place]
    ctx.nontrivial(place != 'top')
    try:
        result = marsh.unmarshal(type_, element)
    except marsh.errors.UnmarshalError:
        pass
    else:
        ctx.fail('an unknown type gave', result)
    try:
        result = marsh.marshal({'k': [element, tag]})
    except marsh.errors.MarshalError:
        pass
    else:
        ctx.fail('an unknown value gave', result)


SUBS = [
    Sub('order', order_cases, order, 12000, 400000),
    Sub('selection', selection_cases, selection, 2500, 100000),
    Sub(
        'unmatched',
        lambda: st.tuples(
            st.integers(0, 5), st.sampled_from(['top', 'list', 'dict', 'tuple'])),
        unmatched, 20, 40,
    ),
]
