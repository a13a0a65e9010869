"""C28: several threads."""
import os
import typing

import marsh
from hypothesis import strategies as st

from checks import c11, c26
from vlib import gen, threads
from vlib import types as t
from vlib.core import Sub
from vlib.oracle import same_element

PROPERTY = 'C28'
RULE = (
    'Cases are types (systems of classes which refer to each other, or generated types) which '
    'are used for the first time by two or three threads at once (unmarshaling, marshaling, '
    'documentation), and a schedule which tells after how many lines (or bytecode '
    'instructions) of the library which thread goes on. The reference interpreter gives every '
    'single result. Non-trivial: the threads took turns at least twice.'
)

ROOT = os.path.dirname(marsh.__file__) + os.sep


def turns():
    length = gen.pick(st.integers(1, 30), st.integers(1, 300), st.integers(1, 3000))
    return st.tuples(
        st.lists(st.tuples(length, st.integers(0, 1)), min_size=2, max_size=8),
        st.booleans(), st.sampled_from([False, False, True]),
    )


def recursive(case, ctx):
    description, scripts, (schedule, repeat, opcodes) = case
    system = c26.System(description)
    system.define()
    forms = {repr(form): system.root(form) for script in scripts for _, form, _ in script}
    want = [[c26_expected(forms[repr(form)][1], element) for _, form, element in script] for script in scripts]

    def body(script):
        def run():
            out = []
            for op, form, element in script:
                type_ = forms[repr(form)][0]
                out.append(operate(op, type_, element))
            return out
        return run
    runner = threads.Turns(ROOT, schedule, repeat, opcodes)
    results = runner.run([body(script) for script in scripts])
    ctx.label(f'{len(scripts)} threads', 'instructions' if opcodes else 'lines', f'switches>={min(runner.switches, 100) // 10 * 10}')
    ctx.nontrivial(runner.switches >= 2)
    for script, wanted, got in zip(scripts, want, results):
        for (op, form, element), expected, result in zip(script, wanted, got):
            what = f'{op} {form!r} of {element!r} in one of {len(scripts)} threads'
            judge(ctx, what + '\n' + c26.sources(system), op, forms[repr(form)][0], expected, result, system.registry)


def c26_expected(node, element):
    try:
        return c26.expected(node, element)
    except t.Unspecified:
        return None


def operate(op, type_, element):
    try:
        if op == 'doc':
            return 'ok', str(marsh.schema.UnmarshalSchema(type_).doc(2))
        value = marsh.unmarshal(type_, element)
        if op == 'marshal':
            return 'ok', value, marshaled(value)
        return 'ok', value
    except marsh.errors.MarshError as err:
        return 'bad', err


def marshaled(value):
    try:
        return marsh.marshal(value)
    except marsh.errors.MarshalError:
        # instances of plain classes
        return None


def judge(ctx, what, op, type_, expected, result, registry):
    if op == 'doc':
        marsh.schema.UnmarshalSchema.cache_clear()
        alone = operate(op, type_, None)
        ctx.check(result[0] == alone[0], what, 'gives', result, 'expected', alone)
        return
    if expected is None:
        return
    ctx.check(result[0] == expected[0], what, 'gives', result, 'expected', expected)
    if result[0] == 'ok':
        form = t.neutral(result[1], registry)
        ctx.check(form == expected[1], what, 'gives', form, 'expected', expected[1])
        if op == 'marshal':
            ctx.check(result[2] == marshaled(result[1]), what, 'marshals as', result[2])


@st.composite
def systems(draw):
    system = draw(c26.systems().filter(lambda s: all(m['alias'] is None for m in s)))
    local = bool(system[0].get('local'))
    use = c26.uses(system, local)
    scripts = []
    same = draw(st.booleans())
    first = draw(use)
    for i in range(draw(st.sampled_from([2, 2, 3]))):
        script = [
            (draw(st.sampled_from(['unmarshal', 'unmarshal', 'marshal', 'doc'])), *draw(use))
            for _ in range(draw(st.integers(1, 3)))
        ]
        if same:
            script[0] = ('unmarshal', *first)
        scripts.append(script)
    return system, scripts, draw(turns())


def plain(case, ctx):
    """Generated types, used and cleared by several threads."""
    shared, scripts, (schedule, repeat, opcodes) = case
    models, want = [t.Model(spec) for spec in shared], []
    ordered = not any('typeddict' in model.kinds() for model in models)
    with t.ordered(ordered):
        for script in scripts:
            wanted = []
            for op, i, element in script:
                try:
                    wanted.append(models[i % len(models)].ref(element))
                except t.Unspecified:
                    wanted.append(None)
            want.append(wanted)

        def body(script):
            def run():
                out = []
                for op, i, element in script:
                    if op == 'clear':
                        marsh.schema.UnmarshalSchema.cache_clear()
                        out.append(None)
                    else:
                        out.append(operate(op, models[i % len(models)].type, element))
                return out
            return run
        runner = threads.Turns(ROOT, schedule, repeat, opcodes)
        results = runner.run([body(script) for script in scripts])
        ctx.nontrivial(runner.switches >= 2)
        for script, wanted, got in zip(scripts, want, results):
            for (op, i, element), expected, result in zip(script, wanted, got):
                if op == 'clear':
                    continue
                model = models[i % len(models)]
                ctx.label(op, *(f'type {k}' for k in model.kinds()))
                what = f'{op} {model.type} from {element!r} in one of {len(scripts)} threads'
                if op == 'doc' or expected is None:
                    judge(ctx, what, op, model.type, None, result, None)
                    continue
                ctx.check(result[0] == expected[0], what, 'gives', result, 'expected', expected)
                if result[0] == 'ok':
                    form = model.neutral(result[1])
                    ctx.check(form == expected[1], what, 'gives', form, 'expected', expected)
                    if op == 'marshal':
                        ctx.check(
                            repr(result[2]) == repr(marshaled(result[1])), what, 'marshals as', result[2])


@st.composite
def plain_cases(draw):
    pairs = draw(st.lists(t.typed_elements(t.specs(2)), min_size=1, max_size=2))
    shared = [spec for spec, _ in pairs]
    scripts = []
    for _ in range(draw(st.sampled_from([2, 2, 3]))):
        script = []
        for _ in range(draw(st.integers(1, 3))):
            i = draw(st.integers(0, len(pairs) - 1))
            op = draw(st.sampled_from(['unmarshal', 'unmarshal', 'marshal', 'doc', 'clear']))
            script.append((op, i, pairs[i][1]))
        scripts.append(script)
    return shared, scripts, draw(turns())


def iterators(case, ctx):
    """Several threads read one stored iterator."""
    length, counts, nested, (schedule, repeat, _) = case
    produced = []

    def generate():
        for i in range(length):
            produced.append(i)
            yield i
    stored = marsh.utils.IterableFromIterator(generate())
    if nested:
        stored = marsh.utils.IterableFromIterator(iter(stored))

    def body(count):
        def run():
            got = []
            for item in stored:
                if len(got) == count:
                    break
                got.append(item)
            return got, bool(stored)
        return run
    runner = threads.Turns(ROOT, schedule, repeat, True)
    results = runner.run([body(count) for count in counts])
    ctx.nontrivial(runner.switches >= 2)
    for count, (got, some) in zip(counts, results):
        ctx.check(got == list(range(length))[:count], 'read', got, 'of', length)
        ctx.check(some == bool(length), 'bool', some)
    ctx.check(list(stored) == list(range(length)) == produced[:length], 'at the end', list(stored), produced)


def defaults(case, ctx):
    """Several threads ask defaultdicts of one type for values they do not have."""
    spec, separate, scripts, (schedule, repeat, opcodes) = case
    model = t.Model(spec)
    type_ = typing.DefaultDict[str, model.type]
    values = [marsh.unmarshal(type_, {}) for _ in scripts]
    if not separate:
        values = [values[0]] * len(scripts)
    expected = None
    for element in (t.MISSING, 0, '', None):
        try:
            status, form = model.ref(element)
        except t.Unspecified:
            ctx.reject()
        if status == 'ok':
            expected = form
            break
    if model.type is typing.Any:
        expected = t.scalar(None)

    def body(value, keys):
        def run():
            out = []
            for key in keys:
                try:
                    out.append(('ok', value[key]))
                except marsh.errors.MarshError as err:
                    out.append(('bad', err))
            return out
        return run
    runner = threads.Turns(ROOT, schedule, repeat, opcodes)
    results = runner.run([body(value, keys) for value, keys in zip(values, scripts)])
    ctx.nontrivial(runner.switches >= 2)
    ctx.label('default' if expected else 'no default', 'separate' if separate else 'shared')
    for keys, got in zip(scripts, results):
        for key, (status, value) in zip(keys, got):
            what = f'value of a missing key of {type_} in one of {len(scripts)} threads'
            if expected is None:
                ctx.check(status == 'bad', what, 'is', value)
            else:
                ctx.check(status == 'ok' and model.neutral(value) == expected, what, 'is', value, 'expected', expected)


def components(case, ctx):
    """Types of namespaces, looked up by several threads for the first time."""
    specs, places, scripts, (schedule, repeat, opcodes) = case
    classes = c11.Classes(specs)
    world = c11.World(classes)
    count = len(specs)
    for space, base, names in places:
        base %= count
        if space in world.spaces:
            continue
        real = marsh.namespaces.new(space, base=classes.types[base])
        world.spaces[space] = (base, {})
        for name, i in names:
            i %= count
            if classes.issub(i, base) and name not in world.spaces[space][1]:
                real.register(classes.types[i], name=name)
                world.spaces[space][1][name] = i
    forms = {}
    want = []
    for script in scripts:
        wanted = []
        for _, i, place, element in script:
            wrap, enclose, inner, prefix = c11.PLACES[place]
            forms.setdefault((i % count, place), wrap(classes.types[i % count]))
            try:
                if place == 'opt' and element is None:
                    raise t.Unspecified
                wanted.append(('ok', world.unmarshal(i % count, element, prefix)))
            except t.Bad:
                wanted.append(('bad', None))
            except t.Unspecified:
                wanted.append(None)
        want.append(wanted)

    def body(script):
        def run():
            return [
                operate(op, forms[i % count, place], c11.PLACES[place][1](element))
                for op, i, place, element in script
            ]
        return run
    runner = threads.Turns(ROOT, schedule, repeat, opcodes)
    results = runner.run([body(script) for script in scripts])
    ctx.nontrivial(runner.switches >= 2)
    for script, wanted, got in zip(scripts, want, results):
        for (op, i, place, element), expected, result in zip(script, wanted, got):
            what = f'{op} K{i % count} as {place} from {element!r} in one of {len(scripts)} threads, {world.spaces!r}'
            ctx.label(op, f'{result[0]}')
            if op == 'doc':
                judge(ctx, what, op, forms[i % count, place], None, result, None)
            elif expected is not None:
                ctx.check(result[0] == expected[0], what, 'gives', result, 'expected', expected)
                if result[0] == 'ok':
                    got = classes.form(c11.PLACES[place][2](result[1]))
                    ctx.check(got == expected[1], what, 'gives', got, 'expected', expected)
                    if op == 'marshal':
                        ctx.check(
                            same_element(result[2], marsh.marshal(result[1])), what, 'marshals as', result[2])


@st.composite
def spaces(draw):
    specs = []
    for i in range(draw(st.integers(2, 5))):
        index = st.integers(0, i - 1) if i else st.none()
        specs.append((draw(gen.pick(index, index, st.none())), draw(gen.pick(st.none(), index)), draw(gen.pick(st.none(), index))))
    sketch = c11.Sketch(specs)
    places = draw(st.lists(
        st.tuples(
            st.sampled_from(c11.SPACES), gen.pick(st.just(0), st.integers(0, 4)),
            st.lists(st.tuples(st.sampled_from(c11.NAMES), st.integers(0, 4)), min_size=1, max_size=5),
        ),
        min_size=1, max_size=3,
    ))
    for space, base, names in places:
        sketch.apply('new', base % len(specs), None, c11.SPACES.index(space))
        for name, i in names:
            sketch.apply('register', i % len(specs), name, c11.SPACES.index(space))
    scripts = []
    for _ in range(draw(st.sampled_from([2, 2, 3]))):
        script = []
        for _ in range(draw(st.integers(1, 3))):
            i = draw(gen.pick(st.just(0), st.integers(0, len(specs) - 1)))
            script.append((
                draw(st.sampled_from(['unmarshal', 'unmarshal', 'marshal', 'marshal', 'doc'])), i,
                draw(st.sampled_from(sorted(c11.PLACES))), draw(c11._elements(sketch, i)),
            ))
        scripts.append(script)
    return specs, places, scripts, draw(turns())


SUBS = [
    Sub(
        'defaults',
        lambda: st.tuples(
            t.specs(1), st.booleans(),
            st.lists(st.lists(st.sampled_from('abcd'), min_size=1, max_size=3), min_size=2, max_size=3),
            turns(),
        ),
        defaults, 500, 10000,
    ),
    Sub('plain', plain_cases, plain, 1000, 30000),
    Sub(
        'iterators',
        lambda: st.tuples(
            st.integers(0, 6), st.lists(st.integers(0, 7), min_size=2, max_size=3), st.booleans(), turns(),
        ),
        iterators, 300, 6000,
    ),
    Sub('components', spaces, components, 1000, 30000),
    Sub('recursive', systems, recursive, 1500, 40000),
]
