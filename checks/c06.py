"""C06: what was unmarshaled before does not influence the result."""
import dataclasses
import typing

import marsh
from hypothesis import strategies as st

from vlib import containers, gen
from vlib import types as t
from vlib.core import Sub

PROPERTY = 'C06'
RULE = (
    'Cases are histories: a set of types which contains near duplicates (permuted unions '
    'and literals, equal but different defaults such as 1/True/1.0, equally named classes), '
    'and a sequence of unmarshal calls on them, mixed with failing calls, failing schema '
    'builds, clearing/disabling/enabling the caches and reusing schemas. Every single '
    'result must be the one determined by type and element alone. Non-trivial: at least '
    'one type is used twice and at least two different types are used.'
)


def variants(spec):
    """Specs that are easily mistaken for the given one."""
    kind, *rest = spec
    out = []
    if kind in ('union', 'literal', 'typevar'):
        out.append((kind, list(reversed(rest[0]))))
        out.append((kind, rest[0][1:] + rest[0][:1]))
    if kind == 'literal':
        out.append((kind, [{1: True, True: 1, 0: False, False: 0}.get(v, v) if type(v) in (int, bool) else v for v in rest[0]]))
    if kind == 'opt':
        out += [('union', [('none',), rest[0]]), ('union', [rest[0], ('none',)])]
        out += [('opt', v) for v in variants(rest[0])]
    if kind in ('list', 'vtuple', 'seq', 'mseq', 'set') and rest[0]:
        out += [(kind, v, rest[1]) for v in variants(rest[0])]
        out += [(kind, rest[0], not rest[1])]
    if kind == 'tuple':
        out.append((kind, list(reversed(rest[0])), rest[1]))
        for i, item in enumerate(rest[0]):
            out += [(kind, [*rest[0][:i], v, *rest[0][i + 1:]], rest[1]) for v in variants(item)]
    if kind in ('dict', 'map', 'mmap') and rest[0]:
        out += [(kind, rest[0], v, rest[2]) for v in variants(rest[1])]
    if kind == 'cont':
        out += [(kind, rest[0], v) for v in variants(rest[1])]
    if kind in ('dataclass', 'frozen', 'namedtuple', 'class', 'typeddict'):
        fields = rest[0]
        same = {0: False, False: 0.0, 0.0: 0, 1: True, True: 1.0, 1.0: 1}
        for i, (name, type_, default) in enumerate(fields):
            for v in variants(type_):
                out.append((kind, [*fields[:i], (name, v, default), *fields[i + 1:]], rest[1]))
            if default and default[0] == 'value' and type(default[1]) in (int, bool, float) and default[1] in same:
                twin = {'int': bool, 'bool': float, 'float': int}[type(default[1]).__name__](default[1])
                out.append((kind, [*fields[:i], (name, type_, ('value', twin)), *fields[i + 1:]], rest[1]))
    return out


_OPS = gen.pick(
    st.just('unmarshal'), st.just('unmarshal'), st.just('unmarshal'), st.just('unmarshal'),
    st.sampled_from(['schema', 'schema', 'marshal', 'clear', 'disable', 'enable', 'broken', 'broken type', 'namespace', 'doc']),
)


@st.composite
def _histories(draw):
    leaves = gen.pick(
        t.LEAVES,
        st.builds(lambda m: ('union', m), st.lists(t.SCALARS, min_size=2, max_size=3)),
        st.builds(lambda m: ('union', m), st.lists(t.LEAVES, min_size=2, max_size=3)),
        st.builds(lambda v: ('literal', v), t.LITERAL_VALUES),
    )
    pool = []
    for _ in range(draw(st.integers(1, 3))):
        spec = draw(gen.pick(*[t.specs(1, leaves=leaves)] * 4, containers.cont(leaves)))
        pool.append(spec)
        for _ in range(2):
            alike = variants(draw(st.sampled_from(pool)))
            if alike:
                pool.append(draw(st.sampled_from(alike)))
    ops = []
    for _ in range(draw(st.integers(2, 10))):
        op = draw(_OPS)
        index = draw(st.integers(0, len(pool) - 1))
        element = draw(gen.pick(t.valid(pool[index]), t.MESSY, st.sampled_from(['1', 1, True, 1.0, '0', 0, None, 'a', {}, []])))
        ops.append((op, index, element))
    return pool, ops


def history(case, ctx):
    pool, ops = case
    models = [t.Model(spec) for spec in pool]
    # the union of the constraints of a type variable is built with a memo of the typing
    # module, where nested unions and literals of a different order are the same
    forget = any("'typevar'" in repr(spec) for spec in pool)
    schemas = {}
    used = []
    spaces = 0
    for op, index, element in ops:
        model = models[index]
        ctx.label(op)
        if forget:
            t.clear_typing_caches()
        if op == 'clear':
            marsh.schema.UnmarshalSchema.cache_clear()
        elif op == 'disable':
            marsh.schema.caches.cache_disable()
        elif op == 'enable':
            marsh.schema.caches.cache_enable()
        elif op == 'namespace':
            # unrelated to all other types
            spaces += 1
            base = type('S0', (), {})
            marsh.namespaces.new(f'verif-{spaces}', base).register(type('S1', (base,), {}), name='x')
        elif op == 'broken':
            try:
                marsh.unmarshal(typing.List[model.type or type(None)], [[object]])
            except marsh.errors.MarshError:
                pass
        elif op == 'broken type':
            broken = dataclasses.make_dataclass('S0', [('a', model.type), ('b', 'DoesNotExist'), ('c', model.type)])
            try:
                marsh.unmarshal(broken, {})
                ctx.fail('a type with an unknown field type was accepted')
            except marsh.errors.MarshError:
                pass
        elif op == 'doc':
            marsh.doc.terminal.format_unmarshal_help(model.type or type(None), width=80, depth=2)
        else:
            try:
                status, expected = model.ref(element)
            except t.Unspecified:
                continue
            used.append(index)
            try:
                if op == 'schema':
                    schema = schemas.get(index)
                    if schema is None:
                        schema = schemas[index] = marsh.schema.UnmarshalSchema(model.type)
                    got = schema.unmarshal(element)
                else:
                    got = marsh.unmarshal(model.type, element)
            except marsh.errors.MarshError as err:
                ctx.check(
                    status == 'bad',
                    f'{model.type} ({pool[index]!r}) rejects {element!r} after {len(used) - 1} other calls: {err!r}',
                )
                continue
            form = model.neutral(got)
            ctx.check(
                status == 'ok' and form == expected,
                f'{model.type} ({pool[index]!r}) from {element!r} after {len(used) - 1} other calls: {form!r}, expected {expected!r}',
            )
            if op == 'marshal' and status == 'ok':
                try:
                    marsh.marshal(got)
                except marsh.errors.MarshError:
                    pass
    ctx.nontrivial(len(set(used)) > 1 and len(used) > len(set(used)))


def guarded(case, ctx):
    try:
        history(case, ctx)
    finally:
        marsh.schema.caches.cache_enable()


SUBS = [
    Sub('history', _histories, guarded, 1600, 60000),
]
