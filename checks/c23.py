"""C23: help texts and documentation."""
import collections
import importlib.util
import inspect
import itertools
import os
import sys
import typing

import marsh
import marsh.doc
from hypothesis import strategies as st

from checks.c22 import run
from vlib import gen
from vlib import types as t
from vlib.core import Sub
from vlib.oracle import ref_join, ref_split

PROPERTY = 'C23'
RULE = (
    'structured: generated modules with dataclasses, named tuples, typed dicts, classes and '
    'functions (fields, defaults, descriptions as attribute docstrings or argument sections, '
    'nested and recursive) against the structure they were generated from: schema.doc, '
    'select, the help text for all widths and depths, and the command line help. value: '
    'layout of single entries. selection: paths through generated types, against a model of '
    'the schema they lead to. inherited: descriptions of fields in class hierarchies. '
    'registry: markdown and RST documents parsed back. '
    'Non-trivial: a nested field, a default and a description, or a wrapped line.'
)

_count = itertools.count()


# ----------------------------------------------------------------------------- generation

# source text, how it is displayed as a field, defaults (source, factory?)
TYPES = {
    'int': ('int', '<int>', ['5', '0', '-3']),
    'str': ('str', '<str>', ["'x y'", "''", "'None'", "'a\\nb'", "'" + 'w' * 40 + "'"]),
    'bool': ('bool', '<bool>', ['True', 'False']),
    'float': ('float', '<float>', ['1.5', '0.0']),
    'any': ('typing.Any', '<Any>', ['None', '[1]', "'t'"]),
    'bytes': ('bytes', '<bytes>', ["b'hi'"]),
    'complex': ('complex', '<complex>', ['1+2j']),
    'list': ('typing.List[int]', '[<int>, ...]', ['factory:list', '[]']),
    'dict': ('typing.Dict[str, int]', '{<str>: <int>, ...}', ['factory:dict']),
    'optional': ('typing.Optional[int]', '<int> | <None>', ['None', '1']),
    'union': ('typing.Union[int, str]', '<int> | <str>', ['0', "'s'"]),
    'literal': ("typing.Literal['a', 1]", '"a" | 1', ["'a'", '1']),
    'tuple': ('typing.Tuple[int, ...]', '[<int>, ...]', ['(1, 2)', '()']),
    'annotated': ("typing.Annotated[int, 'x']", '<int>', ['7']),
    'enum': ('Color', '"red" | "blue"', ['Color.red']),
    'date': ('datetime.datetime', '<datetime>', ['datetime.datetime(2020, 1, 2)']),
    'slice': ('slice', '<slice>', ['slice(1, 2)']),
}
DEFAULTS = {
    "'a\\nb'": 'a\nb', 'Color.red': 'red', "b'hi'": 'aGk=',
    'datetime.datetime(2020, 1, 2)': '2020-01-02T00:00:00',
}
NAMES = ['a', 'b', 'value', 'long_field_name', 'x1', 'options', 'items_', 'c']
HEADER = (
    'import dataclasses, datetime, enum, typing\n'
    'class Color(enum.Enum):\n    red = 1\n    blue = 2\n\n'
)
WORDS = [
    'the', 'a', 'number', 'of', 'epochs', 'well-known', 'extraordinarilylongword' * 2,
    'used', 'for', 'training', 'models', 'x', 'i', 'value', 'which', 'is', 'given', '42',
]


def descriptions():
    return st.one_of(
        st.none(),
        st.lists(st.sampled_from(WORDS), min_size=1, max_size=3).map(' '.join),
        st.lists(st.sampled_from(WORDS), min_size=1, max_size=30).map(' '.join),
    )


def field_types():
    return st.sampled_from(sorted(TYPES))


@st.composite
def structs(draw, depth=2, kinds=('dataclass', 'namedtuple', 'typeddict', 'class')):
    kind = draw(st.sampled_from(kinds))
    names = draw(st.lists(st.sampled_from(NAMES), min_size=0, max_size=4, unique=True))
    fields = []
    defaults = False
    for name in names:
        choice = draw(st.integers(0, 9))
        if depth > 0 and choice >= 7:
            type_ = draw(structs(depth=depth - 1))
            default = draw(st.sampled_from([None, None, 'None']))
        elif choice == 6 and kind != 'function':
            type_, default = 'self', draw(st.sampled_from([None, 'None']))
        else:
            type_ = draw(field_types())
            default = draw(st.one_of(st.none(), st.sampled_from(TYPES[type_][2])))
        if kind == 'typeddict':
            default = None
        elif default and default.startswith('factory') and kind != 'dataclass':
            default = None
        elif default == '[]' and kind == 'dataclass' or default == '[1]':
            default = None
        fields.append((name, type_, default, draw(descriptions())))
    # fields without default come first
    fields.sort(key=lambda f: f[2] is not None)
    return (
        kind, draw(st.one_of(descriptions(), st.lists(descriptions().filter(bool), min_size=2, max_size=3).map('\n\n'.join))), fields,
        draw(st.sampled_from(['attribute', 'attribute', 'section'])),
        draw(st.sampled_from([False, False, True])),        # defined in a function
    )


class Source:

    def __init__(self):
        self.blocks = []
        self.count = 0

    def type_of(self, type_, own):
        if isinstance(type_, tuple):
            return self.add(type_)
        if type_ == 'self':
            return f'"{own}"'
        return TYPES[type_][0]

    def add(self, spec):
        kind, description, fields, style, local = spec
        name = f'C{self.count}'
        self.count += 1
        if any(f[1] == 'self' for f in fields):
            local = False       # the name has to be found in the module
        types = [self.type_of(f[1], name) for f in fields]
        section = style == 'section' or kind in ('class', 'function')
        doc = description or ''
        if section and any(f[3] for f in fields):
            doc += ('\n\n' if doc else 'Main text.\n\n') + 'Args:\n'
            for f in fields:
                if f[3]:
                    doc += f'    {f[0]}: {f[3]}\n'
        lines = []
        body = []
        if doc:
            body.append(repr(doc))
        if kind in ('class', 'function'):
            params = ', '.join(
                f'{f[0]}: {type_}' + (f' = {f[2]}' if f[2] else '')
                for f, type_ in zip(fields, types)
            )
            if kind == 'class':
                lines.append(f'class {name}:')
                body.append(f'def __init__(self{", " if params else ""}{params}):')
                body.append('    pass')
            else:
                lines.append(f'def {name}({params}):')
                body.append('pass')
        else:
            if kind == 'dataclass':
                lines.append('@dataclasses.dataclass')
                lines.append(f'class {name}:')
            else:
                base = 'NamedTuple' if kind == 'namedtuple' else 'TypedDict'
                lines.append(f'class {name}(typing.{base}):')
            for f, type_ in zip(fields, types):
                default = ''
                if f[2]:
                    default = f' = {f[2]}'
                    if f[2].startswith('factory:'):
                        default = f' = dataclasses.field(default_factory={f[2][8:]})'
                body.append(f'{f[0]}: {type_}{default}')
                if f[3] and not section:
                    body.append(repr(f[3]))
            body.append('pass')
        lines += ['    ' + line for line in body]
        if local:
            lines = (
                [f'def make_{name}():']
                + ['    ' + line for line in lines]
                + [f'    return {name}', f'{name} = make_{name}()']
            )
        self.blocks.append('\n'.join(lines))
        return name


def load(source, ctx):
    name = f'vcase_{next(_count)}'
    path = os.path.join(ctx.scratch(), f'{name}.py')
    with open(path, 'w') as fp:
        fp.write(source)
    spec = importlib.util.spec_from_file_location(name, path)
    module = importlib.util.module_from_spec(spec)
    sys.modules[name] = module
    spec.loader.exec_module(module)
    return module


# ----------------------------------------------------------------------------- oracle

class Node:
    """A documented type: the expected fields."""

    def __init__(self, spec, name):
        self.kind, self.description, fields, _, _ = spec
        self.name = name
        self.fields = fields


def build(spec):
    source = Source()
    name = source.add(spec)
    text = HEADER + '\n\n'.join(source.blocks) + '\n'
    return text, name


def names_of(spec, counter=None):
    """Class names are given in order of a pre-order walk."""
    counter = itertools.count() if counter is None else counter
    result = {'name': f'C{next(counter)}', 'spec': spec, 'fields': []}
    for name, type_, default, description in spec[2]:
        nested = names_of(type_, counter) if isinstance(type_, tuple) else None
        result['fields'].append((name, type_, default, description, nested))
    return result


def shown_default(default, module):
    if default is None:
        return None
    if default.startswith('factory:'):
        return '...'
    if default == 'None':
        return default
    if default in DEFAULTS:
        return DEFAULTS[default]
    return str(marsh.marshal(eval(default, vars(module))))


def squeeze(text):
    return ''.join((text or '').split())


def expected_entries(node, module, depth, path=(), level=0):
    """[(fields, level, value text, description)] in order."""
    if level >= depth:
        return []
    entries = []
    for name, type_, default, description, nested in node['fields']:
        if nested:
            shown = f'{nested["name"]}(...)'
        elif type_ == 'self':
            shown = f'{node["name"]}(...)'
        else:
            shown = TYPES[type_][1]
        value = f'{ref_join([*path, name])}: {shown}'
        default = shown_default(default, module)
        if default:
            value += f' = {default}'
        entries.append((level, value, description))
        if nested:
            entries += expected_entries(nested, module, depth, (*path, name), level + 1)
    return entries


def check_layout(ctx, text, entries, width, indent=2, factor=2, column=24, margin=4):
    """All entries in order, indented, within the width."""
    want = ''.join(squeeze(value) + squeeze(description) for _, value, description in entries)
    got = squeeze(text)
    ctx.check(got == want, 'help', repr(text), 'does not hold', want)
    for line in text.split('\n'):
        # a single character may stand behind an indentation exceeding the width
        leading = len(line) - len(line.lstrip())
        ctx.check(
            len(line) <= max(width, leading + 1),
            f'line of {len(line)} characters for width {width}:', repr(line),
        )
        if len(line) == width:
            ctx.label('full line')
    if width < 50 or not entries:
        return
    blocks = text.split('\n\n')
    ctx.check(len(blocks) == len(entries), len(blocks), 'blocks for', entries)
    for block, (level, value, description) in zip(blocks, entries):
        lines = block.split('\n')
        start = indent + factor * level
        if start + max(map(len, value.split())) > width:
            continue    # words which do not fit at their place
        ctx.check(
            lines[0][:start].strip() == '' and lines[0][start:start + 1].strip(),
            'indentation of', repr(block),
        )
        if not description:
            continue
        # the last line of the value: where the description may begin
        remaining = squeeze(value)
        for number, line in enumerate(lines):
            taken = squeeze(line)
            if not remaining.startswith(taken):
                break
            remaining = remaining[len(taken):]
            if not remaining:
                number += 1
                break
        if remaining:
            # begins on the line of the value
            used = len(lines[number]) - len(lines[number].lstrip())
            part = lines[number][:column]
            ctx.check(squeeze(part) == remaining, 'column of the description', repr(block))
            ctx.check(
                len(part) - len(part.rstrip()) >= margin, 'margin', repr(block),
            )
            ctx.label('description besides')
            number += 1
        for line in lines[number:]:
            ctx.label('description below')
            ctx.check(
                len(line) - len(line.lstrip()) == column,
                'description not at column', column, repr(block),
            )


def select_all(ctx, schema, node, module, depth=2):
    for name, type_, default, description, nested in node['fields']:
        selected = schema.select(name)
        if nested:
            ctx.check(
                selected.value is vars(module)[nested['name']], 'selected', name, selected,
            )
            for inner in nested['fields']:
                both = schema.select(ref_join([name, inner[0]]))
                direct = selected.select(inner[0])
                ctx.check(
                    both.doc_field_type() == direct.doc_field_type()
                    and both.has_default() == direct.has_default(),
                    'selected', name, inner[0], both, direct,
                )
            if depth:
                select_all(ctx, selected, nested, module, depth - 1)
        elif type_ == 'self':
            ctx.check(
                selected.doc_type() == node['name'], 'selected', name, selected.doc_type(),
            )
            again = selected.select(name)
            ctx.check(again.doc_type() == node['name'], 'selected twice', name)
        elif type_ in ('list', 'dict', 'tuple'):
            # a selection passes on to the content of a collection
            ctx.check(
                selected.doc_field_type() in (TYPES[type_][1], '<int>'), 'selected', name,
                selected.doc_field_type(),
            )
        else:
            shown = [TYPES[type_][1]]
            if type_ == 'optional':
                shown.append('<int>')
            ctx.check(
                selected.doc_field_type() in shown, 'selected', name,
                selected.doc_field_type(),
            )
            if type_ != 'optional':
                ctx.check(
                    selected.has_default() == (default is not None), 'default of', name)
        try:
            schema.select(name + '_unknown')
        except marsh.errors.PathError as err:
            ctx.check(f'"{name}_unknown"' in str(err), 'error', err)
        else:
            ctx.fail('selected an unknown field')


def check_doc(ctx, doc, node, module, depth):
    ctx.check(
        list(doc.fields or {}) == ([f[0] for f in node['fields']] if depth > 0 else []),
        'documented fields', doc.fields, 'of', node['name'],
    )
    if depth <= 0:
        return
    for name, type_, default, description, nested in node['fields']:
        field = doc.fields[name]
        ctx.check(
            squeeze(field.description) == squeeze(description),
            'description of', name, field.description, 'expected', description,
        )
        ctx.check(
            field.doc.default == shown_default(default, module),
            'default of', name, field.doc.default, 'expected', default,
        )
        if nested:
            check_doc(ctx, field.doc, nested, module, depth - 1)
        else:
            ctx.check(not field.doc.fields, 'fields of', name, field.doc.fields)


def structured(case, ctx):
    spec, width, depth, prefix, how = case
    text, name = build(spec)
    module = load(text, ctx)
    try:
        _structured(ctx, spec, width, depth, prefix, how, module, name)
    finally:
        sys.modules.pop(module.__name__, None)


def _structured(ctx, spec, width, depth, prefix, how, module, name):
    type_ = vars(module)[name]
    node = names_of(spec)
    schema = marsh.schema.UnmarshalSchema(type_)
    ctx.label(spec[0], how)
    ctx.nontrivial(any(f[4] or (f[2] and f[3]) for f in node['fields']))
    select_all(ctx, schema, node, module)
    check_doc(ctx, schema.doc(depth), node, module, depth)
    entries = expected_entries(node, module, depth, tuple(prefix))
    path = ref_join(prefix) if prefix else ''
    source = {'type': type_, 'schema': schema, 'doc': schema.doc(depth)}[how]
    fields = marsh.doc.terminal.format_unmarshal_fields(
        source, prefix_path=path, width=width, depth=depth,
    )
    check_layout(ctx, fields, entries, width, column=min(24, width - 1))
    help_text = marsh.doc.terminal.format_unmarshal_help(
        source, prefix_path=path, width=width, depth=depth,
    )
    ctx.check(help_text.endswith(fields), 'the help text misses the fields')
    head = help_text[:len(help_text) - len(fields)]
    ctx.check(head.split('\n')[0] == name, 'the help text misses the type', repr(head))
    section = spec[3] == 'section' or spec[0] in ('class', 'function')
    shown = spec[1] or ('Main text.' if section and any(f[3] for f in spec[2]) else '')
    if shown or spec[0] != 'typeddict':
        # nothing but the description (which is all of the docstring for some kinds), and no generated text
        allowed = [squeeze(name + shown)]
        if spec[0] in ('dataclass', 'namedtuple') and shown:
            allowed.append(squeeze(name + (type_.__doc__ or '')))
        ctx.check(squeeze(head) in allowed, 'description', repr(head), 'expected', repr(shown))
    without = marsh.doc.terminal.format_unmarshal_help(
        source, prefix_path=path, width=width, depth=depth,
        omit_type=True, omit_description=True,
    )
    ctx.check(without == fields, 'omitted type and description', repr(without))
    # the width of the terminal is used by default
    previous = os.environ.get('COLUMNS')
    os.environ['COLUMNS'] = str(max(width, 13) + 2)
    try:
        default = marsh.doc.terminal.format_unmarshal_fields(
            source, prefix_path=path, depth=depth)
    finally:
        if previous is None:
            del os.environ['COLUMNS']
        else:
            os.environ['COLUMNS'] = previous
    check_layout(
        ctx, default, entries, max(width, 13), column=min(24, max(width, 13) - 1))


def widths():
    return st.one_of(st.integers(1, 30), st.integers(50, 120), st.sampled_from([78, 80]))


def structured_cases():
    return st.tuples(
        structs(), widths(), st.integers(1, 3),
        st.one_of(st.just([]), st.lists(st.sampled_from(['p', 'q.r', 'x y']), max_size=2)),
        st.sampled_from(['type', 'schema', 'doc']),
    )


# ----------------------------------------------------------------------------- selection

def layered():
    level = t.LEAVES
    for _ in range(3):
        struct = gen.pick(
            t.structs(level), t.structs(level), t.structs(level),
            st.tuples(st.just('tuple'), st.lists(level, min_size=1, max_size=3), t.ALIAS),
        )
        between = [
            st.tuples(st.sampled_from(['list', 'vtuple', 'seq', 'mseq']), struct, t.ALIAS),
            st.tuples(st.sampled_from(['dict', 'map', 'mmap', 'ddict']), st.just(('str',)), struct, t.ALIAS),
            st.tuples(st.just('opt'), struct), st.tuples(st.just('annotated'), struct),
            st.tuples(st.just('typevar'), st.tuples(struct)),
            st.tuples(st.just('union'), st.lists(struct, min_size=2, max_size=3)),
        ]
        level = gen.pick(struct, struct, struct, struct, struct, struct, *between, t.LEAVES)
    return level


def selection_cases():
    return st.tuples(
        t.typed_elements(gen.pick(layered(), layered(), layered(), t.specs(3))),
        st.lists(st.integers(0, 5), min_size=1, max_size=4), st.sampled_from([False, False, True]),
        st.lists(st.integers(0, 4), max_size=3),
    )


def descend(node):
    """Selections pass through containers, optionals, annotations and type variables."""
    while True:
        if node.kind in t.Sequence.KINDS:
            node = node.item
        elif node.kind in t.Mapping.KINDS:
            node = node.value
        elif node.kind in ('annotated', 'typevar'):
            node = node.inner
        elif node.kind == 'union' and len(node.members) == 1:
            node = node.members[0]
        elif node.kind == 'union' and node.optional():
            node = node.optional()
        else:
            return node


def fields_of(node):
    if node.kind == 'tuple':
        return [(str(i), item, None) for i, item in enumerate(node.items)]
    return getattr(node, 'fields', [])


def selection(case, ctx):
    """A path of fields leads to the schema of the field, whatever is in between."""
    (spec, element), steps, wrong, empties = case
    model = t.Model(spec)
    schema = marsh.schema.UnmarshalSchema(model.type)
    node, default, path = descend(model.root), None, []
    halfway = schema, 0
    for step in steps:
        fields = fields_of(node)
        if not fields:
            break
        name, inner, default = fields[step % len(fields)]
        path.append(name)
        node = descend(inner)
        default = default if node is inner else None
        if len(path) == len(steps) // 2:
            halfway = schema.select(ref_join(path)), len(path)
    ctx.nontrivial(len(path) > 1)
    ctx.label(f'{len(path)} fields', f'selected {node.kind}', *(['unknown'] if wrong else []))
    if wrong:
        try:
            got = schema.select(ref_join([*path, 'no such field', 'x']))
        except marsh.errors.PathError as err:
            ctx.check(ref_split(err.path) == tuple(path), f'{path} and an unknown field: {err!r} at {err.path!r}')
            return
        ctx.fail(f'{model.type} selects an unknown field after {path}: {got!r}')
    parts = [ref_join([name]) for name in path]
    for index in empties if path else ():
        # empty fields have no meaning
        parts.insert(index % len(parts), '')
    text = '.'.join(parts)
    found = [schema.select(ref_join(path)), schema.select(text), halfway[0].select(ref_join(path[halfway[1]:]))]
    try:
        want = ('ok', node.ref(element))
    except t.Bad:
        want = ('bad', None)
    except t.Unspecified:
        ctx.reject()
    if t.is_missing(element):
        ctx.reject()    # gives the default
    for selected in found:
        ctx.check(selected.has_default() or default is None or node.kind == 'typeddict', f'{path} has lost its default')
        try:
            got = ('ok', model.neutral(selected.unmarshal(element)))
        except marsh.errors.MarshError:
            got = ('bad', None)
        ctx.check(got == want, f'{path} of {model.type} selects {selected!r}: {element!r} gives {got!r}, expected {want!r}')


# ----------------------------------------------------------------------------- inheritance

def inherited_cases():
    field = st.tuples(
        st.sampled_from(NAMES[:4]), st.sampled_from(['attribute', 'section', 'plain', 'other']),
        st.lists(st.sampled_from(WORDS), min_size=1, max_size=4).map(' '.join),
    )
    class_ = st.tuples(
        st.lists(st.integers(0, 3), max_size=2),
        st.lists(field, max_size=3, unique_by=lambda f: f[0]), descriptions(),
    )
    return st.tuples(
        st.sampled_from(['dataclass', 'dataclass', 'class', 'typeddict']),
        st.lists(class_, min_size=2, max_size=4), st.booleans(),
    )


def inherited_source(kind, classes):
    blocks = []
    for i, (bases, fields, description) in enumerate(classes):
        lines = ['@dataclasses.dataclass'] if kind == 'dataclass' else []
        names = [f'C{base}' for base in bases] or (['typing.TypedDict'] if kind == 'typeddict' else [])
        lines.append(f'class C{i}({", ".join(names)}):')
        doc = description or ''
        if any(how == 'section' for _, how, _ in fields):
            doc = (doc or 'Main text.') + '\n\nArgs:\n' + ''.join(
                f'    {name}: {text}\n' for name, how, text in fields if how == 'section')
        body = [repr(doc)] if doc else []
        for name, how, text in fields:
            body.append(f'{name}: int' if kind == 'typeddict' else f'{name}: int = 0')
            if how == 'attribute':
                body.append(repr(text))
            elif how == 'other' and kind != 'typeddict':
                body.append('5')    # no description
        lines += ['    ' + line for line in body or ['pass']]
        blocks.append('\n'.join(lines))
    if kind == 'class':
        blocks[-1] += '\n    def __init__(self, ' + ', '.join(f'{name}: int = 0' for name in NAMES[:4]) + '):\n        pass'
    return HEADER + '\n\n'.join(blocks) + '\n'


def inherited(case, ctx):
    """The description of a field is that of the first class in the order of inheritance."""
    kind, classes, chain = case
    classes = [
        (sorted({base for base in bases if base < i}, reverse=True), fields, description)
        for i, (bases, fields, description) in enumerate(classes)
    ]
    if chain or kind == 'typeddict':
        classes = [([i - 1] if i else [], fields, description) for i, (_, fields, description) in enumerate(classes)]
    # the order in which python looks up attributes
    try:
        stand_ins = []
        for bases, _, _ in classes:
            stand_ins.append(type(f'C{len(stand_ins)}', tuple(stand_ins[base] for base in bases), {}))
    except TypeError:
        ctx.reject()
    order = [stand_ins.index(class_) for class_ in stand_ins[-1].__mro__[:-1]]
    described = [
        {name: text for name, how, text in fields if how in ('attribute', 'section')} for _, fields, _ in classes
    ]
    names = {name for i in order for name, _, _ in classes[i][1]}
    if kind == 'class':
        names = set(NAMES[:4])
    if not names:
        ctx.reject()
    module = load(inherited_source(kind, classes), ctx)
    try:
        type_ = vars(module)[f'C{len(classes) - 1}']
        fields = marsh.schema.UnmarshalSchema(type_).doc(1).fields
        ctx.check(set(fields) == names, f'the documented fields are {list(fields)}, expected {names}')
        for name in names:
            texts = [described[i][name] for i in order if name in described[i]]
            want = texts[0] if texts else None
            got = fields[name].description
            ctx.check(squeeze(got) == squeeze(want), f'{name} is described by {got!r}, expected {want!r}')
            ctx.nontrivial(len(texts) > 1 or bool(texts) and name not in described[-1])
        ctx.label(kind, f'{len(order)} classes')
    finally:
        sys.modules.pop(module.__name__, None)


# ----------------------------------------------------------------------------- command line

def command_cases():
    return st.tuples(
        structs(kinds=('function', 'function', 'dataclass', 'class')),
        st.integers(50, 120),
        st.integers(1, 3),
        st.integers(0, 3),          # positional arguments passed through
        st.lists(st.booleans(), min_size=4, max_size=4),
        st.lists(st.integers(0, 3), max_size=3),
    )


def command(case, ctx):
    spec, width, depth, positional, keyword, path = case
    text, name = build(spec)
    module = load(text, ctx)
    previous = os.environ.get('COLUMNS')
    os.environ['COLUMNS'] = str(width + 2)
    try:
        _command(ctx, spec, width, depth, positional, keyword, path, module, name)
    finally:
        sys.modules.pop(module.__name__, None)
        if previous is None:
            del os.environ['COLUMNS']
        else:
            os.environ['COLUMNS'] = previous


def _command(ctx, spec, width, depth, positional, keyword, path, module, name):
    type_ = vars(module)[name]
    node = names_of(spec)
    args, kwargs = (), {}
    entries = expected_entries(node, module, depth)
    ctx.nontrivial(bool(entries))
    if spec[0] == 'function':
        app = marsh.main(help_depth=depth)(type_)
        # arguments of the call replace the defaults
        args = tuple(f'arg{i}' for i in range(min(positional, len(node['fields']))))
        kwargs = {
            field[0]: f'kwarg {field[0]}'
            for i, field in enumerate(node['fields'])
            if i >= len(args) and keyword[i]
        }
        given = dict(zip([f[0] for f in node['fields']], args), **kwargs)
        replaced = []
        for level, value, description in entries:
            if level == 0:
                field, _, shown = value.partition(': ')
                if field in given:
                    value = f'{field}: {shown.split(" = ")[0]} = {given[field]}'
                    ctx.label('argument of the call')
            replaced.append((level, value, description))
        entries = replaced
    else:
        def fn(config):
            ctx.fail('the function has been called')
        app = marsh.main(config=type_, help_depth=depth)(fn)
    result = run(app, ['--help'], args=args, kwargs=kwargs)
    ctx.check(result.code == 0, '--help', result)
    if entries:
        _, found, fields = result.out.rpartition('\nfields:\n')
        ctx.check(found, 'no fields in', result)
        check_layout(ctx, fields.rstrip('\n'), entries, width)
    else:
        ctx.check('\nfields:\n' not in result.out, 'unexpected fields', result)

    # help for a path
    steps, current, recursive = [], node, False
    for index in path:
        if not current or not current['fields']:
            break
        field = current['fields'][index % len(current['fields'])]
        steps.append(field[0])
        if field[1] == 'self':
            recursive = True
            continue
        leaf = field
        current = field[4]
        if current is None:
            break
    if not steps:
        return
    result = run(app, ['--help', ref_join(steps)], args=args, kwargs=kwargs)
    if current is None:
        ctx.check(result.code == 0, 'help for', steps, result)
        ctx.check(result.out.strip(), 'no help for', steps, result)
        ctx.label('help for a leaf')
        del leaf
        return
    ctx.check(result.code == 0, 'help for', steps, result)
    lines = result.out.split('\n')
    ctx.check(lines[0] == current['name'], 'help for', steps, result)
    entries = expected_entries(current, module, depth)
    want = ''.join(squeeze(value) + squeeze(text) for _, value, text in entries)
    if recursive:
        # how often a recursive type is expanded is not specified
        shown = squeeze(result.out)
        for _, value, text in entries:
            ctx.check(squeeze(value) + squeeze(text) in shown, 'help for', steps, result, value)
    else:
        ctx.check(squeeze(result.out).endswith(want), 'help for', steps, result, want)
    ctx.label('help for a structure')
    unknown = run(app, ['--help', ref_join([*steps, 'nothing_like_this'])])
    ctx.check(unknown.code == 1, 'help for an unknown path', unknown)
    ctx.check('nothing_like_this' in unknown.out, 'message', unknown)


# ----------------------------------------------------------------------------- layout of any documentation

def docs():
    texts = st.lists(st.sampled_from(WORDS), min_size=1, max_size=12).map(' '.join)
    word = st.one_of(st.none(), st.sampled_from(WORDS))
    names = st.sampled_from(['a', 'b', 'long_name', 'a.b', '*args', '**rest', 'é'])
    special = st.lists(st.tuples(st.sampled_from(['name = "x" -> X(...)', 'other', 'a b c']), st.one_of(st.none(), texts)), max_size=2)

    def doc(fields):
        return st.tuples(word, word, st.one_of(st.none(), texts), fields, special)

    def nested(inner):
        return doc(st.lists(
            st.tuples(names, inner, word, st.one_of(st.none(), texts)), max_size=3, unique_by=lambda f: f[0]))

    # (three levels: the depth asked for is 0 to 4)
    leaf = doc(st.just([]))
    return nested(st.one_of(leaf, nested(st.one_of(leaf, nested(leaf)))))


def layout_cases():
    return st.tuples(
        docs(), st.sampled_from(['', '', 'x', 'x.y', 'x.1']), st.integers(50, 120), st.integers(0, 4),
        st.integers(0, 6), st.integers(0, 4), st.integers(10, 40), st.integers(0, 8), st.booleans(), st.booleans(),
    )


def make_doc(spec):
    doc = marsh.schema.UnmarshalSchema.Doc
    type_, default, description, fields, special = spec
    return doc(
        type=type_, default=default, description=description,
        fields={name: doc.Field(doc=make_doc(inner), type=shown, description=text) for name, inner, shown, text in fields} or None,
        special_fields=[doc.SpecialField(value=value, description=text) for value, text in special] or None,
    )


def doc_entries(spec, path, depth, level=0):
    if level >= depth:
        return []
    out = []
    for name, inner, type_, text in spec[3]:
        names = [*path, name]
        value = ref_join(names) + (f': {type_}' if type_ else '') + (f' = {inner[1]}' if inner[1] else '')
        out += [(level, value, text), *doc_entries(inner, names, depth, level + 1)]
    return out + [(level, value, text) for value, text in spec[4]]


def layout(case, ctx):
    """Documentation of any content: everything to the depth asked for, in order and in place."""
    spec, prefix, width, depth, indent, factor, column, margin, no_type, no_description = case
    doc = make_doc(spec)
    before = repr(doc)
    entries = doc_entries(spec, ref_split(prefix) if prefix else [], depth)
    ctx.nontrivial(len(entries) > 1)
    ctx.label(f'{min(len(entries), 6)} entries')
    options = dict(
        prefix_path=prefix, width=width, depth=depth, depth_indent_factor=factor,
        description_indent=column, description_margin=margin,
    )
    fields = marsh.doc.terminal.format_unmarshal_fields(doc, indent=indent, **options)
    check_layout(ctx, fields, [(l, v, d or '') for l, v, d in entries], width, indent, factor, column, margin)
    whole = marsh.doc.terminal.format_unmarshal_help(
        doc, field_indent=indent, omit_type=no_type, omit_description=no_description, **options)
    parts = [None if no_type else spec[0], None if no_description else spec[2], fields]
    ctx.check(whole == '\n\n'.join(filter(None, parts)), 'help', repr(whole), 'is not made of', parts)
    ctx.check(repr(doc) == before, 'the documentation is changed', case)


# ----------------------------------------------------------------------------- texts of a command

def texts_cases():
    words = st.lists(
        st.sampled_from([*WORDS, 'a' * 30, 'é', '100%', '%s', '%(prog)s']).filter(lambda w: True),
        min_size=1, max_size=40,
    ).map(' '.join)
    optional = st.one_of(st.none(), words)
    return st.tuples(
        st.one_of(st.none(), st.sampled_from(['tool', 'my-tool.py', 'sub tool'])), optional, optional, optional,
        st.sampled_from(['function', 'config', 'late']), st.integers(30, 120),
    )


def texts(case, ctx):
    """The texts given to a command are part of its help."""
    prog, description, epilog, doc, kind, width = case
    if any('%' in (part or '') for part in (epilog, description, doc)):
        # are templates of argparse
        description, epilog, doc = [part and part.replace('%', '') for part in (description, epilog, doc)]
    calls = []

    class Config:
        def __init__(self, a: int = 1):
            self.a = a

    def fn(config=None):
        calls.append(config)
    (Config if kind == 'config' else fn).__doc__ = doc
    options = {key: value for key, value in (('prog', prog), ('description', description), ('epilog', epilog)) if value is not None}
    if kind == 'config':
        app = marsh.main(fn, config=Config, **options)
    elif kind == 'late':
        app = marsh.main(**options)(fn)
    else:
        app = marsh.main(fn, **options)
    ctx.nontrivial(bool(options))
    ctx.label(kind, *options)
    previous = os.environ.get('COLUMNS')
    os.environ['COLUMNS'] = str(width)
    try:
        result = run(app, ['--help'])
        short = run(app, ['-h'])
    finally:
        if previous is None:
            del os.environ['COLUMNS']
        else:
            os.environ['COLUMNS'] = previous
    ctx.check(result.code == 0 and not calls, '--help', case, result)
    ctx.check(short.code == 0 and short.out == result.out, '-h differs from --help', case, short, result)
    ctx.check(squeeze(result.out).startswith(squeeze(f'usage: {prog or "prog"} [-h')), 'usage', case, result)
    shown = squeeze(result.out)
    for name, text in (('description', description if description is not None else doc), ('epilog', epilog)):
        ctx.check(not text or squeeze(text) in shown, f'{name} is not shown', case, result)
    ctx.check(
        max(map(len, result.out.split('\n'))) <= max(width, 40) or epilog, 'lines exceed the width', case, result)
    # the command stands for the function
    ctx.check(app.__name__ == 'fn' and app.__doc__ == fn.__doc__ and app.__wrapped__ is fn, 'metadata', case, app)


# ----------------------------------------------------------------------------- single values

def value_cases():
    words = st.lists(
        st.one_of(st.sampled_from(WORDS), st.text('ab-.:=é"\\', min_size=1, max_size=30)),
        min_size=1, max_size=12,
    ).map(' '.join)
    return st.tuples(
        words, st.one_of(st.none(), words), st.one_of(st.integers(1, 30), st.integers(30, 120)),
        st.integers(0, 8), st.integers(0, 40), st.integers(0, 8),
    )


def value(case, ctx):
    text, description, width, indent, column, margin = case
    result = marsh.doc.terminal.format_terminal_value(
        text, width=width, description=description, indent=indent,
        description_indent=column, description_margin=margin,
    )
    ctx.check(
        squeeze(result) == squeeze(text) + squeeze(description),
        'content changed', repr(result),
    )
    lines = result.split('\n')
    ctx.nontrivial(len(lines) > 1)
    for line in lines:
        leading = len(line) - len(line.lstrip())
        ctx.check(
            len(line) <= max(width, leading + 1, column + 1), f'line exceeds width {width}', repr(line),
        )
    if indent < width and len(text) + indent <= width:
        # no reason to break anything
        ctx.check(lines[0].startswith(' ' * indent + text), 'value', repr(result))
        if description:
            beside = column - indent - len(text) >= margin
            ctx.label('beside' if beside else 'below')
            if beside and column < width:
                ctx.check(
                    len(lines[0]) - len(text) - indent > 0 and lines[0][column:].strip()
                    or len(lines) > 1,
                    'description not on the line of the value', repr(result),
                )
                ctx.check(
                    lines[0][indent + len(text):column].strip() == '',
                    'description starts early', repr(result),
                )
            if not beside:
                ctx.check(lines[0].strip() == text, 'description too close', repr(result))
            if column < width:
                for line in lines[1:]:
                    ctx.check(
                        len(line) - len(line.lstrip()) == column,
                        'description not indented', repr(result),
                    )


# ----------------------------------------------------------------------------- generated documents

def cell_text():
    return st.one_of(
        st.lists(st.sampled_from([*WORDS, '*', '-', '``x``', ':class:`int`']), max_size=6).map(' '.join),
        st.text('ab \n-*:', max_size=12),
    )


def table_cases():
    return st.integers(1, 4).flatmap(lambda columns: st.tuples(
        st.lists(cell_text(), min_size=columns, max_size=columns),
        st.lists(st.lists(cell_text(), min_size=columns, max_size=columns), max_size=5),
        st.one_of(st.none(), st.sampled_from(['', 'A title'])),
        st.one_of(
            st.none(), st.lists(st.integers(1, 90), min_size=columns, max_size=columns)),
        st.booleans(),
    ))


def table(case, ctx):
    headers, rows, title, widths, lazy = case
    result = marsh.doc.restructuredtext.format_table(
        headers=tuple(headers), rows=(iter(rows) if lazy else rows), title=title, widths=widths,
    )
    ctx.nontrivial(len(rows) > 1 and len(headers) > 1)
    ctx.check(result.endswith('\n'), 'no newline at the end')
    head, found, body = result.partition('\n\n')
    ctx.check(found, 'no blank line behind the options', repr(result))
    options = head.split('\n')
    ctx.check(
        options[0].rstrip() == '.. list-table::' + (f' {title}' if title else ''), options[0])
    ctx.check(options[1] == '    :header-rows: 1', options)
    if widths:
        ctx.check(
            options[2] == '    :widths: ' + ', '.join(map(str, widths)), 'widths', options)
    ctx.check(len(options) == 2 + bool(widths), 'options', options)
    parsed = []
    for line in body[:-1].split('\n'):
        if line.startswith('    * - '):
            parsed.append([line[8:]])
        elif line.startswith('      - '):
            ctx.check(parsed, 'row without start')
            parsed[-1].append(line[8:])
        else:
            ctx.fail('unexpected line', repr(line))
    want = [[cell.replace('\n', ' ') for cell in row] for row in [headers, *rows]]
    ctx.check(parsed == want, 'table holds', parsed, 'expected', want)


def registry_cases():
    return st.tuples(
        st.lists(
            st.tuples(
                st.one_of(st.none(), st.sampled_from(['', 'int', ':class:`int`', 'a b', 'Ünï'])),
                st.one_of(st.none(), st.lists(st.sampled_from(WORDS), max_size=8).map(' '.join)),
            ),
            max_size=6,
        ),
        st.sampled_from(['list', 'iterator', 'registry', 'schema']),
        st.integers(1, 6),
        st.sampled_from('#*=-^"'),
    )


def make_documented(entries, how):
    base = marsh.schema.core.Schema
    schemas = []
    for i, (type_, description) in enumerate(entries):
        schemas.append(type(base)(f'D{i}', (base,), {
            'doc_static_type': staticmethod(lambda type_=type_: type_),
            'doc_static_description': staticmethod(lambda d=description: d),
        }))
    if how == 'list':
        return lambda: schemas
    if how == 'iterator':
        return lambda: iter(schemas)
    registry = marsh.schema.core.SchemaRegistry()
    for schema in reversed(schemas):
        registry.register(schema)
    if how == 'registry':
        return lambda: registry
    root = type(base)('Root', (base,), {'registry': registry})
    return lambda: root


def registry(case, ctx):
    entries, how, heading, section = case
    source = make_documented(entries, how)
    shown = [(t, d or '') for t, d in entries if t]
    ctx.nontrivial(len(shown) > 1)
    ctx.label(how)

    markdown = marsh.doc.markdown.format_types(source(), heading=heading)
    want = '\n\n'.join(f'{"#" * heading} {t}\n{d}' for t, d in shown)
    ctx.check(markdown == want, 'markdown', repr(markdown), 'expected', repr(want))

    rst = marsh.doc.restructuredtext.format_types(source(), section=section)
    parts = []
    for t, d in shown:
        line = section * len(t)
        over = f'{line}\n' if section in '#*' else ''
        parts.append(f'{over}{t}\n{line}\n\n{d}')
    ctx.check(rst == '\n\n'.join(parts), 'rst', repr(rst), 'expected', parts)

    rst_table = marsh.doc.restructuredtext.format_types_table(source(), title='T')
    cells = [
        line.partition('- ')[2] for line in rst_table.split('\n\n', 1)[1].split('\n')
    ]
    want_cells = ['Type', 'Description', *(c for t, d in shown for c in (t, d)), '']
    ctx.check(cells == want_cells, 'table', cells, 'expected', want_cells)


# ----------------------------------------------------------------------------- relations

class _Noted(marsh.annotation.Annotation):

    def __call__(self, value):
        return value


class _NotedBefore(marsh.annotation.PreAnnotation):

    def __call__(self, element):
        return element


WRAPPED = {
    'text': lambda type_: typing.Annotated[type_, 'text'],
    'annotation': lambda type_: typing.Annotated[type_, _Noted],
    'instance': lambda type_: typing.Annotated[type_, _NotedBefore(), 'text', _Noted()],
    'bound': lambda type_: typing.TypeVar('T', bound=type_),
    'bound annotated': lambda type_: typing.TypeVar('T', bound=typing.Annotated[type_, _Noted]),
    'annotated variable': lambda type_: typing.Annotated[typing.TypeVar('T', bound=type_), 'text'],
}


def documented(schema, depth):
    return {
        'doc': schema.doc(depth), 'type': schema.doc_type(), 'field type': schema.doc_field_type(), 'default': schema.doc_default(),
        'description': schema.doc_description(), 'fields': schema.doc_fields(depth), 'special': schema.doc_special_fields(),
    }


def relations(case, ctx):
    """Parts and whole of the documentation agree, and so do those of a type and of the same type with annotations."""
    spec, element, how, default, depth = case
    model = t.Model(spec)
    if how in ('bound', 'annotated variable') and model.type is None:
        # the same as no bound
        ctx.reject()
    kwargs = {}
    if default:
        try:
            value = marsh.unmarshal(model.type, element)
        except marsh.errors.MarshError:
            ctx.reject()
        kwargs = {'default': value} if default == 'value' else {'default_factory': lambda: value}
    schema = marsh.schema.UnmarshalSchema(model.type, **kwargs)
    plain = documented(schema, depth)
    what = f'{model.type} with {default} at depth {depth}'
    ctx.label(how, default or 'no default')
    ctx.nontrivial(bool(plain['fields'] or plain['description'] or default))
    doc = plain['doc']
    ctx.check(doc.type == plain['type'], f'{what}: type {doc.type!r}, but doc_type {plain["type"]!r}')
    ctx.check(doc.default == plain['default'], f'{what}: default {doc.default!r}, but doc_default {plain["default"]!r}')
    ctx.check((doc.default is None) == (not default), f'{what}: default {doc.default!r}')
    if default == 'factory':
        ctx.check(doc.default == '...', f'{what}: default {doc.default!r}')
    ctx.check(
        doc.description == plain['description'], f'{what}: description {doc.description!r}, but doc_description {plain["description"]!r}')
    ctx.check(doc.fields == plain['fields'], f'{what}: fields {doc.fields!r}, but doc_fields {plain["fields"]!r}')
    ctx.check(doc.special_fields == plain['special'], f'{what}: {doc.special_fields!r}, but doc_special_fields {plain["special"]!r}')
    wrapped = marsh.schema.UnmarshalSchema(WRAPPED[how](model.type), **kwargs)
    got = documented(wrapped, depth)
    for key, expected in plain.items():
        ctx.check(got[key] == expected, f'{what} as {how}: {key} {got[key]!r}, but {expected!r} for the type itself')
    for field in doc.fields or ():
        inner, same = attempt_select(schema, field), attempt_select(wrapped, field)
        ctx.check(
            inner is not None and same is not None and documented(inner, depth) == documented(same, depth),
            f'{what} as {how}: {field!r} selects {same!r}, but {inner!r} for the type itself')


def attempt_select(schema, name):
    try:
        return schema.select(ref_join([name]))
    except marsh.errors.PathError:
        return None


def relation_cases():
    return t.specs(2).flatmap(lambda spec: st.tuples(
        st.just(spec), t.valid(spec), st.sampled_from(sorted(WRAPPED)), st.sampled_from([None, 'value', 'factory']), st.integers(0, 3)))


SUBS = [
    Sub('relations', relation_cases, relations, 1500, 50000),
    Sub('structured', structured_cases, structured, 800, 40000),
    Sub('selection', selection_cases, selection, 3000, 60000),
    Sub('inherited', inherited_cases, inherited, 600, 20000),
    Sub('command', command_cases, command, 500, 20000),
    Sub('layout', layout_cases, layout, 1500, 50000),
    Sub('texts', texts_cases, texts, 500, 20000),
    Sub('value', value_cases, value, 4000, 200000),
    Sub('table', table_cases, table, 1500, 50000),
    Sub('registry', registry_cases, registry, 800, 20000),
]
