"""C21: config discovery by name and directory trees."""
import contextlib
import os

import marsh
from hypothesis import strategies as st

from vlib import gen
from vlib.core import Sub
from vlib.oracle import same_element

PROPERTY = 'C21'
RULE = (
    'Cases are generated directory trees (files with supported/unsupported extensions in '
    'any letter case, clashing stems, directories named like configs, nested and empty '
    'directories) with names to look up from different working directories. Oracle: the '
    'generated layout. Non-trivial: several files share a stem or a level holds a '
    'sub-directory.'
)

SUPPORTED = ('.json', '.yaml', '.yml')
STEMS = st.sampled_from(['a', 'b', 'ab', 'A', 'cfg', 'my cfg', 'a-b', 'é'])
# names of other files, which may look like an extended stem
OTHERS = st.sampled_from(['a.b', 'a.json', 'b.yaml', '.a', 'a.', 'cfg.json.bak', 'a b', 'b.a', '.yaml', 'ba'])
EXTS = st.sampled_from(['.json', '.yaml', '.yml', '.YAML', '.Yml', '.JSON', '.txt', '.py', '', '.bak'])
FILES = st.lists(st.tuples(gen.pick(STEMS, STEMS, STEMS, OTHERS), EXTS), max_size=6, unique_by=lambda f: (f[0] + f[1]))


def _layout(depth=2):
    """[files, {dirname: layout}]"""
    names = st.sampled_from(['d', 'sub', 'x', 'a', 'dir.yaml', 'b', 'a.yaml', 'b.json', 'ab.yml', 'cfg.yaml'])
    layout = st.tuples(FILES, st.just(()))
    for _ in range(depth):
        layout = st.tuples(
            FILES,
            st.lists(st.tuples(names, layout), max_size=3, unique_by=lambda d: d[0]).map(tuple),
        )
    return layout


def _split(name):
    stem, dot, ext = name.rpartition('.')
    return (stem, dot + ext) if stem.strip('.') else (name, '')


def _supported(stem, ext):
    return ext.lower() in SUPPORTED


def _create(base, layout, store):
    os.makedirs(base, exist_ok=True)
    files, dirs = layout
    made = []
    taken = {name for name, _ in dirs}
    for stem, ext in files:
        if stem + ext in taken:
            continue
        path = os.path.join(base, stem + ext)
        if len(stem + ext) + len(files) & 3 == 0:
            # a symbolic link to a file of another name
            os.makedirs(os.path.join(store, 'files'), exist_ok=True)
            target = os.path.join(store, 'files', str(len(os.listdir(os.path.join(store, 'files')))))
            os.symlink(target, path)
            path = target
        with open(path, 'w') as fp:
            fp.write('{"name": "%s"}' % (stem + ext))
        made.append(_split(stem + ext))
    return made, {name: _create(os.path.join(base, name), sub, store) for name, sub in dirs}


@contextlib.contextmanager
def _cwd(path):
    previous = os.getcwd()
    os.chdir(path)
    try:
        yield
    finally:
        os.chdir(previous)


def find(case, ctx):
    layout, stem, how, where = case
    scratch = ctx.scratch()
    base = os.path.join(scratch, 'base')
    tree = _create(base, layout, scratch)
    made, dirs = tree
    prefix = ''
    for number in where:
        if not dirs:
            break
        name = sorted(dirs)[number % len(dirs)]
        prefix = os.path.join(prefix, name)
        made, dirs = dirs[name]
    candidates = [s + e for s, e in made if s == stem and _supported(s, e)]
    target = os.path.join(prefix, stem)
    if how == 'absolute':
        cwd, name, kwargs = '/', os.path.join(base, target), {}
    elif how == 'root':
        cwd, name, kwargs = '/', target, {'root': base}
    elif how == 'relative':
        cwd, name, kwargs = base, target, {}
    elif how == 'dot':
        cwd, name, kwargs = base, os.path.join('.', target), {}
    else:
        cwd, name, kwargs = os.path.join(base, prefix), stem, {}
    ctx.nontrivial(len(made) > 1)
    ctx.label(f'{min(len(candidates), 2)} candidates', how)
    what = f'{name!r} in {sorted(s + e for s, e in made)!r} ({how})'
    with _cwd(cwd):
        try:
            got = marsh.config.load(name, **kwargs)
        except marsh.errors.ConfigFileError as err:
            ctx.check(len(candidates) != 1, f'{what} was not found: {err}')
        else:
            ctx.check(len(candidates) == 1, f'{what} loaded {got!r}, candidates {candidates!r}')
            ctx.check(same_element(got, {'name': candidates[0]}), f'{what} loaded {got!r}')
        if not kwargs:
            try:
                path = marsh.config.find_config(name)
            except marsh.errors.ConfigFileError:
                ctx.check(len(candidates) != 1, f'find_config: {what} was not found')
            else:
                ctx.check(
                    len(candidates) == 1
                    and os.path.samefile(path, os.path.join(base, prefix, candidates[0])),
                    f'find_config: {what} found {path!r}',
                )
        # with the extension the name is never ambiguous
        for s, e in made:
            if s == stem and _supported(s, e):
                got = marsh.config.load(name + e, **kwargs)
                ctx.check(same_element(got, {'name': s + e}), f'{name + e!r} loaded {got!r}')
        for e in SUPPORTED:
            if not any(s + x == stem + e for s, x in made) and stem + e not in dirs:
                try:
                    got = marsh.config.load(name + e, **kwargs)
                except marsh.errors.ConfigFileError:
                    continue
                ctx.fail(f'{name + e!r} does not exist but loaded {got!r}')


def no_directory(case, ctx):
    parts, stem, ext = case
    base = ctx.scratch()
    ctx.nontrivial()
    name = os.path.join(base, 'missing', *parts, stem + ext)
    try:
        got = marsh.config.load(name)
    except marsh.errors.ConfigFileError:
        return
    ctx.fail(f'{name!r} loaded {got!r}')


def _parse_tree(text):
    """[(path parts, is last sibling, bars)] of the lines of a tree."""
    lines = text.split('\n')
    entries = []
    stack = []
    for line in lines[1:]:
        bars = []
        while line[:4] in ('│   ', '    '):
            bars.append(line[:4] == '│   ')
            line = line[4:]
        if line[:4] not in ('├── ', '└── '):
            return None, lines[0]
        if len(bars) > len(stack):
            return None, lines[0]
        stack = stack[:len(bars)] + [line[4:]]
        entries.append((tuple(stack), line[:4] == '└── ', tuple(bars)))
    return entries, lines[0]


def _expected(tree, prefix=()):
    made, dirs = tree
    files = {(*prefix, s + e) for s, e in made if _supported(s, e)}
    folders = set()
    for name, sub in dirs.items():
        inner_files, inner_folders = _expected(sub, (*prefix, name))
        if inner_files:
            files |= inner_files
            folders |= inner_folders | {(*prefix, name)}
    return files, folders


def tree(case, ctx):
    layout, extra = case
    scratch = ctx.scratch()
    base = os.path.join(scratch, 'configs')
    made = _create(base, layout, scratch)
    files, folders = _expected(made)
    ctx.nontrivial(bool(folders))
    ctx.label(f'depth {max([len(f) for f in files] or [0])}')
    text = marsh.config.tree(base)
    entries, root = _parse_tree(text)
    ctx.check(root == 'configs' and entries is not None, f'malformed tree:\n{text}')
    paths = [path for path, _, _ in entries]
    ctx.check(
        sorted(paths) == sorted(files | folders),
        f'tree of {sorted(files)!r}:\n{text}\nlists {sorted(paths)!r}',
    )
    # the drawing is consistent
    last = {}
    for path, _, _ in entries:
        last[path[:-1]] = path
    for path, is_last, bars in entries:
        ctx.check(is_last == (last[path[:-1]] == path), f'wrong branch for {path!r}:\n{text}')
        expected = tuple(last[path[:i]] != path[:i + 1] for i in range(len(path) - 1))
        ctx.check(bars == expected, f'wrong indentation for {path!r}:\n{text}')


def extension(case, ctx):
    """Config types can be added; a new type is found from then on."""
    ext, stems, before, upper, payload = case
    base = ctx.scratch()
    ctx.nontrivial()
    for stem in stems:
        with open(os.path.join(base, stem + (ext.upper() if upper else ext)), 'w') as fp:
            fp.write(payload)
    config = marsh.config
    name = os.path.join(base, stems[0])

    def lookup():
        try:
            return config.load(name)
        except marsh.errors.ConfigFileError:
            return None
    previous = config.ConfigSchema.registry
    registry = marsh.schema.core.SchemaRegistry(error=marsh.errors.ConfigFileError)
    for schema in reversed(list(previous)):
        registry.register(schema)
    config.ConfigSchema.registry = registry
    try:
        if before:
            ctx.label('looked up before')
            ctx.check(lookup() is None, f'{ext} is unexpectedly supported')
            ctx.check('── ' not in config.tree(base), f'{ext} is listed before it is supported')

        class Custom(config.ConfigSchema):

            @classmethod
            def match(cls, value):
                return config.get_ext(value).lower() == ext

            def dumps(self, element):
                return element['text']

            def loads(self, encoded):
                return {'text': encoded}

        config.ConfigSchema.registry.register(Custom)
        got = lookup()
        ctx.check(got == {'text': payload}, f'registered type {ext}: loading {name!r} gives {got!r}')
        listed = config.tree(base)
        for stem in stems:
            ctx.check(f'── {stem}{ext.upper() if upper else ext}' in listed, f'{stem}{ext} is not in\n{listed}')
        config.write({'text': payload + '!'}, name + ext)
        ctx.check(config.load(name + ext) == {'text': payload + '!'}, 'custom write/load')
    finally:
        config.ConfigSchema.registry = previous


SUBS = [
    Sub(
        'find',
        lambda: st.tuples(
            _layout(), STEMS, st.sampled_from(['absolute', 'root', 'relative', 'dot', 'inside', 'inside']),
            st.lists(st.integers(0, 2), max_size=2),
        ),
        find, 2500, 60000,
    ),
    Sub(
        'no_directory',
        lambda: st.tuples(st.lists(STEMS, max_size=2), STEMS, st.sampled_from(['', '.json', '.yaml'])),
        no_directory, 200, 2000,
    ),
    Sub('tree', lambda: st.tuples(_layout(3), st.none()), tree, 2500, 60000),
    Sub(
        'extension',
        lambda: st.tuples(
            st.sampled_from(['.toml', '.ini', '.cfg']), st.lists(STEMS.filter(lambda s: s != 'A'), min_size=1, max_size=3, unique=True),
            st.booleans(), st.booleans(), st.text(alphabet='abc ', max_size=4),
        ),
        extension, 300, 5000,
    ),
]
