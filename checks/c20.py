"""C20: config files: writing, loading, merging, meta data."""
import contextlib
import io
import json
import os

import marsh
import yaml
from hypothesis import strategies as st

from vlib import elem, gen, text
from vlib.core import Sub
from vlib.oracle import norm, ref_join, same_element

PROPERTY = 'C20'
RULE = (
    'Cases write generated elements to json/yaml/yml files in a scratch directory and load '
    'them by name (with/without extension, relative/absolute/with a root directory, one or '
    'several files, with meta data and interpolations). Oracle: the written element, the '
    'reference merge and a reference of the meta/interpolation rules. Non-trivial: the '
    'element nests containers or holds text that needs quoting, or several files are used.'
)

EXT = st.sampled_from(['.json', '.yaml', '.yml', '.YAML', '.Json'])
NAME = st.sampled_from(['a', 'b', 'cfg', 'some name', 'sub/x', 'sub/dir/y', 'é'])
TEXTS = gen.pick(
    gen.any_text(),
    st.sampled_from([
        'yes', 'no', 'null', '~', '1', '1.0', '1e3', '0x10', '1_000', '2020-01-01', '!tag', '&a', '*a',
        '- a', 'a: b', '#c', '%', '@', '`', '"', "'", '|', '>', '\x85', '\u2028', '\ufeff', ' x ', 'a\n\nb ', '???', '=', '<<',
    ]),
)
PLAIN = TEXTS.filter(lambda t: '${' not in t)
KEYS = gen.pick(gen.simple_key(), gen.field(), TEXTS.filter(bool))
MERGE_KEYS = st.sampled_from(['a', 'b', 'c', 'a.b'])


def _docs(keys, texts):
    leaves = gen.scalars(texts)
    return gen.pick(
        st.dictionaries(keys, gen.elements(keys=keys, leaves=leaves, max_leaves=6), max_size=4),
        gen.containers(keys=keys, leaves=leaves, max_leaves=6),
        leaves,
    )


@contextlib.contextmanager
def _cwd(path):
    previous = os.getcwd()
    os.chdir(path)
    try:
        yield
    finally:
        os.chdir(previous)


def _write(path, element):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    marsh.config.write(element, path)


def _name(base, name, ext, with_ext, how):
    """(name to load, kwargs) for a file below base."""
    if with_ext:
        name += ext
    if how == 'absolute':
        return os.path.join(base, name), {}
    if how == 'root':
        return name, {'root': base}
    if how == 'absolute with root':
        return os.path.join(base, name), {'root': '/nonexistent'}
    return name, {}


HOW = st.sampled_from(['absolute', 'root', 'cwd', 'absolute with root', 'cwd'])


def roundtrip(case, ctx):
    element, name, ext, with_ext, how, previous = case
    scratch = ctx.scratch()
    base = os.path.join(scratch, 'base')
    path = os.path.join(base, name + ext)
    _write(path, previous)
    _write(path, element)
    load_name, kwargs = _name(base, name, ext, with_ext, how)
    ctx.nontrivial(isinstance(element, (dict, list, tuple)) and bool(element))
    ctx.label(ext.lower(), how, 'extension' if with_ext else 'no extension', type(element).__name__)
    cwd = base
    if how == 'root':
        # the root is used, whatever the working directory holds
        cwd = os.path.join(scratch, 'other')
        os.makedirs(cwd)
        for other in (ext, ext, '.yaml')[:len(name) % 4]:
            _write(os.path.join(cwd, name + other), 'wrong file')
    with _cwd(cwd):
        got = marsh.config.load(load_name, resolve=False, keep_meta=True, **kwargs)
        ctx.check(
            same_element(got, element),
            f'{element!r} written to {name + ext!r} and loaded as {load_name!r} {kwargs!r} gives {got!r}',
        )
    # the file is in the format its extension promises
    with open(path) as fp:
        raw = fp.read()
    decoded = json.loads(raw) if ext.lower() == '.json' else yaml.safe_load(raw)
    ctx.check(same_element(decoded, element), f'{element!r} is stored as {raw!r}')


def formats(case, ctx):
    """A config schema writes and reads texts just like files."""
    element, other, name, ext, wrong = case
    base = ctx.scratch()
    path = os.path.join(base, name + ext)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    schema = marsh.config.ConfigSchema(path)
    ctx.nontrivial(isinstance(element, (dict, list, tuple)) and bool(element))
    ctx.label(ext.lower())
    for value in (other, element):
        text_ = schema.dumps(value)
        ctx.check(isinstance(text_, str), f'{value!r} is written as {text_!r}')
        decoded = json.loads(text_) if ext.lower() == '.json' else yaml.safe_load(text_)
        ctx.check(same_element(decoded, value), f'{value!r} is written as {text_!r}')
        got = schema.loads(text_)
        ctx.check(same_element(got, value), f'{value!r} written as {text_!r} is read as {got!r}')
        schema.dump(value)
        got = schema.load()
        ctx.check(same_element(got, value), f'{value!r} written to {name + ext!r} is read as {got!r}')
        with open(path) as fp:
            got = schema.loads(fp.read())
        ctx.check(same_element(got, value), f'{value!r} written to {name + ext!r} is read as {got!r} from its text')
        with open(path, 'w') as fp:
            fp.write(text_)
        got = marsh.config.ConfigSchema(path).load()
        ctx.check(same_element(got, value), f'{value!r} written as {text_!r} to a file is read as {got!r}')
    # a path that names no format has no schema
    try:
        got = marsh.config.ConfigSchema(os.path.join(base, wrong))
    except (ValueError, marsh.errors.ConfigFileError):
        pass
    else:
        ctx.fail(f'{wrong!r} is taken for a config: {got!r}')


def json_text(case, ctx):
    """JSON files hold any text, also what can not be encoded."""
    element, ext = case
    path = os.path.join(ctx.scratch(), 'a' + ext)
    ctx.nontrivial(any('\ud800' <= c <= '\udfff' for c in repr(element).encode().decode('unicode_escape')))
    marsh.config.write(element, path)
    got = marsh.config.load(path, resolve=False)
    ctx.check(same_element(got, element), f'{element!r} written to {ext} gives {got!r}')


def default_load(case, ctx):
    """Without interpolations, resolving changes nothing; meta data is dropped."""
    element, meta, ext, keep = case
    base = ctx.scratch()
    stored = element
    if isinstance(element, dict):
        element = {k: v for k, v in element.items() if k != '_meta_'}
        stored = dict(element)
        if meta is not None:
            stored['_meta_'] = meta[0]
            if meta[1]:
                stored['nested'] = element['nested'] = {'_meta_': 1}
            ctx.label('meta')
            ctx.nontrivial()
    path = os.path.join(base, 'a' + ext)
    _write(path, stored)
    got = marsh.config.load(path, **({} if keep is None else {'keep_meta': keep}))
    expected = stored if keep else element
    ctx.check(same_element(got, expected), f'{stored!r} loaded with keep_meta={keep} gives {got!r}')
    dropped = marsh.config.drop_meta(stored)
    ctx.check(same_element(dropped, element), f'drop_meta({stored!r}) = {dropped!r}')


def several(case, ctx):
    docs, exts, concatenate, how, resolve, dupes = case
    base = ctx.scratch()
    names, contents = [], []
    for i, doc in enumerate(docs):
        ext = exts[i % len(exts)]
        _write(os.path.join(base, f'sub{i % 2}', f'c{i}{ext}'), doc)
        names.append(f'sub{i % 2}/c{i}' + (ext if i % 3 == 0 else ''))
        contents.append(norm(doc))
    for i in dupes:
        names.append(names[i % len(docs)])
        contents.append(contents[i % len(docs)])
    kwargs = {'root': base} if how == 'root' else {}
    if how.startswith('absolute'):
        names = [os.path.join(base, n) for n in names]
    expected = elem.merge(contents, concatenate)
    if isinstance(expected, dict):
        expected = {k: v for k, v in expected.items() if k != '_meta_'}
    ctx.nontrivial(len(contents) > 1)
    ctx.label(f'{len(contents)} files', 'concatenate' if concatenate else 'replace')
    with _cwd(base):
        got = marsh.config.load(*names, concatenate=concatenate, resolve=resolve, **kwargs)
    ctx.check(same_element(got, expected), f'{contents!r} loaded with concatenate={concatenate} gives {got!r}')
    if not concatenate:
        with _cwd(base):
            got = marsh.config.load(*names, **kwargs)
        ctx.check(same_element(got, expected), f'{contents!r} loaded with defaults gives {got!r}')


def interpolation(case, ctx):
    value, meta, ext, order, resolve = case
    base = ctx.scratch()
    one = {'x': value, '_meta_': {'m': meta, 'n': {'k': [value]}}}
    two = {'y': '${x}', 'z': {'w': ['${_meta_.m}', '${_meta_.n.k}']}, 't': 'v=${_meta_.m}'}
    _write(os.path.join(base, 'one' + ext), one)
    _write(os.path.join(base, 'two.yaml'), two)
    names = ['one', 'two'] if order else ['two', 'one']
    got = marsh.config.load(*names, root=base, **({} if resolve else {'resolve': False}))
    ctx.nontrivial()
    expected = {'x': value}
    if resolve:
        expected.update(y=value, z={'w': [meta, [value]]}, t=f'v={meta}')
    else:
        expected.update(two)
    ctx.check(same_element(got, expected), f'{one!r} + {two!r} loaded gives {got!r}')


def list_interpolation(case, ctx):
    """References between the items of lists from several files, by their place in the whole."""
    docs, ext, resolve = case
    base = ctx.scratch()
    flat, expected, stored = [], [], []
    place = 0
    values = [value for doc in docs for value, _ in doc]
    for doc in docs:
        items = []
        for value, ref in doc:
            # (to an item that is no reference itself)
            target = None if ref is None else ref % len(values)
            if target is None or [r for d in docs for _, r in d][target] is not None:
                items.append(value)
                expected.append(value)
            else:
                items.append('${%d}' % target)
                expected.append(values[target])
            place += 1
        flat += items
        stored.append(items)
    names = []
    for i, items in enumerate(stored):
        _write(os.path.join(base, f'l{i}{ext}'), items)
        names.append(f'l{i}')
    ctx.nontrivial(flat != expected and len(docs) > 1)
    ctx.label(f'{len(docs)} files', 'references' if flat != expected else 'plain')
    got = marsh.config.load(*names, root=base, concatenate=True, resolve=resolve)
    ctx.check(same_element(got, expected if resolve else flat), f'{stored!r} loaded gives {got!r}')


def stdout(case, ctx):
    element = case
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        marsh.config.write(element)
    ctx.nontrivial(isinstance(element, (dict, list, tuple)))
    try:
        got = yaml.safe_load(out.getvalue())
    except yaml.YAMLError as err:
        ctx.fail(f'{element!r} is written to stdout as {out.getvalue()!r}: {err}')
    ctx.check(same_element(got, element), f'{element!r} is written to stdout as {out.getvalue()!r}')


def overrides(case, ctx):
    """path@names is the same as setting the loaded content."""
    start, fields, docs, op, ext, how = case
    base = ctx.scratch()
    names = []
    for i, doc in enumerate(docs):
        _write(os.path.join(base, f'c{i}{ext}'), doc)
        names.append(f'c{i}' if how == 'root' else os.path.join(base, f'c{i}'))
    content = elem.merge([norm(d) for d in docs], True)
    if isinstance(content, dict):
        content = {k: v for k, v in content.items() if k != '_meta_'}
    try:
        expected = elem.override(start, fields, content, op == '+@')
    except (elem.Bad, elem.Ambiguous):
        ctx.reject()
    ctx.nontrivial()
    ctx.label(op, f'{len(docs)} files')
    source = text.override_path(ref_join(fields)) + op + ','.join(text.bare(n, ',') for n in names)
    got = marsh.parse.override(source).apply(start, root=base if how == 'root' else None)
    ctx.check(same_element(got, expected), f'{source!r} (contents {docs!r}) applied to {start!r} gives {got!r}')


def malformed(case, ctx):
    content, ext = case
    base = ctx.scratch()
    path = os.path.join(base, 'bad' + ext)
    with open(path, 'w', newline='') as fp:
        fp.write(content)
    try:
        with open(path) as fp:
            raw = fp.read()
        json.loads(raw) if ext == '.json' else yaml.safe_load(raw)
    except Exception:
        pass
    else:
        ctx.reject()
    ctx.nontrivial()
    try:
        got = marsh.config.load(path)
    except marsh.errors.ConfigFileError:
        pass
    else:
        ctx.fail(f'malformed {ext} content {content!r} loaded as {got!r}')


def unsupported(case, ctx):
    element, ext = case
    base = ctx.scratch()
    path = os.path.join(base, 'a' + ext)
    ctx.nontrivial()
    with open(path, 'w') as fp:
        fp.write('{"keep": 1}')
    for call in (lambda: marsh.config.load(path), lambda: marsh.config.write(element, path)):
        try:
            got = call()
        except marsh.errors.ConfigFileError:
            continue
        ctx.fail(f'unsupported extension {ext!r} was accepted: {got!r}')
    with open(path) as fp:
        ctx.check(fp.read() == '{"keep": 1}', 'a failed write changed the file')


MERGE_DOCS = st.dictionaries(
    gen.pick(MERGE_KEYS, MERGE_KEYS, st.just('_meta_')),
    gen.pick(
        gen.scalars(PLAIN), st.just('???'), st.lists(gen.ints, max_size=2),
        st.dictionaries(MERGE_KEYS, gen.pick(gen.scalars(PLAIN), st.lists(gen.ints, max_size=2)), max_size=3),
    ),
    min_size=1, max_size=4,
)

SUBS = [
    Sub(
        'roundtrip',
        lambda: st.tuples(_docs(KEYS, TEXTS), NAME, EXT, st.booleans(), HOW, _docs(KEYS, TEXTS)),
        roundtrip, 3000, 100000,
    ),
    Sub(
        'formats',
        lambda: st.tuples(
            _docs(KEYS, TEXTS), _docs(KEYS, TEXTS), NAME, EXT,
            st.sampled_from(['a', 'a.', 'a.txt', 'json', 'a.jsonx', 'a.yamll', 'a.json.txt', 'a.xjson', 'a.yaml~']),
        ),
        formats, 1000, 30000,
    ),
    Sub(
        'json_text',
        lambda: st.tuples(
            gen.containers(
                keys=gen.simple_key(), max_leaves=5,
                leaves=gen.scalars(st.text(alphabet='a\x00\x7f\u2028é\ud800\udbff\U0001f600"\\', max_size=5)),
            ),
            st.sampled_from(['.json', '.JSON']),
        ),
        json_text, 500, 20000,
    ),
    Sub(
        'default_load',
        lambda: st.tuples(
            _docs(KEYS, PLAIN),
            gen.pick(st.none(), st.tuples(gen.elements(max_leaves=3, leaves=gen.scalars(PLAIN)), st.booleans())),
            EXT, st.sampled_from([None, False, True]),
        ),
        default_load, 1500, 50000,
    ),
    Sub(
        'several',
        lambda: st.tuples(
            st.lists(MERGE_DOCS, min_size=1, max_size=4), st.lists(EXT, min_size=1, max_size=3), st.booleans(), HOW,
            st.booleans(), st.lists(st.integers(0, 3), max_size=1),
        ),
        several, 1500, 50000,
    ),
    Sub(
        'interpolation',
        lambda: st.tuples(
            gen.scalars(st.text(alphabet='abc 01', max_size=5)), st.text(alphabet='abc 01', max_size=5), EXT,
            st.booleans(), st.booleans(),
        ),
        interpolation, 300, 10000,
    ),
    Sub(
        'list_interpolation',
        lambda: st.tuples(
            st.lists(
                st.lists(
                    st.tuples(gen.scalars(st.text(alphabet='abc 01', max_size=5)), st.one_of(st.none(), st.integers(0, 8))),
                    max_size=4),
                min_size=1, max_size=3),
            EXT, st.booleans(),
        ),
        list_interpolation, 300, 10000,
    ),
    Sub('stdout', lambda: _docs(KEYS, TEXTS), stdout, 1500, 50000),
    Sub(
        'overrides',
        lambda: st.tuples(
            gen.containers(keys=gen.simple_key(), max_leaves=4), st.lists(gen.simple_key(), max_size=2),
            st.lists(MERGE_DOCS, min_size=1, max_size=3), st.sampled_from(['@', '+@']), EXT,
            st.sampled_from(['root', 'absolute']),
        ),
        overrides, 1200, 30000,
    ),
    Sub(
        'malformed',
        lambda: st.tuples(
            st.one_of(
                st.sampled_from(['{', '[1,', 'a: b: c', '"abc', '{"a": }', 'a: [1', '\t- a', '@x']),
                st.text(alphabet='{}[]:,"\'ab1 \n-', max_size=10),
            ),
            st.sampled_from(['.json', '.yaml', '.yml']),
        ),
        malformed, 1000, 20000,
    ),
    Sub(
        'unsupported',
        lambda: st.tuples(gen.elements(max_leaves=2), st.sampled_from(['.txt', '.toml', '.jsonx', '.yam', '.ini'])),
        unsupported, 100, 1000,
    ),
]
