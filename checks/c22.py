"""C22: command line entry points deliver exactly the described configuration."""
import contextlib
import dataclasses
import datetime
import io
import json
import logging
import os
import sys
import time
from typing import Any, Dict, List, Optional

import marsh
import omegaconf
import yaml
from hypothesis import strategies as st

from vlib import elem, gen, text
from vlib.core import Sub
from vlib.oracle import norm, ref_join, same, same_element

PROPERTY = 'C22'
RULE = (
    'Cases are command lines: overrides (rendered by an own renderer), config files in a '
    'scratch directory, options. The entry point runs in process; what the wrapped function '
    'receives is compared with a reference model of the overrides. Non-trivial: two or more '
    'overrides/sources, or a failing command line.'
)


class Run:

    def __init__(self, code, value, out, err):
        self.code, self.value, self.out, self.err = code, value, out, err

    def __repr__(self):
        return f'<exit {self.code!r} value {self.value!r} stdout {self.out!r} stderr {self.err!r}>'


def run(app, argv, cwd=None, args=(), kwargs=None):
    """Run an entry point. code None: the function returned."""
    out, err = io.StringIO(), io.StringIO()
    previous, before = sys.argv, os.getcwd()
    sys.argv = ['prog', *argv]
    if cwd:
        os.chdir(cwd)
    code, value = None, None
    start = os.getcwd()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                value = app(*args, **(kwargs or {}))
            except SystemExit as error:
                code = error.code
    finally:
        moved = os.getcwd() if os.getcwd() != start else None
        sys.argv = previous
        os.chdir(before)
    if moved:
        raise AssertionError(f'{argv!r} left the working directory {moved!r} instead of {start!r}')
    return Run(code, value, out.getvalue(), err.getvalue())


class Called:
    """Counts the calls of the wrapped function."""

    def __init__(self):
        self.calls = []

    def kwargs_app(self, **options):
        @marsh.main(**options)
        def app(**kwargs):
            self.calls.append(kwargs)
            return 'returned', len(self.calls)
        return app

    def config_app(self, type_, **options):
        @marsh.main(config=type_, **options)
        def app(config):
            self.calls.append(config)
            return 'returned', len(self.calls)
        return app


def _has_missing(value):
    if isinstance(value, dict):
        return any(map(_has_missing, value.values()))
    if isinstance(value, (list, tuple)):
        return any(map(_has_missing, value))
    return isinstance(value, str) and value == '???'


def _missing_key(value):
    """A key '???' is not specified."""
    if isinstance(value, dict):
        return '???' in value or any(map(_missing_key, value.values()))
    return isinstance(value, (list, tuple)) and any(map(_missing_key, value))


def _interpolates(value):
    if isinstance(value, dict):
        return any(map(_interpolates, value.values())) or any('${' in k for k in value)
    if isinstance(value, (list, tuple)):
        return any(map(_interpolates, value))
    return isinstance(value, str) and '${' in value


def _drop_meta(value):
    if isinstance(value, dict):
        return {k: v for k, v in value.items() if k != '_meta_'}
    return value


def model_argv(ops, base, start='???'):
    """Argument list and resulting configuration of a list of operations."""
    model = start
    argv = []
    used = 0
    for op, steps, extra, styled, quote in ops:
        fields = [f for f, _ in elem.walk(model, steps)] + [f for f, _ in extra]
        path = text.override_path(ref_join(fields), quote)
        value = text.value_of(styled)
        try:
            if op == '~':
                if not fields:
                    continue
                model = elem.remove(model, fields)
                argv.append('~' + path)
            elif op in ('@', '+@'):
                if _interpolates(value):
                    continue
                name = f'file{used}'
                with open(os.path.join(base, f'{name}.yaml'), 'w') as fp:
                    yaml.safe_dump(json.loads(json.dumps(value)), fp)
                model = elem.override(model, fields, norm(value), op == '+@')
                argv.append(f'{path}{op}{name}')
            else:
                model = elem.override(model, fields, value, op == '+=')
                argv.append(path + op + text.render(styled))
        except (elem.Bad, elem.Ambiguous):
            continue
        used += 1
    return argv, model


def _outcome(ctx, app, calls, argv, model, run_result, keyword=True):
    """The function got the configuration, or the command line is reported as an error."""
    config = _drop_meta(model)
    config = {} if isinstance(config, str) and config == '???' else config
    if isinstance(config, (list, tuple)) and not config and keyword:
        config = {}
    if not isinstance(config, dict) or _has_missing(config):
        ctx.label('rejected')
        ctx.check(
            run_result.code == 1 and not calls and run_result.out.strip() and 'Traceback' not in run_result.err,
            f'{argv!r} (configuration {config!r}) gives {run_result!r}',
        )
        return None
    ctx.label('delivered')
    ctx.check(
        run_result.code is None and len(calls) == 1,
        f'{argv!r} (configuration {config!r}) gives {run_result!r}',
    )
    ctx.check(same_element(calls[0], config), f'{argv!r}: the function got {calls[0]!r}, expected {config!r}')
    ctx.check(
        run_result.value == ('returned', 1),
        f'{argv!r}: the result of the function was not returned: {run_result!r}',
    )
    return config


def delivery(case, ctx):
    ops, as_config, root = case
    base = ctx.scratch()
    argv, model = model_argv(ops, base)
    if _interpolates(model) or _missing_key(model):
        ctx.reject()
    called = Called()
    app = called.config_app(Dict[str, Any]) if as_config else called.kwargs_app()
    ctx.nontrivial(len(argv) > 1)
    ctx.label('config type' if as_config else 'keyword arguments', f'{min(len(argv), 4)} overrides')
    for arg in argv:
        for op in ('+@', '+=', '@', '~', '='):
            if op in arg:
                ctx.label(op)
                break
    full = (['-c', base] if root else []) + ['--', *argv]
    elsewhere = os.path.join(base, 'elsewhere')
    os.makedirs(elsewhere)
    result = run(app, full, cwd=elsewhere if root else base)
    _outcome(ctx, app, called.calls, full, model, result, not as_config)


# ------------------------------------------------------------------- typed functions

@dataclasses.dataclass
class Inner:
    x: int
    y: List[float] = dataclasses.field(default_factory=lambda: [0.5])


FIELDS = {
    # name: (type, default or no default, strategy for (text, value))
    'i': (int, None),
    's': (str, None),
    'f': (float, 1.5),
    'b': (bool, False),
    'l': (List[int], [7]),
    'd': (Dict[str, int], {'q': 1}),
    'o': (Optional[int], 3),
    'n': (Inner, None),
}


def typed(case, ctx):
    """Values reach the function converted to the annotated types; untouched defaults stay."""
    given, order, passthrough, as_config, double = case
    calls = []

    def body(i, s, n, f=1.5, b=False, l=[7], d={'q': 1}, o=3):
        calls.append(dict(i=i, s=s, n=n, f=f, b=b, l=l, d=d, o=o))
        return calls[-1]
    body.__annotations__ = {name: type_ for name, (type_, _) in FIELDS.items()}
    app = marsh.main(body)
    expected = {'f': 1.5, 'b': False, 'l': [7], 'd': {'q': 1}, 'o': 3}
    expected.update(passthrough)
    argv = []
    for name in order:
        if name in given:
            values = given[name]
            if not double:
                values = values[-1:]
            for value in values:
                argv.append(f'{name}={_plain(value)}')
            expected[name] = given[name][-1]
    if 'n' in expected and isinstance(expected['n'], dict):
        if 'x' in expected['n']:
            expected['n'] = Inner(**expected['n'])
        else:
            del expected['n']
    ctx.nontrivial(len(argv) > 1)
    ctx.label('complete' if len(expected) == len(FIELDS) else 'incomplete', 'passthrough' if passthrough else 'cli only')
    kwargs = {
        k: Inner(**v) if k == 'n' and isinstance(v, dict) else v
        for k, v in passthrough.items()
    }
    if isinstance(expected.get('n'), dict):
        expected['n'] = Inner(**expected['n'])
    result = run(app, ['--', *argv], kwargs=kwargs)
    if len(expected) != len(FIELDS):
        ctx.check(
            result.code == 1 and not calls and result.out.strip(),
            f'{argv!r} (missing {sorted(set(FIELDS) - set(expected))}) gives {result!r}',
        )
        names = set(FIELDS) - set(expected)
        ctx.check(
            any(f'path: {name}' in result.out for name in names),
            f'{argv!r}: the message does not name a missing argument {names}: {result.out!r}',
        )
        return
    ctx.check(result.code is None and len(calls) == 1, f'{argv!r} gives {result!r}')
    for name, value in expected.items():
        ctx.check(
            calls[0][name] == value and type(calls[0][name]) is type(value),
            f'{argv!r} with {kwargs!r}: argument {name} is {calls[0][name]!r}, expected {value!r}',
        )
    ctx.check(result.value is calls[0], f'{argv!r}: the result was not returned')


def _plain(value):
    if isinstance(value, dict):
        return '{' + ','.join(f'{k}:{_plain(v)}' for k, v in value.items()) + '}'
    if isinstance(value, list):
        return '[' + ','.join(map(_plain, value)) + ']'
    if value is None:
        return 'null'
    if isinstance(value, bool):
        return str(value).lower()
    if isinstance(value, str):
        return text.quoted(value, '"')
    return repr(value)


def direct(case, ctx):
    """A function that receives a config can be called with one directly: the command line is of no concern."""
    args, kwargs, argv, raises, late = case
    calls = []

    def body(*args, **kwargs):
        calls.append((args, kwargs))
        if raises:
            raise KeyError('own')
        return calls
    app = marsh.main(config=Inner)(body) if late else marsh.main(body, config=Inner)
    if not args and not kwargs:
        ctx.reject()
    given = [Inner(a) for a in args], {name: Inner(a) for name, a in kwargs.items()}
    ctx.nontrivial(bool(argv))
    ctx.label('positional' if args else 'named', 'raises' if raises else 'returns')
    try:
        result = run(app, argv, args=given[0], kwargs=given[1])
    except KeyError as err:
        ctx.check(raises and err.args == ('own',), f'{case!r} raises {err!r}')
    else:
        ctx.check(not raises and result.code is None and result.value is calls, f'{case!r}: {result!r}')
    ctx.check(
        len(calls) == 1
        and len(calls[0][0]) == len(given[0]) and all(a is b for a, b in zip(calls[0][0], given[0]))
        and set(calls[0][1]) == set(kwargs) and all(calls[0][1][k] is given[1][k] for k in kwargs),
        f'{case!r}: called with {calls!r}',
    )


# ------------------------------------------------------------------- output, config-out

def output(case, ctx):
    ops, directory, config_out, raises, meta = case
    base = ctx.scratch()
    argv, model = model_argv(ops, base)
    if meta:
        argv.insert(0, '_meta_.secret=1')
    if not isinstance(model, dict):
        if argv and not (isinstance(model, str) and model == '???'):
            ctx.reject()
        model = {}
    if _interpolates(model) or _has_missing(model) or _missing_key(model):
        ctx.reject()
    config = _drop_meta(model)
    seen = []
    home = os.path.join(base, 'home')
    os.makedirs(home)

    @marsh.main
    def app(**kwargs):
        seen.append((os.getcwd(), kwargs, sorted(os.listdir('.'))))
        with open('made-by-app', 'w'):
            pass
        if raises == 'error':
            raise ZeroDivisionError('app')
        if raises == 'exit':
            sys.exit(7)
        return 'value'

    options = []
    if directory is not None:
        options += ['-o'] + ([directory] if directory else [])
    if config_out is not None:
        options += ['--config-out'] + ([config_out] if config_out else [])
    full = [*options, '--', *argv]
    before = os.path.realpath(base)
    now = datetime.datetime.now(datetime.timezone.utc)
    result = None
    ctx.label(f'output {directory!r}', f'config-out {config_out!r}', f'app: {raises}')
    ctx.nontrivial(directory is not None or config_out is not None)
    # the time of the output directory is the same everywhere
    zone = ('UTC0', 'AAA-9', 'BBB+7:30')[len(' '.join(full)) % 3]
    ctx.label(f'time zone {zone}')
    own = {'HOME': home, 'TZ': zone}
    previous = {name: os.environ.get(name) for name in own}
    os.environ.update(own)
    time.tzset()
    try:
        result = run(app, full, cwd=base)
    except ZeroDivisionError:
        ctx.check(raises == 'error', 'unexpected ZeroDivisionError')
    finally:
        for name, value in previous.items():
            if value is None:
                del os.environ[name]
            else:
                os.environ[name] = value
        time.tzset()
    if result is not None:
        ctx.check(
            (result.code, result.value) == {'no': (None, 'value'), 'exit': (7, None)}.get(raises),
            f'{full!r} gives {result!r}',
        )
    else:
        ctx.check(raises == 'error', 'nothing returned')
    ctx.check(len(seen) == 1, f'{full!r}: called {len(seen)} times, {result!r}')
    cwd, kwargs, listing = seen[0]
    ctx.check(same_element(kwargs, config), f'{full!r}: the function got {kwargs!r}, expected {config!r}')
    cwd = os.path.realpath(cwd)
    if directory is None:
        ctx.check(cwd == before, f'{full!r}: ran in {cwd!r}')
    elif directory:
        allowed = {
            os.path.realpath(os.path.join(base, when.strftime(directory)))
            for when in (now, datetime.datetime.now(datetime.timezone.utc))
        }
        ctx.check(cwd in allowed, f'{full!r}: ran in {cwd!r}, expected {allowed!r}')
    else:
        rel = os.path.relpath(cwd, before)
        try:
            when = datetime.datetime.strptime(rel, 'jobs/%Y%m%dT%H%M%S.%fZ')
        except ValueError:
            ctx.fail(f'{full!r}: ran in {rel!r}')
        delta = abs((when.replace(tzinfo=datetime.timezone.utc) - now).total_seconds())
        ctx.check(delta < 600, f'{full!r}: the output directory {rel!r} is not the current time')
    if config_out:
        path = os.path.join(cwd, config_out)
        ctx.check(os.path.exists(path) and config_out in listing or os.sep in config_out, f'{full!r}: {path!r} was not written first')
        with open(path) as fp:
            raw = fp.read()
        got = json.loads(raw) if path.endswith('.json') else yaml.safe_load(raw)
        ctx.check(
            same_element({} if got == '???' or got is None else got, config),
            f'{full!r} wrote {raw!r}, the configuration is {config!r}',
        )
        if config:
            again = Called()
            second = run(again.kwargs_app(), ['-c', cwd, '@' + text.bare(config_out, ',')])
            ctx.check(
                second.code is None and same_element(again.calls[0], config),
                f'the configuration written by {full!r} gives {second!r} {again.calls!r}',
            )
    elif config_out == '' and result is not None:
        got = yaml.safe_load(result.out)
        ctx.check(
            same_element({} if got == '???' or got is None else got, config),
            f'{full!r} wrote {result.out!r}, the configuration is {config!r}',
        )


# ------------------------------------------------------------------- failing command lines

def _make_error(kind, word, number):
    """argv of a command line that can not be satisfied by ``f(i: int, l: List[int] = [], n: Inner = ...)``."""
    return {
        'no operator': [word],
        'malformed list': [f'i={number}', 'l=[1'],
        'unclosed quote': [f'i="{word}'],
        'text after value': [f'l=[1] {word}'],
        'wrong type': [f'i={word}q'],
        'wrong nested type': [f'i={number}', f'n.x={word}q'],
        'wrong item type': [f'i={number}', f'l=[1,{word}q]'],
        'unknown argument': [f'i={number}', f'zz{word}=1'],
        'unknown nested field': [f'i={number}', f'n={{x:1,zz{word}:2}}'],
        'missing argument': ['l=[1]'],
        'missing nested': [f'i={number}', 'n={}'],
        'missing value': ['i=???'],
        'remove absent': [f'i={number}', f'~zz{word}'],
        'set below scalar': [f'i={number}', f'i.{word}=1'],
        'bad index': [f'i={number}', 'l=[1]', f'l.{5 + abs(number) % 9}=1'],
        'no such config': [f'i={number}', f'@no_{word}'],
        'bad config': [f'i={number}', '@bad'],
        'list config': ['i=1', '@bad.json'],
        'undecodable config': ['i=1', '@binary.yaml'],
        'unsupported config': ['i=1', '@notes.txt'],
        'scalar root': [f'.={number}'],
        'too many positional': [f'.=[{number},[1],{{x:1}},4]'],
        'null': ['i=null'],
        'dangling interpolation': ['i=${zz' + word + '}'],
        'nested interpolation': [f'i={number}', 'l=["${zz' + word + '.x}"]'],
        'malformed interpolation': [f'i={number}', 'l="${' + word + '"'],
        'cyclic interpolation': ['i=${l}', 'l=${i}'],
        'interpolation in config': ['i=1', '@inter.yaml'],
    }[kind]


KINDS = [
    'no operator', 'malformed list', 'unclosed quote', 'text after value', 'wrong type', 'wrong nested type',
    'wrong item type', 'unknown argument', 'unknown nested field', 'missing argument', 'missing nested',
    'missing value', 'remove absent', 'set below scalar', 'bad index', 'no such config', 'bad config', 'list config',
    'undecodable config', 'unsupported config', 'scalar root', 'too many positional', 'null', 'dangling interpolation',
    'nested interpolation', 'malformed interpolation', 'cyclic interpolation', 'interpolation in config',
]


def errors(case, ctx):
    kind, word, number, good, full_error, as_config, out_dir = case
    base = ctx.scratch()
    with open(os.path.join(base, 'bad.yaml'), 'w') as fp:
        fp.write('a: [1')
    with open(os.path.join(base, 'inter.yaml'), 'w') as fp:
        fp.write('l: ${zz.zz}')
    with open(os.path.join(base, 'bad.json'), 'w') as fp:
        fp.write('{"a": ')
    with open(os.path.join(base, 'binary.yaml'), 'wb') as fp:
        fp.write(b'a: \xff\xfe\x00')
    with open(os.path.join(base, 'notes.txt'), 'w') as fp:
        fp.write('a: 1')
    argv = _make_error(kind, word, number)
    called = []

    @dataclasses.dataclass
    class Config:
        i: int
        l: List[int] = dataclasses.field(default_factory=list)
        n: Optional[Inner] = None

    if as_config:
        @marsh.main(config=Config)
        def app(config):
            called.append(config)
    else:
        @marsh.main
        def app(i: int, l: List[int] = [], n: Inner = Inner(1)):
            called.append(i)
    options = ['-o', 'outdir'] if out_dir else []
    ctx.nontrivial()
    ctx.label(kind, 'full error' if full_error else 'message')
    full = [*options, '--', *argv]
    if full_error:
        os.environ['MARSH_FULL_ERROR'] = '1'
    try:
        try:
            result = run(app, full, cwd=base)
        except (marsh.errors.MarshError, omegaconf.errors.OmegaConfBaseException):
            ctx.check(full_error, f'{full!r} ({kind}) raised instead of printing a message')
            ctx.check(not called, f'{full!r} ({kind}): the function was called')
            return
    finally:
        os.environ.pop('MARSH_FULL_ERROR', None)
    ctx.check(not called, f'{full!r} ({kind}): the function was called with {called!r}')
    ctx.check(not full_error, f'{full!r} ({kind}) did not raise with MARSH_FULL_ERROR: {result!r}')
    ctx.check(
        result.code == 1 and result.out.strip() and 'Traceback' not in result.err + result.out,
        f'{full!r} ({kind}) gives {result!r}',
    )


def interpolation(case, ctx):
    """Interpolations (also into _meta_) are resolved once all overrides are applied."""
    value, other, where, order = case
    argv = [f'_meta_.v={_plain(value)}', f'a={_plain(other)}', 'b=${_meta_.v}', 'c.d=[${a},x]', 'e="<${_meta_.t}>"', '_meta_.t=tt']
    if order:
        argv.reverse()
    argv.append('a=' + _plain(where))
    called = Called()
    result = run(called.kwargs_app(), ['--', *argv])
    ctx.nontrivial()
    expected = {'a': where, 'b': value, 'c': {'d': [where, 'x']}, 'e': '<tt>'}
    ctx.check(result.code is None, f'{argv!r} gives {result!r}')
    ctx.check(
        same_element(called.calls[0], expected),
        f'{argv!r}: the function got {called.calls[0]!r}, expected {expected!r}',
    )


def bypass(case, ctx):
    """Without a config type the caller's arguments are defaults; with one they bypass the command line."""
    caller, cli, as_config, how = case
    seen = []
    if as_config:
        @marsh.main(config=Inner)
        def app(*args, **kwargs):
            seen.append((args, kwargs))
            return 1
        args = tuple(caller.values()) if how != 'keywords' else ()
        kwargs = dict(caller) if how != 'positional' else {}
        result = run(app, ['--', *(f'{k}={v}' for k, v in cli.items())], args=args, kwargs=kwargs)
        ctx.nontrivial(bool(caller))
        if caller:
            ctx.label(how)
            ctx.check(
                result.code is None and seen == [(args, kwargs)] and result.value == 1,
                f'called with {args!r} {kwargs!r}: {seen!r} {result!r}',
            )
        return

    @marsh.main
    def app(a: int = 1, b: int = 2, *, c: int = 3):
        seen.append({'a': a, 'b': b, 'c': c})
        return 1
    result = run(app, ['--', *(f'{k}={v}' for k, v in cli.items())], kwargs=dict(caller))
    ctx.nontrivial(bool(caller) and bool(cli))
    expected = {**{'a': 1, 'b': 2, 'c': 3}, **caller, **cli}
    ctx.check(seen == [expected], f'cli {cli!r}, called with {caller!r}: got {seen!r} {result!r}, expected {expected!r}')


# ------------------------------------------------------------------- any command line

def anything(case, ctx):
    """Whatever the command line: the function is called once, or there is a message and an exit status."""
    options, overrides, how, separator = case
    base = ctx.scratch()
    os.makedirs(os.path.join(base, 'dir.yaml'))
    os.makedirs(os.path.join(base, 'sub'))
    for name, content in FILES.items():
        with open(os.path.join(base, name), 'w') as fp:
            fp.write(content)
    called = []

    @dataclasses.dataclass
    class Config:
        a: int = 1
        b: List[int] = dataclasses.field(default_factory=list)
        n: Optional[Inner] = None

    if how == 'config':
        @marsh.main(config=Config)
        def app(config):
            called.append(config)
            return 'returned'
    elif how == 'any':
        @marsh.main(config=Any)
        def app(config):
            called.append(config)
            return 'returned'
    elif how == 'keywords':
        @marsh.main
        def app(**kwargs):
            called.append(kwargs)
            return 'returned'
    else:
        @marsh.main
        def app(a: int = 1, b: List[int] = [], *args: str, n: Optional[Inner] = None):
            called.append(a)
            return 'returned'
    argv = [arg for option in options for arg in option]
    usage = not separator and any(arg.startswith('-') for arg in overrides)
    argv += ['--', *overrides] if separator else overrides
    result = run(app, argv, cwd=base)
    ctx.label(f'exit {result.code!r}', *(option[0] for option in options))
    ctx.nontrivial(bool(overrides) and result.code in (None, 1))
    if result.code is None:
        ctx.check(len(called) == 1 and result.value == 'returned', f'{argv!r}: called with {called!r}, {result!r}')
        return
    ctx.check(not called, f'{argv!r}: the function was called with {called!r}, {result!r}')
    codes = [1]
    if usage or any(option[0] in ('-h', '--help') for option in options):
        codes.append(0)
    if usage or any(option[0] == '-x' for option in options) or argv and not separator:
        codes.append(2)
    ctx.check(
        result.code in codes and (result.out + result.err).strip() and 'Traceback' not in result.err + result.out,
        f'{argv!r} gives {result!r}',
    )


FILES = {
    'good.yaml': 'a: 2\nb: [1, 2]\n', 'list.yaml': '[1, [2]]', 'scalar.json': '5', 'empty.yaml': '', 'bad.yaml': 'a: [1',
    'bad.json': '{', 'notes.txt': 'a: 1', 'twice.yaml': 'a: 1', 'twice.json': '{}', 'inter.yaml': 'a: ${b.0}',
    'keys.yaml': '1: 2\n[1, 2]: 3\n', 'dates.yaml': 'a: 2020-01-01\nb: !!binary aGk=\n', 'tag.yaml': 'a: !foo 1',
    'alias.yaml': 'a: &x {b: 1}\nc: [*x, *x]', 'two.yaml': 'a: 1\n---\na: 2',
}
_NAMES = st.sampled_from(sorted(FILES) + [name.split('.')[0] for name in sorted(FILES)] + ['no', 'dir', 'dir.yaml', 'sub', '.', '..', '~', ''])
_PATHS = gen.pick(
    st.sampled_from(['', '.', 'a', 'b', 'n', 'n.x', 'b.0', 'b.-1', 'b.7', 'c', 'a.b', '..a', "''", '"a"', '0', '1', 'args', 'n.y.0', '_meta_', '_meta_.v']),
    gen.text(alphabet='ab0.\'"\\~@=+[]{}(),: -', max_size=4),
)
_VALUES = gen.pick(
    st.sampled_from([
        '', '1', '[1]', '[]', '{}', '{x:1}', 'null', '???', '"a"', 'abc', '1.5', '[1,2', '}', '${a}', '${b.0}', '${', '[${a}]', '${..a}',
        '${.a}', '"${a}${b}"', '${_meta_.v}', '{x:${a}}', '${n.x}', '$', '\\${a}', '${unknown:1}', '${a.b.c}', '{${a}:1}', '{a:1,a:2}', 'é',
        '\udc80',
    ]),
    gen.text(alphabet='ab01.\'"\\~@=+[]{}(),:$ -', max_size=6),
)


def overrides():
    override = gen.pick(
        st.tuples(_PATHS, st.sampled_from(['=', '=', '+=']), _VALUES).map(''.join),
        st.tuples(_PATHS, st.sampled_from(['@', '+@']), gen.pick(_NAMES, st.lists(_NAMES, max_size=3).map(lambda n: f'[{",".join(n)}]'))).map(''.join),
        _PATHS.map(lambda path: '~' + path), st.tuples(_PATHS, _VALUES).map(''.join),
    )
    return st.lists(override, max_size=4)


_OPTIONS = st.lists(gen.pick(
    st.tuples(st.just('-o'), st.sampled_from(['out', 'notes.txt', 'notes.txt/x', 'sub', '%Y', '.', '..//sub'])).map(
        lambda o: (o[0], os.path.join('.', o[1]) if '..' not in o[1] else 'sub')),
    st.tuples(st.just('--config-out'), st.sampled_from(
        ['c.yaml', 'c.json', 'c.txt', 'c', 'no/c.yaml', 'notes.txt/c.yaml', 'dir.yaml', '-', 'good.yaml', '.yaml'])),
    st.tuples(st.just('-c'), st.sampled_from(['.', 'no', 'notes.txt', 'sub', 'dir.yaml'])),
    st.tuples(st.sampled_from(['-h', '--help']), gen.pick(_PATHS.filter(lambda p: not p.startswith('-')))),
    st.just(('-x',)),
), max_size=2)


def logs(case, ctx):
    """setup_logging adds the two options, and sets up the root logger before the call."""
    level, form, enabled, message_level, preset = case
    root = logging.getLogger()
    handlers, before = list(root.handlers), root.level
    root.handlers[:] = []
    root.setLevel(logging.WARNING)
    seen = []

    @marsh.main(setup_logging=enabled)
    def app(a: int = 1):
        seen.append((a, root.level, len(root.handlers)))
        logging.getLogger('some').log(message_level, 'text')
    argv = []
    if level is not None:
        argv += ['--logging-level', level]
    if form is not None:
        argv += ['--logging-format', form]
    handler = logging.NullHandler()
    if preset:
        root.addHandler(handler)
    ctx.label('enabled' if enabled else 'not enabled', f'level {level}')
    ctx.nontrivial(bool(argv))
    try:
        result = run(app, [*argv, 'a=2'])
    finally:
        root.handlers[:] = handlers
        root.setLevel(before)
    if not enabled and argv or level not in (None, *LEVELS):
        ctx.check(result.code == 2 and not seen and result.err.strip(), f'{argv!r} (set up: {enabled}) gives {result!r}')
        return
    ctx.check(result.code is None and len(seen) == 1 and seen[0][0] == 2, f'{argv!r} gives {result!r}')
    if not enabled or preset:
        ctx.check(seen[0][1:] == (logging.WARNING, int(preset)), f'logging was set up: {seen!r}')
        ctx.check('text' not in result.out, f'{result!r}')
        return
    value = LEVELS[level or 'INFO']
    ctx.check(seen[0][1:] == (value, 1), f'{argv!r}: the level is {seen!r}, expected {value}')
    lines = result.err.splitlines()
    if message_level < value:
        ctx.check(not lines, f'{argv!r} logs {result.err!r} at level {message_level}')
        return
    expected = {'%(message)s': 'text', '%(levelname)s/%(name)s': f'{logging.getLevelName(message_level)}/some'}.get(form)
    ctx.check(
        len(lines) == 1 and (lines[0] == expected if expected else lines[0].endswith(f'{logging.getLevelName(message_level)}: text')),
        f'{argv!r} logs {result.err!r}',
    )


LEVELS = {'DEBUG': 10, 'INFO': 20, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50}


_KEYS = gen.pick(gen.simple_key(), gen.simple_key(), gen.field(), st.just('_meta_'))
_NO_INTERPOLATION = gen.text(alphabet='abc XY01.\\\'"/[]{}(),:=+@~?_-\té€')
OPS = st.lists(
    st.tuples(
        st.sampled_from(['=', '=', '=', '+=', '~', '@', '+@']), elem.picks(3, edges=True),
        gen.pick(st.just([]), elem.extra_fields(1), st.tuples(st.tuples(_KEYS, st.just('escape'))).map(list)),
        text.styled_elements(max_leaves=4, keys=gen.pick(gen.simple_key(), gen.field())), st.integers(0, 3),
    ),
    min_size=1, max_size=6,
)

_WORDS = st.text(alphabet='abcxyz', min_size=1, max_size=5)
_TYPED = {
    'i': st.integers(-5, 2**70),
    's': gen.text(alphabet='abc 01=+@~.,[]{}\'"\\-', max_size=6),
    'f': gen.finite_floats,
    'b': st.booleans(),
    'l': st.lists(st.integers(-5, 10**9), max_size=3),
    'd': st.dictionaries(st.text(alphabet='abc', min_size=1, max_size=2), st.integers(0, 9), max_size=3),
    'o': st.one_of(st.none(), st.integers(-5, 99)),
    'n': st.fixed_dictionaries({'x': st.integers(-5, 99)}, optional={'y': st.lists(gen.finite_floats, max_size=2)}),
}

SUBS = [
    Sub('direct', lambda: st.tuples(
        st.lists(st.integers(0, 3), max_size=2), st.dictionaries(st.sampled_from(['config', 'x', 'fn', 'args']), st.integers(0, 3), max_size=2),
        st.lists(st.sampled_from(['x=1', '--help', '-x', '[', 'y=[1]', '-c']), max_size=2), st.booleans(), st.booleans(),
    ), direct, 400, 10000),
    Sub('delivery', lambda: st.tuples(OPS, st.booleans(), st.booleans()), delivery, 3000, 100000),
    Sub(
        'typed',
        lambda: st.tuples(
            gen.pick(
                st.fixed_dictionaries({}, optional={k: st.lists(s, min_size=1, max_size=2) for k, s in _TYPED.items()}),
                st.fixed_dictionaries({k: st.lists(s, min_size=1, max_size=2) for k, s in _TYPED.items()}),
                st.fixed_dictionaries(
                    {k: st.lists(_TYPED[k], min_size=1, max_size=2) for k in 'isn'},
                    optional={k: st.lists(_TYPED[k], min_size=1, max_size=2) for k in 'fbldo'},
                ),
            ),
            st.permutations(sorted(FIELDS)),
            gen.pick(st.just({}), st.fixed_dictionaries({}, optional=_TYPED)),
            st.booleans(), st.booleans(),
        ),
        typed, 2000, 60000,
    ),
    Sub(
        'output',
        lambda: st.tuples(
            st.lists(
                st.tuples(
                    st.sampled_from(['=', '=', '+=', '@']), elem.picks(2, edges=True),
                    st.tuples(st.tuples(gen.simple_key(), st.just('escape'))).map(list),
                    text.styled_elements(max_leaves=3, keys=gen.simple_key()), st.integers(0, 2),
                ),
                max_size=3,
            ),
            st.sampled_from([None, '', 'out', 'a/b/c', '%Y/x', 'at%H%z', 'run%%1', 'q %d', 'out', 'a/../b', '~', '~/x', '$HOME/y', '*', 'a b', 'é']),
            st.sampled_from([None, '', 'c.yaml', 'c.json', 'c.yml', 'c.yaml']),
            st.sampled_from(['no', 'no', 'error', 'exit']), st.booleans(),
        ),
        output, 1500, 40000,
    ),
    Sub(
        'errors',
        lambda: st.tuples(
            st.sampled_from(KINDS), _WORDS, st.integers(-9, 99), st.none(), st.sampled_from([False, False, False, True]),
            st.booleans(), st.booleans(),
        ),
        errors, 1200, 20000,
    ),
    Sub(
        'interpolation',
        lambda: st.tuples(
            gen.pick(st.integers(-5, 99), st.lists(st.integers(0, 5), max_size=2), st.text(alphabet='abc', min_size=1, max_size=3)),
            st.integers(0, 9), st.integers(0, 9), st.booleans(),
        ),
        interpolation, 200, 5000,
    ),
    Sub(
        'bypass',
        lambda: st.tuples(
            st.fixed_dictionaries({}, optional={'a': st.integers(0, 9), 'b': st.integers(10, 19), 'c': st.integers(20, 29)}),
            st.fixed_dictionaries({}, optional={'a': st.integers(30, 39), 'b': st.integers(40, 49), 'c': st.integers(50, 59)}),
            st.booleans(), st.sampled_from(['positional', 'keywords', 'both']),
        ),
        bypass, 300, 5000,
    ),
    Sub(
        'anything',
        lambda: st.tuples(
            gen.pick(st.just([]), _OPTIONS), overrides(), st.sampled_from(['config', 'any', 'keywords', 'signature']),
            st.sampled_from([True, True, True, False]),
        ),
        anything, 3000, 100000,
    ),
    Sub(
        'logging',
        lambda: st.tuples(
            st.sampled_from([None, *LEVELS, 'debug', 'LOUD']), st.sampled_from([None, '%(message)s', '%(levelname)s/%(name)s']),
            st.sampled_from([True, True, True, False]), st.sampled_from([10, 20, 30, 40, 50]), st.sampled_from([False, False, True]),
        ),
        logs, 200, 2000,
    ),
]
