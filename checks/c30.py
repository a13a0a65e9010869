"""C30: what errors tell about a failure."""
import dataclasses
import difflib
import os
import re
import typing

import marsh
from hypothesis import strategies as st

from vlib import containers, gen
from vlib import types as t
from vlib.core import Sub
from vlib.oracle import ref_escape, ref_split

PROPERTY = 'C30'
RULE = (
    'Cases are types with elements that do not fit, histories of errors whose paths are extended while they are '
    'raised, lists of known names with an unknown one, and code of users that raises at a generated place. '
    'Non-trivial: the error carries an element and a type, or has a path of two fields, or suggests a name, or passes '
    'at least one level above the place at which it was raised.'
)


# the element and the type of an error

def _parts(element):
    yield element
    if t.is_map(element):
        for key, value in element.items():
            yield key
            yield from _parts(value)
    elif t.is_seq(element):
        for value in element:
            yield from _parts(value)


def _equal(a, b):
    # texts of primitives are as good as the primitives
    return a is b or a == b or t.is_primitive(a) and t.is_primitive(b) and str(a) == str(b)


def reproduce(case, ctx):
    """An error's element does not fit its type."""
    spec, element = case
    model = t.Model(spec)
    try:
        status, _ = model.ref(element)
    except t.Unspecified:
        ctx.reject()
    if status == 'ok':
        ctx.reject()
    where = f'{model.type} from {element!r}'
    try:
        marsh.unmarshal(model.type, element)
    except marsh.errors.UnmarshalError as caught:
        err = caught
    else:
        ctx.fail(f'{where}: no error')
    missing = isinstance(err, marsh.errors.MissingValueError)
    text = str(err)
    ctx.label('missing' if missing else 'not missing', 'at the root' if not err.path else 'below the root')
    if missing:
        ctx.check(marsh.utils.is_missing(err.element) or marsh.element.has_missing(err.element), f'{where}: {err!r} holds the element {err.element!r}')
    else:
        ctx.check(not t.is_missing(err.type), f'{where}: {err!r} does not tell the type')
        ctx.check(not t.is_missing(err.element), f'{where}: {err!r} does not tell the element')
    if t.is_missing(err.type):
        return
    ctx.nontrivial()
    if not t.is_missing(err.element):
        ctx.check(
            any(_equal(err.element, part) for part in _parts(element)),
            f'{where}: the error {err!r} is about the element {err.element!r}, which is no part of it',
        )
        value = element
        for field in ref_split(err.path):
            # keys of mappings that do not fit are located at their value
            if t.is_map(value) and field in value and not isinstance(err.element, str):
                value = value[field]
            else:
                break
        else:
            ctx.label('exact place')
            # (empty keys can not be part of a path)
            ctx.check(
                _equal(err.element, value) or '' in _parts(element),
                f'{where}: the error at {err.path!r} is about the element {err.element!r}',
            )
    ctx.check(marsh.utils.get_type_name(err.type) in text, f'{where}: {text!r} does not name the type {err.type}')
    try:
        value = marsh.unmarshal(err.type, err.element)
    except marsh.errors.UnmarshalError as caught:
        again = caught
    else:
        ctx.fail(f'{where}: the error {err!r} is about {err.element!r} as {err.type}, which gives {value!r}')
    ctx.check(
        not again.path and type(again) is type(err) and (missing or again.args == err.args),
        f'{where}: the error {err!r} is about {err.element!r} as {err.type}, which fails with {again!r}',
    )
    shown = err.pretty(element=True)
    ctx.check(
        t.is_missing(err.element) or str(err.element) in shown,
        f'{where}: {shown!r} does not show the element {err.element!r}',
    )


# the texts of errors

KINDS = {
    'MarshError': marsh.errors.MarshError,
    'PathError': marsh.errors.PathError,
    'UnmarshalError': marsh.errors.UnmarshalError,
    'MissingValueError': marsh.errors.MissingValueError,
    'MarshalError': marsh.errors.MarshalError,
    'ConfigFileError': marsh.errors.ConfigFileError,
}
OTHERS = {'ValueError': ValueError, 'OSError': OSError, 'RuntimeError': RuntimeError}
TYPES = {'int': int, 'list': typing.List[int], 'optional': typing.Optional[str], 'class': st.SearchStrategy}


def _make(kind, message, path, type_, element):
    if kind in OTHERS:
        return OTHERS[kind](message)
    if kind in ('UnmarshalError', 'MissingValueError'):
        kwargs = {}
        if type_ is not None:
            kwargs['type'] = TYPES[type_]
        if element is not None:
            kwargs['element'] = element
        return KINDS[kind](message, path=path, **kwargs)
    return KINDS[kind](message, path=path)


def text(case, ctx):
    kind, message, fields, steps, chain, type_, element = case
    delimiter = '/' if kind == 'ConfigFileError' else '.'
    err = _make(kind, message, delimiter.join(ref_escape(field, delimiter) for field in fields), type_, element)
    expected = list(fields)
    for step, field in steps:
        if step == 'append':
            err.append(field)
            expected.append(field)
        elif step == 'prepend':
            err.prepend(field)
            expected.insert(0, field)
        else:
            try:
                with marsh.errors.prepend(field):
                    raise err
            except marsh.errors.MarshError as caught:
                ctx.check(caught is err, f'{err!r} is replaced by {caught!r}')
            if str(field):
                expected.insert(0, str(field))
        ctx.check(
            ref_split(err.path, delimiter) == tuple(expected),
            f'{case!r}: path {err.path!r} after {step} {field!r}, expected fields {expected}',
        )
    ctx.label(kind, f'chain of {len(chain)}')
    ctx.nontrivial(len(expected) > 1 or bool(chain))
    # a chain of causes
    root = None
    cause = err
    for name, words in chain:
        cause.__cause__ = _make(name, words, '', None, None)
        cause = cause.__cause__
        if name in OTHERS and root is None:
            root = words
    plain, full = err.pretty(), err.pretty(cause=True)
    for shown in (plain, full, str(err), repr(err)):
        ctx.check(message in shown, f'{shown!r} lacks the message {message!r}')
        ctx.check(not expected or f'path: {err.path}' in shown, f'{shown!r} lacks the path {err.path!r}')
        ctx.check(bool(expected) or 'path:' not in shown, f'{shown!r} shows a path')
        if isinstance(err, marsh.errors.UnmarshalError):
            ctx.check(
                f'type: {marsh.utils.get_type_name(TYPES[type_])}' in shown if type_ else 'type:' not in shown,
                f'{shown!r} for the type {type_}',
            )
    for shown in (full, str(err), repr(err)):
        ctx.check(
            f'cause: {root}' in shown if root is not None else 'cause:' not in shown,
            f'{shown!r}: expected the cause {root!r}',
        )
    ctx.check('cause:' not in plain, f'{plain!r} shows a cause')
    ctx.check(repr(err).startswith(type(err).__name__), f'{err!r} for a {type(err)}')
    if isinstance(err, marsh.errors.UnmarshalError):
        shown = err.pretty(element=True)
        ctx.check(
            f'element: {element}' in shown if element is not None and not t.is_missing(element) else 'element:' not in shown,
            f'{shown!r} for the element {element!r}',
        )
        ctx.check('element:' not in plain, f'{plain!r} shows the element')
        ctx.check(t.is_missing(err.element) if element is None else err.element == element, 'element', err.element)


ARGS = ['', 'Message', 'a, b', 0, 1, None, False, True, 0.0, [], ['x'], {}, (), 'é', ValueError('inner'), int]


def arguments(case, ctx):
    """The text of an error has all it was given, in order."""
    kind, picks, fields = case
    delimiter = '/' if kind == 'ConfigFileError' else '.'
    given = [ARGS[i] for i in picks]
    path = delimiter.join(ref_escape(field, delimiter) for field in fields)
    err = KINDS[kind](*given, path=path)
    expected = ', '.join(str(arg) for arg in given) + (f'\n\tpath: {path}' if path else '')
    ctx.nontrivial(len(given) > 1)
    ctx.label(kind, f'{len(given)} arguments')
    ctx.check(err.args == tuple(given), 'arguments', err.args)
    for shown in (err.pretty(), err.pretty(cause=True), str(err)):
        ctx.check(shown == expected, f'{kind}{tuple(given)!r} at {path!r} is shown as {shown!r}')
    name = type(err).__name__
    ctx.check(repr(err) == (f'{name}: {expected}' if expected else name), f'{kind}{tuple(given)!r} is shown as {err!r}')


def _argument_cases():
    return st.tuples(
        st.sampled_from([kind for kind in KINDS if kind not in ('UnmarshalError', 'MissingValueError')]),
        st.lists(st.integers(0, len(ARGS) - 1), max_size=4), st.lists(gen.field(), max_size=2),
    )


_WORDS = st.sampled_from(['Message', 'Some words', 'a, b', 'é €', '{}', '%s'])


def _text_cases():
    fields = gen.field()
    return st.tuples(
        st.sampled_from(list(KINDS)), _WORDS, st.lists(fields, max_size=2),
        st.lists(st.one_of(
            st.tuples(st.sampled_from(['append', 'prepend', 'raise']), fields),
            st.tuples(st.just('raise'), st.one_of(st.just(''), st.integers(0, 12))),
        ), max_size=4),
        st.lists(st.tuples(st.sampled_from([*KINDS, *OTHERS]), st.sampled_from(['First', 'Second', 'Third one'])), max_size=3),
        st.none() | st.sampled_from(list(TYPES)),
        st.none() | gen.elements(max_leaves=3),
    )


# suggestions

SUGGESTION = re.compile(r'did you mean "(.*)"\?', re.DOTALL)


def _ratio(a, b):
    return max(difflib.SequenceMatcher(None, a, b).ratio(), difflib.SequenceMatcher(None, b, a).ratio())


def _one_edit(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(b) - len(a) > 1 or a == b:
        return False
    for i in range(len(b)):
        if len(a) < len(b):
            if a == b[:i] + b[i + 1:]:
                return True
        elif a[:i] == b[:i] and a[i + 1:] == b[i + 1:]:
            return True
    return False


def _signature(names, star):
    parameters = [f'{name}: int = 0' for name in names]
    if 'args' in star:
        parameters.append('*more_values: int')
    scope = {}
    exec(f'def function({", ".join(parameters)}):\n    pass', scope)
    return scope['function']


def _raised(error, function, *args, **kwargs):
    try:
        function(*args, **kwargs)
    except error as err:
        return err
    return None


def suggest(case, ctx):
    kind, names, unknown = case
    if unknown in names or kind == 'literal' and any(name.lower() in (unknown.lower(), 'none', 'null') for name in names):
        ctx.reject()
    if not unknown or unknown == '???':
        ctx.reject()
    path = ref_escape(unknown)
    accepted = list(names)
    error = marsh.errors.UnmarshalError
    if kind == 'dataclass':
        type_ = dataclasses.make_dataclass('C', [(name, int, 0) for name in names])
        err = _raised(error, marsh.unmarshal, type_, {unknown: 1})
    elif kind == 'function':
        type_ = _signature(names, 'args')
        err = _raised(error, marsh.unmarshal, type_, {unknown: 1})
    elif kind == 'typeddict':
        type_ = typing.TypedDict('C', {name: int for name in names}, total=False)
        err = _raised(error, marsh.unmarshal, type_, {names[0]: 1, unknown: 1})
    elif kind == 'select':
        type_ = dataclasses.make_dataclass('C', [(name, int, 0) for name in names])
        error = marsh.errors.PathError
        err = _raised(error, marsh.schema.UnmarshalSchema(type_).select, path)
    elif kind == 'literal':
        accepted = list(dict.fromkeys([*names, '12', '345678']))
        if unknown in accepted:
            ctx.reject()
        type_ = typing.Literal[(*names, 12, 345678)]
        try:
            if int(unknown) in (12, 345678):
                ctx.reject()
        except ValueError:
            pass
        err = _raised(error, marsh.unmarshal, type_, unknown)
    elif kind == 'config':
        if not re.fullmatch(r'\w+', unknown, re.ASCII):
            ctx.reject()
        base = ctx.scratch()
        for i, name in enumerate(names):
            with open(os.path.join(base, name + ('.json', '.yaml', '.YML')[i % 3]), 'w') as fp:
                fp.write('{}')
        for name in (f'{unknown}.txt', f'{unknown}_'):
            # no configs
            with open(os.path.join(base, name), 'w') as fp:
                fp.write('{}')
        os.mkdir(os.path.join(base, f'{unknown}.json'))
        error = marsh.errors.ConfigFileError
        if len(names) % 2:
            err = _raised(error, marsh.config.load, unknown, root=base)
        else:
            err = _raised(error, marsh.config.load, os.path.join(base, unknown))
    else:
        class Base:
            pass
        classes = {}
        for name in names:
            classes[name] = type(name, (Base,), {})
        namespace = marsh.namespaces.new('space', Base)
        for name, cls in classes.items():
            namespace.register(name=name)(cls)
        if kind == 'component':
            err = _raised(error, marsh.unmarshal, Base, {'name': unknown})
        elif kind == 'build':
            err = _raised(error, namespace.build, name=unknown)
        elif kind == 'component select':
            error = marsh.errors.PathError
            err = _raised(error, marsh.schema.UnmarshalSchema(Base).select, path)
        elif kind == 'component lookup':
            error = KeyError
            err = _raised(error, lambda: namespace[unknown])
        else:
            error = KeyError
            accepted = list(marsh.namespaces)
            if unknown in accepted:
                ctx.reject()
            err = _raised(error, lambda: marsh.namespaces[unknown])
    ctx.check(err is not None, f'{kind}: {unknown!r} is accepted among {names}')
    message = ' '.join(map(str, err.args))
    ctx.check(kind == 'literal' or unknown in message, f'{kind}: {message!r} does not name {unknown!r}')
    found = SUGGESTION.search(message)
    if kind == 'config':
        # the suggestion is a path
        found = re.search(r'did you mean ".*/([^/]*)"', message)
    ctx.label(kind, 'suggestion' if found else 'no suggestion')
    if found is None:
        for name in accepted:
            ctx.check(
                not (_one_edit(name, unknown) and len(name) >= 4),
                f'{kind}: {message!r} does not suggest {name!r}',
            )
        return
    ctx.nontrivial(len(accepted) > 1)
    name = found.group(1)
    ctx.check(name in accepted, f'{kind}: {message!r} suggests {name!r}, which is not accepted: {accepted}')
    ctx.check(set(name) & set(unknown), f'{kind}: {message!r} suggests a name that has nothing in common')
    best = max(accepted, key=lambda other: _ratio(other, unknown))
    ctx.check(
        _ratio(name, unknown) >= _ratio(best, unknown) - 0.1,
        f'{kind}: {message!r} suggests {name!r} although {best!r} is closer',
    )


_NAME = st.sampled_from([
    'alpha', 'alphas', 'alpine', 'beta', 'betas', 'gamma', 'learning_rate', 'learning_rates', 'lr', 'x', 'value', 'values',
    'val', 'more', 'momentum', 'path', 'paths', 'maths', 'number', 'numbers', 'member', 'width', 'height', 'weight', 'depth',
])


@st.composite
def _suggest_cases(draw):
    names = draw(st.lists(_NAME, min_size=1, max_size=6, unique=True))
    kind = draw(st.sampled_from([
        'dataclass', 'function', 'typeddict', 'select', 'literal', 'component', 'build', 'component select', 'component lookup',
        'namespace', 'config',
    ]))
    how = draw(st.integers(0, 5))
    unknown = draw(st.sampled_from(names)) if how < 4 else draw(_NAME)
    if kind == 'namespace':
        unknown = draw(st.sampled_from(['space', 'spaces', 'pace', 'place', unknown]))
    if how == 5:
        unknown = draw(st.one_of(gen.field(), st.sampled_from(['more_value', 'more_values', '*more_values', 'args'])))
    for _ in range(draw(st.integers(0 if how == 4 else 1, 2)) if how < 5 else 0):
        at = draw(st.integers(0, len(unknown)))
        op = draw(st.sampled_from(['insert', 'replace', 'delete', 'swap']))
        char = draw(st.sampled_from('abehlmpstuxz_9Q'))
        if op == 'insert':
            unknown = unknown[:at] + char + unknown[at:]
        elif op == 'replace':
            unknown = unknown[:at] + char + unknown[at + 1:]
        elif op == 'delete':
            unknown = unknown[:at] + unknown[at + 1:]
        else:
            unknown = unknown[:at] + unknown[at:at + 2][::-1] + unknown[at + 2:]
    return kind, names, unknown


# errors of users

class Boom(Exception):
    pass


def _raiser(kind, message):
    """(type, element, error): unmarshaling the element as the type raises the error."""
    errors = {'Boom': Boom, 'ValueError': ValueError, 'marsh': marsh.errors.UnmarshalError, 'missing': marsh.errors.MissingValueError}
    where, which = kind
    err = errors[which](message)

    def fail(*args, **kwargs):
        raise err

    if where in ('pre', 'post'):
        base = marsh.annotation.PreAnnotation if where == 'pre' else marsh.annotation.Annotation
        annotation = type('Failing', (base,), {'__call__': fail})
        return typing.Annotated[int, annotation()], 5, err
    if where == 'list':
        class L(typing.List[int]):
            __init__ = fail
        return L, [1], err

    class D(typing.Dict[str, int]):
        __init__ = fail
    return D, {'a': 1}, err


def user_errors(case, ctx):
    kind, message, levels = case
    type_, element, err = _raiser(kind, message)
    path = []
    for level in levels:
        if level == 'list':
            type_, element = typing.List[type_], [element]
            path.insert(0, '0')
        elif level == 'tuple':
            type_, element = typing.Tuple[int, type_], [1, element]
            path.insert(0, '1')
        elif level == 'dict':
            type_, element = typing.Dict[str, type_], {'a.b': element}
            path.insert(0, 'a.b')
        elif level == 'optional':
            type_ = typing.Optional[type_]
        elif level == 'annotated':
            type_ = typing.Annotated[type_, 'text']
        else:
            type_, element = dataclasses.make_dataclass('C', [('field', type_)]), {'field': element}
            path.insert(0, 'field')
    ctx.label(*kind, f'{len(levels)} levels')
    ctx.nontrivial(bool(levels))
    try:
        value = marsh.unmarshal(type_, element)
    except marsh.errors.UnmarshalError as caught:
        raised = caught
    else:
        ctx.fail(f'{type_} from {element!r} gives {value!r} instead of raising {err!r}')
    ctx.check(ref_split(raised.path) == tuple(path), f'{type_} from {element!r}: {raised!r} at {raised.path!r}, expected {path}')
    if isinstance(err, marsh.errors.MarshError):
        ctx.check(raised is err, f'{type_} from {element!r}: {err!r} is replaced by {raised!r}')
        return
    chain, cause = [], raised
    while cause is not None:
        chain.append(cause)
        cause = cause.__cause__
    ctx.check(chain[-1] is err, f'{type_} from {element!r}: the causes {chain} do not lead to {err!r}')
    ctx.check(f'cause: {message}' in str(raised), f'{str(raised)!r} lacks the cause {message!r}')


def _user_cases():
    return st.tuples(
        st.tuples(st.sampled_from(['pre', 'post', 'list', 'dict']), st.sampled_from(['Boom', 'ValueError', 'marsh', 'missing'])),
        st.sampled_from(['reason', 'more words', 'é']),
        st.lists(st.sampled_from(['list', 'tuple', 'dict', 'optional', 'annotated', 'dataclass']), max_size=4),
    )


# handling errors

def handle(case, ctx):
    setting, expected, raised, levels = case
    classes = {**KINDS, **OTHERS, 'Exception': Exception, 'KeyError': KeyError, 'Interrupt': KeyboardInterrupt, None: None}
    seen = []
    before = os.environ.pop('MARSH_FULL_ERROR', None)
    if setting is not None:
        os.environ['MARSH_FULL_ERROR'] = setting
    err = classes[raised]('message') if raised else None
    kwargs = {} if expected is None else {'error': classes[expected]}
    class_ = marsh.errors.MarshError if expected is None else classes[expected]
    propagated, done = None, False
    try:
        with marsh.errors.maybe_handle_error(seen.append, **kwargs):
            for _ in range(levels):
                pass
            if err is not None:
                raise err
            done = True
    except BaseException as caught:
        propagated = caught
    finally:
        os.environ.pop('MARSH_FULL_ERROR', None)
        if before is not None:
            os.environ['MARSH_FULL_ERROR'] = before
    handled = err is not None and isinstance(err, class_) and not setting
    ctx.label('handled' if handled else 'not handled')
    ctx.nontrivial(err is not None)
    ctx.check(done == (err is None), 'body')
    ctx.check(
        (propagated is None) if handled or err is None else propagated is err,
        f'{case}: propagated {propagated!r}',
    )
    ctx.check(
        len(seen) == 1 and seen[0] is err if handled else not seen,
        f'{case}: the callback received {seen}',
    )


def _handle_cases():
    return st.tuples(
        st.sampled_from([None, None, '', '1', '0', 'false', ' ']),
        st.sampled_from([None, *KINDS, 'ValueError', 'OSError', 'Exception', 'KeyError']),
        st.sampled_from([None, *KINDS, *OTHERS, 'KeyError', 'Interrupt']),
        st.just(0),
    )


SUBS = [
    Sub('reproduce', lambda: t.typed_elements(t.specs(2)), reproduce, 3000, 100000),
    Sub('containers', lambda: t.typed_elements(containers.specs()), reproduce, 1000, 30000),
    Sub('text', _text_cases, text, 2500, 60000),
    Sub('arguments', _argument_cases, arguments, 500, 10000),
    Sub('suggest', _suggest_cases, suggest, 3000, 60000),
    Sub('user_errors', _user_cases, user_errors, 800, 8000),
    Sub('handle', _handle_cases, handle, 500, 3000),
]
