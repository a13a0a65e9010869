"""C24: caches, lookup tables and lazily stored iterators."""
import collections
import collections.abc
import functools
import gc
import typing
import weakref

import marsh
from hypothesis import strategies as st

from vlib.core import Sub

PROPERTY = 'C24'
RULE = (
    'Sequences of operations. function/method: calls, clear, disable/enable of decorated '
    'functions and methods (all bindings, sizes, typed or not, hashable or not, raising), '
    'in parallel with functools.lru_cache and the plain function. safedict, valuecache: '
    'against association lists (unhashable, colliding, equal keys of different types, NaN). '
    'pool, weaktypes, iterator, hashkey, singleton: against plain models. Non-trivial: '
    'a hit of an existing entry after a mutation, or two interleaved readers.'
)


class Collide:
    """Hashable, always in the same bucket."""

    def __init__(self, name):
        self.name = name

    def __eq__(self, other):
        return isinstance(other, Collide) and other.name == self.name

    def __hash__(self):
        return 1

    def __repr__(self):
        return f'Collide({self.name!r})'


class Items(list):
    pass


NAN = float('nan')
# equal values of different types, equal hashes of different values, unhashable values;
# (a hashable value which equals an unhashable one does not have a defined behaviour)
POOL = [
    1, 1.0, True, 0, False, 2, -1, -2, 'a', 'b', '1', None, (), (1,), (True,), ('a', 1),
    NAN, Collide('a'), Collide('b'), int, str, 2**61 - 1, b'a', typing.List[int],
    [], [1], [1.0], ['a'], [[1]], {}, {'a': 1}, {'a': [1]}, ([],), ([1],), (1, [1]), [NAN],
    collections.OrderedDict(a=1), collections.defaultdict(int, a=1), Items([1]), (1.0, [True]), {1}, bytearray(b'a'),
]
FRESH = {
    # an equal but not identical value
    17: lambda: Collide('a'), 18: lambda: Collide('b'), 25: lambda: [1], 27: lambda: ['a'],
    30: lambda: {'a': 1}, 33: lambda: ([1],), 15: lambda: ('a', int('1')),
    21: lambda: int('2305843009213693951'),
}


def key(index):
    index, fresh = index
    return FRESH[index]() if fresh and index in FRESH else POOL[index]


def keys(indices=range(len(POOL))):
    return st.tuples(st.sampled_from(list(indices)), st.booleans())


def hashable(value):
    try:
        hash(value)
    except TypeError:
        return False
    return True


def alike(a, b, typed=False):
    return (a is b or a == b) and (not typed or type(a) is type(b))


# ----------------------------------------------------------------------------- functions

ARGS = [0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 13, 14, 17, 18, 25, 30, 33]


def call_ops():
    call = st.tuples(
        st.just('call'), st.lists(keys(ARGS), max_size=2),
        st.lists(st.tuples(st.sampled_from(['x', 'y']), keys(ARGS)), max_size=2,
                 unique_by=lambda x: x[0]),
    )
    repeat = st.tuples(st.just('repeat'), st.integers(0, 5))
    return st.lists(
        st.one_of(
            call, call, repeat, repeat, repeat,
            st.tuples(st.sampled_from(['clear', 'disable', 'enable', 'info'])),
            st.tuples(st.sampled_from(['raise ValueError', 'raise TypeError'])),
        ),
        min_size=2, max_size=16,
    )


def function_cases():
    return st.tuples(
        st.sampled_from([None, None, 0, 1, 2, 3, 128]), st.booleans(),
        st.sampled_from([True, True, False]), st.sampled_from(['decorator', 'call', 'pool']),
        call_ops(),
    )


class Plain:
    """The function to cache: records its calls."""

    def __init__(self):
        self.calls = 0
        self.error = None

    def __call__(self, args, kwargs):
        self.calls += 1
        if self.error:
            raise self.error('planned')
        return self.calls, args, kwargs


def make_cached(func, how, **options):
    if how == 'decorator':
        return marsh.utils.cache(**options)(func), None
    if how == 'call':
        return marsh.utils.cache(func, **options), None
    pool = marsh.utils.CachePool()
    return pool.new_callable_cache(func, name='f', **options), pool


def function(case, ctx):
    maxsize, typed, safe, how, ops = case
    plain, reference = Plain(), Plain()

    def func(*args, **kwargs):
        """Documentation."""
        return plain(args, kwargs)

    cached, pool = make_cached(func, how, maxsize=maxsize, typed=typed, safe=safe)
    ctx.check(cached.__name__ == 'func' and cached.__doc__ == 'Documentation.', 'wraps')
    ctx.check(cached.__wrapped__ is func, '__wrapped__')
    lru = functools.lru_cache(maxsize=maxsize, typed=typed)(
        lambda *args, **kwargs: reference(args, kwargs))
    disabled = False
    calls = []
    for op in ops:
        if op[0] == 'clear':
            cached.cache_clear()
            lru.cache_clear()
        elif op[0] == 'disable':
            cached.cache_disable()
            disabled = True
        elif op[0] == 'enable':
            cached.cache_enable()
            disabled = False
        elif op[0] == 'info':
            pass
        else:
            if op[0] == 'repeat':
                if not calls:
                    continue
                args, kwargs = calls[op[1] % len(calls)]
            elif op[0] == 'call':
                args = tuple(key(k) for k in op[1])
                kwargs = {name: key(k) for name, k in op[2]}
                calls.append((args, kwargs))
            else:
                # the function fails (nothing is stored), later it does not
                plain.error = reference.error = eval(op[0][6:])
                args, kwargs = ('error',), {}
            possible = maxsize == 0 or all(map(hashable, (*args, *kwargs.values())))
            before = plain.calls
            try:
                result = cached(*args, **kwargs)
                failed = None
            except Exception as err:
                result, failed = None, type(err)
            called = plain.calls - before
            if plain.error and (possible or safe or disabled):
                ctx.check(
                    failed is plain.error or not called, 'error', failed, plain.error)
                ctx.check(called <= 2, 'called', called, 'times')
                ctx.label('failing call')
            # the same for the reference
            before = reference.calls
            if disabled:
                expected = reference_call(reference, args, kwargs)
            elif possible:
                expected = reference_call(lru, *[args, kwargs], star=True)
            elif safe:
                expected = reference_call(reference, args, kwargs)
            else:
                expected = (None, TypeError)
            plain.error = reference.error = None
            if expected[1] is TypeError and safe:
                plain.calls = reference.calls      # called twice, documented
            ctx.check(failed is expected[1], 'failed with', failed, 'expected', expected[1])
            ctx.check(plain.calls == reference.calls, 'calls', plain.calls, reference.calls)
            if failed is None:
                ctx.check(result[0] == expected[0][0], op, 'gave', result, expected)
                ctx.check(
                    alike(result[1], args) and alike(result[2], kwargs), op, 'gave', result,
                    'called with', args, kwargs,
                )
                if called == 0:
                    ctx.label('hit')
                    ctx.nontrivial()
        info, want = cached.cache_info(), lru.cache_info()
        ctx.check(tuple(info) == tuple(want), 'cache_info', info, want)
        if pool is not None:
            ctx.check(pool.cache_info() == {'f': info}, 'pool info', pool.cache_info())


def reference_call(func, args, kwargs, star=False):
    try:
        return (func(*args, **kwargs) if star else func(args, kwargs)), None
    except Exception as err:
        return None, type(err)


# ----------------------------------------------------------------------------- methods

def method_cases():
    op = st.one_of(
        st.tuples(st.just('call'), st.integers(0, 2), keys(ARGS)),
        st.tuples(st.just('call'), st.integers(0, 2), keys([1, 2, 8])),
        st.tuples(st.just('class'), keys(ARGS)),
        st.tuples(st.just('drop'), st.integers(0, 2)),
        st.tuples(st.sampled_from(['clear', 'disable', 'enable'])),
    )
    return st.tuples(
        st.sampled_from(['weak', 'weak', 'ignore']), st.booleans(),
        st.sampled_from(['plain', 'equal', 'unhashable']),
        st.lists(op, min_size=2, max_size=14),
    )


def method(case, ctx):
    binding, typed, kind, ops = case
    calls = []

    class Holder:

        def __init__(self, name):
            self.name = name

        @marsh.utils.cache(binding=binding, typed=typed)
        def method(self, value):
            calls.append((self.name, value))
            return len(calls), self.name, value

        @classmethod
        @marsh.utils.cache(binding=binding, typed=typed)
        def clsmethod(cls, value):
            calls.append((cls.__name__, value))
            return len(calls), cls.__name__, value

    if kind == 'equal':
        Holder.__eq__ = lambda self, other: isinstance(other, Holder)
        Holder.__hash__ = lambda self: 5
    elif kind == 'unhashable':
        Holder.__eq__ = lambda self, other: self is other
        Holder.__hash__ = None
    instances = [Holder(str(i)) for i in range(3)]
    stored = []     # (who, value, result)
    disabled = False
    for op in ops:
        if op[0] == 'clear':
            Holder.method.cache_clear()
            Holder.clsmethod.cache_clear()
            stored = []
        elif op[0] in ('disable', 'enable'):
            getattr(Holder.method, f'cache_{op[0]}')()
            getattr(Holder.clsmethod, f'cache_{op[0]}')()
            disabled = op[0] == 'disable'
        elif op[0] == 'drop':
            ref = weakref.ref(instances[op[1]])
            instances[op[1]] = None
            gc.collect()
            if binding == 'weak' or kind == 'none':
                ctx.check(ref() is None, 'the cache keeps the instance alive')
                ctx.label('dropped')
            who = (op[1], 'method')
            if binding == 'weak':
                stored = [s for s in stored if s[0] != who]
            instances[op[1]] = Holder(str(op[1]))
        else:
            value = key(op[-1])
            before = len(calls)
            if op[0] == 'class':
                who = ('Holder', 'class')
                name = 'Holder'
                result = Holder.clsmethod(value)
            else:
                who = (op[1], 'method')
                name = str(op[1])
                result = instances[op[1]].method(value)
            called = len(calls) - before
            ctx.check(called <= 1, 'called', called, 'times')
            ctx.check(alike(result[2], value, typed), op, 'gave', result)
            if typed and isinstance(value, (int, float, bool)):
                ctx.check(type(result[2]) is type(value), op, 'gave', result)
            if called:
                ctx.check(result[0] == len(calls) and result[1] == name, op, 'gave', result)
            cacheable = (
                hashable(value) and not disabled
                and (op[0] == 'class' or binding == 'ignore' or kind != 'unhashable')
            )
            if not cacheable:
                ctx.check(called == 1, op, 'not called')
                continue
            group = [
                s for s in stored
                if s[0][1] == who[1] and (
                    binding == 'ignore' or op[0] == 'class' or s[0] == who or kind == 'equal'
                )
            ]
            if not called:
                ctx.label('hit')
                ctx.nontrivial()
                ctx.check(
                    any(s[2] is result and alike(s[1], value, typed) for s in group),
                    op, 'gave the result of another call', result, stored,
                )
            else:
                ctx.check(
                    not any(
                        s[0] == who and type(s[1]) is type(value) and alike(s[1], value)
                        for s in group
                    ),
                    op, 'called again', stored,
                )
                stored.append((who, value, result))


# ----------------------------------------------------------------------------- tables

class Alist:
    """The reference: an association list."""

    def __init__(self, typed=False):
        self.items = []
        self.typed = typed

    def find(self, key):
        for i, (k, _) in enumerate(self.items):
            if alike(k, key, self.typed) and hashable(k) == hashable(key):
                return i
        return None

    def set(self, key, value):
        i = self.find(key)
        if i is None:
            self.items.append((key, value))
        else:
            self.items[i] = (self.items[i][0], value)

    def get(self, key):
        i = self.find(key)
        return None if i is None else (self.items[i][1],)

    def delete(self, key):
        i = self.find(key)
        if i is None:
            return False
        del self.items[i]
        return True


def table_ops(extra=()):
    return st.lists(
        st.one_of(
            st.tuples(st.just('set'), keys(), st.integers(0, 99)),
            st.tuples(st.just('set'), keys(range(24, len(POOL))), st.integers(0, 99)),
            st.tuples(st.sampled_from(['get', 'del']), keys([25, 26, 30, 33, 34, 36, 37, 38, 39])),
            st.tuples(st.just('set'), keys([25, 26, 30, 33, 34, 36, 37, 38, 39]), st.integers(0, 99)),
            st.tuples(st.just('set'), keys([16, 17, 18, 25, 30]), st.integers(0, 99)),
            st.tuples(st.just('get'), keys()),
            st.tuples(st.just('del'), keys()),
            st.tuples(st.just('del nth'), st.integers(0, 8)),
            st.tuples(st.just('get nth'), st.integers(0, 8)),
            st.tuples(st.just('set nth'), st.integers(0, 8), st.integers(0, 99)),
            st.tuples(st.sampled_from(['clear', *extra]), keys(), st.integers(0, 99)),
        ),
        min_size=2, max_size=20,
    )


def same_items(a, b):
    return len(a) == len(b) and all(
        alike(x[0], y[0]) and x[1] == y[1] for x, y in zip(a, b))


def safedict(case, ctx):
    table, model = marsh.utils.SafeDict(), Alist()
    for op in case:
        name = op[0]
        if name.endswith(' nth'):
            if not model.items:
                continue
            chosen = model.items[op[1] % len(model.items)][0]
            name = name[:3]
            ctx.nontrivial(not hashable(chosen))
        elif len(op) > 1:
            chosen = key(op[1])
        if name == 'set':
            table[chosen] = op[2]
            model.set(chosen, op[2])
        elif name == 'get':
            want = model.get(chosen)
            try:
                got = (table[chosen],)
            except KeyError:
                got = None
            ctx.check(got == want, op, 'gave', got, 'expected', want)
            ctx.check((chosen in table) == (want is not None), 'contains', chosen)
            ctx.check(table.get(chosen, 'none') == (want or ('none',))[0], 'get', chosen)
        elif name == 'del':
            try:
                del table[chosen]
                deleted = True
            except KeyError:
                deleted = False
            ctx.check(deleted == model.delete(chosen), op, 'deleted', deleted)
        elif name == 'clear':
            table.clear()
            model.items = []
        elif name == 'pop':
            want = model.get(chosen)
            got = table.pop(chosen, 'none')
            ctx.check(got == (want or ('none',))[0], op, 'gave', got)
            model.delete(chosen)
        elif name == 'setdefault':
            want = model.get(chosen)
            got = table.setdefault(chosen, op[2])
            ctx.check(got == (want or (op[2],))[0], op, 'gave', got)
            if want is None:
                model.set(chosen, op[2])
        elif name == 'update':
            table.update([(chosen, op[2]), ('extra', op[2])])
            model.set(chosen, op[2])
            model.set('extra', op[2])
        elif name == 'equal':
            other = marsh.utils.SafeDict()
            for k, v in reversed(model.items):
                other[k] = v
            ctx.check(table == other and not table != other, 'not equal to the same items')
            if model.items:
                other[chosen] = 'another value'
                ctx.check(table != other and not table == other, 'equal to other items')
            ctx.check(table != 5, 'equal to a number')
        ctx.check(len(table) == len(model.items), 'len', len(table), model.items)
        ctx.check(bool(table) == bool(model.items), 'bool')
        items = list(table.items())
        ctx.check(same_items(items, model.items), op, 'items', items, 'expected', model.items)
        backwards = [(k, table[k]) for k in reversed(table)]
        ctx.check(same_items(backwards, model.items[::-1]), op, 'reversed', backwards)
        ctx.check([*table.values()] == [v for _, v in model.items], op, 'values')
    if any(map(hashable, (k for k, _ in model.items))) and not all(
            map(hashable, (k for k, _ in model.items))):
        ctx.label('mixed keys')


def valuecache(case, ctx):
    typed, pooled, ops = case
    pool = marsh.utils.CachePool()
    if pooled:
        typed = False
        cache = pool.new_value_cache('values')
        ctx.check(pool['values'] is cache, 'pool')
    else:
        cache = marsh.utils.ValueCache(typed=typed)
    model = Alist(typed)
    hits = misses = 0
    disabled = False
    for op in ops:
        name = op[0]
        if name.endswith(' nth'):
            if not model.items:
                continue
            chosen = model.items[op[1] % len(model.items)][0]
            name = name[:3]
            ctx.nontrivial(name == 'get')
        elif len(op) > 1:
            chosen = key(op[1])
        if name == 'set':
            cache[chosen] = op[2]
            if not disabled:
                model.set(chosen, op[2])
        elif name == 'get':
            want = None if disabled else model.get(chosen)
            try:
                got = (cache[chosen],)
            except KeyError:
                got = None
            ctx.check(got == want, op, 'gave', got, 'expected', want)
            if not disabled:
                hits += want is not None
                misses += want is None
        elif name == 'del':
            try:
                del cache[chosen]
                deleted = True
            except KeyError:
                deleted = False
            ctx.check(deleted == model.delete(chosen), op, 'deleted', deleted)
        elif name == 'clear':
            (pool if pooled else cache).cache_clear()
            model.items = []
            hits = misses = 0
        elif name in ('disable', 'enable'):
            getattr(pool if pooled else cache, f'cache_{name}')()
            disabled = name == 'disable'
            ctx.label(name)
        ctx.check(len(cache) == len(model.items), op, 'len', len(cache), model.items)
        info = cache.cache_info()
        ctx.check(
            tuple(info) == (hits, misses, None, len(model.items)), op, 'info', info,
            (hits, misses, len(model.items)),
        )
        if pooled:
            ctx.check(pool.cache_info() == {'values': info}, 'info of the pool')
    if not disabled:
        for k, v in model.items:
            ctx.check(cache[k] == v, 'lookup of', k)


# ----------------------------------------------------------------------------- others

def pool_cases():
    op = st.one_of(
        st.tuples(st.sampled_from(['new function', 'new values', 'add']), st.sampled_from('abc')),
        st.tuples(st.just('use'), st.sampled_from('abc'), st.integers(0, 2)),
        st.tuples(st.sampled_from(['clear', 'disable', 'enable'])),
    )
    return st.lists(op, min_size=3, max_size=15)


def pool(case, ctx):
    pool = marsh.utils.CachePool()
    caches = {}         # name -> [kind, cache, stored, disabled]
    for op in case:
        if op[0] == 'new function':
            calls = []

            def func(x, calls=calls):
                calls.append(x)
                return len(calls)
            cache = pool.new_callable_cache(name=op[1])(func)
            caches[op[1]] = ['function', cache, {}, False, calls]
        elif op[0] == 'new values':
            cache = pool.new_value_cache(op[1])
            caches[op[1]] = ['values', cache, {}, False, None]
        elif op[0] == 'add':
            cache = marsh.utils.ValueCache()
            pool.add(op[1], cache)
            caches[op[1]] = ['values', cache, {}, False, None]
        elif op[0] == 'use':
            if op[1] not in caches:
                continue
            kind, cache, stored, disabled, calls = caches[op[1]]
            if kind == 'function':
                before = len(calls)
                result = cache(op[2])
                hit = op[2] in stored and not disabled
                ctx.check((len(calls) == before) == hit, op, 'hit', not hit)
                if hit:
                    ctx.check(result == stored[op[2]], op, 'gave', result)
                elif not disabled:
                    stored[op[2]] = result
            else:
                try:
                    result = cache[op[2]]
                    hit = True
                except KeyError:
                    hit = False
                    cache[op[2]] = op[2] * 2
                ctx.check(hit == (op[2] in stored and not disabled), op, 'hit', hit)
                if not disabled:
                    stored[op[2]] = op[2] * 2
            ctx.nontrivial(hit)
        else:
            getattr(pool, f'cache_{op[0]}')()
            for entry in caches.values():
                if op[0] == 'clear':
                    entry[2].clear()
                else:
                    entry[3] = op[0] == 'disable'
        ctx.check(dict(pool) == {k: v[1] for k, v in caches.items()}, 'content', dict(pool))
        ctx.check(len(pool) == len(caches), 'len')
        info = pool.cache_info()
        ctx.check(
            {k: v.currsize for k, v in info.items()} == {
                k: len(v[2]) for k, v in caches.items()}, 'info', info)


def weak_cases():
    op = st.one_of(
        st.tuples(st.just('add'), st.integers(0, 5)),
        st.tuples(st.just('add'), st.integers(0, 5)),
        st.tuples(st.just('drop'), st.integers(0, 5)),
        st.tuples(st.just('add special'), st.sampled_from(['int', 'List[int]', 'Union[int, str]'])),
        st.tuples(st.just('clear')),
        # remove, add or drop a type while iterating
        st.tuples(st.sampled_from(['iterate drop', 'iterate add']), st.integers(0, 5), st.integers(0, 4)),
    )
    return st.lists(op, min_size=2, max_size=14)


def weaktypes(case, ctx):
    cache = marsh.utils.WeakTypeCache(skip_types=(int, str))
    types = {i: type(f'T{i}', (), {}) for i in range(6)}
    model = []

    def drop(index):
        name = types.pop(index).__name__
        gc.collect()
        if name in model:
            model.remove(name)
            ctx.label('dropped')
            ctx.nontrivial()
        types[index] = type(f'T{index}', (), {})

    def add(index):
        cache.add(types[index])
        name = f'T{index}'
        if name in model:
            model.remove(name)
        model.insert(0, name)

    for op in case:
        if op[0] == 'add':
            add(op[1])
        elif op[0] == 'drop':
            drop(op[1])
        elif op[0] == 'add special':
            cache.add(eval(op[1], vars(typing)))
        elif op[0] == 'clear':
            cache.clear()
            model.clear()
        else:
            before = list(model)
            seen = []
            for number, type_ in enumerate(cache):
                seen.append(type_.__name__)
                del type_
                if number == op[2]:
                    (drop if op[0] == 'iterate drop' else add)(op[1])
                    ctx.label('changed while iterating')
            gc.collect()
            expected = [
                name for i, name in enumerate(before)
                if name != f'T{op[1]}' or op[0] == 'iterate add' or i <= op[2]
            ]
            if op[0] == 'iterate add':
                seen = [name for name in seen if name != f'T{op[1]}']
                expected = [name for name in expected if name != f'T{op[1]}']
            ctx.check(seen == expected, op, 'iterated', seen, 'expected', expected)
        ctx.check([t.__name__ for t in cache] == model, op, 'types', list(cache), model)
        ctx.check(len(cache) == len(model), 'len', len(cache), model)
        for type_ in types.values():
            ctx.check((type_ in cache) == (type_.__name__ in model), 'contains', type_)
            del type_
    ctx.check(int not in cache and typing.List[int] not in cache, 'skipped types')


def iterator_cases():
    op = st.one_of(
        st.tuples(st.just('next'), st.integers(0, 3)),
        st.tuples(st.just('next'), st.integers(0, 3)),
        st.tuples(st.just('next'), st.integers(0, 3)),
        st.tuples(st.sampled_from(['restart']), st.integers(0, 3)),
        st.tuples(st.sampled_from(['list', 'bool'])),
    )
    return st.tuples(
        st.lists(st.one_of(st.integers(0, 3), st.none(), st.just([1])), max_size=6),
        st.sampled_from(['generator', 'list', 'iter', 'range']),
        st.lists(op, max_size=20),
    )


def iterator(case, ctx):
    items, how, ops = case
    produced = []

    def generate():
        for item in items:
            produced.append(item)
            yield item

    source = {
        'generator': generate, 'list': lambda: items, 'iter': lambda: iter(items),
        'range': generate,
    }[how]()
    stored = marsh.utils.IterableFromIterator(source)
    readers = {}
    furthest = 0
    for op in ops:
        if op[0] == 'next':
            if op[1] not in readers:
                readers[op[1]] = [iter(stored), 0]
            reader = readers[op[1]]
            try:
                got = (next(reader[0]),)
            except StopIteration:
                got = None
            want = (items[reader[1]],) if reader[1] < len(items) else None
            ctx.check(got == want, op, 'gave', got, 'expected', want)
            reader[1] += want is not None
            furthest = max(furthest, reader[1])
            if want is None:
                readers.pop(op[1])
        elif op[0] == 'restart':
            readers.pop(op[1], None)
        elif op[0] == 'list':
            ctx.check(list(stored) == items, 'list', list(stored))
            furthest = len(items)
        else:
            ctx.check(bool(stored) == bool(items), 'bool')
            furthest = max(furthest, min(1, len(items)))
        ctx.nontrivial(len(readers) > 1)
        if how == 'generator':
            ctx.check(produced == items[:furthest], 'consumed', produced, 'needed', furthest)
    ctx.check(list(stored) == items == list(stored), 'list at the end')


def hashkey_cases():
    args = st.lists(keys(range(24)), max_size=3)
    kwargs = st.lists(
        st.tuples(st.sampled_from(['x', 'y']), keys(range(24))), max_size=2,
        unique_by=lambda x: x[0],
    )
    one = st.tuples(args, kwargs)
    return st.tuples(one, st.one_of(one, st.none(), st.just('swap'), st.just('types')), st.booleans())


def retype(value):
    if isinstance(value, tuple):
        return tuple(map(retype, value))
    if isinstance(value, (int, float)) and value in (0, 1):
        return {bool: int, int: float, float: bool}[type(value)](value)
    return value


def hashkey(case, ctx):
    one, two, typed = case

    def build(spec):
        return tuple(map(key, spec[0])), {k: key(v) for k, v in spec[1]}
    a = build(one)
    if two is None:
        b = build(one)
    elif two == 'swap':
        # keyword arguments given as positional ones
        b = (a[0] + tuple(x for item in a[1].items() for x in item), {})
    elif two == 'types':
        # values which are equal, often of another type
        b = tuple(map(retype, a[0])), {k: retype(v) for k, v in a[1].items()}
    else:
        b = build(two)
    make = marsh.utils.make_typed_hash_key if typed else marsh.utils.make_hash_key
    keys_ = make(*a[0], **a[1]), make(*b[0], **b[1])
    want = (
        len(a[0]) == len(b[0]) and list(a[1]) == list(b[1])
        and all(alike(x, y, typed) for x, y in zip(a[0], b[0]))
        and all(alike(x, y, typed) for x, y in zip(a[1].values(), b[1].values()))
    )
    ctx.nontrivial(want and bool(a[0]))
    ctx.check((keys_[0] == keys_[1]) == want, 'equal keys for', a, b, 'expected', want)
    ctx.check((keys_[0] != keys_[1]) != want, 'unequal keys for', a, b)
    if want:
        ctx.check(hash(keys_[0]) == hash(keys_[1]), 'hash of equal keys', a, b)
    ctx.check({keys_[0]: 1}.get(keys_[1]) == (1 if want else None), 'lookup', a, b)


def singleton(case, ctx):
    class Single(metaclass=marsh.utils.SingletonMeta):
        def __init__(self, value=None):
            self.value = value

    class Other(Single):
        pass
    first = {}
    for which, value in case:
        cls = (Single, Other)[which]
        instance = cls(value)
        ctx.check(type(instance) is cls, 'type', instance)
        if cls in first:
            ctx.nontrivial()
            ctx.check(instance is first[cls][0], 'another instance')
        else:
            first[cls] = (instance, value)
        ctx.check(instance.value == first[cls][1], 'initialized again', instance.value)
        gc.collect() if value == 3 else None


# ----------------------------------------------------------------------------- the caches of the library

_LIBRARY_TYPES = {
    'int': (int, '3', 3), 'list': (typing.List[int], ['1'], [1]), 'dict': (typing.Dict[str, float], {'a': 1}, {'a': 1.0}),
    'union': (typing.Union[int, str], 'a', 'a'), 'reversed': (typing.Union[str, int], 1, '1'), 'none': (type(None), None, None),
    'nested': (typing.List[typing.Dict[str, typing.Optional[int]]], [{'a': '1'}], [{'a': 1}]),
    'tuple': (typing.Tuple[int, ...], ['2'], (2,)), 'literal': (typing.Literal['a', 1], '1', 1),
    'callable': (lambda a, b=2: (a, b), {'a': 1}, (1, 2)),
}


def library_cases():
    op = st.one_of(
        st.tuples(st.just('use'), st.sampled_from(list(_LIBRARY_TYPES))),
        st.tuples(st.just('use'), st.sampled_from(list(_LIBRARY_TYPES))),
        st.tuples(st.just('component'), st.integers(0, 2)),
        st.tuples(st.sampled_from(['clear', 'clear schemas', 'clear registry', 'clear namespaces', 'disable', 'enable', 'namespace'])),
    )
    return st.lists(op, min_size=2, max_size=12)


def _infos(value, path=()):
    """All infos within the (nested) mappings that the functions of the library give."""
    if hasattr(value, 'currsize'):
        yield path, value
        return
    if hasattr(value, '_asdict'):
        value = value._asdict()
    if not isinstance(value, collections.abc.Mapping):
        yield path, value
        return
    for name, inner in value.items():
        yield from _infos(inner, (*path, name))


def library(case, ctx):
    """Caches of the library: they tell what they hold and give the same with and without."""
    caches = marsh.schema.caches
    # what is already cached depends on the cases before
    caches.cache_clear()
    disabled = {}
    made = []

    class Base:
        pass
    components = [type(f'Component{i}', (Base,), {}) for i in range(3)]

    def gather():
        found = {('pool', *path): info for path, info in _infos(caches.cache_info())}
        found.update({('schema', *path): info for path, info in _infos(marsh.schema.UnmarshalSchema.cache_info())})
        found.update({('registry', *path): info for path, info in _infos(marsh.schema.UnmarshalSchema.registry.cache_info())})
        found.update({('namespaces', *path): info for path, info in _infos(marsh.namespaces.cache_info(full=True))})
        for name in made:
            found.update({(name, *path): info for path, info in _infos(marsh.namespaces[name].cache_info())})
        for path, info in found.items():
            for part in ('hits', 'misses', 'currsize'):
                number = getattr(info, part, None)
                ctx.check(isinstance(number, int) and number >= 0, path, info)
            ctx.check(info.maxsize is None or isinstance(info.maxsize, int), path, info)
        return {path: tuple(marsh.utils.CacheInfo.from_info(info)) for path, info in found.items()}

    try:
        for op in case:
            before = gather()
            ctx.label(op[0])
            if op[0] == 'use':
                type_, element, expected = _LIBRARY_TYPES[op[1]]
                got = marsh.unmarshal(type_, element)
                ctx.check(got == expected and type(got) is type(expected), op, got)
            elif op[0] == 'component':
                if not made:
                    continue
                got = marsh.unmarshal(Base, {'name': f'c{op[1]}'})
                ctx.check(type(got) is components[op[1]], op, got)
            elif op[0] == 'namespace':
                if made:
                    continue
                namespace = marsh.namespaces.new('made', Base)
                made.append('made')
                for i, component in enumerate(components):
                    namespace.register(name=f'c{i}')(component)
                continue
            elif op[0] == 'disable':
                caches.cache_disable()
                disabled = dict(caches)
            elif op[0] == 'enable':
                caches.cache_enable()
                disabled = {}
            elif op[0] == 'clear':
                caches.cache_clear()
            elif op[0] == 'clear schemas':
                marsh.schema.UnmarshalSchema.cache_clear()
            elif op[0] == 'clear registry':
                marsh.schema.UnmarshalSchema.registry.cache_clear()
            else:
                marsh.namespaces.cache_clear(full=True)
            after = gather()
            if op[0].startswith('clear'):
                ctx.nontrivial()
                kinds = {'clear': ('pool',), 'clear schemas': ('schema', 'registry'), 'clear registry': ('registry',),
                         'clear namespaces': ('namespaces', *made)}[op[0]]
                for path, (_, _, _, size) in after.items():
                    ctx.check(path[0] not in kinds or size == 0, op, path, size)
            elif op[0] in ('use', 'component'):
                for path in after:
                    # a namespace that is made anew has another cache of the same name
                    if path[0] == 'pool' and path[1] in disabled and disabled[path[1]] is caches[path[1]]:
                        ctx.nontrivial()
                        ctx.check(path not in before or after[path] == before[path], op, path, before.get(path), after[path])
    finally:
        caches.cache_enable()
        caches.cache_clear()
        for name in made:
            del marsh.namespaces[name]


SUBS = [
    Sub('function', function_cases, function, 3000, 150000),
    Sub('method', method_cases, method, 1500, 60000),
    Sub('safedict', lambda: table_ops(['pop', 'setdefault', 'update', 'equal']), safedict, 3000, 150000),
    Sub(
        'valuecache',
        lambda: st.tuples(st.booleans(), st.booleans(), table_ops(['disable', 'enable'])),
        valuecache, 2500, 120000,
    ),
    Sub('pool', pool_cases, pool, 800, 30000),
    Sub('library', library_cases, library, 800, 30000),
    Sub('weaktypes', weak_cases, weaktypes, 600, 20000),
    Sub('iterator', iterator_cases, iterator, 1500, 60000),
    Sub('hashkey', hashkey_cases, hashkey, 2000, 100000),
    Sub(
        'singleton',
        lambda: st.lists(st.tuples(st.integers(0, 1), st.integers(0, 3)), max_size=6),
        singleton, 200, 2000,
    ),
]
