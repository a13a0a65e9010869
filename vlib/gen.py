"""Shared strategies. Everything drawn is a plain literal."""
from hypothesis import strategies as st


@st.composite
def _pick(draw, options):
    return draw(options[draw(st.integers(0, len(options) - 1))])


def pick(*options):
    """Like one_of, but every option keeps its weight.

    (Hypothesis flattens nested one_of's, which starves an option standing next to one
    with many alternatives.)
    """
    return _pick(options)


SPECIAL = '.\\\'"/ '
FIELD_ALPHABET = 'abcXY01' + SPECIAL + '[]{}(),:=+@~$?_-\t\né€'


def text(alphabet=FIELD_ALPHABET, min_size=0, max_size=8):
    return st.text(alphabet=alphabet, min_size=min_size, max_size=max_size)


# resemble texts with a meaning
LOOKALIKES = [
    ' ???', '??? ', '??', '????', '???\n', '???.', '?', ' ', '~', 'null', 'None', 'NULL', 'true', 'False', 'no', 'nan', 'inf',
    '1', '-1', '1.0', '1e3', '0x10', '007', '1_000', '+1', '[]', '{}', '{', '(1)', '$', '${', '_meta_', 'name', '*', '**a',
    '\\', '"', "'", '"a"', "'a", 'a:b', 'a=b', ',', '=', '@', 'a@b', '#', '- a',
]


def any_text(min_size=0, max_size=12):
    return st.one_of(
        st.sampled_from([text for text in LOOKALIKES if min_size <= len(text) <= max_size]),
        text(min_size=min_size, max_size=max_size),
        st.text(
            alphabet=st.characters(exclude_categories=('Cs',)),
            min_size=min_size,
            max_size=max_size,
        ),
    )


def field(max_size=6):
    """A non-empty path field / mapping key."""
    return st.one_of(
        st.sampled_from(['a', 'b', 'c', 'x', 'key', 'a.b', '0', '1', '-1']),
        text(min_size=1, max_size=max_size),
        any_text(min_size=1, max_size=max_size),
    )


def simple_key():
    return st.sampled_from(['a', 'b', 'c', 'd'])


finite_floats = st.one_of(
    st.sampled_from([0.0, 1.0, -1.0, 0.5, 1.5, 1e300, -1e-300, 1e16, 2.0**53, 0.1]),
    st.floats(allow_nan=False, allow_infinity=False),
)

ints = st.one_of(
    st.integers(-3, 12),
    st.sampled_from([2**31, 2**53, 2**53 + 1, -2**63, 2**64, 10**20 + 1]),
    st.integers(),
)


def scalars(texts=None):
    return pick(
        st.none(),
        st.booleans(),
        ints,
        finite_floats,
        any_text() if texts is None else texts,
    )


def elements(keys=None, leaves=None, max_leaves=12, lists=True, tuples=True):
    """JSON-like elements: lists/tuples, string-keyed dicts, scalars."""
    keys = field() if keys is None else keys
    leaves = scalars() if leaves is None else leaves

    def extend(inner):
        options = [st.dictionaries(keys, inner, max_size=4)]
        if lists:
            options.append(st.lists(inner, max_size=4))
        if tuples:
            options.append(st.lists(inner, max_size=4).map(tuple))
        return st.one_of(*options)

    return st.recursive(leaves, extend, max_leaves=max_leaves)


def containers(keys=None, leaves=None, max_leaves=8, min_size=1):
    """Elements whose root (and usually the next levels) are non-empty containers."""
    keys = field() if keys is None else keys
    inner = elements(keys=keys, leaves=leaves, max_leaves=max_leaves)
    level = pick(
        st.dictionaries(keys, inner, min_size=min_size, max_size=3),
        st.lists(inner, min_size=min_size, max_size=3),
        st.lists(inner, min_size=min_size, max_size=3).map(tuple),
    )
    return pick(
        level,
        st.dictionaries(keys, pick(level, inner), min_size=1, max_size=3),
        st.lists(pick(level, inner), min_size=1, max_size=3),
    )


def dresses():
    """Kinds of containers an element is made of, see oracle.dress."""
    return pick(
        st.just(('dict', 'same')),
        st.just(('dict', 'same')),
        st.tuples(
            st.sampled_from(['dict', 'OrderedDict', 'UserDict', 'proxy', 'defaultdict']),
            st.sampled_from(['same', 'list', 'tuple', 'deque', 'UserList']),
        ),
    )
