"""Hostile values, strict comparison, call logs."""

from __future__ import annotations

from array import array
from collections import UserList, deque
from collections.abc import Mapping

import collections
import dataclasses
import datetime
import decimal
import enum
import fractions
import functools
import pathlib
import re
import types
import weakref
from typing import NamedTuple

from expression import EffectError, Error, Nothing, Ok, Option, Result, Some, TailCall
from expression.collections import Block, Map, Seq, TypedArray
from expression.collections.asyncseq import AsyncSeq
from expression.extra.parser import preturn
from expression.system import AsyncDisposable, CancellationToken, Disposable, ObjectDisposedException, OperationCanceledError


class Tok:
    """A value known by its identity only."""

    n_made = 0

    def __init__(self, name=None):
        Tok.n_made += 1
        self.name = name if name is not None else Tok.n_made

    def __repr__(self):
        return f"Tok({self.name})"


class NoBool(Tok):
    """Has no truth value (as a numpy array has none)."""

    def __bool__(self):
        raise ValueError("truth value is ambiguous")

    def __repr__(self):
        return f"NoBool({self.name})"


ODD_EQUALITY = True  # checks that compare collections of any values switch it off


class AllEq(Tok):
    """Claims to be equal to everything, None included (as mock.ANY does)."""

    def __eq__(self, o):
        return True

    def __ne__(self, o):
        return False

    __hash__ = Tok.__hash__

    def __repr__(self):
        return f"AllEq({self.name})"


class ArrayLike(Tok):
    """Comparisons give something without a truth value (as those of numpy arrays do)."""

    def __eq__(self, o):
        return NoBool("==")

    __ne__ = __lt__ = __gt__ = __eq__
    __hash__ = Tok.__hash__

    def __repr__(self):
        return f"ArrayLike({self.name})"


class Eq:
    """Equal by number, but every object is distinguishable."""

    __slots__ = ("n", "tag")

    def __init__(self, n, tag):
        self.n, self.tag = n, tag

    def __eq__(self, o):
        return isinstance(o, Eq) and o.n == self.n

    def __hash__(self):
        return hash(self.n)

    def __lt__(self, o):
        return self.n < o.n

    def __le__(self, o):
        return self.n <= o.n

    def __gt__(self, o):
        return self.n > o.n

    def __ge__(self, o):
        return self.n >= o.n

    def __repr__(self):
        return f"Eq({self.n},{self.tag})"


class Boom(Exception):
    """Raised by callbacks; compared by identity."""

    def __init__(self, n=0):
        Exception.__init__(self, n)
        self.n = n


class BoomBase(BaseException):
    pass


# What a callback raises may also be of any type that code around it is tempted to handle.
_SAFE = [KeyError, IndexError, ValueError, TypeError, AttributeError, RuntimeError, AssertionError, NotImplementedError, ArithmeticError, OSError, TimeoutError, ObjectDisposedException, OperationCanceledError]
_BOOMS = {b.__name__: type("Boom" + b.__name__, (Boom, b), {}) for b in [*_SAFE, EffectError, StopIteration, StopAsyncIteration]}
_SAFE_BOOMS = [Boom, Boom, *(_BOOMS[b.__name__] for b in _SAFE)]


def boom(rng, n=0, effect=True, stop=False):
    """A fresh exception to be raised by user code. ``stop``: also where generators would turn it into another one."""
    pool = _SAFE_BOOMS
    r = rng.random()
    if effect and r < 0.1:
        return _BOOMS["EffectError"](n)
    if stop and r > 0.9:
        return rng.choice([_BOOMS["StopIteration"], _BOOMS["StopAsyncIteration"]])(n)
    return rng.choice(pool)(n)


def _some_function(*a, **kw):
    raise AssertionError("a value was called")


def _a_generator():
    yield 1
    yield 2


class _Ctx(dict):
    """A mapping, context manager, iterable and callable at once, with attributes that code may look for."""

    value = ok = error = tag = run = is_some = is_ok = some = none = source = _value = args = None

    def __call__(self, *a, **kw):
        raise AssertionError("a value was called")

    def __enter__(self):
        raise AssertionError("a value was entered")

    def __exit__(self, *a):
        raise AssertionError("a value was left")


class _Plain:
    """Attributes with the names of methods, that are plain data."""

    dict = model_dump = to_list = "data"  # noqa: A003
    to_dict = value = 0


class _Awaitable:
    def __await__(self):
        raise AssertionError("a value was awaited")


async def _a_coroutine():
    raise AssertionError("a value was awaited")


def coroutine():
    """A coroutine object as a plain value; awaiting it fails."""
    c = _a_coroutine()
    c.close()
    return c


class Zero(enum.IntEnum):
    ZERO = 0
    ONE = 1


class Colour(enum.Enum):
    RED = None


class Pair(NamedTuple):
    first: object
    second: object


class Text(str):
    pass


class Whole(int):
    pass


class Names(dict):
    pass


@dataclasses.dataclass
class Data:
    x: object


OTHERS = [
    lambda: Zero.ZERO, lambda: Zero.ONE, lambda: Colour.RED, lambda: Pair(1, 2), lambda: Pair(None, ()), lambda: Text(""), lambda: Text("ab"), lambda: Whole(0), lambda: Whole(3),
    lambda: Names(), lambda: Data(0), lambda: decimal.Decimal("1.50"), lambda: fractions.Fraction(1, 3), lambda: datetime.timedelta(0), lambda: pathlib.PurePosixPath("a"),
    lambda: types.SimpleNamespace(value=1), AsyncSeq.empty, lambda: float("inf"), lambda: weakref.WeakSet(), lambda: slice(1), lambda: types.MappingProxyType({}), lambda: collections.Counter(), lambda: set([1]), lambda: {}.items(), lambda: "a" * 150,
]


class Anything:
    """Has every public attribute: what asks by attribute instead of by type takes it for anything."""

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return lambda *a, **kw: True


class Looks:
    """The attributes of an option, result, union, tail call or collection, and none of the types."""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return f"Looks({self.__dict__})"


LOOKS = [
    lambda: Looks(tag="ok", ok=1, error=None), lambda: Looks(tag="error", error=1, ok=None), lambda: Looks(tag="some", some=1, none=None, value=1), lambda: Looks(tag="none", none=None),
    lambda: Looks(is_ok=lambda: True, is_error=lambda: False), lambda: Looks(is_some=lambda: False, is_none=lambda: True), lambda: Looks(args=(1,), kw={}, kwargs={}), lambda: Looks(_value=(1, 2), value=[1]),
    lambda: Looks(dispose=lambda: None, cancel=lambda: None), lambda: Looks(reply=lambda x: None, fn=None), lambda: Looks(error=1), lambda: Looks(ok=0), lambda: Looks(some=None), lambda: Looks(__wrapped__=None, __name__="f"),
    Anything, Anything,
]


def looks(m):
    """Something with the attributes of the option or result of a model, that is neither."""
    t, v = m[0], m[1] if len(m) > 1 else None
    return Looks(**{"tag": t, t: v, "value": v, "is_some": lambda: t == "some", "is_none": lambda: t == "none", "is_ok": lambda: t == "ok", "is_error": lambda: t == "error", "_index": 0})


class Clash:
    """Values of one hash, of which those of different numbers differ."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Clash) and o.n == self.n

    def __hash__(self):
        return 1

    def __repr__(self):
        return f"Clash{self.n}"


# Groups of values that are easily taken for each other: by hash, by text, by truth, by type.
CONFUSABLE = [
    [-1, -2, -1.0, -2.0], [0, 2**61 - 1, False, 0.0, -0.0, ""], [1, 2**61, True, 1.0, "1", (1,)], [(-1,), (-2,)], [None, "None", (), ((),), (None,)], ["ab", "a", "b", "Ab", "ab ", b"ab"], [10**20, 1e20, 10**20 + 1],
    ["e\u0301", "\u00e9"], [0.1 + 0.2, 0.3], [2**53, 2**53 + 1, float(2**53)], ["some", "none", "ok", "error"], [(1, 2), (1, 2, None), (2, 1)],
]


def confusable(rng, n):
    """A pool of hashable values from one group."""
    g = rng.choice(CONFUSABLE)
    if rng.random() < 0.1:
        g = [Clash(1), Clash(2), 1]
    return [rng.choice(g) for _ in range(n)]


def odd(rng):
    """Objects that library code may take for its own: its own types as plain values, iterators, groups, callables, awaitables."""
    k = rng.randrange(30)
    if k >= 26:
        return rng.choice(LOOKS)()
    if k >= 20:
        return rng.choice(OTHERS)()
    if k == 17:
        return _Awaitable()
    if k == 18:
        return coroutine()
    if k == 19:
        return rng.choice([deque([1, 2]), array("b", [1, 2]), bytearray(b"ab"), UserList([1]), frozenset([1])])
    if k == 16:
        return _Plain()
    if k == 0:
        return TailCall(1, k=2)
    if k == 1:
        return preturn(3)
    if k == 2:
        return Seq([1, 2])
    if k == 3:
        return Map.of(a=1, b=2)
    if k == 4:
        return iter([1, 2, 3])
    if k == 5:
        return _a_generator()
    if k == 6:
        return TypedArray.of_seq([1, 2])
    if k == 7:
        return ExceptionGroup("g", [Boom(1)])
    if k == 8:
        return Disposable.create(_some_function)
    if k == 9:
        return AsyncDisposable.empty()
    if k == 10:
        return CancellationToken.none()
    if k == 11:
        return functools.partial(_some_function, 1)
    if k == 12:
        return _Ctx()
    if k == 13:
        return re.match("a", "a")
    if k == 14:
        return memoryview(b"ab")
    return range(2)


FALSY = [None, False, 0, 0.0, "", (), b"", 0j]


def falsy(rng):
    r = rng.randrange(11)
    if r < 8:
        return FALSY[r]
    return [[], {}, set()][r - 8]


def scalar(rng):
    return rng.choice([1, 2, -1, -2, True, 1.0, "a", "ab", "None", 3.5, 10**20, -0.0, b"x", (1,), (None,)])


def value(rng, depth=2):
    """Any value a user may put in an option, result or collection."""
    r = rng.random()
    if r < 0.30:
        return falsy(rng)
    if r < 0.5:
        return scalar(rng)
    if r < 0.6:
        return Tok(rng.randrange(100))
    if r < 0.66:
        return NoBool(rng.randrange(100))
    if r < 0.7:
        return boom(rng, rng.randrange(9), stop=True) if rng.random() < 0.5 else rng.choice([ValueError, KeyError, Boom, EffectError, OperationCanceledError])(rng.randrange(9))
    if r < 0.706 and ODD_EQUALITY:
        return rng.choice([AllEq, AllEq, ArrayLike])(rng.randrange(100))
    if r < 0.715:
        return rng.choice([len, Tok, int, _some_function, GeneratorExit(1), NotImplemented, ...])
    if r < 0.72:
        return float("nan")
    if r < 0.75:
        return odd(rng)
    if depth <= 0:
        return rng.randrange(5)
    k = rng.randrange(9)
    if k == 0:
        return Nothing
    if k == 1:
        return Some(value(rng, depth - 1))
    if k == 2:
        return Ok(value(rng, depth - 1))
    if k == 3:
        return Error(value(rng, depth - 1))
    if k == 4:
        return [value(rng, depth - 1) for _ in range(rng.randrange(3))]
    if k == 5:
        return tuple(value(rng, depth - 1) for _ in range(rng.randrange(3)))
    if k == 6:
        return Block([value(rng, depth - 1) for _ in range(rng.randrange(3))])
    if k == 7:
        return {"k": value(rng, depth - 1)}
    return StopIteration(rng.randrange(3))


def hval(rng, depth=2):
    """A hashable, comparable-for-equality value."""
    r = rng.random()
    if r < 0.35:
        return FALSY[rng.randrange(8)]
    if r < 0.65:
        return scalar(rng)
    if r < 0.75:
        return Tok(rng.randrange(100))
    if depth <= 0:
        return rng.randrange(5)
    k = rng.randrange(5)
    if k == 0:
        return Nothing
    if k == 1:
        return Some(hval(rng, depth - 1))
    if k == 2:
        return Ok(hval(rng, depth - 1))
    if k == 3:
        return Error(hval(rng, depth - 1))
    return tuple(hval(rng, depth - 1) for _ in range(rng.randrange(3)))


def items(rng, n=None, distinct=False):
    """A list of hostile items with duplicates."""
    if n is None:
        n = rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 7, 10, 17])
    kind = rng.randrange(4)
    if kind == 0:
        return [rng.randrange(-3, 4) for _ in range(n)]
    if kind == 1:
        return [Eq(rng.randrange(3), i) for i in range(n)]
    if kind == 2:
        return [value(rng, 1) for _ in range(n)]
    pool = [value(rng, 1) for _ in range(3)]
    return [rng.choice(pool) for _ in range(n)]


# Lengths around which an implementation may change its ways.
BIG = [20, 31, 32, 33, 48, 63, 64, 65, 99, 100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 300, 400, 499, 500, 501, 511, 512, 513, 600, 999, 1000, 1001, 1023, 1024, 1025, 1100, 1500, 2049]


HUGE = [4095, 4096, 4097, 5000, 5001, 8191, 8192, 8193, 9999, 10000, 10001, 10050]


def big(rng, limit=2100):
    if limit > 1000 and rng.random() < 0.025:
        return rng.choice(HUGE)
    while True:
        n = rng.choice(BIG) + rng.choice([0, 0, 0, 1, 2])
        if n <= limit:
            return n


def big_items(rng, n=None):
    """A long list of hostile items."""
    n = big(rng) if n is None else n
    if rng.random() < 0.5:
        return items(rng, n)
    pool = [value(rng, 1) for _ in range(rng.choice([2, 6]))] + [None, 0]
    return [rng.choice(pool) if rng.random() < 0.3 else Tok(i) for i in range(n)]


class Pull:
    """Iterable by `__iter__` alone, afresh each time."""

    def __init__(self, xs):
        self._vf = xs

    def __iter__(self):
        return iter(self._vf)


class Sized(Pull):
    def __len__(self):
        return len(self._vf)


class ByIndex:
    """Iterable by `__getitem__` alone."""

    def __init__(self, xs):
        self._vf = xs

    def __getitem__(self, i):
        return self._vf[i]


class Hinted:
    """A one-shot iterator whose length hint is wrong."""

    def __init__(self, xs, hint):
        self._vf, self._hint = iter(xs), hint

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._vf)

    def __length_hint__(self):
        return self._hint


def source(rng, xs):
    """The items as some other kind of iterable, sized or not, one-shot or not."""
    xs = list(xs)
    k = rng.randrange(13)
    return [
        lambda: list(xs), lambda: tuple(xs), lambda: iter(xs), lambda: (x for x in xs), lambda: deque(xs), lambda: dict(enumerate(xs)).values(), lambda: Pull(xs),
        lambda: Sized(xs), lambda: ByIndex(xs), lambda: Hinted(xs, rng.choice([0, len(xs) // 2, len(xs) + 7])), lambda: UserList(xs), lambda: map(lambda x: x, xs), lambda: reversed(xs[::-1]),
    ][k]()


TRUTHY = [True, True, 1, "x", (0,), 2.5, -1]
UNTRUE = [False, False, 0, "", (), None, 0.0]


def truth(rng, yes):
    """Something that is true (or not) without being a bool."""
    return rng.choice(TRUTHY if yes else UNTRUE)


class Acc:
    """Addition that depends on order and grouping."""

    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __add__(self, o):
        return type(self)((self.n * 31 + getattr(o, "n", o) * 7 + 1) % 1000003)

    def __radd__(self, o):
        return type(self)((o * 13 + self.n + 5) % 1000003)

    def __eq__(self, o):
        return type(o) is type(self) and o.n == self.n

    __hash__ = None

    def __repr__(self):
        return f"{type(self).__name__}({self.n})"


class AccInt(int):
    """A number with its own addition."""

    def __add__(self, o):
        return AccInt(int(self) * 3 + int(o) + 1)

    def __radd__(self, o):
        return AccInt(int(o) * 2 + int(self) + 7)


class AccFloat(float):
    def __add__(self, o):
        return AccFloat(float(self) / 2 + float(o) + 1)

    def __radd__(self, o):
        return AccFloat(float(o) / 4 + float(self) + 2)


def summands(rng, n):
    """Things to add up: plain integers or values with an addition of their own."""
    k = rng.randrange(4)
    if k == 0:
        return [Acc(rng.randrange(1000)) for _ in range(n)]
    if k == 1:
        return [AccInt(rng.randrange(9)) if rng.random() < 0.8 else rng.randrange(9) for _ in range(n)] if n < 300 else [rng.randrange(-9, 9) for _ in range(n)]
    if k == 2:
        return [AccFloat(rng.randrange(9)) for _ in range(n)]
    return [rng.randrange(-9, 10) for _ in range(n)]


def same_sum(a, b):
    return type(a) is type(b) and (a == b or a != a and b != b)


def ints(rng, n=None, lo=-5, hi=9):
    if n is None:
        n = rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 7, 10, 17, 40])
    return [rng.randint(lo, hi) for _ in range(n)]


# ----------------------------------------------------------------------- comparison


def has_seq(v) -> bool:
    """Whether a lazy sequence (whose dictionary form is a one-shot iterator) is among or inside the values."""
    if isinstance(v, Seq):
        return True
    if isinstance(v, Option):
        return v.is_some() and has_seq(v.value)
    if isinstance(v, Result):
        return has_seq(v.ok if v.is_ok() else v.error)
    if isinstance(v, (list, tuple, Block)):
        return any(has_seq(x) for x in v)
    if isinstance(v, dict):
        return any(has_seq(x) for x in v.values())
    return False


_PRIM = (int, float, complex, str, bytes, bool, type(None), bytearray)


def same(a, b) -> bool:
    """Strictly the same: identical objects, or equal structure of the same types.

    Containers of the library and of Python are compared by structure and leaf
    identity; 0, False and 0.0 are different; other objects by identity.
    """
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if isinstance(a, float):
        return a == b and str(a) == str(b) or (a != a and b != b)
    if isinstance(a, _PRIM):
        return a == b
    if isinstance(a, Option):
        if a.is_some() != b.is_some():
            return False
        return not a.is_some() or same(a.value, b.value)
    if isinstance(a, Result):
        if a.is_ok() != b.is_ok():
            return False
        return same(a.ok, b.ok) if a.is_ok() else same(a.error, b.error)
    if isinstance(a, (list, tuple, Block)):
        la, lb = list(a), list(b)
        return len(la) == len(lb) and all(same(x, y) for x, y in zip(la, lb))
    if isinstance(a, Map):
        return same(list(a.items()), list(b.items()))
    if isinstance(a, Mapping):
        return same(list(a.items()), list(b.items()))
    if isinstance(a, (set, frozenset, range)):
        return a == b
    return False


def sames(a, b) -> bool:
    la, lb = list(a), list(b)
    return len(la) == len(lb) and all(same(x, y) for x, y in zip(la, lb))


def outcome(fn, *args, **kw):
    """('ok', value) or ('exc', exception)."""
    try:
        return ("ok", fn(*args, **kw))
    except Exception as e:
        return ("exc", e)


class Log(list):
    """A call log."""

    def wrap(self, name, fn):
        def logged(*args):
            self.append((name, args))
            return fn(*args)

        return logged

    def same(self, other) -> bool:
        return len(self) == len(other) and all(a[0] == b[0] and sames(a[1], b[1]) for a, b in zip(self, other))


def bomb(rng, fn, n_calls):
    """fn, but raising a fresh Boom at one call chosen among the first n_calls. Returns (fn, exc or None)."""
    at = rng.randrange(n_calls + 1)
    exc = boom(rng, at)
    state = [0]

    def f(*a):
        i = state[0]
        state[0] += 1
        if i == at:
            raise exc
        return fn(*a)

    return f, exc, state


def as_member(rng, f, name="f"):
    """A function as it is called through a class: (callable, the arguments it is given first)."""
    k = rng.choice(["function", "method", "method", "class", "static", "inherited", "late"])
    if k == "function":
        return f, ()
    if k in ("class", "static"):
        c = type("Owner", (), {name: (classmethod if k == "class" else staticmethod)(f)})
        return getattr(rng.choice([c, c()]), name), (c,) if k == "class" else ()
    c = type("Owner", (), {} if k == "late" else {name: f})
    if k == "inherited":
        c = type("Heir", (c,), {})
    o = c()
    if k == "late":
        setattr(c, name, f)
    return getattr(o, name), (o,)


class CallObj:
    """A callable object: no name, no doc, no truth value, unequal to itself."""

    def __init__(self, f):
        self.f = f

    def __call__(self, /, *a, **kw):
        return self.f(*a, **kw)

    def __bool__(self):
        raise RuntimeError("truth of a callable")

    def __eq__(self, o):
        return False

    __hash__ = None


class CallSlots:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __call__(self, /, *a, **kw):
        return self.f(*a, **kw)


class CallMethod:
    def __init__(self, f):
        self.f = f

    def run(self, /, *a, **kw):
        return self.f(*a, **kw)


def nameless(rng, f):
    """The function as another kind of callable."""
    import functools

    k = rng.choice(["partial", "object", "slots", "bound", "lambda"])
    return {"partial": lambda: functools.partial(f), "object": lambda: CallObj(f), "slots": lambda: CallSlots(f), "bound": lambda: CallMethod(f).run, "lambda": lambda: lambda *a, **kw: f(*a, **kw)}[k]()


class Surroundings:
    """What a statement can see of where it runs: the thread, the task and the context variables set so far."""

    def __init__(self):
        import contextvars

        self.var = contextvars.ContextVar("surroundings", default=0)
        self.seen = []
        self.n = 0

    def step(self):
        import asyncio
        import threading

        try:
            task = asyncio.current_task()
        except RuntimeError:
            task = None
        self.seen.append((threading.get_ident(), task, self.var.get(), self.n))
        self.n += 1
        self.var.set(self.n)

    def judge(self, check, what):
        """After the run, in the place it was started from."""
        self.step()
        first = self.seen[0]
        for s in self.seen:
            check(s[0] == first[0] and s[1] is first[1], f"{what}: a step ran in another thread or task than its caller", seen=self.seen)
            check(s[2] == s[3], f"{what}: a context variable set by an earlier step is not seen", seen=self.seen)
