from __future__ import annotations

import collections.abc as cabc
import datetime
import enum
import fractions
import numbers
import typing

from expression import Error, Nothing, Ok, Option, Result, Some, downcast, failwith, try_downcast, upcast
from expression import default_arg
from expression.collections import Block, Map, Seq

from vf.core import Workload, check
from vf.gen import Boom, Eq, NoBool, Tok, outcome, value

PROP = "C32"
RULE = (
    "A case draws an object (hostile values, instances of a generated class hierarchy with multiple inheritance, metaclass-defined and structural subclassing, library and standard containers) and a type (classes, abstract and "
    "runtime-checkable types, parameterised generics, tuples of types), and compares upcast, downcast and try_downcast with the interpreter's own instance test and object identity; failwith and default_arg with their definitions. "
    "Non-trivial: every case; distinct by type of object, type and outcome."
)
ASSUMPTIONS = ["assertions are enabled", "whether an object is an instance of a type is what isinstance says of the type, or of the origin of a parameterised generic"]
REQUIRED = ["instance", "not_instance", "generic", "abstract", "falsy", "failwith", "default_arg", "hooked"]


class A:
    pass


class B(A):
    pass


class C:
    pass


class D(B, C):
    def __bool__(self):
        return False


class Hooked(type):
    def __instancecheck__(cls, o):
        return type(o).__name__ in cls.names


class H(metaclass=Hooked):
    names = ("Tok", "D", "int")


class Color(enum.IntEnum):
    RED = 0


@typing.runtime_checkable
class HasLen(typing.Protocol):
    def __len__(self) -> int: ...


T = typing.TypeVar("T")


class G(typing.Generic[T]):
    pass


class GI(G[int], list):
    pass


TYPES = [object, int, bool, float, str, bytes, list, dict, tuple, A, B, C, D, type(None), Exception, Boom, BaseException, Color, type, numbers.Number, cabc.Iterable, cabc.Sequence, cabc.Callable, cabc.Mapping, cabc.Hashable, HasLen, H, G, GI, Option, Result, Block, Map, Seq, Tok, datetime.date]
GENERIC = [list[int], dict[str, int], tuple[int, ...], type[int], G[str], GI, Option[int], Result[int, str], Block[int], Map[str, int], typing.List[int], typing.Mapping[str, int], cabc.Iterable[int], cabc.Sequence[str], frozenset[int]]


def obj(rng):
    k = rng.randrange(4)
    if k == 0:
        return value(rng)
    if k == 1:
        return rng.choice([A, B, C, D, G, GI])()
    return rng.choice(
        [lambda: None, lambda: 0, lambda: True, lambda: "", lambda: [], lambda: {}, lambda: (), lambda: Color.RED, lambda: fractions.Fraction(1, 2), lambda: Boom(1), lambda: Boom, lambda: D, lambda: int, lambda: list[int], lambda: Some(1), lambda: Nothing, lambda: Ok(1), lambda: Error(0), lambda: Block([1]), lambda: Block([]), lambda: Map.empty(), lambda: Seq([1]), lambda: NoBool(), lambda: Eq(1, 2), lambda: datetime.datetime(2020, 1, 1), lambda: frozenset(), lambda: Tok(), lambda: len, lambda: range(0)]
    )()


def casts(rng, mon):
    x = obj(rng)
    generic = rng.random() < 0.3
    t = rng.choice(GENERIC if generic else TYPES)
    origin = typing.get_origin(t) or t
    yes = isinstance(x, origin)
    mon.ev("instance" if yes else "not_instance")
    if generic:
        mon.ev("generic")
    if t is H:
        mon.ev("hooked")
    if t in (numbers.Number, cabc.Iterable, cabc.Sequence, cabc.Callable, cabc.Mapping, cabc.Hashable, HasLen):
        mon.ev("abstract")
    if x is None or type(x) in (int, str, list, dict, tuple, D) and not x:
        mon.ev("falsy")
    got = outcome(try_downcast, t, x)
    check(got[0] == "ok" and got[1] is (x if yes else None), "try_downcast", type=t, value=x, got=got, instance=yes)
    check(upcast(t, x) is x, "upcast gives another object", type=t, value=x)
    if origin is t:
        if rng.random() < 0.2:
            u = rng.choice(TYPES)
            t, yes = (t, u), isinstance(x, (t, u))
        got = outcome(downcast, t, x)
        if yes:
            check(got[0] == "ok" and got[1] is x, "downcast of an instance", type=t, value=x, got=got)
        else:
            check(got[0] == "exc" and isinstance(got[1], (AssertionError, TypeError)), "downcast of an object that is not an instance", type=t, value=x, got=got)
    mon.sig(str(t), type(x).__name__, yes)


def helpers(rng, mon):
    msg = rng.choice(["", "boom", "é" * 3, "%s {} {0}", "a\nb", "x" * 5000])
    got = outcome(failwith, msg)
    check(got[0] == "exc" and type(got[1]) is Exception and got[1].args == (msg,), "failwith", got=got, want=msg)
    mon.ev("failwith")
    v, d = value(rng), value(rng)
    check(default_arg(Some(v), d) is v, "default_arg of a present value", value=v)
    check(default_arg(Nothing, d) is d, "default_arg of an absent value", default=d)
    mon.ev("default_arg")
    mon.sig("h", msg, type(v).__name__, type(d).__name__)


SCALE = 48
WORKLOADS = {
    "casts": Workload(casts, 40000, 600000),
    "helpers": Workload(helpers, 2000, 20000),
}
