"""Shared by C11-C13: logged callbacks, plain-data models of options and results, strict judges."""

from __future__ import annotations

from expression import Error, Failure, Nothing, Ok, Option, Result, Some, Success

from vf.core import fail
from vf.gen import BoomBase, boom


class Cb:
    """A callback: logs its arguments, then returns a given value or raises."""

    def __init__(self, ret=None, exc=None):
        self.ret, self.exc, self.calls = ret, exc, []

    def __call__(self, *a, **kw):
        self.calls.append(a + tuple(sorted(kw.items())))
        if self.exc is not None:
            raise self.exc
        return self.ret

    def __repr__(self):
        return f"Cb(ret={self.ret!r}, exc={self.exc!r})"


def cb(rng, ret, p=0.15):
    if rng.random() < p:
        return Cb(ret, BoomBase("cb") if rng.random() < 0.1 else boom(rng, "cb", stop=True))
    return Cb(ret)


# plain-data models: ("none",) ("some", v) / ("ok", v) ("error", e)


def mk_option(rng, m):
    if m[0] == "none":
        return rng.choice([lambda: Nothing, lambda: Option.Nothing(), lambda: Option(none=None)])()
    v = m[1]
    return rng.choice([lambda: Some(v), lambda: Option.Some(v), lambda: Option(some=v)])()


def mk_result(rng, m, tries=False):
    k, v = m
    if tries:
        return Success(v) if k == "ok" else Failure(v)
    if k == "ok":
        return rng.choice([lambda: Ok(v), lambda: Result.Ok(v), lambda: Result(ok=v)])()
    return rng.choice([lambda: Error(v), lambda: Result.Error(v), lambda: Result(error=v)])()


def observe(x):
    """An option or result as plain data, through the most primitive observations."""
    if isinstance(x, Option):
        if x.tag == "some":
            return ("some", x.some)
        return ("none",)
    if isinstance(x, Result):
        if x.tag == "ok":
            return ("ok", x.ok)
        return ("error", x.error)
    return ("raw", x)


def agrees(got, want):
    return len(got) == len(want) and got[0] == want[0] and all(a is b for a, b in zip(got[1:], want[1:]))


def judge(what, thunk, want, cbs=(), calls=(), raw=False, ctx=None, base=True):
    """Run one form and compare with the definition.

    want: a model, ("raw", v), ("exc", e) (that very exception) or ("excT", type).
    calls: for every callback the list of argument tuples it must have seen.
    """
    for c in cbs:
        c.calls.clear()
    try:
        r = thunk()
        got = ("raw", r) if raw else observe(r)
    except (Exception, BoomBase) as e:
        r = None
        got = ("exc", e)
    ok = False
    if want[0] == "excT":
        ok = got[0] == "exc" and isinstance(got[1], want[1])
    elif want[0] == "eqraw":
        ok = got[0] == "raw" and type(got[1]) is type(want[1]) and got[1] == want[1]
    elif want[0] == "rawlist":
        try:
            items = list(got[1])
            ok = got[0] == "raw" and len(items) == len(want[1]) and all(a is b for a, b in zip(items, want[1]))
        except TypeError:
            ok = False
    else:
        ok = agrees(got, want)
    if not ok:
        fail(f"{what}: wrong outcome", got=got, want=want, context=ctx)
    for c, w in zip(cbs, calls):
        if len(c.calls) != len(w) or any(len(a) != len(b) or any(x is not y for x, y in zip(a, b)) for a, b in zip(c.calls, w)):
            fail(f"{what}: callback calls differ", got=c.calls, want=w, context=ctx)
    return r
