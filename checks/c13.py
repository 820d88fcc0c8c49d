from __future__ import annotations

import asyncio

from expression import EffectError, Error, Nothing, Ok, Option, Result, Some, option, pipe, result
from expression.collections import Block, Seq, TypedArray, array, block, seq

from vf.core import Workload, check, fail
from vf.gen import Boom, Tok, falsy, value

from .optlib import agrees, cb, judge, mk_option, mk_result, observe

PROP = "C13"
RULE = (
    "A case takes an option, result or optional value over hostile values (falsy, None, nested options and results, values without truth value, exceptions) and "
    "applies one conversion in all its forms, a random walk of 1-8 conversions, or an unwrapping; every outcome is compared with a plain-data model: "
    "presence/track and the very same value object, or the documented error. Non-trivial: a conversion judged; distinct by conversion path, presence and value type."
)
ASSUMPTIONS = ["None denotes absence in the optional-value conversions, as documented, and only there"]
REQUIRED = [
    "conv:to_optional", "conv:of_optional", "conv:of_result", "conv:to_result", "conv:to_result_with", "conv:to_option", "conv:of_option", "conv:of_option_with",
    "conv:to_list", "conv:to_seq", "conv:block", "walks", "unwrap_ok", "unwrap_refused", "awaited", "dumped", "raised",
]


def opt(rng):
    return ("some", value(rng)) if rng.random() < 0.65 else ("none",)


def res(rng):
    return ("ok" if rng.random() < 0.55 else "error", value(rng))


def forms(rng, mon):
    k = rng.choice(REQUIRED[:11]).split(":")[1]
    mon.ev("conv:" + k)
    m = opt(rng)
    rm = res(rng)
    some, ok = m[0] == "some", rm[0] == "ok"
    v = m[1] if some else None
    x, r = mk_option(rng, m), mk_result(rng, rm, rm[0] == "ok" and rng.random() < 0.2)
    e = value(rng)
    f = cb(rng, e)
    cbs, calls, raw = [], [], False
    ctx = (k, m, rm)
    if k == "to_optional":
        raw, want = True, ("raw", v)
        fs = [lambda: x.to_optional(), lambda: option.to_optional(x), lambda: pipe(x, option.to_optional)]
    elif k == "of_optional":
        o = None if rng.random() < 0.2 else value(rng)
        want = ("none",) if o is None else ("some", o)
        ctx = (k, o)
        fs = [lambda: Option.of_optional(o), lambda: option.of_optional(o), lambda: Option.of_obj(o), lambda: option.of_obj(o)]
    elif k == "of_result":
        want = ("some", rm[1]) if ok else ("none",)
        fs = [lambda: Option.of_result(r), lambda: option.of_result(r), lambda: pipe(r, option.of_result)]
    elif k == "to_option":
        want = ("some", rm[1]) if ok else ("none",)
        fs = [lambda: r.to_option(), lambda: result.to_option(r), lambda: pipe(r, result.to_option)]
    elif k == "to_result":
        want = ("ok", v) if some else ("error", e)
        fs = [lambda: x.to_result(e), lambda: option.to_result(x, e)]
    elif k == "of_option":
        want = ("ok", v) if some else ("error", e)
        fs = [lambda: Result.of_option(x, e), lambda: result.of_option(x, e)]
    elif k in ("to_result_with", "of_option_with"):
        want = ("ok", v) if some else ("exc", f.exc) if f.exc else ("error", e)
        cbs, calls = [f], [[] if some else [()]]
        fs = [lambda: x.to_result_with(f), lambda: option.to_result_with(x, f)] if k == "to_result_with" else [lambda: Result.of_option_with(x, f), lambda: result.of_option_with(x, f)]
    elif k == "to_list":
        raw, want = True, ("rawlist", [v] if some else [])
        fs = [lambda: x.to_list(), lambda: option.to_list(x), lambda: pipe(x, option.to_list)]
        check(type(x.to_list()) is list, "Option.to_list gives no list", got=type(x.to_list()))
    elif k == "to_seq":
        raw, want = True, ("rawlist", [v] if some else [])
        fs = [lambda: x.to_seq(), lambda: option.to_seq(x), lambda: pipe(x, option.to_seq), lambda: list(x.to_seq().to_list())]
        s = x.to_seq()
        check(isinstance(s, Seq), "Option.to_seq gives no sequence", got=type(s))
        check([*map(id, s)] == [*map(id, s)], "the sequence of an option differs when iterated again", option=m)
    else:
        raw, want = True, ("rawlist", [v] if some else [])
        fs = [lambda: Block.of_option(x), lambda: block.of_option(x)]
        check(isinstance(Block.of_option(x), Block), "Block.of_option gives no block")
        if some and type(v) in (int, str):
            check(list(array.of_option(x)) == [v], "array.of_option", option=m)
        elif not some:
            check(list(array.of_option(x)) == [], "array.of_option", option=m)
    for i, t in enumerate(fs):
        judge(f"conversion {k} (form {i})", t, want, cbs, calls, raw=raw, ctx=ctx)
    if want[0] == "exc":
        mon.ev("raised")
    check(agrees(observe(x), m) and agrees(observe(r), rm), f"conversion {k} changed its operand", ctx=ctx)
    mon.sig(k, m[0], type(v).__name__, rm[0], type(rm[1]).__name__, i)


def walk(rng, mon):
    """Random walk of lossless conversions; the model is presence/track plus the object."""
    m = opt(rng) if rng.random() < 0.5 else res(rng)
    x = mk_option(rng, m) if m[0] in ("some", "none") else mk_result(rng, m)
    path = []
    for _ in range(rng.randint(1, 8)):
        if isinstance(x, Option):
            e = value(rng)
            step = rng.choice(["to_result", "to_result_with", "of_option", "optional", "list", "seq", "block"])
            if step in ("to_result", "to_result_with", "of_option"):
                x = {"to_result": lambda: x.to_result(e), "to_result_with": lambda: x.to_result_with(lambda: e), "of_option": lambda: result.of_option(x, e)}[step]()
                m = ("ok", m[1]) if m[0] == "some" else ("error", e)
            elif step == "optional":
                x = Option.of_optional(x.to_optional())
                if m[0] == "some" and m[1] is None:
                    m = ("none",)  # documented: None is absence here
            elif step == "list":
                ls = x.to_list()
                x = Some(ls[0]) if ls else Nothing
            elif step == "seq":
                x = seq.try_pick(lambda a: Some(a))(x.to_seq()) if rng.random() < 0.5 else x.to_seq().try_pick(Some)
            else:
                x = Block.of_option(x).try_head()
        else:
            step = rng.choice(["to_option", "of_result", "swap", "roundtrip"])
            if step == "to_option":
                x = x.to_option()
                m = ("some", m[1]) if m[0] == "ok" else ("none",)
            elif step == "of_result":
                x = option.of_result(x)
                m = ("some", m[1]) if m[0] == "ok" else ("none",)
            elif step == "swap":
                x = x.swap()
                m = ("error" if m[0] == "ok" else "ok", m[1])
            else:
                e = m[1] if m[0] == "error" else Tok()
                x = x.to_option().to_result(e)
        path.append(step)
        check(agrees(observe(x), m), "a walk of conversions loses something", path=path, got=observe(x), want=m)
    mon.ev("walks")
    mon.sig("walk", path, m[0])
    mon.sample(f"{path} -> {m!r}")


def unwrap(rng, mon):
    m = opt(rng) if rng.random() < 0.5 else res(rng)
    if m[0] in ("some", "none"):
        x = mk_option(rng, m)
        t = ("raw", m[1]) if m[0] == "some" else None
        judge("Option.value", lambda: x.value, t or ("excT", ValueError), raw=True, ctx=m)
        judge("Option.some", lambda: x.some, t or ("excT", AttributeError), raw=True, ctx=m)
    else:
        x = mk_result(rng, m)
        t = ("raw", m[1]) if m[0] == "ok" else None
        judge("Result.ok", lambda: x.ok, t or ("excT", AttributeError), raw=True, ctx=m)
        judge("Result.error", lambda: x.error, ("excT", AttributeError) if t else ("raw", m[1]), raw=True, ctx=m)
    mon.ev("unwrap_ok" if t else "unwrap_refused")

    # as an effect: yields exactly its value, and returns what is sent, or fails with EffectError carrying the value's absence/error
    if t:
        g = iter(x)
        check(next(g) is m[1], "iterating a present value yields something else", value=m)
        sent = Tok()
        try:
            g.send(sent)
            fail("a present value yields twice", value=m)
        except StopIteration as stop:
            check(stop.value is sent, "a present value returns something else than what was sent", value=m, got=stop.value)
        check(len(list(x)) == 1, "iterating a present value yields more than its value", value=m)
    else:
        judge("iterating an absent or error value", lambda: list(x), ("excT", EffectError), raw=True, ctx=m)
        try:
            next(iter(x))
        except EffectError as ee:
            check(len(ee.args) == 1 and agrees(observe(ee.args[0]), m), "the effect error carries something else", got=ee.args, want=m)

    async def a():
        return await x

    mon.ev("awaited")
    co = a()
    try:
        co.send(None)
        fail("awaiting an option or result suspends", value=m)
    except StopIteration as stop:
        check(t is not None and stop.value is m[1], "awaiting gives something else", value=m, got=stop.value)
    except EffectError as ee:
        check(t is None and len(ee.args) == 1 and agrees(observe(ee.args[0]), m), "awaiting fails with something else", value=m, got=ee.args)
    finally:
        co.close()
    mon.sig("unwrap", m[0], type(m[-1]).__name__)


class Dumps:
    def __init__(self, how, ret):
        self.ret = ret
        setattr(self, how, lambda: self.ret)


class DumpsDict(Dumps, dict):
    pass


class DumpsList(Dumps, list):
    pass


class DumpsStr(Dumps, str):
    def __new__(cls, how, ret):
        return str.__new__(cls, "text")


class Plain:
    """Attributes of those names that are data."""

    dict = model_dump = "data"


def dumped(rng, mon):
    """dict(): the present value (dumped if it can be), None when absent."""

    def build(d):
        k = rng.randrange(7)
        if d <= 0 or k == 0:
            v = rng.choice([falsy(rng), 1, "a", Tok(), Plain()])
            return v, v
        if k == 1:
            t = Tok()
            return rng.choice([Dumps, Dumps, DumpsDict, DumpsList, DumpsStr])(rng.choice(["model_dump", "dict"]), t), t
        if k == 2:
            return mk_option(rng, ("none",)), None
        v, w = build(d - 1)
        if k in (3, 4):
            return mk_option(rng, ("some", v)), w
        t = "ok" if k == 5 else "error"
        return mk_result(rng, (t, v)), {"tag": t, t: w}

    def sameish(a, b):
        if isinstance(b, dict) and b and "tag" in b:
            return isinstance(a, dict) and list(a) == list(b) and all(sameish(a[k], b[k]) for k in b)
        return a is b or (isinstance(a, str) and a == b)

    v, w = build(4)
    if rng.random() < 0.5:
        x = mk_option(rng, ("some", v))
        got = [x.dict(), option.model_dump(x)]
        want = w
    else:
        t = rng.choice(["ok", "error"])
        x = mk_result(rng, (t, v))
        got = [x.dict(), result.dict(x)]
        want = {"tag": t, t: w}
    for g in got:
        check(sameish(g, want), "dict() of an option or result", got=g, want=want)
    check(Nothing.dict() is None, "dict() of Nothing")
    mon.ev("dumped")
    mon.sig("dump", repr(want)[:80])


SCALE = 30
WORKLOADS = {
    "forms": Workload(forms, 24000, 500000),
    "walk": Workload(walk, 12000, 250000),
    "unwrap": Workload(unwrap, 8000, 150000),
    "dumped": Workload(dumped, 4000, 80000),
}

_ = (asyncio, Boom, TypedArray, Error, Ok)
