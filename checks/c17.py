from __future__ import annotations

import inspect

from expression import Error, Nothing, Ok, Some, effect

from vf.core import Workload, check, fail
from vf.gen import AllEq, Boom, BoomBase, Surroundings, Tok, as_member, nameless, value
from vf.sched import Scheduler, pause

from .complib import Program, logs_same, obs
from .optlib import agrees

PROP = "C17"
RULE = (
    "A case compiles a random computation body (yields, yields from present and absent values, nested and recursive computations, branches, loops, try/finally, "
    "try/except, with, raise, return) to Python source, decorates it with the option, result or try builder and runs it, comparing the outcome (track and value identity), the "
    "exception object and the complete log of executed statements with a direct interpreter of the bind chain. Runs are repeated, nested, re-entrant, interleaved on several threads "
    "under a seeded scheduler that can switch at every line of the builder, and long (thousands of statements). Non-trivial: a body with at least one statement; distinct by source and outcome."
)
ASSUMPTIONS = ["a body that ends without returning a value has its last yielded value as final value; one that yields nothing has the builder's zero", "bodies do not catch EffectError themselves"]
REQUIRED = ["short", "value", "exception", "cleanup_on_short", "recursion", "nested", "threads", "switches", "long", "plain_body", "surroundings", "repeat", "generator_state", "pieces"]

BUILDERS = {"option": [effect.option], "result": [effect.result, effect.try_]}


def observe_run(p, depth, thunk=None):
    log = []
    try:
        got = obs((thunk or (lambda: p.call(log.append, depth)))())
    except (Exception, BoomBase) as e:
        got = ("exc", e)
    return got, log


def compare(p, depth, got, log, where, mon=None):
    wlog = []
    want = p.model(depth, wlog.append)
    if not agrees(got, want):
        fail(f"{where}: a computation has another outcome than its bind chain", got=got, want=want, source=p.src, values=p.V, depth=depth)
    if not logs_same(log, wlog):
        fail(f"{where}: other statements ran than the bind chain runs", got=log, want=wlog, source=p.src, values=p.V, depth=depth)
    if mon:
        mon.ev({"none": "short", "error": "short", "exc": "exception"}.get(want[0], "value"))
        if want[0] in ("none", "error") and any(e[0] in ("finally", "exit") for e in wlog):
            mon.ev("cleanup_on_short")
    return want


def make(rng, **kw):
    kind = rng.choice(["option", "result"])
    p = Program(rng, kind, False, **kw)
    p.decorate(rng.choice(BUILDERS[kind])())
    return p


def has(prog, k):
    return any(st[0] == k or (len(st) > 2 and has(st[2], k)) for st in prog)


def bodies(rng, mon):
    p = make(rng)
    for i in range(rng.choice([1, 1, 2, 3])):
        depth = rng.choice([0, 1, 2]) if p.uses_rec else 0
        got, log = observe_run(p, depth)
        want = compare(p, depth, got, log, "a call", mon)
        if depth:
            mon.ev("recursion")
        if i:
            mon.ev("repeat")
    if has(p.prog, "call"):
        mon.ev("nested")
    if p.prog:
        mon.sig(p.src, want[0])
        mon.sample(p.src.replace("\n", " ; ")[:300] + f" -> {want!r}"[:100])


def threads(rng, mon):
    """The same computation, and others of the same builder, run on several threads."""
    kind = rng.choice(["option", "result"])
    b = rng.choice(BUILDERS[kind])()
    ps = [Program(rng, kind, False, size=rng.choice([2, 4, 6])) for _ in range(2)]
    for p in ps:
        p.decorate(b)
    s = Scheduler(rng)
    runs = []

    def worker(p, depth):
        log = []

        def logged(e):
            log.append(e)
            pause()

        def go():
            runs.append((p, depth, *observe_run(p, depth, lambda: p.call(logged, depth))[:1], log))

        return go

    for _ in range(rng.randint(2, 4)):
        p = rng.choice(ps)
        s.spawn(worker(p, rng.choice([0, 1]) if p.uses_rec else 0))
    s.run()
    for w in s.workers:
        check(w.error is None, "a concurrent run failed", error=w.error)
    for p, depth, got, log in runs:
        compare(p, depth, got, log, "a concurrent run", mon)
    mon.ev("threads", len(runs))
    mon.ev("switches", s.switches)
    mon.sig("threads", s.signature(), ps[0].src)


def interleaved_generators(rng, mon):
    """Two runs interleaved on one thread: a body calls another run of itself from a callback."""
    kind = rng.choice(["option", "result"])
    wrap = Some if kind == "option" else Ok
    b = rng.choice(BUILDERS[kind])()
    n = rng.randint(1, 4)
    log = []

    @b
    def comp(i, xs):
        acc = []
        for x in xs:
            v = yield from wrap(x)
            acc.append(v)
            if i > 0:
                r = comp(i - 1, [*xs, i])
                log.append((i, obs(r)))
            w = yield (v, i)
            check(w == (v, i), "a yielded value came back as another", got=w)
        return acc

    xs = [Tok() for _ in range(n)]
    r = comp(2, xs)
    check(obs(r)[0] == ("some" if kind == "option" else "ok") and len(r.some if kind == "option" else r.ok) == n and all(a is b for a, b in zip(obs(r)[1], xs)), "re-entrant runs interfere", got=r)
    for i, m in log:
        check(len(m[1]) == n + 3 - i and all(a is b for a, b in zip(m[1], xs)), "re-entrant runs interfere", got=m, level=i)
    mon.ev("generator_state")
    mon.sig("reent", kind, n)


def plain_bodies(rng, mon):
    kind = rng.choice(["option", "result"])
    b = rng.choice(BUILDERS[kind])()
    v = AllEq() if rng.random() < 0.05 else value(rng)
    if inspect.isgenerator(v):
        v = Tok()  # what a body returning a generator object means is not specified
    calls = []
    mode = rng.choice(["value", "none", "raise", "gen_none", "gen_empty"])
    exc = rng.choice([Boom, BoomBase, KeyError, StopIteration])(1)

    if mode in ("value", "none", "raise"):

        def f(*a, **kw):
            """doc"""
            calls.append((a, kw))
            if mode == "raise":
                raise exc
            return v if mode == "value" else None
    else:

        def f(*a, **kw):
            """doc"""
            calls.append((a, kw))
            if mode == "gen_none":
                yield v
            else:
                for x in ():
                    yield x

    raw, f = f, b(f)
    a, kw = (Tok(), v), {"k": v}
    m, first = as_member(rng, f)
    if rng.random() < 0.3:
        m, first = b(nameless(rng, raw)), ()
    try:
        got = obs(m(*a, **kw))
    except (Exception, BoomBase) as e:
        got = ("exc", e)
    good = "some" if kind == "option" else "ok"
    zero = ("none",) if kind == "option" else ("ok", None)
    want = {"value": (good, v) if v is not None else zero, "none": zero, "raise": ("exc", exc), "gen_none": (good, v), "gen_empty": zero}[mode]
    check(agrees(got, want), "a body without or with a single yield", mode=mode, got=got, want=want)
    a = first + a
    check(len(calls) == 1 and len(calls[0][0]) == len(a) and all(x is y for x, y in zip(calls[0][0], a)) and list(calls[0][1]) == ["k"] and calls[0][1]["k"] is v, "arguments of a computation", got=calls)
    check(f.__name__ == "f" and f.__doc__ == "doc", "metadata of a computation")
    mon.ev("plain_body")
    mon.sig("plain", mode, kind, type(v).__name__)


def long_bodies(rng, mon):
    kind = rng.choice(["option", "result"])
    b = rng.choice(BUILDERS[kind])()
    n = rng.choice([500, 3000, 12000])
    wrap = Some if kind == "option" else Ok
    bad = (Nothing if kind == "option" else Error(Tok())) if rng.random() < 0.5 else None
    at = rng.randrange(n)
    seen = []
    form = rng.choice(["from", "yield", "mixed"])

    @b
    def f():
        total = 0
        for i in range(n):
            if bad is not None and i == at:
                yield from bad
            if form == "yield" or (form == "mixed" and i % 2):
                x = yield i
            else:
                x = yield from wrap(i)
            seen.append(x)
            total += x
        return total

    got = obs(f())
    if bad is None:
        check(got == (("some" if kind == "option" else "ok"), n * (n - 1) // 2), "a long computation", got=got, n=n)
        check(seen == list(range(n)), "a long computation runs other statements", n=n, got=len(seen))
    else:
        check(agrees(got, obs(bad)), "a long computation with an early exit", got=got, n=n, at=at)
        check(seen == list(range(at)), "a long computation runs other statements", n=n, at=at, got=len(seen))
    mon.ev("long")
    mon.sig("long", kind, n, form, at if bad is not None else None)


def pieces(rng, mon):
    """The builder's own bind, combine, return and zero, called directly."""
    kind = rng.choice(["option", "result"])
    b = rng.choice(BUILDERS[kind])()
    good = "some" if kind == "option" else "ok"

    def m():
        if rng.random() < 0.6:
            return (Some if kind == "option" else Ok)(value(rng))
        return Nothing if kind == "option" else Error(value(rng))

    x, y, v = m(), m(), value(rng)
    calls = []

    def fn(a):
        calls.append(a)
        return y

    present = obs(x)[0] == good
    got = obs(b.bind(x, fn))
    check(agrees(got, obs(y) if present else obs(x)), "builder bind", x=x, y=y, got=got)
    check(len(calls) == present and (not present or calls[0] is obs(x)[1]), "builder bind: calls", x=x, got=calls)
    got = obs(b.combine(x, y))
    check(agrees(got, obs(y) if present else obs(x)), "builder combine", x=x, y=y, got=got)
    check(agrees(obs(b.return_(v)), (good, v)), "builder return_", v=v)
    check(agrees(obs(b.return_from(x)), obs(x)), "builder return_from", x=x)
    check(agrees(obs(b.zero()), ("none",) if kind == "option" else ("ok", None)), "builder zero")
    mon.ev("pieces")
    mon.sig("pieces", kind, obs(x)[0], obs(y)[0], type(v).__name__)


SCALE = 6
def surroundings(rng, mon):
    """Every statement runs where the caller is: same thread, same context variables."""
    kind = rng.choice(["option", "result"])
    b = rng.choice(BUILDERS[kind])()
    s = Surroundings()
    n = rng.choice([1, 3, 10])
    good = Some if kind == "option" else Ok
    how = [rng.choice(["yield", "from", "log", "nested"]) for _ in range(n)]

    @b
    def inner():
        s.step()
        yield from good(1)
        s.step()
        return 2

    @b
    def f():
        for h in how:
            s.step()
            if h == "yield":
                yield 1
            elif h == "from":
                yield from good(1)
            elif h == "nested":
                yield from inner()
        s.step()
        return 5

    s.step()
    got = obs(f())
    check(agrees(got, ("some" if kind == "option" else "ok", 5)), "a computation", got=got)
    s.judge(check, "a computation")
    mon.ev("surroundings")
    mon.sig("surroundings", kind, tuple(how))


WORKLOADS = {
    "bodies": Workload(bodies, 9000, 200000),
    "threads": Workload(threads, 1200, 20000),
    "interleaved_generators": Workload(interleaved_generators, 300, 3000),
    "plain_bodies": Workload(plain_bodies, 2000, 30000),
    "surroundings": Workload(surroundings, 1000, 10000),
    "pieces": Workload(pieces, 1000, 10000),
    "long_bodies": Workload(long_bodies, 100, 800),
}
