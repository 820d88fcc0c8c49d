from __future__ import annotations

from expression import Error, Nothing, Ok, Option, Result, Some, pipe
from expression.collections import Block
from expression.extra import option as xoption
from expression.extra import result as xresult

from vf.core import Workload, check, fail
from vf.gen import Boom, boom, BoomBase, Tok, items, value
from vf.sched import Deadlock, Scheduler, install_lock_shims, pause

from .optlib import agrees, observe

install_lock_shims()

PROP = "C29"
RULE = (
    "A case traverses or sequences a block of 0-40 (or up to 100,000) hostile elements with an instrumented function giving successes, errors (0-all of them, at random positions) or an exception, or runs an option or result pipeline of 0-40 (or thousands of) instrumented functions "
    "with an absent, error or exceptional outcome at a random position, alone, nested, reused or from preempted threads; the outcome (by identity) and the log of calls with arguments (by identity) are compared with a plain loop. Non-trivial: at least one element or function; distinct by form, length and position of the failure."
)
ASSUMPTIONS = []
REQUIRED = ["all_ok", "first_error", "several_errors", "raised", "sequence", "pipe_option", "pipe_result", "pipe_short", "empty", "long", "nested", "reuse", "threaded", "first_position", "last_position"]


def fresh(rng, k, v):
    return rng.choice([Ok, Result.Ok])(v) if k == "ok" else rng.choice([Error, Result.Error])(v)


def plan(rng, n):
    """Outcomes for n elements."""
    mode = rng.choice(["ok", "one", "one", "several", "all", "exc"])
    out = ["ok"] * n
    if n and mode == "one":
        out[rng.choice([0, n - 1, rng.randrange(n)])] = "error"
    elif mode == "several":
        out = [rng.choice(["ok", "ok", "error"]) for _ in range(n)]
    elif mode == "all":
        out = ["error"] * n
    elif mode == "exc" and n:
        out[rng.randrange(n)] = "exc"
        if rng.random() < 0.3:
            out[rng.randrange(n)] = "error"
    return out


def run(thunk):
    try:
        return observe(thunk())
    except (Exception, BoomBase) as e:
        return ("exc", e)


def block_agrees(got, want):
    """want: ("ok", list) or ("error", e) or ("exc", e)"""
    if want[0] != "ok":
        return agrees(got, want)
    if got[0] != "ok" or not isinstance(got[1], Block):
        return False
    xs = list(got[1])
    return len(xs) == len(want[1]) and all(a is b for a, b in zip(xs, want[1]))


def traversals(rng, mon):
    n = rng.choice([0, 1, 2, 3, 5, 10, 40])
    elems = items(rng, n)
    n = len(elems)
    outs = plan(rng, n)
    vals = [value(rng) for _ in range(n)]
    exc = BoomBase("fn") if rng.random() < 0.2 else boom(rng, "fn")
    results = [None if o == "exc" else fresh(rng, o, v) for o, v in zip(outs, vals)]
    log = []
    state = [0]

    def f(x):
        i = state[0]
        state[0] += 1
        log.append(x)
        pause()
        if i >= n:
            fail("the function was called for more elements than there are", n=n)
        if outs[i] == "exc":
            raise exc
        return results[i]

    # the meaning
    stop = next((i for i, o in enumerate(outs) if o != "ok"), None)
    if stop is None:
        want, wlog = ("ok", vals), elems
    else:
        want = ("exc", exc) if outs[stop] == "exc" else ("error", vals[stop])
        wlog = elems[: stop + 1]

    blk = Block(elems)
    k = rng.choice(["traverse", "traverse", "sequence"])
    if k == "sequence" and "exc" in outs:
        k = "traverse"
    if k == "traverse":
        got = run(lambda: xresult.traverse(f, blk))
        check(len(log) == len(wlog) and all(a is b for a, b in zip(log, wlog)), "traverse processed other elements than from left to right up to the first failure", got=log, want=wlog, outcomes=outs)
    else:
        rb = Block(results)
        got = run(lambda: xresult.sequence(rb))
        check(len(rb) == n and all(a is b for a, b in zip(rb, results)), "sequence changed its argument")
        mon.ev("sequence")
    if not block_agrees(got, want):
        fail(f"{k}: wrong outcome", got=got, want=want, outcomes=outs)
    check(len(blk) == n and all(a is b for a, b in zip(blk, elems)), "traverse changed its argument")
    if n == 0:
        mon.ev("empty")
    else:
        mon.sig(k, n, stop, want[0], outs.count("error"))
    if stop is None:
        mon.ev("all_ok")
    elif outs[stop] == "error":
        mon.ev("first_error")
        if stop == 0:
            mon.ev("first_position")
        if stop == n - 1:
            mon.ev("last_position")
        if outs.count("error") > 1:
            mon.ev("several_errors")
    else:
        mon.ev("raised")
    mon.sample([k, n, outs[:12]])


def nested(rng, mon):
    """Traversals inside the function of a traversal."""
    rows = [[rng.randrange(10) for _ in range(rng.randrange(4))] for _ in range(rng.choice([1, 3, 6]))]
    bad = rng.choice([7, 8, 99])
    log = []

    def inner(x):
        log.append(x)
        return Error(("bad", x)) if x == bad else Ok(x * 2)

    got = run(lambda: xresult.traverse(lambda r: xresult.traverse(inner, Block(r)), Block(rows)))
    wlog, want = [], []
    err = None
    for r in rows:
        row = []
        for x in r:
            wlog.append(x)
            if x == bad:
                err = ("bad", x)
                break
            row.append(x * 2)
        if err:
            break
        want.append(row)
    check(log == wlog, "nested traversals processed other elements", got=log, want=wlog, rows=rows)
    if err:
        check(got[0] == "error" and got[1] == err, "nested traversals: wrong error", got=got, want=err)
    else:
        check(got[0] == "ok" and [list(b) for b in got[1]] == want and all(type(b) is Block for b in got[1]), "nested traversals: wrong values", got=got, want=want)
    mon.ev("nested")
    mon.sig("nested", rows, bad)


def pipelines(rng, mon, n=None):
    kind = rng.choice(["option", "result"])
    n = rng.choice([0, 1, 2, 3, 6, 7, 15, 40])
    good = "some" if kind == "option" else "ok"
    vals = [value(rng) for _ in range(n)]
    outs = ["ok"] * n
    if n and rng.random() < 0.6:
        outs[rng.choice([0, n - 1, rng.randrange(n)])] = rng.choice(["short", "short", "exc"])
    exc = BoomBase("fn") if rng.random() < 0.2 else boom(rng, "fn")
    log = []

    def mk(i):
        if kind == "option":
            ret = rng.choice([Some, Option.Some])(vals[i]) if outs[i] == "ok" else rng.choice([Nothing, Option.Nothing()])
        else:
            ret = fresh(rng, "ok" if outs[i] == "ok" else "error", vals[i])

        def f(*a):
            log.append((i, a))
            pause()
            if outs[i] == "exc":
                raise exc
            return ret

        return f

    fs = [mk(i) for i in range(n)]
    pl = xoption.pipeline if kind == "option" else xresult.pipeline
    style = rng.choice(["flat", "flat", "grouped", "reuse", "pipe"])
    x0 = value(rng)

    def expected(x):
        w = []
        cur = x
        for i in range(n):
            w.append((i, (cur,)))
            if outs[i] == "exc":
                return ("exc", exc), w
            if outs[i] == "short":
                return (("none",) if kind == "option" else ("error", vals[i])), w
            cur = vals[i]
        return (good, cur), w

    def one(p, x, where):
        log.clear()
        got = run(lambda: p(x))
        want, wlog = expected(x)
        if not agrees(got, want):
            fail(f"{where}: wrong outcome of a {kind} pipeline", got=got, want=want, outcomes=outs)
        ok = len(log) == len(wlog) and all(a[0] == b[0] and len(a[1]) == 1 and a[1][0] is b[1][0] for a, b in zip(log, wlog))
        if not ok:
            fail(f"{where}: a {kind} pipeline ran other functions", got=log, want=wlog, outcomes=outs)
        return want

    if style == "grouped" and n:
        i = rng.randint(0, n)
        p = pl(pl(*fs[:i]), pl(*fs[i:])) if rng.random() < 0.5 else pl(pl(*fs[:i]), *fs[i:])
        mon.ev("nested")
    else:
        p = pl(*fs)
    check(not log, "building a pipeline called its functions")
    if style == "pipe":
        want = one(lambda x: pipe(x, p), x0, style)
    else:
        want = one(p, x0, style)
    if style == "reuse":
        for _ in range(2):
            one(p, value(rng), style)
        mon.ev("reuse")
    mon.ev("pipe_" + kind)
    if want[0] in ("none", "error"):
        mon.ev("pipe_short")
    if want[0] == "exc":
        mon.ev("raised")
    if n:
        mon.sig("pipe", kind, n, outs, style)
    else:
        mon.ev("empty")


def threads(rng, mon):
    sched = Scheduler(rng)
    n = rng.choice([2, 3])
    m = rng.choice([2, 4])
    kind = rng.choice(["traverse", "option", "result"])

    def step(x):
        pause()
        if x[1] > m + 2:
            return Error(x) if kind != "option" else Nothing
        return (Some if kind == "option" else Ok)((x[0], x[1] + 1))

    p = xoption.pipeline(*[step] * m) if kind == "option" else xresult.pipeline(*[step] * m)
    outs = [[] for _ in range(n)]

    def worker(i):
        def run_():
            for j in range(3):
                if kind == "traverse":
                    outs[i].append((observe(xresult.traverse(step, Block([((i, j), q) for q in range(m)]))), "t", j))
                else:
                    outs[i].append((observe(p(((i, j), j))), "p", j))

        return run_

    for i in range(n):
        sched.spawn(worker(i))
    try:
        sched.run()
    except Deadlock as e:
        fail(f"concurrent pipelines deadlock: {e}")
    for w in sched.workers:
        if w.error is not None:
            raise w.error
    for i in range(n):
        for got, k, j in outs[i]:
            if k == "t":
                check(got[0] == "ok" and list(got[1]) == [((i, j), q + 1) for q in range(m)], "a concurrent traversal", got=got)
            else:
                cur, short = j, False
                for _ in range(m):
                    if cur > m + 2:
                        short = True
                        break
                    cur += 1
                if short:
                    check(got[0] in ("none", "error"), "a concurrent pipeline", got=got)
                else:
                    check(got[1] == ((i, j), cur), "a concurrent pipeline", got=got)
    mon.ev("threaded", sched.switches)
    mon.sig("threads", kind, sched.signature())


def long(rng, mon):
    k = rng.choice(["traverse", "sequence", "option", "result"])
    n = rng.choice([1500, 20000, 100000]) if k in ("traverse", "sequence") else rng.choice([1500, 8000])
    bad = rng.choice([None, n - 1, rng.randrange(n)])
    calls = [0]
    e = Tok()
    if k == "traverse":

        def f(x):
            calls[0] += 1
            return Error(e) if x == bad else Ok(x + 1)

        got = observe(xresult.traverse(f, Block(range(n))))
        check(calls[0] == (n if bad is None else bad + 1), "a long traversal made another number of calls", n=n, bad=bad, calls=calls[0])
        ok = got[0] == "ok" and list(got[1]) == list(range(1, n + 1)) if bad is None else got[0] == "error" and got[1] is e
    elif k == "sequence":
        got = observe(xresult.sequence(Block([Error(e) if i == bad else Ok(i) for i in range(n)])))
        ok = got[0] == "ok" and list(got[1]) == list(range(n)) if bad is None else got[0] == "error" and got[1] is e
    else:

        def mk(i):
            def f(x):
                calls[0] += 1
                if i == bad:
                    return Nothing if k == "option" else Error(e)
                return (Some if k == "option" else Ok)(x + 1)

            return f

        p = (xoption if k == "option" else xresult).pipeline(*[mk(i) for i in range(n)])
        got = observe(p(0))
        check(calls[0] == (n if bad is None else bad + 1), "a long pipeline made another number of calls", n=n, bad=bad, calls=calls[0])
        ok = got == ("some" if k == "option" else "ok", n) if bad is None else (got == ("none",) if k == "option" else got[0] == "error" and got[1] is e)
    check(ok, f"a long {k} gives another outcome", n=n, bad=bad, got=str(got)[:100])
    mon.ev("long")
    mon.sig("long", k, n, bad)


SCALE = 12
WORKLOADS = {
    "traversals": Workload(traversals, 15000, 250000),
    "nested": Workload(nested, 2000, 20000),
    "pipelines": Workload(pipelines, 12000, 200000),
    "long": Workload(long, 48, 400),
    "threads": Workload(threads, 1500, 30000),
}
