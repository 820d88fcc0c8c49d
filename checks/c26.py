from __future__ import annotations

from expression import Nothing, Ok, Some, compose, curry, curry_flip, flip, fst, identity, pipe, pipe2, pipe3, pipeable, snd
from expression.collections import Block, Map, Seq
from expression.core.compose import starcompose
from expression.core.misc import starid
from expression.core.pipe import PipeMixin, starpipe

from vf.core import Workload, check, fail
from vf.gen import Boom, boom, BoomBase, Tok, as_member, nameless, value
from vf.sched import Deadlock, Scheduler, install_lock_shims, pause

install_lock_shims()

PROP = "C26"
RULE = (
    "A case makes 0-40 (or thousands of) instrumented functions returning hostile values, callables or fresh tokens, one of which may raise, and drives pipe, pipe2, pipe3, starpipe, compose, starcompose, the pipe method of the collections and user classes, in random groupings and nestings; or curries / "
    "flips / makes pipeable a function at every arity with positional, keyword and default arguments, reusing partial applications in random order, also from preempted threads; the outcome (by identity) and the log of calls with arguments (by identity) are compared with the "
    "applications written out. Non-trivial: at least one function applied; distinct by form, arity and argument kinds."
)
ASSUMPTIONS = ["curried stages take one positional argument each; keyword arguments are given in the last stage (curry) or first stage (curry_flip)"]
REQUIRED = ["pipe", "compose", "nested_compose", "curry", "curry_flip", "pipeable", "flip", "pipe2", "pipe3", "starpipe", "starcompose", "method_pipe", "raised", "reuse", "threaded", "identity", "long", "callable_value"]


class F:
    """An instrumented function: logs its arguments, returns a fixed value or raises."""

    def __init__(self, log, name, ret, exc=None):
        self.log, self.name, self.ret, self.exc = log, name, ret, exc

    def __call__(self, *a, **kw):
        self.log.append((self.name, a, kw))
        pause()
        if self.exc is not None:
            raise self.exc
        return self.ret

    def __bool__(self):
        raise RuntimeError("truth of a function")

    def __eq__(self, o):
        return isinstance(o, F)

    def __hash__(self):
        return 7

    def __len__(self):
        return 0

    def __repr__(self):
        return f"F{self.name}"


def val(rng, mon):
    r = rng.random()
    if r < 0.15:
        mon.ev("callable_value")
        return rng.choice([lambda *a: None, len, Tok, identity, F([], "x", 0)])
    if r < 0.2:
        return rng.choice([Nothing, Some(None), Ok(0), (), ((),)])
    return value(rng)


def fns(rng, mon, log, n, rets=None):
    bad = rng.randrange(n) if n and rng.random() < 0.2 else None
    exc = rng.choice([BoomBase, GeneratorExit])("fn") if rng.random() < 0.3 else boom(rng, "fn", stop=True)
    out = []
    for i in range(n):
        out.append(F(log, i, rets[i] if rets is not None else val(rng, mon), exc if i == bad else None))
    return out


def run(thunk, log):
    try:
        return ("value", thunk())
    except (Exception, BoomBase, GeneratorExit) as e:
        return ("exc", e)


def log_same(a, b):
    return len(a) == len(b) and all(
        x[0] == y[0] and len(x[1]) == len(y[1]) and all(p is q for p, q in zip(x[1], y[1])) and list(x[2]) == list(y[2]) and all(x[2][k] is y[2][k] for k in x[2]) for x, y in zip(a, b)
    )


def judge(where, log, thunk, direct, mon, sig=()):
    """Compare a form with the applications written out."""
    log.clear()
    want = run(direct, log)
    wlog = list(log)
    log.clear()
    got = run(thunk, log)
    if got[0] != want[0] or got[1] is not want[1]:
        fail(f"{where}: another outcome than the applications written out", got=got, want=want)
    if not log_same(log, wlog):
        fail(f"{where}: other calls than the applications written out", got=log, want=wlog)
    if want[0] == "exc":
        mon.ev("raised")
    mon.sig(where, want[0], type(want[1]).__name__, *sig)


def chain(x, fs):
    for f in fs:
        x = f(x)
    return x


def grouping(rng, fs):
    """Some nesting of compositions of fs, in order."""
    if len(fs) <= 1 and rng.random() < 0.6:
        return compose(*fs)
    parts = []
    i = 0
    while i < len(fs):
        k = rng.randint(1, len(fs) - i)
        if k == len(fs):
            k = rng.randint(1, k) if k > 1 else 1
        if k == 1 and rng.random() < 0.6:
            parts.append(fs[i])
        elif k < len(fs):
            parts.append(grouping(rng, fs[i : i + k]))
        else:
            parts.append(compose(*fs[i : i + k]))
        i += k
        if rng.random() < 0.15:
            parts.append(rng.choice([identity, compose()]))
    return compose(*parts)


def pipes(rng, mon):
    log = []
    n = rng.choice([0, 1, 2, 3, 4, 5, 7, 10, 17, 40])
    fs = fns(rng, mon, log, n)
    x = val(rng, mon)
    k = rng.choice(["pipe", "compose", "nested", "nested", "method", "mixin", "reuse"])
    if k == "pipe":
        judge("pipe", log, lambda: pipe(x, *fs), lambda: chain(x, fs), mon, (n,))
        mon.ev("pipe")
    elif k == "compose":
        judge("compose", log, lambda: compose(*fs)(x), lambda: chain(x, fs), mon, (n,))
        mon.ev("compose")
    elif k == "nested":
        judge("nested compose", log, lambda: grouping(rng, fs)(x), lambda: chain(x, fs), mon, (n,))
        mon.ev("nested_compose")
    elif k == "reuse":
        c = compose(*fs)
        d = compose(c, c)
        for _ in range(3):
            y = val(rng, mon)
            judge("a composition used again", log, lambda: c(y), lambda: chain(y, fs), mon, (n,))
            judge("a composition with itself", log, lambda: d(y), lambda: chain(y, fs + fs), mon, (n,))
        mon.ev("reuse")
    else:
        if k == "method":
            x = rng.choice([Some(x), Nothing, Ok(x), Block([x, x]), Seq([1]), Map.of_seq([(1, x)]) if hasattr(Map, "of_seq") else Some(x)])
        else:

            class Mine(PipeMixin):
                pass

            x = Mine()
        if n:
            judge("the pipe method", log, lambda: x.pipe(*fs), lambda: chain(x, fs), mon, (n, type(x).__name__))
            mon.ev("method_pipe")
    log.clear()
    check(identity(x) is x, "identity is not the identity")
    mon.ev("identity")
    mon.sample([k, n])


def curried(log, name, arity, ret, exc=None):
    """An instrumented curried function of the given arity."""

    def step(args):
        def f(a):
            log.append((name, args + (a,), {}))
            if len(args) + 1 == arity:
                if exc is not None:
                    raise exc
                return ret
            return step(args + (a,))

        return f

    return step(())


def star_values(rng, t):
    """What is applied as several arguments may be any iterable, as in a call written out."""
    r = rng.random()
    if r < 0.7:
        return t
    if r < 0.85:
        return list(t)
    if r < 0.9:
        return Block(t)
    if r < 0.95:
        return Seq(t)
    return {i: x for i, x in enumerate(t)}.values()


def multi_pipes(rng, mon):
    log = []
    n = rng.choice([0, 1, 2, 3, 5, 9])
    k = rng.choice(["pipe2", "pipe3", "starpipe", "starcompose", "fst_snd"])
    if k in ("pipe2", "pipe3"):
        ar = 2 if k == "pipe2" else 3
        xs = tuple(val(rng, mon) for _ in range(ar))
        p = pipe2 if ar == 2 else pipe3
        if n == 0:
            check(p(xs) is xs, f"{k} of no functions gives something else than its values")
        else:
            exc = Boom("f") if rng.random() < 0.1 else None
            f = curried(log, "f", ar, val(rng, mon), exc)
            fs = fns(rng, mon, log, n - 1)

            def direct():
                y = f
                for v in xs:
                    y = y(v)
                return chain(y, fs)

            judge(k, log, lambda: p(xs, f, *fs), direct, mon, (n,))
        mon.ev(k)
        return
    if k == "fst_snd":
        a, b = val(rng, mon), val(rng, mon)
        check(fst((a, b)) is a and snd((a, b)) is b, "fst or snd")
        check(len(starid(a, b)) == 2 and starid(a, b)[0] is a and starid(a, b)[1] is b and starid() == (), "starid")
        ret = val(rng, mon)
        f = F(log, "f", ret, Boom("x") if rng.random() < 0.2 else None)
        g = flip(f)
        judge("flip", log, lambda: g(a, b), lambda: f(b, a), mon)
        judge("flip twice", log, lambda: flip(g)(a, b), lambda: f(a, b), mon)
        mon.ev("flip")
        return
    m = rng.choice([0, 1, 2, 3, 4])
    xs = tuple(val(rng, mon) for _ in range(m))
    rets = [star_values(rng, tuple(val(rng, mon) for _ in range(rng.choice([0, 1, 2, 3])))) for _ in range(n)]
    if rng.random() < 0.2:
        xs = star_values(rng, xs)
    if n:
        rets[-1] = val(rng, mon)
    fs = fns(rng, mon, log, n, rets)

    def direct():
        y = xs
        for f in fs:
            y = f(*y)
        return y

    if k == "starpipe":
        if n:
            judge("starpipe", log, lambda: starpipe(xs, *fs), direct, mon, (n, m))
        else:
            r = starpipe(xs)
            check(len(list(r)) == m and all(a is b for a, b in zip(r, xs)), "starpipe of no functions", got=r)
    else:
        judge("starcompose", log, lambda: starcompose(*fs)(xs), direct, mon, (n, m))
        if n > 1 and fs[0].exc is None:
            i = rng.randint(1, n - 1)
            judge("nested starcompose", log, lambda: starcompose(lambda *a: starcompose(*fs[:i])(a), *fs[i:])(xs), direct, mon, (n, m))
    mon.ev(k)


def target(log, ret, exc):
    def f(*a, **kw):
        """doc"""
        log.append(("f", a, kw))
        pause()
        if exc is not None:
            raise exc
        return ret

    return f


def currying(rng, mon):
    log = []
    ret = val(rng, mon)
    exc = rng.choice([Boom, TypeError, BoomBase])("f") if rng.random() < 0.2 else None
    f = target(log, ret, exc)
    n = rng.choice([0, 1, 2, 3, 4])
    k = rng.choice(["curry", "curry_flip", "pipeable"])
    rest = tuple(val(rng, mon) for _ in range(rng.choice([0, 0, 1, 2, 3])))
    kw = {x: val(rng, mon) for x in rng.sample(["fun", "args", "num_args", "kw", "arity", "kwargs", "function", "x"], rng.choice([0, 0, 1, 2]))}
    if k == "pipeable":
        a, b = val(rng, mon), val(rng, mon)
        p = pipeable(f, *rest, **kw)
        check(not log, "a partial application called the function")
        for x in (a, b, a):
            judge("pipeable", log, lambda: p(x), lambda: f(x, *rest, **kw), mon, (len(rest), sorted(kw)))
        judge("pipeable in a pipe", log, lambda: pipe(a, pipeable(f, *rest, **kw)), lambda: f(a, *rest, **kw), mon, (len(rest), sorted(kw)))
        mon.ev("pipeable")
        return
    dec = curry(n) if k == "curry" else curry_flip(n)
    named = rng.random() < 0.8
    g = dec(f if named else nameless(rng, f))
    h = dec(target([], None, None))  # the decorator is shared by another function
    check(not named or g is f or (g.__name__ == "f" and g.__doc__ == "doc"), "metadata of a curried function")
    args = [val(rng, mon) for _ in range(n)]
    _ = h
    first = ()
    if n:
        g, first = as_member(rng, g)
    if k == "curry":

        def thunk():
            y = g
            for a in args:
                y = y(a)
                check(not log, "a partial application called the function")
            return y(*rest, **kw)
    else:

        def thunk():
            if n == 0:
                return g(*rest, **kw)
            y = g(*rest, **kw)
            check(not log, "a partial application called the function")
            for i, a in enumerate(args):
                y = y(a)
                check(i == n - 1 or not log, "a partial application called the function")
            return y

    want = (*first, *args, *rest) if k == "curry" else (*args, *first, *rest)
    judge(f"{k}({n})", log, thunk, lambda: f(*want, **kw), mon, (len(rest), sorted(kw)))
    mon.ev(k)


def explore(rng, log, f, k, n, steps, mon, vals):
    """Use a tree of partial applications in random order."""
    g = (curry if k == "curry" else curry_flip)(n)(f)
    nodes = [(g, None, (), {})]  # callable, stage, collected args, (rest, kw)
    done = 0
    for _ in range(steps):
        fn, st, args, rk = nodes[rng.randrange(len(nodes))]
        a = vals[rng.randrange(len(vals))]
        rest = tuple(vals[rng.randrange(len(vals))] for _ in range(rng.randrange(3)))
        kw = {"z": vals[rng.randrange(len(vals))]} if rng.random() < 0.3 else {}
        before = len(log)
        if k == "curry":
            if len(args) < n:
                nodes.append((fn(a), None, args + (a,), {}))
                want = None
            else:
                r = fn(*rest, **kw)
                want = ("f", args + rest, kw)
        else:
            if st is None:
                nodes.append((fn(*rest, **kw), "open", (), (rest, kw)))
                want = None
            elif len(args) < n - 1:
                nodes.append((fn(a), "open", args + (a,), rk))
                want = None
            else:
                r = fn(a)
                want = ("f", args + (a,) + rk[0], rk[1])
        if want is not None:
            done += 1
            yield_log = log[before:]
            mine = [e for e in yield_log if log_same([e], [want])]
            if not mine:
                fail(f"a shared partial application of {k}({n}) called with other arguments", got=yield_log, want=want)
            check(r is f.ret, "a shared partial application gave another value")
    return done


def reuse(rng, mon):
    log = []
    f = F(log, "f", Tok())
    f.__name__ = "f"
    k = rng.choice(["curry", "curry_flip"])
    n = rng.choice([1, 2, 3, 4])
    vals = [val(rng, mon) for _ in range(4)]
    done = explore(rng, log, f, k, n, rng.choice([10, 40]), mon, vals)
    check(len(log) == done, "the function was called another number of times", calls=len(log), want=done)
    mon.ev("reuse", done)
    mon.sig("reuse", k, n, done)


def threads(rng, mon):
    """Partial applications and compositions shared by threads."""
    sched = Scheduler(rng, opcodes=rng.random() < 0.3)
    n = rng.choice([2, 3])
    k = rng.choice(["curry", "curry_flip", "compose"])
    ar = rng.choice([1, 2, 3])

    def f(*a):
        pause()
        return a

    shared_arg = Tok()
    if k == "curry":
        g = curry(ar)(f)(shared_arg)
    elif k == "curry_flip":
        g = curry_flip(ar)(f)(shared_arg)
    else:
        g = compose(lambda x: (x, shared_arg), lambda t: (pause(), t)[1], lambda t: (t[0], t[1]))
    outs = [[] for _ in range(n)]

    def worker(i):
        def run():
            for j in range(4):
                x = (i, j)
                if k == "curry":
                    y = g
                    for _ in range(ar - 1):
                        y = y(x)
                        pause()
                    outs[i].append((y(x), (shared_arg, *[x] * ar)))
                elif k == "curry_flip":
                    y = g
                    for _ in range(ar):
                        y = y(x)
                        pause()
                    outs[i].append((y, (*[x] * ar, shared_arg)))
                else:
                    outs[i].append((g(x), (x, shared_arg)))

        return run

    for i in range(n):
        sched.spawn(worker(i))
    try:
        sched.run()
    except Deadlock as e:
        fail(f"concurrent applications deadlock: {e}")
    for w in sched.workers:
        if w.error is not None:
            raise w.error
    for o in outs:
        for got, want in o:
            check(got == want, "a concurrent application got another's arguments", kind=k, got=got, want=want)
    mon.ev("threaded", sched.switches)
    mon.sig("threads", k, ar, sched.signature())


def long(rng, mon):
    n = rng.choice([500, 5000])
    calls = []

    def mk(i):
        def f(x):
            calls.append(i)
            return x + 1

        return f

    fs = [mk(i) for i in range(n)]
    k = rng.choice(["pipe", "compose", "star"])
    if k == "pipe":
        got = pipe(0, *fs)
    elif k == "compose":
        got = compose(*fs)(0)
    else:
        got = starpipe((0,), *[(lambda f: lambda x: (f(x),))(f) for f in fs])[0]
    check(got == n and calls == list(range(n)), "a long chain of functions", kind=k, n=n, got=got)
    mon.ev("long")
    mon.sig("long", k, n)


SCALE = 15
WORKLOADS = {
    "pipes": Workload(pipes, 12000, 200000),
    "multi_pipes": Workload(multi_pipes, 8000, 100000),
    "currying": Workload(currying, 10000, 150000),
    "reuse": Workload(reuse, 4000, 60000),
    "threads": Workload(threads, 1500, 30000),
    "long": Workload(long, 24, 160),
}
