from __future__ import annotations

import itertools

from expression import Error, Failure, Ok, Result, Success, Try, pipe, result

from vf.core import Workload, check, fail
from vf.gen import Boom, Eq, Tok, confusable, falsy, hval, looks, value

from .optlib import Cb, agrees, cb, judge, mk_result, observe

PROP = "C12"
RULE = (
    "A case draws results and Try values on both tracks over hostile values (falsy values, None, nested options and results, exceptions, values without truth "
    "value), one operation or a chain of 1-12 operations, and logged callbacks that may raise; every method and pipe form is run and compared with the "
    "operation's defining equation on plain data: track, the very same value or error object, the very exception, the exact list of callback calls. "
    "Comparison cases compare all pairs of a pool (equality, hash, ordering, printing). Non-trivial: an operation judged; distinct by operation, track, "
    "value types and callback behaviour."
)
ASSUMPTIONS = ["equality and ordering of the contained values are those of Python", "a Try compares equal to a result of the same track and value, and operations on a Try may return a plain result"]
OPS = ["map", "bind", "map_error", "filter", "filter_with", "default_value", "default_with", "or_else", "or_else_with", "map2", "apply", "swap", "merge", "is"]
REQUIRED = [f"op:{o}:{p}" for o in OPS for p in ("ok", "error")] + ["raised", "chains", "laws", "eq_true", "eq_false", "lt", "printed", "reused", "try"]


def res(rng, depth=2):
    return ("ok" if rng.random() < 0.55 else "error", value(rng, depth))


def tname(m):
    return m[0] + ":" + type(m[1]).__name__


def one(rng, mon, m=None):
    op = rng.choice(OPS)
    m = m or res(rng)
    tries = rng.random() < 0.2
    if tries and m[0] == "error":
        m = ("error", rng.choice([ValueError, Boom, StopIteration, KeyError])(3))
    x = mk_result(rng, m, tries)
    if tries:
        mon.ev("try")
        check(isinstance(x, Try) and isinstance(x, Result), "Success/Failure build no Try", got=type(x))
    ok = m[0] == "ok"
    v = m[1]
    r = value(rng)
    ctx = (op, m, "Try" if tries else "Result")
    mon.ev(f"op:{op}:{m[0]}")
    cbs, calls = [], []
    raw = False
    if op in ("map", "map_error"):
        f = cb(rng, r)
        mine = ok == (op == "map")
        want = m if not mine else ("exc", f.exc) if f.exc else (m[0], r)
        mod = getattr(result, op)
        forms = [lambda: getattr(x, op)(f), lambda: mod(f)(x), lambda: pipe(x, mod(f)), lambda: x.pipe(mod(f))]
        cbs, calls = [f], [[(v,)] if mine else []]
    elif op == "bind":
        rm = res(rng)
        f = cb(rng, mk_result(rng, rm))
        want = m if not ok else ("exc", f.exc) if f.exc else rm
        forms = [lambda: x.bind(f), lambda: result.bind(f)(x), lambda: pipe(x, result.bind(f))]
        cbs, calls = [f], [[(v,)] if ok else []]
    elif op == "filter":
        keep = rng.random() < 0.5
        f = cb(rng, rng.choice([True, 1, "x"]) if keep else rng.choice([False, 0, "", None, []]))
        want = m if not ok else ("exc", f.exc) if f.exc else m if keep else ("error", r)
        forms = [lambda: x.filter(f, r), lambda: result.filter(f, r)(x), lambda: pipe(x, result.filter(f, r))]
        cbs, calls = [f], [[(v,)] if ok else []]
    elif op == "filter_with":
        keep = rng.random() < 0.5
        f = cb(rng, keep)
        g = cb(rng, r)
        if not ok:
            want = m
        elif f.exc:
            want = ("exc", f.exc)
        elif keep:
            want = m
        else:
            want = ("exc", g.exc) if g.exc else ("error", r)
        forms = [lambda: x.filter_with(f, g), lambda: result.filter_with(f, g)(x), lambda: pipe(x, result.filter_with(f, g))]
        cbs, calls = [f, g], [[(v,)] if ok else [], [(v,)] if ok and not f.exc and not keep else []]
    elif op == "default_value":
        want, raw = ("raw", v if ok else r), True
        forms = [lambda: x.default_value(r), lambda: result.default_value(r)(x), lambda: pipe(x, result.default_value(r))]
    elif op == "default_with":
        f = cb(rng, r)
        raw = True
        want = ("raw", v) if ok else ("exc", f.exc) if f.exc else ("raw", r)
        forms = [lambda: x.default_with(f), lambda: result.default_with(f)(x), lambda: pipe(x, result.default_with(f))]
        cbs, calls = [f], [[] if ok else [(v,)]]
    elif op == "or_else":
        om = res(rng)
        o = mk_result(rng, om)
        want = m if ok else om
        forms = [lambda: x.or_else(o), lambda: result.or_else(o)(x), lambda: pipe(x, result.or_else(o))]
    elif op == "or_else_with":
        om = res(rng)
        f = cb(rng, mk_result(rng, om))
        want = m if ok else ("exc", f.exc) if f.exc else om
        forms = [lambda: x.or_else_with(f), lambda: result.or_else_with(f)(x), lambda: pipe(x, result.or_else_with(f))]
        cbs, calls = [f], [[] if ok else [(v,)]]
    elif op == "map2":
        m2 = res(rng)
        y = mk_result(rng, m2)
        f = cb(rng, r)
        both = ok and m2[0] == "ok"
        want = m if not ok else m2 if not both else ("exc", f.exc) if f.exc else ("ok", r)
        forms = [lambda: x.map2(y, f), lambda: result.map2(f)(x)(y), lambda: pipe(y, result.map2(f)(x))]
        cbs, calls = [f], [[(v, m2[1])] if both else []]
        ctx += (m2,)
    elif op == "apply":
        f = cb(rng, r)
        fm = ("ok", f) if rng.random() < 0.65 else ("error", value(rng))
        fo = mk_result(rng, fm)
        both = ok and fm[0] == "ok"
        want = fm if fm[0] == "error" else m if not ok else ("exc", f.exc) if f.exc else ("ok", r)
        forms = [lambda: x.apply(fo), lambda: result.apply(fo)(x), lambda: pipe(x, result.apply(fo))]
        cbs, calls = [f], [[(v,)] if both else []]
        ctx += (fm,)
    elif op == "swap":
        want = ("error" if ok else "ok", v)
        forms = [lambda: x.swap(), lambda: result.swap(x), lambda: pipe(x, result.swap)]
        judge("swapping twice", lambda: x.swap().swap(), m, ctx=ctx)
    elif op == "merge":
        want, raw = ("raw", v), True
        forms = [lambda: x.merge(), lambda: result.merge(x), lambda: pipe(x, result.merge)]
    else:
        for fn, w in ((x.is_ok, ok), (x.is_error, not ok), (lambda: result.is_ok(x), ok), (lambda: result.is_error(x), not ok)):
            judge("is_ok/is_error", fn, ("raw", w), ctx=m, raw=True)
        mon.sig(op, tname(m))
        return m
    for i, t in enumerate(forms):
        judge(f"result {op} (form {i})", t, want, cbs, calls, ctx=ctx, raw=raw)
    if want[0] == "exc":
        mon.ev("raised")
    check(agrees(observe(x), m), f"result {op} changed its operand", now=observe(x), before=m)
    mon.sig(op, tname(m), want[0], type(r).__name__, tries)
    mon.sample(f"{op} on {m!r} -> {want!r}"[:200])
    return want


def ops(rng, mon):
    m = res(rng)
    for _ in range(rng.choice([1, 1, 2, 4])):
        w = one(rng, mon, m)
        m = w if w[0] in ("ok", "error") else None


def chain(rng, mon):
    steps = []
    for _ in range(rng.randint(1, 12)):
        k = rng.choice(["map", "bind", "map_error", "or_else", "or_else_with", "apply", "swap", "filter"])
        if k in ("map", "map_error"):
            steps.append((k, cb(rng, value(rng), 0.05)))
        elif k in ("bind", "or_else_with"):
            steps.append((k, cb(rng, mk_result(rng, res(rng)), 0.05)))
        elif k == "or_else":
            steps.append((k, mk_result(rng, res(rng))))
        elif k == "apply":
            steps.append((k, mk_result(rng, ("ok", cb(rng, value(rng), 0.05)) if rng.random() < 0.9 else ("error", value(rng)))))
        elif k == "filter":
            steps.append((k, cb(rng, rng.random() < 0.8, 0.05), value(rng)))
        else:
            steps.append((k,))

    def model(m):
        log = []

        def call(f, *a):
            log.append((f, *a))
            return f.exc

        for k, *a in steps:
            f = a[0] if a else None
            ok = m[0] == "ok"
            if k == "swap":
                m = ("error" if ok else "ok", m[1])
            elif k == "map" and ok or k == "map_error" and not ok:
                if call(f, m[1]):
                    return ("exc", f.exc), log
                m = (m[0], f.ret)
            elif k == "bind" and ok or k == "or_else_with" and not ok:
                if call(f, m[1]):
                    return ("exc", f.exc), log
                m = observe(f.ret)
            elif k == "or_else" and not ok:
                m = observe(f)
            elif k == "filter" and ok:
                if call(f, m[1]):
                    return ("exc", f.exc), log
                if not f.ret:
                    m = ("error", a[1])
            elif k == "apply":
                fm = observe(f)
                if fm[0] == "error":
                    m = fm
                elif ok:
                    if call(fm[1], m[1]):
                        return ("exc", fm[1].exc), log
                    m = ("ok", fm[1].ret)
        return m, log

    def fluent(x):
        for k, *a in steps:
            x = getattr(x, k)(*a)
        return x

    fns = [getattr(result, k)(*a) if a else getattr(result, k) for k, *a in steps]
    cbs = [a[0] if isinstance(a[0], Cb) else a[0].ok for k, *a in steps if a and (isinstance(a[0], Cb) or (k == "apply" and a[0].tag == "ok"))]
    for i in range(rng.randint(1, 4)):
        m = res(rng)
        x = mk_result(rng, m)
        want, log = model(m)
        calls = [[tuple(e[1:]) for e in log if e[0] is c] for c in cbs]
        judge("a fluent chain of result operations", lambda: fluent(x), want, cbs, calls, ctx=(m, steps))
        judge("a pipe of result operations", lambda: pipe(x, *fns), want, cbs, calls, ctx=(m, steps))
        if i:
            mon.ev("reused")
    mon.ev("chains")
    mon.sig("chain", [s[0] for s in steps], want[0])


def laws(rng, mon):
    v, a, b = value(rng), value(rng), value(rng)
    fm, gm = res(rng), res(rng)
    fo, go = mk_result(rng, fm), mk_result(rng, gm)
    m = res(rng)
    x = mk_result(rng, m)

    def f(y):
        return fo

    def g(y):
        return go if y is fm[1] else Error(b)

    def eqv(name, p, q):
        check(agrees(observe(p), observe(q)), f"result law {name}", left=observe(p), right=observe(q), m=m)

    eqv("left identity", Ok(v).bind(f), f(v))
    eqv("right identity", x.bind(Ok), x)
    eqv("associativity", x.bind(f).bind(g), x.bind(lambda y: f(y).bind(g)))
    eqv("functor identity", x.map(lambda y: y), x)
    eqv("error functor identity", x.map_error(lambda y: y), x)
    eqv("functor composition", x.map(lambda y: a).map(lambda y: b if y is a else v), x.map(lambda y: b))
    eqv("error functor composition", x.map_error(lambda y: a).map_error(lambda y: b if y is a else v), x.map_error(lambda y: b))
    eqv("left identity of the error track", Error(v).or_else_with(f), f(v))
    eqv("right identity of the error track", x.or_else_with(Error), x)
    eqv("associativity of the error track", x.or_else_with(f).or_else_with(g), x.or_else_with(lambda e: f(e).or_else_with(g)))
    eqv("the tracks commute", x.map(lambda y: a).map_error(lambda e: b), x.map_error(lambda e: b).map(lambda y: a))
    eqv("swap exchanges map and map_error", x.swap().map(lambda y: a).swap(), x.map_error(lambda y: a))
    eqv("apply of Ok f is map f", x.apply(Ok(lambda y: a)), x.map(lambda y: a))
    mon.ev("laws")
    mon.sig("laws", tname(m), fm[0], gm[0])


def relations(rng, mon):
    kind = rng.choice(["confusable", "hval", "int", "eq", "exc"])
    if kind == "confusable":
        pool = confusable(rng, 4)
    elif kind == "hval":
        pool = [hval(rng) for _ in range(4)]
    elif kind == "int":
        pool = [rng.choice([0, 1, True, False, 1.0, 2, -1]) for _ in range(4)]
    elif kind == "eq":
        pool = [Eq(rng.randrange(2), i) for i in range(4)]
    else:
        e = ValueError(1)
        pool = [e, ValueError(1), KeyError(1), e]
    ms = [(t, v) for v in pool for t in ("ok", "error")]
    rng.shuffle(ms)
    xs = [mk_result(rng, m, rng.random() < 0.2) for m in ms]
    ys = [mk_result(rng, m, rng.random() < 0.2) for m in ms]
    for (m, x), (n, y) in itertools.product(zip(ms, xs), zip(ms, ys)):
        want = m[0] == n[0] and bool(m[1] == n[1])
        check((x == y) is want and (x != y) is (not want), "result equality", a=m, b=n, eq=(x == y), ne=(x != y), want=want)
        mon.ev("eq_true" if want else "eq_false")
        if want:
            check(hash(x) == hash(y), "equal results have different hashes", a=m, b=n)
    if len(set(xs) | set(ys)) != len(set(xs)):
        fail("a set of results keeps equal results apart", results=ms)
    for m, x in zip(ms, xs):
        for foreign in (None, 0, "", "Ok", (), m, m[1] if not isinstance(m[1], Result) else object(), looks(m)):
            check((x == foreign) is False and (x != foreign) is True, "a result equals something that is no result", result=m, other=foreign)
        names = ("Success", "Failure") if isinstance(x, Try) else ("Ok", "Error")
        w = f"{names[m[0] == 'error']} {m[1]}"
        check(str(x) == w, "str of a result", got=str(x), want=w)
        check(repr(x) == f"Result({m[0]}={m[1]!r})", "repr of a result", got=repr(x), result=m)
        mon.ev("printed")
    if kind in ("int", "eq"):
        rank = {"ok": 0, "error": 1}
        for (m, x), (n, y) in itertools.product(zip(ms, xs), zip(ms, ys)):
            want = rank[m[0]] < rank[n[0]] or (m[0] == n[0] and m[1] < n[1])
            check((x < y) is want, "result ordering", a=m, b=n, want=want, got=x < y)
            check((y > x) is want, "result ordering (reflected)", a=m, b=n, want=want)
            mon.ev("lt")
        got = [observe(z) for z in sorted(xs)]
        want = sorted(ms, key=lambda m: (rank[m[0]], m[1]))
        check(all(agrees(a, b) for a, b in zip(got, want)), "sorting results", got=got, want=want)
    mon.sig("relations", kind, [tname(m) for m in ms])


def falsy_values(rng, mon):
    v, t = falsy(rng), Tok()
    for mk, track in ((Ok, "ok"), (Error, "error"), (Success, "ok"), (Failure, "error")):
        x = mk(v)
        check(x.is_ok() == (track == "ok") and x.is_error() == (track == "error"), "the track depends on the value", value=v, track=track)
        check(x.merge() is v, "merge loses a falsy value", value=v, track=track)
        check(x.default_value(t) is (v if track == "ok" else t), "default_value confuses a falsy value", value=v, track=track)
        check(x.or_else(Ok(t)).merge() is (v if track == "ok" else t), "or_else confuses a falsy value", value=v, track=track)
        check(agrees(observe(x.map(lambda _: t)), (track, t if track == "ok" else v)), "map confuses a falsy value", value=v, track=track)
        check(agrees(observe(x.map_error(lambda _: t)), (track, v if track == "ok" else t)), "map_error confuses a falsy value", value=v, track=track)
        check(agrees(observe(x.swap()), ("error" if track == "ok" else "ok", v)), "swap confuses a falsy value", value=v, track=track)
        check(agrees(observe(mk(t).map(lambda _: v)), (track, v if track == "ok" else t)), "mapping to a falsy value", value=v, track=track)
        check(agrees(observe(mk(t).map_error(lambda _: v)), (track, t if track == "ok" else v)), "mapping the error to a falsy value", value=v, track=track)
    mon.sig("falsy", repr(v))


SCALE = 15
WORKLOADS = {
    "ops": Workload(ops, 24000, 600000),
    "chain": Workload(chain, 6000, 150000),
    "laws": Workload(laws, 4000, 100000),
    "relations": Workload(relations, 2000, 40000),
    "falsy_values": Workload(falsy_values, 300, 3000),
}
