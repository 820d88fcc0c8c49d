from __future__ import annotations

import itertools

from expression import Nothing, Option, Some, default_arg, option, pipe

from vf.core import Workload, check, fail
from vf.gen import Eq, Tok, confusable, falsy, hval, looks, value

from .optlib import Cb, agrees, cb, judge, mk_option, observe

PROP = "C11"
RULE = (
    "A case draws options over hostile values (falsy values, None, nested options and results, values without truth value, exceptions), one operation or a "
    "chain of 1-12 operations, and logged callbacks that may raise; every method and pipe form is run and compared with the operation's defining equation "
    "on plain data: the very same value objects, the very exception, and the exact list of callback calls. Comparison cases compare all pairs of a pool of "
    "options (equality, hash, ordering, sorting, printing) with comparison of plain pairs. Non-trivial: an operation judged; distinct by operation, "
    "presence, value types and callback behaviour."
)
ASSUMPTIONS = ["equality and ordering of the contained values are those of Python"]
REQUIRED = [f"op:{o}:{p}" for o in ("map", "bind", "filter", "default_value", "default_with", "or_else", "or_else_with", "starmap", "map2", "apply") for p in ("some", "none")] + [
    "raised", "chains", "laws", "eq_true", "eq_false", "lt", "printed", "reused"
]


def opt(rng, depth=2):
    return ("some", value(rng, depth)) if rng.random() < 0.65 else ("none",)


def tname(m):
    return m[0] + (":" + type(m[1]).__name__ if len(m) > 1 else "")


OPS = ["map", "bind", "filter", "default_value", "default_with", "or_else", "or_else_with", "starmap", "map2", "apply", "is"]


def one(rng, mon, m=None):
    """One operation in all its forms. Returns the resulting option and model, if it is one."""
    op = rng.choice(OPS)
    m = m or opt(rng)
    x = mk_option(rng, m)
    some = m[0] == "some"
    v = m[1] if some else None
    r = value(rng)
    ctx = (op, m)
    mon.ev(f"op:{op}:{m[0]}")
    f = None
    if op == "map":
        f = cb(rng, r)
        want = ("none",) if not some else ("exc", f.exc) if f.exc else ("some", r)
        forms = [lambda: x.map(f), lambda: option.map(f)(x), lambda: pipe(x, option.map(f)), lambda: x.pipe(option.map(f))]
        calls = [[(v,)]] if some else [[]]
    elif op == "bind":
        rm = opt(rng)
        f = cb(rng, mk_option(rng, rm))
        want = ("none",) if not some else ("exc", f.exc) if f.exc else rm
        forms = [lambda: x.bind(f), lambda: option.bind(f)(x), lambda: pipe(x, option.bind(f))]
        calls = [[(v,)]] if some else [[]]
    elif op == "filter":
        keep = rng.random() < 0.5
        f = cb(rng, rng.choice([True, 1, "x", [0]]) if keep else rng.choice([False, 0, "", None, []]))
        want = ("none",) if not some else ("exc", f.exc) if f.exc else m if keep else ("none",)
        forms = [lambda: x.filter(f)]
        if hasattr(option, "filter"):
            forms.append(lambda: option.filter(f)(x))
        calls = [[(v,)]] if some else [[]]
    elif op == "default_value":
        want = ("raw", v if some else r)
        forms = [lambda: x.default_value(r), lambda: option.default_value(r)(x), lambda: default_arg(x, r), lambda: pipe(x, option.default_value(r)), lambda: option.default_arg(x, r)]
        calls = []
    elif op == "default_with":
        f = cb(rng, r)
        want = ("raw", v) if some else ("exc", f.exc) if f.exc else ("raw", r)
        forms = [lambda: x.default_with(f), lambda: option.default_with(f)(x), lambda: pipe(x, option.default_with(f))]
        calls = [[]] if some else [[()]]
    elif op == "or_else":
        om = opt(rng)
        o = mk_option(rng, om)
        want = m if some else om
        forms = [lambda: x.or_else(o), lambda: option.or_else(x, o)]
        calls = []
    elif op == "or_else_with":
        om = opt(rng)
        f = cb(rng, mk_option(rng, om))
        want = m if some else ("exc", f.exc) if f.exc else om
        forms = [lambda: x.or_else_with(f)]
        calls = [[]] if some else [[()]]
    elif op == "starmap":
        t = tuple(value(rng, 1) for _ in range(rng.randrange(5)))
        m2 = ("some", t) if some else m
        x = mk_option(rng, m2)
        f = cb(rng, r)
        want = ("none",) if not some else ("exc", f.exc) if f.exc else ("some", r)
        forms = [lambda: x.starmap(f), lambda: option.starmap(f)(x), lambda: pipe(x, option.starmap(f))]
        calls = [[t]] if some else [[]]
    elif op == "map2":
        m2 = opt(rng)
        y = mk_option(rng, m2)
        f = cb(rng, r)
        both = some and m2[0] == "some"
        want = ("none",) if not both else ("exc", f.exc) if f.exc else ("some", r)
        forms = [lambda: x.map2(f, y), lambda: option.map2(f)(x)(y), lambda: pipe(y, option.map2(f)(x))]
        calls = [[(v, m2[1])]] if both else [[]]
        ctx = (op, m, m2)
    elif op == "apply":
        f = cb(rng, r)
        fm = ("some", f) if rng.random() < 0.7 else ("none",)
        fo = mk_option(rng, fm)
        both = some and fm[0] == "some"
        want = ("none",) if not both else ("exc", f.exc) if f.exc else ("some", r)
        forms = [lambda: x.apply(fo), lambda: option.apply(fo)(x), lambda: pipe(x, option.apply(fo))]
        calls = [[(v,)]] if both else [[]]
    else:
        forms, want, calls = [], None, []
        for fn, w in ((x.is_some, some), (x.is_none, not some), (lambda: option.is_some(x), some), (lambda: option.is_none(x), not some)):
            judge("is_some/is_none", fn, ("raw", w), ctx=m, raw=True)
        mon.sig(op, tname(m))
        return m
    for i, t in enumerate(forms):
        judge(f"option {op} (form {i})", t, want, [f] if f is not None else [], calls, ctx=ctx, raw=want[0] == "raw")
    if want[0] == "exc":
        mon.ev("raised")
    check(agrees(observe(x), m2 if op == "starmap" else m), f"option {op} changed its operand", now=observe(x), before=m)
    mon.sig(op, tname(m), want[0], type(r).__name__)
    mon.sample(f"{op} on {m!r} -> {want!r}"[:200])
    return want


def ops(rng, mon):
    m = opt(rng)
    for _ in range(rng.choice([1, 1, 2, 4])):
        w = one(rng, mon, m)
        m = w if w[0] in ("some", "none") else None


def chain(rng, mon):
    """A pipeline of operations built once and run on several options."""
    steps = []
    for _ in range(rng.randint(1, 12)):
        k = rng.choice(["map", "bind", "filter", "or_else", "apply", "or_else_with"])
        if k == "map":
            steps.append((k, cb(rng, value(rng), 0.05)))
        elif k == "bind":
            steps.append((k, cb(rng, mk_option(rng, opt(rng)), 0.05)))
        elif k == "filter":
            steps.append((k, cb(rng, rng.random() < 0.8, 0.05)))
        elif k == "or_else":
            steps.append((k, mk_option(rng, opt(rng))))
        elif k == "or_else_with":
            steps.append((k, cb(rng, mk_option(rng, opt(rng)), 0.05)))
        else:
            steps.append((k, mk_option(rng, ("some", cb(rng, value(rng), 0.05)) if rng.random() < 0.9 else ("none",))))

    def model(m):
        log = []
        for k, f in steps:
            if k == "map" and m[0] == "some":
                log.append((f, m[1]))
                if f.exc:
                    return ("exc", f.exc), log
                m = ("some", f.ret)
            elif k == "bind" and m[0] == "some":
                log.append((f, m[1]))
                if f.exc:
                    return ("exc", f.exc), log
                m = observe(f.ret)
            elif k == "filter" and m[0] == "some":
                log.append((f, m[1]))
                if f.exc:
                    return ("exc", f.exc), log
                m = m if f.ret else ("none",)
            elif k == "or_else" and m[0] == "none":
                m = observe(f)
            elif k == "or_else_with" and m[0] == "none":
                log.append((f,))
                if f.exc:
                    return ("exc", f.exc), log
                m = observe(f.ret)
            elif k == "apply":
                fo = observe(f)
                if fo[0] == "none" or m[0] == "none":
                    m = ("none",)
                    continue
                log.append((fo[1], m[1]))
                if fo[1].exc:
                    return ("exc", fo[1].exc), log
                m = ("some", fo[1].ret)
        return m, log

    def fluent(x):
        for k, f in steps:
            x = getattr(x, k)(f)
        return x

    fns = []
    for k, f in steps:
        if k in ("map", "bind", "apply"):
            fns.append(getattr(option, k)(f))
        else:
            fns.append(lambda x, k=k, f=f: getattr(x, k)(f))
    cbs = [f if isinstance(f, Cb) else f.some for k, f in steps if isinstance(f, Cb) or (k == "apply" and f.tag == "some")]
    for i in range(rng.randint(1, 4)):
        m = opt(rng)
        x = mk_option(rng, m)
        want, log = model(m)
        calls = [[tuple(e[1:]) for e in log if e[0] is c] for c in cbs]
        judge("a fluent chain of option operations", lambda: fluent(x), want, cbs, calls, ctx=(m, steps))
        judge("a pipe of option operations", lambda: pipe(x, *fns), want, cbs, calls, ctx=(m, steps))
        if i:
            mon.ev("reused")
    mon.ev("chains")
    mon.sig("chain", [k for k, _ in steps], want[0])


def laws(rng, mon):
    v = value(rng)
    a, b = value(rng), value(rng)
    fm, gm = opt(rng), opt(rng)
    fo, go = mk_option(rng, fm), mk_option(rng, gm)

    def f(x):
        return fo if x is v else Nothing

    def g(x):
        return go

    m = opt(rng) if rng.random() < 0.5 else ("some", v)
    x = mk_option(rng, m)

    def eqv(name, p, q):
        check(agrees(observe(p), observe(q)), f"option law {name}", left=observe(p), right=observe(q), m=m)

    eqv("left identity", Some(v).bind(f), f(v))
    eqv("right identity", x.bind(Some), x)
    eqv("associativity", x.bind(f).bind(g), x.bind(lambda y: f(y).bind(g)))
    eqv("functor identity", x.map(lambda y: y), x)
    eqv("functor composition", x.map(lambda y: a).map(lambda y: (b if y is a else v)), x.map(lambda y: b))
    eqv("map via bind", x.map(lambda y: a), x.bind(lambda y: Some(a)))
    eqv("apply of Some f is map f", x.apply(Some(lambda y: a)), x.map(lambda y: a))
    eqv("or_else identity", x.or_else(Nothing), x)
    eqv("or_else left identity", Nothing.or_else(x), x)
    mon.ev("laws")
    mon.sig("laws", tname(m), fm[0], gm[0])


def relations(rng, mon):
    kind = rng.choice(["confusable", "hval", "int", "eq", "nested"])
    if kind == "confusable":
        pool = confusable(rng, 5)
    elif kind == "hval":
        pool = [hval(rng) for _ in range(5)]
    elif kind == "int":
        pool = [rng.choice([0, 1, True, False, 1.0, 2, -1]) for _ in range(5)]
    elif kind == "eq":
        pool = [Eq(rng.randrange(2), i) for i in range(5)]
    else:
        pool = [Some(0), Nothing, Some(None), Some(Nothing), Some(Some(0))]
    ms = [("some", v) for v in pool] + [("none",)]
    rng.shuffle(ms)
    xs = [mk_option(rng, m) for m in ms]
    ys = [mk_option(rng, m) for m in ms]
    for (m, x), (n, y) in itertools.product(zip(ms, xs), zip(ms, ys)):
        want = m[0] == n[0] and (m[0] == "none" or bool(m[1] == n[1]))
        check((x == y) is want and (x != y) is (not want), "option equality", a=m, b=n, eq=(x == y), ne=(x != y), want=want)
        mon.ev("eq_true" if want else "eq_false")
        if want:
            check(hash(x) == hash(y), "equal options have different hashes", a=m, b=n)
    if len(set(xs) | set(ys)) != len(set(xs)):
        fail("a set of options keeps equal options apart", options=ms)
    for m, x in zip(ms, xs):
        for foreign in (None, 0, "", "Nothing", (), m[-1] if m[0] == "some" and not isinstance(m[-1], Option) else object(), object(), looks(m)):
            check((x == foreign) is False and (x != foreign) is True, "an option equals something that is no option", option=m, other=foreign)
        check(str(x) == ("Nothing" if m[0] == "none" else f"Some {m[1]}"), "str of an option", got=str(x), option=m)
        check(repr(x) == ("Option(none=None)" if m[0] == "none" else f"Option(some={m[1]!r})"), "repr of an option", got=repr(x), option=m)
        mon.ev("printed")
    # ordering
    if kind in ("int", "eq"):
        for (m, x), (n, y) in itertools.product(zip(ms, xs), zip(ms, ys)):
            want = (n[0] == "some") if m[0] == "none" else (n[0] == "some" and m[1] < n[1])
            check((x < y) is want, "option ordering", a=m, b=n, want=want, got=x < y)
            check((y > x) is want, "option ordering (reflected)", a=m, b=n, want=want)
            mon.ev("lt")
        got = [observe(z) for z in sorted(xs)]
        want = sorted(ms, key=lambda m: (0, 0) if m[0] == "none" else (1, m[1]))
        check(all(agrees(a, b) for a, b in zip(got, want)), "sorting options", got=got, want=want)
    mon.sig("relations", kind, [tname(m) for m in ms])


def falsy_values(rng, mon):
    """Presence never depends on the truth of the value."""
    v = falsy(rng)
    x = Some(v)
    t = Tok()
    check(x.is_some() and not x.is_none() and x.default_value(t) is v and x.or_else(Some(t)).value is v, "a falsy value counts as absent", value=v)
    check(x.default_with(lambda: t) is v and x.or_else_with(lambda: Some(t)).value is v, "a falsy value counts as absent", value=v)
    r = Some(t).map(lambda _: v)
    check(agrees(observe(r), ("some", v)), "mapping to a falsy value loses presence", value=v, got=r)
    r = Some(t).bind(lambda _: Some(v))
    check(agrees(observe(r), ("some", v)), "binding to a falsy value loses presence", value=v, got=r)
    r = Some(v).map2(lambda a, b: (a, b), Some(v))
    check(r.is_some() and r.value[0] is v and r.value[1] is v, "map2 of falsy values", value=v)
    check(agrees(observe(Some(v).filter(lambda _: True)), ("some", v)), "filter loses a falsy value", value=v)
    check(agrees(observe(Some(v).apply(Some(lambda a: a))), ("some", v)), "apply loses a falsy value", value=v)
    mon.sig("falsy", repr(v))


SCALE = 20
WORKLOADS = {
    "ops": Workload(ops, 24000, 600000),
    "chain": Workload(chain, 6000, 150000),
    "laws": Workload(laws, 4000, 100000),
    "relations": Workload(relations, 2500, 60000),
    "falsy_values": Workload(falsy_values, 300, 3000),
}
