from __future__ import annotations

from expression import Nothing, Some, pipe
from expression.collections import Block, Seq, seq

from vf.core import Workload, check, fail
from vf.gen import Acc, AccFloat, AccInt, Eq, Log, big, big_items, has_seq, Tok, ints, items, outcome, same, same_sum, sames, source, value

from .seqlib import h, make_source, make_stage, truth

PROP = "C08"
RULE = (
    "A case builds a pipeline of 0-5 random operators (method or function form each) over a source of a random kind and hostile items (some of them long, up to 1100 items, with counts around their length), consumes it by a "
    "random consumer (iteration, to_list, fold, aggregates, searches), and compares items and the calls of each stage's callback with the composition of "
    "the operators' list definitions. Non-trivial: at least one operator and a non-empty source; distinct by pipeline, consumer, source kind and items."
)
ASSUMPTIONS = ["callbacks are deterministic"]
REQUIRED = ["stage.map", "stage.collect", "stage.filter", "stage.scan", "stage.zip", "stage.pairwise", "end.fold_back", "end.try_pick", "end.max_by", "raise", "src.gen", "src.block", "bigs"]


def mk(rng):
    return items(rng, rng.choice([0, 1, 2, 4, 6]))


def weight(x):
    return h("w", x) % 50


def addends(rng, n):
    """A function to things that are added up: numbers, or values with an addition of their own."""
    k = rng.randrange(4)
    if k == 0:
        return lambda x: Acc(weight(x))
    if k == 1:
        return lambda x: AccFloat(weight(x))
    if k == 2 and n < 300:
        return lambda x: AccInt(weight(x) % 2) if weight(x) < 30 else weight(x)
    return weight


def total(xs):
    s = 0
    for x in xs:
        s = s + x
    return s


class End:
    def __init__(self, rng, xs, mon):
        self.rng, self.xs, self.mon = rng, xs, mon


class PlainAttrs:
    dict = model_dump = "data"


def consume(rng, real, want, mon, desc, method):
    """Consume the real pipeline; want is the list of its items."""
    S = real if isinstance(real, Seq) else Seq(real)
    end = rng.choice(["list", "list", "to_list", "fold", "fold_back", "length", "head", "sum_by", "sum", "max", "min", "max_by", "min_by", "find", "try_pick", "iter", "repr", "dict", "for", "Block", "starmap"])
    mon.ev("end." + end)

    def bad(what, got, exp):
        fail(f"{end}: {what}", got=got, want=exp, pipeline=desc)

    if end in ("list", "for"):
        got = list(real) if end == "list" else [x for x in iter(real)]
        if not sames(got, want):
            bad("items differ", got[:30], want[:30])
    elif end in ("to_list", "Block"):
        got = S.to_list() if method else (seq.to_list(real) if end == "to_list" else Block.of_seq(real))
        check(type(got) is Block, "to_list is not a block", got=type(got))
        if not sames(got, want):
            bad("items differ", list(got)[:30], want[:30])
    elif end == "fold":
        log = Log()
        states = [Tok()]

        def folder(s, x):
            check(s is states[-1], "fold: state not threaded", pipeline=desc)
            states.append(Tok() if rng.random() < 0.8 else value(rng))
            return states[-1]

        f = log.wrap("f", folder)
        got = S.fold(f, states[0]) if method else pipe(real, seq.fold(f, states[0]))
        if got is not states[-1] or not sames([a[1][1] for a in log], want):
            bad("calls", log, want)
    elif end == "fold_back":
        log = Log()
        states = [Tok()]

        def back(x, s):
            check(s is states[-1], "fold_back: state not threaded", pipeline=desc)
            states.append(Tok() if rng.random() < 0.8 else value(rng))
            return states[-1]

        f = log.wrap("f", back)
        got = seq.fold_back(f, real)(states[0])
        if got is not states[-1] or not sames([a[1][0] for a in log], want[::-1]):
            bad("calls", log, want[::-1])
    elif end == "length":
        got = S.length() if method else seq.length(real)
        if got != len(want):
            bad("", got, len(want))
    elif end == "head":
        o = outcome(lambda: S.head() if method else seq.head(real))
        if want:
            if o[0] != "ok" or not same(o[1], want[0]):
                bad("", o, want[0])
        elif o[0] != "exc" or not isinstance(o[1], ValueError):
            bad("of an empty sequence", o, ValueError)
        else:
            mon.ev("raise")
    elif end in ("sum_by", "sum"):
        log = Log()
        w = addends(rng, len(want))
        f = log.wrap("f", w)
        if end == "sum_by":
            got = S.sum_by(f) if method else pipe(real, seq.sum_by(f))
            if not sames([a[1][0] for a in log], want):
                bad("calls", log, want)
        else:
            got = seq.sum(map(w, real)) if not method else S.map(w).sum() if rng.random() < 0.5 else Seq([w(x) for x in real]).sum()
        if not same_sum(got, total(map(w, want))):
            bad("", got, total(map(w, want)))
    elif end in ("max", "min"):
        fn = getattr(seq, end)
        eq = (Eq(weight(x), i) for i, x in enumerate(real))
        o = outcome(lambda: fn(eq))
        ws = [Eq(weight(x), i) for i, x in enumerate(want)]
        if not ws:
            if o[0] != "exc" or not isinstance(o[1], ValueError):
                bad("of an empty sequence", o, ValueError)
            mon.ev("raise")
        else:
            e = (max if end == "max" else min)(ws, key=lambda e: e.n)
            if o[0] != "ok" or (o[1].n, o[1].tag) != (e.n, e.tag):
                bad("", o, e)
    elif end in ("max_by", "min_by"):
        log = Log()
        f = log.wrap("f", weight)
        o = outcome(lambda: pipe(real, getattr(seq, end)(f)))
        if not want:
            if o[0] != "exc" or not isinstance(o[1], ValueError):
                bad("of an empty sequence", o, ValueError)
            mon.ev("raise")
        else:
            e = (max if end == "max_by" else min)(map(weight, want))
            if o != ("ok", e):
                bad("", o, e)
            if not sames([a[1][0] for a in log], want):
                bad("calls", log, want)
    elif end == "find":
        salt = rng.randrange(99)
        log = Log()
        rare = rng.choice([4, 4, max(2, len(want))])
        f = log.wrap("f", lambda x: truth(h(salt, x) // 64, h(salt, x) % rare == 0))
        got = S.try_find_index(f) if method else pipe(real, seq.try_find_index(f))
        i = next((i for i, x in enumerate(want) if h(salt, x) % rare == 0), None)
        if not same(got, Nothing if i is None else Some(i)):
            bad("", got, i)
        if not sames([a[1][0] for a in log], want if i is None else want[: i + 1]):
            bad("calls", log, want)
    elif end == "try_pick":
        salt = rng.randrange(99)
        log = Log()
        rare = rng.choice([4, 4, max(2, len(want))])
        f = log.wrap("f", lambda x: Some(rng.choice([x, None, 0])) if h(salt, x) % rare == 0 else Nothing)
        st = rng.getstate()
        i = next((i for i, x in enumerate(want) if h(salt, x) % rare == 0), None)
        exp = Nothing if i is None else Some(rng.choice([want[i], None, 0]))
        rng.setstate(st)
        got = S.try_pick(f) if method else pipe(real, seq.try_pick(f))
        if not same(got, exp):
            bad("", got, exp)
        if not sames([a[1][0] for a in log], want if i is None else want[: i + 1]):
            bad("calls", log, want)
    elif end == "starmap":
        k = rng.randrange(4)
        rows = [(x, *range(k)) for x in real]
        log = Log()
        f = log.wrap("f", lambda *a: a)
        got = list(Seq(rows).starmap(f)) if method else list(pipe(rows, seq.starmap(f)))
        exp = [(x, *range(k)) for x in want]
        if not sames(got, exp) or not sames([a[1] for a in log], exp):
            bad("rows", got[:30], exp[:30])
    elif end == "iter":
        out: list = []
        r = pipe(real, seq.iter(out.append))
        if r is not None or not sames(out, want):
            bad("items", out, want)
    elif end == "repr":
        got = repr(S)
        exp = "[" + "; ".join(str(x) for x in want[:100]) + ("; ..." if len(want) > 100 else "") + "]"
        if got != exp:
            bad("", got, exp)
        if isinstance(real, (list, tuple, Block, range, str)) and str(S) != exp:
            bad("str", str(S), exp)
    elif end == "dict":
        if isinstance(real, list):
            plain = PlainAttrs()
            got = list(Seq([*real, plain]).dict())
            check(bool(got) and got[-1] is plain, "dict of an item with a data attribute of that name", got=got[-1:])
        got = list(S.dict())
        exp = got if has_seq(want) else [x.dict() if callable(getattr(x, "dict", None)) else x for x in want]
        if not sames(got, exp):
            bad("", got, exp)
    return end


def pipeline(rng, mon):
    run(rng, mon, mk(rng), mk, rng.choice([0, 1, 1, 2, 3, 5]))


def bigs(rng, mon):
    """Long sources, inner sources and counts."""
    n = big(rng, 1100)
    mon.ev("bigs")
    run(rng, mon, big_items(rng, n), lambda rng: big_items(rng, rng.choice([0, 1, n - 1, n, n + 1, big(rng, 300)])), rng.choice([0, 0, 1, 1, 2, 3]), long=n)


def run(rng, mon, base, mk, n, long=0):
    kind, src, xs = make_source(rng, base) if rng.random() < 0.85 else ("other", source(rng, base), base)
    mon.ev("src." + kind)
    stages = [make_stage(rng, mk, long=long) for _ in range(n)]
    real = src
    ref = iter(xs)
    desc = [kind, len(xs)]
    for s in stages:
        m = rng.random() < 0.5
        mon.ev("stage." + s.name.split("(")[0].split("/")[0])
        desc.append(f"{'.' if m else '|'}{s.name}")
        real = s.real(real, m)
        ref = s.ref(ref)
    want = list(ref)
    method = rng.random() < 0.5
    end = consume(rng, real, want, mon, desc, method)
    desc.append(end)
    for s in stages:
        # searches and heads stop early: then the calls are a prefix
        full = end not in ("head", "find", "try_pick") and not (end == "repr" and len(want) >= 100)
        a, b = s.rlog, s.flog
        if full and len(a) != len(b) or len(a) > len(b):
            fail(f"stage {s.name}: number of callback calls", got=len(a), want=len(b), pipeline=desc)
        if not all(sames(x[1], y[1]) for x, y in zip(a, b)):
            fail(f"stage {s.name}: callback arguments", got=a[:20], want=b[:20], pipeline=desc)
    mon.ev("items", len(want))
    if n and xs:
        mon.sig(tuple(desc), repr(want)[:200])
        mon.sample(f"{desc} -> {want!r}"[:300])


def long(rng, mon):
    n = rng.choice([5000, 50000])
    s = Seq(range(n))
    k = rng.randrange(10)
    got = list(s.map(lambda x: x + k).filter(lambda x: x % 2).mapi(lambda i, x: i + x).skip(10).take(n).pairwise().map(lambda p: p[1] - p[0]))
    ref = [i + x for i, x in enumerate(x + k for x in range(n) if (x + k) % 2)][10:]
    check(got == [b - a for a, b in zip(ref, ref[1:])], "a long pipeline differs")
    check(s.length() == n and s.fold(lambda a, x: a + x, 0) == n * (n - 1) // 2, "length/fold")
    check(seq.fold_back(lambda x, a: a + x, s)(0) == n * (n - 1) // 2, "fold_back")
    check(list(pipe(0, seq.unfold(lambda i: Some((i, i + 1)) if i < n else Nothing))) == list(range(n)), "unfold")
    check(len(list(s.collect(lambda x: Seq([x, x])))) == 2 * n, "collect")
    check(len(s.to_list()) == n, "to_list")
    m = 150
    d = s
    for _ in range(m):
        d = d.map(lambda x: x + 1)
    check(d.take(3).to_list() == Block([m, m + 1, m + 2]), "150 stages")
    check(repr(s).endswith("; ...]") and repr(s).count(";") == 100, "repr of a long sequence", got=repr(s)[-40:])
    mon.sig("long", n, k)


def infinite(rng, mon):
    k = rng.randrange(20)
    check(list(pipe(seq.infinite, seq.take(k))) == list(range(k)), "infinite")
    check(list(pipe(seq.init_infinite(lambda i: i * i), seq.skip(3), seq.take(k))) == [i * i for i in range(3, 3 + k)], "init_infinite")
    v = value(rng)
    check(sames(seq.singleton(v), [v]) and sames(seq.of(v, v), [v, v]) and list(Seq.empty()) == [] and list(seq.empty) == [] and list(Seq()) == [], "constructors")
    args = rng.choice([(k,), (2, k), (k, -3, -2)])
    check(list(seq.range(*args)) == list(range(*args)) == list(Seq.range(*args)), "range", args=args)
    mon.sig("infinite", k, args)


SCALE = 4
WORKLOADS = {
    "pipeline": Workload(pipeline, 120000, 900000),
    "bigs": Workload(bigs, 2500, 20000),
    "infinite": Workload(infinite, 400, 2000),
    "long": Workload(long, 8, 40),
}
_ = ints
