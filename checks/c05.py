from __future__ import annotations

import functools
import itertools
import random

from expression import Nothing, Option, Some, pipe
from expression.collections import Block, Seq, block as B

from vf import gen
from vf.core import Workload, check, fail
from vf.gen import Eq, Log, Tok, big, big_items, confusable, has_seq, ints, items, outcome, same, same_sum, sames, source, summands, truth, value

gen.ODD_EQUALITY = False
PROP = "C05"
RULE = (
    "A case is a program of 3-15 block operations (method or pipe form chosen at random) over hostile items (falsy, None, equal-but-distinct, nested, "
    "without truth value), run on the real Block and on a list; every result is compared by length, order and object identity, and every callback's "
    "calls with the calls the list operation makes. Non-trivial: a program of 2 or more operations that touched a non-empty block; distinct by program and items."
)
ASSUMPTIONS = ["callbacks are deterministic"]
REQUIRED = ["op.sort_with", "op.unfold", "op.zip", "op.take_last", "raise.empty", "op.slice", "long", "big", "op.collect", "op.choose"]


class Never:
    """Equal to nothing, not even to itself."""

    def __eq__(self, o):
        return False

    __hash__ = object.__hash__


def pred_of(rng):
    salt, p = rng.randrange(1 << 20), rng.choice([0, 0.3, 0.6, 1])
    table: dict = {}

    def pred(x):
        key = id(x)
        if key not in table:
            r = random.Random(f"{salt}/{len(table)}")
            table[key] = (truth(r, r.random() < p), x)
        return table[key][0]

    return pred


def mapper_of(rng):
    table: dict = {}
    kind = rng.randrange(3)

    def f(*x):
        key = tuple(i if isinstance(i, int) else id(i) for i in x)
        if key not in table:
            table[key] = (Tok() if kind == 0 else value(rng, 1) if kind == 1 else rng.choice([None, 0, False, 1, ""]), x)
        return table[key][0]

    return f


def count_of(rng, n, lo=0):
    return rng.choice([c for c in (0, 1, 2, n - 1, n, n + 1, n + 5, rng.randrange(n + 2)) if c >= lo])


class Prog:
    def __init__(self, rng, mon, big=False):
        self.rng, self.mon, self.big = rng, mon, big
        self.hist: list = []

    def items(self, n=None):
        if self.big and n is None:
            return big_items(self.rng) if self.rng.random() < 0.4 else items(self.rng)
        return items(self.rng, n)

    def size(self, small):
        return big(self.rng) if self.big else self.rng.randrange(small)

    def cb(self, fn):
        """A logged callback; returns (wrapped, log)."""
        log = Log()
        return log.wrap("f", fn), log

    def calls(self, log, want, what):
        got = [a[1] for a in log]
        if not (len(got) == len(want) and all(sames(g, w) for g, w in zip(got, want))):
            fail(f"{what}: the callback's calls differ", got=got[:30], want=want[:30], hist=self.hist)

    def blk(self, got, want, what):
        check(type(got) is Block, f"{what} is not a block", got=type(got), hist=self.hist)
        g = list(got)
        if not sames(g, want):
            fail(f"{what} differs", got=g[:40], want=want[:40], hist=self.hist)
        return got, g

    def val(self, got, want, what):
        check(same(got, want), f"{what} differs", got=got, want=want, hist=self.hist)

    def raises(self, fn, exc, what):
        o = outcome(fn)
        check(o[0] == "exc" and isinstance(o[1], exc), f"{what} did not raise {exc}", got=o, hist=self.hist)
        self.mon.ev("raise.empty")


def op_append(P, b, xs, pf):
    ys = P.items()
    o = Block(ys)
    k = P.rng.randrange(3)
    return P.blk([lambda: b.append(o), lambda: pipe(b, B.append(o)), lambda: b + o][k](), xs + ys, "append")


def op_choose(P, b, xs, pf):
    mp, pr = mapper_of(P.rng), pred_of(P.rng)
    f, log = P.cb(lambda x: Some(mp(x)) if pr(x) else Nothing)
    r = pipe(b, B.choose(f)) if pf else b.choose(f)
    P.calls(log, [(x,) for x in xs], "choose")
    return P.blk(r, [mp(x) for x in xs if pr(x)], "choose")


def op_collect(P, b, xs, pf):
    rng = P.rng
    tables = {}

    def sub(x):
        if id(x) not in tables:
            tables[id(x)] = ([Tok() for _ in range(rng.randrange(3))], x)
        return Block(tables[id(x)][0])

    f, log = P.cb(sub)
    r = pipe(b, B.collect(f)) if pf else b.collect(f)
    P.calls(log, [(x,) for x in xs], "collect")
    return P.blk(r, [y for x in xs for y in tables[id(x)][0]], "collect")


def op_cons(P, b, xs, pf):
    v = value(P.rng, 1)
    return P.blk(B.cons(v, b) if pf else b.cons(v), [v, *xs], "cons")


def op_filter(P, b, xs, pf):
    pr = pred_of(P.rng)
    f, log = P.cb(pr)
    r = pipe(b, B.filter(f)) if pf else b.filter(f)
    P.calls(log, [(x,) for x in xs], "filter")
    return P.blk(r, [x for x in xs if pr(x)], "filter")


def op_partition(P, b, xs, pf):
    pr = pred_of(P.rng)
    f, log = P.cb(pr)
    r = pipe(b, B.partition(f)) if pf else b.partition(f)
    P.calls(log, [(x,) for x in xs], "partition")
    check(type(r) is tuple and len(r) == 2, "partition shape", got=r)
    a = P.blk(r[0], [x for x in xs if pr(x)], "partition yes")
    c = P.blk(r[1], [x for x in xs if not pr(x)], "partition no")
    return P.rng.choice([a, c])


def op_fold(P, b, xs, pf):
    s0 = Tok()
    states = [s0]

    def folder(s, x):
        check(s is states[-1], "fold: state not threaded", hist=P.hist)
        states.append(Tok())
        return states[-1]

    f, log = P.cb(folder)
    r = pipe(b, B.fold(f, s0)) if pf else b.fold(f, s0)
    check(r is states[-1], "fold result", hist=P.hist)
    P.calls(log, [(s, x) for s, x in zip(states, xs)], "fold")


def op_reduce(P, b, xs, pf):
    if not xs:
        return P.raises(lambda: (pipe(b, B.reduce(lambda a, c: a)) if pf else b.reduce(lambda a, c: a)), ValueError, "reduce of empty")
    states = [xs[0]]

    def red(s, x):
        states.append(Tok())
        return states[-1]

    f, log = P.cb(red)
    r = pipe(b, B.reduce(f)) if pf else b.reduce(f)
    check(r is states[-1], "reduce result", hist=P.hist)
    P.calls(log, [(s, x) for s, x in zip(states, xs[1:])], "reduce")


def op_forall(P, b, xs, pf):
    pr = pred_of(P.rng)
    f, log = P.cb(pr)
    r = pipe(b, B.forall(f)) if pf else b.forall(f)
    stop = next((i for i, x in enumerate(xs) if not pr(x)), None)
    P.val(r, stop is None, "forall")
    P.calls(log, [(x,) for x in (xs if stop is None else xs[: stop + 1])], "forall")


def op_head(P, b, xs, pf):
    if xs:
        P.val(pipe(b, B.head) if pf else b.head(), xs[0], "head")
    else:
        P.raises(lambda: B.head(b) if pf else b.head(), ValueError, "head of empty")
    r = B.try_head(b) if pf else b.try_head()
    P.val(r, Some(xs[0]) if xs else Nothing, "try_head")


def op_tail(P, b, xs, pf):
    if not xs:
        return P.raises(lambda: B.tail(b) if pf else b.tail(), Exception, "tail of empty")
    return P.blk(B.tail(b) if pf else b.tail(), xs[1:], "tail")


def op_indexed(P, b, xs, pf):
    st = P.rng.choice([0, 0, 1, -2, 7])
    if pf:
        return P.blk(pipe(b, B.indexed), list(enumerate(xs)), "indexed")
    return P.blk(b.indexed() if st == 0 else b.indexed(st), list(enumerate(xs, st)), "indexed")


def op_item(P, b, xs, pf):
    n = len(xs)
    i = P.rng.choice([0, -1, n - 1, n, -n, -n - 1, P.rng.randrange(n + 1)])
    want = outcome(lambda: xs[i])
    for how, got in (("item", outcome(lambda: pipe(b, B.item(i)) if pf else b.item(i))), ("index", outcome(lambda: b[i]))):
        check(got[0] == want[0] and (same(got[1], want[1]) if want[0] == "ok" else isinstance(got[1], IndexError)), f"{how} {i} differs", got=got, want=want, hist=P.hist)


def op_slice(P, b, xs, pf):
    n = len(xs)
    pts = [None, 0, 1, -1, n, n + 2, -n - 1, P.rng.randrange(-n - 1, n + 2)]
    s = slice(P.rng.choice(pts), P.rng.choice(pts), P.rng.choice([None, 1, 2, -1, -2, 3]))
    return P.blk(b[s], xs[s], f"slice {s}")


def op_map(P, b, xs, pf):
    mp = mapper_of(P.rng)
    f, log = P.cb(mp)
    r = pipe(b, B.map(f)) if pf else b.map(f)
    P.calls(log, [(x,) for x in xs], "map")
    return P.blk(r, [mp(x) for x in xs], "map")


def op_mapi(P, b, xs, pf):
    mp = mapper_of(P.rng)
    f, log = P.cb(mp)
    r = pipe(b, B.mapi(f)) if pf else b.mapi(f)
    P.calls(log, [(i, x) for i, x in enumerate(xs)], "mapi")
    return P.blk(r, [mp(i, x) for i, x in enumerate(xs)], "mapi")


def op_starmap(P, b, xs, pf):
    k = P.rng.choice([1, 2, 2, 3, 3, 4])
    pools = [xs] + [[value(P.rng, 1) for _ in xs] for _ in range(k - 1)]
    rows = list(zip(*pools))
    src = Block(rows)
    mp = mapper_of(P.rng)
    f, log = P.cb(mp)
    forms = [lambda: src.starmap(f), lambda: pipe(src, B.starmap(f))]
    if k == 2:
        forms.append(lambda: pipe(src, B.map2(f)))
    if k == 3:
        forms.append(lambda: pipe(src, B.map3(f)))
    r = P.rng.choice(forms)()
    P.calls(log, rows, "starmap")
    return P.blk(r, [mp(*row) for row in rows], "starmap")


def op_sum(P, b, xs, pf):
    ns = summands(P.rng, P.size(12))
    nb = Block(ns)
    got, want = B.sum(nb) if pf else nb.sum(), sum(ns)
    check(same_sum(got, want), "sum differs", got=got, want=want, items=ns, hist=P.hist)
    got, want = pipe(nb, B.sum_by(lambda x: x)) if pf else nb.sum_by(lambda x: x), sum(ns)
    check(same_sum(got, want), "sum_by differs", got=got, want=want, items=ns, hist=P.hist)
    w = {id(x): (P.rng.randrange(9), x) for x in xs}
    f, log = P.cb(lambda x: w[id(x)][0])
    P.val(pipe(b, B.sum_by(f)) if pf else b.sum_by(f), sum(w[id(x)][0] for x in xs), "sum_by")
    P.calls(log, [(x,) for x in xs], "sum_by")


def op_skip(P, b, xs, pf):
    n = count_of(P.rng, len(xs))
    return P.blk(pipe(b, B.skip(n)) if pf else b.skip(n), xs[n:], f"skip {n}")


def op_take(P, b, xs, pf):
    n = count_of(P.rng, len(xs))
    return P.blk(pipe(b, B.take(n)) if pf else b.take(n), xs[:n], f"take {n}")


def op_take_last(P, b, xs, pf):
    n = count_of(P.rng, len(xs), 1)
    return P.blk(pipe(b, B.take_last(n)) if pf else b.take_last(n), xs[max(0, len(xs) - n) :], f"take_last {n}")


def op_skip_last(P, b, xs, pf):
    n = count_of(P.rng, len(xs), 1)
    return P.blk(pipe(b, B.skip_last(n)) if pf else b.skip_last(n), xs[: max(0, len(xs) - n)], f"skip_last {n}")


def op_sort(P, b, xs, pf):
    ys = [Eq(P.rng.randrange(3), i) for i in range(P.size(9))] if P.rng.random() < 0.6 else ints(P.rng, P.size(41))
    rev = P.rng.random() < 0.5
    src = Block(ys)
    want = sorted(ys, reverse=rev)
    r = (pipe(src, B.sort(reverse=rev)) if P.rng.random() < 0.5 else pipe(src, B.sort(rev))) if pf else (src.sort(rev) if P.rng.random() < 0.5 else src.sort(reverse=rev))
    P.blk(r, want, "sort")
    if not rev:
        P.blk(pipe(src, B.sort()) if pf else src.sort(), want, "sort default")


def op_sort_with(P, b, xs, pf):
    rank = {}
    for x in xs:
        rank.setdefault(id(x), (P.rng.randrange(3), x))
    rev = P.rng.random() < 0.5
    f, log = P.cb(lambda x: rank[id(x)][0])
    r = pipe(b, B.sort_with(f, rev)) if pf else b.sort_with(f, rev)
    if not rev and P.rng.random() < 0.3:
        P.blk(pipe(b, B.sort_with(f)) if pf else b.sort_with(f), sorted(xs, key=lambda x: rank[id(x)][0]), "sort_with default")
    return P.blk(r, sorted(xs, key=lambda x: rank[id(x)][0], reverse=rev), "sort_with")


def op_unfold(P, b, xs, pf):
    ys = P.items()
    f, log = P.cb(lambda s: Some((ys[s], s + 1)) if s < len(ys) else Nothing)
    k = P.rng.randrange(2)
    r = pipe(0, B.unfold(f)) if k else Block.unfold(f, 0)
    P.calls(log, [(i,) for i in range(len(ys) + 1)], "unfold")
    return P.blk(r, ys, "unfold")


def op_zip(P, b, xs, pf):
    n = len(xs)
    ys = P.items(n if P.rng.random() < 0.5 else P.rng.choice([0, 1, max(0, n - 1), n + 1, n + 7, n // 2]))
    o = Block(ys)
    return P.blk(pipe(b, B.zip(o)) if pf else b.zip(o), list(zip(xs, ys)), "zip")


def op_concat(P, b, xs, pf):
    parts = [P.items() for _ in range(P.rng.randrange(4) if not P.big or P.rng.random() < 0.7 else big(P.rng, 300))]
    src = [Block(p) for p in parts]
    arg = P.rng.choice([list, tuple, iter, Block, Seq])(src)
    return P.blk(B.concat(arg), [y for p in parts for y in p], "concat")


def op_make(P, b, xs, pf):
    rng = P.rng
    ys = P.items()
    k = rng.randrange(13)
    if k == 0:
        r = Block.of(*ys)
    elif k == 1:
        r = B.of(*ys)
    elif k == 2:
        r = Block.of_seq(source(rng, ys))
    elif k == 3:
        r = B.of_seq(source(rng, ys))
    elif k == 4:
        r = Block(ys)
    elif k == 5:
        r = Block(tuple(ys))
    elif k == 6:
        r = Block(y for y in ys)
    elif k == 7:
        r = Block(Block(ys))
    elif k == 11:
        r = Block(source(rng, ys))
    elif k == 12:
        r = rng.choice([Block, Block.of_seq, B.of_seq])(rng.choice([Seq, Block])(ys))
    elif k == 8:
        v = value(rng)
        ys = [v]
        r = B.singleton(v) if pf else Block.singleton(v)
    elif k == 9:
        o = Some(value(rng)) if rng.random() < 0.6 else Nothing
        ys = [o.value] if o.is_some() else []
        r = B.of_option(o) if pf else Block.of_option(o)
    else:
        args = rng.choice([(rng.randrange(6),), (P.size(6),), (rng.randrange(-3, 4), P.size(9)), (rng.randrange(-3, 4), rng.randrange(-3, 9)), (5, rng.randrange(-3, 9), rng.choice([-2, -1, 1, 3]))])
        ys = list(range(*args))
        r = B.range(*args) if pf else Block.range(*args)
    if not ys and rng.random() < 0.5:
        r = rng.choice([Block.empty(), Block(), B.empty, Block(())])
    return P.blk(r, ys, f"construction {k}")


def op_query(P, b, xs, pf):
    rng = P.rng
    check(len(b) == len(xs) and bool(b) == bool(xs), "len/bool", hist=P.hist)
    check((B.is_empty(b) if pf else b.is_empty()) is (not xs), "is_empty", hist=P.hist)
    probe = rng.sample(xs, min(3, len(xs))) + [Tok(), 1, None, Eq(1, -1), value(rng, 1), float("nan"), Never()]
    src = [*xs, Never(), float("nan")]
    probe += src[-2:]
    rng.shuffle(src)
    sb = Block(src)
    for v in probe:
        check((v in b) is (v in xs), "in", v=v, hist=P.hist)
        check((v in sb) is (v in src), "in", v=v, src=src, hist=P.hist)
    P.val(list(iter(b)), xs, "iter")
    check(str(b) == "[" + ", ".join(map(str, xs)) + "]" and repr(b) == str(b), "printed form", got=str(b), hist=P.hist)


def op_eq(P, b, xs, pf):
    rng = P.rng
    twin = Block(list(xs))
    check((b == twin) is True and (twin == b) is True and (b != twin) is False, "equal blocks differ", hist=P.hist)
    odd = Block([*xs, Never(), float("nan")])
    check((odd == odd) is True and (odd == Block(list(odd))) is True, "a block of items unequal to themselves", hist=P.hist)
    check((b == tuple(xs)) is True, "block and tuple of equal items differ", hist=P.hist)
    longer = Block([*xs, Tok()])
    check((b == longer) is False and (longer == b) is False and (b != longer) is True, "block equal to a longer one", hist=P.hist)
    if xs:
        i = rng.randrange(len(xs))
        other = Block([*xs[:i], Tok(), *xs[i + 1 :]])
        check((b == other) is False and (other == b) is False, "block equal to one with another item", hist=P.hist)
        shorter = Block(xs[:-1])
        check((b == shorter) is False and (shorter == b) is False, "block equal to a shorter one", hist=P.hist)
        us, vs = (confusable(rng, 2), confusable(rng, 2)) if rng.random() < 0.3 else (lambda g: (g[:2], g[2:]))(confusable(rng, 4))
        check((Block(us) == Block(vs)) is (us == vs) and (Block(us) != Block(vs)) is (us != vs), "blocks of similar items", a=us, b=vs, hist=P.hist)
        eqs = [Eq(rng.randrange(3), j) for j in range(rng.randrange(5))]
        check(Block(eqs) == Block([Eq(e.n, "other") for e in eqs]), "blocks of equal items differ", hist=P.hist)


def op_match(P, b, xs, pf):
    match b:
        case Block([]):
            got = ("none",)
        case Block([x]):
            got = ("one", x)
        case Block([x, y]):
            got = ("two", x, y)
        case Block([x, *ys, z]):
            got = ("more", x, *ys, z)
        case _:
            got = ("nothing matches",)
    want = (["none", "one", "two"][len(xs)] if len(xs) < 3 else "more", *xs)
    P.val(list(got), list(want), "pattern matching")
    match b:
        case Block([*ys]):
            P.val(ys, xs, "pattern matching all items")
        case _:
            fail("a block does not match the pattern of any items", hist=P.hist)


def op_dict(P, b, xs, pf):
    def conv(v):
        attr = getattr(v, "model_dump", None) or getattr(v, "dict", None)
        return attr() if attr and callable(attr) else v

    want = [conv(v) for v in xs]
    if has_seq(xs):
        return  # the dictionary form of a sequence is a one-shot iterator
    got = B.dict(b) if pf else b.dict()
    check(type(got) is list, "dict is not a list", got=got)
    P.val(got, want, "dict")


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith("op_")}


def bigs(rng, mon):
    program(rng, mon, True)


def program(rng, mon, large=False):
    P = Prog(rng, mon, large)
    if large:
        mon.ev("big")
    xs = big_items(rng) if large else items(rng)
    b = Block(xs)
    touched = bool(xs)
    n = rng.choice([4, 8]) if large else rng.choice([3, 6, 10, 15])
    for _ in range(n):
        name = rng.choice(list(OPS))
        pf = rng.random() < 0.5
        P.hist.append((name, "pipe" if pf else "method", len(xs)))
        mon.ev("op." + name)
        keep, kx = b, list(xs)
        r = OPS[name](P, b, xs, pf)
        P.blk(keep, kx, f"the source of {name}")
        if r is not None and (60 < len(r[1]) <= 3000 or len(r[1]) >= 20 and rng.random() < 0.5 if large else len(r[1]) <= 60):
            b, xs = r
        touched |= bool(xs)
    if touched:
        mon.sig(tuple(P.hist), len(xs))
        mon.sample(str([h[0] for h in P.hist]) + f" items {xs!r}"[:200])


def long(rng, mon):
    n = rng.choice([2000, 20000, 60000])
    xs = list(range(n))
    b = rng.choice([lambda: Block(xs), lambda: Block.of_seq(iter(xs)), lambda: Block.range(n), lambda: Block.unfold(lambda s: Some((s, s + 1)) if s < n else Nothing, 0)])()
    P = Prog(rng, mon)
    P.hist.append(("long", n))
    P.blk(b.map(lambda x: x + 1), [x + 1 for x in xs], "map")
    P.blk(b.filter(lambda x: x % 3), [x for x in xs if x % 3], "filter")
    P.blk(b.choose(lambda x: Some(x) if x % 2 else Nothing), xs[1::2], "choose")
    P.blk(b.collect(lambda x: Block([x, x])), [y for x in xs for y in (x, x)], "collect")
    P.val(b.fold(lambda s, x: s + x, 0), sum(xs), "fold")
    P.val(b.reduce(lambda s, x: s + x), sum(xs), "reduce")
    P.val(b.sum(), sum(xs), "sum")
    P.blk(b.partition(lambda x: x % 2)[1], xs[::2], "partition")
    P.blk(b.zip(b), list(zip(xs, xs)), "zip")
    P.blk(b.sort(reverse=True), xs[::-1], "sort")
    P.blk(b.mapi(lambda i, x: i + x), [2 * x for x in xs], "mapi")
    P.blk(b.indexed(), list(enumerate(xs)), "indexed")
    P.blk(b.cons(-1).tail(), xs, "cons/tail")
    P.blk(b.append(b), xs + xs, "append")
    P.blk(b.starmap(lambda x: x) if False else b.zip(b).starmap(lambda x, y: x + y), [2 * x for x in xs], "starmap")
    check(b == Block(xs) and b.forall(lambda x: x >= 0) and len(str(b)) > n, "eq/forall/str")
    k = rng.choice([500, 1500])
    P.blk(B.concat(Block([i]) for i in range(k)), list(range(k)), "concat of many")
    acc = Block.empty()
    for i in range(k):
        acc = acc.cons(i)
    P.blk(acc, list(range(k))[::-1], "many cons")
    mon.ev("long")
    mon.sig("long", n, k)


SCALE = 4
WORKLOADS = {
    "program": Workload(program, 16000, 160000),
    "bigs": Workload(bigs, 2000, 30000),
    "long": Workload(long, 24, 200),
}
_ = (functools, itertools, Option)
