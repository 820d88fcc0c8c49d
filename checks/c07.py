from __future__ import annotations

import array
import random
import struct

from expression import Nothing, Some, pipe
from expression.collections import Block, Map, Seq, array as A
from expression.collections.array import TypeCode, TypedArray, double, float32, float64, int8, int16, int32, int64, uint8, uint16, uint32, uint64

from vf import gen
from vf.core import Workload, check, fail
from vf.gen import Eq, Log, Tok, big, confusable, items, outcome, same, same_sum, sames, source, summands, truth, value

gen.ODD_EQUALITY = False
PROP = "C07"
RULE = (
    "A case picks one element kind (every type code, every element class, bytes, plain objects), builds a typed array and runs 5-25 random operations "
    "(queries, mutations, transformations; method and pipe form) against a list model with values at the limits of the kind, comparing items after "
    "each and the calls of every callback. Non-trivial: at least one mutation and one transformation on a non-empty array; distinct by kind, program and items."
)
ASSUMPTIONS = ["float32 values are exactly representable", "values fit the element type"]
REQUIRED = ["op.setitem", "op.delitem", "op.insert", "op.slice_get", "op.slice_set", "op.take_last", "op.unfold", "op.eq", "raise", "kind.byte", "kind.u64", "kind.f32", "kind.any", "refused", "big"]


def irange(lo, hi):
    def g(rng):
        return rng.choice([lo, hi, 0, 1, rng.randint(lo, hi), rng.randint(max(lo, -3), min(hi, 3))])

    return g


def fl(rng):
    return rng.choice([0.0, -0.5, 1.0, 2.25, -1024.0, float(rng.randrange(-100, 100)) / 8])


KINDS = {
    "byte": (TypeCode.Byte, None, irange(0, 255)),
    "i8": (TypeCode.Int8, int8, irange(-(2**7), 2**7 - 1)),
    "i16": (TypeCode.Int16, int16, irange(-(2**15), 2**15 - 1)),
    "i32": (TypeCode.Int32, int32, irange(-(2**31), 2**31 - 1)),
    "i64": (TypeCode.Int64, int64, irange(-(2**63), 2**63 - 1)),
    "u8": (TypeCode.Uint8, uint8, irange(0, 2**8 - 1)),
    "u16": (TypeCode.Uint16, uint16, irange(0, 2**16 - 1)),
    "u32": (TypeCode.Uint32, uint32, irange(0, 2**32 - 1)),
    "u64": (TypeCode.Uint64, uint64, irange(0, 2**64 - 1)),
    "f32": (TypeCode.Float, float32, fl),
    "f64": (TypeCode.Double, float64, fl),
    "double": (TypeCode.Double, double, fl),
    "any": (TypeCode.Any, None, lambda rng: value(rng, 1)),
    "obj": (None, None, lambda rng: Eq(rng.randrange(3), rng.randrange(99))),
    "int": (None, None, lambda rng: rng.randrange(-5, 6)),
}


def num(x):
    """Items of element classes compare as plain numbers."""
    if isinstance(x, bool):
        return x
    if isinstance(x, int):
        return int(x)
    if isinstance(x, float):
        return float(x)
    return x


def eqs(got, want):
    return sames([num(x) for x in got], [num(x) for x in want])


class P:
    big = False

    def __init__(self, rng, mon, kind):
        self.rng, self.mon, self.kind = rng, mon, kind
        self.tc, self.cls, self.g = KINDS[kind]
        self.hist: list = [kind]
        self.mut = self.tr = 0

    def raw(self):
        return self.g(self.rng)

    def arr(self, got, want, what):
        check(type(got) is TypedArray, f"{what} is not a typed array", got=type(got), hist=self.hist)
        g = list(got)
        if not eqs(g, want):
            fail(f"{what} differs", got=g[:30], want=list(want)[:30], hist=self.hist)
        check(len(got) == len(g), f"{what}: length", hist=self.hist)
        return got, g

    def val(self, got, want, what):
        if not same(num(got), num(want)):
            fail(f"{what} differs", got=got, want=want, hist=self.hist)

    def calls(self, log, want, what):
        got = [a[1] for a in log]
        if not (len(got) == len(want) and all(eqs(g, w) for g, w in zip(got, want))):
            fail(f"{what}: the callback's calls differ", got=got[:30], want=want[:30], hist=self.hist)

    def both(self, got, want, what):
        """Both outcomes agree (values, or exceptions of the same type)."""
        if got[0] != want[0] or (want[0] == "exc" and type(got[1]) is not type(want[1])):
            fail(f"{what} differs", got=got, want=want, hist=self.hist)
        if want[0] == "exc":
            self.mon.ev("raise")


def index(p, xs, pad=0):
    n = len(xs)
    return p.rng.choice([0, -1, n - 1, n, -n, -n - 1, p.rng.randrange(-n - 1, n + 1)])


def sl(p, xs):
    n = len(xs)
    pts = [None, 0, 1, -1, n, n + 2, -n - 1, p.rng.randrange(-n - 1, n + 2)]
    return slice(p.rng.choice(pts), p.rng.choice(pts), p.rng.choice([None, None, 1, 2, -1, -2, 3, -3, p.rng.choice([7, -7, 50])]))


def pred_of(rng):
    salt, pr = rng.randrange(1 << 20), rng.choice([0, 0.3, 0.6, 1])

    def pred(x):
        key = x if isinstance(x, (int, float)) else x.n if isinstance(x, Eq) else type(x).__name__
        r = random.Random(f"{salt}/{num(key)}")
        return truth(r, r.random() < pr)

    return pred


def cnt(p, xs, lo=0):
    n = len(xs)
    return p.rng.choice([c for c in (0, 1, 2, n - 1, n, n + 1, n + 4, p.rng.randrange(n + 2)) if c >= lo])


# -- queries and mutations; each returns None or a new (array, list)


def op_setitem(p, a, xs, pf):
    i = index(p, xs)
    v = p.raw()

    def on(t):
        t[i] = v

    p.both(outcome(on, a), outcome(on, xs), f"setitem {i}")
    p.mut += 1


def op_delitem(p, a, xs, pf):
    i = index(p, xs)

    def on(t):
        del t[i]

    p.both(outcome(on, a), outcome(on, xs), f"delitem {i}")
    p.mut += 1


def op_slice_get(p, a, xs, pf):
    s = sl(p, xs)
    got = list(a[s])
    check(eqs(got, xs[s]), f"slice {s} differs", got=got, want=xs[s], hist=p.hist)


def op_slice_set(p, a, xs, pf):
    n = len(xs)
    i = p.rng.randrange(n + 1)
    j = p.rng.randrange(i, n + 1)
    vs = [p.raw() for _ in range(p.rng.randrange(3))]
    back = a[0:0]
    if isinstance(back, list):
        new = list(vs)
    elif isinstance(back, bytearray):
        new = bytes(vs)
    elif isinstance(back, array.array):
        new = array.array(back.typecode, vs)
    else:
        new = list(vs)
    a[i:j] = new
    xs[i:j] = vs
    p.mut += 1


def op_slice_del(p, a, xs, pf):
    s = sl(p, xs)
    del a[s]
    del xs[s]
    p.mut += 1


def op_insert(p, a, xs, pf):
    i = index(p, xs)
    v = p.raw()
    a.insert(i, v)
    xs.insert(i, v)
    p.mut += 1


def op_append(p, a, xs, pf):
    v = p.raw()
    k = p.rng.randrange(3)
    if k == 0:
        a.append(v)
        xs.append(v)
    elif k == 1:
        vs = [p.raw() for _ in range(p.rng.randrange(3))]
        a.extend(vs)
        xs.extend(vs)
    else:
        b = a
        b += [v]
        check(b is a, "+= made a new array", hist=p.hist)
        xs.append(v)
    p.mut += 1


def op_pop(p, a, xs, pf):
    i = index(p, xs)
    args = () if p.rng.random() < 0.4 else (i,)
    g, w = outcome(a.pop, *args), outcome(xs.pop, *args)
    p.both(g, w, f"pop {args}")
    if w[0] == "ok":
        p.val(g[1], w[1], "pop")
    p.mut += 1


def op_reverse(p, a, xs, pf):
    a.reverse()
    xs.reverse()
    p.mut += 1


def op_clear(p, a, xs, pf):
    if p.rng.random() < 0.2:
        a.clear()
        xs.clear()


def op_remove(p, a, xs, pf):
    if p.kind == "any":
        return
    v = p.rng.choice(xs) if xs and p.rng.random() < 0.8 else p.raw()
    p.both(outcome(a.remove, v), outcome(xs.remove, v), "remove")
    p.mut += 1


def op_find(p, a, xs, pf):
    if p.kind == "any":
        return
    v = p.rng.choice(xs) if xs and p.rng.random() < 0.7 else p.raw()
    check((v in a) is (v in xs), "in", v=v, hist=p.hist)
    check(a.count(v) == xs.count(v), "count", v=v, hist=p.hist)
    g, w = outcome(a.index, v), outcome(xs.index, v)
    p.both(g, w, "index")
    if w[0] == "ok":
        p.val(g[1], w[1], "index")
    check(eqs(list(reversed(a)), xs[::-1]), "reversed", hist=p.hist)


def op_item(p, a, xs, pf):
    i = index(p, xs)
    w = outcome(lambda: xs[i])
    for name, g in (("item", outcome(lambda: pipe(a, A.item(i)) if pf else a.item(i))), ("getitem", outcome(lambda: a[i]))):
        p.both(g, w, name)
        if w[0] == "ok":
            p.val(g[1], w[1], name)


def op_query(p, a, xs, pf):
    check(len(a) == len(xs) and bool(a) == bool(xs), "len/bool", hist=p.hist)
    check((A.is_empty(a) if pf else a.is_empty()) is (not xs), "is_empty", hist=p.hist)
    r = A.try_head(a) if pf else a.try_head()
    check(r.is_some() == bool(xs), "try_head", got=r, hist=p.hist)
    if xs:
        p.val(r.value, xs[0], "try_head")
        p.val(a.head(), xs[0], "head")
    else:
        o = outcome(a.head)
        check(o[0] == "exc" and isinstance(o[1], ValueError), "head of empty", got=o, hist=p.hist)
        p.mon.ev("raise")
    want = "[|" + ", ".join(str(num(x)) for x in xs) + "|]"
    check(str(a) == want and repr(a) == want, "printed form", got=str(a), want=want, hist=p.hist)


def op_map(p, a, xs, pf):
    table: dict = {}

    def f(x):
        table.setdefault(id(x), (x, Tok()))
        return Tok(str(num(x)))

    log = Log()
    g = log.wrap("f", f)
    r = pipe(a, A.map(g)) if pf else a.map(g)
    p.calls(log, [(x,) for x in xs], "map")
    check([t.name for t in r] == [str(num(x)) for x in xs], "map", got=list(r), hist=p.hist)
    r = pipe(a, A.map(num)) if pf else a.map(num)
    p.tr += 1
    return p.arr(r, [num(x) for x in xs], "map")


def op_filter(p, a, xs, pf):
    pr = pred_of(p.rng)
    log = Log()
    f = log.wrap("f", pr)
    r = pipe(a, A.filter(f)) if pf else a.filter(f)
    p.calls(log, [(x,) for x in xs], "filter")
    p.tr += 1
    return p.arr(r, [x for x in xs if pr(x)], "filter")


def op_choose(p, a, xs, pf):
    pr = pred_of(p.rng)
    log = Log()
    f = log.wrap("f", lambda x: Some(x) if pr(x) else Nothing)
    r = a.choose(f)
    p.calls(log, [(x,) for x in xs], "choose")
    p.tr += 1
    return p.arr(r, [x for x in xs if pr(x)], "choose")


def op_collect(p, a, xs, pf):
    k = p.rng.randrange(3)
    log = Log()
    f = log.wrap("f", lambda x: TypedArray([x] * k))
    r = a.collect(f)
    p.calls(log, [(x,) for x in xs], "collect")
    if len(xs) * k > 60:
        return None
    p.tr += 1
    return p.arr(r, [x for x in xs for _ in range(k)], "collect")


def op_fold(p, a, xs, pf):
    log = Log()
    f = log.wrap("f", lambda s, x: s + 1)
    r = pipe(a, A.fold(f, 0)) if pf else a.fold(f, 0)
    p.val(r, len(xs), "fold")
    p.calls(log, [(i, x) for i, x in enumerate(xs)], "fold")


def op_forall(p, a, xs, pf):
    pr = pred_of(p.rng)
    log = Log()
    r = a.forall(log.wrap("f", pr))
    stop = next((i for i, x in enumerate(xs) if not pr(x)), None)
    p.val(r, stop is None, "forall")
    p.calls(log, [(x,) for x in (xs if stop is None else xs[: stop + 1])], "forall")


def op_sum(p, a, xs, pf):
    if p.kind not in ("any", "obj"):
        p.val(A.sum(a) if pf else a.sum(), sum(xs), "sum")
    if p.rng.random() < 0.2:
        ys = summands(p.rng, p.rng.choice([1, 2, 5, 40]))
        t = 0
        for y in ys:
            t = t + y
        b = TypedArray(ys)
        if list(map(type, b)) == list(map(type, ys)):
            got = A.sum(b) if pf else b.sum()
            check(same_sum(got, t), "sum of other values than plain numbers", got=got, want=t, items=ys)
    log = Log()
    f = log.wrap("f", lambda x: 2)
    p.val(pipe(a, A.sum_by(f)) if pf else a.sum_by(f), 2 * len(xs), "sum_by")
    p.calls(log, [(x,) for x in xs], "sum_by")


def op_indexed(p, a, xs, pf):
    st = p.rng.choice([0, 1, -3, 10])
    if st == 0:
        r = pipe(a, A.indexed()) if pf else a.indexed()
    else:
        r = pipe(a, A.indexed(st)) if pf else a.indexed(st)
    got = list(r)
    check(type(r) is TypedArray and len(got) == len(xs) and all(g[0] == st + i and same(num(g[1]), num(x)) for i, (g, x) in enumerate(zip(got, xs))), "indexed", got=got, hist=p.hist)


def op_skip(p, a, xs, pf):
    n = cnt(p, xs)
    p.tr += 1
    return p.arr(a.skip(n), xs[n:], f"skip {n}")


def op_take(p, a, xs, pf):
    n = cnt(p, xs)
    p.tr += 1
    return p.arr(pipe(a, A.take(n)) if pf else a.take(n), xs[:n], f"take {n}")


def op_skip_last(p, a, xs, pf):
    n = cnt(p, xs, 1)
    p.tr += 1
    return p.arr(a.skip_last(n), xs[: max(0, len(xs) - n)], f"skip_last {n}")


def op_take_last(p, a, xs, pf):
    n = cnt(p, xs, 1)
    p.tr += 1
    return p.arr(pipe(a, A.take_last(n)) if pf else a.take_last(n), xs[max(0, len(xs) - n) :], f"take_last {n}")


def op_tail(p, a, xs, pf):
    if xs:
        p.tr += 1
        return p.arr(a.tail(), xs[1:], "tail")
    o = outcome(a.tail)
    check(o[0] == "exc" and isinstance(o[1], ValueError), "tail of empty", got=o, hist=p.hist)
    p.mon.ev("raise")


def op_sort(p, a, xs, pf):
    rev = p.rng.random() < 0.5
    if p.kind == "any":
        ys = [Eq(p.rng.randrange(3), i) for i in range(5)]
        return p.arr(TypedArray(ys).sort_with(lambda e: e.n, *([rev] if rev or p.rng.random() < 0.5 else [])), sorted(ys, key=lambda e: e.n, reverse=rev), "sort_with") and None
    if p.rng.random() < 0.5:
        return p.arr(a.sort(rev) if rev else a.sort(), sorted(xs, reverse=rev), "sort")

    def key(x):
        return (x.n if isinstance(x, Eq) else x) % 3

    return p.arr(a.sort_with(key, rev) if rev else a.sort_with(key), sorted(xs, key=key, reverse=rev), "sort_with")


def op_unfold(p, a, xs, pf):
    ys = [p.raw() for _ in range(p.rng.randrange(5))]
    log = Log()
    f = log.wrap("f", lambda s: Some((ys[s], s + 1)) if s < len(ys) else Nothing)
    r = pipe(0, A.unfold(f)) if pf else TypedArray.unfold(f, 0)
    p.calls(log, [(i,) for i in range(len(ys) + 1)], "unfold")
    return p.arr(r, ys, "unfold")


class Foreign:
    pass


def op_eq(p, a, xs, pf):
    rng = p.rng
    plain = [num(x) for x in xs]
    for other in (TypedArray(list(xs)), TypedArray(list(xs), TypeCode.Any), list(xs), tuple(xs), Block(xs)):
        if isinstance(other, Block):
            ok = all(x == y for x, y in zip(a, other))
        else:
            ok = all(not (x != y) for x, y in zip(plain, other))
        check((a == other) is ok and (a != other) is (not ok), "equality with a sequence of equal items", other=other, hist=p.hist)
    check((a == a) is all(not (x != x) for x in plain), "reflexive", hist=p.hist)
    check((a == [*xs, Tok()]) is False and (a == TypedArray([*xs, Tok()])) is False, "equal to a longer sequence", hist=p.hist)
    if xs:
        check((a == xs[:-1]) is False and (a == TypedArray(xs[:-1])) is False, "equal to a shorter sequence", hist=p.hist)
        i = rng.randrange(len(xs))
        ys = [*xs[:i], Tok(), *xs[i + 1 :]]
        check((a == ys) is False and (a == TypedArray(ys)) is False, "equal to a sequence with another item", hist=p.hist)
    us = confusable(rng, 4)
    us, vs = us[:2], us[2:]
    same_items = us == vs
    check((TypedArray(us) == TypedArray(vs)) is same_items and (TypedArray(us) == vs) is same_items and (TypedArray(us) != TypedArray(vs)) is (not same_items), "arrays of similar items", a=us, b=vs, hist=p.hist)
    for f in (None, 0, 1.5, object(), Foreign(), TypedArray, {}.keys, {i: x for i, x in enumerate(xs)} or {1: 1}, len):
        check((a == f) is False and (a != f) is True, "equal to a foreign object", f=f, hist=p.hist)
    p.mon.ev("foreign")


def op_make(p, a, xs, pf):
    rng = p.rng
    vs = [p.raw() for _ in range(big(rng) if p.big and rng.random() < 0.7 else rng.choice([0, 1, 2, 5]))]
    k = rng.randrange(8)
    if p.kind == "byte" and rng.random() < 0.5:
        return p.arr(TypedArray(bytes(vs)), vs, "from bytes")
    if p.cls is not None and rng.random() < 0.6:
        ws = [p.cls(v) for v in vs]
        how = rng.choice([TypedArray, TypedArray.of_seq, A.of_seq, lambda w: rng.choice([TypedArray, TypedArray.of_seq, A.of_seq])(source(rng, w)), lambda w: TypedArray.of(*w), lambda w: A.of(*w), lambda w: TypedArray(iter(w))])
        return p.arr(how(ws), vs, "from element class")
    if p.tc is not None and rng.random() < 0.6:
        arg = rng.choice([list, tuple, iter, lambda v: (x for x in v), lambda v: source(rng, v), Block, Seq])(vs)
        return p.arr(TypedArray(arg, p.tc) if rng.random() < 0.5 else TypedArray(initializer=arg, typecode=p.tc), vs, "with a type code")
    if k == 0:
        return p.arr(TypedArray.of(*vs), vs, "of")
    if k == 1:
        return p.arr(A.of(*vs), vs, "of")
    if k == 2:
        return p.arr(TypedArray.of_seq(source(rng, vs)), vs, "of_seq")
    if k == 3:
        return p.arr(A.of_seq(source(rng, vs)), vs, "of_seq")
    if k == 4:
        v = p.raw()
        return p.arr(A.singleton(v), [v], "singleton")
    if k == 5:
        v = p.raw()
        o = rng.choice([Some(v), Nothing])
        return p.arr(A.of_option(o), [v] if o.is_some() else [], "of_option")
    if k == 6:
        return p.arr(rng.choice([TypedArray.empty, A.empty, TypedArray])(), [], "empty")
    return p.arr(TypedArray(source(rng, vs)), vs, "from an iterable")


def op_misfit(p, a, xs, pf):
    """An array of an element type refuses values that are not of the type, and stays as it was."""
    if p.tc in (None, TypeCode.Any):
        return
    rng = p.rng
    vs = [p.raw() for _ in range(rng.choice([1, 2, 5]))]
    k = rng.randrange(4)
    if k == 0 and p.cls is not None:
        b = TypedArray([p.cls(v) for v in vs])
    elif k == 1 and p.cls is None:
        b = TypedArray(rng.choice([bytes, bytearray])(vs))
    elif k == 2:
        b = TypedArray(rng.choice([list, iter])(vs), p.tc).filter(lambda _: True)
    else:
        b = TypedArray(vs, p.tc)
    check(b.typecode == p.tc, "type code", got=b.typecode, hist=p.hist)
    bad = rng.choice(["1", None, object(), [1], 1j, *([] if p.kind in ("f32", "f64", "double") else [2**70, -(2**70), 1.5, *{"byte": [256, -1], "u8": [256, -1], "i8": [128, -129], "i16": [2**15], "u16": [2**16, -1], "u32": [-1], "u64": [-1, 2**64], "i64": [2**63]}.get(p.kind, [])])])
    i = rng.randrange(len(vs))

    def setitem():
        b[i] = bad

    def iadd():
        c = b
        c += [bad]

    how, f = rng.choice([("append", lambda: b.append(bad)), ("insert", lambda: b.insert(i, bad)), ("setitem", setitem), ("extend", lambda: b.extend([bad])), ("+=", iadd), ("construction", lambda: TypedArray([*vs, bad], p.tc))])
    o = outcome(f)
    check(o[0] == "exc" and isinstance(o[1], (TypeError, ValueError, OverflowError)), f"a value that is not of the element type was taken by {how}", bad=bad, got=o, hist=p.hist)
    p.arr(b, vs, f"the array after a refused {how}")
    p.mon.ev("refused")


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith("op_")}


def bigs(rng, mon):
    mon.ev("big")
    program(rng, mon, True)


def program(rng, mon, large=False):
    kind = rng.choice(list(KINDS))
    p = P(rng, mon, kind)
    p.big = large
    mon.ev("kind." + kind)
    vs = [p.raw() for _ in range(big(rng) if large else rng.choice([0, 1, 2, 3, 5, 8]))]
    if p.tc is not None:
        a = TypedArray(vs, p.tc)
    else:
        a = TypedArray(vs)
    _, xs = p.arr(a, vs, "construction")
    touched = bool(xs)
    past: list = []
    for _ in range(rng.choice([4, 8]) if large else rng.choice([5, 12, 25])):
        name = rng.choice(list(OPS))
        pf = rng.random() < 0.5
        p.hist.append(name)
        mon.ev("op." + name)
        keep = a
        r = OPS[name](p, a, xs, pf)
        p.arr(keep, xs, f"the array after {name}")
        for other, ys in past:
            p.arr(other, ys, f"an array that another was made from, or that was made from another, after {name} of that one")
        if r is not None and (20 < len(r[1]) < 4000 or rng.random() < 0.1 if large else len(r[1]) < 60):
            past.append((a, xs))
            if rng.random() < 0.3:
                past[-1], r = r, past[-1]
            del past[: -3 if len(xs) < 200 else -1]
            a, xs = r
            # transformed arrays may have other storage: stay within values both accept
        touched |= bool(xs)
    if touched and p.mut and p.tr:
        mon.sig(tuple(p.hist), len(xs))
        mon.sample(f"{p.hist} -> {xs!r}"[:300])


def long(rng, mon):
    n = rng.choice([3000, 30000])
    xs = list(range(n))
    a = TypedArray(xs, rng.choice([TypeCode.Int32, TypeCode.Any, TypeCode.Double]))
    p = P(rng, mon, "int")
    check(list(a.map(lambda x: x + 1)) == [x + 1 for x in xs], "map")
    check(list(a.choose(lambda x: Some(x) if x % 2 else Nothing)) == xs[1::2], "choose")
    check(list(a.filter(lambda x: x % 3 == 0)) == xs[::3], "filter")
    check(a.sum() == sum(xs) and a.fold(lambda s, x: s + x, 0) == sum(xs), "sum/fold")
    check(a == xs and list(a.skip(5)) == xs[5:] and list(a.tail()) == xs[1:], "eq/skip/tail")
    u = TypedArray.unfold(lambda s: Some((s, s + 1)) if s < n else Nothing, 0)
    check(list(u) == xs, "unfold")
    check(len(str(a)) > n, "str")
    mon.sig("long", n, str(a.typecode))
    _ = p


SCALE = 12
WORKLOADS = {
    "program": Workload(program, 12000, 120000),
    "bigs": Workload(bigs, 500, 6000),
    "long": Workload(long, 8, 40),
}
_ = (struct, Map, items)
