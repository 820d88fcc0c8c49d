from __future__ import annotations

from typing import Any

from collections.abc import Mapping

from expression import Nothing, Option, Some, pipe
from expression.collections import Block, Map, Seq, map as M, seq

from vf.core import Workload, check, fail
from vf.gen import Log, Tok, big, outcome, same, sames, source, truth, value

PROP = "C01"
RULE = (
    "A case is a random history of map operations (20-400 steps, fluent and pipe forms mixed) over one key type, run on the real Map and on a "
    "dict model; after every step the new map is compared with the model through a randomly chosen conversion, queries and counted callbacks. "
    "Non-trivial: at least one removal or change of a present key, or a derived map; distinct by operation string and final keys."
)
ASSUMPTIONS = ["keys are totally ordered and hashable", "values are compared by identity or strict structural equality"]
REQUIRED = ["op.add", "op.remove.present", "op.change.some", "op.change.nothing", "op.partition", "op.filter", "query.absent", "tree.deep", "big"]


class OrdKey:
    """Only what the library asks of keys: <, == and hash."""

    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __lt__(self, o):
        return self.n < o.n

    def __eq__(self, o):
        return isinstance(o, OrdKey) and o.n == self.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return f"K{self.n}"


def key_domain(rng, size):
    kind = rng.choice(["int", "str", "tuple", "float", "mixed", "ord", "neg", "sparse"])
    if kind == "int":
        ks = list(range(size))
    elif kind == "neg":
        ks = list(range(-size // 2, size - size // 2))
    elif kind == "str":
        ks = ["", "A"] + [f"{i:x}" for i in range(size)]
    elif kind == "tuple":
        ks = [(i // 3, "abc"[i % 3]) for i in range(size)]
    elif kind == "float":
        ks = [i / 4 - 1 for i in range(size)]
    elif kind == "mixed":
        ks = [False, True, 0.5] + [i if i % 2 else float(i) for i in range(2, size)]
    elif kind == "ord":
        ks = [OrdKey(i) for i in range(size)]
    else:
        ks = [rng.randrange(-(10**9), 10**9) for _ in range(size)]
    ks = sorted(set(ks))[: max(size, 1)]
    return kind, ks


class Model(dict):
    def sorted(self):
        return [(k, self[k]) for k in sorted(self)]


def eq_items(got, want) -> bool:
    got = list(got)
    return len(got) == len(want) and all(type(g) is tuple and len(g) == 2 and g[0] == w[0] and same(g[1], w[1]) for g, w in zip(got, want))


VIEWS = {
    "items": lambda m: m.items(),
    "to_list": lambda m: m.to_list(),
    "m.to_list": lambda m: pipe(m, M.to_list),
    "to_seq": lambda m: m.to_seq(),
    "m.to_seq": lambda m: M.to_seq(m),
    "iter": lambda m: [(k, m[k]) for k in m],
    "keys-values": lambda m: list(zip(m.keys(), m.values())),
    "fold": lambda m: m.fold(lambda s, kv: s + [kv], []),
    "m.fold": lambda m: pipe(m, M.fold(lambda s, kv: s + [kv], [])),
    "fold_back": lambda m: m.fold_back(lambda kv, s: [kv] + s, []),
    "m.fold_back": lambda m: pipe([], M.fold_back(lambda kv, s: [kv] + s, m)),
    "iterate": lambda m: _iterate(m, False),
    "m.iterate": lambda m: _iterate(m, True),
    "dict": lambda m: dict(m).items(),
}


def _iterate(m, mod):
    out = []
    r = pipe(m, M.iterate(lambda k, v: out.append((k, v)))) if mod else m.iterate(lambda k, v: out.append((k, v)))
    check(r is None, "iterate returned something", got=r)
    return out


def verify(rng, m, model, mon, hist, all_views=False, ks=()):
    check(isinstance(m, Map), "not a Map", got=type(m), hist=hist)
    want = model.sorted()
    names = list(VIEWS) if all_views else rng.sample(list(VIEWS), 2)
    for name in names:
        got = list(VIEWS[name](m))
        mon.ev("view")
        if not eq_items(got, want):
            fail(f"view {name} differs from the dictionary", got=got[:40], want=want[:40], hist=hist)
    n = len(want)
    check(len(m) == n and M.count(m) == n, "length", len=len(m), count=M.count(m), want=n, hist=hist)
    check(bool(m) == bool(n) and m.is_empty() == (n == 0) and M.is_empty(m) == (n == 0), "emptiness", hist=hist)
    for k in [rng.choice(ks) for _ in range(3)] if ks else []:
        query(rng, m, model, k, mon, hist)


def query(rng, m, model, k, mon, hist):
    present = k in model
    mon.ev("query.present" if present else "query.absent")
    form = rng.randrange(2)
    check((m.contains_key(k) if form else pipe(m, M.contains_key(k))) is present, "contains_key", k=k, hist=hist)
    check((k in m) is present, "in", k=k, hist=hist)
    got = m.try_find(k) if form else pipe(m, M.try_find(k))
    check(isinstance(got, Option) and got.is_some() == present, "try_find", k=k, got=got, hist=hist)
    box: list = []
    r = m.try_get_value(k, box)
    o1 = outcome(lambda: m[k])
    o2 = outcome(lambda: pipe(m, M.find(k)))
    dflt = object()
    if present:
        v = model[k]
        check(same(got.value, v), "try_find value", k=k, got=got, want=v, hist=hist)
        check(r is True and sames(box, [v]), "try_get_value", box=box, want=v, hist=hist)
        check(o1[0] == "ok" and same(o1[1], v) and o2[0] == "ok" and same(o2[1], v), "lookup", o1=o1, o2=o2, want=v, hist=hist)
        check(same(m.get(k, dflt), v), "get", hist=hist)
    else:
        check(r is False and not box, "try_get_value of an absent key", box=box, hist=hist)
        check(all(o[0] == "exc" and isinstance(o[1], KeyError) for o in (o1, o2)), "lookup of an absent key", o1=o1, o2=o2, hist=hist)
        check(m.get(k, dflt) is dflt, "get default", hist=hist)


def vpred(rng):
    """A deterministic predicate over key and value."""
    salt = rng.randrange(1000)
    p = rng.choice([0, 0.15, 0.5, 0.85, 0.95, 0.95, 1, 1])

    def pred(k, v):
        import random

        r = random.Random(f"{salt}/{k!r}")
        return truth(r, r.random() < p)

    return pred


def build(rng, pairs):
    """A map from pairs, along one of the construction paths."""
    how = rng.choice(["of_seq", "M.of_seq", "create", "M.create", "of_list", "M.of_list", "of_block", "M.of_block", "gen", "dict", "adds", "padds", "changes", "mapitems", "Seq"])
    if how == "of_seq":
        return how, Map.of_seq(source(rng, pairs))
    if how == "M.of_seq":
        return how, M.of_seq(source(rng, pairs))
    if how == "create":
        return how, Map.create(source(rng, pairs))
    if how == "M.create":
        return how, M.create(source(rng, pairs))
    if how == "of_list":
        return how, Map.of_list(list(pairs))
    if how == "M.of_list":
        return how, M.of_list(list(pairs))
    if how == "of_block":
        return how, Map.of_block(Block(pairs))
    if how == "M.of_block":
        return how, M.of_block(Block.of_seq(pairs))
    if how == "gen":
        return how, Map.of_seq(p for p in pairs)
    if how == "dict":
        return how, Map.of_seq(dict(pairs).items())
    if how == "mapitems":
        return how, Map.of_seq(Map.of_seq(pairs).items())
    if how == "Seq":
        return how, Map.of_seq(Seq(pairs))
    m = rng.choice([Map.empty, Map, lambda: M.empty, Map[Any, Any].empty])()
    for k, v in pairs:
        if how == "adds":
            m = m.add(k, v)
        elif how == "padds":
            m = pipe(m, M.add(k, v))
        else:
            m = m.change(k, lambda _, v=v: Some(v))
    return how, m


def step(rng, m, model, ks, mon, hist, val):
    """One random operation. Returns (map, model)."""
    ops = ["add"] * 5 + ["remove"] * 5 + ["change"] * 5 + ["map", "filter", "partition", "rebuild", "pick", "exists", "forall", "order"]
    op = rng.choice(ops)
    pipeform = rng.random() < 0.5
    if op in ("add", "remove", "change"):
        k = rng.choice(ks)
        if model and rng.random() < 0.35:
            k = rng.choice(list(model))
    if op == "add":
        v = val()
        hist.append(f"add {k!r}")
        new = Model(model)
        new[k] = v
        mon.ev("op.add")
        return (pipe(m, M.add(k, v)) if pipeform else m.add(k, v)), new
    if op == "remove":
        hist.append(f"rm {k!r}")
        new = Model(model)
        mon.ev("op.remove.present" if k in new else "op.remove.absent")
        new.pop(k, None)
        return (pipe(m, M.remove(k)) if pipeform else m.remove(k)), new
    if op == "change":
        to = Some(val()) if rng.random() < 0.55 else Nothing
        calls = []

        def f(o):
            calls.append(o)
            return to

        hist.append(f"ch {k!r} {'set' if to.is_some() else 'del'}")
        r = pipe(m, M.change(k, f)) if pipeform else m.change(k, f)
        check(len(calls) == 1, "change called its function a wrong number of times", n=len(calls), hist=hist)
        check(calls[0].is_some() == (k in model) and (k not in model or same(calls[0].value, model[k])), "change was given a wrong binding", got=calls[0], hist=hist)
        new = Model(model)
        mon.ev("op.change.some" if to.is_some() else "op.change.nothing")
        if to.is_some():
            new[k] = to.value
        else:
            new.pop(k, None)
        return r, new
    want = model.sorted()
    if op == "map":
        hist.append("map")
        mon.ev("op.map")
        log = Log()
        fresh = {k: Tok() if rng.random() < 0.5 else None for k in model}
        f = log.wrap("f", lambda k, v: fresh[k])
        r = pipe(m, M.map(f)) if pipeform else m.map(f)
        check([a[1][0] for a in log] == [k for k, _ in want] and all(same(a[1][1], w[1]) for a, w in zip(log, want)), "map: callback calls", log=log, hist=hist)
        return r, Model(fresh)
    pred = vpred(rng)
    if op == "filter":
        hist.append("filter")
        mon.ev("op.filter")
        log = Log()
        f = log.wrap("f", pred)
        r = pipe(m, M.filter(f)) if pipeform else m.filter(f)
        check(len(log) == len(want) and all(a[1][0] == w[0] and same(a[1][1], w[1]) for a, w in zip(log, want)), "filter: callback calls", log=log, hist=hist)
        return r, Model({k: v for k, v in want if pred(k, v)})
    if op == "partition":
        hist.append("partition")
        mon.ev("op.partition")
        log = Log()
        f = log.wrap("f", pred)
        r = pipe(m, M.partition(f)) if pipeform else m.partition(f)
        check(type(r) is tuple and len(r) == 2, "partition result", got=r)
        check(sorted(a[1][0] for a in log) == [k for k, _ in want], "partition: callback calls", log=log, hist=hist)
        yes = Model({k: v for k, v in want if pred(k, v)})
        no = Model({k: v for k, v in want if not pred(k, v)})
        verify(rng, r[0], yes, mon, hist)
        verify(rng, r[1], no, mon, hist)
        pickyes = rng.random() < 0.5
        return (r[0], yes) if pickyes else (r[1], no)
    if op == "rebuild":
        pairs = [(rng.choice(ks), val()) for _ in range(rng.choice([0, 1, 2, 5, 12]))] + (want if rng.random() < 0.7 else [])
        if rng.random() < 0.4:
            pairs += [(k, val()) for k in rng.sample(ks, rng.randrange(len(ks) + 1))]
        order = rng.randrange(6)
        if order < 3:
            rng.shuffle(pairs)
        elif order == 3:
            pairs.sort(key=lambda p: p[0])
        elif order == 4:
            pairs.sort(key=lambda p: p[0], reverse=True)
        how, r = build(rng, pairs)
        hist.append(f"build/{how}/{order} {[p[0] for p in pairs]!r}"[:400])
        mon.ev("op.build." + how)
        return r, Model(dict(pairs))
    if op == "pick":
        hist.append("pick")
        mon.ev("op.pick")
        res = {k: (Some(Tok()) if rng.random() < 0.5 else Some(None)) if pred(k, v) else Nothing for k, v in want}
        hit = next((i for i, (k, _) in enumerate(want) if res[k].is_some()), None)
        log = Log()
        f = log.wrap("f", lambda k, v: res[k])
        kind = rng.randrange(3)
        o = outcome(lambda: [lambda: m.try_pick(f), lambda: pipe(m, M.try_pick(f)), lambda: pipe(m, M.pick(f))][kind]())
        n = len(want) if hit is None else hit + 1
        check([a[1][0] for a in log] == [k for k, _ in want[:n]], "pick: callback calls", log=log, want=want[:n], hist=hist)
        if kind == 2:
            ok = o[0] == "exc" and isinstance(o[1], KeyError) if hit is None else o[0] == "ok" and same(o[1], res[want[hit][0]].value)
        else:
            ok = o[0] == "ok" and same(o[1], Nothing if hit is None else res[want[hit][0]])
        check(ok, "pick result", got=o, hit=hit, hist=hist)
        return m, model
    if op in ("exists", "forall"):
        hist.append(op)
        mon.ev("op." + op)
        stop = op == "exists"
        hit = next((i for i, (k, v) in enumerate(want) if bool(pred(k, v)) is stop), None)
        log = Log()
        f = log.wrap("f", pred)
        if stop:
            r = pipe(m, M.exists(f)) if pipeform else m.exists(f)
        else:
            r = pipe(m, M.for_all(f)) if pipeform else m.for_all(f)
        n = len(want) if hit is None else hit + 1
        check([a[1][0] for a in log] == [k for k, _ in want[:n]], f"{op}: callback calls", log=log, hist=hist)
        check(bool(r) is (stop if hit is not None else not stop), f"{op} result", got=r, hist=hist)
        return m, model
    # order of the folds
    hist.append("folds")
    mon.ev("op.folds")
    seen = []
    s0 = object()
    tokens = [s0]

    def folder(s, kv):
        check(s is tokens[-1], "fold state not threaded", hist=hist)
        seen.append(kv)
        tokens.append(object())
        return tokens[-1]

    r = pipe(m, M.fold(folder, s0)) if pipeform else m.fold(folder, s0)
    check(r is tokens[-1] and eq_items(seen, want), "fold order", seen=seen, want=want, hist=hist)
    seen = []
    tokens = [s0]

    def back(kv, s):
        check(s is tokens[-1], "fold_back state not threaded", hist=hist)
        seen.append(kv)
        tokens.append(object())
        return tokens[-1]

    r = pipe(s0, M.fold_back(back, m)) if pipeform else m.fold_back(back, s0)
    check(r is tokens[-1] and eq_items(seen, want[::-1]), "fold_back order", seen=seen, want=want, hist=hist)
    return m, model


def history(rng, mon):
    small = rng.random() < 0.6
    kind, ks = key_domain(rng, rng.choice([1, 2, 3, 5, 8]) if small else rng.choice([12, 25, 60]))
    steps = rng.choice([10, 25, 60]) if small else rng.choice([40, 120])
    hist: list = [kind]
    vals = rng.randrange(3)

    def val():
        return Tok() if vals == 0 else value(rng, 1) if vals == 1 else rng.choice([None, 0, False, "", 1])

    m, model = Map.empty(), Model()
    pool = [(m, model)]
    for _ in range(steps):
        if rng.random() < 0.12:
            m, model = rng.choice(pool)
            hist.append("<-")
        m, model = step(rng, m, model, ks, mon, hist, val)
        verify(rng, m, model, mon, hist[-60:], ks=ks)
        if rng.random() < 0.15:
            pool.append((m, model))
    verify(rng, m, model, mon, hist[-60:], all_views=True, ks=ks)
    mon.ev("steps", steps)
    if len(set(hist)) > 3:
        mon.sig(tuple(hist))
        mon.sample("; ".join(map(str, hist))[:500] + f" => {len(model)} bindings")


def bigs(rng, mon):
    """Few operations on large maps, starting from a construction of many pairs in a hostile order."""
    n = big(rng, 700)
    kind, ks = key_domain(rng, n)
    vals = rng.randrange(2)

    def val():
        return Tok() if vals else rng.choice([None, 0, False, "", 1, Nothing])

    pairs = [(k, val()) for k in ks] + [(rng.choice(ks), val()) for _ in range(rng.choice([0, 1, 3, n // 2]))]
    order = rng.choice(["asc", "desc", "random", "given"])
    if order == "random":
        rng.shuffle(pairs)
    elif order != "given":
        pairs.sort(key=lambda p: p[0], reverse=order == "desc")
    how, m = build(rng, pairs)
    model = Model(dict(pairs))
    hist = [kind, n, order, how]
    verify(rng, m, model, mon, hist, ks=ks)
    for _ in range(rng.choice([3, 6])):
        m2, model2 = step(rng, m, model, ks, mon, hist, val)
        verify(rng, m2, model2, mon, hist, ks=ks)
        if len(model2) >= 20 or rng.random() < 0.2:
            m, model = m2, model2
    mon.ev("big")
    mon.sig(tuple(map(str, hist)))


def shapes(rng, mon):
    """Grow a tree in a hostile order, shrink it in another; look up everything."""
    n = rng.choice([7, 15, 31, 50, 90, 150])
    order = rng.choice(["asc", "desc", "zigzag", "random", "mid", "blocks"])

    def ordering(name, xs):
        xs = list(xs)
        if name == "asc":
            return xs
        if name == "desc":
            return xs[::-1]
        if name == "zigzag":
            return [xs[i // 2] if i % 2 == 0 else xs[-1 - i // 2] for i in range(len(xs))]
        if name == "random":
            rng.shuffle(xs)
            return xs
        if name == "mid":
            h = len(xs) // 2
            return sorted(xs, key=lambda k: abs(k - h))
        b = rng.choice([3, 8])
        bl = [xs[i : i + b] for i in range(0, len(xs), b)]
        rng.shuffle(bl)
        return [x for y in bl for x in y]

    keys = ordering(order, range(n))
    m = Map.empty()
    model = Model()
    hist = [f"{order} n={n}"]
    for k in keys:
        v = k * 10
        form = rng.randrange(3)
        m = m.add(k, v) if form else m.change(k, lambda o: Some(v))
        model[k] = v
    verify(rng, m, model, mon, hist, all_views=True)
    mon.ev("tree.deep")
    out = rng.choice(["asc", "desc", "zigzag", "random", "mid", "blocks"])
    order2 = ordering(out, range(n))
    cut = rng.randrange(n) if rng.random() < 0.5 else n
    for i, k in enumerate(order2[:cut]):
        form = rng.randrange(4)
        if form == 0:
            m = m.change(k, lambda o: Nothing)
        elif form == 1:
            m = pipe(m, M.remove(k))
        else:
            m = m.remove(k)
        del model[k]
        check(not m.contains_key(k) and m.try_find(k).is_none(), "removed key still found", k=k, hist=hist)
        if n <= 50 or i % 10 == 0:
            got = list(m)
            check(got == sorted(model), "keys after removal", got=got, want=sorted(model), removed=order2[: i + 1], grown=keys)
            for kk in order2[i + 1 : i + 8] + order2[-3:]:
                if kk in model:
                    check(kk in m and m[kk] == kk * 10, "lookup after removal", k=kk, removed=order2[: i + 1], grown=keys)
        if rng.random() < 0.2:
            j = rng.randrange(n)
            m = m.add(j, -j)
            model[j] = -j
            if j not in order2[i + 1 :]:
                m = m.remove(j)
                del model[j]
            else:
                m = m.add(j, j * 10)
                model[j] = j * 10
    verify(rng, m, model, mon, hist, all_views=True)
    mon.ev("steps", n + cut)
    mon.sig(order, out, n, cut, tuple(keys[:20]), tuple(order2[:20]))


def kwargs_of(rng, mon):
    names = [rng.choice("abcdefgh") + rng.choice("xyz") for _ in range(rng.randrange(8))]
    d = {n: value(rng, 1) for n in names}
    for m in (Map.of(**d), M.of(**d)):
        verify(rng, m, Model(d), mon, ["of", list(d)], all_views=True)
    mon.sig("of", tuple(d))


WORKLOADS = {
    "history": Workload(history, 6000, 60000),
    "bigs": Workload(bigs, 800, 10000),
    "shapes": Workload(shapes, 800, 8000),
    "of": Workload(kwargs_of, 60, 600),
}
_ = (Mapping, seq)
