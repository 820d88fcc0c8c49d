from __future__ import annotations

from expression import Nothing, Some, pipe
from expression.collections import Block, Map, map as M

from vf.core import Workload, check
from vf.gen import Boom, Tok, big, boom, same
from vf.sched import Scheduler, pause

from .c01 import Model, build, eq_items, key_domain

PROP = "C02"
RULE = (
    "A case is a history of map operations in which every version, live iterator, view and source collection is retained; the monitor compares all of "
    "them with the snapshots taken at their creation after each operation, including operations aborted by a callback or key comparison raising at a "
    "chosen call, and histories of 2-4 threads sharing the versions under a seeded scheduler that preempts at every line of the library. "
    "Non-trivial: at least 3 retained versions with bindings; distinct by operation string and schedule."
)
ASSUMPTIONS = ["keys and values are not mutated by the user", "thread interleavings are explored at line/opcode granularity by a seeded cooperative scheduler"]
REQUIRED = ["fault.callback", "fault.compare", "iter.resumed", "versions.checked", "source.mutated", "threads.switches", "view.rechecked", "big"]


class Fuse:
    """A key whose comparisons can be made to raise."""

    __slots__ = ("n",)
    armed = None
    exc = None

    def __init__(self, n):
        self.n = n

    def _tick(self):
        if Fuse.armed is not None:
            Fuse.armed -= 1
            if Fuse.armed < 0:
                Fuse.armed = None
                raise Fuse.exc

    def __lt__(self, o):
        self._tick()
        return self.n < o.n

    def __gt__(self, o):
        self._tick()
        return self.n > o.n

    def __le__(self, o):
        self._tick()
        return self.n <= o.n

    def __ge__(self, o):
        self._tick()
        return self.n >= o.n

    def __eq__(self, o):
        self._tick()
        return isinstance(o, Fuse) and self.n == o.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return f"F{self.n}"


class Bomb:
    """A callback that raises at its n-th call."""

    def __init__(self, rng, fn, n):
        self.at = rng.randrange(n + 1) if rng.random() < 0.6 else None
        self.exc = boom(rng, self.at)
        self.fn = fn
        self.calls = 0
        self.fired = False

    def __call__(self, *a):
        i = self.calls
        self.calls += 1
        if i == self.at:
            self.fired = True
            raise self.exc
        return self.fn(*a)


def ops(rng, m, model, ks, val):
    """Returns (name, callback-or-None, thunk, model-after)."""
    name = rng.choice(["add", "add", "add", "remove", "remove", "change", "changedel", "map", "filter", "partition", "fold", "fold_back", "iterate", "exists", "for_all", "try_pick", "pick", "tolist", "eq", "hash", "str", "find"])
    k = rng.choice(ks)
    if model and rng.random() < 0.4:
        k = rng.choice(list(model))
    p = rng.random() < 0.5
    n = len(model)
    salt = rng.randrange(1 << 30)

    def pred(k, v):
        return hash((salt, repr(k))) % 3 != 0

    if name == "add":
        v = val()
        new = Model(model)
        new[k] = v
        return name, None, (lambda: pipe(m, M.add(k, v))) if p else (lambda: m.add(k, v)), new
    if name == "remove":
        new = Model(model)
        new.pop(k, None)
        return name, None, (lambda: pipe(m, M.remove(k))) if p else (lambda: m.remove(k)), new
    if name in ("change", "changedel"):
        v = val()
        b = Bomb(rng, (lambda o: Some(v)) if name == "change" else (lambda o: Nothing), 0)
        new = Model(model)
        if name == "change":
            new[k] = v
        else:
            new.pop(k, None)
        return name, b, (lambda: pipe(m, M.change(k, b))) if p else (lambda: m.change(k, b)), new
    if name == "map":
        fresh = {k: val() for k in model}
        b = Bomb(rng, lambda k, v: fresh[k], n)
        return name, b, (lambda: pipe(m, M.map(b))) if p else (lambda: m.map(b)), Model(fresh)
    b = Bomb(rng, pred, n)
    if name == "filter":
        return name, b, (lambda: pipe(m, M.filter(b))) if p else (lambda: m.filter(b)), Model({k: v for k, v in model.items() if pred(k, v)})
    if name == "partition":
        i = rng.randrange(2)
        return name, b, (lambda: (pipe(m, M.partition(b)) if p else m.partition(b))[i]), Model({k: v for k, v in model.items() if pred(k, v) == (i == 0)})
    if name == "exists":
        b = Bomb(rng, lambda k, v: False, n)
        return name, b, lambda: m.exists(b) and None, None
    if name == "for_all":
        b = Bomb(rng, lambda k, v: True, n)
        return name, b, lambda: m.for_all(b) and None, None
    if name == "try_pick":
        b = Bomb(rng, lambda k, v: Nothing, n)
        return name, b, lambda: [m.try_pick(b)] and None, None
    if name == "pick":
        b = Bomb(rng, lambda k, v: Some(1) if k == max(model) else Nothing, n)
        return (name, b, lambda: [pipe(m, M.pick(b))] and None, None) if n else ("len", None, lambda: len(m) and None, None)
    if name == "fold":
        b = Bomb(rng, lambda s, kv: s + 1, n)
        return name, b, lambda: m.fold(b, 0) and None, None
    if name == "fold_back":
        b = Bomb(rng, lambda kv, s: s + 1, n)
        return name, b, lambda: m.fold_back(b, 0) and None, None
    if name == "iterate":
        b = Bomb(rng, lambda k, v: None, n)
        return name, b, lambda: m.iterate(b), None
    if name == "tolist":
        return name, None, lambda: m.to_list() and None, None
    if name == "eq":
        return name, None, lambda: (m == m.add(k, 1)) and None, None
    if name == "hash":
        return name, None, lambda: hash(m) and None, None
    if name == "str":
        return name, None, lambda: str(m) and None, None
    return name, None, lambda: [m.try_find(k)] and None, None


def snap(m):
    return list(m.items())


class Held:
    """A retained map with the snapshot its model implies."""

    def __init__(self, m, model):
        self.m, self.model = m, model
        self.want = model.sorted()
        self.n = len(self.want)

    def verify(self, how, hist):
        m = self.m
        if how == 0:
            got = list(m.items())
        elif how == 1:
            got = list(m.to_list())
        elif how == 2:
            got = []
            m.iterate(lambda k, v: got.append((k, v)))
        else:
            got = list(m.to_seq())
        check(eq_items(got, self.want), "an existing map changed", got=got[:40], want=self.want[:40], hist=hist[-40:])
        check(len(m) == self.n, "an existing map changed its length", got=len(m), want=self.n, hist=hist[-40:])


def bigs(rng, mon):
    mon.ev("big")
    persist(rng, mon, True)


def persist(rng, mon, large=False):
    fuse = rng.random() < 0.3
    size = big(rng, 500) if large else rng.choice([3, 8, 25]) if fuse else rng.choice([2, 4, 8, 20, 40])
    if fuse:
        kind, ks = "fuse", [Fuse(i) for i in range(size)]
    else:
        kind, ks = key_domain(rng, size)
    Fuse.armed = None

    def val():
        return Tok() if rng.random() < 0.7 else rng.choice([None, 0, "", 5])

    hist = [kind]
    sources = []
    pairs = [(rng.choice(ks), val()) for _ in range(rng.choice([0, 3, 10, 25]))]
    if large:
        pairs += [(k, val()) for k in ks]
        if rng.random() < 0.5:
            pairs.sort(key=lambda p: p[0])
    skind = rng.randrange(4)
    src = [list(pairs), dict(pairs), Block(pairs), tuple(pairs)][skind]
    before = list(src.items()) if isinstance(src, dict) else list(src)
    m = [Map.of_list, lambda s: Map.of_seq(s.items()), Map.of_block, Map.of_seq][skind](src)
    after = list(src.items()) if isinstance(src, dict) else list(src)
    check(len(before) == len(after) and all(a[0] is b[0] and a[1] is b[1] for a, b in zip(before, after)), "the source was modified", before=before, after=after)
    held = [Held(m, Model(dict(pairs)))]
    if isinstance(src, list):
        src.clear()
        src.append((ks[0], "poison"))
        sources.append(src)
        mon.ev("source.mutated")
    elif isinstance(src, dict):
        src.clear()
        src[ks[0]] = "poison"
        mon.ev("source.mutated")
    held[0].verify(0, hist)
    iters = []
    views = []
    steps = rng.choice([4, 9]) if large else rng.choice([8, 20, 40])
    for i in range(steps):
        h = rng.choice(held[-4:]) if rng.random() < 0.7 else rng.choice(held)
        if rng.random() < 0.3:
            it = rng.choice([lambda m: ((k, None) for k in iter(m)), lambda m: iter(m.to_seq()), lambda m: iter(m.items()), lambda m: iter(pipe(m, M.to_seq))])(h.m)
            n = rng.randrange(h.n + 1)
            got = [next(it) for _ in range(n)]
            iters.append((it, got, h))
        if rng.random() < 0.2:
            views.append((rng.choice([lambda m: m.items(), lambda m: [*zip(m.keys(), m.values())] and m.items(), lambda m: m.to_list()])(h.m), h))
        name, cb, thunk, new = ops(rng, h.m, h.model, ks, val)
        hist.append(name)
        if fuse and rng.random() < 0.4 and name not in ("pick",):
            Fuse.exc = boom(rng, "cmp")
            Fuse.armed = rng.randrange(12)
            try:
                r = thunk()
            except Boom as e:
                check(e is Fuse.exc or (cb is not None and e is cb.exc), "another exception surfaced", got=e)
                r = None
                mon.ev("fault.compare")
            finally:
                Fuse.armed = None
        else:
            try:
                r = thunk()
                check(cb is None or not cb.fired, "a callback's exception was swallowed", op=name, hist=hist)
            except Boom as e:
                check(cb is not None and e is cb.exc, "a callback's exception was replaced", got=e, op=name)
                mon.ev("fault.callback")
                r = None
        if r is not None and new is not None:
            held.append(Held(r, new))
        for hh in [h, held[-1]] if large else held if len(held) < 6 or i % 5 == 0 else rng.sample(held, 4) + [h, held[-1]]:
            hh.verify(rng.randrange(4), hist)
            mon.ev("versions.checked")
    for it, got, h in iters:
        rest = list(it)
        allk = [x[0] for x in got + rest]
        check(allk == [k for k, _ in h.want], "a live iterator was disturbed", got=allk, want=h.want, hist=hist)
        for x, w in zip(got + rest, h.want):
            check(x[1] is None or same(x[1], w[1]), "a live iterator was disturbed", got=x, want=w, hist=hist)
        mon.ev("iter.resumed")
    for v, h in views:
        check(eq_items(list(v), h.want), "a view was disturbed", got=list(v)[:30], want=h.want[:30], hist=hist)
        mon.ev("view.rechecked")
    for h in held:
        h.verify(rng.randrange(4), hist)
    if len(held) >= 3:
        mon.sig(tuple(hist), len(iters), tuple(h.n for h in held))
        mon.sample(f"{hist}; {len(held)} versions, {len(iters)} live iterators, sizes {[h.n for h in held]}"[:400])


def threads(rng, mon):
    """Threads share versions without locks."""
    kind, ks = key_domain(rng, rng.choice([3, 6, 15]))
    pairs = [(rng.choice(ks), Tok()) for _ in range(rng.choice([0, 4, 12]))]
    _, base = build(rng, pairs)
    shared = [Held(base, Model(dict(pairs)))]
    hists = []
    nt = rng.choice([2, 2, 3, 4])
    s = Scheduler(rng, opcodes=rng.random() < 0.2)

    def worker(wrng, hist):
        def run():
            for _ in range(wrng.choice([3, 6])):
                h = wrng.choice(shared)
                name, cb, thunk, new = ops(wrng, h.m, h.model, ks, Tok)
                hist.append(name)
                if cb is not None:
                    cb.at = None
                pause()
                r = thunk()
                if r is not None and new is not None:
                    nh = Held(r, new)
                    nh.verify(wrng.randrange(4), hist)
                    shared.append(nh)
                h.verify(wrng.randrange(4), hist)
                mon.ev("versions.checked")

        return run

    import random

    for t in range(nt):
        hist: list = []
        hists.append(hist)
        s.spawn(worker(random.Random(rng.getrandbits(64)), hist))
    s.run()
    for w in s.workers:
        if w.error is not None:
            raise w.error
    for h in shared:
        h.verify(rng.randrange(4), ["threads", hists])
    mon.ev("threads.switches", s.switches)
    mon.ev("threads.steps", s.steps)
    if s.switches:
        mon.sig(str(hists), s.signature())


SCALE = 1.5
WORKLOADS = {
    "persist": Workload(persist, 4000, 40000),
    "bigs": Workload(bigs, 500, 6000),
    "threads": Workload(threads, 500, 6000),
}
_ = snap
