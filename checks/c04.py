from __future__ import annotations

import math
import random
import sys

from expression import Nothing, Some, pipe
from expression.collections import Block, Map, Seq, map as M

from vf.core import Workload, check
from vf.sched import Stuck  # noqa: F401

PROP = "C04"
RULE = (
    "A case grows and shrinks one map through thousands of single-key operations in a hostile order (ascending, descending, zig-zag, sliding windows, "
    "random churn, derived maps, or aimed at the root and the deepest key by what earlier searches compared), counting on instrumented keys the comparisons of each lookup, add, remove and change, against 4*log2(peak+2)+10; or it "
    "builds a map of 10000-40000 bindings from each kind of source and runs every whole-map operation at recursion limit 1000. "
    "Non-trivial: peak of 50 bindings or more; distinct by order, sizes and operation mix."
)
ASSUMPTIONS = [
    "comparisons are those made through <, >, <=, >=, == and != on the keys",
    "the bound allows two comparisons per level of the deepest tree the documented tolerance permits (1.82*log2), and some more",
]
REQUIRED = ["ops.counted", "big.ops", "window", "adversary"]


class K:
    __slots__ = ("n",)
    count = 0

    def __init__(self, n):
        self.n = n

    def __lt__(self, o):
        K.count += 1
        return self.n < o.n

    def __gt__(self, o):
        K.count += 1
        return self.n > o.n

    def __le__(self, o):
        K.count += 1
        return self.n <= o.n

    def __ge__(self, o):
        K.count += 1
        return self.n >= o.n

    def __eq__(self, o):
        K.count += 1
        return isinstance(o, K) and self.n == o.n

    def __ne__(self, o):
        K.count += 1
        return not (isinstance(o, K) and self.n == o.n)

    def __hash__(self):
        return hash(self.n)


def bound(peak):
    return 4 * math.log2(peak + 2) + 10


class Run:
    def __init__(self, rng, mon, label):
        self.rng, self.mon, self.label = rng, mon, label
        self.m = Map.empty()
        self.size = 0
        self.peak = 0
        self.worst = 0.0
        self.keys: set = set()
        self.mode = rng.randrange(3)
        self.n = 0

    def _judge(self, what, key):
        c = K.count
        self.n += 1
        b = bound(self.peak)
        self.worst = max(self.worst, c / b)
        if c > b:
            check(False, f"{what} needed {c} key comparisons in a map that never held more than {self.peak} bindings", bound=b, key=key, order=self.label, operation=self.n)

    def add(self, i):
        self.keys.add(i)
        self.peak = max(self.peak, len(self.keys))
        k = K(i)
        K.count = 0
        f = self.rng.randrange(3) if self.mode == 2 else self.mode
        if f == 0:
            self.m = self.m.add(k, i)
        else:
            self.m = self.m.change(k, lambda _: Some(i))
        self._judge("adding a key", i)

    def remove(self, i):
        k = K(i)
        K.count = 0
        f = self.rng.randrange(3) if self.mode == 2 else self.mode
        if f == 0:
            self.m = self.m.remove(k)
        else:
            self.m = self.m.change(k, lambda _: Nothing)
        self._judge("removing a key", i)
        self.keys.discard(i)

    def find(self, i):
        k = K(i)
        want = i in self.keys
        K.count = 0
        got = k in self.m
        self._judge("looking up a key", i)
        check(got is want, "lookup", i=i, order=self.label)
        K.count = 0
        o = self.m.try_find(k)
        self._judge("finding a key", i)
        check(o.is_some() is want, "find", i=i, order=self.label)

    def probe(self, n=25):
        ks = list(self.keys)
        for _ in range(n):
            if ks:
                self.find(self.rng.choice(ks))
        if ks:
            for i in (min(ks), max(ks), min(ks) - 1, max(ks) + 1):
                self.find(i)

    def done(self):
        self.probe()
        self.mon.ev("ops.counted", self.n)
        if self.peak >= 50:
            self.mon.sig(self.label, self.peak, self.mode, self.n, round(self.worst, 4))
            self.mon.sample(f"{self.label}: peak {self.peak} bindings, {self.n} operations counted, worst {self.worst:.2f} of the bound")


def order(rng, name, n):
    xs = list(range(n))
    if name == "asc":
        return xs
    if name == "desc":
        return xs[::-1]
    if name == "zigzag":
        return [i // 2 if i % 2 == 0 else n - 1 - i // 2 for i in range(n)]
    if name == "inout":
        h = n // 2
        return sorted(xs, key=lambda k: (abs(k - h), k))
    if name == "runs":
        b = rng.choice([5, 20, 60])
        bl = [xs[i : i + b] for i in range(0, n, b)]
        rng.shuffle(bl)
        return [x for y in bl for x in (y if rng.random() < 0.5 else y[::-1])]
    if name == "bitrev":
        w = max(1, (n - 1).bit_length())
        return [x for x in (int(format(i, f"0{w}b")[::-1], 2) for i in range(1 << w)) if x < n]
    rng.shuffle(xs)
    return xs


ORDERS = ["asc", "desc", "zigzag", "inout", "runs", "bitrev", "random"]


def grow_shrink(rng, mon):
    n = rng.choice([60, 200, 700, 2500])
    a, b = rng.choice(ORDERS), rng.choice(ORDERS)
    r = Run(rng, mon, f"grow {a} shrink {b} n={n}")
    for j, i in enumerate(order(rng, a, n)):
        r.add(i)
        if j % 97 == 0:
            r.probe(3)
    r.probe()
    if rng.random() < 0.3:
        r.m = r.m.map(lambda k, v: v)
    for j, i in enumerate(order(rng, b, n)):
        r.remove(i)
        if j % 97 == 0:
            r.probe(3)
    # grow again in what is left
    for i in order(rng, rng.choice(ORDERS), n // 4):
        r.add(i)
    r.done()


def window(rng, mon):
    """The map stays small while keys move through it."""
    w = rng.choice([8, 50, 120, 300])
    total = rng.choice([1500, 3000])
    kind = rng.choice(["up", "down", "updown", "gap", "churn", "halves"])
    r = Run(rng, mon, f"window {kind} w={w} total={total}")
    live: list[int] = []
    for i in range(total):
        if kind == "up":
            k = i
        elif kind == "down":
            k = -i
        elif kind == "updown":
            k = i if (i // (2 * w)) % 2 == 0 else -i
        elif kind == "gap":
            k = i * 7919 % 100003
        elif kind == "halves":
            k = i if i % 2 else -i
        else:
            k = rng.randrange(4 * w)
        if k in r.keys:
            continue
        r.add(k)
        live.append(k)
        if len(live) > w:
            j = 0 if kind != "churn" else rng.randrange(len(live))
            r.remove(live.pop(j))
        if i % 211 == 0:
            r.probe(3)
    mon.ev("window")
    r.done()


class Spy(K):
    """Also remembers which key a search looked at first and last."""

    __slots__ = ()
    seen: list = []

    def __lt__(self, o):
        Spy.seen.append(o)
        return K.__lt__(self, o)

    def __eq__(self, o):
        Spy.seen.append(o)
        return K.__eq__(self, o)

    __hash__ = K.__hash__


def adversary(rng, mon):
    """Aim each operation with what the previous searches showed: remove the key looked at first (the root), insert beside the deepest key."""
    n = rng.choice([100, 400, 1200])
    r = Run(rng, mon, f"adversary n={n}")
    for i in order(rng, rng.choice(ORDERS), n):
        r.add(i << 40)
    plan = rng.choice(["root", "deep", "mix", "rootdeep", "side"])
    r.label += " " + plan

    def path(i):
        Spy.seen = []
        Spy(i) in r.m  # noqa: B015
        return [k.n for k in Spy.seen if k.n in r.keys]

    for step in range(n if plan != "deep" else n // 2):
        ks = rng.sample(sorted(r.keys), min(6, len(r.keys))) if r.keys else []
        if not ks:
            break
        paths = [path(k) for k in ks]
        root = paths[0][0] if paths[0] else ks[0]
        longest = max(paths, key=len)
        deep = longest[-1] if longest else ks[0]
        do = plan
        if plan == "mix":
            do = rng.choice(["root", "deep", "side"])
        elif plan == "rootdeep":
            do = "root" if (step // 30) % 2 == 0 else "deep"
        if do == "root":
            r.remove(root)
        elif do == "side":
            # thin out one side of the root, grow the other
            low = [k for k in r.keys if k < root]
            r.remove(rng.choice(low) if low else root)
            new = (max(r.keys) if r.keys else 0) + (1 << 20)
            r.add(new)
        else:
            new = deep + rng.choice([-1, 1]) * rng.randrange(1, 1 << 30)
            if new not in r.keys:
                r.add(new)
        if step % 50 == 0:
            r.probe(5)
    mon.ev("adversary")
    r.done()


def derived(rng, mon):
    """Maps derived by filter, partition, construction and mapping are balanced too."""
    n = rng.choice([300, 1500, 4000])
    name = rng.choice(ORDERS)
    keys = order(rng, name, n)
    src = [(K(i), i) for i in keys]
    how = rng.choice(["of_seq", "of_list", "of_block", "create"])
    label = f"derived {how} {name} n={n}"
    m = {"of_seq": Map.of_seq, "of_list": Map.of_list, "of_block": lambda s: Map.of_block(Block(s)), "create": lambda s: Map.create(iter(s))}[how](src)
    sel = rng.choice([lambda i: i % 2 == 0, lambda i: i < n // 3, lambda i: i > n // 2, lambda i: i % 10 != 3, lambda i: True])
    step = rng.choice(["none", "filter", "partition", "map"])
    keep = set(range(n))
    if step == "filter":
        m = m.filter(lambda k, v: sel(v))
        keep = {i for i in keep if sel(i)}
    elif step == "partition":
        m = m.partition(lambda k, v: not sel(v))[1]
        keep = {i for i in keep if sel(i)}
    elif step == "map":
        m = m.map(lambda k, v: v)
    r = Run(rng, mon, label + " " + step)
    r.m, r.keys, r.peak = m, keep, n
    r.probe(60)
    for i in rng.sample(range(n), min(n, 100)):
        if i in r.keys:
            r.remove(i)
        else:
            r.add(i)
    r.done()


def big(rng, mon):
    """Every whole-map operation on tens of thousands of bindings."""
    check(sys.getrecursionlimit() <= 1000, "harness: recursion limit")
    n = rng.choice([10000, 20000, 40000])
    name = rng.choice(["asc", "desc", "random", "zigzag"])
    pairs = [(i, i * 2) for i in order(rng, name, n)]
    how = rng.choice(["of_seq", "of_list", "of_block", "gen", "adds", "dict", "Seq", "create", "changes"])
    if how == "of_seq":
        m = Map.of_seq(pairs)
    elif how == "of_list":
        m = Map.of_list(pairs)
    elif how == "of_block":
        m = Map.of_block(Block(pairs))
    elif how == "gen":
        m = M.of_seq(p for p in pairs)
    elif how == "dict":
        m = M.of_seq(dict(pairs).items())
    elif how == "Seq":
        m = Map.of_seq(Seq(pairs))
    elif how == "create":
        m = Map.create(pairs)
    else:
        m = Map.empty()
        for k, v in pairs:
            m = m.add(k, v) if how == "adds" else m.change(k, lambda _, v=v: Some(v))
    label = f"big {how} {name} n={n}"

    def tot(x):
        mon.ev("big.ops")
        return x

    check(tot(len(m)) == n, "len", label=label)
    check(tot(list(m)) == list(range(n)), "iteration", label=label)
    check(tot(sum(v for _, v in m.items())) == n * (n - 1), "items", label=label)
    check(tot(sum(v for _, v in m.to_seq())) == n * (n - 1), "to_seq", label=label)
    check(tot(m.fold(lambda s, kv: s + kv[1], 0)) == n * (n - 1), "fold", label=label)
    check(tot(m.fold_back(lambda kv, s: s + kv[1], 0)) == n * (n - 1), "fold_back", label=label)
    acc: list = []
    m.iterate(lambda k, v: acc.append(v))
    check(tot(len(acc)) == n, "iterate", label=label)
    d = m.map(lambda k, v: v + 1)
    check(tot(d[n - 1]) == 2 * n - 1 and len(d) == n, "map", label=label)
    f = m.filter(lambda k, v: k % 3 == 0)
    check(tot(len(f)) == (n + 2) // 3, "filter", label=label)
    a, b = m.partition(lambda k, v: k % 2 == 0)
    check(tot(len(a) + len(b)) == n and len(a) == (n + 1) // 2, "partition", label=label)
    check(tot(m.exists(lambda k, v: k == n - 1)) and m.for_all(lambda k, v: v == 2 * k), "exists/for_all", label=label)
    check(tot(m.try_pick(lambda k, v: Some(k) if k == n - 1 else Nothing)).value == n - 1, "try_pick", label=label)
    other = Map.of_seq(sorted(pairs))
    check(tot(m == other), "equality", label=label)
    check(tot(m != other.remove(n - 1)), "inequality", label=label)
    check(tot(hash(m)) == hash(other), "hash", label=label)
    check(tot(pipe(m, M.count)) == n, "count", label=label)
    if n <= 20000:
        check(tot(len(m.to_list())) == n, "to_list", label=label)
        check(tot(len(str(m))) > n, "str", label=label)
    check(tot(m.remove(n // 2).contains_key(n // 2)) is False, "remove", label=label)
    mon.sig(label)


WORKLOADS = {
    "window": Workload(window, 120, 1200),
    "grow_shrink": Workload(grow_shrink, 100, 1600),
    "adversary": Workload(adversary, 80, 1600),
    "derived": Workload(derived, 80, 800),
    "big": Workload(big, 8, 100, cpu_s=240),
}
_ = random
