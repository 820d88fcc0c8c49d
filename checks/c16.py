from __future__ import annotations

import copy
import dataclasses
import pickle

from expression import Error, Failure, Nothing, Ok, Option, Result, Some, Success, Try
from expression.collections import Block, Map

from vf.core import Workload, check, fail
from vf.gen import value

from . import unionlib
from .unionlib import make, subclass

PROP = "C16"
RULE = (
    "A case builds an instance of a random frozen tagged union (1-70 cases), of an option, result or Try, or of a subclass (plain or with its own constructor), holding a "
    "nested value (lists, dicts, blocks, maps, options, other unions), then attacks it (assigning and deleting the tag and every case, active or not, directly, by setattr and "
    "augmented assignment) watching that every attempt is refused and nothing observable changes, or copies it (copy, deepcopy, pickle protocols 0-5, chains of these, as part of "
    "containers with shared references) and compares class, case and value, mutates the deep copy's mutable parts to see that the original is unaffected, and compares "
    "dataclasses.asdict with the active case. Non-trivial: an attack or a copy was judged; distinct by class shape, case, value shape and copy path."
)
ASSUMPTIONS = ["unions are declared with a tag and cases as documented; pickled values are picklable", "attributes that are neither the tag nor a case are not covered"]
REQUIRED = ["set_refused", "del_refused", "copy", "deepcopy", "pickle", "asdict", "sub", "shared", "unaliased", "builtin", "replaced_init"]


class Num:
    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return type(o) is Num and o.n == self.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return f"Num({self.n})"


def nested(rng, depth=3):
    """A picklable value with equality by structure."""
    r = rng.random()
    if depth <= 0 or r < 0.3:
        return rng.choice([0, None, False, "", (), 1, "x", 2.5, b"y", 10**20, Num(1)])
    k = rng.randrange(10)
    sub = lambda: nested(rng, depth - 1)
    if k == 0:
        if rng.random() < 0.03:
            return [rng.choice([i, Some(i), [i]]) for i in range(rng.choice([40, 130, 300]))]
        return [sub() for _ in range(rng.randrange(4))]
    if k == 1:
        return {i: sub() for i in range(rng.randrange(3))}
    if k == 2:
        return tuple(sub() for _ in range(rng.randrange(3)))
    if k == 3:
        return Some(sub())
    if k == 4:
        return Nothing
    if k == 5:
        return rng.choice([Ok, Error])(sub())
    if k == 6:
        return Success(sub())
    if k == 7:
        return Block([sub() for _ in range(rng.randrange(3))])
    if k == 8:
        return {rng.randrange(5) for _ in range(rng.randrange(3))}
    return [sub(), [sub()]]


class OSub(Option):
    pass


class RSub(Result):
    pass


class TSub(Try):
    pass


def subject(rng, mon, frozen=True):
    """(instance, active case, all cases, value)"""
    v = nested(rng)
    k = rng.randrange(9)
    if k < 4:
        cls, names, _ = make(rng, frozen=frozen)
        c = rng.choice(names)
        if rng.random() < 0.35:
            sub, mk = subclass(rng, cls)
            mon.ev("sub")
            return mk(c, v), c, names, v
        return cls(**{c: v}), c, names, v
    mon.ev("builtin")
    o, r = ["none", "some"], ["ok", "error"]
    return [
        lambda: (Some(v), "some", o, v),
        lambda: (Option(none=None), "none", o, None),
        lambda: (Ok(v), "ok", r, v),
        lambda: (Error(v), "error", r, v),
        lambda: rng.choice(
            [
                lambda: (Success(v), "ok", r, v),
                lambda: (Failure(v), "error", r, v),
                lambda: (OSub(some=v), "some", o, v),
                lambda: (RSub(error=v), "error", r, v),
                lambda: (TSub(ok=v), "ok", r, v),
            ]
        )(),
    ][k - 4]()


def deep(a, b):
    """Same classes, cases and leaves; no identity required."""
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple, Block)):
        a, b = list(a), list(b)
        return len(a) == len(b) and all(map(deep, a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(deep(a[k], b[k]) for k in a)
    if hasattr(a, "tag"):
        return a.tag == b.tag and deep(getattr(a, a.tag), getattr(b, b.tag))
    return a == b


def snapshot(x, names):
    out = {"tag": x.tag, "str": str(x), "repr": repr(x)}
    for n in names:
        try:
            out[n] = ("v", id(getattr(x, n)))
        except AttributeError:
            out[n] = ("absent",)
    return out


def frozen(rng, mon):
    x, c, names, v = subject(rng, mon)
    before = snapshot(x, names)
    try:
        h = hash(x)
    except TypeError:
        h = None
    targets = ["tag", *names]
    rng.shuffle(targets)
    for n in targets:
        for new in (rng.choice(names), v, None, value(rng)):
            if rng.random() < 0.3:
                continue
            how = rng.randrange(3)
            try:
                if how == 0:
                    setattr(x, n, new)
                elif how == 1:
                    exec(f"x.{n} = new", {"x": x, "new": new})
                else:
                    type(x).__setattr__(x, n, new)
            except (TypeError, AttributeError):
                mon.ev("set_refused")
            else:
                fail("assigning to a frozen union is accepted", attribute=n, active=c, new=new, now=x)
            check(snapshot(x, names) == before, "a refused assignment changed a frozen union", attribute=n, before=before, after=snapshot(x, names))
        try:
            if rng.random() < 0.5:
                delattr(x, n)
            else:
                exec(f"del x.{n}", {"x": x})
        except (TypeError, AttributeError):
            mon.ev("del_refused")
        else:
            fail("deleting from a frozen union is accepted", attribute=n, active=c)
        check(snapshot(x, names) == before, "a refused deletion changed a frozen union", attribute=n, before=before, after=snapshot(x, names))
    if isinstance(v, (int, str, list)):
        try:
            exec(f"x.{c} += x.{c}", {"x": x}) if not isinstance(v, list) else exec(f"x.{c} += []", {"x": x})
        except (TypeError, AttributeError):
            pass
        else:
            fail("augmented assignment to a frozen union is accepted", active=c)
        check(snapshot(x, names) == before, "a refused augmented assignment changed a frozen union")
    if h is not None:
        check(hash(x) == h, "the hash of a frozen union changed")
    mon.sig("frozen", len(names), c, type(x).__mro__[1].__name__, type(v).__name__)


def judge(x, c, names, v, y, path, identical=False):
    check(type(y) is type(x), "a copy is of another class", path=path, got=type(y), want=type(x))
    check(y.tag == c, "a copy has another case", path=path, got=y.tag, want=c)
    w = getattr(y, c)
    check(deep(w, v), "a copy holds another value", path=path, got=w, want=v)
    if identical:
        check(w is v, "a shallow copy holds another object", path=path)
    for n in names:
        if n != c:
            try:
                getattr(y, n)
            except AttributeError:
                continue
            fail("a copy has more than one case", path=path, case=n)
    check((x == y) is True and (y == x) is True, "a copy is not equal to its original", path=path, original=x, copy=y)


def mutate(v):
    """Change every mutable part reachable. Returns how many were changed."""
    n = 0
    if isinstance(v, list):
        for e in v:
            n += mutate(e)
        v.append("mutated")
        n += 1
    elif isinstance(v, dict):
        for e in v.values():
            n += mutate(e)
        v["mutated"] = 1
        n += 1
    elif isinstance(v, set):
        v.add("mutated")
        n += 1
    elif isinstance(v, (tuple, Block)):
        for e in v:
            n += mutate(e)
    elif hasattr(v, "tag"):
        n += mutate(getattr(v, v.tag))
    return n


def copies(rng, mon):
    x, c, names, v = subject(rng, mon, frozen=rng.random() < 0.75)
    hows = ["copy", "deepcopy", *(f"pickle{p}" for p in range(6))]
    y, path = x, []
    for _ in range(rng.randint(1, 4)):
        how = rng.choice(hows)
        path.append(how)
        prev = y
        if how == "copy":
            y = copy.copy(prev)
        elif how == "deepcopy":
            y = copy.deepcopy(prev)
        else:
            y = pickle.loads(pickle.dumps(prev, int(how[6:])))
        mon.ev(how[:6] if how != "deepcopy" else how)
        judge(x, c, names, v, y, path, identical=how == "copy" and len(path) == 1)
        if how == "copy":
            check(getattr(y, c) is getattr(prev, c), "a shallow copy holds another object", path=path)
    d = dataclasses.asdict(x)
    plain = dataclasses.asdict(dataclasses.make_dataclass("D", [c])(v))
    check(set(d) == {"tag", c} and d["tag"] == c, "asdict reports something else than the active case", got=d, active=c)
    check(repr(d[c]) == repr(plain[c]), "asdict reports another value", got=d[c], want=plain[c])
    d = dataclasses.asdict(y)
    check(set(d) == {"tag", c} and d["tag"] == c and repr(d[c]) == repr(plain[c]), "asdict of a copy", got=d, path=path)
    mon.ev("asdict")

    # no shared mutable state
    z = copy.deepcopy(x) if rng.random() < 0.6 else pickle.loads(pickle.dumps(x))
    before = repr(x)
    if mutate(getattr(z, c)):
        mon.ev("unaliased")
    check(repr(x) == before, "a deep copy shares mutable state with its original", before=before, after=repr(x))

    # a frozen copy is frozen too
    if type(x).__hash__ is not None and (isinstance(x, (Option, Result)) or _frozen(x)):
        for n in ("tag", *names):
            try:
                setattr(y, n, 1)
            except (TypeError, AttributeError):
                continue
            fail("a copy of a frozen union can be changed", path=path, attribute=n)
    mon.sig("copy", path, c, len(names), type(x).__mro__[1].__name__, type(v).__name__)
    mon.sample(f"{path} of {x!r}"[:200])


def _frozen(x):
    return "__setattr__" in {k for b in type(x).__mro__[:-1] for k in vars(b)}


def in_containers(rng, mon):
    """Unions inside containers and shared between them."""
    x, c, names, v = subject(rng, mon)
    shared = [1, [2]]
    w = type(x) if False else None
    del w
    cls, ns, _ = make(rng, frozen=True)
    k = rng.choice(ns)
    u = cls(**{k: shared})
    doc = {"x": x, "u": u, "again": u, "shared": shared, "list": [x, x], "opt": Some(u), "blk": Block([u, x])}
    for how in ("deepcopy", "pickle"):
        d2 = copy.deepcopy(doc) if how == "deepcopy" else pickle.loads(pickle.dumps(doc, rng.randrange(2, 6)))
        judge(x, c, names, v, d2["x"], [how, "in a container"])
        judge(u, k, ns, shared, d2["u"], [how, "in a container"])
        judge(u, k, ns, shared, d2["opt"].value, [how, "in an option"])
        judge(u, k, ns, shared, d2["blk"][0], [how, "in a block"])
        check(getattr(d2["u"], k) is d2["shared"], "copying a structure separates what is shared inside it", how=how)
        check(getattr(d2["u"], k) is not shared, "a deep copy shares a mutable object with its original", how=how)
        mon.ev("shared")
    check(copy.copy(doc)["x"] is x, "shallow container copy")
    # deep nesting
    n = rng.choice([5, 30])
    y = v
    for i in range(n):
        y = Some(y) if i % 2 else cls(**{k: y})
    check(deep(copy.deepcopy(y), y) and deep(pickle.loads(pickle.dumps(y)), y), "copying deeply nested unions")
    # a union instance with a constructor of its own that would count calls
    calls = []

    class Own(cls):
        def __init__(self, payload):
            calls.append(payload)
            super().__init__(**{k: payload})

    Own.__module__, Own.__qualname__ = unionlib.__name__, "Own"
    unionlib.Own = Own
    o = Own([7])
    for z in (copy.copy(o), copy.deepcopy(o), pickle.loads(pickle.dumps(o))):
        judge(o, k, ns, [7], z, ["own constructor"])
    check(len(calls) == 1, "copying ran a constructor again", calls=calls)
    mon.ev("replaced_init")
    mon.sig("cont", c, k, n, type(v).__name__)


SCALE = 10.2
WORKLOADS = {
    "frozen": Workload(frozen, 5000, 80000),
    "copies": Workload(copies, 8000, 150000),
    "in_containers": Workload(in_containers, 1500, 20000),
}

_ = Map
