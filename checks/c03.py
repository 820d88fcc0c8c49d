from __future__ import annotations

import math
from fractions import Fraction

from expression import Error, Nothing, Ok, Some
from expression.collections import Block, Map

from vf.core import Workload, check
from vf.gen import Tok, big, value

from .c01 import Model, build, key_domain

PROP = "C03"
RULE = (
    "A case makes 3-6 maps whose bindings are equal, prefixes, suffixes, one-binding-different or unrelated, each built along its own history (order, "
    "duplicates, later removals, derived by filter/map/change), and compares all ordered pairs by ==, !=, hash, and each with foreign objects, against "
    "equality of the model dictionaries. Non-trivial: both equal and unequal pairs, or maps of two or more bindings; distinct by the models and build paths."
)
ASSUMPTIONS = ["equality of keys and values is itself an equivalence consistent with their hash", "keys are totally ordered"]
REQUIRED = ["pair.equal", "pair.prefix", "pair.unequal", "foreign", "hash.equal", "unhashable", "str", "big"]


def grow(rng, model, ks, extra_vals):
    """Build a map with the bindings of model along a random history."""
    pairs = list(model.items())
    rng.shuffle(pairs)
    junk = [k for k in ks if k not in model]
    pre = []
    for k, v in pairs:
        while rng.random() < 0.2:
            pre.append((k, extra_vals()))
        pre.append((k, v))
    _, m = build(rng, pre)
    mode = rng.randrange(5)
    if mode == 0 and junk:
        for k in junk[:5]:
            m = m.add(k, extra_vals())
        for k in junk[:5]:
            m = m.remove(k)
    elif mode == 1 and junk:
        for k in junk[:4]:
            m = m.add(k, extra_vals())
        m = m.filter(lambda k, v: k in model)
    elif mode == 2:
        m = m.map(lambda k, v: None).map(lambda k, v: model[k])
    elif mode == 3 and pairs:
        for k, v in pairs[:4]:
            m = m.remove(k)
        for k, v in pairs[:4]:
            m = m.change(k, lambda _, v=v: Some(v))
    elif mode == 4 and junk:
        for k in junk[:4]:
            m = m.add(k, 1)
        m = m.partition(lambda k, v: k in model)[0]
    return m


SAME = [1, True, 1.0, Fraction(1)]


def clone(rng, v):
    """An equal but different value."""
    if type(v) in (int, float, bool) and v == 1:
        return rng.choice(SAME)
    if type(v) in (int, float, bool) and v == 0:
        return rng.choice([0, False, 0.0])
    if isinstance(v, Clash):
        return Clash(v.n)
    if isinstance(v, tuple):
        return tuple(list(v))
    if isinstance(v, list):
        return list(v)
    if isinstance(v, str):
        return "".join(list(v))
    return v


class Clash:
    """All have one hash."""

    __slots__ = ("n",)

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return isinstance(o, Clash) and o.n == self.n

    def __hash__(self):
        return 7

    def __repr__(self):
        return f"Clash{self.n}"


VALS = [None, 0, 1, "", "a", (), (1, 2), 2.5, "None", False, True, -1, -2, -1, -2, 2**61, 1 + 2**61, Clash(1), Clash(2), (-1,), (-2,)]
NAN = float("nan")  # unequal to itself


def vgen(rng):
    r = rng.random()
    if r < 0.7:
        return rng.choice(VALS)
    if r < 0.8:
        return rng.choice([Some(1), Some(None), Nothing, Ok(1), Error("e"), Some(Some(2)), Block([1, 2]), Some("x")])
    if r < 0.88:
        return [rng.randrange(3)]
    if r < 0.92:
        return NAN if r < 0.9 else math.nan
    return Tok()


class Foreign:
    pass


class Weird:
    def __eq__(self, o):
        raise RuntimeError("never compare me")

    __hash__ = None


def foreigners(m, model):
    yield None
    yield object()
    yield Foreign()
    yield 0
    yield ""
    yield dict(model)
    yield list(model.sorted())
    yield tuple(model.sorted())
    yield Block(model.sorted())
    yield m.to_list()
    yield dict(m).items()
    yield Some(m)
    yield Map
    yield set()
    yield False


def hashable(model):
    try:
        for v in model.values():
            hash(v)
        return True
    except TypeError:
        return False


def text(model):
    def one(k, v):
        return f'("{k}", {v})' if isinstance(k, str) else f"({k}, {v})"

    return "map [" + "; ".join(one(k, v) for k, v in model.sorted()) + "]"


def equality(rng, mon):
    large = rng.random() < 0.03
    kind, ks = key_domain(rng, big(rng, 600) if large else rng.choice([1, 2, 4, 8, 20, 45]))
    few = [vgen(rng) for _ in range(3)] if rng.random() < 0.4 else None
    base = Model({k: rng.choice(few) if few else vgen(rng) for k in rng.sample(ks, len(ks) if large else rng.randrange(len(ks) + 1))})
    if large:
        mon.ev("big")
    models = [base]
    doms = [ks]
    for _ in range(rng.choice([1, 2, 3, 4])):
        src = rng.randrange(len(models))
        b, dom = Model(models[src]), doms[src]
        how = rng.choice(["equal", "equal", "prefix", "suffix", "value", "key", "other", "drop"])
        srt = b.sorted()
        if how == "equal":
            b = Model({k: clone(rng, v) for k, v in srt})
        elif how == "prefix":
            b = Model(dict(srt[: rng.randrange(len(srt) + 1)]))
        elif how == "suffix":
            b = Model(dict(srt[rng.randrange(len(srt) + 1) :]))
        elif how == "value" and b:
            k = rng.choice(list(b))
            twin = {-1: -2, -2: -1, (-1,): (-2,), Clash(1): Clash(2), 1: 2**61}
            b[k] = twin[b[k]] if rng.random() < 0.6 and type(b[k]) in (int, tuple, Clash) and b[k] in twin else vgen(rng)
        elif how == "key":
            b[rng.choice(dom)] = vgen(rng)
        elif how == "drop" and b:
            del b[rng.choice(list(b))]
        elif how == "other":
            _, dom = key_domain(rng, 5)
            b = Model({k: vgen(rng) for k in rng.sample(dom, rng.randrange(len(dom) + 1))})
        models.append(b)
        doms.append(dom)
    maps = [grow(rng, mo, do, lambda: vgen(rng)) for mo, do in zip(models, doms)]
    texts = [text(mo) if mo else "map []" for mo in models]
    for i, (a, ma) in enumerate(zip(maps, models)):
        check((a == a) is True and (a != a) is False, "not reflexive", a=a)
        check(len(a) == len(ma) and bool(a) == bool(ma), "length or truthiness", a=a)
        for j, (b, mb) in enumerate(zip(maps, models)):
            la, lb = ma.sorted(), mb.sorted()
            want = len(la) == len(lb) and all(x[0] == y[0] and (x[1] is y[1] or x[1] == y[1]) for x, y in zip(la, lb))
            got, ngot = a == b, a != b
            check(got is want and ngot is (not want), "equality differs from equality of the bindings", a=a, b=b, got=got, ne=ngot, want=want)
            mon.ev("pair.equal" if want else "pair.unequal")
            if not want and (la == lb[: len(la)] or lb == la[: len(lb)]):
                mon.ev("pair.prefix")
            if want and hashable(ma) and hashable(mb):
                ha, hb = hash(a), hash(b)
                check(ha == hb, "equal maps have different hashes", a=a, b=b)
                check(ha == hash(a), "hash is not stable", a=a)
                check(len({a, b}) == 1 and {a: 1}[b] == 1, "equal maps are different dictionary keys", a=a, b=b)
                mon.ev("hash.equal")
        if not hashable(ma):
            mon.ev("unhashable")
        for f in foreigners(a, ma):
            check((a == f) is False and (a != f) is True, "equal to a foreign object", a=a, f=f)
            check((f == a) is False, "a foreign object is equal", a=a, f=f)
            mon.ev("foreign")
        check(str(a) == texts[i] and repr(a) == texts[i], "printed form", got=str(a), want=texts[i])
        mon.ev("str")
    mon.sig(kind, tuple(texts))
    mon.sample(" | ".join(texts))


WORKLOADS = {"equality": Workload(equality, 6000, 60000)}
_ = (value, Weird)
