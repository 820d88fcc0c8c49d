from __future__ import annotations

import itertools

from expression import Error, Nothing, Ok, Option, Result, Some

from vf.core import Workload, check, fail
from vf.gen import Eq, Tok, confusable, falsy, hval, value

from .unionlib import NAMES, make, use_members

PROP = "C15"
RULE = (
    "A case makes a tagged union class with 1-70 cases of random names and options (frozen, ordered), builds instances with hostile values and observes the tag, "
    "the active value (identity), every inactive case, structural pattern matching by compiled match statements (keyword, tag and combined patterns in random arm order), "
    "refusals of malformed constructions, and for pools of instances all-pairs equality, hashing and ordering against comparison of (case index, value). "
    "Options, results and their constructors are judged in the same way. Non-trivial: an instance was observed; distinct by class shape, case and value type."
)
ASSUMPTIONS = ["unions are declared with a tag and cases as documented", "equality and ordering of the values are those of Python"]
REQUIRED = ["built", "refused:none", "refused:two", "refused:unknown", "refused:tag", "inactive_read", "matched", "not_matched", "eq_true", "eq_false", "hash", "lt", "builtin_unions", "unhashable", "eq_on", "eq_off", "order_off", "frozen_off"]


def missing(x, name):
    try:
        getattr(x, name)
    except AttributeError:
        return True
    return False


def refused(mon, what, cls, **kw):
    try:
        x = cls(**kw)
    except TypeError:
        mon.ev("refused:" + what)
        return
    except Exception as e:
        fail("a malformed construction fails with something else than a TypeError", kwargs=kw, got=e)
    fail("a malformed construction is accepted", what=what, kwargs=kw, got=x)


def build(rng, mon):
    cls, names, info = make(rng)
    for _ in range(rng.randint(1, 4)):
        c = rng.choice(names)
        v = falsy(rng) if rng.random() < 0.4 else value(rng)
        kw = {c: v}
        if rng.random() < 0.4:
            kw = {"tag": c, c: v} if rng.random() < 0.5 else {c: v, "tag": c}
        x = cls(**kw)
        check(x.tag == c, "the tag names another case", got=x.tag, want=c)
        check(getattr(x, c) is v, "the active case holds another value", case=c, got=getattr(x, c), want=v)
        check(type(x) is cls, "an instance of another class", got=type(x))
        for d in names:
            if d != c:
                check(missing(x, d), "an inactive case can be read", active=c, inactive=d, cases=names)
                mon.ev("inactive_read")
        mon.ev("built")
        use_members(check, x, c, v)
        matching(rng, mon, cls, names, info, x, c, v)
        mon.sig("build", len(names), c, type(v).__name__, info["frozen"], info["order"], len(kw))
    # malformed
    refused(mon, "none", cls)
    refused(mon, "none", cls, tag=rng.choice(names))
    if len(names) > 1:
        a, b = rng.sample(names, 2)
        for va, vb in ((1, 2), (None, 1), (1, None), (None, None), (0, "")):
            refused(mon, "two", cls, **{a: va, b: vb})
        refused(mon, "two", cls, **{"tag": a, a: 1, b: 2})
        refused(mon, "two", cls, **{"tag": a, a: 1, b: rng.choice([None, 0, False, "", 1])})
        refused(mon, "two", cls, **{"tag": a, a: None, b: None})
        refused(mon, "two", cls, **{b: rng.choice([None, 0, ""]), a: 1, "tag": a})
        refused(mon, "two", cls, **{"tag": b, a: 1, b: 2})
        refused(mon, "two", cls, **{n: 1 for n in names})
        refused(mon, "tag", cls, **{"tag": b, a: 1})
        refused(mon, "tag", cls, **{a: None, "tag": b})
    a = rng.choice(names)
    bad = rng.choice([n for n in NAMES + ["no_such"] if n not in names])
    refused(mon, "tag", cls, **{"tag": bad, a: 1})
    refused(mon, "tag", cls, **{"tag": rng.choice(["", 0, False, a + "x", a.swapcase()]), a: 1})
    refused(mon, "unknown", cls, **{bad: 1})
    refused(mon, "unknown", cls, **{bad: None})
    refused(mon, "unknown", cls, **{bad: 1, "tag": bad})
    refused(mon, "unknown", cls, **{a: 1, bad: 1})
    refused(mon, "unknown", cls, **{bad: 1, a: 1})
    mon.sample(f"{names} {info}")


def matching(rng, mon, cls, names, info, x, c, v):
    """Run compiled match statements over all cases in random order."""
    order = list(names)
    rng.shuffle(order)
    style = rng.choice(["both", "field", "tag", "mixed"] + (["pos"] if info["tag_first"] else []))
    src = ["def f(x):", "    match x:"]
    for i, n in enumerate(order):
        s = style if style != "mixed" else rng.choice(["both", "field", "tag"])
        if s == "both":
            src.append(f"        case U(tag={n!r}, {n}=v): return ({n!r}, v)")
        elif s == "field":
            src.append(f"        case U({n}=v): return ({n!r}, v)")
        elif s == "tag":
            src.append(f"        case U(tag={n!r}): return ({n!r}, x.{n})")
        else:
            src.append(f"        case U({n!r}): return ({n!r}, x.{n})")
    src.append("        case _: return None")
    ns = {"U": cls}
    exec("\n".join(src), ns)
    got = ns["f"](x)
    if got is None or got[0] != c or got[1] is not v:
        fail("pattern matching selects something else than the active case", got=got, active=c, value=v, arms=order, style=style)
    mon.ev("matched")
    # without the active arm nothing matches
    if len(names) > 1:
        src2 = [ln for ln in src if f"case U(tag={c!r}" not in ln and f"case U({c}=" not in ln and f"case U({c!r})" not in ln]
        exec("\n".join(src2), ns)
        check(ns["f"](x) is None, "an inactive case matches", active=c, got=ns["f"](x))
        mon.ev("not_matched")
    other, _, _ = make(rng, n=len(names))
    ns = {"U": other}
    exec("def g(x):\n    match x:\n        case U(): return True\n        case _: return False", ns)
    check(ns["g"](x) is False, "an instance matches another union")


def relations(rng, mon):
    cls, names, info = make(rng, frozen=rng.random() < 0.7, order=rng.random() < 0.7)
    # another union with the same cases
    st = rng.getstate()
    other = None
    rng.setstate(st)
    kind = rng.choice(["int", "eq", "hval", "mixed", "confusable"])
    pool = confusable(rng, 5)

    def val():
        if kind == "int":
            return rng.choice([0, 1, True, 1.0, 2, -3, False])
        if kind == "confusable":
            return rng.choice(pool)
        if kind == "eq":
            return Eq(rng.randrange(2), rng.randrange(99))
        if kind == "hval":
            return hval(rng)
        return rng.choice([0, None, "", (), 1, "a", (1,)])

    ms = [(rng.choice(names), val()) for _ in range(rng.randint(2, 8))]
    ms += rng.sample(ms, 1)
    xs = [cls(**{c: v}) for c, v in ms]
    for (m, x), (n, y) in itertools.product(zip(ms, xs), zip(ms, xs)):
        want = m[0] == n[0] and bool(m[1] == n[1])
        check((x == y) is want and (x != y) is (not want), "equality of unions", a=m, b=n, got=(x == y), want=want)
        mon.ev("eq_true" if want else "eq_false")
        if info["frozen"] and want:
            check(hash(x) == hash(y), "equal unions have different hashes", a=m, b=n)
            mon.ev("hash")
        if info["order"] and kind in ("int", "eq"):
            i, j = names.index(m[0]), names.index(n[0])
            lt = i < j or (i == j and m[1] < n[1])
            check((x < y) is lt, "ordering of unions", a=m, b=n, cases=names, got=x < y, want=lt)
            check((y > x) is lt, "ordering of unions (reflected)", a=m, b=n, cases=names)
            mon.ev("lt")
        elif info["order"] and m[0] != n[0]:
            lt = names.index(m[0]) < names.index(n[0])
            check((x < y) is lt, "ordering of different cases", a=m, b=n, cases=names, got=x < y, want=lt)
            mon.ev("lt")
    if info["frozen"]:
        d = {}
        for m, x in zip(ms, xs):
            d.setdefault(x, m)
        for m, x in zip(ms, xs):
            w = d[x]
            check(w[0] == m[0] and bool(w[1] == m[1]), "a dictionary confuses unions", a=m, b=w)
        try:
            hash(cls(**{names[0]: [1]}))
        except TypeError:
            mon.ev("unhashable")
        else:
            fail("a union holding an unhashable value has a hash")
    if info["order"] and kind in ("int", "eq"):
        got = [(z.tag, getattr(z, z.tag)) for z in sorted(xs)]
        want = sorted(ms, key=lambda m: (names.index(m[0]), m[1]))
        check(len(got) == len(want) and all(a[0] == b[0] and a[1] is b[1] for a, b in zip(got, want)), "sorting unions", got=got, want=want)
    for m, x in zip(ms, xs):
        for foreign in (None, 0, m, m[1] if type(m[1]) in (int, str, tuple) else object(), m[0], Some(m[1]), Ok(m[1]), {m[0]: m[1]}):
            check((x == foreign) is False, "a union equals something foreign", union=m, other=foreign)
    del other
    # a different union class with the very same case names
    from typing import Any, Literal

    from expression import case, tag, tagged_union

    ns = {"__annotations__": {"tag": Literal["a"], **{n: Any for n in names}}, "tag": tag(), **{n: case() for n in names}}
    twin = tagged_union(frozen=True, order=True)(type(cls.__name__, (), ns))
    c, v = ms[0]
    a, b = xs[0], twin(**{c: v})
    check((a == b) is False and (b == a) is False and a != b, "unions of different types are equal", case=c, value=v)
    if info["order"]:
        try:
            a < b
        except TypeError:
            pass
        else:
            fail("unions of different types are ordered")
    mon.sig("rel", kind, [m[0] for m in ms], info["frozen"], info["order"])


def options(rng, mon):
    """Without equality, order or frozenness, instances have none of them."""
    from typing import Any, Literal

    from expression import case, tag, tagged_union

    kw = {k: rng.random() < 0.5 for k in ("frozen", "order", "eq", "repr") if rng.random() < 0.8}
    own = rng.random() < 0.3
    names = rng.sample(NAMES, rng.randint(1, 4))
    ns = {"__annotations__": {"tag": Literal["a"], **{n: Any for n in names}}, "tag": tag(), **{n: case() for n in names}}
    if own:
        ns["__eq__"] = lambda self, o: ("mine", self.tag, o)
        ns["__hash__"] = lambda self: 7
        ns["__lt__"] = lambda self, o: ("less", self.tag, o)
    cls = tagged_union(**kw)(type("Opt", (), ns))
    c, v = rng.choice(names), hval(rng)
    x, y = cls(**{c: v}), cls(**{c: v})
    check(x.tag == c and getattr(x, c) is v, "a union holds another case", case=c, options=kw)
    if kw.get("eq", True):
        check((x == y) is True and (x != y) is False, "equal unions differ", case=c, value=v, options=kw)
        mon.ev("eq_on")
    elif own:
        check((x == 1) == ("mine", c, 1), "the equality of the class is not used", options=kw)
    else:
        check((x == y) is False and (x == x) is True, "a union without equality has it", case=c, value=v, options=kw)
        mon.ev("eq_off")
    if not kw.get("order", False):
        if own:
            check((x < 1) == ("less", c, 1), "the order of the class is not used", options=kw)
        else:
            try:
                x < y
            except TypeError:
                mon.ev("order_off")
            else:
                fail("a union without order has it", options=kw)
    if not kw.get("frozen", False):
        w = hval(rng)
        setattr(x, c, w)
        check(getattr(x, c) is w and x.tag == c, "a union that is not frozen cannot be changed", options=kw)
        mon.ev("frozen_off")
    mon.sig("options", sorted(kw.items()), own, len(names))


def builtin_unions(rng, mon):
    v = value(rng)
    for x, cls, names, c in (
        (Some(v), Option, ("none", "some"), "some"),
        (Option(some=v), Option, ("none", "some"), "some"),
        (Ok(v), Result, ("ok", "error"), "ok"),
        (Error(v), Result, ("ok", "error"), "error"),
        (Nothing, Option, ("none", "some"), "none"),
    ):
        check(x.tag == c, "the tag of an option or result", got=x.tag, want=c)
        check(getattr(x, c) is (v if c != "none" else None), "the value of an option or result", case=c)
        for n in names:
            if n != c:
                check(missing(x, n), "an inactive case of an option or result can be read", active=c, inactive=n)
        matching(rng, mon, cls, list(names), {"tag_first": True}, x, c, v if c != "none" else None)
    for cls, a, b in ((Option, "none", "some"), (Result, "ok", "error")):
        refused(mon, "none", cls)
        refused(mon, "two", cls, **{a: None, b: v})
        refused(mon, "unknown", cls, zzz=v)
        refused(mon, "tag", cls, **{"tag": a, b: v})
    mon.ev("builtin_unions")
    mon.sig("builtin", type(v).__name__)


SCALE = 10.2
WORKLOADS = {
    "build": Workload(build, 4000, 80000),
    "relations": Workload(relations, 4000, 80000),
    "options": Workload(options, 600, 12000),
    "builtin_unions": Workload(builtin_unions, 600, 8000),
}

_ = Tok
