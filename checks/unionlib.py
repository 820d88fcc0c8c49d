"""Random tagged unions (C15, C16), registered here so that they can be pickled."""

from __future__ import annotations

import sys
from typing import Any, ClassVar, Generic, Literal, TypeVar

from expression import case, tag, tagged_union

NAMES = ["a", "b", "c", "circle", "Rect", "x1", "none", "some", "ok", "error", "value", "index", "name", "items", "keys", "count", "data", "A", "_p", "zz"]
_n = [0]
_T = TypeVar("_T")


class Mixin:
    def mixed(self):
        return ("mixed", self.tag)


def members(rng, ns, bases):
    """What a user writes next to the cases: methods, properties, factories, constants, bases."""
    if rng.random() < 0.3:
        ns["describe"] = lambda self, n=1: (self.tag, getattr(self, self.tag)) * n
    if rng.random() < 0.2:
        ns["payload_"] = property(lambda self: getattr(self, self.tag))
    if rng.random() < 0.2:
        ns["make_"] = classmethod(lambda cls, c, v: cls(**{c: v}))
    if rng.random() < 0.2:
        ns["__annotations__"]["LIMIT"] = ClassVar[int]
        ns["LIMIT"] = 7
    if rng.random() < 0.2:
        ns["CONST"] = "plain"
    if rng.random() < 0.2:
        bases.append(Mixin)
    if rng.random() < 0.2:
        bases.append(Generic[_T])
    return bases


def use_members(check, x, c, v):
    cls = type(x)
    if hasattr(cls, "describe"):
        check(x.describe()[0] == c and x.describe()[1] is v and len(x.describe(2)) == 4, "a method of the union", case=c, got=x.describe()[0])
    if hasattr(cls, "payload_"):
        check(x.payload_ is v, "a property of the union", case=c)
    if hasattr(cls, "make_"):
        y = cls.make_(c, v)
        check(type(y) is cls and y.tag == c and getattr(y, c) is v, "a factory of the union", case=c)
    if hasattr(cls, "LIMIT"):
        check(x.LIMIT == 7 and cls.LIMIT == 7, "a class variable of the union", case=c)
    if hasattr(cls, "CONST"):
        check(x.CONST == "plain", "a constant of the union", case=c)
    if isinstance(x, Mixin):
        check(x.mixed() == ("mixed", c), "a base class's method", case=c)


def make(rng, frozen=None, order=None, repr=None, n=None, eq=True):
    """A fresh union class: (class, case names, options)."""
    n = n or rng.choice([1, 2, 2, 3, 3, 5, 8, 14, 14, 26 if rng.random() < 0.3 else 3, 70 if rng.random() < 0.1 else 2])
    names = rng.sample(NAMES if n < 19 else NAMES[:18] + [f"case_{i}" for i in range(60)], n)
    frozen = rng.random() < 0.6 if frozen is None else frozen
    order = rng.random() < 0.5 if order is None else order
    _n[0] += 1
    cname = f"U{_n[0] % 50}"
    tag_at = 0 if rng.random() < 0.85 else rng.randrange(n + 1)
    ns: dict[str, Any] = {"__module__": __name__, "__qualname__": cname, "__annotations__": {}}
    for i, c in enumerate(names):
        if i == tag_at:
            ns["__annotations__"]["tag"] = Literal[tuple(names)]
            ns["tag"] = tag()
        ns["__annotations__"][c] = Any
        ns[c] = case()
    if tag_at == n:
        ns["__annotations__"]["tag"] = Literal[tuple(names)]
        ns["tag"] = tag()
    import types

    bases = members(rng, ns, [])
    cls = types.new_class(cname, tuple(bases), {}, lambda n: n.update(ns))
    kw = {k: v for k, v in (("frozen", frozen), ("order", order)) if v or rng.random() < 0.3}
    if not kw and rng.random() < 0.5:
        cls = tagged_union(cls)
    else:
        cls = tagged_union(**kw)(cls)
    setattr(sys.modules[__name__], cname, cls)
    cls._vf = None
    info = {"names": names, "frozen": frozen, "order": order, "tag_first": tag_at == 0}
    return cls, names, info


def subclass(rng, cls):
    """A subclass: plain, or with its own constructor."""
    _n[0] += 1
    cname = f"S{_n[0] % 50}"
    ns: dict[str, Any] = {"__module__": __name__, "__qualname__": cname}
    own = rng.random() < 0.5
    if own:

        def __init__(self, case_name, payload):
            super(sub, self).__init__(**{case_name: payload})

        ns["__init__"] = __init__
    sub = type(cname, (cls,), ns)
    setattr(sys.modules[__name__], cname, sub)
    return sub, (lambda c, v: sub(c, v)) if own else (lambda c, v: sub(**{c: v}))
