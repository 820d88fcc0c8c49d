from __future__ import annotations

import collections
import datetime
import decimal
import enum
import json
import typing
import uuid

import pydantic
from pydantic import BaseModel, Field, TypeAdapter, ValidationError, create_model

from expression import Error, Nothing, Ok, Option, Result, Some
from expression.collections import Block, Seq, TypedArray

from vf.core import Workload, check, fail

PROP = "C14"
RULE = (
    "A case draws a type: an option, result, block, list, dict or model nested up to depth 4 over leaf types (int, str, bool, float, bytes, dates, decimals, "
    "UUIDs, enums, literals, unions, constrained and custom-validated types, models with validators). Round-trip cases draw a value of the type, put it in a "
    "model or a type adapter, dump it (Python, Python in JSON mode, JSON) and validate the dump back, comparing structure and leaf types strictly. Validation cases draw plain "
    "data, valid or with one or more leaves or shapes corrupted, and compare acceptance and outcome on the Python and the JSON path with a recursive reference that delegates "
    "leaves to pydantic itself. Non-trivial: a wrapped type takes part; distinct by type and by outcome pattern."
)
ASSUMPTIONS = [
    "pydantic's own validation of leaf types, lists and dicts is correct",
    "already wrapped instances are accepted as they are, so they are only fed with content of the right type",
    "an option directly holding an option or another type that accepts None is excluded: absence is ambiguous there",
]
REQUIRED = ["rt:python", "rt:pyjson", "rt:json", "rt_some", "rt_nothing", "rt_ok", "rt_error", "rt_block", "accepted:python", "accepted:json", "rejected:python", "rejected:json", "wrapped_input", "custom_validated", "untyped", "accepted:collection", "rejected:collection"]

VALIDATED: list = []


class Color(enum.Enum):
    RED = "red"
    BLUE = 2


class Even:
    """A type with its own validation that transforms its input."""

    def __init__(self, n):
        self.n = n

    def __eq__(self, o):
        return type(o) is Even and o.n == self.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return f"Even({self.n})"

    @classmethod
    def __get_pydantic_core_schema__(cls, source, handler):
        from pydantic_core import core_schema

        def conv(v):
            VALIDATED.append(v)
            if isinstance(v, Even):
                return v
            if type(v) is not int or v % 2:
                raise ValueError("not even")
            return Even(v)

        return core_schema.no_info_plain_validator_function(conv, serialization=core_schema.plain_serializer_function_ser_schema(lambda e: e.n))


class Point(BaseModel):
    x: int
    y: typing.Annotated[int, Field(ge=0)] = 0


class Named(BaseModel):
    name: str
    tags: list[str] = []

    @pydantic.field_validator("name")
    @classmethod
    def nonempty(cls, v):
        if not v:
            raise ValueError("empty")
        return v


class Tree(BaseModel):
    """Recursive through all three wrappers."""

    v: int
    kids: Block["Tree"] = Block([])
    o: Option["Tree"] = Nothing
    r: Result["Tree", str] = Error("x")


def tree(r, d=3):
    if d <= 0:
        return Tree(v=r.randrange(3))
    return Tree(
        v=r.randrange(3),
        kids=Block([tree(r, d - 2) for _ in range(r.randrange(3))]),
        o=r.choice([Nothing, Some(tree(r, d - 2))]),
        r=r.choice([Error("e"), Ok(tree(r, d - 2))]),
    )


LEAVES = {
    Tree: tree,
    Even: lambda r: Even(2 * r.randrange(5)),
    int: lambda r: r.choice([0, 1, -5, 10**15]),
    str: lambda r: r.choice(["", "a", "none", "null", "0", "é☃", '{"ok": 1}']),
    bool: lambda r: r.random() < 0.5,
    float: lambda r: r.choice([0.0, 1.5, -2.0, 1e300]),
    datetime.date: lambda r: datetime.date(2020, 1, r.randint(1, 28)),
    datetime.datetime: lambda r: datetime.datetime(2021, 5, 6, 7, 8, r.randint(0, 59)),
    decimal.Decimal: lambda r: decimal.Decimal(r.choice(["1.10", "0", "-7.25"])),
    uuid.UUID: lambda r: uuid.UUID(int=r.getrandbits(128)),
    Color: lambda r: r.choice(list(Color)),
    typing.Literal["a", "b"]: lambda r: r.choice("ab"),
    int | str: lambda r: r.choice([0, 5, "", "x"]),
    typing.Annotated[int, Field(gt=0, lt=100)]: lambda r: r.randint(1, 99),
    typing.Annotated[str, Field(max_length=3)]: lambda r: r.choice(["", "abc"]),
    Point: lambda r: Point(x=r.randint(-3, 3), y=r.randint(0, 9)),
    Named: lambda r: Named(name=r.choice("ab"), tags=[r.choice("xyz") for _ in range(r.randrange(3))]),
}
VLEAVES = [Even]
ADAPT: dict = {}


def adapter(t):
    if t not in ADAPT:
        ADAPT[t] = TypeAdapter(t)
    return ADAPT[t]


# A type is ("leaf", T) | (kind, sub...) with kind in option result block list dict model
def draw(rng, depth, leaves, wrapped=True):
    if depth <= 0:
        return ("leaf", rng.choice(leaves))
    k = rng.choice(["option", "option", "result", "result", "block", "block", "list", "dict", "model", "leaf"])
    if k == "leaf":
        return ("leaf", rng.choice(leaves))
    if k == "option":
        while True:
            s = draw(rng, depth - 1, leaves)
            if s[0] != "option":
                return ("option", s)
    if k == "result":
        return ("result", draw(rng, depth - 1, leaves), draw(rng, depth - 1, leaves))
    if k == "model":
        return ("model", tuple(draw(rng, depth - 1, leaves) for _ in range(rng.randint(1, 2))))
    return (k, draw(rng, depth - 1, leaves))


def wrapped(t):
    return t[0] in ("option", "result", "block") or any(wrapped(s) for s in (t[1] if t[0] == "model" else t[1:]) if isinstance(s, tuple))


def pytype(t, models):
    k = t[0]
    if k == "leaf":
        return t[1]
    if k == "option":
        return Option[pytype(t[1], models)]
    if k == "result":
        return Result[pytype(t[1], models), pytype(t[2], models)]
    if k == "block":
        return Block[pytype(t[1], models)]
    if k == "list":
        return list[pytype(t[1], models)]
    if k == "dict":
        return dict[str, pytype(t[1], models)]
    m = create_model("M%d" % len(models), **{f"f{i}": (pytype(s, models), ...) for i, s in enumerate(t[1])})
    models[id(t)] = m
    return m


def inst(rng, t, models, mon=None, size=3):
    """A value of the type."""
    k = t[0]
    if k == "leaf":
        return LEAVES[t[1]](rng)
    if k == "option":
        if rng.random() < 0.3:
            mon.ev("rt_nothing")
            return Nothing
        mon.ev("rt_some")
        return Some(inst(rng, t[1], models, mon))
    if k == "result":
        if rng.random() < 0.5:
            mon.ev("rt_ok")
            return Ok(inst(rng, t[1], models, mon))
        mon.ev("rt_error")
        return Error(inst(rng, t[2], models, mon))
    n = rng.choice([0, 1, 2, size]) if rng.random() < 0.995 or t[1][0] not in ("leaf", "option") else rng.choice([20, 70, 140])
    if k == "block":
        mon.ev("rt_block")
        return Block([inst(rng, t[1], models, mon) for _ in range(n)])
    if k == "list":
        return [inst(rng, t[1], models, mon) for _ in range(n)]
    if k == "dict":
        return {rng.choice(["a", "ok", "error", "tag", "some", "none"]): inst(rng, t[1], models, mon) for _ in range(n)}
    return models[id(t)](**{f"f{i}": inst(rng, s, models, mon) for i, s in enumerate(t[1])})


def deep_eq(a, b):
    """Equal structure with equal leaf types."""
    if type(a) is not type(b):
        return False
    if isinstance(a, Option):
        return a.tag == b.tag and (a.tag == "none" or deep_eq(a.some, b.some))
    if isinstance(a, Result):
        return a.tag == b.tag and deep_eq(getattr(a, a.tag), getattr(b, a.tag))
    if isinstance(a, (list, Block)):
        a, b = list(a), list(b)
        return len(a) == len(b) and all(map(deep_eq, a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(deep_eq(a[k], b[k]) for k in a)
    if isinstance(a, BaseModel):
        return all(deep_eq(getattr(a, f), getattr(b, f)) for f in type(a).model_fields)
    return a == b


def shape(t):
    return t[0] if t[0] != "leaf" else getattr(t[1], "__name__", str(t[1]))


def sshape(t):
    if t[0] == "leaf":
        return shape(t)
    subs = t[1] if t[0] == "model" else t[1:]
    return f"{t[0]}[{','.join(sshape(s) for s in subs)}]"


def roundtrip(rng, mon):
    leaves = list(LEAVES)
    while True:
        t = draw(rng, rng.randint(1, 4), leaves)
        if wrapped(t):
            break
    models: dict = {}
    T = pytype(t, models)
    M = create_model("Holder", value=(T, ...))
    ta = TypeAdapter(T)
    for _ in range(rng.randint(1, 3)):
        v = inst(rng, t, models, mon)
        m = M(value=v)
        if not deep_eq(m.value, v):
            fail("a model holds something else than it was given", type=sshape(t), got=m.value, given=v)
        before = repr(m)
        for how in ("python", "pyjson", "json"):
            if how == "python":
                d = m.model_dump()
                back = M.model_validate(d)
                d2, back2 = (lambda d: (d, ta.validate_python(d)))(ta.dump_python(v))
            elif how == "pyjson":
                d = m.model_dump(mode="json")
                json.dumps(d)
                back = M.model_validate(d)
                d2, back2 = (lambda d: (d, ta.validate_python(d)))(ta.dump_python(v, mode="json"))
            else:
                d = m.model_dump_json()
                back = M.model_validate_json(d)
                d2, back2 = (lambda d: (d, ta.validate_json(d)))(ta.dump_json(v))
                check(json.loads(d) == m.model_dump(mode="json"), "the JSON dump and the JSON-mode dump differ", json=d, type=sshape(t))
            if not deep_eq(back.value, v):
                fail(f"round trip through {how} changes a value", type=sshape(t), value=v, dump=d, back=back.value)
            if not deep_eq(back2, v):
                fail(f"type adapter round trip through {how} changes a value", type=sshape(t), value=v, dump=d2, back=back2)
            check(back == m, f"round trip through {how} gives an unequal model", type=sshape(t), value=v, dump=d, back=back)
            mon.ev("rt:" + how)
        check(repr(m) == before, "dumping changed the model", before=before, after=repr(m))
        mon.sig("rt", sshape(t), repr(v)[:120])
    mon.sample(f"{sshape(t)}: {v!r} -> {d}"[:300])


# ------------------------------------------------------------------ validation of plain data

JUNK = [None, "zzz", 5, -1, 1.5, True, [], {}, [1], {"a": 1}, {"ok": 1}, {"error": "e"}, "2020-01-03", 101, "", {"x": 1, "y": -1}, {"name": ""}, [None]]


def plain(rng, t, mon, bad):
    """JSON-like data for the type; with probability bad a node is corrupted."""
    if rng.random() < bad:
        return rng.choice(JUNK)
    k = t[0]
    if k == "leaf":
        if t[1] is Even:
            return rng.choice([0, 2, 4, 8])
        v = LEAVES[t[1]](rng)
        return json.loads(adapter(t[1]).dump_json(v))
    if k == "option":
        return None if rng.random() < 0.3 else plain(rng, t[1], mon, bad)
    if k == "result":
        c = rng.choice(["ok", "error"])
        d = {c: plain(rng, t[1 if c == "ok" else 2], mon, bad)}
        if rng.random() < 0.7:
            d = {"tag": c, **d}
        return d
    n = rng.choice([0, 1, 2, 3])
    if k == "block" and t[1][0] == "leaf" and rng.random() < 0.03:
        # a long one, with perhaps one bad element anywhere
        out = [plain(rng, t[1], mon, 0) for _ in range(rng.choice([20, 70, 140]))]
        if bad and rng.random() < 0.7:
            out[rng.randrange(len(out))] = rng.choice(JUNK)
        return out
    if k in ("block", "list"):
        return [plain(rng, t[1], mon, bad) for _ in range(n)]
    if k == "dict":
        return {rng.choice(["a", "b", "ok", "tag"]): plain(rng, t[1], mon, bad) for _ in range(n)}
    return {f"f{i}": plain(rng, s, mon, bad) for i, s in enumerate(t[1])}


class Reject(Exception):
    pass


class Unspecified(Exception):
    pass


def leaf(T, d, mode):
    try:
        return adapter(T).validate_python(d) if mode == "python" else adapter(T).validate_json(json.dumps(d))
    except ValidationError:
        raise Reject from None


def ref(t, d, mode, models):
    k = t[0]
    if k == "leaf":
        return leaf(t[1], d, mode)
    if k == "option":
        return Nothing if d is None else Some(ref(t[1], d, mode, models))
    if k == "result":
        if not isinstance(d, dict):
            raise Reject
        has = [c for c in ("ok", "error") if c in d]
        if not has:
            raise Reject
        if len(has) == 2 or ("tag" in d and d["tag"] != has[0]) or set(d) - {"tag", "ok", "error"}:
            raise Unspecified
        return Ok(ref(t[1], d["ok"], mode, models)) if has == ["ok"] else Error(ref(t[2], d["error"], mode, models))
    if k in ("block", "list"):
        if not isinstance(d, list):
            raise Reject
        # every element must be valid
        out, rej = [], False
        for x in d:
            try:
                out.append(ref(t[1], x, mode, models))
            except Reject:
                rej = True
        if rej:
            raise Reject
        return Block(out) if k == "block" else out
    if not isinstance(d, dict):
        raise Reject
    if k == "dict":
        out, rej = {}, False
        for key, x in d.items():
            try:
                out[key] = ref(t[1], x, mode, models)
            except Reject:
                rej = True
        if rej:
            raise Reject
        return out
    out, rej = {}, False
    for i, s in enumerate(t[1]):
        if f"f{i}" not in d:
            rej = True
            continue
        try:
            out[f"f{i}"] = ref(s, d[f"f{i}"], mode, models)
        except Reject:
            rej = True
    if rej:
        raise Reject
    return models[id(t)].model_construct(**out)


def validation(rng, mon):
    leaves = list(LEAVES) + VLEAVES * 3
    while True:
        t = draw(rng, rng.randint(1, 4), leaves)
        if wrapped(t):
            break
    models: dict = {}
    T = pytype(t, models)
    M = create_model("Holder", value=(T, ...))
    ta = TypeAdapter(T)
    for _ in range(rng.randint(2, 6)):
        bad = rng.choice([0, 0, 0.1, 0.25])
        d = plain(rng, t, mon, bad)
        for mode in ("python", "json"):
            VALIDATED.clear()
            try:
                want = ("ok", ref(t, d, mode, models))
            except Reject:
                want = ("reject",)
            except Unspecified:
                continue
            if VALIDATED:
                mon.ev("custom_validated")
            for how in range(2):
                try:
                    if mode == "python":
                        got = ("ok", ta.validate_python(d) if how else M.model_validate({"value": d}).value)
                    else:
                        got = ("ok", ta.validate_json(json.dumps(d)) if how else M.model_validate_json(json.dumps({"value": d})).value)
                except ValidationError:
                    got = ("reject",)
                if got[0] != want[0]:
                    fail(f"{mode} data is {'accepted' if got[0] == 'ok' else 'rejected'} but does {'not ' if got[0] == 'ok' else ''}denote a valid value", type=sshape(t), data=d, got=got, want=want)
                if got[0] == "ok" and not deep_eq(got[1], want[1]):
                    fail(f"{mode} data validates to something else", type=sshape(t), data=d, got=got[1], want=want[1])
            mon.ev(("accepted:" if want[0] == "ok" else "rejected:") + mode)
            mon.sig("v", sshape(t), mode, want[0], repr(d)[:80])


WRAPS = {
    "tuple": tuple,
    "deque": collections.deque,
    "set": set,
    "frozenset": frozenset,
    "generator": lambda xs: (x for x in xs),
    "iterator": iter,
    "dict": lambda xs: dict.fromkeys(xs, 1),
    "keys": lambda xs: dict.fromkeys(xs).keys(),
    "values": lambda xs: dict(enumerate(xs)).values(),
    "map": lambda xs: map(lambda x: x, xs),
    "userlist": collections.UserList,
    "seq": Seq,
    "array": TypedArray,
    "str": lambda xs: "".join(map(str, xs)),
    "bytes": lambda xs: bytes(len(xs)),
    "range": lambda xs: range(len(xs)),
}


def collections_(rng, mon):
    """Other collections than lists offered for a block: what sequences accept is accepted alike, and no item is admitted unvalidated."""
    T = rng.choice([t for t in LEAVES if t not in (Tree, Point, Named, int | str)])
    xs = []
    for _ in range(rng.choice([0, 1, 2, 3, 5])):
        xs.append(rng.choice([None, "x", -1, 3, "abcd", 1.5, object()]) if rng.random() < 0.25 else rng.choice([0, 2, 4]) if T is Even else LEAVES[T](rng))
    name = rng.choice(list(WRAPS))
    make = WRAPS[name]
    outer = rng.randrange(4)
    W, R = Block[T], typing.Sequence[T]
    if outer == 1:
        W, R = Option[W], typing.Optional[R]
    elif outer == 2:
        W, R = list[W], list[R]
    elif outer == 3:
        W, R = Result[W, str], None
    data = (lambda: [make(xs)]) if outer == 2 else (lambda: {"ok": make(xs)}) if outer == 3 else lambda: make(xs)
    try:
        want = adapter(R).validate_python(data()) if R is not None else adapter(typing.Sequence[T]).validate_python(make(xs))
        want = want[0] if outer == 2 else want
        want = list(want)
    except ValidationError:
        want = None
    try:
        got = TypeAdapter(W).validate_python(data())
    except ValidationError:
        got = None
    if got is None:
        check(want is None, "a collection of valid items is rejected", type=W, kind=name, items=xs)
        mon.ev("rejected:collection")
    else:
        b = got.value if outer == 1 else got[0] if outer == 2 else got.ok if outer == 3 else got
        check(type(b) is Block, "validation of a block gives something else", type=W, kind=name, got=b)
        if want is not None:
            check(deep_eq(list(b), want), "a collection validates to something else", type=W, kind=name, items=xs, got=b, want=want)
        else:
            # not a sequence to pydantic: then at least its items must be valid
            for x in b:
                try:
                    leaf(T, x, "python")
                except Reject:
                    fail("an invalid item was admitted unvalidated", type=W, kind=name, items=xs, got=b)
        mon.ev("accepted:collection")
    mon.sig("c", name, str(T), outer, len(xs), got is None)


def wrapped_input(rng, mon):
    """Model construction with wrapped values, next to plain and default values; bare types; model copies."""
    v = rng.choice([0, 1, "", "a", False, [1, None], {"k": None}, 1.5])

    class M(BaseModel):
        o: Option = Nothing
        r: Result = Ok(0)
        b: Block = Block([])
        oi: Option[int] = Nothing
        rs: Result[int, str] = Error("e")
        bi: Block[int] = Block([])

    m = M()
    check(m.o is Nothing or m.o == Nothing, "default option", got=m.o)
    vals = dict(
        o=rng.choice([Nothing, Some(v)]),
        r=rng.choice([Ok(v), Error(v), Ok(None)]),
        b=Block([v] * rng.randrange(3)),
        oi=rng.choice([Nothing, Some(0), Some(7)]),
        rs=rng.choice([Ok(0), Error(""), Error("x")]),
        bi=Block([rng.randrange(5) for _ in range(rng.randrange(4))]),
    )
    m = M(**vals)
    for k, w in vals.items():
        check(deep_eq(getattr(m, k), w), "a model holds something else than it was given", field=k, got=getattr(m, k), want=w)
    for back in (M.model_validate(m.model_dump()), M.model_validate_json(m.model_dump_json()), M.model_validate(m.model_dump(mode="json")), m.model_copy(), m.model_copy(deep=True), M.model_validate(m)):
        for k, w in vals.items():
            check(deep_eq(getattr(back, k), w), "a model with bare wrapped types does not round-trip", field=k, got=getattr(back, k), want=w)
    check(M.model_validate(m.model_dump()) == m, "equal contents, unequal models")
    mon.ev("wrapped_input")
    mon.sig("w", repr(vals))


def untyped_value(rng, d=2):
    """A value for a place of unknown type, and its plain form."""
    k = rng.randrange(9) if d else rng.randrange(3)
    if k < 3:
        v = rng.choice([0, 1, "", "a", True, False, 1.5, [1, "x"], {"k": 2}, []])
        return v, v
    if k == 3:
        x = rng.randint(-3, 3)
        return Point(x=x, y=1), {"x": x, "y": 1}
    if k == 4:
        return Nothing, None
    v, p = untyped_value(rng, d - 1)
    if k == 5:
        return Some(v), p
    if k == 6:
        return Ok(v), {"tag": "ok", "ok": p}
    if k == 7:
        return Error(v), {"tag": "error", "error": p}
    w, q = untyped_value(rng, d - 1)
    return rng.choice([(Block([v, w]), [p, q]), (Block([]), [])])


def untyped(rng, mon):
    """Contents of unknown type are dumped in their plain form."""
    A = typing.Any
    kind = rng.choice(["option", "result", "block"])
    v, p = untyped_value(rng)
    typed = None
    if kind == "option":
        T = rng.choice([Option, Option[A]])
        w, q = rng.choice([(Some(v), p), (Nothing, None)])
    elif kind == "block":
        T = rng.choice([Block, Block[A]])
        u, r = untyped_value(rng)
        w, q = rng.choice([(Block([v, u]), [p, r]), (Block([]), [])])
    else:
        side = rng.choice(["ok", "error"])
        n = rng.randrange(5)
        T, typed = rng.choice([(Result, None), (Result[A, A], None), (Result[int, A], ("ok", n, n)), (Result[A, int], ("error", n, n)), (Result[Point, A], ("ok", Point(x=n), {"x": n, "y": 0})), (Result[A, Option[Point]], ("error", Some(Point(x=n)), {"x": n, "y": 0}))])
        if typed and typed[0] == side:
            v, p = typed[1:]
        w, q = (Ok if side == "ok" else Error)(v), {"tag": side, side: p}
    ta = adapter(T) if T not in (Option, Result, Block) else TypeAdapter(T)
    M = create_model("H", f=(T, ...))
    m = M(f=w)
    for how, got in (
        ("python", ta.dump_python(w)),
        ("pyjson", ta.dump_python(w, mode="json")),
        ("json", json.loads(ta.dump_json(w))),
        ("model", m.model_dump()["f"]),
        ("model json", json.loads(m.model_dump_json())["f"]),
    ):
        check(deep_eq(got, q), f"contents of unknown type are dumped otherwise than in their plain form ({how})", type=T, value=w, got=got, want=q)
    mon.ev("untyped")
    mon.sig("u", str(T), repr(w))


SCALE = 6
WORKLOADS = {
    "roundtrip": Workload(roundtrip, 2400, 40000),
    "validation": Workload(validation, 2400, 40000),
    "untyped": Workload(untyped, 800, 8000),
    "collections": Workload(collections_, 1500, 15000),
    "wrapped_input": Workload(wrapped_input, 400, 5000),
}
