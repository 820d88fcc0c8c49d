"""Random grammars: a library parser and a reference interpreter from one syntax tree."""

from __future__ import annotations

import string

from expression import Nothing, Ok, Result, Some
from expression.collections import Block
from expression.extra import parser as P
from expression.extra.parser import Parser

from vf.gen import same, value

FAIL = None  # the reference's failure


class Node:
    """kind, children, payload; `lib` is the library parser, built once and shared."""

    __slots__ = ("kind", "kids", "arg", "_lib", "alt")

    def __init__(self, kind, kids=(), arg=None, alt=0):
        self.kind, self.kids, self.arg, self.alt = kind, tuple(kids), arg, alt
        self._lib = None

    def __repr__(self):
        inner = ", ".join([repr(self.arg)] * (self.arg is not None) + [repr(k) for k in self.kids])
        return f"{self.kind}({inner})"

    @property
    def lib(self):
        if self._lib is None:
            self._lib = build(self)
        return self._lib


def tag_value(v):
    return ("mapped", v)


def by_value(v, arg):
    """A mapper whose results may be anything: falsy values, options, parsers, functions."""
    vs, mode = arg
    return vs[pick(v, len(vs))] if mode else v


def build(n):
    k, a = n.kind, n.arg
    c = [x.lib for x in n.kids]
    alt = n.alt
    if k == "pchar":
        return [P.pchar, Parser.pchar][alt % 2](a)
    if k == "any_of":
        return [P.any_of, Parser.any_of][alt % 2](a)
    if k == "pstring":
        return P.pstring(a)
    if k == "preturn":
        return P.preturn(a[0])
    if k == "fail":
        return [P.fail, Parser.fail][alt % 2](a)
    if k == "and_then":
        return c[0].and_then(c[1]) if alt % 2 else P.and_then(c[1])(c[0])
    if k == "then_ignore":
        return c[0].then_ignore(c[1]) if alt % 2 else P.then_ignore(c[1])(c[0])
    if k == "ignore_then":
        return c[0].ignore_then(c[1]) if alt % 2 else P.ignore_then(c[1])(c[0])
    if k == "or_else":
        return c[0].or_else(c[1]) if alt % 2 else P.or_else(c[0])(c[1])
    if k == "choice":
        return P.choice(Block(c))
    if k == "map":
        return c[0].map(tag_value) if alt % 2 else P.map(tag_value)(c[0])
    if k == "map_to":
        f = lambda v: by_value(v, a)  # noqa: E731
        return c[0].map(f) if alt % 2 else P.map(f)(c[0])
    if k == "starmap":
        f = lambda x, y: (y, x)  # noqa: E731
        return c[0].starmap(f) if alt % 2 else P.starmap(f)(c[0])
    if k == "apply":
        return P.apply(P.map(lambda x: (lambda y: [x, y]))(c[0]), c[1])
    if k == "lift2":
        return P.lift2(lambda x: lambda y: [x, y])(c[0])(c[1])
    if k == "sequence":
        return P.sequence(Block(c))
    if k == "many":
        return P.many(c[0])
    if k == "many1":
        return P.many1(c[0])
    if k == "sep_by":
        return P.sep_by(c[0], c[1])
    if k == "sep_by1":
        return P.sep_by1(c[0], c[1])
    if k == "opt":
        return c[0].opt() if alt % 2 else P.opt(c[0])
    if k == "between":
        return c[2].between(c[0], c[1]) if alt % 2 else P.between(c[0])(c[1])(c[2])
    if k == "ignore":
        return c[0].ignore() if alt % 2 else P.ignore(c[0])
    if k == "bind":
        f = lambda v: c[1 + pick(v, len(c) - 1)]  # noqa: E731
        return c[0].bind(f) if alt % 2 else P.bind(f)(c[0])
    if k == "starts_with":
        return P.starts_with(P.map(text)(c[0]))(P.map(text)(c[1]))
    if k == "rec":  # a parenthesised recursive grammar: ( body* ) or the kid
        holder = []
        lazy = Parser(lambda inp: holder[0].run(inp), "rec")
        holder.append(P.or_else(P.between(P.pchar("("))(P.pchar(")"))(P.many(lazy)))(c[0]))
        return holder[0]
    if k == "custom":

        def run(inp):
            s, pos = inp
            return Ok((s[pos : pos + a], (s, pos + a))) if pos + a <= len(s) else Result.Error("short")

        return Parser(run)
    return {"pint": P.pint, "pfloat": P.pfloat, "digits": P.digits, "whitespace": P.whitespace, "parse_digit": P.parse_digit, "parse_letters": P.parse_letters, "parse_lowercase": P.parse_lowercase}[k]


def text(v):
    return v if isinstance(v, str) else "".join(ch for ch in repr(v) if ch.isalnum())[:2]


def pick(v, n):
    s = v if isinstance(v, str) else type(v).__name__
    return (len(s) + (ord(s[0]) if s else 0)) % n


CLASSES = {"parse_digit": string.digits, "parse_letters": string.ascii_letters, "parse_lowercase": string.ascii_lowercase}


def span(s, pos, chars):
    i = pos
    while i < len(s) and s[i] in chars:
        i += 1
    return i


class TooMuch(Exception):
    """The grammar backtracks exponentially on this text."""


_fuel = [0]


def ref(n, s, pos):
    """(value, position) or FAIL, by the meaning of the grammar."""
    _fuel[0] -= 1
    if _fuel[0] < 0:
        raise TooMuch
    k, a, c = n.kind, n.arg, n.kids
    if k == "pchar":
        return (a, pos + 1) if pos < len(s) and s[pos] == a else FAIL
    if k == "any_of":
        return (s[pos], pos + 1) if pos < len(s) and s[pos] in tuple(a) else FAIL
    if k == "pstring":
        return (a, pos + len(a)) if s[pos : pos + len(a)] == a else FAIL
    if k == "preturn":
        return (a[0], pos)
    if k == "fail":
        return FAIL
    if k in ("and_then", "then_ignore", "ignore_then", "apply", "lift2", "starts_with"):
        r = ref(c[0], s, pos)
        if r is FAIL:
            return FAIL
        q = ref(c[1], s, r[1])
        if q is FAIL:
            return FAIL
        x, y = r[0], q[0]
        v = {"and_then": lambda: (x, y), "then_ignore": lambda: x, "ignore_then": lambda: y, "apply": lambda: [x, y], "lift2": lambda: [x, y], "starts_with": lambda: text(x)[: len(text(y))] == text(y)}[k]()
        return (v, q[1])
    if k in ("or_else", "choice"):
        for kid in c:
            r = ref(kid, s, pos)
            if r is not FAIL:
                return r
        return FAIL
    if k in ("map", "starmap", "ignore", "map_to"):
        r = ref(c[0], s, pos)
        if r is FAIL:
            return FAIL
        return ({"map_to": lambda: by_value(r[0], a), "map": lambda: ("mapped", r[0]), "starmap": lambda: (r[0][1], r[0][0]), "ignore": lambda: None}[k](), r[1])
    if k == "sequence":
        out = []
        for kid in c:
            r = ref(kid, s, pos)
            if r is FAIL:
                return FAIL
            out.append(r[0])
            pos = r[1]
        return (Block(out), pos)
    if k in ("many", "many1", "sep_by", "sep_by1"):
        out = []
        if k != "many":
            r = ref(c[0], s, pos)
            if r is FAIL:
                return (Block([]), pos) if k == "sep_by" else FAIL
            out.append(r[0])
            pos = r[1]
        while True:
            start = pos
            if k.startswith("sep"):
                q = ref(c[1], s, pos)
                if q is FAIL:
                    break
                r = ref(c[0], s, q[1])
            else:
                r = ref(c[0], s, pos)
            if r is FAIL or r[1] == start:
                break
            out.append(r[0])
            pos = r[1]
        return (Block(out), pos)
    if k == "opt":
        r = ref(c[0], s, pos)
        return (Nothing, pos) if r is FAIL else (Some(r[0]), r[1])
    if k == "between":
        r = ref(c[0], s, pos)
        r = r and ref(c[2], s, r[1])
        if r is FAIL:
            return FAIL
        q = ref(c[1], s, r[1])
        return FAIL if q is FAIL else (r[0], q[1])
    if k == "bind":
        r = ref(c[0], s, pos)
        return FAIL if r is FAIL else ref(c[1 + pick(r[0], len(c) - 1)], s, r[1])
    if k == "rec":
        if pos < len(s) and s[pos] == "(":
            out, p = [], pos + 1
            while True:
                r = ref(n, s, p)
                if r is FAIL or r[1] == p:
                    break
                out.append(r[0])
                p = r[1]
            if p < len(s) and s[p] == ")":
                return (Block(out), p + 1)
        return ref(c[0], s, pos)
    if k == "custom":
        return (s[pos : pos + a], pos + a) if pos + a <= len(s) else FAIL
    if k in CLASSES:
        return (s[pos], pos + 1) if pos < len(s) and s[pos] in CLASSES[k] else FAIL
    if k in ("digits", "whitespace"):
        e = span(s, pos, string.digits if k == "digits" else string.whitespace)
        _fuel[0] -= e - pos  # such a parser works character by character
        return (Block(list(s[pos:e])), e) if e > pos else FAIL
    if k in ("pint", "pfloat"):
        i = pos + 1 if s[pos : pos + 1] == "-" else pos
        e = span(s, i, string.digits)
        _fuel[0] -= e - i
        if e == i:
            return FAIL
        if k == "pint":
            return (int(s[pos:e]), e)
        if s[e : e + 1] == ".":
            f = span(s, e + 1, string.digits)
            if f > e + 1:
                e = f
        return (float(s[pos:e]), e)
    raise AssertionError(k)


def meaning(n, s, pos, fuel=4000):
    """ref within bounds; TooMuch for a text on which the grammar backtracks too much."""
    _fuel[0] = fuel
    return ref(n, s, pos)


def sample(rng, n):
    """Some text the grammar is likely to accept."""
    k, a, c = n.kind, n.arg, n.kids
    if k in ("pchar", "pstring"):
        return a
    if k == "any_of":
        return rng.choice(a)
    if k in ("preturn", "fail"):
        return ""
    if k in ("or_else", "choice"):
        return sample(rng, rng.choice(c))
    if k == "bind":
        return sample(rng, c[0]) + sample(rng, rng.choice(c[1:]))
    if k in ("many", "many1"):
        return "".join(sample(rng, c[0]) for _ in range(rng.choice([0, 1, 2, 4])))
    if k in ("sep_by", "sep_by1"):
        m = rng.choice([0, 1, 2, 3])
        return "".join(x for i in range(m) for x in (([sample(rng, c[1])] if i else []) + [sample(rng, c[0])]))
    if k == "opt":
        return sample(rng, c[0]) if rng.random() < 0.6 else ""
    if k == "between":
        return sample(rng, c[0]) + sample(rng, c[2]) + sample(rng, c[1])
    if k == "rec":
        if rng.random() < 0.5:
            return "(" + "".join(sample(rng, n) for _ in range(rng.choice([0, 1, 2]))) + ")"
        return sample(rng, c[0])
    if k == "custom":
        return "".join(rng.choice(ALPHA) for _ in range(a))
    if k in CLASSES:
        return rng.choice(CLASSES[k])
    if k == "digits":
        return str(rng.randrange(1000))
    if k == "whitespace":
        return rng.choice([" ", "\t\n", "  ", "\r", "\x0b"])
    if k == "pint":
        return rng.choice(["0", "-0", "007", "-12", "5", str(rng.randrange(10**12)), "-"])
    if k == "pfloat":
        return rng.choice(["0", "-0", "1.5", "-2.25", "3.", "00.10", ".5", str(rng.randrange(100)) + "." + str(rng.randrange(100)), "-0.0"])
    return "".join(sample(rng, x) for x in c)


ALPHA = "ab(),-01. x\né\x00٣"


def gen(rng, size, pool):
    """A random grammar; parts of it are shared through the pool."""
    if pool and rng.random() < 0.15:
        return rng.choice(pool)
    n = gen1(rng, size, pool)
    pool.append(n)
    return n


def map_target(rng):
    r = rng.random()
    if r < 0.15:
        return rng.choice([P.pchar("a"), P.preturn(1), P.fail("x")])
    if r < 0.3:
        return rng.choice([Result.Error("e"), Result.Error(""), Ok(("a", ("a", 0))), ("x", 1), ("a", ("b", 2)), Ok(1), Nothing, None, "", Block([])])
    return value(rng, 1)


def gen1(rng, size, pool):
    alt = rng.randrange(2)
    if size <= 1:
        k = rng.choice(["pchar"] * 4 + ["any_of", "any_of", "pstring", "pstring", "preturn", "fail", "pint", "pfloat", "digits", "whitespace", "parse_digit", "parse_letters", "parse_lowercase", "custom"])
        arg = None
        if k == "pchar":
            arg = rng.choice(ALPHA)
            if rng.random() < 0.03:
                arg = rng.choice(["", "ab"])
        elif k == "any_of":
            arg = "".join(rng.choice(ALPHA) for _ in range(rng.choice([1, 2, 3, 5])))
        elif k == "pstring":
            arg = "".join(rng.choice(ALPHA) for _ in range(rng.choice([0, 1, 2, 3])))
        elif k == "preturn":
            arg = (value(rng, 1),)
        elif k == "fail":
            arg = rng.choice(["no", "", "nope"])
        elif k == "custom":
            arg = rng.choice([0, 1, 2])
        return Node(k, (), arg, alt)
    k = rng.choice(
        ["and_then", "and_then", "then_ignore", "ignore_then", "or_else", "or_else", "choice", "map", "map_to", "starmap", "apply", "lift2", "sequence", "many", "many", "many1", "sep_by", "sep_by1", "opt", "between", "ignore", "bind", "starts_with", "rec"]
    )
    if k in ("map", "many", "many1", "opt", "ignore", "rec"):
        return Node(k, [gen(rng, size - 1, pool)], None, alt)
    if k == "map_to":
        return Node(k, [gen(rng, size - 1, pool)], ([map_target(rng) for _ in range(rng.choice([1, 2, 3]))], rng.random() < 0.9), alt)
    if k == "starmap":
        h = (size - 1) // 2
        return Node(k, [Node("and_then", [gen(rng, h, pool), gen(rng, h, pool)], None, rng.randrange(2))], None, alt)
    if k in ("choice", "sequence"):
        m = rng.choice([1, 2, 3, 4])
        if k == "sequence" and rng.random() < 0.05:
            m = 0
        return Node(k, [gen(rng, (size - 1) // m, pool) for _ in range(m)], None, alt)
    m = {"between": 3, "bind": rng.choice([2, 3])}.get(k, 2)
    return Node(k, [gen(rng, (size - 1) // m, pool) for _ in range(m)], None, alt)


def text_for(rng, n):
    r = rng.random()
    if r < 0.1:
        return "".join(rng.choice(ALPHA) for _ in range(rng.randrange(8)))
    s = sample(rng, n)
    if r < 0.45 and s:
        for _ in range(rng.choice([1, 1, 2])):
            i = rng.randrange(len(s) + 1)
            m = rng.randrange(4)
            if m == 0:
                s = s[:i] + s[i + 1 :]
            elif m == 1:
                s = s[:i] + rng.choice(ALPHA) + s[i:]
            elif m == 2:
                s = s[:i]
            else:
                s = s[:i] + rng.choice(ALPHA) + s[i + 1 :]
    if rng.random() < 0.4:
        s += "".join(rng.choice(ALPHA) for _ in range(rng.randrange(4)))
    return s


def observe(r):
    """The outcome of a run as (value, (text, position)) or FAIL, plus well-formedness."""
    if not isinstance(r, Result):
        return ("not a result", r)
    if r.tag == "error":
        return FAIL if isinstance(r.error, str) else ("error is no text", r.error)
    return r.ok


def agrees(got, s, want):
    if want is FAIL or got is FAIL:
        return got is FAIL and want is FAIL
    if not (isinstance(got, tuple) and len(got) == 2 and type(got[1]) is tuple and len(got[1]) == 2 and same(got[0], want[0])):
        return False
    # What is left to parse decides, not where the text is kept from
    left, at = got[1]
    return (left == s and at == want[1]) or (at >= 0 and left[at:] == s[want[1] :])
