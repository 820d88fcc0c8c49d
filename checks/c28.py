from __future__ import annotations

import time

from expression import Ok
from expression.collections import Block
from expression.extra import parser as P
from expression.extra.parser import Parser

from vf.core import Workload, check, fail
from vf.gen import same

from .parselib import FAIL, TooMuch, agrees, gen, meaning, observe

PROP = "C28"
RULE = (
    "A case parses a text of up to 150,000 characters with a repetition, separated list, sequence, literal, number or nested repetition, at the default recursion limit, with instrumented leaf parsers and a text object that counts the characters copied out of it; the value and remaining text must be those of the "
    "grammar (also when the text ends early or continues), the number of leaf invocations and of copied characters must stay within a constant factor of the text's length, and CPU time must not grow quadratically. Repetitions of random parsers that may succeed without consuming must end, "
    "with the meaning a reference interpreter gives. Non-trivial: at least 1000 items parsed, or a zero-width success inside a repetition; distinct by form and length."
)
ASSUMPTIONS = ["numbers have at most 4300 digits (the interpreter's own limit)", "recursion of a user's own grammar is bounded by the interpreter's recursion limit"]
REQUIRED = ["many", "many1", "sep_by", "sequence", "pstring", "pint", "pfloat", "digits", "nested", "zero_width", "growth", "failing_late", "whitespace", "counted"]


class Text(str):
    """Counts the characters copied out of it."""

    copied = 0
    ops = 0

    def __getitem__(self, i):
        r = str.__getitem__(self, i)
        self.ops += 1
        self.copied += len(r)
        if isinstance(i, slice) and len(r) > 1:
            t = Text(r)
            t.parent = self
            return t
        return r

    def __iter__(self):
        self.copied += len(self)
        return str.__iter__(self)


def counted(p, c):
    def run(inp):
        c[0] += 1
        return p.run(inp)

    return Parser(run, "counted")


def form(rng, n):
    """(name, parser, text, expected value, expected end, leaf counter, items)"""
    c = [0]
    a = counted(P.pchar("a"), c)
    comma = counted(P.pchar(","), c)
    tail = rng.choice(["", "", "!", "b" * 50, "aX"[1:]])
    k = rng.choice(["many", "many", "many1", "sep_by", "sep_by1", "sequence", "pstring", "digits", "whitespace", "many_or", "many_pair", "nested", "sep_ints", "many_opt", "many_string", "between", "bind_many"])
    if k in ("digits", "whitespace", "sep_ints"):
        n = min(n, 20000)
    s = "a" * n
    if k in ("many", "many1"):
        return k, getattr(P, k)(a), s + tail, Block(["a"] * n), n, c
    if k in ("sep_by", "sep_by1"):
        s = ",".join("a" * n)
        if rng.random() < 0.3:
            tail = "," + tail
        return k, getattr(P, k)(a, comma), s + tail, Block(["a"] * n), len(s), c
    if k == "sequence":
        n = min(n, 30000)
        return k, P.sequence(Block([a] * n)), "a" * n + tail, Block(["a"] * n), n, c
    if k == "pstring":
        n = min(n, 30000)
        s = ("abc" * n)[:n]
        c = None
        return k, P.pstring(s), s + tail, s, n, c
    if k == "digits":
        s = ("1234567890" * (n // 10 + 1))[:n]
        return k, P.digits, s + tail, Block(list(s)), n, None
    if k == "whitespace":
        s = (" \t\n\r" * (n // 4 + 1))[:n]
        return k, P.whitespace, s + tail, Block(list(s)), n, None
    if k == "many_or":
        b = counted(P.pchar("b"), c)
        s = ("ab" * n)[:n]
        return k, P.many(b.or_else(a)), s + "!" , Block(list(s)), n, c
    if k == "many_pair":
        n = max(1, n // 2)
        return k, P.many(a.and_then(comma)), "a," * n + tail, Block([("a", ",")] * n), 2 * n, c
    if k == "nested":
        m = max(1, int(n**0.5))
        line = "a" * m + ","
        return k, P.many(P.many1(a).then_ignore(comma)), line * m + tail, Block([Block(["a"] * m)] * m), (m + 1) * m, c
    if k == "sep_ints":
        m = max(1, n // 8)
        xs = [i % 1000 - 500 for i in range(m)]
        s = ",".join(map(str, xs))
        return k, P.sep_by(P.pint, comma), s + rng.choice(["", "!", ","]), Block(xs), len(s), None
    if k == "many_opt":
        # an optional that never fails: ends at the first place where nothing is consumed
        from expression import Some

        return k, P.many(P.opt(a)), s + tail, Block([Some("a")] * n), n, c
    if k == "many_string":
        m = max(1, n // 4)
        return k, P.many(P.pstring("aaab")), "aaab" * m + tail, Block(["aaab"] * m), 4 * m, None
    if k == "between":
        return k, P.many(a).between(comma, comma), "," + s + "," + tail, Block(["a"] * n), n + 2, c
    return "many", P.many(a.bind(lambda v: P.preturn(v))), s + tail, Block(["a"] * n), n, c


def long_parses(rng, mon):
    n = rng.choice([1000, 5000, 20000, 50000, 150000])
    k, p, s, want, end, c = form(rng, n)
    t = Text(s)
    r = p.run((t, 0))
    got = observe(r)
    if not agrees(got, s, (want, end)):
        fail(f"a long parse by {k} differs from the short one's meaning", n=n, got=str(got)[:200], end=end)
    if c is not None:
        check(c[0] <= 4 * len(s) + 50, "a long parse invokes its parsers more than a constant number of times per character", kind=k, n=len(s), invocations=c[0])
        mon.ev("counted", c[0])
    check(t.copied <= 40 * len(s) + 1000, "a long parse copies its text again and again", kind=k, n=len(s), copied=t.copied)
    r = p(s)
    check(r.is_ok() and same(r.ok, want), "a long parse by call", kind=k, n=n)
    mon.ev({"sep_by1": "sep_by", "sep_ints": "sep_by", "many_or": "many", "many_pair": "many", "many_opt": "zero_width", "many_string": "many", "between": "many"}.get(k, k))
    mon.sig(k, n, len(s) - end)
    mon.sample([k, n])


def late_failures(rng, mon):
    """The text ends or breaks late: the right outcome and position all the same."""
    n = rng.choice([1000, 10000, 50000])
    k = rng.choice(["pstring", "sequence", "sep_trail", "many_then", "many1_none", "or_after_long"])
    s = "a" * n
    if k == "pstring":
        n = min(n, 20000)
        lit = "a" * n
        for text, ok in ((lit[:-1], False), (lit[:-1] + "b", False), ("b" + lit[1:], False), (lit + "b", True), (lit, True)):
            r = P.pstring(lit).run((text, 0))
            check(r.is_ok() == ok, "a long literal", n=n, ok=ok, got=str(r)[:100])
    elif k == "sequence":
        n = min(n, 20000)
        at = rng.randrange(n)
        ps = Block([P.pchar("a")] * n)
        text = s[:at] + "b" + s[at + 1 :]
        check(P.sequence(ps).run((text, 0)).is_error(), "a long sequence with a wrong character succeeded", n=n, at=at)
        check(P.sequence(ps).run((s[:at], 0)).is_error(), "a long sequence succeeded on a short text", n=n, at=at)
    elif k == "sep_trail":
        text = ",".join(s) + ",b"
        r = P.sep_by(P.pchar("a"), P.pchar(",")).run((text, 0))
        check(r.is_ok() and r.ok[1][1] == 2 * n - 1 and len(r.ok[0]) == n, "a long separated list with a dangling separator", n=n, got=str(r)[:100])
    elif k == "many_then":
        p = P.many(P.pchar("a")).then_ignore(P.pchar("b"))
        check(p.run((s, 0)).is_error(), "a long repetition followed by a missing character succeeded", n=n)
        r = p.run((s + "b!", 0))
        check(r.is_ok() and r.ok[1][1] == n + 1, "a long repetition followed by a character", n=n)
    elif k == "many1_none":
        check(P.many1(P.pchar("b")).run((s, 0)).is_error(), "many1 succeeded on nothing", n=n)
        r = P.many(P.pchar("b")).run((s, 0))
        check(r.is_ok() and len(r.ok[0]) == 0 and r.ok[1][1] == 0, "many consumed something", n=n)
        r = P.many1(P.pchar("a")).run((s, n - 1))
        check(r.is_ok() and len(r.ok[0]) == 1 and r.ok[1][1] == n, "many1 near the end", n=n)
    else:
        p = P.many(P.pchar("a")).then_ignore(P.pchar("b")).or_else(P.many(P.any_of("ac")))
        r = p.run((s + "c", 0))
        check(r.is_ok() and r.ok[1][1] == n + 1 and len(r.ok[0]) == n + 1, "an alternative after a long failed one does not start at the same position", n=n)
    mon.ev("failing_late")
    mon.sig(k, n)


def numbers(rng, mon):
    n = rng.choice([100, 1000, 4000, 4299])
    s = "".join(rng.choice("0123456789") for _ in range(n))
    sign = rng.choice(["", "-"])
    r = P.pint.run((sign + s + "x", 0))
    check(r.is_ok() and r.ok[0] == int(sign + s) and r.ok[1][1] == len(sign + s), "a long integer", n=n, got=str(r)[:80])
    mon.ev("pint")
    k = rng.randint(1, n - 1)
    f = sign + s[:k] + "." + s[k:]
    r = P.pfloat.run((f + "x", 0))
    check(r.is_ok() and r.ok[0] == float(f) and r.ok[1][1] == len(f), "a long float", n=n, got=str(r)[:80])
    mon.ev("pfloat")
    m = rng.choice([1000, 5000])
    s = "1" * m + "." + "2" * m
    r = P.pfloat.run((s, 0))
    check(r.is_ok() and r.ok[0] == float(s) and r.ok[1][1] == len(s), "a float of very many digits", m=m, got=str(r)[:80])
    mon.sig("num", n, k, sign)


def zero_width(rng, mon):
    """Repetitions of parsers that may succeed without consuming end, with the right meaning."""
    from .parselib import Node, text_for

    pool = []
    inner = gen(rng, rng.choice([1, 2, 3, 5]), pool)
    zw = rng.choice([lambda x: Node("opt", [x]), lambda x: Node("many", [x]), lambda x: Node("or_else", [x, Node("preturn", (), (0,))]), lambda x: Node("sep_by", [x, x]), lambda x: Node("sequence", []), lambda x: Node("pstring", (), "")])(inner)
    g = rng.choice([lambda: Node("many", [zw]), lambda: Node("many1", [zw]), lambda: Node("sep_by", [zw, zw]), lambda: Node("sep_by1", [zw, Node("opt", [Node("pchar", (), ",")])]), lambda: Node("many", [Node("many", [zw])])])()
    for _ in range(4):
        s = text_for(rng, g) if rng.random() < 0.7 else text_for(rng, g) * 3
        try:
            want = meaning(g, s, 0)
        except TooMuch:
            continue
        got = observe(g.lib.run((s, 0)))
        if not agrees(got, s, want):
            fail("a repetition of a parser that may consume nothing", grammar=g, text=s, got=got, want=want)
        check(want is not FAIL or g.kind in ("many1", "sep_by1"), "a repetition failed", grammar=g, text=s)
        mon.ev("zero_width")
        mon.sig(repr(g), s[:10])


def growth(rng, mon):
    """CPU time over a range of lengths stays far from quadratic."""
    k = rng.choice(["many", "many0", "sep", "digits", "pairs", "string", "nested", "sequence", "literal"])

    def cost(n):
        s = "a" * n
        if k == "sequence":
            p = P.sequence(Block([P.pchar("a")] * n))
        elif k == "literal":
            p = P.pstring(s)
        elif k == "many0":
            p = P.many(P.pchar("a"))
        elif k == "many":
            p = P.many1(P.pchar("a"))
        elif k == "sep":
            p, s = P.sep_by1(P.pchar("a"), P.pchar(",")), ",".join(s)
        elif k == "digits":
            p, s = P.digits, "7" * n
        elif k == "pairs":
            p = P.many(P.pchar("a").and_then(P.opt(P.pchar("b"))))
        elif k == "string":
            p = P.many(P.pstring("aa"))
        else:
            p, s = P.many(P.many1(P.pchar("a")).then_ignore(P.opt(P.pchar(",")))), ("a" * 9 + ",") * (n // 10)
        best = None
        for _ in range(2):
            t = time.process_time()
            r = p.run((s, 0))
            d = time.process_time() - t
            best = d if best is None else min(best, d)
            if d > 6:
                break
        check(r.is_ok() and r.ok[1][1] >= len(s) - 1, "a long parse stopped early", kind=k, n=n)
        return best

    n = 6000 if k == "digits" else 20000
    seen = []
    for _ in range(3):
        small, big = cost(n), cost(10 * n)
        seen.append((small, big))
        if big <= 1.5 or big <= 35 * small:
            break
    else:
        fail("the cost of a parse grows with the square of the text's length", kind=k, seconds=seen)
    mon.ev("growth")
    mon.sig("growth", k)


_ = Ok

WORKLOADS = {
    "zero_width": Workload(zero_width, 4000, 80000),
    "long_parses": Workload(long_parses, 140, 2000, cpu_s=120),
    "late_failures": Workload(late_failures, 80, 1000, cpu_s=120),
    "numbers": Workload(numbers, 80, 1000),
    "growth": Workload(growth, 32, 96, cpu_s=400),
}
