from __future__ import annotations

import sys

from expression.extra import parser as P

from vf.core import Workload, check, fail
from vf.gen import Boom, big, boom, Tok, same
from vf.sched import Deadlock, Scheduler, install_lock_shims

from .parselib import ALPHA, FAIL, Node, agrees, gen, sample, meaning, observe, text_for, TooMuch

install_lock_shims()

PROP = "C27"
RULE = (
    "A case makes a random grammar (1-30 nodes over all combinators, function and method forms, shared sub-parsers, recursive and dependent parsers, hand-written primitives), builds the library parser from it and runs it on 1-8 texts sampled from the grammar, mutated or random "
    "(empty, control and non-ASCII characters included), some of them of a thousand repetitions, parts or alternatives, and every leaf parser on characters at and beyond the edges of its class, through __call__ and through run at several start positions, repeatedly and from preempted threads; value, remaining text and position, or failure, must agree with a reference interpreter of the grammar. "
    "Non-trivial: an accepted text, or a rejected one that differs from an accepted one by a small edit; distinct by grammar and outcome."
)
ASSUMPTIONS = ["error texts are not specified beyond being text", "grammars without left recursion"]
REQUIRED = ["accepted", "rejected", "offset", "reused", "threaded", "remaining_left", "recursive", "callback_raises", "long", "classes"] + [
    "k_" + k
    for k in (
        "pchar any_of pstring preturn fail and_then then_ignore ignore_then or_else choice map map_to starmap apply lift2 sequence many many1 sep_by sep_by1 opt between ignore bind starts_with rec custom pint pfloat digits whitespace parse_digit parse_letters parse_lowercase"
    ).split()
]


def kinds(n, out):
    out.add(n.kind)
    for c in n.kids:
        kinds(c, out)
    return out


def one(g, s, pos, mon, where):
    try:
        want = meaning(g, s, pos, 4000 + 30 * len(s))
    except TooMuch:
        mon.ev("skipped_exponential")
        return FAIL
    got = observe(g.lib.run((s, pos)))
    if not agrees(got, s, want):
        fail(f"{where}: the parse differs from the grammar's meaning", grammar=g, text=s, start=pos, got=got, want=want)
    if pos == 0:
        r = g.lib(s)
        if want is FAIL:
            check(r.is_error() and isinstance(r.error, str), "a failed parse did not report an error", grammar=g, text=s, got=r)
        else:
            check(r.is_ok() and same(r.ok, want[0]), "calling the parser gives another value than running it", grammar=g, text=s, got=r, want=want)
    return want


def grammars(rng, mon):
    pool = []
    g = gen(rng, rng.choice([1, 2, 3, 5, 8, 13, 20, 30]), pool)
    ks = kinds(g, set())
    ok = 0
    for _ in range(rng.choice([2, 4, 8])):
        s = text_for(rng, g)
        pos = 0
        if rng.random() < 0.25:
            pre = text_for(rng, g)
            s, pos = pre + s, len(pre)
            mon.ev("offset")
        want = one(g, s, pos, mon, "a parse")
        if want is FAIL:
            mon.ev("rejected")
        else:
            ok += 1
            mon.ev("accepted")
            if want[1] < len(s):
                mon.ev("remaining_left")
            if want[1] > pos:
                for k in ks:
                    mon.ev("k_" + k)
            else:
                for k in ks & {"preturn", "fail"}:
                    mon.ev("k_" + k)
                if ks == {"fail"}:
                    mon.ev("k_fail")
        if rng.random() < 0.2:
            one(g, s, pos, mon, "a repeated parse")
            mon.ev("reused")
        mon.sig(repr(g), want is FAIL, s[:12])
    if "rec" in ks:
        mon.ev("recursive")
    # parts are usable on their own after being used inside
    if len(pool) > 1:
        sub = rng.choice(pool)
        one(sub, text_for(rng, sub), 0, mon, "a parse by a part")
    mon.sample(repr(g)[:200])


def exhaustive(rng, mon):
    """Small grammars on all short texts over a small alphabet."""
    import itertools

    pool = []
    g = gen(rng, rng.choice([2, 3, 5]), pool)
    alpha = rng.sample("ab(),-01. ", 3)
    for n in range(4):
        for t in itertools.product(alpha, repeat=n):
            s = "".join(t)
            w = one(g, s, 0, mon, "a parse")
            mon.ev("rejected" if w is FAIL else "accepted")
    mon.sig("exh", repr(g), alpha)


def long(rng, mon):
    """Long texts, many repetitions, alternatives and parts."""
    pool = []
    n = big(rng, 1100)
    leaf = gen(rng, rng.choice([1, 1, 2, 3]), pool)
    k = rng.choice(["many", "many1", "sep_by", "sep_by1", "sequence", "choice", "pstring", "any_of", "chain", "digits"])
    if k in ("many", "many1"):
        g = Node(k, [leaf], None, 0)
        s = "".join(sample(rng, leaf) for _ in range(n))
    elif k in ("sep_by", "sep_by1"):
        sep = gen(rng, rng.choice([1, 1, 2]), pool)
        g = Node(k, [leaf, sep], None, 0)
        s = "".join((sample(rng, sep) if i else "") + sample(rng, leaf) for i in range(n))
    elif k == "sequence":
        kids = [rng.choice([leaf, gen(rng, 1, pool)]) for _ in range(n)]
        g = Node(k, kids, None, 0)
        s = "".join(sample(rng, c) for c in kids)
    elif k == "choice":
        m = rng.choice([5, 10, 33, 60, 101])
        words = ["".join(rng.choice("ab") for _ in range(rng.choice([1, 2, 3, 6, 7]))) for _ in range(m)]
        g = Node(k, [Node("map_to", [Node("pstring", (), w)], ([i], True)) for i, w in enumerate(words)], None, 0)
        s = rng.choice(words) + rng.choice(["", "a", "bb"])
    elif k == "pstring":
        w = "".join(rng.choice(ALPHA) for _ in range(n))
        g = Node(k, (), w, 0)
        s = w
    elif k == "any_of":
        g = Node(k, (), "".join(chr(0x400 + i) for i in range(rng.choice([20, 64, 100]))), rng.randrange(2))
        s = rng.choice(g.arg) + "x"
    elif k == "chain":
        g = leaf
        s = sample(rng, leaf)
        for _ in range(rng.choice([10, 50, 100])):
            g = Node(rng.choice(["and_then", "then_ignore", "ignore_then"]), [g, leaf], None, rng.randrange(2))
            s += sample(rng, leaf)
    else:
        g = rng.choice([Node("digits"), Node("pint"), Node("pfloat")])
        s = "".join(rng.choice("0123456789") for _ in range(min(n, 300) if g.kind != "digits" else n))
    r = rng.random()
    if r < 0.3 and s:
        i = rng.randrange(len(s))
        s = s[:i] + rng.choice(["", "~", rng.choice(ALPHA)]) + s[i + 1 :]
    elif r < 0.5:
        s += rng.choice(["~", " tail", "a"])
    pos = 0
    if rng.random() < 0.2:
        pos = rng.choice([1, 7, n])
        s = "x" * pos + s
    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(limit * 10)  # how deep a grammar, or a text for a recursive one, may be nested is not at issue
    try:
        want = one(g, s, pos, mon, f"a long {k}")
    finally:
        sys.setrecursionlimit(limit)
    mon.ev("long")
    mon.ev("rejected" if want is FAIL else "accepted")
    mon.sig("long", k, n, want is FAIL)


EDGES = "/0129:;@ABYZ[\\]^_`abyz{|}~.-+,() \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f\x85\xa0\u2028\u3000\xb2\xbd\u0663\uff11\u2160\xaa\xb5\xc0\xdf\xe9\u0130\u0131\u017f\u212a\u0430\ud800\U0001d7ce\U0001f600\x00\x7f"


def classes(rng, mon):
    """Every leaf parser on characters at and beyond the edges of its class."""
    k = rng.choice(["parse_digit", "parse_letters", "parse_lowercase", "digits", "whitespace", "pint", "pfloat", "any_of", "pchar", "pstring", "many"])
    ch = rng.choice(EDGES) if rng.random() < 0.7 else chr(rng.choice([rng.randrange(0x250), rng.randrange(0xD800), rng.randrange(0x10000, 0x110000)]))
    if k == "any_of":
        g = Node(k, (), "".join(rng.choice(EDGES) for _ in range(rng.choice([1, 2, 3, 10, 30, 60]))), rng.randrange(2))
    elif k in ("pchar", "pstring"):
        g = Node(k, (), "".join(rng.choice(EDGES) for _ in range(1 if k == "pchar" else rng.choice([1, 2, 4]))), 0)
        if rng.random() < 0.4:
            ch = rng.choice([g.arg, g.arg.swapcase(), g.arg.upper(), g.arg.casefold()])
    elif k == "many":
        g = Node(rng.choice(["many", "many1"]), [Node(rng.choice(["parse_digit", "parse_letters", "parse_lowercase"]))], None, 0)
    else:
        g = Node(k)
    for s in (ch, ch + rng.choice(["1", "a", "Z", " ", ch]), rng.choice(["1", "-", "a", "Z", " ", "1.", "-1.5"]) + ch, rng.choice(EDGES) + ch + rng.choice(EDGES)):
        w = one(g, s, rng.choice([0, 0, 1]) if len(s) > 1 else 0, mon, "a parse of unusual characters")
        mon.ev("rejected" if w is FAIL else "accepted")
    mon.ev("classes")
    mon.sig("classes", k, ch)


def threads(rng, mon):
    pool = []
    g = gen(rng, rng.choice([3, 5, 8]), pool)
    n = rng.choice([2, 3])
    texts = [[] for _ in range(n)]
    for i in range(n):
        for _ in range(2):
            s = text_for(rng, g)
            try:
                texts[i].append((s, meaning(g, s, 0)))
            except TooMuch:
                pass
    outs = [[] for _ in range(n)]
    g.lib
    sched = Scheduler(rng, max_steps=2_000_000)

    def worker(i):
        def run():
            for s, _ in texts[i]:
                outs[i].append(observe(g.lib.run((s, 0))))

        return run

    for i in range(n):
        sched.spawn(worker(i))
    try:
        sched.run()
    except Deadlock as e:
        fail(f"concurrent parses deadlock: {e}")
    for w in sched.workers:
        if w.error is not None:
            raise w.error
    for i in range(n):
        for (s, want), got in zip(texts[i], outs[i]):
            if not agrees(got, s, want):
                fail("a concurrent parse differs from the grammar's meaning", grammar=g, text=s, got=got, want=want)
    mon.ev("threaded", sched.switches)
    mon.sig("threads", sched.signature())


def callbacks(rng, mon):
    """Exceptions of mappers and binders propagate; values pass by identity."""
    exc = boom(rng, "cb")
    k = rng.choice(["map", "bind", "starmap", "apply"])
    base = P.pchar("a")

    def bad(*_):
        raise exc

    p = {"map": lambda: base.map(bad), "bind": lambda: base.bind(bad), "starmap": lambda: base.and_then(base).starmap(bad), "apply": lambda: P.apply(P.preturn(bad), base)}[k]()
    wrap = rng.choice([lambda q: q, P.opt, P.many, lambda q: q.or_else(base), lambda q: P.sequence(P.Block([q]))])
    try:
        r = wrap(p)("aa")
        fail("an exception of a parser's callback was swallowed", kind=k, got=r)
    except (Boom, KeyError, ValueError) as e:
        check(e is exc, "an exception of a parser's callback was changed", kind=k)
    t = Tok()
    seen = []
    q = P.preturn(t).map(lambda v: (seen.append(v), v)[1])
    r = q("")
    check(r.is_ok() and r.ok is t and len(seen) == 1 and seen[0] is t, "a value was changed on its way through the parsers", got=r)
    # nothing mapped when the parser fails
    seen.clear()
    r = P.pchar("z").map(seen.append)("a")
    check(r.is_error() and not seen, "a mapper was called for a failed parse")
    r = P.pchar("z").bind(lambda v: (seen.append(v), base)[1])("a")
    check(r.is_error() and not seen, "a binder was called for a failed parse")
    msg = rng.choice(["no", "", "nope", "x" * 50])
    r = rng.choice([P.fail, P.Parser.fail])(msg)("abc")
    check(r.is_error() and r.error == msg, "a failing parser reports another error than its own", got=r)
    mon.ev("callback_raises")
    mon.sig("cb", k)


SCALE = 2.5
WORKLOADS = {
    "grammars": Workload(grammars, 12000, 250000),
    "exhaustive": Workload(exhaustive, 800, 15000),
    "classes": Workload(classes, 4000, 60000),
    "long": Workload(long, 600, 8000),
    "callbacks": Workload(callbacks, 300, 3000),
    "threads": Workload(threads, 500, 8000),
}
