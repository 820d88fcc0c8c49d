"""Random computation-expression bodies (C17, C18): compiled to Python source and interpreted by a model.

A program is a list of statements
    ("log", k)                    log k
    ("yield", k)                  x = yield V[k]
    ("from", k)                   x = yield from V[k]      (async: x = yield await V[k])
    ("take", k)                   async only: x = await V[k], not yielded
    ("call", k)                   x = yield from another computation V[k]()
    ("rec", k)                    if depth > 0: x = yield from comp(..., depth - 1)
    ("raise", k)                  raise V[k]
    ("ret", k)                    return V[k]              (sync only)
    ("retnone",)                  return
    ("if", k, prog)               if V[k]: ...
    ("loop", n, prog)             for _ in range(n): ...
    ("tryf", k, prog)             try: ... finally: log k
    ("trye", k, prog, handler)    try: ... except Boom: log k; ...
    ("with", k, prog)             with Ctx(log, k): ...
    ("sleep", d)                  async only: suspension
"""

from __future__ import annotations

import asyncio

from expression.system import OperationCanceledError
from expression import Error, Failure, Nothing, Ok, Option, Result, Some, Success

from vf.gen import Boom, BoomBase, Tok, boom, odd, value


class Ctx:
    def __init__(self, log, k):
        self.log, self.k = log, k

    def __enter__(self):
        self.log(("enter", self.k))

    def __exit__(self, *a):
        self.log(("exit", self.k))

    async def __aenter__(self):
        await asyncio.sleep(0)
        self.log(("enter", self.k))

    async def __aexit__(self, *a):
        self.log(("exit", self.k))
        await asyncio.sleep(0)


class Program:
    def __init__(self, rng, kind, is_async, size=None, hazards=0.12, nested=True):
        self.rng, self.kind, self.is_async = rng, kind, is_async
        self.V = {}
        self.nk = 0
        self.hazards = hazards
        self.nested = nested
        self.uses_rec = False
        self.prog = self.block(size or rng.choice([0, 1, 2, 3, 5, 8]), 2)
        self.fn = self.compile()

    # -- generation
    def key(self, v=None):
        self.nk += 1
        self.V[self.nk] = v
        return self.nk

    def present(self):
        v = value(self.rng, 1)
        if self.kind == "option":
            return Some(v)
        return self.rng.choice([Ok, Ok, Success])(v)

    def absent(self):
        if self.kind == "option":
            return self.rng.choice([Nothing, Option(none=None)])
        e = value(self.rng, 1)
        return self.rng.choice([Error, Error, Failure])(e)

    def block(self, n, depth):
        out = []
        rng = self.rng
        for _ in range(n):
            r = rng.random()
            if r < self.hazards:
                k = rng.randrange(4)
                if k < 2:
                    out.append(("from", self.key(self.absent())))
                elif k == 2:
                    out.append(("raise", self.key(rng.choice([BoomBase, KeyError, OperationCanceledError])("body") if rng.random() < 0.3 else boom(rng, "body", effect=False))))
                else:
                    out.append(("retnone",) if self.is_async or rng.random() < 0.3 else ("ret", self.key(value(rng, 1))))
                continue
            kinds = ["log", "yield", "yield", "from", "from", "from"]
            if depth > 0:
                kinds += ["if", "loop", "tryf", "trye", "with"]
            if self.nested:
                kinds += ["call", "rec"]
            if self.is_async:
                kinds += ["sleep", "sleep", "take"]
            k = rng.choice(kinds)
            if k == "log":
                out.append((k, self.key()))
            elif k == "yield":
                v = odd(rng) if rng.random() < 0.04 else value(rng, 1)
                out.append((k, self.key(v)))
            elif k in ("from", "take"):
                out.append((k, self.key(self.absent() if k == "take" and rng.random() < 0.1 else self.present())))
            elif k == "call":
                out.append((k, self.key(Program(rng, self.kind, self.is_async, rng.choice([0, 1, 3]), self.hazards / 2, nested=False))))
            elif k == "rec":
                self.uses_rec = True
                out.append((k, self.key()))
            elif k == "if":
                out.append((k, self.key(rng.random() < 0.5), self.block(rng.randint(1, 3), depth - 1)))
            elif k == "loop":
                out.append((k, self.key(rng.randrange(4)), self.block(rng.randint(1, 3), depth - 1)))
            elif k == "sleep":
                out.append((k, self.key(rng.choice([0, 0, 0.5, 3]))))
            elif k == "trye":
                body = self.block(rng.randint(1, 3), depth - 1)
                handler = []
                if rng.random() < 0.4:
                    body.append(("raise", self.key(boom(rng, "inner", effect=False))))
                    handler = self.block(rng.randint(1, 2), depth - 1)
                    if rng.random() < 0.5:
                        handler.append(("from", self.key(self.absent() if rng.random() < 0.6 else self.present())))
                out.append((k, self.key(), body, handler))
            else:
                out.append((k, self.key(), self.block(rng.randint(1, 3), depth - 1)))
        return out

    # -- source
    def compile(self):
        lines = [("async " if self.is_async else "") + "def body(log, V, depth, comp):", "    if False: yield None"]

        def emit(prog, ind):
            p = "    " * ind
            if not prog:
                lines.append(p + "pass")
            for st in prog:
                k = st[0]
                n = st[1] if len(st) > 1 else 0
                if k == "log":
                    lines.append(f"{p}log(({n},))")
                elif k == "yield":
                    lines.append(f"{p}x = yield V[{n}]")
                    lines.append(f"{p}log(({n}, x))")
                elif k == "from":
                    lines.append(f"{p}x = yield {'await' if self.is_async else 'from'} V[{n}]")
                    lines.append(f"{p}log(({n}, x))")
                elif k == "take":
                    lines.append(f"{p}x = await V[{n}]")
                    lines.append(f"{p}log(({n}, x))")
                elif k == "call":
                    lines.append(f"{p}x = yield await (await V[{n}].run_nested(log))" if self.is_async else f"{p}x = yield from V[{n}].run_nested(log)")
                    lines.append(f"{p}log(({n}, x))")
                elif k == "rec":
                    lines.append(f"{p}if depth > 0:")
                    call = "comp(log, V, depth - 1, comp)"
                    lines.append(f"{p}    x = yield await (await {call})" if self.is_async else f"{p}    x = yield from {call}")
                    lines.append(f"{p}    log(({n}, x, depth))")
                elif k == "raise":
                    lines.append(f"{p}raise V[{n}]")
                elif k == "ret":
                    lines.append(f"{p}return V[{n}]")
                elif k == "retnone":
                    lines.append(f"{p}return")
                elif k == "sleep":
                    lines.append(f"{p}await asyncio.sleep(V[{n}])")
                    lines.append(f"{p}log(({n},))")
                elif k == "if":
                    lines.append(f"{p}if V[{n}]:")
                    emit(st[2], ind + 1)
                elif k == "loop":
                    lines.append(f"{p}for _ in range(V[{n}]):")
                    emit(st[2], ind + 1)
                elif k == "tryf":
                    lines.append(f"{p}try:")
                    emit(st[2], ind + 1)
                    lines.append(f"{p}finally:")
                    if self.is_async:
                        lines.append(f"{p}    await asyncio.sleep(0)")
                    lines.append(f"{p}    log(('finally', {n}))")
                elif k == "trye":
                    lines.append(f"{p}try:")
                    emit(st[2], ind + 1)
                    lines.append(f"{p}except Boom as e:")
                    lines.append(f"{p}    log(('caught', {n}, e))")
                    emit(st[3], ind + 1)
                elif k == "with":
                    lines.append(f"{p}{'async ' if self.is_async else ''}with Ctx(log, {n}):")
                    emit(st[2], ind + 1)
                else:
                    raise AssertionError(k)

        emit(self.prog, 1)
        self.src = "\n".join(lines)
        ns = {"Ctx": Ctx, "Boom": Boom, "asyncio": asyncio}
        exec(self.src, ns)
        return ns["body"]

    def decorate(self, builder):
        self.comp = builder(self.fn)
        for v in self.V.values():
            if isinstance(v, Program):
                v.decorate(builder)
        return self.comp

    def run_nested(self, log):
        return self.comp(log, self.V, 0, self.comp)

    def call(self, log, depth):
        return self.comp(log, self.V, depth, self.comp)

    # -- model
    def model(self, depth, log):
        """The outcome: ("some"/"ok", v), the short-circuiting model, or ("exc", e)."""
        last = [None]  # [value] when something was yielded

        class Short(BaseException):
            pass

        class Ret(BaseException):
            pass

        class Raised(BaseException):
            pass

        def absent(m):
            s = Short()
            s.m = m
            raise s

        def got(n, v, *extra):
            last[0] = (v,)
            log(((n, v) + extra))

        def step(m, n, *extra):
            """Unwrap a model outcome of a nested computation or value."""
            if m[0] == "exc":
                r = Raised()
                r.e = m[1]
                raise r
            if m[0] in ("none", "error"):
                absent(m)
            got(n, m[1], *extra)

        def run(prog):
            for st in prog:
                k = st[0]
                n = st[1] if len(st) > 1 else 0
                v = self.V.get(n)
                if k in ("log", "sleep"):
                    log((n,))
                elif k == "yield":
                    got(n, v)
                elif k == "from":
                    step(obs(v), n)
                elif k == "take":
                    m = obs(v)
                    if m[0] in ("none", "error"):
                        absent(m)
                    log((n, m[1]))
                elif k == "call":
                    step(v.model(0, log), n)
                elif k == "rec":
                    if depth > 0:
                        step(self.model(depth - 1, log), n, depth)
                elif k == "raise":
                    r = Raised()
                    r.e = v
                    raise r
                elif k == "ret":
                    r = Ret()
                    r.v = v
                    raise r
                elif k == "retnone":
                    r = Ret()
                    r.v = None
                    raise r
                elif k == "if":
                    if v:
                        run(st[2])
                elif k == "loop":
                    for _ in range(v):
                        run(st[2])
                elif k == "tryf":
                    try:
                        run(st[2])
                    finally:
                        log(("finally", n))
                elif k == "trye":
                    caught = None
                    try:
                        run(st[2])
                    except Raised as r:
                        if not isinstance(r.e, Boom):
                            raise
                        caught = r.e
                    if caught is not None:
                        log(("caught", n, caught))
                        run(st[3])
                elif k == "with":
                    log(("enter", n))
                    try:
                        run(st[2])
                    finally:
                        log(("exit", n))

        good = "some" if self.kind == "option" else "ok"
        try:
            run(self.prog)
            v = None
        except Ret as r:
            v = r.v
        except Short as s:
            return s.m
        except Raised as r:
            return ("exc", r.e)
        if v is not None:
            return (good, v)
        if last[0] is not None:
            return (good, last[0][0])
        return ("none",) if self.kind == "option" else ("ok", None)


def obs(x):
    if isinstance(x, Option):
        return ("some", x.some) if x.tag == "some" else ("none",)
    if isinstance(x, Result):
        return (x.tag, getattr(x, x.tag))
    return ("raw", x)


def logs_same(a, b):
    return len(a) == len(b) and all(len(x) == len(y) and all(p is q or (type(p) in (int, str) and p == q) for p, q in zip(x, y)) for x, y in zip(a, b))


_ = Tok
