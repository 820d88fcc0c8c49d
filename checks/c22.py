from __future__ import annotations

import asyncio
import functools
import gc
import sys
import threading

from expression.system import CancellationToken, CancellationTokenSource, ObjectDisposedException

from vf.core import Workload, check, fail
from vf.gen import Boom, BoomBase, boom, bomb  # noqa: F401
from vf.sched import Deadlock, Scheduler, install_lock_shims, pause

install_lock_shims()

PROP = "C22"
RULE = (
    "A case plays a random history (register, unregister, unregister twice, cancel, dispose, leave scope, new token, query, drop registrations and collect garbage) over 1-3 sources, with listeners that raise, register, unregister others or themselves, "
    "cancel again, query or cancel another source, either in one thread against an exact model, or from 2-5 threads preempted at every line/opcode of the library by a seeded scheduler, or free-running, or by a thread a listener waits for; listener calls, refusals and token readings are logged with begin and end "
    "stamps and judged: called exactly once / never / refused. Non-trivial: at least one registration and a cancellation; distinct by history or observed schedule."
)
ASSUMPTIONS = ["listeners raise only subclasses of Exception", "a listener unregistered while the cancellation is running may or may not be called"]
REQUIRED = ["called", "never_called", "refused", "raised_listener", "reentrant_register", "reentrant_cancel", "reentrant_unregister", "scope_exit", "none_token", "threaded", "preempted", "race_lost", "race_won", "cross_source", "dropped", "free_running", "many", "shared", "query", "waiting"]


class Listener:
    """Callable; all listeners compare equal, as bound methods of equal objects do."""

    def __init__(self, hist, src, behaviour):
        self.hist, self.src, self.behaviour = hist, src, behaviour
        self.calls = 0
        self.state = "new"  # registered, gone, refused
        self.registration = None
        self.maybe = False

    def __eq__(self, other):
        return isinstance(other, Listener)

    def __hash__(self):
        return 1

    def __bool__(self):
        raise RuntimeError("truth of a listener")

    def __call__(self, *a):
        self.calls += 1
        if a:
            fail("a listener was called with arguments", args=a)
        return self.behaviour(self)


class Forward:
    """An object that nothing but its registered method keeps alive."""

    def __init__(self, l):
        self.l = l

    def hit(self):
        return self.l()


def dressed(rng, l):
    k = rng.randrange(8)
    if k == 0:
        return Forward(l).hit
    if k == 1:
        return lambda: l()
    if k == 2:
        return functools.partial(l)
    if k == 3:
        return l.__call__
    return l


class Hist:
    def __init__(self, rng, mon):
        self.rng, self.mon = rng, mon
        n = rng.randint(1, 3)
        self.sources = [CancellationTokenSource() for _ in range(n)]
        self.tokens = [[s.token] for s in self.sources]
        self.ls = [[] for _ in range(n)]
        self.cancelled = [False] * n
        self.in_cancel = [0] * n
        self.ops = []

    def behaviour(self):
        rng = self.rng
        k = rng.choice(["ok", "ok", "ok", "raise", "register", "unregister", "unself", "cancel", "query", "other", "value"])
        exc = lambda n=0: boom(rng, n, stop=True)

        def run(l):
            if k == "raise":
                self.mon.ev("raised_listener")
                try:
                    e = exc("listener")
                except TypeError:
                    e = exc()
                raise e
            if k == "register":
                self.register(l.src)
                self.mon.ev("reentrant_register")
            if k == "unregister":
                self.unregister(l.src)
                self.mon.ev("reentrant_unregister")
            if k == "unself" and l.registration is not None:
                l.registration.dispose()
            if k == "cancel":
                self.cancel(l.src)
                self.mon.ev("reentrant_cancel")
            if k == "query" or k == "raise":
                self.query()
            if k == "other":
                self.cancel((l.src + 1) % len(self.sources))
                self.mon.ev("cross_source")
            if k == "value":
                return l

        return k, run

    def register(self, i):
        k, run = self.behaviour()
        l = Listener(self, i, run)
        l.kind = k
        tok = self.rng.choice(self.tokens[i])
        self.ops.append(("reg", i, k))
        try:
            reg = tok.register(dressed(self.rng, l))
        except ObjectDisposedException:
            check(self.cancelled[i], "a registration was refused although nothing was cancelled", source=i, ops=self.ops)
            self.mon.ev("refused")
            return
        l.registration = reg
        l.after_cancel = self.cancelled[i]
        l.state = "on"
        self.ls[i].append(l)

    def unregister(self, i):
        cands = [l for l in self.ls[i] if l.registration is not None]
        if not cands:
            return
        l = self.rng.choice(cands)
        self.ops.append(("unreg", i, self.ls[i].index(l)))
        if l.state == "on":
            if self.cancelled[i]:
                l.maybe = True
            else:
                l.state = "off"
        l.registration.dispose()

    def cancel(self, i, how=None):
        how = how or self.rng.choice(["cancel", "dispose"])
        self.ops.append((how, i))
        first = not self.cancelled[i]
        self.cancelled[i] = True
        src = self.sources[i]
        if how == "scope":
            with src as inside:
                check(inside is src, "entering a source's scope gives something else")
            self.mon.ev("scope_exit")
        elif how == "scope_close":

            def body():
                with src:
                    yield 1

            g = body()
            next(g)
            g.close()
            self.mon.ev("scope_exit")
        elif how == "scope_exc":
            e = boom(self.rng, "body") if self.rng.random() < 0.6 else self.rng.choice([BoomBase, KeyboardInterrupt, SystemExit, GeneratorExit, asyncio.CancelledError])("body")
            try:
                with src:
                    raise e
            except (Boom, BoomBase, KeyboardInterrupt, SystemExit, GeneratorExit, asyncio.CancelledError) as x:
                check(x is e, "a source's scope changed the exception of its body")
            else:
                fail("a source's scope swallowed the exception of its body")
            self.mon.ev("scope_exit")
        else:
            getattr(src, how)()
        if first:
            for l in self.ls[i]:
                if l.state == "on" and not l.maybe:
                    check(l.calls == 1, "a registered listener was not called exactly once by the cancellation", calls=l.calls, kind=l.kind, ops=self.ops)

    def query(self):
        for i, toks in enumerate(self.tokens):
            for t in toks:
                check(t.is_cancellation_requested is self.cancelled[i], "a token reports a wrong state", source=i, want=self.cancelled[i], ops=self.ops)
                check(t.can_be_canceled is True, "a source's token cannot be cancelled", ops=self.ops)
                try:
                    t.throw_if_cancellation_requested()
                    raised = False
                except ObjectDisposedException:
                    raised = True
                check(raised == self.cancelled[i], "throw_if_cancellation_requested", source=i, ops=self.ops)
            check(self.sources[i].is_cancellation_requested is self.cancelled[i], "a source reports a wrong state", source=i, ops=self.ops)
        self.mon.ev("query")

    def judge(self):
        for i, ls in enumerate(self.ls):
            for l in ls:
                if l.maybe:
                    check(l.calls <= 1, "a listener was called twice", kind=l.kind, ops=self.ops)
                elif l.state == "off" or not self.cancelled[i]:
                    check(l.calls == 0, "an unregistered or uncancelled listener was called", kind=l.kind, calls=l.calls, ops=self.ops)
                    self.mon.ev("never_called")
                else:
                    check(l.calls == 1, "a listener was not called exactly once", kind=l.kind, calls=l.calls, ops=self.ops)
                    self.mon.ev("called")


def history(rng, mon):
    h = Hist(rng, mon)
    n = len(h.sources)
    for _ in range(rng.choice([3, 8, 20, 40])):
        i = rng.randrange(n)
        r = rng.random()
        if r < 0.45:
            h.register(i)
        elif r < 0.62:
            h.unregister(i)
        elif r < 0.72:
            if not h.cancelled[i]:
                h.cancel(i, rng.choice(["cancel", "dispose", "scope", "scope_exc", "scope_close"]))
            else:
                h.cancel(i)
        elif r < 0.8:
            h.tokens[i].append(h.sources[i].token)
        elif r < 0.86:
            for l in h.ls[i]:
                if l.calls == 0 and l.kind != "unself" and rng.random() < 0.5:
                    l.registration = None
            if rng.random() < 0.05:
                gc.collect()
            mon.ev("dropped")
        elif r < 0.9 and h.cancelled[i]:
            try:
                with h.sources[i]:
                    fail("a cancelled source was entered", ops=h.ops)
            except ObjectDisposedException:
                pass
        else:
            h.query()
    h.query()
    h.judge()
    if any(h.cancelled) and any(h.ls):
        mon.sig(h.ops)
    mon.sample(h.ops[:12])


def none_tokens(rng, mon):
    src = CancellationTokenSource()
    toks = [CancellationToken.none() for _ in range(2)]
    calls = []
    regs = []
    for _ in range(rng.randint(1, 10)):
        k = rng.randrange(4)
        t = rng.choice(toks)
        if k == 0:
            regs.append(t.register(lambda: calls.append(1)))
        elif k == 1 and regs:
            rng.choice(regs).dispose()
        elif k == 2:
            src.cancel()
        check(t.is_cancellation_requested is False and t.can_be_canceled is False, "the none token reports cancellation")
        t.throw_if_cancellation_requested()
    check(not calls, "a listener of the none token was called", calls=calls)
    c = CancellationTokenSource.cancelled_source()
    check(c.is_cancellation_requested is True and c.token.is_cancellation_requested is True, "a cancelled source reports no cancellation")
    try:
        c.token.register(lambda: calls.append(2))
        fail("a registration with a cancelled source was silently lost")
    except ObjectDisposedException:
        pass
    mon.ev("none_token")
    mon.sig("none", len(regs), src.is_cancellation_requested)


def many(rng, mon):
    n = rng.choice([1000, 5000])
    src = CancellationTokenSource()
    t = src.token
    calls = [0] * n
    regs = []

    def mk(i):
        def f():
            calls[i] += 1
            if i % 3 == 0:
                raise Boom(i)

        return f

    for i in range(n):
        regs.append(t.register(mk(i)))
    off = set(rng.sample(range(n), n // 3))
    for i in off:
        regs[i].dispose()
        if i % 2:
            regs[i].dispose()
    src.cancel()
    bad = [i for i in range(n) if calls[i] != (0 if i in off else 1)]
    check(not bad, "one of many listeners was not called exactly once", n=n, bad=bad[:10])
    for r in regs:
        r.dispose()
    mon.ev("many", n)
    mon.sig("many", n, len(off))


def shared(rng, mon):
    """The same callback registered several times is called once for each registration still standing."""

    class Owner:
        def __init__(self):
            self.n = 0

        def hit(self):
            self.n += 1
            if self.bad:
                raise boom(rng, "shared")

        __call__ = hit

    src = CancellationTokenSource()
    owners = [Owner() for _ in range(rng.choice([1, 2, 5]))]
    for o in owners:
        o.bad = rng.random() < 0.3
    form = rng.choice(["bound", "object", "function"])
    fns = {o: (o if form == "object" else o.__call__) for o in owners}
    if form == "function":
        fns = {o: (lambda o=o: o.hit()) for o in owners}
    regs = []
    k = rng.choice([1, 2, 3, 10, 100, 300])
    for _ in range(k):
        o = rng.choice(owners)
        regs.append((o, src.token.register(o.hit if form == "bound" else fns[o])))
    left = {o: 0 for o in owners}
    for o, r in regs:
        if rng.random() < 0.4:
            for _ in range(rng.choice([1, 1, 2])):
                r.dispose()
        else:
            left[o] += 1
    src.cancel()
    got = [o.n for o in owners]
    check(got == [left[o] for o in owners], "a callback registered several times", got=got, want=[left[o] for o in owners], form=form)
    mon.ev("shared")
    mon.sig("shared", form, k, tuple(got))


class Stamp:
    def __init__(self):
        self.t = 0

    def __call__(self):
        self.t += 1
        return self.t


def threads(rng, mon, opcodes=False):
    nsrc = rng.choice([1, 1, 1, 2])
    srcs = [CancellationTokenSource() for _ in range(nsrc)]
    sched = Scheduler(rng, opcodes=opcodes)
    clock = Stamp()
    recs = []  # registrations
    cancels = []  # (src, begin, end)
    reads = []  # (src, begin, value, end, worker)

    def reg(i, w, keep, hold):
        calls = []
        kind = rng.choice(["ok", "ok", "raise", "cancel", "pause"])

        def f():
            calls.append(clock())
            pause()
            if kind == "raise":
                raise Boom("x")
            if kind == "cancel":
                b = clock()
                srcs[i].cancel()
                cancels.append((i, b, clock()))

        rec = {"src": i, "calls": calls, "begin": clock(), "off": [], "refused": False, "worker": w}
        recs.append(rec)
        try:
            rec["reg"] = srcs[i].token.register(f)
        except ObjectDisposedException:
            rec["refused"] = True
        rec["end"] = clock()
        if not rec["refused"]:
            hold.append(rec)

    def unreg(rec):
        d = [clock(), 1 << 60]
        rec["off"].append(d)
        rec["reg"].dispose()
        d[1] = clock()

    def cancel(i):
        b = clock()
        (srcs[i].cancel if rng.random() < 0.5 else srcs[i].dispose)()
        cancels.append((i, b, clock()))

    def read(i, w):
        b = clock()
        v = srcs[i].token.is_cancellation_requested
        reads.append((i, b, v, clock(), w))

    shared: list = []

    def worker(w, plan):
        def run():
            hold: list = []
            for k, i, r in plan:
                if k == "reg":
                    reg(i, w, True, shared if r < 0.3 else hold)
                elif k == "unreg":
                    pool = hold if r < 0.7 or not shared else shared
                    if pool:
                        unreg(pool[int(r * 1000) % len(pool)])
                elif k == "cancel":
                    cancel(i)
                else:
                    read(i, w)
                pause()

        return run

    nw = rng.randint(2, 5)
    for w in range(nw):
        plan = []
        for _ in range(rng.randint(1, 5)):
            plan.append((rng.choice(["reg", "reg", "reg", "unreg", "unreg", "cancel", "read"]), rng.randrange(nsrc), rng.random()))
        sched.spawn(worker(w, plan))
    try:
        sched.run()
    except Deadlock as e:
        fail(f"cancellation deadlocks: {e}")
    for w in sched.workers:
        if w.error is not None:
            raise w.error
    first_begin = {i: min([b for j, b, _ in cancels if j == i], default=None) for i in range(nsrc)}
    first_end = {i: min([e for j, _, e in cancels if j == i], default=None) for i in range(nsrc)}
    for rec in recs:
        i = rec["src"]
        cb, ce = first_begin[i], first_end[i]
        n = len(rec["calls"])
        view = {k: v for k, v in rec.items() if k != "reg"} | {"cancel_begin": cb, "cancel_end": ce}
        if rec["refused"]:
            check(cb is not None and cb < rec["end"], "a registration was refused before any cancellation", reg=view)
            check(n == 0, "a refused listener was called", reg=view)
            mon.ev("refused")
            if rec["begin"] < ce:
                mon.ev("race_lost")
            continue
        if cb is None:
            check(n == 0, "a listener was called without a cancellation", reg=view)
        elif not rec["off"]:
            if n != 1:
                fail("a listener racing with a cancellation was lost or called twice" if n != 1 else "", calls=n, reg=view)
            mon.ev("called")
            if cb < rec["end"]:
                mon.ev("race_won")
        else:
            check(n <= 1, "a listener was called twice", reg=view)
            # unregistered before: every disposal that was under way had returned
            before = [e for b, e in rec["off"] if b < cb]
            if before and max(before) < cb:
                check(n == 0, "a listener unregistered before the cancellation was called", reg=view)
                mon.ev("never_called")
    for i, b, v, e, w in reads:
        cb, ce = first_begin[i], first_end[i]
        if v:
            check(cb is not None and cb < e, "a token reports a cancellation nobody requested", read=(i, b, v, e), cancels=cancels)
        elif ce is not None:
            check(b < ce, "a token does not report a completed cancellation", read=(i, b, v, e), cancels=cancels)
    for i in range(nsrc):
        seen = [(b, e, v) for j, b, v, e, w in reads if j == i]
        for b, e, v in seen:
            for b2, e2, v2 in seen:
                if v and not v2 and e < b2:
                    fail("a token took its cancellation back", reads=seen)
    mon.ev("threaded")
    mon.ev("preempted", sched.switches)
    if recs and cancels:
        mon.sig("threads", sched.signature())


def threads_op(rng, mon):
    threads(rng, mon, True)


def free_threads(rng, mon):
    n = rng.choice([200, 500])
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        src = CancellationTokenSource()
        out = [[] for _ in range(4)]
        go = threading.Event()

        def registrar(w):
            go.wait()
            for _ in range(n):
                c = []
                try:
                    src.token.register(lambda c=c: c.append(1))
                except ObjectDisposedException:
                    out[w].append(("refused", c))
                else:
                    out[w].append(("in", c))

        def canceller(at):
            go.wait()
            for _ in range(at):
                src.token
            src.cancel()

        at = rng.randrange(3000)
        ts = [threading.Thread(target=registrar, args=(w,)) for w in range(4)] + [threading.Thread(target=canceller, args=(at,)) for _ in range(2)]
        for t in ts:
            t.start()
        go.set()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    for o in out:
        for k, c in o:
            if (k == "in") != (len(c) == 1):
                fail("a racing listener was lost, called twice or called although refused", outcome=k, calls=len(c))
    mon.ev("free_running", 4 * n)
    mon.sig("free", n, at)


def waiting(rng, mon):
    """A listener that waits for another thread which uses the same source."""
    src = CancellationTokenSource()
    n = rng.randint(1, 4)
    calls = [[] for _ in range(n)]
    others = [src.token.register(lambda c=c: c.append(1)) for c in calls[:-1]]
    what = [rng.choice(["unregister", "register", "cancel", "query", "dispose", "enter"]) for _ in range(rng.randint(1, 3))]
    seen = []

    def work():
        try:
            for w in what:
                if w == "unregister" and others:
                    others[rng.randrange(len(others))].dispose()
                elif w == "register":
                    try:
                        src.token.register(lambda: seen.append("late"))
                    except ObjectDisposedException:
                        pass
                    else:
                        seen.append("registered")
                elif w == "cancel":
                    src.cancel()
                elif w == "dispose":
                    src.dispose()
                elif w == "enter":
                    try:
                        with src:
                            seen.append("entered")
                    except ObjectDisposedException:
                        pass
                elif not src.token.is_cancellation_requested:
                    seen.append("not cancelled")
            seen.append("done")
        except BaseException as e:
            seen.append(e)

    def listener():
        calls[-1].append(1)
        t = threading.Thread(target=work, daemon=True)
        t.start()
        t.join(20)
        if t.is_alive():
            seen.append("stuck")

    src.token.register(listener)
    if rng.random() < 0.5 and n > 1:
        others.append(src.token.register(lambda: None))
    src.cancel()
    check(seen == ["done"], "a listener and a thread that uses the same source wait for each other, or the thread was treated wrongly", seen=seen, what=what)
    check(len(calls[-1]) == 1, "the waiting listener was not called once", calls=calls)
    if "unregister" not in what:
        check(all(len(c) == 1 for c in calls), "a listener was not called once", calls=calls)
    mon.ev("waiting")
    mon.sig("waiting", tuple(what), n)


SCALE = 4
WORKLOADS = {
    "waiting": Workload(waiting, 150, 2000),
    "history": Workload(history, 12000, 200000),
    "none_tokens": Workload(none_tokens, 500, 5000),
    "shared": Workload(shared, 1500, 15000),
    "many": Workload(many, 24, 100),
    "threads": Workload(threads, 6000, 120000),
    "threads_op": Workload(threads_op, 2500, 50000),
    "free_threads": Workload(free_threads, 24, 200),
}
