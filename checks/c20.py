from __future__ import annotations

import asyncio
import sys
import threading

from expression import MailboxProcessor
from expression.system import CancellationTokenSource, OperationCanceledError

from vf.core import Workload, check, fail
from vf.gen import Boom, Eq, NoBool, Tok
from vf.sched import Deadlock, Scheduler, Stuck, VLoop, install_lock_shims, pause

install_lock_shims()

PROP = "C20"
RULE = (
    "A case starts 1-3 mailbox processors whose bodies receive in random styles (plain, with timeouts, after suspensions, from changing tasks, posting to themselves) while senders post unique "
    "messages: loop tasks, loop callbacks and posts before the first receive in a virtual-time loop, or 1-4 threads preempted at every line of the library by a seeded scheduler (and, as stress, free-running threads, and mailboxes of several loops that post to each other); "
    "some processors are cancelled or die. The sender's and receiver's logs are compared: exactly once, posting order per sender (total order when posted from the loop), nothing lost, one message at a time, prefix for a cancelled one, "
    "and a lost wake-up is seen as an event loop waiting for ever. Non-trivial: at least 2 messages delivered; distinct by receiver style, message counts and observed interleaving."
)
ASSUMPTIONS = ["a processor has at most one outstanding receive", "the event loop keeps running while threads post"]
REQUIRED = ["delivered", "timeout", "self_post", "cancelled", "died", "threaded", "preempted", "free_running", "before_first", "handoff", "thread_cancel", "waiting_cancel", "second_receive", "long", "odd_message", "request", "given_up", "handover", "direct", "loops"]


class Msg:
    """A unique message; hostile to being compared or tested for truth."""

    __slots__ = ("sender", "seq", "box", "ch")

    def __init__(self, box, sender, seq):
        self.box, self.sender, self.seq, self.ch = box, sender, seq, None

    def __repr__(self):
        return f"m{self.box}:{self.sender}.{self.seq}"

    def __bool__(self):
        raise RuntimeError("truth of a message")

    def __eq__(self, other):
        raise RuntimeError("a message was compared")

    __hash__ = None  # type: ignore


class Box:
    """A monitored mailbox processor."""

    def __init__(self, rng, bid, total, style, source=None, dies_at=None, self_posts=()):
        self.bid, self.total, self.style, self.source, self.dies_at = bid, total, style, source, dies_at
        self.rng = rng
        self.self_posts = dict(self_posts)
        self.posted: list[Msg] = []
        self.got: list[Msg] = []
        self.busy = 0
        self.overlap = False
        self.ended = None
        self.timeouts = 0
        self.waiting = 0
        self.got_after_cancel = 0
        self.finished = None
        self.mb = None
        self.work = [rng.choice([0, 0, 0, 0, 0.5, 1]) for _ in range(17)]
        self.touts = [rng.choice([0, 0.3, 1, 3]) for _ in range(13)]

    def start(self):
        self.finished = asyncio.get_running_loop().create_future()
        self.mb = MailboxProcessor.start(self.body, self.source.token if self.source else None)
        return self

    def post(self, m):
        self.posted.append(m)
        self.mb.post(m)

    def request(self, m):
        """Post by asking for a reply."""

        def build(ch):
            m.ch = ch
            self.posted.append(m)
            return m

        return self.mb.post_and_async_reply(build)

    async def receive(self, inbox, i):
        s = self.style
        if s == "timeout":
            k = i
            while True:
                try:
                    return await asyncio.wait_for(inbox.receive(), self.touts[k % 13])
                except asyncio.TimeoutError:
                    self.timeouts += 1
                    k += 1
        if s == "handoff":
            return await asyncio.ensure_future(inbox.receive())
        if s == "lazy":
            await asyncio.sleep(self.work[i % 17])
        self.waiting += 1
        m = await inbox.receive()
        self.waiting -= 1
        return m

    async def body(self, inbox):
        try:
            i = 0
            while len(self.got) < self.total:
                m = await self.receive(inbox, i)
                i += 1
                if self.busy:
                    self.overlap = True
                self.busy += 1
                self.got.append(m)
                if m.ch is not None:
                    m.ch.reply(None)
                for k in range(self.self_posts.pop(len(self.got), 0)):
                    self.post(Msg(self.bid, "self", (len(self.got), k)))
                if len(self.got) == self.dies_at:
                    self.busy -= 1
                    raise Boom("processor dies")
                d = self.work[(i * 7) % 17]
                if d or i % 3 == 0:
                    await asyncio.sleep(d)
                self.busy -= 1
            self.ended = "done"
        except asyncio.CancelledError:
            self.ended = "cancelled"
            raise
        except Boom:
            self.ended = "died"
        finally:
            if self.finished is not None and not self.finished.done():
                self.finished.set_result(None)

    def judge(self, total_order):
        where = dict(box=self.bid, style=self.style, ended=self.ended)
        check(not self.overlap, "two messages were handled at once", **where)
        ids = [id(m) for m in self.got]
        if len(set(ids)) != len(ids):
            fail("a message was delivered twice", got=self.got, **where)
        known = {id(m) for m in self.posted}
        check(all(type(m) is Msg and id(m) in known for m in self.got), "a message was received that was not posted to this mailbox", got=self.got, **where)
        per = {}
        for m in self.posted:
            per.setdefault(m.sender, []).append(id(m))
        gper = {}
        for m in self.got:
            gper.setdefault(m.sender, []).append(id(m))
        for s, l in gper.items():
            if l != per[s][: len(l)]:
                fail("messages of a sender were received out of posting order or with gaps", sender=s, got=self.got, posted=self.posted, **where)
        if self.ended == "done":
            check(len(self.got) == len(self.posted), "messages were lost", got=self.got, posted=self.posted, **where)
        if total_order:
            if ids != [id(m) for m in self.posted][: len(ids)]:
                fail("messages were received in another order than posted", got=self.got, posted=self.posted, **where)


def selfposts(rng, n):
    if rng.random() < 0.3 and n:
        return [(rng.randint(1, n), rng.randint(1, 3)) for _ in range(2)]
    return ()


def loop_case(rng, mon):
    nb = rng.choice([1, 1, 2, 3])
    boxes, plans = [], []
    for b in range(nb):
        n = rng.choice([1, 2, 5, 10, 30])
        senders = rng.randint(1, 4)
        plan = [[(k, rng.choice([0, 0, 0, 0.4, 1, 2.5]), rng.choice(["post", "post", "callback", "request"])) for k in range(n)] for _ in range(senders)]
        fate = rng.random()
        source = CancellationTokenSource() if fate < 0.35 else None
        sp = dict(selfposts(rng, n))
        total = n * senders + sum(sp.values())
        pre = rng.choice([0, 0, 1, 4])
        total += pre
        box = Box(rng, b, total, rng.choice(["plain", "timeout", "handoff", "lazy"]), source, dies_at=rng.randint(1, n) if fate > 0.9 else None, self_posts=sp.items())
        box.cancel_at = rng.choice([0, 0.5, 2, 4, 30]) if fate < 0.25 else None
        box.pre = pre
        boxes.append(box)
        plans.append(plan)

    async def sender(box, s, plan):
        loop = asyncio.get_running_loop()
        for k, d, via in plan:
            if d:
                await asyncio.sleep(d)
            m = Msg(box.bid, s, k)
            if via == "request":
                box.request(m)
                mon.ev("request")
            elif via == "callback":
                f = loop.create_future()

                def cb():
                    box.post(m)
                    f.set_result(None)

                loop.call_soon(cb)
                await f
            else:
                box.post(m)

    async def go():
        loop = asyncio.get_running_loop()
        for box in boxes:
            box.start()
            for k in range(box.pre):
                box.post(Msg(box.bid, "pre", k))
                mon.ev("before_first")
            if box.cancel_at is not None:

                def cancel(box=box):
                    box.was_waiting = box.waiting
                    box.source.cancel()

                loop.call_later(box.cancel_at, cancel)
        ts = [asyncio.ensure_future(sender(box, s, p)) for box, plan in zip(boxes, plans) for s, p in enumerate(plan)]
        await asyncio.gather(*ts)
        for box in boxes:
            try:
                await asyncio.wait_for(asyncio.shield(box.finished), 10_000)
            except asyncio.TimeoutError:
                fail("a message never arrives, or a cancelled mailbox waits for ever", box=box.bid, style=box.style, got=box.got, posted=box.posted, cancel_at=box.cancel_at)

    loop = VLoop()
    try:
        try:
            loop.run_until_complete(go())
        except Stuck:
            fail("the event loop waits for ever with messages outstanding", got=[b.got for b in boxes], posted=[b.posted for b in boxes])
        ended = [b.ended for b in boxes]
    finally:
        loop.drain()
    for box, e in zip(boxes, ended):
        check(e is not None, "a processor neither finished nor ended", box=box.bid)
        if e == "cancelled":
            check(box.cancel_at is not None, "a mailbox was cancelled although its token was not", box=box.bid)
            mon.ev("cancelled")
            if getattr(box, "was_waiting", 0):
                mon.ev("waiting_cancel")
        elif e == "died":
            mon.ev("died")
        box.judge(True)
        mon.ev("delivered", len(box.got))
        mon.ev("timeout", box.timeouts)
        mon.ev("self_post", sum(1 for m in box.got if m.sender == "self"))
        if box.style == "handoff":
            mon.ev("handoff")
    if sum(len(b.got) for b in boxes) > 1:
        mon.sig("loop", [(b.style, len(b.got), b.timeouts, b.ended) for b in boxes])
    mon.sample([(b.style, len(b.posted), len(b.got), b.timeouts, b.ended) for b in boxes])


def thread_case(rng, mon, opcodes=False):
    nb = rng.choice([1, 1, 2])
    boxes = []
    for b in range(nb):
        source = CancellationTokenSource() if rng.random() < 0.3 else None
        box = Box(rng, b, 0, rng.choice(["plain", "plain", "timeout", "handoff", "lazy"]), source)
        boxes.append(box)
    ns = rng.choice([1, 1, 2, 3, 4])
    plans = []
    for s in range(ns):
        b = rng.choice(boxes)
        n = rng.choice([1, 1, 2, 4, 8])
        plans.append((b, n))
        b.total += n
    cancelling = [b for b in boxes if b.source and rng.random() < 0.6]
    for b in boxes:
        if not b.total:
            b.style = "plain"
    loop = VLoop()
    sched = Scheduler(rng, opcodes=opcodes)
    ready = [False]
    err = []

    async def go():
        for b in boxes:
            b.start()
        ready[0] = True
        await asyncio.gather(*[asyncio.shield(b.finished) for b in boxes])

    def main():
        loop.run_until_complete(go())

    def sender(s, b, n):
        def run():
            sched.block(lambda: ready[0])
            for k in range(n):
                m = Msg(b.bid, s, k)
                b.posted.append(m)
                pause()
                b.mb.post(m)
                pause()

        return run

    def canceller(b):
        def run():
            sched.block(lambda: ready[0])
            for _ in range(rng2.randrange(6)):
                pause()
            b.source.cancel()

        return run

    rng2 = sched.rng
    ws = [sched.spawn(main, "loop")]
    ws += [sched.spawn(sender(s, b, n), f"sender{s}") for s, (b, n) in enumerate(plans)]
    ws += [sched.spawn(canceller(b), "canceller") for b in cancelling]
    # the loop must outlive the senders, as a real program's does
    real_go = go

    async def go():  # noqa: F811
        await real_go()
        while not all(w.done for w in ws[1:]):
            await asyncio.sleep(0.01)

    try:
        try:
            sched.run()
        except Deadlock as e:
            fail(f"the event loop was not woken up: {e}", got=[b.got for b in boxes], posted=[b.posted for b in boxes], switches=sched.switches, cancelling=[b.bid for b in cancelling])
        for w in ws:
            if w.error is not None:
                err.append(w.error)
        if err:
            raise err[0]
        ended = [b.ended for b in boxes]
    finally:
        loop.drain()
    for b, e in zip(boxes, ended):
        if e == "cancelled":
            check(b in cancelling, "a mailbox was cancelled although its token was not", box=b.bid)
            mon.ev("thread_cancel")
        b.judge(False)
        mon.ev("delivered", len(b.got))
        mon.ev("timeout", b.timeouts)
    mon.ev("threaded")
    mon.ev("preempted", sched.switches)
    mon.sig("threads", [m.sender for b in boxes for m in b.got], [b.style for b in boxes], sched.signature())


def thread_case_op(rng, mon):
    thread_case(rng, mon, True)


def free_threads(rng, mon):
    """Free-running threads against a real event loop."""
    n, ns = rng.choice([(50, 4), (200, 3), (300, 2)])
    style = rng.choice(["plain", "timeout0"])
    got, posted = [], n * ns
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:

        async def body(inbox):
            while len(got) < posted:
                if style == "plain":
                    got.append(await inbox.receive())
                else:
                    try:
                        got.append(await asyncio.wait_for(inbox.receive(), 0.0005))
                    except asyncio.TimeoutError:
                        pass
            fin.set_result(None)

        async def go():
            nonlocal fin
            fin = asyncio.get_running_loop().create_future()
            mb = MailboxProcessor.start(body)

            def send(s):
                for k in range(n):
                    mb.post((s, k))

            ts = [threading.Thread(target=send, args=(s,)) for s in range(ns)]
            for t in ts:
                t.start()
            try:
                await asyncio.wait_for(fin, 30)
            except asyncio.TimeoutError:
                pass
            for t in ts:
                t.join()

        fin = None
        asyncio.run(go())
    finally:
        sys.setswitchinterval(old)
    for s in range(ns):
        check([k for q, k in got if q == s] == list(range(n)), "messages of a free-running sender were lost, duplicated or reordered", sender=s, got=len(got), expected=posted)
    mon.ev("free_running", len(got))
    mon.sig("free", style, n, ns)


def second_receive(rng, mon):
    """A second receive while one is waiting never steals or duplicates a message."""
    n = rng.randint(2, 6)
    outs, a_got = [], []
    when = rng.choice(["before", "after"])

    async def other(inbox):
        try:
            outs.append(("msg", await inbox.receive()))
        except Exception as e:
            outs.append(("exc", e))

    async def body(inbox):
        while True:
            try:
                a_got.append(await inbox.receive())
            except Exception:  # refused because of the other one
                await asyncio.sleep(0.01)

    async def go():
        mb = MailboxProcessor.start(body)
        await asyncio.sleep(0)
        await asyncio.sleep(0)
        if when == "after":
            mb.post(0)
        t = asyncio.ensure_future(other(mb))
        await asyncio.sleep(1)
        for k in range(1 if when == "after" else 0, n):
            mb.post(k)
            if rng.random() < 0.3:
                await asyncio.sleep(1)
        await asyncio.sleep(1)
        await asyncio.sleep(5)
        t.cancel()

    loop = VLoop()
    try:
        loop.run_until_complete(go())
    finally:
        loop.drain()
    extra = [m for k, m in outs if k == "msg"]
    check(sorted(a_got + extra) == list(range(n)), "a second receive lost or duplicated messages", got=a_got, second=outs, n=n)
    mon.ev("second_receive")
    mon.sig("second", when, n, len(outs))


def odd_messages(rng, mon):
    """None, falsy and hostile values are messages like any other."""
    vals = [rng.choice([None, 0, False, "", (), [], {}, 0.0, Exception("e"), NoBool(), Eq(1, 2), Tok(), asyncio.CancelledError(), StopIteration()]) for _ in range(rng.randint(1, 12))]
    got = []
    style = rng.choice(["plain", "timeout"])
    split = rng.randrange(len(vals) + 1)

    async def go():
        fin = asyncio.get_running_loop().create_future()

        async def body(inbox):
            while len(got) < len(vals):
                if style == "timeout":
                    try:
                        got.append(await asyncio.wait_for(inbox.receive(), 0.7))
                    except asyncio.TimeoutError:
                        pass
                else:
                    got.append(await inbox.receive())
            fin.set_result(None)

        mb = MailboxProcessor.start(body)
        for v in vals[:split]:
            mb.post(v)
        await asyncio.sleep(rng.choice([0, 1, 2]))
        for v in vals[split:]:
            mb.post(v)
        await fin

    loop = VLoop()
    try:
        loop.run_until_complete(go())
    except Stuck:
        fail("an odd message never arrived", got=got, posted=vals)
    finally:
        loop.drain()
    check(len(got) == len(vals) and all(a is b for a, b in zip(got, vals)), "odd messages arrived otherwise than posted", got=got, posted=vals)
    mon.ev("odd_message", len(vals))
    mon.sig("odd", [type(v).__name__ for v in vals], style, split)


def long_queues(rng, mon):
    n = rng.choice([1500, 2000, 2000, 20000, 20000, 20000, 120000])
    got = []
    styles = rng.choice(["burst", "repeats", "repeats", "mixed", "self"])
    pool = [rng.choice([0, 1, 2, None, "a", "b", (), 0.5, False]) for _ in range(rng.choice([1, 3, 7]))]
    msgs = list(range(n))
    if styles == "repeats":
        kind = rng.choice([int, str, None])
        msgs = [k % 7 if kind is int else "abc"[k % 3] if kind is str else pool[k % len(pool)] for k in range(n)]
    elif styles == "mixed":
        msgs = [rng.choice([k, k // 2, pool[k % len(pool)]]) for k in range(n)]

    async def go():
        fin = asyncio.get_running_loop().create_future()

        async def body(inbox):
            while len(got) < n:
                m = await inbox.receive()
                got.append(m)
                if styles == "self" and m + 1 < n:
                    inbox.post(m + 1)
            fin.set_result(None)

        mb = MailboxProcessor.start(body)
        if styles == "self":
            mb.post(0)
        else:
            for m in msgs:
                mb.post(m)
        await fin

    loop = VLoop()
    try:
        loop.run_until_complete(go())
    except Stuck:
        fail("a message of a long queue never arrived", got=len(got), n=n)
    finally:
        loop.drain()
    check(len(got) == n and all(a is b or type(a) is type(b) and a == b for a, b in zip(got, msgs)), "a long queue was delivered otherwise than posted", n=n, got=len(got))
    mon.ev("long", n)
    mon.sig("long", n, styles)


def abandon(rng, mon):
    """Receives given up at the very tick a message is on its way: the message is left for the next receive."""
    n = rng.choice([1, 2, 3, 6])
    got, steps, outs = [], [], []
    posted = [Msg(0, "s", k) for k in range(n)]

    async def go():
        loop = asyncio.get_running_loop()
        mb = MailboxProcessor(None)
        todo = list(posted)
        i = 0
        while len(got) < n and i < 200:
            i += 1
            t = asyncio.ensure_future(mb.receive())
            for _ in range(rng.randrange(4)):
                await asyncio.sleep(0)
            acts = ["post"] * rng.choice([0, 1, 1, 2]) + ["cancel"] * rng.choice([0, 1, 1]) + ["tick"] * rng.randrange(3)
            rng.shuffle(acts)
            for a in acts:
                if a == "tick":
                    await asyncio.sleep(0)
                elif a == "cancel":
                    k = rng.randrange(3)
                    if k == 0:
                        t.cancel()
                    elif k == 1:
                        loop.call_soon(t.cancel)
                    else:
                        loop.call_soon(loop.call_soon, t.cancel)
                elif todo:
                    m = todo.pop(0)
                    if rng.random() < 0.6:
                        mb.post(m)
                    else:
                        mb.post_and_async_reply(lambda ch, m=m: m)
                steps.append(a)
            for _ in range(rng.choice([0, 1, 2, 3, 6])):
                await asyncio.sleep(0)
            if not todo and rng.random() < 0.5:
                pass
            elif not t.done() and rng.random() < 0.5:
                t.cancel()
            if todo and not t.done():
                t.cancel()
            try:
                got.append(await asyncio.wait_for(t, 5) if not todo else await t)
            except asyncio.CancelledError:
                outs.append("given up")
            except asyncio.TimeoutError:
                outs.append("timeout")
            if rng.random() < 0.3:
                await asyncio.sleep(rng.choice([0, 1]))

    loop = VLoop()
    try:
        loop.run_until_complete(go())
    except Stuck:
        fail("a message is lost after a receive was given up", got=got, posted=posted, steps=steps)
    finally:
        loop.drain()
    check(len(got) == n and all(a is b for a, b in zip(got, posted)), "messages are lost, duplicated or reordered when receives are given up", got=got, posted=posted, steps=steps, given_up=len(outs))
    if outs:
        mon.ev("given_up", len(outs))
        mon.sig("abandon", tuple(steps), len(outs))


def handover(rng, mon):
    """A receive is given up while the next one is being started by another task: no message is lost to the one that is gone."""
    n = rng.choice([1, 2, 4])
    posted = [Msg(0, "s", k) for k in range(n)]
    got, steps, given_up = [], [], []

    async def go():
        mb = MailboxProcessor(None)
        for k in range(n):
            t = asyncio.ensure_future(mb.receive())
            for _ in range(rng.choice([1, 1, 2, 4])):
                await asyncio.sleep(0)
            # the one message is posted at some point of the handover
            for _ in range(rng.choice([1, 1, 2])):
                if t.done():
                    break
                acts = ["next", "cancel"]
                if k == len(got) and rng.random() < 0.5 and not any(s == ("post", k) for s in steps):
                    acts.insert(rng.randrange(3), "post")
                if rng.random() < 0.3:
                    acts.append("tick")
                nxt = None
                for a in acts:
                    steps.append((a, k))
                    if a == "next":
                        nxt = asyncio.ensure_future(mb.receive())
                    elif a == "cancel":
                        t.cancel()
                    elif a == "tick":
                        await asyncio.sleep(0)
                    elif rng.random() < 0.5:
                        mb.post(posted[k])
                    else:
                        mb.post_and_async_reply(lambda ch, m=posted[k]: m)
                given_up.append(t)
                t = nxt
                if rng.random() < 0.5:
                    await asyncio.sleep(0)
            if ("post", k) not in steps:
                steps.append(("post", k))
                mb.post(posted[k])
            got.append(await t)

    loop = VLoop()
    try:
        loop.run_until_complete(go())
    except Stuck:
        fail("a message never arrives after a receive was given up for another", got=got, posted=posted, steps=steps)
    finally:
        loop.drain()
    check(len(got) == n and all(a is b for a, b in zip(got, posted)), "messages are lost, duplicated or reordered when receives are given up for others", got=got, posted=posted, steps=steps)
    check(all(t.cancelled() for t in given_up), "a receive that was given up delivered", steps=steps)
    mon.ev("handover", len(given_up))
    mon.sig("handover", tuple(steps))


def direct(rng, mon):
    """A mailbox without a processor body: cancelling its token ends the waiting receive, and no other."""
    src = CancellationTokenSource()
    before, after = rng.randrange(4), rng.randrange(1, 4)
    pos = rng.choice(["waiting", "before_receive"])
    wake = rng.choice(["post", "request"])
    state = {}

    async def go():
        mb, other = MailboxProcessor(src.token), MailboxProcessor(rng.choice([None, CancellationTokenSource().token]))
        msgs = [Msg(0, "s", k) for k in range(before)]
        for m in msgs:
            mb.post(m)
        got = [await mb.receive() for _ in range(before)]
        check(all(a is b for a, b in zip(got, msgs)), "messages before the cancellation", got=got)
        w = asyncio.ensure_future(other.receive())
        await asyncio.sleep(rng.choice([0, 1]))
        if pos == "before_receive":
            src.cancel()
        t = asyncio.ensure_future(mb.receive())
        await asyncio.sleep(rng.choice([0, 1]))
        src.cancel()
        for k in range(after):
            if wake == "post":
                mb.post(Msg(0, "late", k))
            else:
                mb.post_and_async_reply(lambda ch, k=k: Msg(0, "late", k))
            if rng.random() < 0.5:
                await asyncio.sleep(0)
        done, _ = await asyncio.wait([t], timeout=50)
        check(bool(done), "cancelling the token did not end the waiting receive", before=before, pos=pos, wake=wake)
        state["exc"] = asyncio.CancelledError() if t.cancelled() else t.exception()
        check(state["exc"] is not None, "a receive of a cancelled mailbox delivered a message", got=t if t.cancelled() else None)
        check(isinstance(state["exc"], (asyncio.CancelledError, OperationCanceledError)), "the receive ended otherwise than by cancellation", got=state["exc"])
        check(not w.done(), "another mailbox was affected")
        m = Msg(1, "o", 0)
        other.post(m)
        check((await w) is m, "another mailbox was affected")

    loop = VLoop()
    try:
        loop.run_until_complete(go())
    except Stuck:
        fail("a receive waits for ever", before=before, pos=pos, wake=wake)
    finally:
        loop.drain()
    mon.ev("direct")
    mon.sig("direct", before, after, pos, wake, type(state["exc"]).__name__)


def loops(rng, mon):
    """Mailboxes of several event loops, each in a thread of its own, posting to each other."""
    n, m = rng.choice([2, 2, 3]), rng.choice([1, 5, 20])
    ready, over = threading.Barrier(n), threading.Barrier(n)
    boxes = [None] * n
    got = [[] for _ in range(n)]
    errors = []
    style = rng.choice(["plain", "timeout", "request"])

    def thread(i):
        async def go():
            me = threading.get_ident()
            fin = asyncio.get_running_loop().create_future()

            async def body(inbox):
                while len(got[i]) < n * m:
                    if style == "timeout":
                        try:
                            msg = await asyncio.wait_for(inbox.receive(), 0.002)
                        except asyncio.TimeoutError:
                            continue
                    else:
                        msg = await inbox.receive()
                    if threading.get_ident() != me or asyncio.get_running_loop() is not fin.get_loop():
                        errors.append("a message was handled by another thread or loop than the processor's")
                    if isinstance(msg, list):
                        ch, msg = msg
                        ch.reply(msg)
                    got[i].append(msg)
                fin.set_result(None)

            boxes[i] = MailboxProcessor.start(body)
            await asyncio.sleep(0)
            await asyncio.to_thread(ready.wait, 30)
            for k in range(m):
                for j in range(n):
                    if j == i and style == "request":
                        r = await boxes[i].post_and_async_reply(lambda ch, k=k: [ch, (i, k)])
                        if r != (i, k):
                            errors.append(("a wrong reply", r))
                    else:
                        boxes[j].post((i, k))
                if k % 3 == 0:
                    await asyncio.sleep(0)
                if k % 7 == i:
                    await asyncio.sleep(0.002)
            try:
                await asyncio.wait_for(fin, 30)
            except asyncio.TimeoutError:
                errors.append("a processor was not woken up for a message")
            await asyncio.to_thread(over.wait, 60)

        try:
            asyncio.run(go())
        except BaseException as e:
            errors.append(e)
            ready.abort()
            over.abort()

    ts = [threading.Thread(target=thread, args=(i,), daemon=True) for i in range(n)]
    for t in ts:
        t.start()
    for t in ts:
        t.join(100)
    check(not errors, "mailboxes of several loops", errors=errors, style=style)
    for j in range(n):
        for i in range(n):
            check([k for s, k in got[j] if s == i] == list(range(m)), "messages to a mailbox of another loop were lost, duplicated or reordered", box=j, sender=i, got=got[j], count=m, style=style)
    mon.ev("loops", n)
    mon.sig("loops", n, m, style)


SCALE = 6
WORKLOADS = {
    "loops": Workload(loops, 24, 300),
    "abandon": Workload(abandon, 4000, 60000),
    "handover": Workload(handover, 1500, 20000),
    "direct": Workload(direct, 500, 5000),
    "loop_case": Workload(loop_case, 4000, 80000),
    "odd_messages": Workload(odd_messages, 2000, 20000),
    "second_receive": Workload(second_receive, 500, 5000),
    "thread_case": Workload(thread_case, 3000, 60000),
    "thread_case_op": Workload(thread_case_op, 500, 10000),
    "long_queues": Workload(long_queues, 24, 200),
    "free_threads": Workload(free_threads, 16, 160),
}
