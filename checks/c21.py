from __future__ import annotations

import asyncio

from expression import AsyncReplyChannel, MailboxProcessor

from vf.core import Workload, check, fail
from vf.gen import Boom, boom, Tok, value
from vf.sched import Deadlock, Scheduler, Stuck, VLoop, install_lock_shims, pause

install_lock_shims()

PROP = "C21"
RULE = (
    "A case makes 1-12 (sometimes up to 300) requests to 1-2 processors from tasks of a virtual-time loop (awaited at once, later, concurrently, with timeouts, or never), mixed with plain posts (some from preempted threads); the processor answers each request in a random way: "
    "at once, after sleeping, from another task or loop callback, out of order, twice with different values, before the caller awaits, inside the building of the message, or never; reply values are unique tokens, None, falsy or hostile objects, "
    "awaitables and exceptions. The monitor checks that each request completes with the very object first given to its channel, unanswered ones stay pending, and all messages are handled. Non-trivial: at least one request answered; distinct by answer pattern."
)
ASSUMPTIONS = ["replies are given on the loop of the processor (the library documents no thread-safe reply)"]
REQUIRED = ["answered", "unanswered", "second_reply", "none_reply", "out_of_order", "other_task", "before_await", "early_reply", "mixed_posts", "timeout", "from_thread", "nested_request", "pending_not_blocking", "after_giving_up"]

WAYS = ["now", "now", "sleep", "task", "callback", "stash", "twice", "twice_later", "never", "never", "build", "build_twice", "build_again"]


def scenario(rng, mon, threads=False):
    nb = rng.choice([1, 1, 2])
    nreq = rng.choice([1, 2, 4, 8, 12]) if threads or rng.random() < 0.985 else rng.choice([33, 70, 140, 300])
    reqs = []
    for i in range(nreq):
        reqs.append(
            {
                "id": i,
                "box": rng.randrange(nb),
                "way": rng.choice(WAYS),
                "val": rng.choice([None, Tok(), value(rng), boom(rng, "reply", stop=True), asyncio.Event(), asyncio.CancelledError(), AsyncReplyChannel(lambda r: None), "self"]),
                "val2": Tok(),
                "delay": rng.choice([0, 0.25, 1, 3]),
                "start": rng.choice([0, 0, 0, 0.5, 2]),
                "await_after": rng.choice([0, 0, 0, 1, 5]),
                "timeout": rng.choice([None, None, None, 0.1, 2]),
                "outcome": None,
                "first": None,
            }
        )
    nposts = rng.choice([0, 0, 3, 8])
    posts = [[] for _ in range(nb)]
    handled = [[] for _ in range(nb)]
    expected = [0] * nb
    order = []
    answered_order = []

    def give(r, ch, v):
        if isinstance(v, str) and v == "self":
            v = ch
        if r["first"] is None:
            r["first"] = (v,)
            answered_order.append(r["id"])
        else:
            mon.ev("second_reply")
        ch.reply(v)

    def make_body(b):
        async def body(inbox):
            stash = []
            loop = asyncio.get_running_loop()
            while True:
                m = await inbox.receive()
                handled[b].append(m)
                if type(m) is not tuple:
                    continue
                r, ch = m
                w = r["way"]
                if w == "now":
                    give(r, ch, r["val"])
                elif w == "sleep":
                    await asyncio.sleep(r["delay"])
                    give(r, ch, r["val"])
                elif w == "task":

                    async def later(r=r, ch=ch):
                        await asyncio.sleep(r["delay"])
                        give(r, ch, r["val"])

                    r["task"] = asyncio.ensure_future(later())
                    mon.ev("other_task")
                elif w == "callback":
                    loop.call_later(r["delay"], give, r, ch, r["val"])
                elif w == "stash":
                    stash.append((r, ch))
                    loop.call_later(6, give, r, ch, r["val"])
                elif w == "build_again":
                    give(r, ch, r["val2"])
                elif w == "twice":
                    give(r, ch, r["val"])
                    give(r, ch, r["val2"])
                elif w == "twice_later":
                    give(r, ch, r["val"])
                    loop.call_later(r["delay"], give, r, ch, r["val2"])
                if len(stash) >= 2 and r["id"] % 2:
                    r2, c2 = stash.pop()
                    give(r2, c2, r2["val"])

        return body

    async def request(r, mb):
        loop = asyncio.get_running_loop()
        if r["start"]:
            await asyncio.sleep(r["start"])
        order.append(r["id"])
        expected[r["box"]] += 1

        def build(ch):
            r["builds"] = r.get("builds", 0) + 1
            if r["way"].startswith("build"):
                give(r, ch, r["val"])
                if r["way"] == "build_twice":
                    give(r, ch, r["val2"])
                mon.ev("early_reply")
            return (r, ch)

        aw = mb.post_and_async_reply(build)
        if r["await_after"]:
            await asyncio.sleep(r["await_after"])
            if r["first"] is not None:
                mon.ev("before_await")
        try:
            if r["timeout"] is not None:
                got = await asyncio.wait_for(aw, r["timeout"])
            else:
                got = await aw
            r["outcome"] = ("value", got)
        except asyncio.TimeoutError:
            r["outcome"] = ("timeout",)
            if r["first"] is None:
                r["gave_up"] = True
        r["at"] = loop.time()

    boxes = []
    ready = [False]
    done = [0]

    async def go():
        for b in range(nb):
            boxes.append(MailboxProcessor.start(make_body(b)))
        ready[0] = True
        tasks = [asyncio.ensure_future(request(r, boxes[r["box"]])) for r in reqs]
        if not threads:
            for k in range(nposts):
                b = rng.randrange(nb)
                posts[b].append(f"p{k}")
                boxes[b].post(f"p{k}")
                if rng.random() < 0.3:
                    await asyncio.sleep(0.3)
        else:
            while done[0] < 1:
                await asyncio.sleep(0.5)
        await asyncio.sleep(200)
        pend = [t for t in tasks if not t.done()]
        for t in tasks:
            if t.done():
                t.result()
        for t in pend:
            t.cancel()
        return len(pend)

    loop = VLoop()
    try:
        if not threads:
            try:
                loop.run_until_complete(go())
            except Stuck:
                fail("the event loop waits for ever", reqs=reqs)
        else:
            sched = Scheduler(rng)

            def poster():
                sched.block(lambda: ready[0])
                for k in range(nposts):
                    b = k % nb
                    posts[b].append(f"p{k}")
                    pause()
                    boxes[b].post(f"p{k}")
                    pause()
                done[0] += 1

            ws = [sched.spawn(lambda: loop.run_until_complete(go()), "loop"), sched.spawn(poster, "poster")]
            try:
                sched.run()
            except Deadlock as e:
                fail(f"the event loop was not woken up: {e}", reqs=reqs)
            for w in ws:
                if w.error is not None:
                    raise w.error
            mon.ev("from_thread", sched.switches)
            mon.sig("threads", sched.signature())
    finally:
        loop.drain()

    for r in reqs:
        o = r["outcome"]
        check(r.get("builds") == 1, "the message of a request is built once", request=r)
        if r["first"] is None:
            check(o is None or o == ("timeout",), "a request that was never answered completed", request=r)
            mon.ev("unanswered")
            continue
        if o == ("timeout",):
            mon.ev("timeout")
            if r.get("gave_up"):
                mon.ev("after_giving_up")
            continue
        if o is None:
            fail("an answered request never completed", request=r)
        if o[1] is not r["first"][0]:
            fail("a request completed with something else than its own first reply", request=r, all=[(q["id"], q["first"], q["outcome"]) for q in reqs])
        mon.ev("answered")
        if r["first"][0] is None:
            mon.ev("none_reply")
    for b in range(nb):
        hp = [m for m in handled[b] if type(m) is not tuple]
        hr = [m[0]["id"] for m in handled[b] if type(m) is tuple]
        check(hp == posts[b], "plain messages between requests were lost or reordered", got=hp, posted=posts[b])
        want = [i for i in order if reqs[i]["box"] == b]
        check(hr == want, "request messages were lost, duplicated or reordered", got=hr, want=want)
        if hp and hr:
            mon.ev("mixed_posts")
    done_ids = [i for i in answered_order]
    if done_ids != sorted(done_ids, key=order.index):
        mon.ev("out_of_order")
    if any(r["first"] is None for r in reqs) and any(r["outcome"] and r["outcome"][0] == "value" for r in reqs):
        mon.ev("pending_not_blocking")
    if answered_order:
        mon.sig([(r["way"], r["box"], r["delay"], r["outcome"] and r["outcome"][0]) for r in reqs])
    mon.sample([(r["way"], type(r["val"]).__name__, r["outcome"] and r["outcome"][0]) for r in reqs])


def loop_requests(rng, mon):
    scenario(rng, mon)


def thread_requests(rng, mon):
    scenario(rng, mon, True)


def chains(rng, mon):
    """Processors that request from other processors while answering, many requests in flight."""
    depth = rng.randint(1, 5)
    n = rng.choice([1, 3, 10, 40])
    conc = rng.choice([True, False])
    delays = [rng.choice([0, 0, 0.5, 2]) for _ in range(11)]

    async def go():
        nxt = None
        for d in range(depth):

            def mk(nxt, d):
                async def one(inbox, k, ch):
                    if delays[(k + d) % 11]:
                        await asyncio.sleep(delays[(k + d) % 11])
                    if nxt is None:
                        ch.reply([k])
                    else:
                        sub = await nxt.post_and_async_reply(lambda c: (k, c))
                        ch.reply([(d, k), sub])

                async def body(inbox):
                    keep = []
                    while True:
                        k, ch = await inbox.receive()
                        if conc:
                            keep.append(asyncio.ensure_future(one(inbox, k, ch)))
                        else:
                            await one(inbox, k, ch)

                return body

            nxt = MailboxProcessor.start(mk(nxt, d))
        return await asyncio.gather(*[nxt.post_and_async_reply(lambda c, k=k: (k, c)) for k in range(n)])

    loop = VLoop()
    try:
        got = loop.run_until_complete(go())
    except Stuck:
        fail("nested requests never complete", depth=depth, n=n, conc=conc)
    finally:
        loop.drain()
    for k in range(n):
        want = [k]
        for d in range(1, depth):
            want = [(d, k), want]
        check(got[k] == want, "nested requests swapped replies", got=got[k], want=want)
    mon.ev("nested_request", n)
    mon.sig("chain", depth, n, conc, delays)


SCALE = 12
WORKLOADS = {
    "loop_requests": Workload(loop_requests, 8000, 150000),
    "chains": Workload(chains, 1000, 10000),
    "thread_requests": Workload(thread_requests, 1000, 20000),
}
