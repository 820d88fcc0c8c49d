"""Harness core: seeded workloads, monitors, parallel driver, evidence, replay.

A check module (checks/cNN.py) defines

    PROP        property id
    RULE        how cases are made and what makes one non-trivial
    ASSUMPTIONS list of strings
    WORKLOADS   {name: Workload}

A workload is a function ``case(rng, mon)``: it generates one execution from
``rng``, drives the real code under observation and judges what was observed.
It raises ``Violation`` when the oracle refutes the property.  Any exception
that the oracle did not expect counts as an observation that refutes it too
(the model said the call returns, the code raised).

Verdicts are three-valued: held (0), violated (1), inconclusive (2).
"""

from __future__ import annotations

import hashlib
import json
import mmap
import os
import random
import resource
import signal
import struct
import sys
import time
import traceback
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# The registered checks judge /repo; the overrides serve experiments on scratch copies.
REPO = os.environ.get("VF_REPO") or "/repo"
EVIDENCE = os.environ.get("VF_EVIDENCE") or os.path.join(VERIF, "evidence")
REPLAYS = os.path.join(EVIDENCE, "replays")


class Violation(Exception):
    """The oracle refuted the property on this execution."""


class Inconclusive(Exception):
    """The execution could not be judged."""


class Unjudged(Inconclusive):
    """This execution alone could not be judged; a few of them do no harm."""


class _CpuBudget(BaseException):
    """A case used far more CPU time than any execution of it needs."""


def fail(msg: str, **details) -> None:
    text = msg
    for k, v in details.items():
        try:
            text += f"\n    {k} = {v!r}"
        except Exception as e:  # a repr that fails must not hide the violation
            text += f"\n    {k} = <unprintable: {type(e).__name__}>"
    raise Violation(text[:6000])


def check(cond, msg: str, **details) -> None:
    if not cond:
        fail(msg, **details)


MEMORY = 3 << 30  # per worker; the workloads need a small fraction of it


class Monitor:
    """Counts what was observed. Merged over all workers."""

    def __init__(self) -> None:
        self.events: Counter[str] = Counter()
        self.sigs: set[int] = set()
        self.samples: list[str] = []
        self._case_sample: str | None = None

    def ev(self, name: str, n: int = 1) -> None:
        self.events[name] += n

    def sig(self, *parts) -> None:
        """Record the shape of a non-trivial case; distinct shapes are counted."""
        h = hashlib.blake2b(repr(parts).encode("utf-8", "replace"), digest_size=8).digest()
        self.sigs.add(struct.unpack("<Q", h)[0])

    def sample(self, text: str) -> None:
        if len(self.samples) < 3:
            self.samples.append(text[:600])


class Workload:
    def __init__(self, fn, quick: int, thorough: int, cpu_s: float = 60.0, chunk: int = 1) -> None:
        self.fn = fn
        self.count = {"quick": quick, "thorough": thorough}
        self.cpu_s = cpu_s


def load_repo():
    """Import expression from /repo's working tree, never from stale bytecode."""
    sys.dont_write_bytecode = True
    # imported with their own caches
    import asyncio  # noqa: F401
    import concurrent.futures  # noqa: F401
    import dataclasses  # noqa: F401

    import pydantic  # noqa: F401
    import typing_extensions  # noqa: F401

    from . import sched

    sched.install_lock_shims()
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    old = sys.pycache_prefix
    sys.pycache_prefix = "/nonexistent-vf-pycache"
    try:
        import importlib
        import pkgutil

        import expression

        for m in pkgutil.walk_packages(expression.__path__, "expression."):
            importlib.import_module(m.name)
    finally:
        sys.pycache_prefix = old
    if not os.path.abspath(expression.__file__).startswith(REPO + "/"):
        raise Inconclusive(f"expression imported from {expression.__file__}")
    return expression


def case_rng(seed: int, prop: str, workload: str, index: int) -> random.Random:
    return random.Random(f"{seed}/{prop}/{workload}/{index}")


STUCK = 77  # exit status of a worker whose case cannot be ended
GRACE = 30.0  # seconds that the other workers get when one found a violation
WALL = 200.0  # seconds; cases take seconds at most
_fired = 0
_armed = False
_give_up = None


def _on_timer(signum, frame):
    # the code under test, or a library, may swallow it: then it comes again
    global _fired
    if not _armed:
        return
    _fired += 1
    if _fired > 6:
        if _give_up is not None:
            _give_up()
        os._exit(STUCK)
    raise _CpuBudget()


def run_case(wl: Workload, seed: int, prop: str, name: str, index: int, mon: Monitor) -> str | None:
    """Run one case. Returns the violation text or None."""
    global _armed
    try:
        return _run_case(wl, seed, prop, name, index, mon)
    except _CpuBudget:  # it came again while the first one was being reported
        _armed = False
        return "no bounded progress: the execution could not be ended in time"


def _run_case(wl: Workload, seed: int, prop: str, name: str, index: int, mon: Monitor) -> str | None:
    global _fired, _armed
    _fired = 0
    _armed = True
    rng = case_rng(seed, prop, name, index)
    # last resort, by the kernel: handlers do not run in C loops or without memory
    used = resource.getrusage(resource.RUSAGE_SELF)
    cpu_limit = int(used.ru_utime + used.ru_stime + wl.cpu_s + 20)
    resource.setrlimit(resource.RLIMIT_CPU, (cpu_limit, resource.RLIM_INFINITY))
    signal.signal(signal.SIGPROF, _on_timer)
    signal.signal(signal.SIGALRM, _on_timer)
    signal.setitimer(signal.ITIMER_PROF, wl.cpu_s, 1.0)
    signal.setitimer(signal.ITIMER_REAL, WALL, 5.0)
    stuck = f"no bounded progress: the execution used more than {wl.cpu_s:.0f} s of CPU time or {WALL:.0f} s of time\n"
    try:
        try:
            wl.fn(rng, mon)
        finally:
            _armed = False
        return stuck if _fired else None
    except Violation as v:
        return str(v)
    except _CpuBudget:
        return stuck + traceback.format_exc()[-3000:]
    except Unjudged:
        mon.ev("unjudged")
        return None
    except Inconclusive:
        raise
    except MemoryError:
        return "no bounded memory: the execution used more than its memory limit\n" + traceback.format_exc()[-3000:]
    except BaseException as e:
        tb = traceback.format_exc()
        if len(tb) > 3500:
            tb = tb[:1200] + "\n...\n" + tb[-2200:]
        return f"unexpected {type(e).__name__}: {e}"[:1000] + "\n" + tb
    finally:
        _armed = False
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.setitimer(signal.ITIMER_REAL, 0)


def _worker(mod, tier, seed, w, nw, deadline, board, out_fd):
    import gc

    global _give_up
    _give_up = lambda: struct.pack_into("<q", board, 16 * nw, 1)  # noqa: E731
    resource.setrlimit(resource.RLIMIT_AS, (MEMORY, MEMORY))
    mon = Monitor()
    res: dict = {"violation": None, "inconclusive": None, "cases": 0, "per_workload": {}}
    cap = float(os.environ.get("VF_SCALE", "1")) * getattr(mod, "SCALE", 1)
    try:
        for wi, (name, wl) in enumerate(mod.WORKLOADS.items()):
            n = max(1, int(wl.count[tier] * cap))
            done = 0
            # on a slow machine every workload still gets a share of the time
            now = time.monotonic()
            share = now + max(0.0, deadline - now) / (len(mod.WORKLOADS) - wi)
            for index in range(w, n, nw):
                if done and time.monotonic() > share:
                    break
                struct.pack_into("<qq", board, 16 * w, wi, index)
                if struct.unpack_from("<q", board, 16 * nw)[0]:
                    break  # another worker found a violation
                v = run_case(wl, seed, mod.PROP, name, index, mon)
                done += 1
                if v is not None:
                    res["violation"] = {"workload": name, "index": index, "text": v}
                    struct.pack_into("<q", board, 16 * nw, 1)
                    break
            res["per_workload"][name] = done
            res["cases"] += done
            if res["violation"]:
                break
            gc.collect()
    except Inconclusive as e:
        res["inconclusive"] = str(e)
    except BaseException:
        res["inconclusive"] = "harness error: " + traceback.format_exc()[-3000:]
    res["peak_mb"] = resource.getrusage(resource.RUSAGE_SELF).ru_maxrss // 1024
    res["events"] = dict(mon.events)
    res["sigs"] = list(mon.sigs)
    res["samples"] = mon.samples
    with os.fdopen(out_fd, "w") as f:
        json.dump(res, f)


def write_replay(prop, seed, tier, v) -> str:
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, f"{prop}-{v['workload']}-{seed}-{v['index']}.json")
    with open(path, "w") as f:
        json.dump({"property": prop, "seed": seed, "tier": tier, **v}, f, indent=1)
    return path


def drive(mod, tier: str, seed: int, nw: int, budget_s: float) -> int:
    t0 = time.monotonic()
    deadline = t0 + budget_s
    board = mmap.mmap(-1, 16 * nw + 8)
    sys.stdout.flush()
    kids = []
    for w in range(nw):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            code = 0
            try:
                for _, rr in kids:
                    os.close(rr)
                _worker(mod, tier, seed, w, nw, deadline, board, wfd)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stdout.flush()
                sys.stderr.flush()
                os._exit(code)
        os.close(wfd)
        kids.append((pid, r))

    results = []
    dead = []
    # read all pipes (each child writes one document at its end)
    import selectors

    sel = selectors.DefaultSelector()
    bufs = {}
    for w, (pid, r) in enumerate(kids):
        sel.register(r, selectors.EVENT_READ, w)
        bufs[w] = bytearray()
    hard = deadline + WALL + 40
    open_w = set(range(nw))
    timed_out = False
    seen = {w: (None, t0) for w in open_w}
    stuck = set()
    ended = set()
    found_at = None
    while open_w:
        left = hard - time.monotonic()
        if left <= 0:
            timed_out = True
            break
        for key, _ in sel.select(min(left, 5.0)):
            data = os.read(key.fd, 1 << 20)
            if data:
                bufs[key.data] += data
            else:
                sel.unregister(key.fd)
                open_w.discard(key.data)
                if not bufs[key.data]:  # it died: the others need not go on
                    struct.pack_into("<q", board, 16 * nw, 1)
        now = time.monotonic()
        if struct.unpack_from("<q", board, 16 * nw)[0]:
            found_at = found_at or now
            if now - found_at > GRACE:  # a violation was found: the others need not go on
                ended = set(open_w)
                for w in ended:
                    os.kill(kids[w][0], signal.SIGKILL)
                break
        for w in list(open_w):
            at = struct.unpack_from("<qq", board, 16 * w)
            if seen[w][0] != at or bufs[w]:
                seen[w] = (at, now)
            elif now - seen[w][1] > WALL + 30:
                stuck.add(w)
                os.kill(kids[w][0], signal.SIGKILL)
    for w, (pid, r) in enumerate(kids):
        if w in open_w:
            os.kill(pid, signal.SIGKILL)
        _, status = os.waitpid(pid, 0)
        if bufs[w]:
            results.append(json.loads(bufs[w].decode()))
        else:
            if w in ended:
                continue
            wi, index = struct.unpack_from("<qq", board, 16 * w)
            dead.append((w in stuck, status, list(mod.WORKLOADS)[wi], index))

    mon = Monitor()
    cases = 0
    per: Counter[str] = Counter()
    violations = []
    inconclusive = []
    for res in results:
        mon.events.update(res["events"])
        mon.sigs.update(res["sigs"])
        for s in res["samples"]:
            mon.sample(s)
        cases += res["cases"]
        per.update(res["per_workload"])
        if res["violation"]:
            violations.append(res["violation"])
        if res["inconclusive"]:
            inconclusive.append(res["inconclusive"])
    for was_stuck, status, name, index in dead:
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS):
            violations.append({"workload": name, "index": index, "text": f"the interpreter died with signal {os.WTERMSIG(status)}"})
        elif (
            was_stuck
            or (os.WIFEXITED(status) and os.WEXITSTATUS(status) == STUCK)
            or (os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGXCPU)
        ):
            violations.append({"workload": name, "index": index, "text": "no bounded progress: the execution could not be ended"})
        else:
            inconclusive.append(f"worker ended without a result (status {status}) in {name}/{index}")
    if mon.events["unjudged"] > 3 + cases // 100:
        inconclusive.append(f"{mon.events['unjudged']} executions could not be judged")
    if ended and not violations:
        inconclusive.append("a violation was announced and not reported")
    wall = time.monotonic() - t0

    missing = []
    if not violations:
        for name in getattr(mod, "REQUIRED", ()):
            if mon.events[name] == 0:
                missing.append(name)
        if not cases:
            missing.append("cases")
        if len(mon.sigs) < 2:
            missing.append("distinct non-trivial cases")

    os.makedirs(EVIDENCE, exist_ok=True)
    evidence = {
        "property": mod.PROP,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": cases,
            "distinct_nontrivial": len(mon.sigs),
            "rule": mod.RULE,
            "samples": mon.samples or ["(none)"],
            "cases_per_workload": dict(per),
            "observed_events": dict(sorted(mon.events.items())),
            "peak_worker_mb": max([r["peak_mb"] for r in results], default=0),
            "truncated_by_time": bool(time.monotonic() > deadline),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 3),
        "violations": len(violations),
    }
    with open(os.path.join(EVIDENCE, f"{mod.PROP}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    if violations:
        order = {n: i for i, n in enumerate(mod.WORKLOADS)}
        v = min(violations, key=lambda v: (order[v["workload"]], v["index"]))
        path = write_replay(mod.PROP, seed, tier, v)
        print(f"{mod.PROP} {v['workload']}/{v['index']}: {v['text']}")
        print(f"VIOLATION property={mod.PROP} replay={path}")
        return 1
    if timed_out:
        inconclusive.append("watchdog: workers still running after the time budget")
    if inconclusive or missing:
        for i in inconclusive:
            print("INCONCLUSIVE:", i, file=sys.stderr)
        if missing:
            print("INCONCLUSIVE: never observed:", missing, file=sys.stderr)
        return 2
    print(
        f"{mod.PROP} held on {cases} executions ({len(mon.sigs)} distinct non-trivial), "
        f"{sum(mon.events.values())} observed events, {wall:.1f} s"
    )
    return 0


def main(argv: list[str]) -> int:
    import importlib

    prop = argv[0].upper()
    tier = os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    replay = None
    only = None
    it = iter(argv[1:])
    for a in it:
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            replay = next(it)
        elif a == "--only":
            only = next(it)
        elif a == "--seed":
            seed = int(next(it))
    # one quick run must stay far below the 900 s limit on a slow machine
    budget = {"quick": 240.0, "thorough": 600.0}[tier]
    try:
        load_repo()
        sys.setrecursionlimit(1000)
    except Exception:
        traceback.print_exc()
        return 2
    try:
        mod = importlib.import_module(f"checks.{prop.lower()}")
    except Exception as e:
        # the check makes its unions, models, parsers and decorated functions with the code under test
        in_repo = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(REPO + "/expression/")]
        if isinstance(e, ImportError) or not in_repo:
            traceback.print_exc()
            return 2
        v = {"workload": "definitions", "index": 0, "text": f"unexpected {type(e).__name__}: {e}\n" + traceback.format_exc()[-3000:]}
        print(f"{prop} definitions/0: {v['text']}")
        print(f"VIOLATION property={prop} replay={replay or write_replay(prop, seed, tier, v)}")
        return 1
    if replay:
        doc = json.load(open(replay))
        mon = Monitor()
        v = run_case(mod.WORKLOADS[doc["workload"]], doc["seed"], prop, doc["workload"], doc["index"], mon)
        if v is None:
            print("replay: property held on this execution")
            return 0
        print(v)
        print(f"VIOLATION property={prop} replay={replay}")
        return 1
    if only:
        mod.WORKLOADS = {only: mod.WORKLOADS[only]}
        mod.REQUIRED = ()
    nw = int(os.environ.get("VF_WORKERS") or (os.cpu_count() or 4))
    return drive(mod, tier, seed, max(1, min(nw, 8)), budget)
