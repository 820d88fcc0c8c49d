"""Writes MANIFEST.json from properties.jsonl: python3 tools/manifest.py"""
import json, os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# what decides the property besides the history-vs-model monitor
SCHED = "online monitor against a reference model under random histories, plus a deterministic preemptive thread scheduler"
LOOP = "online trace monitor in a virtual-time event loop with injected suspensions, cancellation and faults"
T = {
    "C02": SCHED, "C06": SCHED, "C17": SCHED, "C26": SCHED, "C27": SCHED, "C29": SCHED, "C30": SCHED, "C31": SCHED,
    "C10": LOOP, "C18": LOOP,
    "C20": LOOP + ", plus a deterministic preemptive thread scheduler (exactly-once and order over the delivery log)",
    "C21": LOOP + " (request/reply matching over the event log)",
    "C22": "event-log monitor (exactly-once, linearizable registration) under a deterministic preemptive thread scheduler and re-entrant listeners",
    "C23": "event-log monitor (exactly-once) under a deterministic preemptive thread scheduler, virtual-time tasks and injected exceptions",
    "C24": LOOP + ", preempted threads and weak-reference leak monitor",
    "C25": LOOP + ", preempted threads and a stack-depth monitor",
    "C04": "runtime monitoring: comparison-counting keys, recursion and CPU limits over adversarial histories",
    "C28": "runtime monitoring: work-counting text and leaf parsers, recursion and CPU limits over long inputs",
    "C09": "runtime monitoring: pull- and callback-counting sources that fail when over-demanded",
}
DEFAULT = "online monitor: differential comparison with a reference model on random hostile histories, callbacks logged and counted"
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks = []
for p in props:
    i = p["id"]
    checks.append(
        {
            "property": i,
            "quick_cmd": f"./run.sh {i} quick",
            "thorough_cmd": f"./run.sh {i} thorough",
            "evidence_file": f"evidence/{i}.json",
            "technique": "runtime monitoring: " + T.get(i, DEFAULT).removeprefix("runtime monitoring: "),
            "level": "exploration",
            "level_note": "Held on every generated execution of the real code (seeded, replayable; counts in the evidence file); not a proof. "
            "Trusts CPython, the reference model in checks/" + i.lower() + ".py and, where used, the scheduler and event loop in vf/sched.py.",
        }
    )
doc = {
    "version": 1,
    "setup_cmd": "test -x /opt/venv/bin/python && test -d /repo/expression",
    "hooks": {"guard": "none: no hooks were added to /repo", "enable": "nothing to enable: the monitors wrap callbacks, sources, locks and event loops from outside", "source_commits": []},
    "checks": checks,
    "not_applicable": [],
    "notes": "See DESIGN.md. Repaired defects: KNOWN_FINDINGS.txt (no open findings).",
}
json.dump(doc, open(f"{V}/MANIFEST.json", "w"), indent=1)
