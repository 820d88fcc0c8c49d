"""Regenerates DESIGN.md from its parts: head, one section per property, planted bugs, tail."""

import importlib
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = ["/repo", V]
sys.dont_write_bytecode = True

WHY = {
    "C01": ("dict model + counted callbacks", "Tree shapes reached only by particular insert/remove orders; the tests use a handful of keys."),
    "C02": ("snapshots of every version, iterator, view and source, re-read after every operation", "Aliasing and in-place updates show only on values the operation was not asked about, after aborted operations, or between threads."),
    "C03": ("equality of model dictionaries over all ordered pairs", "Equal contents with different shapes need different histories."),
    "C04": ("comparison counter on instrumented keys against 4*log2(peak+2)+10; recursion limit", "Imbalance appears after thousands of operations in a hostile order and never changes a result."),
    "C05": ("list model, by identity, with call logs", "Falsy, None and equal-but-distinct items, boundary counts, method/pipe agreement."),
    "C06": ("snapshots by identity of every block, array and source", "Mutation of an input is invisible in the result the tests look at."),
    "C07": ("list model per element kind", "Each element type code, limits of the type, all indices and slices."),
    "C08": ("composition of list definitions, call logs", "Operator compositions, source kinds, falsy items."),
    "C09": ("minimal lazy definition stepped in lockstep, pulls counted", "One pull too many changes no finite result."),
    "C10": ("list definition as generator in lockstep, pulls counted, stuck loop detector", "Depends on where the source suspends, and on sources that never produce again."),
    "C11": ("defining equations on plain data, call logs, all-pairs relations", "Holds for every value, including values the code could mistake for absence."),
    "C12": ("defining equations on plain data, call logs, all-pairs relations", "As C11, on both tracks."),
    "C13": ("plain-data model of the conversions, random walks", "Round trips over nested and None-like values."),
    "C14": ("recursive reference that delegates leaves to pydantic", "Nestings and invalid inputs on the Python and JSON paths."),
    "C15": ("(case index, value) pairs; compiled match statements", "Number of cases, falsy values, malformed constructions, all pairs."),
    "C16": ("observation before/after attacks; structure of copies; mutation of deep copies", "Attack surface and copy paths over all classes."),
    "C17": ("direct interpreter of the bind chain over a generated body, statement log", "Bodies with control flow, cleanup, recursion, preempted threads."),
    "C18": ("as C17 in a virtual-time loop, with interleaved runs and cancellation", "Outcome must not depend on suspension points."),
    "C19": ("item list from a direct interpreter of the body", "Long bodies, re-iteration, yields from all kinds of iterables."),
    "C20": ("offline judge of posted/received logs: exactly once, per-sender order, one at a time; stuck loop = lost wake-up", "Lost wake-ups need a post between the emptiness test and the wait; only schedules show them."),
    "C21": ("reply tokens by identity per request", "Swapped or lost replies need out-of-order answering."),
    "C22": ("offline judge of stamped listener calls, registrations and refusals", "Register/cancel races, re-entrant listeners."),
    "C23": ("call log of the action, disposed-state model", "Double dispose between test and set; scopes left in every way."),
    "C24": ("script model per computation, weak references", "Cancellation at every point, from other threads; retention shows only to the garbage collector."),
    "C25": ("interpreter of the step script; observed frame depth", "Argument forms, interleaving, 2*10^5 steps."),
    "C26": ("applications written out, call logs by identity", "Arity, grouping and sharing of partial applications."),
    "C27": ("reference interpreter of random grammars", "Languages are infinite; backtracking positions and rests are rarely looked at."),
    "C28": ("reference value plus counters of leaf invocations and copied characters, CPU growth, recursion limit", "Length and work; zero-width repetition."),
    "C29": ("plain loop, call logs by identity", "Position of the failure, length, stopping."),
    "C30": ("try/except written out", "Exception hierarchies, stacking, identity of the exception."),
    "C31": ("direct interpreter of the operations over a logging writer type; marks of every operation in order", "A builder method skipped, doubled or called in another order is invisible with the two built-in types, whose operations leave no trace."),
    "C32": ("isinstance on the argument and identity of the result", "Every class, subclass, virtual subclass and value, including values whose own operators lie."),
}


def main():
    out = [open(os.path.join(V, "tools/design_head.md")).read()]
    props = [json.loads(x) for x in open(os.path.join(V, "properties.jsonl"))]
    for p in props:
        m = importlib.import_module("checks." + p["id"].lower())
        scale = getattr(m, "SCALE", 1)
        oracle, why = WHY[p["id"]]
        out.append(f"### {p['id']} {p['title']}\n\n")
        out.append(f"* Oracle: {oracle}.\n* Workload: {m.RULE}\n")
        out.append("* Volume (quick / thorough cases): " + ", ".join(f"{k} {int(w.count['quick'] * scale)} / {int(w.count['thorough'] * scale)}" for k, w in m.WORKLOADS.items()) + ".\n")
        if m.ASSUMPTIONS:
            out.append("* Assumes: " + "; ".join(m.ASSUMPTIONS) + ".\n")
        out.append(f"* Beyond the tests: {why}\n\n")
    out.append("## 3. Planted bugs\n\n")
    out.append("Every planted bug (`seeded/<id>`) was written from the property and the code, builds, passes all 508 tests, and has a demonstration. The property's own quick check decides it.\n\n")
    out.append("| planted bug | needs | own check |\n|---|---|---|\n")
    caught = json.load(open(os.path.join(V, "tools/seed_results.json")))
    for d in sorted(os.listdir(os.path.join(V, "seeded"))):
        meta = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
        out.append(f"| {d} | {meta['needs']} | {caught.get(d, 'not run')} |\n")
    out.append("\nThe following change lines that `fix:` commits brought (so that they are no planted bugs of the original code); they are kept under `regressions/` and are reported as well:\n\n")
    for d in sorted(os.listdir(os.path.join(V, "regressions"))):
        meta = json.load(open(os.path.join(V, "regressions", d, "meta.json")))
        out.append(f"* {d} ({meta['needs']}): {caught.get(d, 'not run')}\n")
    extra = os.path.join(V, "tools/design_mutants.md")
    if os.path.exists(extra):
        out.append("\n" + open(extra).read())
    out.append("\n" + open(os.path.join(V, "tools/design_tail.md")).read())
    open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))


main()
