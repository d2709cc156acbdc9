#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from vf.registry import CHECKS  # noqa: E402

I = "include/maec/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), technique="", note="", level="model_checking"):
    P.append({
        "prop": {
            "id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                        "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                        "observe_at": list(observe), "hook_needed": None}},
        "technique": technique, "note": note, "level": level})


SCHED = ("TLA+ protocol model (TLC exhaustive, refines an abstract bounded queue) + trace validation of the real module "
         "under a controlled scheduler")
SCHED_NOTE = ("TLC visits every interleaving of the locking protocol for 2-4 sessions and shows that it refines the abstract queue; "
              "thousands of executions of the real code per run (schedules from the model, preemption-bounded systematic, "
              "random and priority-based, with spurious wake-ups) are recorded and each is checked by TLC to be a behaviour of "
              "the abstract queue. Trusts: the scheduler's serialisation (no weak-memory effects), preemption at "
              "synchronisation calls and function boundaries.")

prop("C01", "Background processing delivers every buffer exactly once, in order",
     "When part of a chain runs on a background thread, the buffers the caller receives are exactly those upstream produced since the "
     "last start, in production order, with samples, channel count and sample rate untouched: none lost, repeated, reordered or mixed. "
     "Buffers finished before or while the module is being stopped stay retrievable, in order, after the stop; a call that has nothing to "
     "deliver because the module was stopped delivers no buffer at all.",
     ["schedules", "histories"], "every interleaving of the background thread with any sequence of start, process, size, limit and stop calls",
     "The tests run a handful of wall-clock timed sequences in which the scheduler almost never preempts inside a critical section.",
     [I + "parallel.hpp"], [("queue guarded by a mutex", "ParallelModule::run_thread / meta_process")],
     [("queue", "buffers waiting", "ParallelModule::queue"), ("done", "told to stop", "ParallelModule::done")],
     ["meta_process + get_buffer of the module or of a sink in front of it"], SCHED, SCHED_NOTE)
prop("C02", "Background look-ahead is bounded and resumes when there is room",
     "The background thread never begins producing a further buffer while the number of waiting buffers is at or above the configured limit, so no more "
     "buffers wait than the largest limit in force. Whenever fewer buffers wait than the limit (after a removal or after the limit is raised) "
     "production resumes by itself until the limit is reached.",
     ["schedules", "histories"], "every interleaving and every sequence of limit changes, removals, starts and stops",
     "Tests only poll the size while one thread sleeps between buffers; a missed wake-up or an off-by-one under contention is invisible to them.",
     [I + "parallel.hpp"], [("condition wait on queue size", "ParallelModule::run_thread"), ("notification after removal", "ParallelModule::meta_process")],
     [("qsize", "limit", "ParallelModule::qsize")], ["size()", "upstream production begin"], SCHED, SCHED_NOTE)
prop("C03", "Stopping background processing always returns and quiesces upstream",
     "A stop request always returns, whatever the background thread and other callers are doing - several stops at once from different threads, a stop that "
     "upstream issues while it is being processed in the background, a stop of what was never started - and a caller blocked waiting for a buffer is released. "
     "Once a stop made by any caller other than the upstream chain itself has returned, nothing upstream is processed any more until the next start. When a chain is stopped as a whole, "
     "upstream modules are only stopped after background processing has ended. Destroying the module ends background processing like a stop.",
     ["schedules", "histories"], "every interleaving of stop with production, waiting, restart, repeated and concurrent stops, destruction and stops issued from upstream",
     "A lost wake-up needs a preemption between a condition check and the wait; the tests never produce one and would only hang if they did.",
     [I + "parallel.hpp"], [("flag store, notification and join", "ParallelModule::stop"), ("ordering of chain stop", "ParallelModule::meta_stop")],
     [("done", "told to stop", "ParallelModule::done")], ["stop() return", "upstream process/stop calls"], SCHED, SCHED_NOTE)
prop("C04", "Every background session starts fresh",
     "Starting again - after a stop, after upstream stopped the module itself, or while it is still running - behaves like the first start: buffers left over from an earlier session are discarded and never delivered, "
     "production and delivery resume, the look-ahead limit in force still applies, and never does more than one thread process upstream; upstream modules are not started while "
     "background processing is running. This holds for any number of stop/start cycles and whatever was left in the queue or in flight.",
     ["schedules", "histories"], "every interleaving and every number of stop/start cycles, with or without leftovers, and of starts while running",
     "One test restarts once from a quiet state; leftovers in flight and repeated cycles are not reached.",
     [I + "parallel.hpp"], [("queue cleared under the lock on start", "ParallelModule::start")],
     [("queue", "buffers waiting", "ParallelModule::queue")], ["size() and process() after a restart"], SCHED, SCHED_NOTE)

TODO = "check under construction"


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p["prop"]) + "\n")
    checks, na = [], []
    for p in P:
        i = p["prop"]["id"]
        if i in CHECKS:
            checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick python3 check.py {i}",
                           "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                           "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
        else:
            na.append({"property": i, "reason": p.get("reason") or TODO})
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
         "notes": "Specification language: TLA+ checked with TLC. No hooks in /repo: every driver uses the public API."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
    print(len(P), "properties,", len(checks), "claimed")


if __name__ == "__main__":
    for mod in ("props_chain", "props_flow", "props_env", "props_buf", "props_io", "props_dsp"):
        try:
            m = __import__("tools." + mod, fromlist=["x"])
            m.define(prop)
        except ModuleNotFoundError:
            pass
    main()
