#!/usr/bin/env python3
"""Writes MANIFEST.json (kept next to the list of claimed properties below)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
TECH = "deterministic simulation with fault injection (seeded search over schedules, histories and faults, against a reference model)"
TRUST = " Sampling, not proof: assumes the reference models in sim/src/model, the checked build (debug assertions, overflow checks, std unchecked-access preconditions) and this toolchain."
CLAIMED = {
 "C01": "Replicated graphs over a faulty simulated network; every pair compared with an exact rational-free closure model after every delivery, and all replicas compared after heal.",
 "C02": "Admission decided by an independent negative-cycle test before each addition; full state compared after each acceptance and refusal.",
 "C03": "Batches and merges, consistent or not, with continuations on emptied graphs, compared with the model and with fresh graphs.",
 "C04": "Every report of every operation in the histories of the graph and agenda worlds compared with the observed state before and after.",
 "C05": "Durable exports truncated at simulated crash points, reordered, repeated, re-imported by every entry point; compared cell by cell with the original.",
 "C06": "Batch sources that unwind at chosen points, retried; compared with an uninterrupted twin.",
 "C07": "A second party edits the constraint at accessor calls (every accessor is a scheduling point); the result must be explained by one snapshot of given answers.",
 "C08": "Resize/shrink/reset/clone interleaved with additions, refusals, batches, merges and fatal failures; compared with the model of projections.",
 "C09": "Clients restricting schedulers over a shared graph; after each acceptance the slots are bracketed between the exact union of complete schedules and what windows and graph allow, and equal to it for interval windows. Exactness with holes is not claimed; feasibility is skipped above 150 combinations of pieces (counted).",
 "C10": "Refusals at every point, with holes, on forks and threads and inside other operations: slots compared with those before, and every refusal justified by an exact feasibility computation (skipped above 150 combinations, counted).",
 "C11": "Operations of clients dispatched to parked threads one at a time, forked, and nested inside accessors of each other's windows; untouched schedulers and the graph re-read after each step, each lineage replayed alone on a fresh graph. Interleavings inside an operation only happen at accessor calls (the code has no other seam).",
 "C12": "Replicas of time sets edited through a lossy network with duplicates and reorderings; each state compared with an interval-arithmetic model.",
 "C13": "Queries in the middle of edit histories compared with the model, all window forms.",
 "C14": "Saves torn by crashes, snapshots plus replay of the log, in JSON and two compact formats (one with unsized sequences); compared with a replica which never crashed.",
 "C15": "Trees of operators with a probe on each edge, over live sources which delay, break, end early or resume, pulled by interleaved consumers; each delivery compared with the model.",
 "C16": "Same trees; look-ahead, fusedness and size hints checked at every pull on every edge.",
 "C17": "clock_gettime interposed at link time: skewed, drifting, jumping clocks that advance while read; timestamps compared with the readings given.",
 "C24": "Accessors of user windows and constraints unwind at chosen calls inside edits of sets, intervals, schedulers and graphs, which are then retried; state compared with the bracket before, and with an uninterrupted twin or the model after.",
 "C18": "Clients driven by simulated clocks step, skip, stall, crash and restart; every date compared with exact arithmetic, up to both ends of time.",
}
EXTRA = os.path.join(here, "claimed_extra.json")
if os.path.exists(EXTRA): CLAIMED.update(json.load(open(EXTRA)))
PURE = "Pure function of its arguments: no concurrency, time, I/O, scheduling, fault or history takes part in it, so deterministic simulation with fault injection has nothing to decide; random inputs alone would be another technique (property-based testing)."
NA = { "C19": PURE, "C20": PURE, "C21": PURE, "C22": PURE, "C23": PURE }
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
m = {
 "version": 1,
 "setup_cmd": "bash setup.sh",
 "checks": [ {"property": p, "quick_cmd": f"bash check.sh {p} quick", "thorough_cmd": f"bash check.sh {p} thorough",
   "technique": TECH, "level": "exploration", "level_note": CLAIMED[p] + TRUST} for p in ids if p in CLAIMED ],
 "not_applicable": [ {"property": p, "reason": NA.get(p, "check under construction")} for p in ids if p not in CLAIMED ],
 "notes": "No hooks in /repo are needed: the library's seams are its traits (TimeConstraint, TimeBounds, iterators) and the system clock, interposed at link time. Replay files: bash replay.sh replays/<file>.json. Findings and fixes: known_findings.txt, DESIGN.md.",
}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
