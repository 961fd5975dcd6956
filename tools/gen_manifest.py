#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the list of built checks."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
src = open(os.path.join(root, "sim/src/props/mod.rs")).read()
built = re.findall(r'id: "(C\d\d)"', src)
T = {
 "C01": "deterministic simulation: seeded chunking, short reads and interruptions of a simulated stream; oracle: generated document model and plain delivery",
 "C02": "deterministic simulation: stream and seek faults at drawn offsets; oracle: what the load still needed at the fault",
 "C03": "deterministic simulation: end of stream at drawn crash points; oracle: completeness of every prefix, known from generation",
 "C04": "deterministic simulation: mid-load faults on filled containers; oracle: complete records before the failure",
 "C05": "deterministic simulation: corrupted stored bytes with a counting allocator and call budgets; oracle: no panic/abort/hang/over-allocation, sound mesh",
 "C06": "deterministic simulation: seeded interleaving and abandonment of incremental readers under faults; oracle: bulk load of the same stream",
 "C07": "deterministic simulation: damaged line under seeded delivery; oracle: generated position of the damage",
 "C08": "deterministic simulation: sink with short writes, interruptions, refusals and hard errors; oracle: faultless sink",
 "C09": "deterministic simulation: crash of write-back storage at drawn points, then reload under faults; oracle: the saved object",
 "C10": "deterministic simulation: controlled hash seeds; oracle: independent reference models",
 "C11": "deterministic simulation: controlled hash seeds; oracle: ordered reference models",
 "C12": "deterministic simulation: edit/load/save/crash/restart sessions under faults; oracle: plain reference model of every container",
 "C13": "deterministic simulation: panics injected at drawn calls of user code; oracle: reference state and a twin without the interruption",
 "C15": "deterministic simulation: seeded interleaving of several operations at every call into the environment, nested or on threads of which one proceeds at a time, under stream and sink faults; oracle: each operation alone",
 "C14": "deterministic simulation: documents back to back in one stream under seeded delivery; oracle: generated document ends",
}
NOTE = {i: "Sampled: seeded search over many runs, nothing enumerated exhaustively. Real library code in one process; stubbed are only the byte source/sink, storage, the hash seed and user callbacks. A clean batch is evidence, not proof." for i in T}
NOTE["C05"] += " Memory and call bounds are generous constants, so moderate over-allocation is not reported."
checks = [dict(property=i, quick_cmd="bash run.sh check " + i, thorough_cmd="VERIF_TIER=thorough bash run.sh check " + i,
               technique=T[i], level="exploration", level_note=NOTE[i]) for i in built]
na = []
for p in props:
    if p["id"].startswith("N"):
        na.append(dict(property=p["id"], reason="Pure function of its arguments (no schedule, clock, I/O, fault, hash order or second party its answer could depend on); deterministic simulation has nothing to control here, it would be input generation under another name."))
    elif p["id"] not in built:
        na.append(dict(property=p["id"], reason="Check not built yet."))
m = dict(version=1, setup_cmd="bash run.sh build",
         hooks=dict(guard="none", enable="No hooks are needed: readers, writers, containers, callbacks and (through getrandom) the hash seed are reached through existing seams.", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="All checks are one simulator (sim/). Replay a violation with: bash run.sh replay <file>.")
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
