#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per module in lsmon/checks, the rest under not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 "C01": ("AddressSanitizer/UBSan/libstdc++ assertions over generated and mutated inputs", "Every run of the real program under ASan+UBSan on valid, hostile and mutated command lines, programs and layouts; a report, signal or abort is a violation."),
 "C02": ("state vector monitor over emitted instruction streams", "Executes the emitted LS instructions of every gate on state vectors with every measurement outcome and compares with the gate up to Pauli frame; trusts the interpreter in lsmon."),
 "C03": ("online stream monitor plus state vector oracle on injected streams", "Compares the stream before and after the passes, and the injected blocks against S on state vectors."),
 "C04": ("offline checker over applied-instruction logs (exactly once, dependency order)", "Matches every applied instruction with the stream; trusts --printlli before/sliced."),
 "C05": ("lattice model replayed over recorded slices", "Every cell of every slice compared with a reference model of the lattice."),
 "C06": ("lattice model replayed over recorded slices (merge chains)", "Every applied merge's chain read back from the slice and checked cell by cell; stalled merges must be infeasible."),
 "C07": ("shortest-path oracle on every observed merge and stall", "Breadth first search on the model at every applied and every refused merge, for each graph search provider."),
 "C08": ("lattice model replayed over recorded slices (magic state schedule)", "Countdown, appearance, binding and consumption compared with the model on every slice."),
 "C09": ("lattice model replayed over recorded slices (rotation lifecycle)", "Every rotation followed from start to end, all boundaries compared on every slice."),
 "C10": ("reference parser monitor over generated and mutated programs", "What the program reports it read is compared with a reference parser; malformed lines must be refused."),
 "C11": ("reference partial order over printed dependency graphs and in-process DAG histories", "Printed graphs and popped heads compared with a reference dependency relation."),
 "C12": ("reference layout oracle over first slices and runs", "Generated and custom layouts compared cell by cell with reference constructions and reachability requirements."),
 "C13": ("cross-output monitor (JSON, counts, statistics)", "Every output channel of a run recomputed from the slices and instructions of the same run."),
 "C14": ("differential monitor over repeated runs and entry points", "Outputs of repeated, reordered and differently launched runs compared."),
 "C15": ("local operation chain monitor with stabilizer simulation", "Every local expansion read back, checked for adjacency and chain shape, and simulated against the operation it replaces."),
 "C16": ("edge-disjointness monitor over recorded edpc rounds", "Paths rebuilt from slices and local instructions of every round and checked for shared edges and crossings."),
 "C17": ("contract monitor over option values, errors and termination", "Documented values, invalid values and combinations, graceful mode, timeouts and stalled instructions."),
 "C18": ("lattice model replayed over recorded slices (operation ids)", "Ids predicted per cell, distinct per operation; runs without --op-ids compared."),
 "C19": ("lattice model replayed over recorded slices (pool of Y states)", "Every binding, return, preparation and wait of a Y state on layouts with few Y cells and programs with many requests."),
}
checks, na = [], []
with open(os.path.join(V, "properties.jsonl")) as f:
    props = [json.loads(l) for l in f]
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "lsmon", "checks", i.lower() + ".py")):
        t, note = TECH[i]
        checks.append({"property": i, "quick_cmd": "python3 -m lsmon %s quick" % i, "thorough_cmd": "python3 -m lsmon %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": "runtime monitoring: " + t, "level": "exploration", "level_note": note})
    else:
        na.append({"property": i, "reason": "check not built yet"})
doc = {"version": 1, "setup_cmd": "python3 -m lsmon.build fast:driver fast:dagops asan:driver", "checks": checks, "not_applicable": na,
       "notes": "No hooks are needed in /repo; the only commits there are fixes."}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1)
    f.write("\n")
