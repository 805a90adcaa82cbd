#!/usr/bin/env python3
"""Source of /verif/MANIFEST.json."""
import json, os
T = {
 "C01": "runtime monitor: brute-force reference oracle over index queries",
 "C02": "runtime monitor: brute-force / sweep reference oracle over self-joins",
 "C03": "runtime monitor: brute-force / sweep reference oracle over joins",
 "C04": "runtime monitor: distance oracle over proximity queries",
 "C05": "runtime monitor: invariant checker over recorded tree walks",
 "C06": "runtime monitor: interval-arithmetic reference oracle",
 "C07": "runtime monitor: interval-arithmetic reference oracle",
 "C08": "runtime monitor: exact rational segment-intersection oracle",
 "C09": "runtime monitor: exact integer oracle",
 "C10": "runtime monitor: exact definition oracle over generated line strings",
 "C11": "runtime monitor: reference oracle for duplicates and ordering",
 "C12": "runtime monitor: exact definition oracle over generated collections",
 "C13": "runtime monitor: exact slab-decomposition oracle, cross-checked with a second oracle",
 "C14": "runtime monitor: exact slab-decomposition oracle, cross-checked with a second oracle",
 "C15": "runtime monitor: totality and rejection monitor under hostile floats",
 "C16": "runtime monitor: metamorphic oracle",
 "C17": "runtime monitor: exact monotone-chain oracle",
 "C18": "runtime monitor: reference model of boundaries",
 "C19": "runtime monitor: reference model of the wrapped geometry",
 "C20": "runtime monitor: reference model of vertex sequences",
 "C21": "runtime monitor: write / read-back bit-equality oracle",
 "C22": "runtime monitor: construction-time oracle over mutated texts",
 "C23": "runtime monitor: repeated and concurrent calls compared; ThreadSanitizer",
 "C24": "runtime monitor: exact point-in-polygon oracle",
 "C25": "runtime monitor: reference model of bounding boxes",
 "C26": "AddressSanitizer, Miri (thorough: ThreadSanitizer) over the workloads of all properties",
 "C27": "runtime monitor: operation counts of an instrumented coordinate type against output-sensitive bounds",
 "C28": "runtime monitor: allocation counts of an instrumented allocator, growth over batches and linear bounds",
}
NOTE = "Every execution observed through the public interface agreed with an independent oracle; assumes the oracle and generators are right, and says nothing about inputs not generated."
NOTES = {
 "C23": "Repeated, rebuilt and concurrent calls agreed and ThreadSanitizer saw no race in the executions observed; other schedules are not excluded.",
 "C26": "No sanitizer or interpreter report, and no overflow, in the executions observed; other inputs and schedules are not excluded.",
}
m = {"version": 1, "setup_cmd": "python3 run.py setup",
     "checks": [dict(property=k, quick_cmd="python3 run.py %s quick" % k, thorough_cmd="python3 run.py %s thorough" % k,
                     technique=v, level="exploration", level_note=NOTES.get(k, NOTE)) for k, v in T.items()],
     "not_applicable": [],
     "notes": "No hooks: every property is observable through the public interface. Seeds come from VERIF_SEED. Thorough runs observe for VERIF_THOROUGH_S seconds at most (780 by default)."}
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
