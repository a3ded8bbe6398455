#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
T = "deterministic simulation with fault injection: "
TECH = {
 "C01": "seeded histories of sessions on a simulated disk, refinement against a list of rows",
 "C02": "seeded faults and crashes at every I/O step of a save, old-or-new check on the durable state",
 "C03": "seeded interleavings of sessions at I/O steps, linearizability against an atomic register",
 "C04": "seeded histories of file changes and rebuilds, refinement against an independent reader",
 "C05": "seeded read faults and concurrent changes during rebuilds, refinement against an independent reader",
 "C06": "seeded histories of alias operations with faults and restarts, refinement against an alias map",
 "C07": "seeded histories of write attempts under knobs and faults, read-back against an independent evaluation",
 "C08": "seeded faults and crashes at every I/O step of a material write, old-or-new check on the durable state",
 "C09": "seeded read splits, faults, replacements and interleavings, result attributable to one content",
 "C10": "seeded faults, crashes and races of first use on the configuration, refinement against a register",
 "C11": "simulated user and download with seeded faults and crashes, check of recorded against confirmed state",
 "C12": "seeded thread schedules at line and bytecode granularity, results equal to those alone, arguments unchanged",
 "C19": "seeded histories of grid operations, user edits, faults and restarts, refinement against three tables",
 "C20": "seeded histories of configuration writes, faults and openings, refinement against the configuration in force",
 "C21": "seeded interleavings of readers, writers and rebuilds at I/O steps with faults, per-file linearizability",
 "C22": "seeded faults inside calls and at I/O steps of operations on live objects, old-or-new check against a twin session",
 "C13": "seeded histories of replacements, rebuilds and faults, evaluation against an independent reference",
}
PURE = {
 "C14": "Spectrum.convert_to/convert_from are pure functions of their arguments: no schedule, clock, fault or I/O takes part, so simulation cannot decide it (conversions are exercised on the way by C12 and C13).",
 "C15": "The model classes are pure functions of parameters and spectrum; no nondeterminism or fault can influence them (formulas read from files are covered by C13).",
 "C16": "The mixing rules are pure functions of two materials and a fraction; only their freedom from side effects depends on schedules, which is part of C12.",
 "C17": "Extrapolation is a pure function of the data and the target; only its effect on shared objects depends on histories, which is part of C12 and C13.",
 "C18": "Constructor validation is a pure function of the arguments, with nothing to schedule or to fail.",
}
checks = []
for prop, text in sorted(TECH.items()):
    checks.append({"property": prop, "quick_cmd": "python3 check.py %s --tier quick" % prop,
                   "thorough_cmd": "python3 check.py %s --tier thorough" % prop,
                   "evidence_file": "evidence/%s.json" % prop, "technique": T + text, "level": "exploration",
                   "level_note": "Seeded search: every run is exactly repeatable from its seed and the real library code runs on a simulated disk, clock and scheduler. A quiet run is evidence over the sampled histories, schedules and faults (counts in the evidence file), not a proof. Trusted: the simulator's disk and crash model, the independent reference in sim/, and numpy, pandas, scipy, PyYAML as installed."})
doc = {"version": 1, "setup_cmd": "python3 check.py --self-test", "checks": checks,
       "not_applicable": [{"property": p, "reason": r} for p, r in sorted(PURE.items())],
       "notes": "No hooks in /repo: the seams are Python's own (open, os.*, input, settrace), replaced inside the simulator process only. Genuine defects found are repaired by fix: commits listed in known_findings.txt."}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(doc, f, indent=1); f.write("\n")
