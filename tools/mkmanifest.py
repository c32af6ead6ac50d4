#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os, re
here = os.path.dirname(os.path.abspath(__file__))
props = [json.loads(l) for l in open(os.path.join(here, "..", "properties.jsonl"))]
go = open(os.path.join(here, "..", "sim/cmd/vsim/props.go")).read()
claimed = set(re.findall(r'^\t"(C\d\d)":', go, re.M))
NA = {
 "C24": "Pure functions of two in-memory values: no scheduling, time, I/O, network or failure can influence the result, so simulated schedules and faults add nothing to plain input generation.",
 "C25": "A constant table looked up by a number: there is no concurrency, time, I/O or second party for a simulator to control.",
 "C26": "Pure conversions between small integers and constant strings: nothing nondeterministic for a simulator to control. (Their use on the wire is decided as part of C03, C04, C18 and C21.)",
}
pending = "check under construction"
NOTE = {
 "C08": "Seeded search over schedules with context switches at library statements, against a per-call oracle; the same scenarios also run under Go's race detector, whose happens-before analysis is used as one more invariant of the simulated schedules.",
}
default_note = "Seeded search, not proof: evidence is the number of distinct simulated histories without a violation. Trusts the standard library with the listed seams, the reference model of OFX in sim/model and the simulated server."
checks, na = [], []
for p in props:
    i = p["id"]
    if i in claimed:
        checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
            technique="deterministic simulation with fault injection (seeded schedules, network, clock, disk and entropy; real library code)",
            level="exploration", level_note=NOTE.get(i, default_note)))
    else:
        na.append(dict(property=i, reason=NA.get(i, pending)))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(here, "..", "MANIFEST.json"), "w"), indent=1)
