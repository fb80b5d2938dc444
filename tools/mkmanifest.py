#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
TECH = {
    "R": "deterministic simulation with fault injection: seeded search over schedules, fragmentation and faults of generated peers",
    "C": "deterministic simulation with fault injection: the generator runs on a simulated file system with seeded write errors, short writes, full disks and crashes",
    "T": "deterministic simulation with fault injection: generated TypeScript peers in one process under a seeded scheduler and network",
}
NOTE = {
    "R": "Real generated producer and consumers (compiled from the CLI's output for the current tree) run thousands of seeded executions under a simulated executor, clock, randomness and network; "
         "invariants and history checks against a reference model decide each. A sample, not all, of the executions; one pair of definitions that uses every kind of message and field; "
         "trusts the simulated transport to keep the guarantees of the transport traits.",
    "C": "The real binary of the current tree runs in scratch directories with libc file calls interposed; faults and crash points are drawn by seed. A sample, not all, of histories; "
         "a crash keeps what was written before it (no reordering below the system call level).",
    "T": "The real generated TypeScript, compiled by tsc, runs under a seeded event scheduler with simulated timers and network. A sample, not all, of executions.",
}
checks = []
for i in ids:
    if i in NA:
        continue
    checks.append({
        "property": i, "quick_cmd": "tools/check.py %s quick" % i, "thorough_cmd": "tools/check.py %s thorough" % i,
        "technique": TECH[i[0]], "level": "exploration", "level_note": NOTE[i[0]],
    })
m = {
    "version": 1, "setup_cmd": "tools/setup.sh", "checks": checks,
    "not_applicable": [{"property": i, "reason": NA[i]} for i in ids if i in NA],
    "notes": "No hooks in /repo: the seams are the crates and packages the generated code names. Findings: known-findings.txt. Replay: tools/check.py replay FILE (R), tools/ts.py replay FILE (T), tools/files.py replay FILE (C).",
}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
