#!/usr/bin/env python3
"""Writes MANIFEST.json (run after changing what is claimed)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 "C01": "real generator binaries; hard faults (errno, zero-length writes) placed in every class of input/output operation, sticky or single, plus retryable noise",
 "C02": "real generator binaries; EINTR and short transfers at seeded rates and seeded places, compared with an undisturbed run",
 "C03": "real generator binaries; another process creates files at the output paths between any two operations; residue before the start; faults",
 "C04": "real generator binaries; refused specifications (edits, miscounted conflicts, read faults) against snapshots of the whole directory",
 "C05": "real generator binaries; crash/fault histories followed by one fault free forced run",
 "C06": "real generator binaries; dangerous option values, links, faults and kills against snapshots; writes outside the scratch directory are intercepted",
 "C07": "several real generator processes, scheduler decides which performs its next file operation; output compared with the solo runs",
 "C08": "real generator binaries; divided specifications against the whole ones, faults on injected files",
 "C09": "real generator binaries; torn, flipped, lost, doubled and swapped blocks in specifications, at rest and while being read",
 "C10": "instrumented libraries, simulated threads preempted at basic blocks, generations compared with fresh runs",
 "C11": "instrumented libraries, simulated I/O errors, short writes and retries on the library's file writing",
 "C12": "instrumented lexan against an independent model of the token stream, random lexicons, damaged text",
 "C13": "instrumented lexan, random injection histories against a stack model",
 "C14": "instrumented lexan, random texts, line endings and injection histories against a location model",
 "C15": "instrumented lexan on simulated threads preempted at basic blocks, every stream compared with its solo run",
 "C16": "instrumented engines with random tables and injecting actions against an independent LR engine model",
 "C17": "instrumented engines, damaged texts, reporter calls compared with the model's",
 "C18": "instrumented engines with random recovery tables, damaged texts, against the recovery model",
 "C19": "instrumented engines on simulated threads, panicking callbacks, repeated parses, against solo runs",
 "C20": "parsers generated from random grammars by the real generators, compiled and simulated against the grammar model",
 "C21": "augmented engine with random predicates and generated augmented parsers against the model",
}
PROC = "deterministic simulation of generator processes: seeded operation schedules and fault injection at the libc seam, differential and snapshot oracles"
LIB = "deterministic simulation in one process: seeded cooperative scheduler and fault injection, history checked against an executable reference model"
NA = {
 "C30": "pure function of the grammar: no schedule, time, I/O, crash or history it could depend on (the parts that meet faults are simulated under C20)",
 "C31": "pure function of the specification: nothing for a scheduler or fault injector to decide",
 "C32": "pure function of the constructor's arguments: nothing for a scheduler or fault injector to decide",
 "C33": "pure function of the specification text; termination and rejection of damaged text are simulated under C09",
 "C34": "pure function of the specification; compilation of the generated parsers is exercised under C20",
}
claimed = os.environ.get("CLAIMED", "").split() or [l.strip() for l in open(f"{ROOT}/tools/claimed")]
claimed = [c for c in claimed if c]
checks = []
for c in claimed:
    proc = int(c[1:]) < 10
    checks.append({
        "property": c,
        "quick_cmd": f"./check.sh {c}",
        "thorough_cmd": f"./check.sh {c} --tier thorough",
        "evidence_file": f"evidence/{c}.json",
        "technique": PROC if proc else LIB,
        "level": "exploration",
        "level_note": NOTE[c],
    })
na = [{"property": k, "reason": v} for k, v in sorted(NA.items())]
for c in sorted(NOTE):
    if c not in claimed:
        na.append({"property": c, "reason": "check under construction"})
parts = open(f"{ROOT}/tools/parts").read().split()
m = {
    "version": 1,
    "setup_cmd": "bash sim/build.sh " + " ".join(parts),
    "checks": checks,
    "not_applicable": na,
}
json.dump(m, open(f"{ROOT}/MANIFEST.json", "w"), indent=1)
