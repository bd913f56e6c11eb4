#!/usr/bin/env python3
"""Writes MANIFEST.json. BUILT names the properties with a check."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
built = [l.strip() for l in open(os.path.join(HERE, "tools", "built"))]
T = "deterministic simulation with fault injection: real library and std::fs over a simulated kernel in one process, seeded search over inputs, I/O schedules and faults; minimised replay files"
NOTE = {
 "C01": "reference multimap of the saved tag against Tag::read_from of the simulated file",
 "C02": "strict reference parser compares all atoms outside the item list before/after",
 "C03": "bytes designated by every stco/co64 entry before/after, found by the reference parser",
 "C04": "strict reference parse of the saved file",
 "C05": "items, ftyp, audio info of the generator's model against every source and delivery; no write reaches the source",
 "C06": "image of an undisturbed save against images under disturbed delivery; crash right after the return",
 "C07": "image after a history of saves against the image of one save",
 "C08": "faults at any call of read/save/dump: Ok implies the healthy effect, a fired failure must surface as that I/O error",
 "C09": "image before against image after a refused save; retry against a healthy save",
 "C10": "images at crash points and power-loss subsets against allowed regions",
 "C11": "corrupted streams: outcome, simulated call bound, allocation bound, accessors",
 "C12": "corrupted and concurrently modified files: outcome, bounds, image",
 "C13": "audio info of the generator's model",
 "C14": "accepted bytes parsed by the reference parser and read back, under writer faults",
 "C15": "ordered multimap model, compared after each step and after reloads",
 "C16": "field model, compared after each step and after reloads",
 "C17": "sequential reference execution against scheduled interleavings at every system call",
 "C18": "namespace, contents and descriptor table diff around every call, with faults at any call",
 "C19": "the oracles of C01-C04 and transfer accounting on sparse files beyond 4 GiB",
}
NA = {
 "C20": "pure function of a value: no time, concurrency, I/O or multi-party behaviour for a simulation to control (that rendering never panics on tags read from damaged files is part of C11)",
 "C21": "pure functions on single bytes without any nondeterminism: nothing for simulation or fault injection to decide (their effect on stored files is covered by C13 and C16)",
}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3 check.py --build",
     "checks": [], "not_applicable": []}
for p in props:
    if p in built:
        m["checks"].append({"property": p, "quick_cmd": "python3 check.py %s --tier quick" % p,
            "thorough_cmd": "python3 check.py %s --tier thorough" % p, "technique": T, "level": "exploration",
            "level_note": NOTE[p]})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check not built yet")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
