#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the property table of the simulator."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
have = set(re.findall(r'prop!\((?:D )?"(C\d\d)"', open(V + "/sim/dst/src/props.rs").read()))
na = {
 "C30": "A pure function of its input: no schedule, clock, fault or interleaving bears on it (label matching is exercised through routing by C03).",
 "C32": "The macOS and Windows backends do not compile on this machine, so no execution of them can be simulated here.",
}
extra = {
 "C08": " Peers of other versions are the same sources compiled with another package version.",
 "C21": " The C functions are called from Rust through their extern \"C\" signatures.",
 "C22": " The Node-API functions the binding calls are a stub JavaScript engine (values, classes, promises, threadsafe functions, clean-up hooks); the binding itself is real.",
}
note = ("Seeded search over simulated executions of the real ipmb code (compiled from /repo with every atomic access, system call, "
 "lock and sleep under the simulator's control): schedules, delays and the fault kinds named in DESIGN.md; every run is checked "
 "against a reference oracle over the recorded history. Assumes simk's model of the Linux kernel objects (compared with the real kernel "
 "by 'dst conform') and sequentially consistent memory; sampling, not exhaustion.")
checks = []
for p in props:
    i = p["id"]
    if i in na: continue
    if i not in have: continue
    checks.append(dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough",
        technique="deterministic simulation with fault injection (seeded schedule, crash and fault search)",
        level="exploration", level_note=note + extra.get(i, "")))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks,
  not_applicable=[dict(property=p["id"], reason=na.get(p["id"], "The check for this property is not built yet.")) for p in props if p["id"] in na or p["id"] not in have],
  notes="No hooks in /repo: system calls and libc functions are intercepted at link time, atomics through -Zsanitizer=thread instrumentation. Commits in /repo are repairs only (known_findings.jsonl lists them).")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks")
