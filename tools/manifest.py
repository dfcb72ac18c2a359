#!/usr/bin/env python3
"""Generates MANIFEST.json from check.py's table and properties.jsonl."""
import importlib.util, json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
spec = importlib.util.spec_from_file_location("check", os.path.join(H, "check.py"))
check = importlib.util.module_from_spec(spec); spec.loader.exec_module(check)
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
PURE = "a pure function of its operands: no schedule, clock, I/O, entropy, history or fault takes part, so simulation would only be input generation; "
NA = {
    "C27": PURE + "to_decimal scans an immutable string and allocates nothing",
    "C28": "decided entirely at compile time by template instantiation; there is no execution to simulate",
}
NOTE = {
    "fault": "seeded search over histories and fault sequences against the real headers with a reference model as oracle; sampled, not exhaustive; trusts the harness model, g++-14 and libstdc++",
    "thread": "seeded search over interleavings of the real code at memory-access granularity with a happens-before race check; sampled, not exhaustive; code inside libstdc++.so itself is not a scheduling point",
}
TECH = {
    "fault": "deterministic simulation: seeded histories with injected faults against a reference model",
    "thread": "deterministic simulation: seeded preemptive thread schedules with happens-before race detection and sequential reference results",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i in check.PROPS:
        fl = check.PROPS[i]["flavour"]
        checks.append({"property": i, "quick_cmd": "python3 check.py %s quick" % i, "thorough_cmd": "python3 check.py %s thorough" % i,
                       "evidence_file": "evidence/%s.json" % i, "technique": TECH[fl], "level": "exploration", "level_note": NOTE[fl]})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction in this commit")})
m = {"version": 1, "setup_cmd": "python3 check.py --build-all", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: all seams (operator new, stream buffers, element types, callbacks, iterators, std::random_device, pthread mutexes, compiler-instrumented memory accesses) are outside it. Replay a violation with: python3 check.py --replay FILE"}
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
print(len(checks), "checks", len(na), "not applicable")
