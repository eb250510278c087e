#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and checks.json"""
import json, os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
checks = json.load(open(os.path.join(V, "checks.json")))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": [],
     "notes": "No hooks: the monitors observe through the public API, the simulated clock and the sanitizers. "
              "A violation's replay file is re-run with: python3 run.py replay <file>"}
for p in props:
    i = p["id"]
    if i in checks:
        c = checks[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s quick" % i,
                            "thorough_cmd": "python3 run.py %s thorough" % i, "evidence_file": "evidence/%s.json" % i,
                            "technique": c.get("technique", "runtime monitoring: reference-model oracle over generated histories, ASan+UBSan"),
                            "level": c.get("level", "exploration"),
                            "level_note": c.get("note", "Holds on every generated execution (seeded, boundary-biased) in a release and a "
                                                "debug build under ASan+UBSan; not proved beyond them. Trusts the harness's reference model, g++ and "
                                                "the host platform with its simulated clock.")})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check not built yet")})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks", len(m["not_applicable"]), "not applicable")
