#!/usr/bin/env python3
"""MANIFEST.json from checks.json + properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks = json.load(open(V + "/checks.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = json.load(open(V + "/not_applicable.json"))
out = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in checks:
        c = checks[i]
        n = sum(len(x) for x in c.get("units", {}).values())
        out["checks"].append({"property": i, "quick_cmd": f"./check {i} quick", "thorough_cmd": f"./check {i} thorough",
            "technique": c.get("technique", "contract-based deductive verification (Verus) of functions extracted from /repo on every run"),
            "level": c.get("level", "proof"),
            "level_note": c.get("note", f"{n} functions of /repo under contract, every obligation discharged by Verus/Z3 for all inputs.") + (" Bounded (seeded concrete search, not proved): " + "; ".join(c["bounded"]) + "." if c.get("bounded") else "") + " Trusted: specifications of the library types in units/*.vu, the listed textual rewrites of the extractor, Verus and Z3."})
    else:
        out["not_applicable"].append({"property": i, "reason": NA.get(i, "no check built yet")})
out["notes"] = "See DESIGN.md. Evidence per run in evidence/<id>.json."
json.dump(out, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(out["checks"]), "checks;", [x["property"] for x in out["not_applicable"]])
