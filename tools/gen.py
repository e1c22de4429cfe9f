#!/usr/bin/env python3
"""Writes properties.jsonl, checks.txt and MANIFEST.json from the tables in tools/props_*.py."""
import json, sys, os, importlib
here = os.path.dirname(os.path.abspath(__file__)); root = os.path.dirname(here)
sys.path.insert(0, here)
P = []
NA = []
for m, crate in (("props_iri", "mc_iri"), ("props_core", "mc_core"), ("props_io", "mc_io"), ("props_cli", "mc_io")):
    if not os.path.exists(f"{here}/{m}.py"): continue
    mod = importlib.import_module(m)
    for p in mod.P: p.setdefault("crate", crate); P.append(p)
    NA += getattr(mod, "NA", [])
with open(f"{root}/properties.jsonl", "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
        if p["state"]: a["state"] = [{"name": n, "meaning": n} for n in (p["state"] if isinstance(p["state"], list) else [p["state"]])]
        if p["observe"]: a["observe_at"] = p["observe"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}, ensure_ascii=False) + "\n")
with open(f"{root}/checks.txt", "w") as f:
    for p in P:
        if p["tech"]: f.write(f"{p['id']} {p['crate']}\n")
man = {"version": 1, "setup_cmd": "./setup.sh",
  "checks": [{"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
     "technique": "model checking: " + p["tech"], "level": "model_checking", "level_note": "Exhaustive within: " + p["note"]} for p in P if p["tech"]],
  "not_applicable": NA,
  "notes": "Checks build from scratch into /verif/target (git-ignored). Known findings: known_findings.txt. See DESIGN.md."}
json.dump(man, open(f"{root}/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open(f"{root}/MANIFEST.json", "a").write("\n")
print(len(P), "properties,", len(man["checks"]), "checks")
