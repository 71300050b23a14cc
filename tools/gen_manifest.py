#!/usr/bin/env python3
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
NOTES = {}
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "props", i + ".py")):
        src = open(os.path.join(V, "props", i + ".py")).read()
        mods = sorted(set(x for x in os.listdir(os.path.join(V, "spec")) if '"%s"' % x[:-4] in src))
        checks.append({
            "property": i, "quick_cmd": "bin/check %s --tier quick" % i, "thorough_cmd": "bin/check %s --tier thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "TLA+ specification (%s) model checked with TLC, bound to the code both ways: model behaviours replayed on strtk, recorded strtk runs validated by TLC" % ", ".join(mods),
            "level": "model_checking",
            "level_note": "exhaustive within the constants of the model for the design and for the replayed behaviours; recorded runs sample larger inputs; memory errors are observed with address and undefined-behaviour sanitizers",
        })
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 -c \"import shutil; shutil.rmtree('build', ignore_errors=True)\"; java -version && g++ --version",
     "checks": checks, "not_applicable": na,
     "notes": "All machinery is TLA+/TLC with replay and trace validation; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", [x["property"] for x in na])
