"""regenerates MANIFEST.json from the checks present (run by hand)"""
import importlib, json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [H + "/vlib", H + "/checks"]
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
NA = json.load(open(H + "/not_applicable.json"))
checks, na = [], []
for p in props:
    f = H + "/checks/%s.py" % p["id"].lower()
    if p["id"] in NA or not os.path.exists(f):
        na.append({"property": p["id"], "reason": NA.get(p["id"], "no check built yet")})
        continue
    m = importlib.import_module(p["id"].lower())
    checks.append({"property": p["id"], "quick_cmd": "./check %s --quick" % p["id"], "thorough_cmd": "./check %s --thorough" % p["id"],
                   "technique": m.TECHNIQUE, "level": getattr(m, "LEVEL", "other"), "level_note": m.NOTE})
out = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
       "notes": "Static analysis: a libTooling exporter (tool/export.cpp) extracts the type-checked program; vlib/ interprets it abstractly; checks/ hold one rule set per property. See DESIGN.md."}
json.dump(out, open(H + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
