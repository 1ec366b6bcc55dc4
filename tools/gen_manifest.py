"""Writes /verif/MANIFEST.json from the checks that exist."""
import ast
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(ln) for ln in open(os.path.join(ROOT, "properties.jsonl"))]
checks = []
missing = []
for p in props:
    fn = os.path.join(ROOT, "mgv", "checks", p["id"].lower() + ".py")
    if not os.path.exists(fn):
        missing.append(p["id"])
        continue
    attrs = {}
    for node in ast.walk(ast.parse(open(fn).read())):
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name) and \
                node.targets[0].id in ("technique", "level_note"):
            attrs[node.targets[0].id] = ast.literal_eval(node.value)
    checks.append({
        "property": p["id"],
        "quick_cmd": "python3 run.py %s" % p["id"],
        "thorough_cmd": "VERIF_TIER=thorough python3 run.py %s" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": attrs["technique"],
        "level": "exploration",
        "level_note": attrs["level_note"],
    })
json.dump({"version": 1, "setup_cmd": "python3 tools/selfcheck.py",
           "checks": checks,
           "not_applicable": [{"property": i, "reason": "no check has been built yet"} for i in missing]},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", "without:", missing)
