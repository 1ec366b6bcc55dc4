#!/usr/bin/env python3
"""Write DESIGN.md from design/*.md, the properties, the checks and the planted bugs."""
import ast, glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

props = [json.loads(l) for l in open(os.path.join(R, "properties.jsonl"))]
out = [open(os.path.join(R, "design", "head.md")).read()]
notes = json.load(open(os.path.join(R, "design", "notes.json")))
out.append("## The properties\n\nThe statements are in `properties.jsonl`.  All are decided by runtime monitoring of\nthe real code (level: exploration).  *Cases* are quick / thorough.\n\n")
for p in props:
    fn = os.path.join(R, "mgv", "checks", p["id"].lower() + ".py")
    a = {}
    for n in ast.walk(ast.parse(open(fn).read())):
        if isinstance(n, ast.ClassDef):
            for s in n.body:
                if isinstance(s, ast.Assign) and s.targets[0].id in ("technique", "level_note", "cases"):
                    try:
                        a[s.targets[0].id] = ast.literal_eval(s.value)
                    except ValueError:
                        pass
    c = a.get("cases", {})
    out.append(f"### {p['id']} {p['title']}\n\n")
    out.append(f"*Decided by* {a['technique'].replace('runtime monitor: ', '')}.\n")
    out.append(f"*Workload and bounds.* {a['level_note']}\n")
    out.append(f"*Beyond the tests.* {p['why_tests_cant']}\n")
    out.append(f"*Cases* {c.get('quick')} / {c.get('thorough')}.")
    if p["id"] in notes:
        out.append(" " + notes[p["id"]])
    out.append("\n\n")
out.append(open(os.path.join(R, "design", "tail.md")).read())
out.append("## Planted bugs\n\nEvery planted bug passes the stable tests; its demonstration fails with it and\npasses without it.  `tools/plant.py tests|demos|checks` repeats the confirmation.\nAll are caught by the quick check of the property they were written for; *first*\nsays what happened when the bug was first tried.\n\n| id | property | needs | first |\n|---|---|---|---|\n")
first = json.load(open(os.path.join(R, "design", "first.json")))
for d in sorted(glob.glob(os.path.join(R, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    out.append(f"| {i} | {m['property']} | {m['needs'].replace('|', '/')} | {first.get(i, 'caught')} |\n")
open(os.path.join(R, "DESIGN.md"), "w").write("".join(out))
