"""Writes MANIFEST.json from properties.jsonl and the checks that exist."""
import ast, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
NA = {}
p = os.path.join(here, "tools", "not_applicable.json")
if os.path.exists(p):
    NA = json.load(open(p))
checks, na = [], []
for pr in props:
    i = pr["id"]
    f = os.path.join(here, "checks", i + ".py")
    if not os.path.exists(f) or i in NA:
        na.append({"property": i, "reason": NA.get(i, "the check for this property is still being built")})
        continue
    tree = ast.parse(open(f).read())
    consts = {}
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            try:
                consts[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    checks.append({
        "property": i,
        "quick_cmd": f"/opt/venv/bin/python run.py {i} --tier quick",
        "thorough_cmd": f"/opt/venv/bin/python run.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": consts.get("TECHNIQUE", "property-based testing (Hypothesis) against a reference oracle"),
        "level": consts.get("LEVEL", "exploration"),
        "level_note": consts.get("LEVEL_NOTE", "Generated-input search; holds on everything explored, no proof of absence. ")
        + (" Assumes: " + "; ".join(consts["ASSUMPTIONS"]) if consts.get("ASSUMPTIONS") else ""),
    })
m = {"version": 1, "setup_cmd": "/opt/venv/bin/python vp/boot.py", "checks": checks, "not_applicable": na,
     "notes": "All checks share vp/core.py: seeded Hypothesis generation of JSON-able cases, one forked process per shard, "
              "shrunk failures saved under replays/ and re-run with: run.py <ID> --replay FILE. No hooks in /repo are needed."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
