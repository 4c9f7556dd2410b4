"""Writes MANIFEST.json from properties.jsonl and the check modules present (run from /verif)."""
import ast, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, missing = [], []
for line in open(os.path.join(root, "properties.jsonl"), encoding="utf8"):
    p = json.loads(line)
    path = os.path.join(root, "mc", "checks", p["id"] + ".py")
    if not os.path.exists(path):
        missing.append({"property": p["id"], "reason": "no check built yet"})
        continue
    consts = {}
    for node in ast.parse(open(path, encoding="utf8").read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                consts[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    checks.append({
        "property": p["id"],
        "quick_cmd": f"./check {p['id']} quick",
        "thorough_cmd": f"./check {p['id']} thorough",
        "technique": consts.get("TECHNIQUE", "exhaustive bounded enumeration of executions of the real code against an exact reference model"),
        "level": "model_checking",
        "level_note": "Exhaustive within the bounds, nothing beyond them. " + consts["BOUNDS"]
                      + (" Assumes: " + "; ".join(consts.get("ASSUMPTIONS", [])) + "." if consts.get("ASSUMPTIONS") else ""),
    })
m = {"version": 1, "setup_cmd": "./setup", "checks": checks, "not_applicable": missing,
     "notes": "No hooks: the checks import the unmodified package from /repo's working tree (VERIF_REPO overrides the path)."}
json.dump(m, open(os.path.join(root, "MANIFEST.json"), "w", encoding="utf8"), indent=1)
print(len(checks), "checks", len(missing), "missing")
