"""Writes DESIGN.md from design/*.md, the check modules, evidence and seeded results (run from /verif)."""
import ast, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def path(*p): return os.path.join(root, *p)
notes = json.load(open(path("design", "notes.json")))
costs = json.load(open(path("design", "costs.json"))) if os.path.exists(path("design", "costs.json")) else {}
results = json.load(open(path("design", "seeded.json"))) if os.path.exists(path("design", "seeded.json")) else {}
fixed = [f[len("fixed: "):] if f.startswith("fixed: ") else f for f in json.load(open(path("known_findings.json")))["fixed"]]
out = open(path("design", "head.md")).read().replace("{nfixed}", str(len(fixed))).replace("{fixed}", "\n".join("- " + f for f in fixed))
out += "\n## The properties\n\nAll are decided by exhaustive enumeration of executions of the real code against the named oracle.\n"
for line in open(path("properties.jsonl")):
    p = json.loads(line)
    consts = {}
    for node in ast.parse(open(path("mc", "checks", p["id"] + ".py")).read()).body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try: consts[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError: pass
    c = costs.get(p["id"], {})
    out += f"\n### {p['id']} {p['title']}\n\n{p['statement']}\n\n- Explored: {consts['BOUNDS']}\n- Oracle: {notes[p['id']]}\n"
    if consts.get("ASSUMPTIONS"): out += "- Assumes: " + "; ".join(consts["ASSUMPTIONS"]) + ".\n"
    out += f"- Beyond the tests: {p['why_tests_cant']}\n"
    for tier in ("quick", "thorough"):
        if tier in c: out += f"- Cost, {tier}: {c[tier]['wall_s']:.0f} s, {c[tier]['traces']} traces, {c[tier]['transitions']} transitions, {c[tier]['states']} states.\n"
out += "\n" + open(path("design", "seeded.md")).read()
out += "\n| change | property | needs | caught by | |\n|---|---|---|---|---|\n"
for d in sorted(os.listdir(path("seeded"))):
    m = json.load(open(path("seeded", d, "meta.json")))
    r = results.get(d, {})
    out += f"| {d} | {m['property']} | {m['needs']} | {r.get('caught', 'not run')} | {r.get('note', '')} |\n"
open(path("DESIGN.md"), "w").write(out)
print(len(out))
