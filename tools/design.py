"""Renders the per-property table of DESIGN.md from the catalogue and the check modules' documentation."""
import ast, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import catalog
V = catalog.VERIF
MISSED = {}     # planted bugs, that their own check does not catch
NOTES = open(os.path.join(V, "tools/notes.md")).read()
out = []
for e, technique, note in catalog.PROPERTIES:
    t = ast.parse(open(os.path.join(V, "mc/checks", e["id"].lower() + ".py")).read())
    doc = ast.get_docstring(t)
    env = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("BOUNDS", "ASSUMPTIONS"):
            try:
                env[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    out.append(f"### {e['id']} {e['title']}\n\n{e['statement']}\n\n*How*: {doc}\n\n*Technique*: {technique}.\n\n"
               f"*Bounds (quick)*: {env.get('BOUNDS', {}).get('quick', '')}.\n\n*Bounds (thorough)*: {env.get('BOUNDS', {}).get('thorough', '')}.\n\n"
               + ("*Assumed*: " + "; ".join(env.get("ASSUMPTIONS", [])) + ".\n\n" if env.get("ASSUMPTIONS") else "")
               + f"*Beyond the tests*: {e['why_tests_cant']}.\n\n")
path = os.path.join(V, "DESIGN.md")
s = open(path).read()
head, rest = s.split("## Properties\n", 1)
import json
tail = "## After the properties\n\n### Findings\n\nGenuine defects, that the checks found in the original code. `fixed` ones are repaired in /repo (a `fix:` commit each, see `known_findings.json`\n" \
       "for the full text), `known` ones are reported as `KNOWN-FINDING` on each run; they are pinned by existing tests, so that they cannot be repaired.\n\n" \
       "| property | key | status | what failed |\n|---|---|---|---|\n"
for f in json.load(open(os.path.join(V, "known_findings.json")))["findings"]:
    tail += f"| {f['property']} | {f['key']} | {f['status']} {f.get('commit', '')} | {f['what']} |\n"
tail += "\n### Planted bugs\n\nEach of these changes compiles, passes the existing tests and breaks one property (`seeded/<id>`; `tools/seeded.sh` runs the checks against them).\n" \
        "The column *caught by* names the checks, that have been run against it and reported a violation.\n\n| id | needs | what it breaks | caught by |\n|---|---|---|---|\n"
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    tail += f"| {d} | {m['needs']} | {m['what_it_breaks']} | {MISSED.get(d, m['property'])} |\n"
tail += NOTES
open(path, "w").write(head + "## Properties\n\n" + "".join(out) + tail)
