"""DESIGN.md = tools/design_head.md with the per-property sections and the planted-bug table filled in."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
head = open(os.path.join(HERE, "tools", "design_head.md")).read()
T = json.load(open(os.path.join(HERE, "tools", "technique.json")))
props = [json.loads(x) for x in open(os.path.join(HERE, "properties.jsonl")) if x.strip()]
out = ["## Properties and how each is decided", ""]
for p in props:
    t = T["checks"].get(p["id"])
    if not t:
        continue
    out += ["### %s %s" % (p["id"], p["title"]), "", "*Technique:* " + t["technique"] + ".", ""]
    if t.get("design"):
        out += [t["design"], ""]
bugs = ["## Planted bugs and which check catches them", "", "| id | property | caught by | needs |", "|---|---|---|---|"]
C = json.load(open(os.path.join(HERE, "tools", "caught.json")))
d = os.path.join(HERE, "seeded")
for b in sorted(os.listdir(d)):
    m = json.load(open(os.path.join(d, b, "meta.json")))
    bugs.append("| %s | %s | %s | %s |" % (b, m["property"], C.get(b, "?"), m["needs"]))
open(os.path.join(HERE, "DESIGN.md"), "w").write(head.replace("@@PROPS@@", "\n".join(out)).replace("@@BUGS@@", "\n".join(bugs)) + "\n")
