"""Writes /verif/DESIGN.md from the texts here, the checks' own descriptions and the seeded changes: python3 tools/design.py"""
import ast, json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = open(os.path.join(HERE, "tools", "design_head.md")).read()
TAIL = open(os.path.join(HERE, "tools", "design_tail.md")).read()
exec(open(os.path.join(HERE, "tools", "design_notes.py")).read())   # ORACLE, LIMITS


def consts(pid):
    path = os.path.join(HERE, "mc", "checks", pid + ".py")
    tree = ast.parse(open(path).read())
    out = {"doc": ast.get_docstring(tree) or ""}
    for node in tree.body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], "id", "") in ("LEVEL", "RULE", "ASSUMPTIONS"):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except Exception:
                pass
    return out


lines = [HEAD.rstrip(), ""]
for text in open(os.path.join(HERE, "properties.jsonl")):
    p = json.loads(text)
    c = consts(p["id"])
    lines += ["### %s  %s" % (p["id"], p["title"]), ""]
    lines += ["*Level:* %s. *Enumerated:* %s." % (c["LEVEL"].replace("_", " "), " ".join(c["RULE"].split()).rstrip(".") if isinstance(c.get("RULE"), str) and c["RULE"] else "see the module's docstring"), ""]
    lines += ["*Oracle:* %s" % ORACLE[p["id"]], ""]
    lines += ["*Beyond tests:* %s" % p["why_tests_cant"], ""]
    open_ = (["; ".join(c["ASSUMPTIONS"])] if isinstance(c.get("ASSUMPTIONS"), list) and c["ASSUMPTIONS"] else []) + ([LIMITS[p["id"]]] if p["id"] in LIMITS else [])
    if open_:
        lines += ["*Left open, assumed:* %s." % "; ".join(x.rstrip(".") for x in open_), ""]
lines += ["## Seeded changes", "", "| change | property | needs | caught by |", "|---|---|---|---|"]
seeded = os.path.join(HERE, "seeded")
for name in sorted(os.listdir(seeded)):
    m = json.load(open(os.path.join(seeded, name, "meta.json")))
    lines.append("| %s | %s | %s | %s |" % (name, m["property"], m["needs"].replace("|", "/"), CAUGHT.get(name, m["property"] + " quick")))
lines += ["", TAIL]
open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(lines))
