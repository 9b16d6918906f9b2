"""DESIGN.md = tools/design_head.md + one section per property (from the check modules) + the planted bugs."""
import importlib, json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, R)
out = [open(R + "/tools/design_head.md").read().rstrip() + "\n"]
props = [json.loads(l) for l in open(R + "/properties.jsonl")]
out.append("\n## Per property\n\nThe statements are in `properties.jsonl`. Quick runs take the time given (8 cores); thorough runs use larger sizes, ranks and\nsequences, up to 820 s each.\n")
cost = json.load(open(R + "/tools/cost.json"))
for p in props:
    m = importlib.import_module("checks." + p["id"].lower())
    out.append("\n### %s %s\n\n" % (p["id"], p["title"]))
    out.append("*How.* %s\n\n*Bounds.* %s\n\n*Outside.* %s\n" % (m.METHOD, m.BOUNDS, m.OUTSIDE))
    a = getattr(m, "ASSUMPTIONS", None)
    if a:
        out.append("\n*Assumptions.* %s\n" % " ".join(a))
    out.append("\n*Cost.* quick about %s s.\n" % cost.get(p["id"], "?"))
out.append(open(R + "/tools/design_tail.md").read())
out.append("\n| bug | property | needs | caught by |\n|---|---|---|---|\n")
caught = json.load(open(R + "/tools/caught.json"))
for b in sorted(os.listdir(R + "/seeded")):
    j = json.load(open(R + "/seeded/%s/meta.json" % b))
    out.append("| %s | %s | %s | %s |\n" % (b, j["property"], j["needs"].replace("|", "\\|"), caught.get(b, "?")))
open(R + "/DESIGN.md", "w").write("".join(out))
