"""Writes MANIFEST.json from the check modules present; properties without a module go under not_applicable."""
import ast, json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
checks, na = [], []
for line in open(os.path.join(here, "properties.jsonl")):
    p = json.loads(line)
    f = os.path.join(here, "mc", "checks", p["id"].lower() + ".py")
    if os.path.exists(f):
        doc = ast.get_docstring(ast.parse(open(f).read()))
        checks.append({"property": p["id"], "quick_cmd": "bash mc/run.sh %s quick" % p["id"], "thorough_cmd": "bash mc/run.sh %s thorough" % p["id"],
                       "technique": "bounded exhaustive exploration of the real code against an executable reference model",
                       "level": "model_checking", "level_note": " ".join(doc.split())})
    else:
        na.append({"property": p["id"], "reason": "no check built yet"})
json.dump({"version": 1, "setup_cmd": "bash mc/setup.sh", "checks": checks, "not_applicable": na}, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", [n["property"] for n in na])
