"""developer tool: write MANIFEST.json from the property modules and properties.jsonl"""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
import importlib, sys
sys.path[:0] = [H, H + "/contracts"]
T = "contract-based deductive verification of the real code (own VC generator over the clang AST of /repo; z3/cvc5 discharge every obligation; lemmas checked by Lean)"
checks, na = [], []
NA = json.load(open(H + "/na.json"))
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)["id"]
    if os.path.exists(H + "/contracts/%s.py" % p.lower()) and p not in NA:
        m = importlib.import_module(p.lower())
        checks.append(dict(property=p, quick_cmd="./check %s quick" % p, thorough_cmd="./check %s thorough" % p,
                           technique=T, level=getattr(m, "LEVEL", "proof"), level_note=m.NOTE))
    else:
        na.append(dict(property=p, reason=NA.get(p, "check not built yet")))
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: contracts attach to the unmodified functions by name, extraction is mechanical on every run."),
          open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
