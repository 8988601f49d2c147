"""developer tool: record the declared names of every function under contract (used to follow renamed locals)"""
import sys, os, json, importlib
H = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [H, H + "/contracts"]
import vf
for pid in sys.argv[1:] or sorted(f[:-3].upper() for f in os.listdir(H + "/contracts") if f.endswith(".py") and f[0] == "c"):
    m = importlib.import_module(pid.lower())
    p = m.prop()
    p.load()
    out = {}
    for c, f in p.targets:
        out[c.title] = [list(x) for x in dict.fromkeys(map(tuple, p.decls(f)))]
    for c, f in p.targets:
        out["loops of " + c.title] = vf.shape(vf.Verifier(p, c, f))
    json.dump(out, open(H + "/baseline/%s.json" % pid, "w"), indent=0, sort_keys=True)
    print(pid, len(out))
