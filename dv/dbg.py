"""developer tool: python3-vt dv/dbg.py C01 [func]"""
import sys, os, importlib, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "contracts"))
import vf
m = importlib.import_module(sys.argv[1].lower())
p = m.prop()
if len(sys.argv) > 2:
    keep = sys.argv[2].split(",")
    for c in p.contracts:
        if c.title not in keep:
            c.model_only = True
r = vf.verify(p, budget=int(os.environ.get("BUDGET", "400")))
print("missing", r["missing"], "extract %.1f wall %.1f" % (r["extract_s"], r["wall"]))
for g in r["gens"]:
    obs = [o for o in r["obligs"] if o["func"] == g["title"]]
    print("%-40s paths %d obligs %d ok %d trivial %d gen %.1fs ends %d inlined %s" % (
        g["title"], g["paths"], len(obs), sum(o["ok"] for o in obs), g["trivial"], g["gen_s"], g["normal_ends"],
        [x.split("::")[-1] for x in g["inlined"]]))
    if g["err"]:
        print("   ERR", g["err"])
    if g["noterm"]: print("   noterm", g["noterm"])
    shown = 0
    for o in obs:
        if not o["ok"] and shown < 10:
            shown += 1
            fn = "/tmp/w/fail_%s_%d.smt2" % (g["title"].replace("::", "_").replace(" ","_"), obs.index(o))
            open(fn, "w").write(o["smt"])
            print("   FAIL", o["label"], "line", o["line"], " ".join(str(x[1])[:8] for x in o["res"]), o["path"][-6:], fn)
    ends = [o for o in r["covers"] if o["func"] == g["title"]]
    print("   covers", [(o["label"], o["refuted"]) for o in ends if o["refuted"]], "slow", sorted([(round(o["time"],1), o["label"], o.get("by")) for o in obs if o["time"] > 2], reverse=True)[:5])
    for o in obs:
        if o["ok"] and os.environ.get("SLOW") and o["time"] > float(os.environ["SLOW"]):
            fn = "/tmp/w/slow_%s_%d.smt2" % (g["title"].replace("::", "_").replace(" ", "_"), obs.index(o))
            open(fn, "w").write(o["smt"])
            print("   SLOW", o["label"], fn)
        if not o["ok"] and o.get("smt_abs"):
            open("/tmp/w/abs_%s_%d.smt2" % (g["title"].replace("::", "_").replace(" ","_"), obs.index(o)),"w").write(o["smt_abs"])
