"""check.py <property>: decide one property on /repo's current tree.

exit 0  every obligation discharged (or, where a contract could not attach, the bounded stand-in passed)
exit 1  VIOLATION line
exit 2  no answer (machinery failed)
"""
import concurrent.futures as cf
import importlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "contracts"))
import cppast, lemmas, lib, vf

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr", "-D_GLIBCXX_ASSERTIONS"]
LINK = ["-fuse-ld=lld", "-L/usr/lib/llvm-20/lib", "-Wl,-rpath,/usr/lib/llvm-20/lib", "-lisl", "-lMLIR", "-lLLVM-20",
        "-labsl_int128", "-lpthread"]


def build_native(nat, work):
    base = [cppast.CLANG] + cppast.flags() + ["-I" + os.path.join(HERE, "native"), nat.opt, "-g1"] + \
        (SAN if nat.san else []) + nat.flags
    jobs = []
    srcs = [os.path.join(HERE, "native", nat.src)] + [os.path.join(cppast.REPO, s) for s in nat.repo_srcs]
    objs = []

    def comp(i, s):
        o = os.path.join(work, "o%d.o" % i)
        r = subprocess.run(base + ["-c", s, "-o", o], capture_output=True, text=True)
        return o, r
    with cf.ThreadPoolExecutor(6) as ex:
        for o, r in ex.map(lambda t: comp(*t), list(enumerate(srcs))):
            if r.returncode:
                return None, r.stderr[-3000:]
            objs.append(o)
    exe = os.path.join(work, "native")
    r = subprocess.run([cppast.CLANG] + (SAN[:1] if nat.san else []) + objs + ["-o", exe] + LINK, capture_output=True, text=True)
    if r.returncode:
        return None, r.stderr[-3000:]
    return exe, ""


def run_native(exe, seed, tier, seconds, group=None):
    cmd = [exe, str(seed), tier, str(seconds)] + ([group] if group else [])
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, errors="replace", timeout=seconds * 2 + 180)
    except subprocess.TimeoutExpired:
        return dict(status="timeout", out="")
    m = re.search(r"FAILCASE (.*)", p.stdout)
    st = re.search(r"STATS (.*)", p.stdout)
    d = dict(status="ok" if "ALLOK" in p.stdout else "fail" if m else "error", out=p.stdout[-4000:], err=p.stderr[-3000:],
             rc=p.returncode, case=m.group(1) if m else None, stats=st.group(1) if st else "",
             samples=re.findall(r"SAMPLE (.*)", p.stdout), cmd=" ".join(["native"] + cmd[1:]),
             findings=sorted(set(re.findall(r"FINDING (.*)", p.stdout))))
    return d


def known(pid):
    out = []
    p = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2:
        tier = sys.argv[2]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    thorough = tier == "thorough"
    mod = importlib.import_module(pid.lower())
    work = tempfile.mkdtemp(prefix="dv_%s_" % pid)
    try:
        rc = decide(pid, mod, tier, thorough, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def decide(pid, mod, tier, thorough, seed, work, t0):
    nat = getattr(mod, "NATIVE", None)
    nres = {}

    def native():
        if nat is None:
            return
        tb = time.time()
        exe, err = build_native(nat, work)
        nres["build_s"] = time.time() - tb
        if exe is None:
            nres.update(status="nobuild", err=err)
            return
        nres["exe"] = exe
        nres.update(run_native(exe, seed, tier, nat.seconds[1 if thorough else 0]))
    th = threading.Thread(target=native)
    prop = mod.prop()
    res, verr = None, None
    th.start()
    try:
        res = vf.verify(prop, jobs=7, budget=900 if thorough else 400)
    except cppast.ExtractionError as e:
        verr = "extraction: %s" % e
    lem = {"ok": True, "checked": [], "time": 0.0, "detail": ""}
    if res is not None:
        names = set(l.name for l in lemmas.P2_BASE) | set(n for g in res["gens"] for n in g["lemmas"]) | set(prop.more_lemmas)
        for l in getattr(mod, "AXIOM_LEMMAS", []):
            names.add(l.name)
        lem = lemmas.check_lean(names, work)
    th.join()

    # ---- collect
    oblig = res["obligs"] if res else []
    failed = [o for o in oblig if not o["ok"]]
    unattached = list(res["missing"]) + [g["title"] for g in res["gens"] if g["err"]] if res else ["all (%s)" % verr]
    errs = {g["title"]: g["err"] for g in res["gens"] if g["err"]} if res else {}
    for m_ in (res["missing"] if res else []):
        errs[m_] = "no such function in the current source"
    vac = []
    if res:
        for g in res["gens"]:
            if g["err"]:
                continue
            mine = [o for o in res["covers"] if o["func"] == g["title"]]
            if any(o["refuted"] for o in mine if o["label"] == "precondition satisfiable"):
                vac.append(g["title"] + ": precondition unsatisfiable")
            ends = [o for o in mine if o["label"] == "path end reachable"]
            if g["normal_ends"] == 0 or (ends and all(o["refuted"] for o in ends)):
                vac.append(g["title"] + ": no reachable normal end")
            if not g["obligs"] and not g["trivial"]:
                vac.append(g["title"] + ": no obligations")
    failed = [o for o in failed if o["func"] not in unattached]
    # invariants are attached to loops by position: where the loops are others than the contract was written for, a failed
    # obligation may only mean that the annotations sit in the wrong places
    moved = [g["title"] for g in (res["gens"] if res else []) if not g["err"] and
             prop.baseline.get("loops of " + g["title"], g["shape"]) != g["shape"] and any(o["func"] == g["title"] for o in failed)]
    proved = [g["title"] for g in res["gens"] if not g["err"] and g["title"] not in
              set(o["func"] for o in failed)] if res else []
    for g in (res["gens"] if res else []):
        if g["err"]:
            print("note: %s not attached: %s" % (g["title"], g["err"].split("\n")[0]))
    violation = None
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    replay = os.path.join(ROOT, "evidence", "%s.replay.json" % pid)
    kf = known(pid)
    if nres.get("status") == "fail":
        violation = dict(kind="input", case=nres["case"])
    if failed and violation is None and nres.get("exe"):
        # look longer for a failing input before reporting the obligation alone
        extra = min(120, max(20, 800 - (time.time() - t0)))
        r2 = run_native(nres["exe"], seed + 7919, "thorough", extra)
        if r2["status"] == "fail":
            nres["case"], nres["cmd"] = r2["case"], r2["cmd"]
            violation = dict(kind="input", case=r2["case"])
    if moved and violation is None and nres.get("exe"):
        for t in moved:
            errs[t] = "the function's loops are not those its invariants were written for (%s)" % "; ".join(
                "%s line %s" % (o["label"], o["line"]) for o in failed if o["func"] == t)[:300]
            print("note: %s not attached: %s" % (t, errs[t]))
        unattached += moved
        vac = [x for x in vac if x.split(": ")[0] not in moved]
        failed = [o for o in failed if o["func"] not in moved]
    if failed and violation is None:
        violation = dict(kind="obligation")
    # ---- evidence
    by = {}
    for o in oblig:
        if o["ok"]:
            by[o["by"]] = by.get(o["by"], 0) + 1
    trivial = sum(g["trivial"] for g in res["gens"]) if res else 0
    natdesc = None
    if nat is not None:
        natdesc = dict(status=nres.get("status"), stats=nres.get("stats"), samples=nres.get("samples", [])[:6],
                       build_s=round(nres.get("build_s", 0), 1),
                       note="contract postconditions evaluated on the real code: bounded, not counted as proof")
    assumptions = ["trusted model of " + x for x in sorted(set(u for g in (res["gens"] if res else []) for u in g["libused"]))]
    assumptions += list(prop.trusted) + list(getattr(mod, "ASSUMPTIONS", []))
    assumptions += ["signed machine arithmetic treated as mathematical in " + x for g in (res["gens"] if res else []) for x in g["math"]]
    assumptions += ["termination not proved: " + x for g in (res["gens"] if res else []) for x in g["noterm"]]
    if not lem["ok"]:
        print("note: lemma file not accepted by Lean: %s" % lem["detail"][-800:])
    level = getattr(mod, "LEVEL", "proof")
    cov = dict(
        obligations=len(oblig) + trivial, discharged=sum(1 for o in oblig if o["ok"]) + trivial,
        discharged_by=dict(by, simplifier=trivial), functions_under_contract=[g["title"] for g in res["gens"]] if res else [],
        functions_proved=proved, not_attached=errs, inlined=sorted(set(x for g in res["gens"] for x in g["inlined"])) if res else [],
        solver_s=round(sum(o["time"] for o in oblig), 1), paths=sum(g["paths"] for g in res["gens"]) if res else 0,
        extraction="clang-20 JSON AST of the files under /repo, included unchanged by dv/tu/; dropped: comments, debug "
                   "printing under LLVM_DEBUG, library bodies (modelled)",
        lemmas_checked_by_lean=lem["checked"], lean_s=round(lem["time"], 1), lean_ok=lem["ok"],
        vacuity=dict(reachability_queries=len(res["covers"]) if res else 0, problems=vac),
        failed=[dict(function=o["func"], obligation=o["label"], line=o["line"], solvers=o["res"]) for o in failed],
        bounded=natdesc, bounded_only=sorted(set(unattached) | set(getattr(mod, "BOUNDED", []))),
        checker_cmd="./check %s %s" % (pid, tier),
        trusted_base=["clang-20 front end", "dv/engine.py VC generator and dv/lib.py library models", "z3 5.x / cvc5 1.1 / Lean 4 kernel"])
    m = re.search(r"cases=(\d+) nontrivial=(\d+)", nres.get("stats") or "")
    if m:
        cov["evaluations"], cov["distinct_nontrivial"] = int(m.group(1)), int(m.group(2))
        cov["rule"] = "bounded companion: exhaustive small cases, boundary values and seeded random cases; trivial ones (zero/empty operands) apart"
        cov["samples"] = nres.get("samples", [])[:6]
    if level == "other":
        cov["explanation"] = getattr(mod, "EXPLANATION", "")
    ev = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - t0, 1), violations=1 if violation else 0)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: %d obligations, %d discharged (%s), functions proved: %s; bounded companion: %s" % (
        pid, cov["obligations"], cov["discharged"], ", ".join("%s %d" % kv for kv in cov["discharged_by"].items()),
        ", ".join(proved) or "none", nres.get("stats") or nres.get("status")))
    for key, txt in kf:
        if key in nres.get("findings", []) or key in getattr(mod, "STATIC_FINDINGS", []):
            print("KNOWN-FINDING: property=%s %s" % (pid, txt))
    if violation:
        doc = dict(property=pid, kind=violation["kind"], failing_input=violation.get("case"),
                   rerun=nres.get("cmd"), build="python3-vt dv/check.py %s (dv/native/%s against /repo)" % (pid, nat.src if nat else ""),
                   failed_obligations=[dict(function=o["func"], obligation=o["label"], line=o["line"], solver_output=o["res"],
                                            path=o["path"]) for o in failed],
                   unattached=errs, native_output=nres.get("out"), native_stderr=nres.get("err"))
        with open(replay, "w") as f:
            json.dump(doc, f, indent=1)
        for o in failed[:12]:
            print("failed obligation: %s: %s (line %s) %s" % (o["func"], o["label"], o["line"], o["res"]))
        if violation["kind"] == "input":
            print("failing input: %s" % violation["case"])
            print("VIOLATION property=%s replay=%s" % (pid, replay))
        else:
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (pid, replay))
        return 1
    if os.path.exists(replay):
        os.remove(replay)
    if vac:
        print("vacuity problem: %s" % vac)
    if vac or not lem["ok"]:
        return 2
    if nat is not None and nres.get("status") != "ok":
        if unattached:
            print("no answer: stand-in %s: %s" % (nres.get("status"), (nres.get("err") or "")[-1500:]))
            return 2
        print("note: bounded companion did not run: %s %s" % (nres.get("status"), (nres.get("err") or "")[-500:]))
    if unattached and nat is None:
        return 2
    if unattached:
        print("note: bounded stand-in only for: %s" % ", ".join(unattached))
    return 0


if __name__ == "__main__":
    main()
