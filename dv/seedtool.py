"""developer tool: seedtool.py SPEC.py [ID...]: write seeded/<id>/ from a list of edits and confirm each one
(applies, builds, passes the stable tests, demo passes without it and fails with it); report what the check says."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property holds on the demonstrated input
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
C=/usr/lib/llvm-20/bin/clang++
F="-std=c++20 -w -O1 -I. -I_build/gen -isystem $D/stub -isystem /opt/vp/heir/shim -isystem /usr/lib/llvm-20/include -isystem /usr/include/eigen3 %s"
P=""
for s in "$D/demo.cpp" %s; do
  o="$T/$(basename "$s").o"
  $C $F -c "$s" -o "$o" & P="$P $!"
  O="$O $o"
done
for p in $P; do wait $p || exit 4; done
$C $O -o "$T/demo" %s -fuse-ld=lld -L/usr/lib/llvm-20/lib -Wl,-rpath,/usr/lib/llvm-20/lib -lisl -lMLIR -lLLVM-20 -labsl_int128 -lpthread || exit 5
timeout 120 "$T/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def restore():
    sh("git -C /repo checkout -- .")


def main():
    env = {}
    exec(open(sys.argv[1]).read(), env)
    ids = sys.argv[2:]
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
    for s in env["seeds"]:
        if ids and s["id"] not in ids:
            continue
        d = os.path.join(ROOT, "seeded", s["id"])
        os.makedirs(d, exist_ok=True)
        ok = True
        for f, old, new in s["edits"]:
            p = "/repo/" + f
            t = open(p).read()
            if t.count(old) != 1:
                print(s["id"], "EDIT MATCHES", t.count(old), f, repr(old[:50]))
                ok = False
                break
            open(p, "w").write(t.replace(old, new))
        if not ok:
            restore()
            continue
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        open(d + "/meta.json", "w").write(json.dumps(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), indent=1) + "\n")
        open(d + "/demo.cpp", "w").write(s["demo"])
        if "lib/Kernel/EvalVisitor.cpp" in s["srcs"]:   # the header it needs is not in the sandbox's LLVM
            sh("cp -r %s/dv/stub %s/" % (ROOT, d))
        san = s.get("san", "")
        open(d + "/demo.sh", "w").write(DEMO % (san, " ".join(s["srcs"]), san))
        try:
            b = sh("bash /opt/vp/test.sh /tmp/w/seed.json")
            got = set(json.load(open("/tmp/w/seed.json"))["passed"])
            miss = stable - got
            bad = sh("bash %s/demo.sh" % d, cwd="/repo")
            chk = sh("./check %s" % s["property"], cwd=ROOT) if not os.environ.get("NOCHECK") else None
        finally:
            restore()
        good = sh("bash %s/demo.sh" % d, cwd="/repo")
        valid = not miss and bad.returncode != 0 and good.returncode == 0 and bad.returncode not in (3, 4, 5)
        print(s["id"], s["property"], "VALID" if valid else "INVALID", "tests-missing", len(miss), list(miss)[:2], "demo bad/good", bad.returncode, good.returncode,
              (bad.stderr + good.stderr)[-300:] if not valid else "", "| check rc", chk and chk.returncode)
        if chk:
            print("   ", "\n    ".join([l for l in chk.stdout.split("\n") if "VIOLATION" in l or "failed obl" in l or "failing" in l or "note" in l or "no answer" in l][:6]))
        sys.stdout.flush()
    sh("bash /opt/vp/build.sh")


main()
