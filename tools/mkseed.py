#!/usr/bin/env python3
"""mkseed.py SPEC.py: plants one change in /repo, confirms that it builds, passes
the tests and that its demonstration tells it apart, stores it under
/verif/seeded/<id>/, restores /repo, and optionally runs the property's check.

SPEC defines: ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ source)."""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = "/repo"
DEMO_SH = '''#!/bin/bash
# run in /repo after the build
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
g++ -std=c++14 -g -O1 -DFDUMP_DEFINE -DRTP_DEFINE -DFPRINT_ERRORS -Iinclude -Isrc -I_build/src -I"$here" "$here/demo.cc" _build/src/libh265nal.a -o "$d/demo" || exit 2
cd "$d" && timeout 60 ./demo
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    ok = True
    for sp in ns.get("SEEDS", [ns]):
        ok &= one(sp, "--check" in sys.argv)
    return 0 if ok else 1


def one(sp, check):
    d = os.path.join(V, "seeded", sp["ID"])
    assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo not clean"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    msg = []
    good = False
    try:
        shutil.copy(os.path.join(V, "tools", "seedlib", "bits.h"), d)
        open(os.path.join(d, "demo.cc"), "w").write(sp["DEMO"])
        open(os.path.join(d, "demo.sh"), "w").write(sp.get("SH", DEMO_SH))
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": sp["PROP"], "needs": sp["NEEDS"], "what_it_breaks": sp["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        sh("bash /opt/vp/build.sh")
        p = sh("bash %s/demo.sh" % d, cwd=R)
        if p.returncode != 0:
            msg.append("demo fails on clean tree: %s" % p.stdout[-1500:])
            return False
        for f, a, b in sp["EDITS"]:
            s = open(os.path.join(R, f)).read()
            if s.count(a) != 1:
                msg.append("edit of %s matches %d times" % (f, s.count(a)))
                return False
            open(os.path.join(R, f), "w").write(s.replace(a, b))
        diff = sh("git -C /repo diff").stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        t = sh("bash /opt/vp/test.sh /tmp/seed_test.json")
        base = json.load(open("/opt/vp/BASELINE.json"))
        res = json.load(open("/tmp/seed_test.json"))
        names = base.get("stable") or base.get("tests") or base
        passed = res.get("passed", res)
        if "failed" in res and res["failed"]:
            msg.append("tests fail: %s" % str(res["failed"])[:300])
            return False
        if t.returncode not in (0,) and "build failed" in t.stdout:
            msg.append("does not build " + t.stdout[-1500:])
            return False
        p = sh("bash %s/demo.sh" % d, cwd=R)
        if p.returncode == 0:
            msg.append("demo passes with the patch")
            return False
        msg.append("ok: demo says %s" % p.stdout.strip().splitlines()[-1:])
        good = True
        if check:
            q = sh("python3 lib/run.py %s quick" % sp["PROP"], cwd=V)
            caught = q.returncode == 1 and ("VIOLATION property=%s " % sp["PROP"]) in q.stdout
            msg.append("check: %s" % ("CAUGHT" if caught else "MISSED rc=%d" % q.returncode))
            msg.append("   " + "\n   ".join(q.stdout.strip().splitlines()[:4]))
        return True
    finally:
        sh("git -C /repo checkout -- .")
        sh("bash /opt/vp/build.sh")
        print(sp["ID"], sp["PROP"], *msg)
        if not good:
            shutil.rmtree(d, ignore_errors=True)


sys.exit(main())
