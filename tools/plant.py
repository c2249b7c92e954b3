#!/usr/bin/env python3
"""plant.py SPEC.py...: turn a planted-bug description into /verif/seeded/<id>/ after
confirming it: applies, builds, passes the stable tests, demo passes without and fails with it.
SPEC.py defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source).
Works on a copy of /repo bind-mounted over /repo in a private mount namespace."""
import json, os, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv-pypy/bin/python"
DEMO_SH = '''#!/bin/bash
# exit 0 when the property holds on the demonstrated input
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
cd "$work" && PYTHONPATH=/repo/src/python:/repo PYTHONDONTWRITEBYTECODE=1 HDF5_USE_FILE_LOCKING=FALSE %s "$here/demo.py"
''' % PY


def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    return p.returncode, p.stdout


def in_ns(copy, cmd, cwd="/repo"):
    return sh("unshare -Urm bash -c 'mount --bind %s /repo && cd %s && %s'" % (copy, cwd, cmd))


def plant(spec):
    g = {}
    exec(open(spec).read(), g)
    bid = g["ID"]
    tmp = tempfile.mkdtemp(prefix="plant_")
    copy = os.path.join(tmp, "r")
    try:
        sh("cp -a /repo %s" % copy)
        for f, old, new in g["EDITS"]:
            p = os.path.join(copy, f if "/" in f and os.path.exists(os.path.join(copy, f)) else "src/python/zquantum/core/" + f)
            s = open(p).read()
            assert s.count(old) == 1, "%s: %d matches in %s" % (bid, s.count(old), f)
            open(p, "w").write(s.replace(old, new))
        rc, diff = sh("git diff", copy)
        d = os.path.join(tmp, "seed")
        os.makedirs(d)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(g["DEMO"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({"property": g["PROP"], "needs": g["NEEDS"], "what_it_breaks": g["BREAKS"]}, open(os.path.join(d, "meta.json"), "w"), indent=1)
        rc, o = sh("bash %s/demo.sh" % d, "/repo")
        if rc:
            return bid, "demo FAILS on the unchanged tree:\n" + o[-800:]
        rc, o = in_ns(copy, "bash %s/demo.sh" % d)
        if rc == 0:
            return bid, "demo does not notice the change"
        demo_out = o.strip().splitlines()[-1:] 
        rc, o = in_ns(copy, "bash /opt/vp/build.sh")
        if rc:
            return bid, "build fails " + o[-500:]
        out = os.path.join(tmp, "t.json")
        rc, o = in_ns(copy, "bash /opt/vp/test.sh %s" % out)
        t = json.load(open(out))
        lost = set(json.load(open("/opt/vp/BASELINE.json"))["stable"]) - set(t["passed"])
        if lost:
            return bid, "tests notice: %s" % sorted(lost)[:4]
        dst = os.path.join(ROOT, "seeded", bid)
        shutil.rmtree(dst, ignore_errors=True)
        shutil.copytree(d, dst)
        return bid, "PLANTED (%s)" % demo_out
    except AssertionError as e:
        return bid, "bad spec: %s" % e
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


for s in sys.argv[1:]:
    print("%s: %s" % plant(s), flush=True)
