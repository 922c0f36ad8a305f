#!/usr/bin/env python3
"""Development aid: writes seeded/<id>/ from selftest/seeds_*.py and verifies each entry against /repo
(demo passes before, builds + stable tests + demo fails after).   usage: mkseed.py [--check] [id...]"""
import glob
import importlib.util
import json
import os
import subprocess
import sys
import tempfile

here = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(here)
REPO = "/repo"
CPP = """#!/bin/bash
# exit 0: the behaviour holds
set -u
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
R=$PWD
clang++-19 -std=gnu++20 -g -w %s "$D/demo.cpp" -o "$T/demo" %s || exit 3
cd "$T"
timeout 120 ./demo
"""
LIB = {
    "capture": ("-I$R/arg-capture-io/include -I$R/rtl/include", "$R/_build/rtl/libdaisy_rtl.a $R/_build/arg-capture-io/libarg_capture_io.a -lpthread -ldl"),
    "rtl": ("-I$R/arg-capture-io/include -I$R/rtl/include", "$R/_build/rtl/libdaisy_rtl.a $R/_build/arg-capture-io/libarg_capture_io.a -lpthread -ldl"),
    "graph": ("-I$R/sdfg/include", "$R/_build/libsdfg_part.a"),
    "rpc": ("-I$R/rpc/include -I$R/sdfg/include", "$R/_build/librpc_part.a -lcurl -lpthread"),
}


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main():
    ents = []
    for f in sorted(glob.glob(here + "/seeds_*.py")):
        sp = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        ents += m.SEEDS
    a = sys.argv[1:]
    chk = "--check" in a
    ids = [x for x in a if not x.startswith("--")]
    ids and None
    stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    for e in ents:
        if ids and not any(e["id"].startswith(x) for x in ids):
            continue
        d = os.path.join(V, "seeded", e["id"])
        assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo dirty"
        try:
            for f, old, new in e["edits"]:
                p = os.path.join(REPO, f)
                s = open(p).read()
                assert s.count(old) == 1, (e["id"], s.count(old), old[:80])
                open(p, "w").write(s.replace(old, new))
            patch = sh("git -C /repo diff").stdout
        finally:
            sh("git -C /repo checkout -- .")
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(patch)
        if "py" in e:
            open(d + "/docc_stub.py", "w").write(open(here + "/docc_stub.py").read())
            open(d + "/demo.py", "w").write(e["py"].lstrip("\n"))
            open(d + "/demo.sh", "w").write("#!/bin/bash\n# exit 0: the behaviour holds\nD=$(cd \"$(dirname \"$0\")\" && pwd)\nPYTHONDONTWRITEBYTECODE=1 timeout 120 python3 \"$D/demo.py\"\n")
        elif "cpp" in e:
            open(d + "/demo.cpp", "w").write(e["cpp"].lstrip("\n"))
            i, l = LIB[e["lib"]]
            open(d + "/demo.sh", "w").write(CPP % (i, l) if "sh" not in e else e["sh"])
        else:
            open(d + "/demo.sh", "w").write(e["sh"])
        for n, s in e.get("files", {}).items():
            open(os.path.join(d, n), "w").write(s)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": e["property"], "needs": e["needs"], "what_it_breaks": e["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        if chk:
            b = sh("bash /opt/vp/build.sh")
            d0 = sh("bash %s/demo.sh" % d, cwd=REPO)
            sh("git -C /repo apply %s/patch.diff" % d)
            try:
                b1 = sh("bash /opt/vp/build.sh")
                out = tempfile.mktemp()
                t = sh("bash /opt/vp/test.sh " + out)
                r = json.load(open(out))
                os.unlink(out)
                d1 = sh("bash %s/demo.sh" % d, cwd=REPO)
                c = sh("python3 %s/check.py %s quick" % (V, e["property"]), cwd=V)
            finally:
                sh("git -C /repo checkout -- .")
            miss = [x for x in stable if x not in r["passed"]]
            ok = d0.returncode == 0 and b1.returncode == 0 and not miss and d1.returncode not in (0, 3)
            print("%-34s %s demo %d->%d build %d failed-tests %d | check %s" % (
                e["id"], "OK " if ok else "BAD", d0.returncode, d1.returncode, b1.returncode, len(miss),
                "CAUGHT" if c.returncode == 1 else "missed(%d)" % c.returncode))
            if not ok:
                print((d0.stdout + d0.stderr)[-600:], b1.stdout[-1500:] if b1.returncode else "", miss, d1.stderr[-500:])
            sys.stdout.flush()
    sh("bash /opt/vp/build.sh")


main()
