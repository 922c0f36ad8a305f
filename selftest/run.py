#!/usr/bin/env python3
"""Development aid (no registered check uses it): applies small source edits to scratch
copies of /repo and reports which checks fire.
usage: run.py [filter...]     entries come from selftest/m_*.py (BUGS, SAME)"""
import concurrent.futures as cf
import glob
import importlib.util
import os
import shutil
import subprocess
import sys
import tempfile

here = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(here)
entries = []
for f in sorted(glob.glob(here + "/m_*.py")):
    sp = importlib.util.spec_from_file_location(os.path.basename(f)[:-3], f)
    m = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(m)
    for n, (props, edits) in enumerate(m.BUGS):
        entries.append(("%s/bug%02d" % (os.path.basename(f)[2:-3], n), "bug", props, edits))
    for n, (props, edits) in enumerate(m.SAME):
        entries.append(("%s/same%02d" % (os.path.basename(f)[2:-3], n), "same", props, edits))
flt = sys.argv[1:]
entries = [e for e in entries if not flt or any(x in e[0] or x in e[2].split() for x in flt)]
REPO = os.environ.get("MREPO", "/repo")
BASE = tempfile.mkdtemp(prefix="mut")


def one(e):
    name, kind, props, edits = e
    d = os.path.join(BASE, name.replace("/", "_"))
    os.makedirs(d)
    for x in os.listdir(REPO):
        if x in (".git", "_build"):
            continue
        subprocess.run(["cp", "-al", REPO + "/" + x, d + "/" + x], check=True)
    for f, old, new in edits:
        p = os.path.join(d, f)
        s = open(p).read()
        if s.count(old) < 1 or (s.count(old) > 1 and not old.endswith("\0")):
            return name, kind, "BADEDIT %d matches: %s" % (s.count(old), old[:60]), ""
        os.unlink(p)
        open(p, "w").write(s.replace(old, new, 1))
    res, log = [], ""
    env = dict(os.environ, VERIF_REPO=d, VERIF_EVID=d + "/ev")
    for pr in props.split():
        r = subprocess.run([sys.executable, V + "/check.py", pr, "quick"], env=env, capture_output=True, text=True)
        v = "FIRE" if r.returncode == 1 and "VIOLATION property=" in r.stdout else ("quiet" if r.returncode == 0 else "ERROR%d" % r.returncode)
        if v == "quiet" and ", 0 undecided" not in r.stdout:
            v = "quiet(und)"
        res.append((pr, v))
        log += r.stdout + r.stderr
    shutil.rmtree(d)
    good = (all(v == "FIRE" for _, v in res[:1]) if kind == "bug" else all(v.startswith("quiet") for _, v in res))
    st = "ok  " if good else "MISS" if kind == "bug" else "FALSE-ALARM"
    return name, kind, "%s %s" % (st, " ".join("%s=%s" % x for x in res)), "" if good and "und" not in str(res) else log


with cf.ThreadPoolExecutor(int(os.environ.get("J", "6"))) as ex:
    bad = 0
    for n, k, r, log in ex.map(one, entries):
        print("%-22s %s" % (n, r))
        if log:
            bad += 1
            print("    " + "\n    ".join([l for l in log.splitlines() if not l.strip().startswith("KNOWN")][:14]))
        sys.stdout.flush()
shutil.rmtree(BASE)
print(len(entries), "entries,", bad, "to look at")
