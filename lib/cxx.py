"""Facts about the C++ sources of /repo: runs tools/extract.cpp (a clang libTooling
program) over translation units of the current working tree and loads the resolved
syntax it prints.  Nothing of /repo is executed."""
import concurrent.futures as cf
import hashlib
import json
import os
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, ".build")
RES = "/usr/lib/llvm-18/lib/clang/18"

INC = [
    "sdfg/include", "opt/include", "rpc/include", "rtl/include", "arg-capture-io/include",
    "targets/et/include", "targets/et/rt/include", "tutorial/printf_target/include",
]


class AnalysisError(Exception):
    """The analysis itself could not be carried out (anchor gone, parse failure)."""


def base_flags(ndebug=False):
    f = ["-std=gnu++20", "-xc++", "-I" + VERIF + "/stubs", "-I" + BUILD + "/gen"]
    f += ["-I%s/%s" % (REPO, d) for d in INC]
    f += ["-I/usr/include/x86_64-linux-gnu", "-w", "-fsyntax-only", "-ferror-limit=0"]
    if ndebug:
        f.append("-DNDEBUG")
    return f


def extractor():
    """Path of the compiled extractor, compiling it when it is missing or stale."""
    src = os.path.join(VERIF, "tools", "extract.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()[:16]
    out = os.path.join(BUILD, "extract-" + h)
    if os.path.exists(out):
        return out
    os.makedirs(BUILD, exist_ok=True)
    tmp = out + ".%d.tmp" % os.getpid()
    flags = subprocess.run(["llvm-config-18", "--cppflags"], capture_output=True, text=True, check=True).stdout.split()
    cmd = ["clang++-18", "-std=c++17", "-O1", "-fno-rtti", "-fno-exceptions", *flags, src, "-o", tmp,
           "-L/usr/lib/x86_64-linux-gnu", "-l:libclang-cpp.so.18", "-L/usr/lib/llvm-18/lib", "-lLLVM-18"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("extractor does not compile: " + r.stderr[-2000:])
    os.rename(tmp, out)
    return out


class Facts:
    def __init__(self):
        self.fns = {}      # usr -> function with a body (one per definition)
        self.decls = {}    # usr -> any declaration seen
        self.recs = {}     # qualified name -> record
        self.enums = {}    # qualified name -> enum
        self.vars = {}     # qualified name -> variable
        self.files = set()
        self.errors = []
        self.tus = 0
        self._over = None

    def add(self, path, tag):
        with open(path) as f:
            for ln in f:
                d = json.loads(ln)
                k = d["D"]
                if k == "tu":
                    self.tus += 1
                    self.files.add(d["file"])
                    if d["errors"]:
                        self.errors.append((d["file"], d["errors"]))
                elif k == "fn":
                    d["tu"] = tag
                    u = d["u"]
                    if d.get("body"):
                        old = self.fns.get(u)
                        if old is None or (old.get("dep") and not d.get("dep")):
                            self.fns[u] = d
                        self.decls[u] = d
                    else:
                        self.decls.setdefault(u, d)
                elif k == "rec":
                    o = self.recs.get(d["q"])
                    if o is None or (o.get("dep") and not d.get("dep")):
                        self.recs[d["q"]] = d
                elif k == "enum":
                    self.enums[d["q"]] = d
                elif k == "var":
                    if not d.get("decl") or d["q"] not in self.vars:
                        if d.get("init") or d["q"] not in self.vars:
                            self.vars[d["q"]] = d

    # ---- queries
    def named(self, q, body=True):
        """All functions with this qualified name."""
        src = self.fns if body else self.decls
        return [f for f in src.values() if f["q"] == q]

    def one(self, q):
        r = [f for f in self.named(q) if not f.get("dep")] or self.named(q)
        if not r:
            raise AnalysisError("anchor function %s not found" % q)
        return r[0]

    def methods(self, cls):
        return [f for f in self.fns.values() if f.get("cls") == cls]

    def overriders(self, usr):
        if self._over is None:
            self._over = {}
            for f in self.decls.values():
                for o in f.get("over", ()):
                    self._over.setdefault(o, []).append(f)
        out, todo = [], [usr]
        while todo:
            u = todo.pop()
            for f in self._over.get(u, ()):
                out.append(f)
                todo.append(f["u"])
        return out

    def subclasses(self, q):
        out, todo = [], [q]
        while todo:
            b = todo.pop()
            for r in self.recs.values():
                if b in r["bases"] and r["q"] not in out:
                    out.append(r["q"])
                    todo.append(r["q"])
        return out

    def bases(self, q):
        out, todo = [], [q]
        while todo:
            r = self.recs.get(todo.pop())
            for b in (r or {}).get("bases", ()):
                b = b.split("<")[0]
                if b not in out:
                    out.append(b)
                    todo.append(b)
        return out


def _run(args):
    exe, out, mainonly, f, flags = args
    cmd = [exe, out, REPO + "/"] + (["--main"] if mainonly else []) + [f, "--"] + flags + ["-resource-dir", RES]
    r = subprocess.run(cmd, capture_output=True, text=True)
    return f, r.returncode, r.stderr


_cache = {}


def load(files, mainonly=False, ndebug=False, allow_errors=(), extra=(), jobs=8):
    """Parse the given files (absolute, or relative to /repo) and return their Facts."""
    key = (tuple(files), mainonly, ndebug, tuple(extra))
    if key in _cache:
        return _cache[key]
    exe = extractor()
    flags = base_flags(ndebug) + list(extra)
    tmp = tempfile.mkdtemp(prefix="vfacts.")
    fx = Facts()
    try:
        work = []
        for i, f in enumerate(files):
            p = f if f.startswith("/") else os.path.join(REPO, f)
            if not os.path.exists(p):
                raise AnalysisError("source file %s is missing" % f)
            work.append((exe, os.path.join(tmp, "%d.jsonl" % i), mainonly, p, flags))
        with cf.ThreadPoolExecutor(jobs) as ex:
            for w, (f, rc, err) in zip(work, ex.map(_run, work)):
                if rc and not any(a in f for a in allow_errors):
                    raise AnalysisError("cannot parse %s:\n%s" % (f, err[-3000:]))
        for i, w in enumerate(work):
            if os.path.exists(w[1]):
                fx.add(w[1], i)
                os.unlink(w[1])
    finally:
        for n in os.listdir(tmp):
            os.unlink(os.path.join(tmp, n))
        os.rmdir(tmp)
    _cache[key] = fx
    return fx


# ------------------------------------------------------------------ syntax walks
def kids(n):
    """Direct child nodes of an AST node, in source order."""
    if isinstance(n, list):
        return [x for x in n if isinstance(x, (dict, list))]
    out = []
    for k, v in n.items():
        if isinstance(v, dict):
            out.append(v)
        elif isinstance(v, list) and v and isinstance(v[0], (dict, list)):
            out.append(v)
    return out


def walk(n):
    todo = [n]
    while todo:
        x = todo.pop()
        if isinstance(x, dict):
            yield x
            todo.extend(reversed(kids(x)))
        elif isinstance(x, list):
            todo.extend(reversed(x))


def calls(n):
    return [x for x in walk(n) if x.get("k") in ("call", "ctor")]
