"""Lockset analysis over the syntax tree (context-sensitive walk from a set of entry functions)."""
from . import cxx
from .absint import last

LOCKT = ("lock_guard", "unique_lock", "scoped_lock", "shared_lock")
CONSTM = {"find", "end", "begin", "cbegin", "cend", "size", "empty", "at", "count", "c_str", "contains", "front", "back", "data", "length", "str",
          "operator[]", "operator->", "operator*", "second", "compare", "get", "load"}


def is_lock(t):
    return any("std::" + x + "<" in (t or "") for x in LOCKT)


def is_mutex(t):
    t = (t or "").replace("const ", "").rstrip("& *")
    return t in ("std::mutex", "std::recursive_mutex", "std::shared_mutex", "std::timed_mutex", "mutex")


def mutex_id(n):
    """Identity of a mutex expression that all threads share, or None."""
    while n and n.get("k") in ("cast",):
        n = n.get("x")
    if not n:
        return None
    if n.get("tls"):
        return None              # one mutex per thread excludes nobody
    if n.get("k") == "mem" and is_mutex(n.get("t")):
        return n.get("q") or n.get("n")
    if n.get("k") == "ref" and is_mutex(n.get("t")):
        if n.get("d") == "global":
            return n.get("q")
        if n.get("d") == "slocal":
            return "static:" + n.get("n", "")
        return None
    if n.get("k") == "un" and n.get("op") in ("*", "&"):
        return mutex_id(n.get("x"))
    return None


class Walk:
    """Visits every node reachable from the entries with the set of locks held there."""

    def __init__(self, fx, enter=lambda f: True):
        self.fx, self.enter = fx, enter
        self.seen = set()
        self.acc = []           # (node, frozenset(locks), function, entry)
        self.double = []        # (node, lock, function)
        self.fns = set()
        self.stack = []

    def run(self, fn, held=frozenset()):
        self.entry = fn["q"]
        self.func(fn, held)

    def func(self, fn, held):
        key = (fn["u"], held, self.entry)
        if key in self.seen:
            return
        self.seen.add(key)
        self.fns.add(fn["q"])
        self.stack.append(fn)
        for i in fn.get("inits", ()) or ():
            self.node(i, held, {})
        self.stmt(fn["body"], held, {})
        self.stack.pop()

    def locks_of(self, ini, owned):
        """Locks taken by the initialiser of a lock object (None: not provably any)."""
        out = set()
        deferred = False
        for x in cxx.walk(ini):
            t = str(x.get("t", ""))
            if x.get("k") == "ref" and ("defer_lock" in t or "defer_lock" in x.get("n", "") or "try_to_lock" in t or "try_to_lock" in x.get("n", "")):
                deferred = True
            m = mutex_id(x)
            if m:
                out.add(m)
            if x.get("k") == "call" and is_lock(x.get("t")):
                f = self.fx.fns.get(x.get("u"))
                if f:
                    for y in cxx.walk(f["body"]):
                        m = mutex_id(y)
                        if m:
                            out.add(m)
        return out, deferred

    def stmt(self, n, held, owned):
        """Returns the locks held afterwards (None: control does not fall through)."""
        if n is None:
            return held
        s = n.get("s")
        if s == "block":
            own = dict(owned)
            cur = held
            for x in n["b"]:
                cur = self.stmt(x, cur, own)
                if cur is None:
                    return None
            mine = set()
            for k, v in own.items():
                if k not in owned:
                    mine |= v
            return frozenset(cur - mine)
        if s == "decl":
            for v in n.get("v", ()):
                ini = v.get("init")
                if ini is not None:
                    self.node(ini, held, owned)
                if is_lock(v.get("t")) and ini is not None:
                    ls, deferred = self.locks_of(ini, owned)
                    owned[v["id"]] = ls
                    if not deferred:
                        held = self.take(held, ls, ini)
                for x in cxx.kids(v):
                    if x is not ini:
                        self.node(x, held, owned)
            return held
        if s == "if":
            own = dict(owned)
            for k in ("init", "var"):
                if isinstance(n.get(k), dict):
                    held = self.stmt(n[k], held, own) if n[k].get("s") else held
            h = self.expr(n.get("c"), held, own)
            a = self.stmt(n.get("then"), h, own)
            b = self.stmt(n.get("else"), h, own) if n.get("else") else h
            r = a if b is None else b if a is None else frozenset(a & b)
            if r is not None:
                for k, v in own.items():
                    if k not in owned:
                        r = frozenset(r - v)
            return r
        if s == "return":
            self.expr(n.get("e"), held, owned)
            return None
        if s in ("break", "continue", "goto"):
            return None
        if s == "expr":
            h = self.expr(n.get("e"), held, owned)
            e = n.get("e") or {}
            if e.get("noret") or e.get("k") == "throw":
                return None
            return h
        if s in ("for", "while", "do", "frange", "switch", "try"):
            h = held
            for k, x in n.items():
                if isinstance(x, dict):
                    r = self.stmt(x, h, dict(owned)) if "s" in x else self.expr(x, h, owned)
                    h = frozenset(h & r) if r is not None else h
                elif isinstance(x, list):
                    for y in x:
                        if isinstance(y, dict):
                            if "s" in y:
                                r = self.stmt(y, h, dict(owned))
                            elif "k" in y:
                                r = self.expr(y, h, owned)
                            else:
                                self.node(y, h, owned)
                                r = h
                            h = frozenset(h & r) if r is not None else h
            return h
        for x in cxx.kids(n):
            if isinstance(x, list):
                for y in x:
                    if isinstance(y, dict):
                        held = (self.stmt(y, held, owned) if "s" in y else self.expr(y, held, owned)) or held
            elif "s" in x:
                held = self.stmt(x, held, owned) or held
            else:
                held = self.expr(x, held, owned)
        return held

    def take(self, held, ls, node):
        for m in ls:
            if m in held:
                self.double.append((node, m, self.stack[-1]))
        return frozenset(held | ls)

    def expr(self, e, held, owned):
        if not isinstance(e, dict):
            return held
        self.node(e, held, owned)
        for x in cxx.walk(e):
            if x.get("k") == "call" and x.get("r") is not None and last(x.get("q", "")) in ("lock", "unlock", "try_lock"):
                r = x["r"]
                m = mutex_id(r)
                ls = {m} if m else owned.get(r.get("id"), set()) if r.get("k") == "ref" else set()
                if last(x["q"]) == "lock":
                    held = self.take(held, ls, x)
                elif last(x["q"]) == "unlock":
                    held = frozenset(held - ls)
        return held

    def node(self, e, held, owned):
        for x in cxx.walk(e):
            self.acc.append((x, held, self.stack[-1], self.entry))
            if x.get("k") in ("call", "ctor") and x.get("u") in self.fx.fns:
                f = self.fx.fns[x["u"]]
                if f.get("body") and self.enter(f) and len(self.stack) < 30:
                    self.func(f, held)
            if x.get("k") == "lambda" and isinstance(x.get("body"), dict):
                self.stmt(x["body"], held, dict(owned))


def global_key(n):
    """Identity of an unsynchronised process-wide variable: ('g', name) or None."""
    if n.get("k") != "ref" or n.get("d") not in ("global", "slocal") or n.get("tls") or is_mutex(n.get("t")):
        return None
    t = n.get("t") or ""
    if t.startswith("const ") and not t.rstrip().endswith("*") or "atomic" in t or "once_flag" in t:
        return None
    if n["d"] == "global":
        q = n.get("q") or ""
        return None if q.startswith("std::") or q in ("stderr", "stdout", "errno", "environ") else ("g", q)
    return ("g", "static %s" % n.get("n", ""), n.get("id"))


def written(fx, cls, fns, glob=False):
    """Fields of cls (glob: process-wide variables) that some of the given functions may modify, found syntactically."""
    out = set()

    def field(n):
        while n and (n.get("k") in ("cast", "idx") or glob and n.get("k") == "mem" and not n.get("method")):
            n = n.get("b") if n.get("k") == "mem" else n.get("x")
        if glob:
            return global_key(n) if n else None
        if n and n.get("k") == "mem" and (n.get("q") or "").startswith(cls + "::") and not n.get("method"):
            return n["q"]
        return None
    for f in fns:
        for x in cxx.walk(f["body"]):
            k = x.get("k")
            if k == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                out.add(field(x["x"]))
            elif k == "un" and x["op"] in ("++", "--", "&"):
                out.add(field(x["x"]))
            elif k == "call":
                if x.get("r") is not None and last(x.get("q", "")) not in CONSTM - {"operator[]"} :
                    out.add(field(x["r"]))
                if x.get("op") in ("=", "+=", "-=", "[]", "++", "--", "<<") and x.get("a"):
                    if x.get("op") != "[]" or "map" in x.get("q", ""):
                        out.add(field(x["a"][0]))
                for i in x.get("wr", ()):
                    if i < len(x.get("a", ())):
                        out.add(field(x["a"][i]))
            for v in x.get("v", ()) if x.get("s") == "decl" else ():
                t = v.get("t", "")
                if t.endswith("&") and not t.startswith("const ") and v.get("init") is not None:
                    out.add(field(v["init"]))
    out.discard(None)
    return out
