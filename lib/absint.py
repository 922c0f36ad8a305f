"""Path-sensitive dataflow over the extracted C++ syntax.

The engine propagates, along every path of a function's control-flow structure,
an abstract store of *provenance terms* (where a value comes from, not what it
is), the branch facts already decided on the path, and a list of effect events
(calls that leave the repository, stores, throws, returns).  Functions of the
repository are followed into (bounded depth); loops are entered zero, one and
"once more from a generic state" times.  No code is run and no solver is used:
a branch is pruned only when an earlier branch on the same path already decided
the same normalised condition, or when it is a constant.
"""
import re

from . import cxx


class Undecided(Exception):
    """The analysed code uses a construct or size outside the engine's scope."""


INTT = ("int", "long", "short", "char", "bool", "unsigned")


def is_float(t):
    return t is not None and ("double" in t or "float" in t) and "<" not in t


# ------------------------------------------------------------------ terms
def I(n):
    return ("i", int(n))


NULL = ("i", 0)


def is_int(t):
    return isinstance(t, tuple) and t[0] == "i"


def subterms(t):
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, tuple):
            if x:
                yield x
            todo.extend(y for y in x if isinstance(y, tuple))


def mentions(t, pred):
    return any(pred(x) for x in subterms(t))


def show(t, d=0):
    """Readable rendering of a term for reports."""
    if not isinstance(t, tuple) or not t:
        return str(t)
    if d > 7:
        return "..."
    k = t[0]
    r = lambda x: show(x, d + 1)
    try:
        if k == "i":
            return str(t[1])
        if k == "s":
            return '"%s"' % t[1]
        if k == "p":
            return t[1]
        if k == "ld":
            return r(t[1])
        if k == "v":
            return t[3]
        if k == "f":
            return "%s.%s" % (r(t[1]), t[2])
        if k == "d":
            return "*%s" % r(t[1]) if t[1] != ("this",) else "this"
        if k == "e":
            return "%s[%s]" % (r(t[1]), r(t[2]))
        if k == "bin":
            return "(%s %s %s)" % (r(t[2]), t[1], r(t[3]))
        if k == "un":
            return "%s%s" % (t[1], r(t[2]))
        if k == "call":
            n = t[1].split("::")[-1]
            a = ", ".join(r(x) for x in t[3])
            return "%s.%s(%s)" % (r(t[2]), n, a) if t[2] is not None else "%s(%s)" % (n, a)
        if k == "cast":
            return "(%s)%s" % (t[1], r(t[2]))
        if k == "list":
            return "{%s}" % ", ".join(r(x) for x in t[1])
        if k == "addr":
            return "&%s" % r(t[1])
        if k == "cat":
            return " + ".join(r(x) for x in t[1])
        return "%s(%s)" % (k, ", ".join(r(x) for x in t[1:]))
    except Exception:
        return str(t)[:80]


# ------------------------------------------------------------------ strings
def cat(*vs):
    """Concatenation of string-like terms, flattened, adjacent literals joined."""
    out = []
    for v in vs:
        ps = v[1] if isinstance(v, tuple) and v and v[0] == "cat" else ((v,) if not is_empty_str(v) else ())
        for p in ps:
            if out and out[-1][0] == "s" and p[0] == "s":
                out[-1] = ("s", out[-1][1] + p[1])
            else:
                out.append(p)
    if len(out) == 1 and out[0][0] == "s":
        return out[0]
    if not out:
        return ("s", "")
    return ("cat", tuple(out))


def is_empty_str(v):
    return isinstance(v, tuple) and (v == ("s", "") or v[0] == "list" and not v[1])


def pieces(v):
    if isinstance(v, tuple) and v and v[0] == "cat":
        return list(v[1])
    return [v]


def is_strt(t):
    t = (t or "").replace("const ", "").rstrip("& ")
    return t.startswith("std::basic_string<") or t.startswith("std::string") or t.startswith("basic_string<") or t == "string" or "__cxx11::basic_string<" in t.split("(")[0] and not t.startswith("std::vector") and "map" not in t and "pair" not in t and "stream" not in t and "allocator" not in t.split("<")[0]


def fmt_pieces(f, args):
    out, i, buf, n = [], 0, "", 0
    while i < len(f):
        c = f[i]
        if c in "{}" and i + 1 < len(f) and f[i + 1] == c:
            buf += c
            i += 2
            continue
        if c == "{":
            j = f.find("}", i)
            if j < 0 or f[i + 1:j] not in ("",) or n >= len(args):
                return None
            out += [("s", buf)] if buf else []
            out.append(args[n])
            n += 1
            buf = ""
            i = j + 1
            continue
        buf += c
        i += 1
    if buf:
        out.append(("s", buf))
    return out


# ------------------------------------------------------------------ linear forms
def lin(t):
    """(tuple of (atom, coef) sorted, const) of an integer-like term."""
    acc, c = {}, 0
    todo = [(t, 1)]
    while todo:
        x, k = todo.pop()
        if is_int(x):
            c += k * x[1]
        elif isinstance(x, tuple) and x[0] == "bin" and x[1] in ("+", "-") and not is_float(x[4]):
            todo.append((x[2], k))
            todo.append((x[3], k if x[1] == "+" else -k))
        elif isinstance(x, tuple) and x[0] == "bin" and x[1] == "*" and (is_int(x[2]) or is_int(x[3])) and not is_float(x[4]):
            a, b = (x[2], x[3]) if is_int(x[2]) else (x[3], x[2])
            todo.append((b, k * a[1]))
        elif isinstance(x, tuple) and x[0] == "un" and x[1] == "-":
            todo.append((x[2], -k))
        elif isinstance(x, tuple) and x[0] == "cast" and not is_float(x[1]) and x[1] != "bool":
            todo.append((x[2], k))
        else:
            acc[x] = acc.get(x, 0) + k
    items = tuple(sorted(((a, k) for a, k in acc.items() if k), key=repr))
    return items, c


def unlin(items, c):
    """A canonical term of a linear form."""
    t = None
    for a, k in items:
        x = a if k == 1 else ("bin", "*", a, I(k), "long")
        t = x if t is None else ("bin", "+", t, x, "long")
    if t is None:
        return I(c)
    return t if c == 0 else ("bin", "+", t, I(c), "long")


def canon(items, c):
    """Make the leading coefficient positive; returns (items, c, sign)."""
    if items and items[0][1] < 0:
        return tuple((a, -k) for a, k in items), -c, -1
    return items, c, 1


class St:
    __slots__ = ("env", "facts", "bounds", "ev", "dom", "site")

    def __init__(self):
        self.env, self.facts, self.bounds, self.ev, self.dom, self.site = {}, {}, {}, None, None, None

    def fork(self):
        s = St()
        s.env, s.facts, s.bounds, s.ev, s.dom, s.site = dict(self.env), dict(self.facts), dict(self.bounds), self.ev, self.dom, self.site
        return s

    def events(self):
        out, e = [], self.ev
        while e is not None:
            out.append(e[1])
            e = e[0]
        out.reverse()
        return out

    def emit(self, *ev):
        self.ev = (self.ev, ev)

    # ---- facts
    def truth(self, t):
        """True/False/None for the truthiness of a term on this path."""
        k = atom(t)
        kind = k[0]
        if kind == "const":
            return k[1]
        if kind == "not":
            r = self.truth_atom(k[1])
            return None if r is None else not r
        return self.truth_atom(k)

    def truth_atom(self, k):
        if k[0] == "const":
            return k[1]
        if k in self.facts:
            return self.facts[k]
        if k[0] in ("ge0", "eq0"):
            items, c = k[1], k[2]
            lo, hi = self.bounds.get(items, (None, None))
            if k[0] == "ge0":
                if lo is not None and lo + c >= 0:
                    return True
                if hi is not None and hi + c < 0:
                    return False
            else:
                if lo is not None and lo == hi:
                    return lo + c == 0
                if lo is not None and lo + c > 0:
                    return False
                if hi is not None and hi + c < 0:
                    return False
        return None

    def assume(self, t, val):
        """Add the fact; False when it contradicts the path."""
        k = atom(t)
        if k[0] == "not":
            k, val = k[1], not val
        return self.assume_atom(k, val)

    def assume_atom(self, k, val):
        cur = self.truth_atom(k)
        if cur is not None:
            return cur == val
        self.facts[k] = val
        if k[0] in ("ge0", "eq0"):
            items, c = k[1], k[2]
            lo, hi = self.bounds.get(items, (None, None))
            if k[0] == "ge0":
                if val:
                    lo = -c if lo is None else max(lo, -c)
                else:
                    hi = -c - 1 if hi is None else min(hi, -c - 1)
            elif val:
                lo = hi = -c
            else:
                if lo is not None and lo == -c:
                    lo += 1
                if hi is not None and hi == -c:
                    hi -= 1
            self.bounds[items] = (lo, hi)
        return True


def neg(k):
    if k[0] == "not":
        return k[1]
    if k[0] == "const":
        return ("const", not k[1])
    return ("not", k)


def last(q):
    return q.split("::")[-1] if q else ""


def atom(t):
    """Normalised condition key of a term used as a truth value."""
    if is_int(t):
        return ("const", t[1] != 0)
    k = t[0]
    if k in ("s", "addr", "lam", "new", "fn", "fl"):
        return ("const", True)
    if k == "un" and t[1] == "!":
        return neg(atom(t[2]))
    if k == "cast":
        return atom(t[2])
    if k == "bin":
        op, a, b, ty = t[1:5]
        if op in ("==", "!="):
            r = eq_atom(a, b)
            return r if op == "==" else neg(r)
        if op in ("<", ">", "<=", ">="):
            if len(t) > 5 and is_float(t[5]):
                if op in ("<", ">"):
                    return ("flt", a, b) if op == "<" else ("flt", b, a)
                return ("fle", a, b) if op == "<=" else ("fle", b, a)
            if op == "<":
                return ge0(("bin", "-", ("bin", "-", b, a, "l"), I(1), "l"))
            if op == ">":
                return ge0(("bin", "-", ("bin", "-", a, b, "l"), I(1), "l"))
            if op == "<=":
                return ge0(("bin", "-", b, a, "l"))
            return ge0(("bin", "-", a, b, "l"))
    if k == "call":
        n = last(t[1])
        r, a = t[2], t[3]
        if n in ("operator bool", "has_value") and r is not None:
            return atom(r)
        if n == "operator!" and (r is not None or len(a) == 1):
            return neg(atom(r if r is not None else a[0]))
        if n in ("contains", "count") and r is not None and len(a) == 1:
            return ("has", r, a[0])
        if n == "empty" and r is not None and not a:
            return ("empty", r)
        if n == "size" and r is not None and not a:
            return neg(("empty", r))
        if n == "strcmp":
            return neg(streq(a[0], a[1]))
        if n in ("length",) and r is not None:
            return neg(("empty", r))
        if n == "fail" and r is not None:
            return neg(("ok", r))
        if n == "bad" and r is not None:
            return ("bad", r)
        if n == "good" and r is not None:
            return ("ok", r)
    if k == "st":                       # a stream used as a condition
        return ("ok", t)
    if k == "has":
        return t
    items, c = lin(t)
    if not items:
        return ("const", c != 0)
    items, c, _ = canon(items, c)
    return ("not", ("eq0", items, c))


def streq(a, b):
    if a[0] == "s" and b[0] == "s":
        return ("const", a[1] == b[1])
    return ("streq",) + tuple(sorted((a, b), key=repr))


def eq_atom(a, b):
    for x, y in ((a, b), (b, a)):
        if x[0] == "it" and y[0] == "end":
            return ("not", ("has", ("ld", x[1]) if False else x[3], x[2]))
        if is_int(y) and y[1] == 0 or y == ("g", "std::nullopt"):
            return neg(atom(x))
        if is_int(y) and x[0] == "call" and last(x[1]) == "count" and y[1] == 1:
            return ("has", x[2], x[3][0])
        if is_int(y) and y[1] == 1 and x[0] in ("call", "bin", "un", "ld", "p") and getattr(x, "isb", False):
            return atom(x)
    if a[0] == "s" or b[0] == "s":
        return streq(a, b)
    if a == b:
        return ("const", True)
    items, c = lin(("bin", "-", a, b, "l"))
    if not items:
        return ("const", c == 0)
    items, c, _ = canon(items, c)
    return ("eq0", items, c)


def ge0(t):
    items, c = lin(t)
    if not items:
        return ("const", c >= 0)
    # count(k) > 0 / >= 1 / size() > 0
    if len(items) == 1 and items[0][0][0] == "call":
        a, k = items[0]
        n = last(a[1])
        if n == "count" and a[2] is not None and len(a[3]) == 1:
            if k == 1 and c == -1:
                return ("has", a[2], a[3][0])
            if k == -1 and c == 0:
                return ("not", ("has", a[2], a[3][0]))
        if n in ("size", "length") and a[2] is not None and not a[3]:
            if k == 1 and c == -1:
                return ("not", ("empty", a[2]))
            if k == -1 and c == 0:
                return ("empty", a[2])
    i2, c2, s = canon(items, c)
    if s > 0:
        return ("ge0", i2, c2)
    # -L' >= 0 with L' = i2 + c2   <=>  not (L' - 1 >= 0)
    return ("not", ("ge0", i2, c2 - 1))


PASS = {"std::move", "std::forward", "std::as_const", "std::ref", "std::cref", "std::addressof_"}
PUREFREE = {"to_string", "strcmp", "getenv", "make_pair", "make_tuple", "min", "max", "operator+", "operator/", "strlen",
            "secure_getenv", "next", "distance", "string", "abs", "isalnum", "accumulate", "get", "holds_alternative",
            "vertices", "edges", "out_edges", "in_edges", "source", "target", "num_vertices", "out_degree", "in_degree",
            "tie", "null_vertex", "isfinite", "isnan", "tolower", "toupper", "stoul", "stoi", "exists", "begin", "end",
            "cbegin", "cend", "size", "filename", "path", "make_assoc_property_map", "make_iterator_property_map"}
# methods that do not change the observable contents of their receiver even when the non-const overload is picked
READ = {"begin", "end", "cbegin", "cend", "rbegin", "rend", "find", "at", "operator[]", "front", "back", "data", "c_str",
        "get", "size", "count", "contains", "empty", "operator*", "operator->", "value", "has_value", "operator bool",
        "items", "rdbuf", "is_open", "top", "length", "equal_range", "lower_bound", "upper_bound", "operator!", "bad",
        "fail", "good", "eof", "rdstate", "str", "path", "string", "filename", "operator const char *"}
STREAMT = ("ofstream", "ifstream", "fstream", "ostringstream", "istringstream", "stringstream", "ostream", "istream",
           "std::basic_")


def pure(x):
    """A plain path expression: evaluating it twice is the same as once."""
    k = x.get("k")
    if k in ("ref", "this"):
        return True
    if k == "mem":
        return x.get("b") is None or pure(x["b"])
    if k == "cast" or k == "un" and x.get("op") in ("*", "&"):
        return pure(x["x"])
    if k == "call":
        return bool(x.get("mconst") or x.get("op") in ("->", "*")) and all(pure(a) for a in x.get("a", ())) and (x.get("r") is None or pure(x["r"]))
    return False


class Engine:
    """One analysis run.  Subclass or set hooks:
       on_call(eng, st, node, q, recvloc, recvval, args, argnodes) -> None or list of (st, value)
       follow(fn) -> bool                  whether a repository callee is inlined
       may_throw(q) -> bool                whether an external call forks to a throwing path
    """
    MAXDEPTH = 14
    MAXSTATES = 6000
    LOOPS = 2

    def __init__(self, facts):
        self.fx = facts
        self.seq = 0
        self.sink = None
        self.exits = []
        self.stack = []
        self.lams = {}
        self.frame = 0
        self.funcs = set()
        self.ncalls = 0
        self.npaths = 0
        self.dedupe = None           # optional key function for merging states

    # ---- hooks
    def on_call(self, st, node, q, recvloc, recvval, args, argnodes):
        return None

    def follow(self, fn):
        return True

    def devirt(self, n, rl, st=None):
        """The function a virtual call on the object at rl selects, when its class is known."""
        return None

    def may_throw(self, q):
        return False

    def on_store(self, st, loc, val, node):
        return None

    # ---- helpers
    def fresh(self):
        self.seq += 1
        return self.seq

    def deref(self, t):
        if isinstance(t, tuple) and t[0] == "addr":
            return t[1]
        if isinstance(t, tuple) and t[0] == "bin" and t[1] in ("+", "-"):
            items, c = lin(t)
            ptr = [a for a, k in items if k == 1 and a[0] in ("addr", "p", "ld", "phi", "new", "call")]
            if ptr:
                p = ptr[0] if len(ptr) == 1 else next((a for a in ptr if a[0] == "addr" or a[0] == "p"), ptr[0])
                idx = unlin(tuple(x for x in items if x[0] != p), c)
                return self.elem(self.deref(p), idx)
        if isinstance(t, tuple) and t[0] == "new":
            return ("o", t[1], t[2])
        return ("d", t)

    def resolve(self, st, loc):
        """Follow reference bindings."""
        n = 0
        while True:
            v = st.env.get(loc)
            if isinstance(v, tuple) and v and v[0] == "ref":
                loc = v[1]
            else:
                return loc
            n += 1
            if n > 50:
                raise Undecided("reference cycle")

    def load(self, st, loc):
        loc = self.resolve(st, loc)
        base = self.load0(st, loc)
        subs = []
        for l, v in st.env.items():
            if len(l) >= 3 and l[0] in ("f", "e") and l[1] == loc:
                subs.append((l[2], self.load(st, l)))
        if subs:
            if isinstance(base, tuple) and base and base[0] == "rec":
                known = dict(base[2])
                known.update(subs)
                subs = list(known.items())
                base = base[1]
            return ("rec", base, tuple(sorted(subs, key=repr)))
        return base

    def load0(self, st, loc):
        v = st.env.get(loc)
        if v is not None:
            return v
        k = loc[0]
        if k == "t":
            return loc[1]
        if k in ("f", "e"):
            pl = self.resolve(st, loc[1])
            if pl != loc[1]:
                return self.load(st, (k, pl, loc[2]))
            pv = self.load0(st, pl)
            return self.proj(pv, k, loc)
        if k == "gl":
            return ("g", loc[1])
        return ("ld", loc)

    def proj(self, pv, k, loc):
        key = loc[2]
        if isinstance(pv, tuple):
            if pv[0] == "rec":
                for kk, vv in pv[2]:
                    if kk == key:
                        return vv
                return self.proj(pv[1], k, loc)
            if pv[0] == "list":
                idx = None
                if k == "e" and is_int(key):
                    idx = key[1]
                elif k == "e" and isinstance(key, tuple) and key[0] == "itn":
                    idx = None
                elif key in ("first", "second"):
                    idx = 0 if key == "first" else 1
                elif isinstance(key, int):
                    idx = key
                if idx is not None and 0 <= idx < len(pv[1]):
                    return pv[1][idx]
                return ("idx", pv, key)
            if pv[0] == "ld":
                return ("ld", (k, pv[1], key))
            if pv[0] in ("it",) and key == "first":
                return pv[2]
            return ("idx" if k == "e" else "fld", pv, key)
        return ("ld", loc)

    def store(self, st, loc, val, node=None, quiet=False):
        loc = self.resolve(st, loc)
        for l in [l for l in st.env if self.under(l, loc)]:
            del st.env[l]
        st.env[loc] = val
        if not quiet:
            st.emit("store", loc, val, self.where(node))
            self.on_store(st, loc, val, node)

    @staticmethod
    def under(l, loc):
        while len(l) >= 3 and l[0] in ("f", "e"):
            l = l[1]
            if l == loc:
                return True
        return False

    def where(self, node):
        fn = self.stack[-1] if self.stack else None
        f = (fn or {}).get("file", "?")
        if f.startswith(cxx.REPO + "/"):
            f = f[len(cxx.REPO) + 1:]
        l = (node or {}).get("l", 0) if isinstance(node, dict) else 0
        return "%s:%s" % (f, l), (fn or {}).get("q", "?")

    # ---- entry
    def run(self, fn, this=("this",), args=None, st=None):
        """All outcomes (kind, state, value) of calling fn from an unknown state."""
        st = st or St()
        self.sink = []
        self.exits = []
        out = []
        vals = []
        for i, p in enumerate(fn["ps"]):
            if args is not None and i < len(args) and args[i] is not None:
                vals.append(args[i])
            elif p["t"].endswith("&"):
                vals.append(("ref", ("d", ("p", p["n"] or str(i), i))))
            else:
                vals.append(("p", p["n"] or str(i), i))
        for s, v in self.invoke(fn, st, this, vals):
            out.append(("return", s, v))
        out += [("throw", s, v) for s, v in self.sink]
        out += [("exit", s, None) for s in self.exits]
        self.npaths += len(out)
        return out

    def invoke(self, fn, st, this, vals, lvalue=False):
        """Inline a function body: list of (state, return value)."""
        if len(self.stack) > self.MAXDEPTH:
            raise Undecided("inlining depth exceeded at " + fn["q"])
        self.funcs.add(fn["q"])
        self.frame += 1
        fr = self.frame
        self.stack.append(dict(fn, _fr=fr, _this=this))
        try:
            for p, v in zip(fn["ps"], vals):
                st.env[("v", fr, p["id"], p["n"])] = v
            states = [st]
            if fn.get("ctor"):
                for ini in fn.get("inits", ()):
                    nxt = []
                    for s in states:
                        if "f" in ini:
                            loc = ("f", self.deref(this), ini["f"])
                            nxt += self.init_into(s, loc, ini["e"])
                        elif "base" in ini or ini.get("deleg"):
                            nxt += self.init_into(s, self.deref(this), ini["e"], keep=True)
                        else:
                            nxt.append(s)
                    states = nxt
            out = []
            for s in states:
                for kind, s2, v in self.stmt(fn["body"], s):
                    if kind == "next":
                        out.append((s2, ("void",)))
                    elif kind == "return":
                        out.append((s2, v))
                    else:
                        raise Undecided("unexpected control outcome " + kind)
            return out
        finally:
            self.stack.pop()

    @property
    def fr(self):
        return self.stack[-1]["_fr"]

    @property
    def this(self):
        return self.stack[-1]["_this"]

    # ---- statements: list of (kind, state, value)
    def stmt(self, n, st):
        if n is None:
            return [("next", st, None)]
        s = n["s"]
        m = getattr(self, "s_" + s, None)
        if m is None:
            raise Undecided("statement kind " + s)
        return m(n, st)

    def merge(self, outs):
        if len(outs) > self.MAXSTATES:
            raise Undecided("too many paths in " + (self.stack[-1]["q"] if self.stack else "?"))
        if self.dedupe is None or len(outs) < 2:
            return outs
        seen, res = {}, []
        for o in outs:
            k = (o[0], o[2] if o[0] != "next" else None, self.dedupe(o[1]))
            if k in seen:
                continue
            seen[k] = 1
            res.append(o)
        return res

    def s_block(self, n, st):
        outs = [("next", st, None)]
        decls = []
        for c in n["b"]:
            nxt = []
            for kind, s, v in outs:
                if kind != "next":
                    nxt.append((kind, s, v))
                else:
                    nxt += self.stmt(c, s)
            outs = self.merge(nxt)
            if c and c["s"] == "decl":
                decls += [d for d in c["v"] if not d.get("static") and self.has_dtor(d["t"])]
        if decls:
            for kind, s, v in outs:
                for d in reversed(decls):
                    loc = ("v", self.fr, d["id"], d["n"])
                    if loc in s.env or self.any_sub(s, loc):
                        s.emit("dtor", d["t"], loc, self.where(n))
        return outs

    def any_sub(self, s, loc):
        return any(self.under(l, loc) for l in s.env)

    def has_dtor(self, t):
        return not t.endswith("&") and not t.endswith("*") and ("::" in t or t in self.fx.recs)

    def s_expr(self, n, st):
        return [("next", s, None) for s, _ in self.ev(n["e"], st)]

    def s_null(self, n, st):
        return [("next", st, None)]

    def s_other(self, n, st):
        return [("next", st, None)]

    def s_decl(self, n, st):
        states = [st]
        for d in n["v"]:
            nxt = []
            for s in states:
                nxt += self.declare(d, s)
            states = nxt
        return [("next", s, None) for s in states]

    def declare(self, d, st):
        loc = ("v", self.fr, d["id"], d["n"])
        for l in [l for l in st.env if self.under(l, loc)]:
            del st.env[l]
        st.env.pop(loc, None)
        ini = d.get("init")
        if d.get("static") and not d["t"].startswith("const "):
            loc = ("gl", "static:%s:%s" % (self.stack[-1]["q"], d["n"]))
            st.env[("v", self.fr, d["id"], d["n"])] = ("ref", loc)
            return [st]
        if ini is None:
            st.env[loc] = ("undef", d["n"])
            return [st]
        if d.get("bind"):
            out = []
            for s, l in self.loc(ini, st):
                self.bind(s, d["bind"], l)
                out.append(s)
            return out
        if d["t"].endswith("&"):
            out = []
            for s, l in self.loc(ini, st):
                s.env[loc] = ("ref", self.resolve(s, l))
                out.append(s)
            return out
        return self.init_into(st, loc, ini, decl=d)

    def bind(self, s, binds, l):
        l = self.resolve(s, l)
        v = self.load0(s, l)
        for i, b in enumerate(binds):
            key = ("first", "second")[i] if i < 2 and not (isinstance(v, tuple) and v[0] == "list") else i
            s.env[("v", self.fr, b["id"], b["n"])] = ("ref", ("f", l, key))

    def init_into(self, st, loc, ini, keep=False, decl=None):
        """Initialise the object at loc with an expression."""
        if ini is None:
            return [st]
        if ini.get("k") == "defarg":
            ini = ini["x"]
        if ini.get("k") == "ctor":
            ctor = self.fx.fns.get(ini.get("u"))
            if ctor is not None and self.can_follow(ctor):
                out = []
                for s, vals in self.args(ini["a"], st, ctor):
                    if not keep:
                        for l in [l for l in s.env if self.under(l, loc)]:
                            del s.env[l]
                    s.env.setdefault(loc, ("obj", ini["q"], loc))
                    for s2, _ in self.invoke(ctor, s, ("addr", loc), vals):
                        out.append(s2)
                return out
            out = []
            for s, v in self.ev(ini, st):
                if keep:
                    out.append(s)
                    continue
                self.store(s, loc, v, ini, quiet=True)
                out.append(s)
            return out
        out = []
        for s, v in self.ev(ini, st):
            self.store(s, loc, v, ini, quiet=True)
            s.emit("init", loc, v, self.where(ini))
            out.append(s)
        return out

    def s_if(self, n, st):
        sts = [st]
        if n.get("init"):
            sts = [s for k, s, v in self.stmt(n["init"], st)]
        outs = []
        for s in sts:
            for s1 in (self.declare(n["cv"], s) if n.get("cv") else [s]):
                t, f = self.branch(n["c"], s1)
                for x in t:
                    outs += self.stmt(n["then"], x)
                for x in f:
                    outs += self.stmt(n.get("else"), x) if n.get("else") else [("next", x, None)]
        return self.merge(outs)

    def assigned(self, body):
        """Variable ids / member names syntactically written in a loop body."""
        ids = {}
        for x in cxx.walk(body):
            k = x.get("k")
            tgt, how = None, None
            if k == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                tgt = x["x"]
                how = "const" if x["op"] == "=" and isconst(x["y"]) else ("inc" if x["op"] == "+=" else "other")
            elif k == "un" and x["op"] in ("++", "--"):
                tgt, how = x["x"], "inc" if x["op"] == "++" else "other"
            elif k == "call" and x.get("op") in ("++", "--", "=", "+=", "-=", "*=", "/=") and x.get("a"):
                tgt = x["a"][0]
                how = "inc" if x["op"] == "++" else ("const" if x["op"] == "=" and x["a"][1].get("k") in ("bool", "int") else "other")
            elif k == "call" and x.get("r") is not None and not x.get("mconst") and last(x.get("q", "")) not in READ:
                tgt, how = x["r"], "mut"
            if tgt is not None and tgt.get("k") == "ref" and "id" in tgt:
                old = ids.get(tgt["id"])
                ids[tgt["id"]] = how if old in (None, how) else "other"
        return ids

    def havoc(self, st, ids):
        """Generalise the values of variables modified by a loop."""
        for l in list(st.env):
            if l[0] == "v" and l[2] in ids:
                how = ids[l[2]]
                v = st.env[l]
                if how in ("const", "mut"):
                    continue
                if isinstance(v, tuple) and v and v[0] in ("ref", "undef"):
                    continue
                for l2 in [l2 for l2 in st.env if self.under(l2, l)]:
                    del st.env[l2]
                nv = ("phi", self.fresh(), l[3], v)
                st.env[l] = nv
                if how == "inc":
                    st.assume(("bin", "==", nv, self._init.get(l, v), "bool"), False)
                    i0 = self._init.get(l)
                    if i0 is not None and is_int(i0):
                        st.assume(("bin", ">", nv, i0, "bool"), True)

    def loop(self, st, cond, body, inc, ids, dowhile=False):
        """cond/inc: callables st -> (true states, false states) / [states]."""
        outs = []
        heads = [st]
        saved = getattr(self, "_init", {})
        self._init = {l: v for l, v in st.env.items() if l[0] == "v" and l[2] in ids}
        seen = set()
        try:
            it = 0
            conc = 0
            while heads and it <= self.LOOPS:
                nxt = []
                step = 1
                for h in heads:
                    if dowhile and it == 0:
                        t, f = [h], []
                    else:
                        t, f = cond(h)
                    outs += [("next", x, None) for x in f]
                    if len(heads) == 1 and len(t) == 1 and not f and conc < 40 and not (dowhile and it == 0):
                        # the condition is decided on this path: a concrete iteration
                        conc += 1
                        step = 0
                        for kind, s, v in body(t[0], it):
                            if kind in ("next", "continue"):
                                nxt += inc(s)
                            elif kind == "break":
                                outs.append(("next", s, None))
                            else:
                                outs.append((kind, s, v))
                        continue
                    if it == self.LOOPS:
                        continue
                    if it > 0:
                        for x in t:
                            self.havoc(x, ids)
                        t2 = []
                        for x in t:
                            a, b = cond(x) if not dowhile else ([x], [])
                            t2 += a
                        t = t2
                    for x in t:
                        for kind, s, v in body(x, it):
                            if kind in ("next", "continue"):
                                nxt += inc(s)
                            elif kind == "break":
                                outs.append(("next", s, None))
                            else:
                                outs.append((kind, s, v))
                if self.dedupe is not None:
                    nn = []
                    for s in nxt:
                        k = self.dedupe(s)
                        if (it, k) not in seen:
                            seen.add((it, k))
                            nn.append(s)
                    nxt = nn
                heads = nxt
                it += step
                if len(outs) + len(heads) > self.MAXSTATES:
                    raise Undecided("too many paths in a loop of " + self.stack[-1]["q"])
        finally:
            self._init = saved
        return self.merge(outs)

    def iter_loop(self, n):
        """for (auto it = X.begin(); it != X.end(); ++it) with `it` otherwise unmodified, as a range loop over X."""
        if not (n.get("init") and n.get("c") and n.get("inc")) or n["init"].get("s") != "decl":
            return None
        ds = n["init"]["v"]
        it = ds[0]

        def rng(x, names):
            while isinstance(x, dict) and x.get("k") in ("cast", "ctor") and (x.get("x") or len(x.get("a", ())) == 1):
                x = x.get("x") or x["a"][0]
            if isinstance(x, dict) and x.get("k") == "call" and last(x.get("q", "")) in names:
                if x.get("r") is not None and not x.get("a"):
                    return x["r"]
                if x.get("r") is None and len(x.get("a", ())) == 1:
                    return x["a"][0]
            return None

        def isit(x):
            while isinstance(x, dict) and x.get("k") in ("cast", "ctor") and (x.get("x") or len(x.get("a", ())) == 1):
                x = x.get("x") or x["a"][0]
            return isinstance(x, dict) and x.get("k") == "ref" and x.get("id") == it["id"]

        def same(a, b):
            strip_ = lambda z: {k: v for k, v in z.items() if k not in ("l", "c", "t")} if isinstance(z, dict) else z
            if isinstance(a, dict) and isinstance(b, dict):
                a, b = strip_(a), strip_(b)
                while a.get("k") == "cast":
                    a = strip_(a["x"])
                while b.get("k") == "cast":
                    b = strip_(b["x"])
                return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
            if isinstance(a, list) and isinstance(b, list):
                return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
            return a == b

        x = rng(it.get("init"), ("begin", "cbegin"))
        if x is None or not pure(x):
            return None
        c = n["c"]
        if c.get("k") == "un" and c.get("op") == "!" and c["x"].get("op") == "==":
            c = c["x"]
        elif c.get("op") != "!=":
            return None
        ops = c.get("a") or [c.get("x"), c.get("y")]
        if c.get("r") is not None:
            ops = [c["r"]] + list(c.get("a", ()))
        if len(ops) != 2:
            return None
        if not isit(ops[0]):
            ops = ops[::-1]
        if not isit(ops[0]):
            return None
        e = rng(ops[1], ("end", "cend"))
        if e is None and len(ds) == 2 and ops[1].get("k") == "ref" and ops[1].get("id") == ds[1]["id"]:
            e = rng(ds[1].get("init"), ("end", "cend"))
        if e is None or not same(x, e):
            return None
        inc = n["inc"]
        if inc.get("op") != "++" or not isit(inc.get("x") or (inc.get("a") or [None])[0] or inc.get("r")):
            return None
        if it["id"] in self.assigned([n["b"]]):
            return None
        return {"s": "frange", "l": n.get("l"), "r": x, "b": n["b"], "v": {"n": it["n"], "id": it["id"], "t": it.get("t", ""), "iter": True}}

    def s_for(self, n, st):
        r = self.iter_loop(n)
        if r is not None:
            return self.s_frange(r, st)
        sts = [st]
        if n.get("init"):
            sts = [s for k, s, v in self.stmt(n["init"], st)]
        ids = self.assigned([n.get("b"), n.get("inc"), n.get("c")])
        outs = []
        for s in sts:
            outs += self.loop(
                s,
                (lambda x: self.branch(n["c"], x)) if n.get("c") else (lambda x: ([x], [])),
                lambda x, i: self.stmt(n["b"], x),
                (lambda x: [y for y, _ in self.ev(n["inc"], x)]) if n.get("inc") else (lambda x: [x]), ids)
        return outs

    def s_while(self, n, st):
        ids = self.assigned([n.get("b"), n.get("c")])

        def cond(x):
            t, f = [], []
            for y in (self.declare(n["cv"], x) if n.get("cv") else [x]):
                a, b = self.branch(n["c"], y)
                t += a
                f += b
            return t, f
        return self.loop(st, cond, lambda x, i: self.stmt(n["b"], x), lambda x: [x], ids)

    def s_do(self, n, st):
        ids = self.assigned([n.get("b"), n.get("c")])
        return self.loop(st, lambda x: self.branch(n["c"], x), lambda x, i: self.stmt(n["b"], x), lambda x: [x], ids, dowhile=True)

    def s_frange(self, n, st):
        sts = [st]
        if n.get("init"):
            sts = [s for k, s, v in self.stmt(n["init"], st)]
        ids = self.assigned([n["b"]])
        outs = []
        for s0 in sts:
            for s, rl in self.loc(n["r"], s0):
                rl = self.range_loc(s, self.resolve(s, rl))
                rv = self.load(s, rl)
                if isinstance(rv, tuple) and rv[0] == "list":
                    outs += self.range_known(n, s, rl, rv)
                    continue
                fo = self.fold_loop(n)
                if fo is not None:
                    acc, op = fo
                    for s2, l in self.loc(acc, s):
                        self.store(s2, l, ("fold", op, acc.get("t", ""), rv, self.load(s2, l)), n)
                        outs.append(("next", s2, None))
                    continue
                cnt = self.fresh()
                val = ("un", "!", ("call", "empty", rv, (), 0))

                def cond(x, _c=cnt, _v=val, _first=[True]):
                    k = ("more", _c, x.env.get(("rc", _c), 0))
                    if x.env.get(("rc", _c), 0) == 0:
                        tr = x.truth(_v)
                        if tr is True:
                            return [x], []
                        if tr is False:
                            return [], [x]
                        y = x.fork()
                        x.assume(_v, True)
                        y.assume(_v, False)
                        return [x], [y]
                    tr = x.facts.get(k)
                    if tr is not None:
                        return ([x], []) if tr else ([], [x])
                    y = x.fork()
                    x.facts[k] = True
                    y.facts[k] = False
                    return [x], [y]

                def body(x, i, _rl=rl, _c=cnt):
                    c = x.env.get(("rc", _c), 0)
                    x.env[("rc", _c)] = c + 1
                    el = ("e", _rl, ("itn", _c, min(c, 1)))
                    d = n["v"]
                    if d.get("iter"):
                        x.env[("v", self.fr, d["id"], d["n"])] = ("addr", el)
                    elif d.get("bind"):
                        self.bind(x, d["bind"], el)
                    elif d["t"].endswith("&"):
                        x.env[("v", self.fr, d["id"], d["n"])] = ("ref", el)
                    else:
                        self.store(x, ("v", self.fr, d["id"], d["n"]), self.load(x, el), quiet=True)
                    x.emit("iter", _rl, el, self.where(n))
                    return self.stmt(n["b"], x)
                done = self.loop(s, cond, body, lambda x: [x], ids)
                for o in done:
                    o[1].emit("iterdone", cnt)
                outs += done
        return outs

    def range_loc(self, st, rl):
        return rl

    def fold_loop(self, n):
        """for (x : range) acc *= x;   as (accumulator reference, operator)."""
        b, d = n["b"], n["v"]
        if d.get("iter") or d.get("bind"):
            return None
        while b.get("s") == "block" and len(b["b"]) == 1:
            b = b["b"][0]
        if b.get("s") != "expr":
            return None
        e = b["e"]
        while e.get("k") == "cast":
            e = e["x"]
        if e.get("k") != "bin" or e.get("op") not in ("*=", "+="):
            return None
        x, y = e["x"], e["y"]
        while y.get("k") == "cast" and bits(y.get("t", "")) >= 64:
            y = y["x"]
        if x.get("k") == "ref" and y.get("k") == "ref" and y.get("id") == d["id"] and x.get("id") != d["id"] and not is_float(x.get("t", "")):
            return x, e["op"][0]
        return None

    def range_known(self, n, st, rl, rv):
        outs = []
        cur = [st]
        for i in range(len(rv[1])):
            nxt = []
            for x in cur:
                d = n["v"]
                el = ("e", rl, I(i))
                if d.get("iter"):
                    x.env[("v", self.fr, d["id"], d["n"])] = ("addr", el)
                elif d.get("bind"):
                    self.bind(x, d["bind"], el)
                elif d["t"].endswith("&"):
                    x.env[("v", self.fr, d["id"], d["n"])] = ("ref", el)
                else:
                    self.store(x, ("v", self.fr, d["id"], d["n"]), rv[1][i], quiet=True)
                for kind, s, v in self.stmt(n["b"], x):
                    if kind in ("next", "continue"):
                        nxt.append(s)
                    elif kind == "break":
                        outs.append(("next", s, None))
                    else:
                        outs.append((kind, s, v))
            cur = nxt
        return outs + [("next", s, None) for s in cur]

    def s_break(self, n, st):
        return [("break", st, None)]

    def s_continue(self, n, st):
        return [("continue", st, None)]

    def s_return(self, n, st):
        if n.get("e") is None:
            return [("return", st, ("void",))]
        ret = self.stack[-1].get("t", "")
        if ret.endswith("&") and not ret.endswith("&&"):
            return [("return", s, ("ref", self.resolve(s, l))) for s, l in self.loc(n["e"], st)]
        return [("return", s, v) for s, v in self.ev(n["e"], st)]

    def s_switch(self, n, st):
        sts = [st]
        if n.get("init"):
            sts = [s for k, s, v in self.stmt(n["init"], st)]
        body = n["b"]["b"] if n["b"] and n["b"]["s"] == "block" else [n["b"]]
        flat = []                                  # (labels, stmt)
        for c in body:
            labels = []
            while c is not None and c["s"] in ("case", "default"):
                labels.append(c)
                c = c["b"]
            flat.append((labels, c))
        outs = []
        for s0 in sts:
            for s1 in (self.declare(n["cv"], s0) if n.get("cv") else [s0]):
                for s, v in self.ev(n["c"], s1):
                    default = None
                    rest = s
                    for i, (labels, c) in enumerate(flat):
                        for lb in labels:
                            if lb["s"] == "default":
                                default = i
                                continue
                            if rest is None:
                                continue
                            for _, lv in self.ev(lb["v"], rest):
                                cond = ("bin", "==", v, lv, "bool")
                                tr = rest.truth(cond)
                                if tr is False:
                                    continue
                                hit = rest if tr is True else rest.fork()
                                if tr is None:
                                    hit.assume(cond, True)
                                    rest.assume(cond, False)
                                outs += self.run_from(flat, i, hit)
                                if tr is True:
                                    rest = None
                                break
                    if rest is not None:
                        if default is not None:
                            outs += self.run_from(flat, default, rest)
                        else:
                            outs.append(("next", rest, None))
        return self.merge([("next", s, None) if k == "break" else (k, s, v) for k, s, v in outs])

    def run_from(self, flat, i, st):
        outs = [("next", st, None)]
        for labels, c in flat[i:]:
            nxt = []
            for k, s, v in outs:
                nxt += [(k, s, v)] if k != "next" else self.stmt(c, s)
            outs = nxt
        return outs

    def s_try(self, n, st):
        old = self.sink
        self.sink = []
        try:
            outs = self.stmt(n["b"], st)
            thrown = self.sink
        finally:
            self.sink = old
        for s, v in thrown:
            handled = False
            for h in n["h"]:
                if self.catches(h["t"], v):
                    s2 = s
                    if "id" in h:
                        s2.env[("v", self.fr, h["id"], "e")] = v
                    s2.emit("catch", h["t"], v, self.where(h.get("b")))
                    s2.env[("cur-exc",)] = v
                    outs += self.stmt(h["b"], s2)
                    handled = True
                    break
            if not handled:
                self.sink.append((s, v))
        return outs

    def catches(self, t, v):
        if t == "...":
            return True
        t = t.replace("const ", "").replace("&", "").strip()
        vt = v[1] if isinstance(v, tuple) and v and v[0] == "exc" else None
        vt = (vt or "").replace("const ", "").replace("&", "").strip()
        if t == "std::exception":
            return vt.startswith("std::") or "exception" in vt.lower() or "error" in vt.lower() or vt == "?" or vt.startswith("sdfg")
        return vt == t or vt == "?" or vt.endswith("::" + last(t))

    def s_case(self, n, st):
        return self.stmt(n["b"], st)

    s_default = s_case

    def s_label(self, n, st):
        return self.stmt(n["b"], st)

    def s_goto(self, n, st):
        raise Undecided("goto")

    # ---- conditions
    def branch(self, n, st):
        """(states where n holds, states where it does not)."""
        k = n.get("k")
        if k == "un" and n["op"] == "!":
            t, f = self.branch(n["x"], st)
            return f, t
        if k == "bin" and n["op"] in ("&&", "||"):
            t, f = self.branch(n["x"], st)
            T, F = [], []
            if n["op"] == "&&":
                F += f
                for s in t:
                    a, b = self.branch(n["y"], s)
                    T += a
                    F += b
            else:
                T += t
                for s in f:
                    a, b = self.branch(n["y"], s)
                    T += a
                    F += b
            return T, F
        if k == "cast" and not is_float(n.get("t")):
            return self.branch(n["x"], st)
        T, F = [], []
        for s, v in self.ev(n, st):
            tr = s.truth(v)
            if tr is True:
                T.append(s)
            elif tr is False:
                F.append(s)
            else:
                s2 = s.fork()
                if s.assume(v, True):
                    T.append(s)
                if s2.assume(v, False):
                    F.append(s2)
        return T, F

    # ---- locations
    def loc(self, n, st):
        """list of (state, location) of an lvalue (or materialised) expression."""
        k = n.get("k")
        if k == "ref":
            if n["d"] in ("param", "local", "slocal"):
                return [(st, self.varloc(st, n))]
            if n["d"] == "global":
                return [(st, ("gl", n["q"]))]
        elif k == "mem" and not n.get("method"):
            b = n["b"]
            if b is None:
                return [(st, ("f", self.deref(self.this), n["n"]))]
            if b.get("k") == "this":
                return [(st, self.fieldloc(st, self.deref(self.this), n["n"]))]
            bt = b.get("t", "")
            if bt.endswith("*") or (b.get("k") == "call" and b.get("op") == "->"):
                return [(s, self.fieldloc(s, self.deref_loc(v), n["n"])) for s, v in self.ev(b, st)]
            return [(s, self.fieldloc(s, self.resolve(s, l), n["n"])) for s, l in self.loc(b, st)]
        elif k == "un" and n["op"] == "*":
            return [(s, self.deref_loc(v)) for s, v in self.ev(n["x"], st)]
        elif k == "un" and n["op"] in ("++", "--") and not n.get("post"):
            out = []
            for s, v in self.ev(n, st):
                out += self.loc(n["x"], s)
            return out
        elif k == "bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
            out = []
            for s, v in self.ev(n, st):
                out += self.loc(n["x"], s)
            return out
        elif k == "idx":
            out = []
            bt = n["x"].get("t", "")
            if bt.endswith("*"):
                for s, b in self.ev(n["x"], st):
                    for s2, i in self.ev(n["y"], s):
                        d = self.deref(b)
                        out.append((s2, self.elem(d[1], unlin(*lin(("bin", "+", d[2], i, "l")))) if d[0] == "e" and b[0] == "bin" else
                                    self.elem(d, i)))
            else:
                for s, b in self.loc(n["x"], st):
                    for s2, i in self.ev(n["y"], s):
                        out.append((s2, self.elem(self.resolve(s2, b), i)))
            return out
        elif k == "call":
            r = self.call(n, st, want="loc")
            return r
        elif k == "cast":
            if n.get("rei") or n["ck"] in ("NoOp", "DerivedToBase", "BaseToDerived", "UncheckedDerivedToBase", "LValueBitCast"):
                return self.loc(n["x"], st)
        elif k == "cond":
            t, f = self.branch(n["c"], st)
            out = []
            for s in t:
                out += self.loc(n["x"], s)
            for s in f:
                out += self.loc(n["y"], s)
            return out
        elif k == "defarg":
            return self.loc(n["x"], st)
        elif k == "this":
            return [(st, ("t", self.this))]
        # materialise
        return [(s, ("t", v)) for s, v in self.ev(n, st)]

    def elem(self, base, idx):
        """base[idx], folding nested constant offsets."""
        if base[0] == "e" and isinstance(base[2], tuple) and base[2] and base[2][0] != "itn" and base[1][0] == "d":
            return ("e", base[1], unlin(*lin(("bin", "+", base[2], idx, "l"))))
        return ("e", base, unlin(*lin(idx)) if idx[0] in ("bin", "cast", "i") else idx)

    def deref_loc(self, v):
        if isinstance(v, tuple) and v[0] == "ref":
            return v[1]
        return self.deref(v)

    def fieldloc(self, st, base, name):
        # (it->second) of a map lookup is the map's element
        if base[0] == "d" and isinstance(base[1], tuple) and base[1][0] == "it":
            if name == "second":
                return ("e", base[1][1], base[1][2])
            if name == "first":
                return ("t", base[1][2])
        return ("f", base, name)

    def varloc(self, st, n):
        for fr in reversed(self.stack):
            l = ("v", fr["_fr"], n["id"], n["n"])
            if l in st.env or self.any_sub_cheap(st, l):
                return self.resolve(st, l)
            if not fr.get("_closure"):
                break
        return ("v", self.fr, n["id"], n["n"])

    def any_sub_cheap(self, st, l):
        return False

    # ---- expressions: list of (state, term)
    def ev(self, n, st):
        if n is None:
            return [(st, ("void",))]
        k = n["k"]
        if "cv" in n and k in ("sizeof", "bin", "cast", "un", "call", "other", "ref") and k != "call":
            if not (k == "ref" and n.get("d") in ("param", "local")):
                return [(st, I(n["cv"]))]
        m = getattr(self, "e_" + k, None)
        if m is None:
            raise Undecided("expression kind " + k)
        return m(n, st)

    def e_int(self, n, st):
        return [(st, I(n["v"]))]

    def e_char(self, n, st):
        return [(st, I(n["v"]))]

    def e_bool(self, n, st):
        return [(st, I(1 if n["v"] else 0))]

    def e_float(self, n, st):
        return [(st, ("fl", n["v"]))]

    def e_str(self, n, st):
        return [(st, ("s", n["v"]))]

    def e_null(self, n, st):
        return [(st, NULL)]

    def e_zero(self, n, st):
        return [(st, I(0) if is_scalar(n.get("t", "")) else ("list", (), n.get("t", "")))]

    def e_this(self, n, st):
        return [(st, self.this)]

    def e_defarg(self, n, st):
        return self.ev(n["x"], st)

    def e_desig(self, n, st):
        return self.ev(n["x"], st)

    def e_pack(self, n, st):
        return self.ev(n["x"], st)

    e_fold = e_pack

    def e_sizeof(self, n, st):
        return [(st, ("sizeof", n.get("t")))]

    def e_typeid(self, n, st):
        if n.get("x"):
            return [(s, ("typeid", v)) for s, v in self.ev(n["x"], st)]
        return [(st, ("typeid", ("type", n.get("t"))))]

    def e_ref(self, n, st):
        d = n["d"]
        if d in ("param", "local", "slocal"):
            l = self.varloc(st, n)
            if is_arr(n.get("t")):
                return [(st, ("addr", l))]
            v = self.load(st, l)
            return [(st, v)]
        if d == "global":
            v = st.env.get(("gl", n["q"]))
            if v is None:
                var = self.fx.vars.get(n["q"])
                if var and "const" in var["t"] and var.get("init"):
                    c = self.constval(var["init"])
                    if c is not None:
                        return [(st, c)]
                v = ("g", n["q"])
            return [(st, self.load(st, ("gl", n["q"])))]
        if d == "func":
            return [(st, ("fn", n["q"], n.get("u")))]
        if d == "enum":
            return [(st, I(n["cv"]) if "cv" in n else ("enum", n["q"]))]
        return [(st, ("name", n.get("q") or n.get("n")))]

    def constval(self, n):
        while n and n.get("k") in ("cast", "defarg") and "cv" not in n:
            n = n["x"]
        if n is None:
            return None
        if "cv" in n:
            return I(n["cv"])
        if n["k"] in ("int", "char"):
            return I(n["v"])
        if n["k"] == "bool":
            return I(1 if n["v"] else 0)
        if n["k"] == "str":
            return ("s", n["v"])
        if n["k"] == "ctor" and len(n["a"]) >= 1 and n["a"][0] and n["a"][0].get("k") == "str":
            return ("s", n["a"][0]["v"])
        return None

    def e_mem(self, n, st):
        if n.get("method"):
            return [(st, ("fn", n["q"], None))]
        if is_arr(n.get("t")):
            return [(s, ("addr", self.resolve(s, l))) for s, l in self.loc(n, st)]
        return [(s, self.load(s, l)) for s, l in self.loc(n, st)]

    def e_idx(self, n, st):
        if is_arr(n.get("t")):
            return [(s, ("addr", self.resolve(s, l))) for s, l in self.loc(n, st)]
        return [(s, self.load(s, l)) for s, l in self.loc(n, st)]

    def e_un(self, n, st):
        op = n["op"]
        if op == "&":
            return [(s, ("addr", self.resolve(s, l)) if l[0] != "t" or not (isinstance(l[1], tuple) and l[1] and l[1][0] == "fn") else l[1]) for s, l in self.loc(n["x"], st)]
        if op == "*":
            return [(s, self.load(s, l)) for s, l in self.loc(n, st)]
        if op in ("++", "--"):
            out = []
            for s, l in self.loc(n["x"], st):
                old = self.load(s, l)
                new = self.arith("+" if op == "++" else "-", old, I(1), n.get("t"))
                self.store(s, l, new, n)
                out.append((s, old if n.get("post") else new))
            return out
        if op == "!":
            t, f = self.branch(n["x"], st)
            return [(s, I(0)) for s in t] + [(s, I(1)) for s in f]
        out = []
        for s, v in self.ev(n["x"], st):
            if is_int(v) and op == "-":
                out.append((s, I(-v[1])))
            elif op == "+":
                out.append((s, v))
            else:
                out.append((s, ("un", op, v)))
        return out

    def arith(self, op, a, b, t, ot=None):
        if is_int(a) and is_int(b):
            x, y = a[1], b[1]
            try:
                r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "&": lambda: x & y, "|": lambda: x | y,
                     "^": lambda: x ^ y, "<<": lambda: x << y, ">>": lambda: x >> y,
                     "/": lambda: int(x / y), "%": lambda: x - int(x / y) * y,
                     "==": lambda: int(x == y), "!=": lambda: int(x != y), "<": lambda: int(x < y), ">": lambda: int(x > y),
                     "<=": lambda: int(x <= y), ">=": lambda: int(x >= y)}[op]()
                if -(1 << 63) <= r < (1 << 64) and not (t and "unsigned" in t and r < 0):
                    return I(r)
            except (KeyError, ZeroDivisionError, OverflowError, ValueError):
                pass
        if op in ("==", "!=", "<", ">", "<=", ">="):
            return ("bin", op, a, b, t or "bool", ot)
        if op in ("+", "-") and b == ("i", 0):
            return a
        return ("bin", op, a, b, t or "")

    def e_bin(self, n, st):
        op = n["op"]
        if op in ("&&", "||"):
            t, f = self.branch(n, st)
            return [(s, I(1)) for s in t] + [(s, I(0)) for s in f]
        if op == ",":
            return [r for s, _ in self.ev(n["x"], st) for r in self.ev(n["y"], s)]
        if op == "=":
            out = []
            for s, v in self.ev(n["y"], st):
                for s2, l in self.loc(n["x"], s):
                    self.store(s2, l, v, n)
                    out.append((s2, v))
            return out
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            out = []
            for s, v in self.ev(n["y"], st):
                for s2, l in self.loc(n["x"], s):
                    new = self.arith(op[:-1], self.load(s2, l), v, n.get("ct") or n.get("t"))
                    lt = re.sub(r"\s*\b(const|volatile)\b\s*", " ", n.get("t", "")).strip(" &")
                    if not is_int(new) and n.get("ct") and lt in SCALARS and n["ct"] in SCALARS and not is_float(lt) and lt != "bool" \
                            and (is_float(n["ct"]) or bits(lt) < bits(n["ct"])):
                        new = ("cast", lt, new)
                    self.store(s2, l, new, n)
                    out.append((s2, new))
            return out
        out = []
        ot = etype(n["x"]) if is_float(etype(n["x"])) else etype(n["y"])
        for s, a in self.ev(n["x"], st):
            for s2, b in self.ev(n["y"], s):
                out.append((s2, self.arith(op, a, b, n.get("t"), ot)))
        return out

    def e_cast(self, n, st):
        out = []
        t = n.get("t", "")
        for s, v in self.ev(n["x"], st):
            if n.get("ck") in ("IntegralCast", "FloatingToIntegral", "IntegralToFloating", "FloatingCast"):
                if is_int(v) and n["ck"] == "IntegralCast":
                    if t == "bool":
                        v = I(1 if v[1] else 0)
                    elif v[1] < 0 and "unsigned" in t:
                        v = I(v[1] % (1 << bits(t)))
                    out.append((s, v))
                else:
                    out.append((s, ("cast", t, v)))
            elif n.get("ck") == "ToVoid":
                out.append((s, ("void",)))
            elif n.get("dyn"):
                out.append((s, ("dyncast", t, v)))
            else:
                out.append((s, v))
        return out

    def e_cond(self, n, st):
        t, f = self.branch(n["c"], st)
        out = []
        for s in t:
            out += self.ev(n["x"], s)
        for s in f:
            out += self.ev(n["y"], s)
        return out

    def e_list(self, n, st):
        out = [(st, [])]
        for a in n["a"]:
            out = [(s2, vs + [v]) for s, vs in out for s2, v in self.ev(a, s)]
        r = self.fx.recs.get(n.get("t", ""))
        res = []
        for s, vs in out:
            if len(vs) == 1 and is_scalar(n.get("t", "")):
                res.append((s, vs[0]))
            elif r and len(r["fields"]) == len(vs):
                res.append((s, ("rec", ("agg", n["t"]), tuple((f["n"], v) for f, v in zip(r["fields"], vs)))))
            else:
                res.append((s, ("list", tuple(vs), n.get("t", ""))))
        return res

    def e_new(self, n, st):
        x = n.get("x")
        num = self.fresh()
        if x is not None and x.get("k") == "ctor":
            ctor = self.fx.fns.get(x.get("u"))
            if ctor is not None and self.can_follow(ctor):
                loc = ("o", num, n["t"])
                return [(s, ("addr", loc)) for s in self.init_into(st, loc, x)]
        out = []
        for s, v in (self.ev(x, st) if x is not None else [(st, ("void",))]):
            s.emit("new", n["t"], v, self.where(n))
            out.append((s, ("new", num, n["t"], v)))
        return out

    def e_delete(self, n, st):
        out = []
        for s, v in self.ev(n["x"], st):
            s.emit("delete", v, self.where(n))
            out.append((s, ("void",)))
        return out

    def e_throw(self, n, st):
        if n.get("x") is None:
            cur = st.env.get(("cur-exc",), ("exc", "?", ("void",)))
            st.emit("throw", "rethrow", cur, self.where(n))
            self.sink.append((st, cur))
            return []
        for s, v in self.ev(n["x"], st):
            s.emit("throw", n.get("t", ""), v, self.where(n))
            self.sink.append((s, ("exc", n.get("t", ""), v)))
        return []

    def e_lambda(self, n, st):
        key = id(n)
        self.lams[key] = (n, self.stack[-1])
        return [(st, ("lam", key))]

    def e_stmtexpr(self, n, st):
        out = []
        for k, s, v in self.stmt(n["body"], st):
            if k == "next":
                out.append((s, ("void",)))
            else:
                raise Undecided("statement expression with control flow")
        return out

    def e_other(self, n, st):
        out = [(st, [])]
        for a in n.get("a", ()):
            out = [(s2, vs + [v]) for s, vs in out for s2, v in self.ev(a, s)]
        if n.get("n") in ("CXXNoexceptExpr",):
            return [(st, I(0))]
        return [(s, ("other", n.get("n"), tuple(vs))) for s, vs in out]

    # ---- calls
    def can_follow(self, fn):
        if fn is None or not fn.get("body") or fn.get("dep"):
            return False
        if sum(1 for f in self.stack if f.get("u") == fn["u"]) > 0:
            return False
        return self.follow(fn)

    def args(self, nodes, st, fn=None):
        out = [(st, [])]
        for i, a in enumerate(nodes):
            isref = fn is not None and i < len(fn["ps"]) and fn["ps"][i]["t"].endswith("&")
            nxt = []
            for s, vs in out:
                if a is None:
                    nxt.append((s, vs + [("void",)]))
                elif isref:
                    for s2, l in self.loc(a, s):
                        nxt.append((s2, vs + [("ref", self.resolve(s2, l))]))
                else:
                    for s2, v in self.ev(a, s):
                        nxt.append((s2, vs + [v]))
            out = nxt
        return out

    def e_call(self, n, st):
        return self.call(n, st)

    def call(self, n, st, want="val"):
        q = n.get("q", "")
        self.ncalls += 1
        name = last(q)
        if self.skip_output and n.get("op") == "<<" and self.output_chain(n):
            return [(st, ("gl", "std::cout") if want == "loc" else ("g", "std::cout"))]
        op = n.get("op")
        a = n["a"]
        # pass-through
        if q in PASS and len(a) == 1:
            return self.loc(a[0], st) if want == "loc" else self.ev(a[0], st)
        fn = self.fx.fns.get(n.get("u"))
        virt = n.get("virt") and not n.get("qual")
        # receiver
        if n.get("r") is not None:
            rn, an = n["r"], a
        elif op and fn is None and op not in ("<<", ">>", "()") and a and not n.get("static"):
            rn, an = a[0], a[1:]
        elif op and fn is not None and fn.get("cls") and a:
            rn, an = a[0], a[1:]
        elif op in ("<<", ">>", "()"):
            rn, an = a[0], a[1:]
        else:
            rn, an = None, a
        if op == "=" and rn is not None and fn is None:
            out = []
            for s, v in self.ev(an[0], st):
                for s2, l in self.loc(rn, s):
                    self.store(s2, l, v, n)
                    out.append((s2, l if want == "loc" else v))
            return out
        outs = []
        if n.get("fn") is not None and rn is None and not q:
            # indirect call
            for s, fv in self.ev(n["fn"], st):
                for s2, vs in self.args(an, s, self.callee(fv)):
                    outs += self.indirect(n, s2, fv, vs, an, want)
            return outs
        if rn is not None:
            isptr = rn.get("t", "").endswith("*") or rn.get("k") == "this" or (rn.get("k") == "call" and rn.get("op") == "->")
            if isptr:
                recs = [(s, self.deref_loc(v)) for s, v in self.ev(rn, st)]
            else:
                recs = [(s, self.resolve(s, l)) for s, l in self.loc(rn, st)]
        else:
            recs = [(st, None)]
        for s, rl in recs:
            if op == "()" and rl is not None:
                fv = self.load(s, rl)
                if isinstance(fv, tuple) and fv[0] == "lam":
                    for s2, vs in self.args(an, s, self.callee(fv)):
                        outs += self.indirect(n, s2, fv, vs, an, want)
                    continue
            tgt = fn if not virt else self.devirt(n, rl, st)
            if tgt is not None and self.can_follow(tgt):
                fn = tgt
                for s2, vs in self.args(an, s, fn):
                    h = self.on_call(s2, n, q, rl, None, self.derefs(s2, vs), an)
                    if h is not None:
                        outs += self.adapt(h, "keep")
                        continue
                    while len(vs) < len(fn["ps"]):
                        break
                    s2.emit("enter", q, tuple(vs), self.where(n), rl)
                    for s3, v in self.invoke(fn, s2, ("addr", rl) if rl is not None else None, vs):
                        s3.emit("leave", q, v, self.where(n))
                        outs.append((s3, v))
                continue
            for s2, vs in self.args(an, s, fn):
                vs = self.derefs(s2, vs)
                rv = self.load(s2, rl) if rl is not None else None
                h = self.on_call(s2, n, q, rl, rv, vs, an)
                if h is not None:
                    outs += self.adapt(h, "keep")
                else:
                    outs += self.external(n, s2, q, name, op, rl, rv, vs, an)
        return self.adapt(outs, want)

    skip_output = True

    def output_chain(self, n):
        """A diagnostic print (std::cout/cerr/clog << ...) whose operands have no effect."""
        parts = []
        while isinstance(n, dict) and n.get("k") == "call" and n.get("op") == "<<":
            ops = ([n["r"]] if n.get("r") is not None else []) + n["a"]
            parts += ops[1:]
            n = ops[0]
        while isinstance(n, dict) and n.get("k") in ("cast", "defarg"):
            n = n["x"]
        if not (isinstance(n, dict) and n.get("k") == "ref" and n.get("q") in ("std::cout", "std::cerr", "std::clog")):
            return False
        for p in parts:
            for x in cxx.walk(p):
                k = x.get("k")
                if k == "bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
                    return False
                if k == "un" and x["op"] in ("++", "--"):
                    return False
                if k == "call" and not x.get("mconst") and x.get("q") and x.get("r") is not None and last(x["q"]) not in READ:
                    return False
                if k == "call" and self.fx.fns.get(x.get("u")) is not None and not x.get("mconst"):
                    return False
                if k in ("new", "delete", "throw", "lambda"):
                    return False
        return True

    def derefs(self, st, vs):
        return [self.load(st, v[1]) if isinstance(v, tuple) and v and v[0] == "ref" else v for v in vs]

    def adapt(self, outs, want):
        if want == "keep":
            return outs
        res = []
        for s, v in outs:
            isref = isinstance(v, tuple) and v and v[0] == "ref"
            if want == "loc":
                res.append((s, v[1] if isref else ("t", v)))
            else:
                res.append((s, self.load(s, v[1]) if isref else v))
        return res

    def callee(self, fv):
        if isinstance(fv, tuple) and fv and fv[0] == "lam":
            return self.lams[fv[1]][0]
        if isinstance(fv, tuple) and fv and fv[0] == "fn" and fv[2]:
            return self.fx.fns.get(fv[2])
        return None

    def indirect(self, n, st, fv, vs, an, want):
        if isinstance(fv, tuple) and fv[0] == "lam":
            node, owner = self.lams[fv[1]]
            return self.adapt(self.call_lambda(node, owner, st, vs), want)
        if isinstance(fv, tuple) and fv[0] == "fn":
            fn = self.fx.fns.get(fv[2]) if fv[2] else None
            if fn is not None and self.can_follow(fn):
                return self.adapt(self.invoke(fn, st, None, vs), want)
            q = fv[1]
        elif isinstance(fv, tuple) and fv[0] == "g":
            q = "*" + fv[1]
        else:
            q = "*?"
        vs = self.derefs(st, vs)
        h = self.on_call(st, n, q, None, fv, vs, an)
        if h is not None:
            return self.adapt(h, want)
        return self.adapt(self.external(n, st, q, last(q), None, None, None, vs, an), want)

    def call_lambda(self, node, owner, st, vs):
        if len(self.stack) > self.MAXDEPTH:
            raise Undecided("lambda depth")
        self.stack.append(dict(owner, _closure=True, t=node.get("t", "")))
        try:
            for p, v in zip(node["ps"], vs):
                l = ("v", self.fr, p["id"], p["n"])
                st.env[l] = v
            out = []
            for k, s, v in self.stmt(node["body"], st):
                if k == "next":
                    out.append((s, ("void",)))
                elif k == "return":
                    out.append((s, v))
                else:
                    raise Undecided("lambda control")
            return out
        finally:
            self.stack.pop()

    def lambdas_in(self, st, vs):
        return [v for v in vs if isinstance(v, tuple) and v and v[0] == "lam"]

    def external(self, n, st, q, name, op, rl, rv, vs, an):
        """Model of a call that leaves the repository."""
        t = n.get("t", "")
        if n.get("noret") or q in ("exit", "abort", "std::exit", "std::abort", "_exit", "std::terminate"):
            st.emit("call", q, rl, rv, tuple(vs), None, self.where(n))
            st.emit("exit", q, tuple(vs), self.where(n))
            self.exits.append(st)
            return []
        if self.may_throw(q):
            s2 = st.fork()
            s2.emit("call", q, rl, rv, tuple(vs), ("threw",), self.where(n))
            self.sink.append((s2, ("exc", "?", ("call", q, rv, tuple(vs), self.fresh()))))
        # algorithms taking lambdas: run the lambda on a generic element, zero or one time
        lam = self.lambdas_in(st, vs)
        if lam and name not in ("accumulate",):
            outs = [st.fork()]
            for lv in lam:
                node, owner = self.lams[lv[1]]
                pv = [("larg", self.fresh(), p["n"], tuple(x for x in vs if x[0] != "lam"), rv) for p in node["ps"]]
                nxt = []
                for s in outs:
                    for s2, _ in self.call_lambda(node, owner, s, pv):
                        nxt.append(s2)
                outs = nxt
            states = [st] + outs
        else:
            states = [st]
        res = []
        for s in states:
            res += self.external1(n, s, q, name, op, rl, rv, vs, an, t)
        return res

    def external1(self, n, st, q, name, op, rl, rv, vs, an, t):
        w = self.where(n)
        std = not q.startswith("*")
        # ---- operators on opaque classes
        if op in ("==", "!=", "<", ">", "<=", ">=") and rv is not None and len(vs) == 1:
            return [(st, ("bin", op, rv, vs[0], "bool", None))]
        if op == "==" and rv is None and len(vs) == 2:
            return [(st, ("bin", op, vs[0], vs[1], "bool", None))]
        if op in ("*", "->") and "iter_impl" in q and isinstance(rv, tuple) and rv and rv[0] == "it":
            return [(st, ("ref", ("e", rv[1], rv[2])) if op == "*" else ("addr", ("e", rv[1], rv[2])))]
        if op in ("*", "->") and rv is not None and not vs:
            return [(st, ("ref", self.deref(rv)))] if op == "*" else [(st, rv)]
        if op == "[]" and rl is not None and len(vs) == 1:
            if isinstance(rv, tuple) and rv and rv[0] == "new":
                return [(st, ("ref", ("e", self.deref(rv), vs[0])))]
            st.emit("call", q, rl, rv, tuple(vs), None, w)
            return [(st, ("ref", ("e", rl, vs[0])))]
        if op in ("++", "--") and rl is not None:
            new = ("un", op, rv)
            self.store(st, rl, new, n)
            return [(st, rv if vs else ("ref", rl))]
        if op == "+" and rv is not None and len(vs) == 1 and is_strt(t) or op == "+" and rv is None and len(vs) == 2 and is_strt(t):
            return [(st, cat(*([rv] if rv is not None else []), *vs))]
        if rl is not None and is_strt(n["r"].get("t") if n.get("r") is not None else (n["a"][0] or {}).get("t") if n.get("a") else ""):
            if (op == "+=" or name in ("append", "push_back")) and len(vs) == 1:
                st.emit("call", q, rl, rv, tuple(vs), None, w)
                self.store(st, rl, cat(rv, vs[0]), n, quiet=True)
                return [(st, ("ref", rl))]
            if name == "append" and len(vs) == 2 and is_int(vs[0]) and is_int(vs[1]):
                self.store(st, rl, cat(rv, *([vs[1]] * max(0, vs[0][1]))), n, quiet=True)
                return [(st, ("ref", rl))]
            if name == "clear" and not vs:
                self.store(st, rl, ("s", ""), n, quiet=True)
                return [(st, ("void",))]
            if name in ("reserve", "shrink_to_fit"):
                return [(st, ("void",))]
        if isinstance(rv, tuple) and rv and rv[0] == "oss":
            if name == "str" and not vs:
                return [(st, cat(*rv[1]))]
            if op == "<<" and len(vs) == 1:
                x = (n.get("a") or [None])[-1] or {}
                v = vs[0]
                if isinstance(v, tuple) and v and v[0] == "fn":
                    v = ("s", "\n") if last(v[1]) == "endl" else ("name", v[1])
                elif not is_strt(x.get("t")) and not (x.get("t") or "").endswith("char *") and v[0] not in ("s", "cat"):
                    v = v if "path" in (x.get("t") or "") else ("call", "std::to_string", None, (v,), 0)
                self.store(st, rl, ("oss", rv[1] + (v,)), n, quiet=True)
                return [(st, ("ref", rl))]
        if q in ("std::format",) and vs and vs[0][0] == "s":
            ps = fmt_pieces(vs[0][1], [v if is_strt((x or {}).get("t")) or v[0] in ("s", "cat") else ("call", "std::to_string", None, (v,), 0)
                                       for v, x in zip(vs[1:], an[1:])])
            if ps is not None:
                return [(st, cat(*ps))]
        if op == "+=" and rl is not None:
            st.emit("call", q, rl, rv, tuple(vs), None, w)
            self.store(st, rl, ("call", "operator+", None, (rv, vs[0]), 0), n)
            return [(st, ("ref", rl))]
        if op in ("<<", ">>") and rl is not None:
            st.emit("call", q or "operator" + op, rl, rv, tuple(vs), None, w)
            if op == ">>":
                for i, x in enumerate(an):
                    for s2, l in self.loc(x, st):
                        self.store(s2, l, ("out", "operator>>", self.fresh(), (rv,)), n, quiet=True)
                        st = s2
                        break
            self.mutstream(st, rl, q, n)
            return [(st, ("ref", rl))]
        if op in ("+", "-", "*", "/", "|", "&", "^", "%") and rv is not None and len(vs) == 1:
            return [(st, ("call", "operator" + op, None, (rv, vs[0]), 0))]
        # ---- well known members
        if rl is not None:
            if name == "find" and len(vs) == 1:
                return [(st, ("it", rl, vs[0], rv))]
            if name in ("end", "cend") and not vs:
                return [(st, ("end", rl))]
            if name == "at" and len(vs) == 1:
                st.emit("call", q, rl, rv, tuple(vs), None, w)
                return [(st, ("ref", ("e", rl, vs[0])))]
            if name in ("emplace", "insert", "try_emplace", "insert_or_assign") and len(vs) == 2:
                st.emit("call", q, rl, rv, tuple(vs), None, w)
                self.store(st, ("e", rl, vs[0]), vs[1], n, quiet=True)
                had = st.facts.pop(("has", rv, vs[0]), None)
                if had is not None:
                    st.facts[("had", rv, vs[0])] = had
                return [(st, ("list", (("it", rl, vs[0], rv), ("ins", self.fresh())), "pair"))]
            if name == "get" and not vs and isinstance(rv, tuple):
                return [(st, rv)]
            if name in ("size", "length") and not vs and isinstance(rv, tuple) and rv and rv[0] == "list":
                return [(st, I(len(rv[1])))]
            if name == "empty" and not vs and isinstance(rv, tuple) and rv and rv[0] == "list":
                return [(st, I(0 if rv[1] else 1))]
            if name in ("value", "front", "back", "top") and not vs:
                st.emit("call", q, rl, rv, tuple(vs), None, w)
                if name == "value":
                    return [(st, ("ref", rl))]
                return [(st, ("ref", ("e", rl, ("pos", name))))]
            if name == "erase" and len(vs) == 1:
                st.emit("call", q, rl, rv, tuple(vs), None, w)
                key = vs[0][2] if vs[0][0] == "it" else vs[0]
                for l in [l for l in st.env if l == ("e", rl, key) or self.under(l, ("e", rl, key))]:
                    del st.env[l]
                return [(st, ("call", q, None, (), self.fresh()))]
            if name in ("c_str", "data") and not vs and name == "c_str":
                return [(st, rv)]
        if name in ("make_shared", "make_unique"):
            T = (n.get("ta") or [""])[0]
            num = self.fresh()
            ctor = [f for f in self.fx.methods(T) if f.get("ctor") and len(f["ps"]) >= len(vs) and not f.get("dep")
                    and all(p.get("def") for p in f["ps"][len(vs):]) and not self.copyctor(f)]
            if len(ctor) == 1 and self.can_follow(ctor[0]) and vs:
                loc = ("o", num, T)
                st.env[loc] = ("obj", T, loc)
                pv = [("ref", ("t", v)) if p["t"].endswith("&") else v for p, v in zip(ctor[0]["ps"], vs)]
                out = []
                for p in ctor[0]["ps"][len(vs):]:
                    pv.append(self.constval(p["def"]) or ("name", "default"))
                for s2, _ in self.invoke(ctor[0], st, ("addr", loc), pv):
                    out.append((s2, ("addr", loc)))
                return out
            st.emit("new", T, tuple(vs), w)
            return [(st, ("new", num, T, tuple(vs)))]
        if name in ("make_pair", "make_tuple", "pair", "tuple") and rl is None:
            return [(st, ("list", tuple(vs), name))]
        if name == "next" and len(vs) == 1:
            return [(st, ("un", "++", vs[0]))]
        if name == "tie":
            return [(st, ("tie", tuple(vs)))]
        pure = rl is not None and (n.get("mconst") or name in READ) or rl is None and std and name in PUREFREE
        num = 0 if pure else self.fresh()
        res = ("call", q, rv, tuple(vs), num)
        st.emit("call", q, rl, rv, tuple(vs), res, w)
        wr = n.get("wr")
        if not pure or wr:
            if rl is not None and not pure:
                self.mutate(st, rl, q, rv, vs, n)
            for i, x in enumerate(an):
                if x is None:
                    continue
                if wr is not None and i in wr or (wr is None and isinstance(vs[i], tuple) and vs[i][0] == "addr"):
                    v = vs[i]
                    if isinstance(v, tuple) and v[0] == "addr":
                        self.store(st, v[1], ("out", q, self.fresh(), tuple(vs)), n, quiet=True)
                    elif wr is not None and i in wr and not x.get("t", "").endswith("*"):
                        for s2, l in self.loc_pure(x, st):
                            self.store(st, l, ("out", q, self.fresh(), tuple(vs)), n, quiet=True)
        if rl is not None and name in ("read", "write", "put", "flush", "seekg", "ignore") and ("basic_istream" in q or "basic_ostream" in q):
            return [(st, ("ref", rl))]
        if t.endswith("&") and rl is not None and not n.get("mconst"):
            return [(st, ("ref", rl))] if name in ("write", "read", "append", "assign", "flush", "seekg", "emplace_back_") else [(st, res)]
        return [(st, res)]

    def loc_pure(self, x, st):
        """Location of an argument that was already evaluated (no new effects)."""
        if x.get("k") == "ref" and x["d"] in ("param", "local", "slocal"):
            return [(st, self.varloc(st, x))]
        if x.get("k") == "mem" and not x.get("method") and x["b"] is not None and x["b"].get("k") in ("this", "ref"):
            return self.loc(x, st)
        return []

    def copyctor(self, f):
        return len(f["ps"]) == 1 and f["ps"][0]["t"].replace("const ", "").rstrip("& ") == f.get("cls")

    def mutstream(self, st, rl, q, n):
        st.env[rl] = ("st", self.fresh(), last(q))

    def mutate(self, st, rl, q, rv, vs, n):
        name = last(q)
        if name in ("write", "read", "close", "open", "put", "flush", "seekg", "getline", "ignore"):
            st.env[rl] = ("st", self.fresh(), name)
            return
        if name in ("clear",):
            self.store(st, rl, ("list", (), "cleared"), n, quiet=True)
            return
        if isinstance(rv, tuple) and rv and rv[0] == "list" and name in ("push_back", "emplace_back") and len(vs) == 1:
            self.store(st, rl, ("list", rv[1] + (vs[0],), rv[2]), n, quiet=True)
            return
        self.store(st, rl, ("mut", name, rv, tuple(vs)), n, quiet=True)

    def e_ctor(self, n, st):
        q = n.get("q", "")
        ctor = self.fx.fns.get(n.get("u"))
        if ctor is not None and self.can_follow(ctor):
            loc = ("o", self.fresh(), q)
            return [(s, self.load(s, loc)) for s in self.init_into(st, loc, n)]
        out = []
        for s, vs in self.args([x for x in n["a"]], st):
            vs = self.derefs(s, vs)
            h = self.on_call(s, n, q + "::ctor", None, None, vs, n["a"])
            if h is not None:
                out += self.adapt(h, "val")
                continue
            out.append((s, self.construct(s, n, q, vs)))
        return out

    def construct(self, st, n, q, vs):
        t = n.get("t", "")
        if "basic_ostringstream" in q or "basic_stringstream" in q:
            real = [v for v, a in zip(vs, n["a"]) if a is not None and a.get("k") != "defarg"]
            if not real:
                return ("oss", ())
        if any(x in q for x in ("stream",)):
            v = ("st", self.fresh(), "open", tuple(vs), q)
            st.emit("open", q, tuple(vs), v, self.where(n))
            return v
        real = [v for v, a in zip(vs, n["a"]) if a is not None and a.get("k") != "defarg"]
        if not real and q == "std::basic_string":
            return ("s", "")
        if not real and not q.endswith("path"):
            return ("list", (), t)
        if q == "std::basic_string" and len(real) == 2 and is_int(real[0]) and is_int(real[1]):
            return cat(*([("s", chr(real[1][1]))] * max(0, real[0][1])))
        if len(real) == 1 and ("basic_string" in q or "path" in q or "shared_ptr" in q or "unique_ptr" in q or "optional" in q
                              or "basic_json" in q or "variant" in q or "function" in q or "vector" in q and real[0][0] == "list"):
            return real[0]
        if "pair" in q or "tuple" in q:
            return ("list", tuple(real), q)
        if "lock" in q:
            st.emit("lock", q, tuple(real), self.where(n))
        return ("ctor", q, tuple(real))


def isconst(e):
    while isinstance(e, dict) and (e.get("k") == "cast" or e.get("k") == "ctor" and len(e.get("a", ())) == 1):
        e = e["x"] if e["k"] == "cast" else e["a"][0]
    return isinstance(e, dict) and e.get("k") in ("bool", "int", "str", "char", "null")


def is_arr(t):
    return bool(t) and t.endswith("]") and "[" in t and "(" not in t


SCALARS = {"bool", "int", "long", "short", "char", "unsigned", "float", "double", "long double", "long long", "size_t", "std::size_t", "signed char", "unsigned char",
           "unsigned int", "unsigned short", "unsigned long", "unsigned long long", "uint8_t", "uint16_t", "uint32_t", "uint64_t", "int8_t", "int16_t", "int32_t",
           "int64_t"}


def is_scalar(t):
    t = re.sub(r"\s*\bconst\b\s*", " ", t).strip()
    return t in SCALARS or t.endswith("*")


def bits(t):
    t = t.replace("const ", "")
    if "bool" in t or "char" in t:
        return 8
    if "short" in t:
        return 16
    if "long" in t or t.endswith("*") or "double" in t or t.endswith("size_t") or t.endswith("int64_t"):
        return 64
    if "__int128" in t:
        return 128
    return 32


def etype(n):
    while isinstance(n, dict):
        if "t" in n:
            return n["t"]
        n = n.get("x")
    return ""
