"""Shared vocabulary of the checks: JSON-aware engine, sequence copies, products,
stream typestate."""
import re
import time

from . import absint as A
from .absint import I, last

JSON = "basic_json"


class JEngine(A.Engine):
    """Engine with a model of nlohmann::json values and std::accumulate."""
    opaque = ()
    limit = 150.0

    def __init__(self, fx):
        super().__init__(fx)
        self.t0 = time.time()

    def follow(self, fn):
        if time.time() - self.t0 > self.limit:
            raise A.Undecided("time limit of the dataflow engine")
        return fn["q"] not in self.opaque

    def on_call(self, st, node, q, rl, rv, args, an):
        name = last(q)
        if JSON in q and JSON in q.rsplit("::", 1)[0]:
            if rl is None and name in ("array", "object"):
                return [(st, self.jlit(args[0]) if args and args[0][0] == "list" and args[0][1] else ("list", (), "json"))]
            if name == "ctor" or q.endswith("basic_json::ctor"):
                real = [v for v, a in zip(args, an) if a is not None and a.get("k") != "defarg"]
                if not real:
                    return [(st, ("list", (), "json"))]
                if real[0][0] == "list" and ("init" in real[0][2] or "json_ref" in real[0][2]):
                    return [(st, self.jlit(real[0]))]
                return [(st, real[0])]
            if name == "get" and not args and rv is not None:
                return [(st, ("jget", (node.get("ta") or [node.get("t", "")])[0], rv))]
            if name == "get_to" and rv is not None:
                for s2, l in self.loc(an[0], st):
                    self.store(s2, l, ("jget", an[0].get("t", ""), rv), node)
                    return [(s2, ("ref", l))]
            if name.startswith("operator ") and name not in ("operator bool",) and rv is not None and not args:
                return [(st, ("jget", node.get("t", ""), rv))]
            if name == "at" and rl is not None and len(args) == 1:
                st.emit("call", q, rl, rv, tuple(args), None, self.where(node))
                return [(st, ("ref", ("e", rl, args[0])))]
            if name == "emplace" and rl is not None and len(args) == 2:
                self.store(st, ("e", rl, args[0]), args[1], node)
                return [(st, ("void",))]
            if name in ("operator+=",) and rl is not None and len(args) == 1 and isinstance(rv, tuple) and rv and rv[0] == "list":
                self.store(st, rl, ("list", rv[1] + (args[0],), rv[2]), node)
                return [(st, ("ref", rl))]
        if "json_ref" in q and name == "ctor" and args:
            return [(st, args[0] if len(args) == 1 else ("list", tuple(args), "init"))]
        if q == "std::accumulate" and len(args) in (3, 4):
            ty = (node.get("ta") or ["", ""])[1] if len(node.get("ta") or ()) > 1 else ""
            op = "+"
            if len(args) == 4:
                t = (an[3] or {}).get("q", "") or (an[3] or {}).get("t", "")
                op = "*" if "multiplies" in str(an[3]) else ("+" if "plus" in str(an[3]) else "?")
                if args[3][0] == "lam":
                    op = self.lambda_op(args[3])
                    ty = min([ty] + [p["t"].replace("const ", "").rstrip("& ") for p in self.lams[args[3][1]][0]["ps"]], key=A.bits)
                else:
                    m = re.search(r"(?:multiplies|plus)<([a-z_ :0-9]+)>", str((an[3] or {}).get("t", "")))
                    ty = min([ty] + ([m.group(1)] if m else []), key=A.bits)
            src = range_src(args[0], args[1])
            st.emit("call", q, None, None, tuple(args), None, self.where(node))
            if src is not None and isinstance(src, tuple) and src[0] == "list" and op == "*":
                v = args[2]
                for x in src[1]:
                    v = ("bin", "*", v, x, ty)
                return [(st, v)]
            return [(st, ("fold", op, ty, src, args[2]))]
        return None

    def lambda_op(self, lv):
        node, _ = self.lams[lv[1]]
        b = node["body"]
        if b["s"] == "block" and len(b["b"]) == 1 and b["b"][0]["s"] == "return":
            e = b["b"][0]["e"]
            while e and e.get("k") == "cast":
                e = e["x"]
            if e and e.get("k") == "bin" and e["op"] in "*+":
                return e["op"]
        return "?"

    def jlit(self, v):
        """{{"k", v}, ...} initialiser lists become records."""
        if not (isinstance(v, tuple) and v and v[0] == "list"):
            return v
        els = [x for x in v[1]]
        if els and all(isinstance(x, tuple) and x[0] == "list" and len(x[1]) == 2 and x[1][0][0] == "s" for x in els):
            return ("rec", ("list", (), "json"), tuple((x[1][0], self.jlit(x[1][1])) for x in els))
        return ("list", tuple(self.jlit(x) for x in els), "json")


def range_src(a, b):
    """The container of a begin()/end() pair, or None."""
    if a[0] == "call" and last(a[1]) in ("begin", "cbegin") and b[0] in ("call", "end"):
        src = a[2] if a[2] is not None else (a[3][0] if a[3] else None)
        if b[0] == "end":
            return src
        src2 = b[2] if b[2] is not None else (b[3][0] if b[3] else None)
        if last(b[1]) in ("end", "cend") and src == src2:
            return src
    return None


# ------------------------------------------------------------------ sequences
def strip(v):
    while isinstance(v, tuple) and v and v[0] == "cast":
        v = v[2]
    return v


def elem_of(v, src):
    """Index term if v reads an element of the sequence at location src."""
    v = strip(v)
    if isinstance(v, tuple) and v and v[0] == "ld" and v[1][0] == "e" and v[1][1] == src:
        return v[1][2]
    return None


def complete(st, idxs, src):
    """True when the visited indices are provably all elements in order on this path, False when provably
    not, None otherwise."""
    srcv = ("ld", src)
    size = ("call", "size", srcv, (), 0)
    if not idxs:
        for l, v in st.facts.items():
            if l[0] == "empty" and l[1] == srcv and v:
                return True
        for l, v in st.facts.items():
            if l == ("empty", srcv) and not v:
                return False
        sz = size_atoms(st, srcv)
        for a in sz:
            if st.truth(("bin", ">", a, I(0), "bool")) is False:
                return True
        return None
    if all(i[0] == "itn" for i in idxs):
        n = idxs[0][1]
        if any(i[1] != n for i in idxs) or [i[2] for i in idxs] != [min(k, 1) for k in range(len(idxs))]:
            return False
        f = st.facts.get(("more", n, len(idxs)))
        return True if f is False else False
    # index based
    if A.is_int(idxs[0]) and idxs[0][1] != 0:
        return False
    if any(i[0] == "itn" for i in idxs):
        return None
    lastv = idxs[-1]
    if len(idxs) > 1 and any(a[0] == "call" and last(a[1]) in ("size", "length") and a[2] == srcv for a, _ in A.lin(idxs[0])[0]):
        return False                      # the first of several visited elements is counted from the end
    for a, b in zip(idxs, idxs[1:]):
        da, db = A.lin(a), A.lin(b)
        if da[0] == db[0] and db[1] - da[1] != 1:
            return False
    for k, i in enumerate(idxs):
        if A.is_int(i) and i[1] != k:
            return False
    for a in size_atoms(st, srcv):
        if st.truth(("bin", "<", ("bin", "+", lastv, I(1), "l"), a, "bool")) is False:
            return True
        if st.truth(("bin", "<", ("bin", "+", lastv, I(1), "l"), a, "bool")) is True:
            return False
    return None


def size_atoms(st, srcv):
    out = []
    for items in st.bounds:
        for a, _ in items:
            if a[0] == "call" and last(a[1]) in ("size", "length") and a[2] == srcv and a not in out:
                out.append(a)
    return out


def copy_of(st, v, src):
    """Is v an order-preserving, complete copy of the sequence at src on this path?  True/False/None"""
    v = strip(v)
    if v == ("ld", src):
        return True
    if isinstance(v, tuple) and v:
        if v[0] == "ctor":
            r = range_src(v[2][0], v[2][1]) if len(v[2]) == 2 else None
            return True if r == ("ld", src) else None
        if v[0] == "list":
            if src[0] == "x":
                return None
            idxs = []
            for x in v[1]:
                i = elem_of(x, src)
                if i is None:
                    return False
                idxs.append(i)
            return complete(st, idxs, src)
    return None


def factors(v):
    """(multiset of factors, smallest width used) of a product term."""
    w = [64]
    out = []

    def go(x):
        if x[0] == "bin" and x[1] == "*":
            if A.is_float(x[4]):
                w[0] = 0
            w[0] = min(w[0], A.bits(x[4]) if x[4] else 64)
            go(x[2])
            go(x[3])
        elif x[0] == "cast":
            w[0] = min(w[0], A.bits(x[1]))
            go(x[2])
        elif x[0] == "fold":
            if x[1] == "*":
                w[0] = min(w[0], A.bits(x[2]) if x[2] else 64)
            go(x[4])
            out.append(("fold", x[1], x[3]))
        elif x == I(1):
            pass
        else:
            out.append(x)
    go(v)
    return sorted(out, key=repr), w[0]


# ------------------------------------------------------------------ streams
def stream_ok(st, v):
    """The stream state value v is known good on this path."""
    return st.truth(v) is True


def stream_final(st, loc):
    """Last stream version stored for a stream whose location is loc."""
    return st.env.get(loc)


def evs(st, kind, pred=lambda e: True):
    return [e for e in st.events() if e[0] == kind and pred(e)]


def callev(st, *names):
    return [e for e in st.events() if e[0] == "call" and last(e[1]) in names]
