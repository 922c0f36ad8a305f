"""Object-aware engine: constructors behind make_unique, virtual calls on objects of known class, and JSON
documents that were built earlier on the same path."""
from . import absint as A
from . import rules as R
from .absint import I, last


def tmpl_args(t):
    """Top-level template arguments of a type spelling."""
    i = t.find("<")
    out, d, cur = [], 0, ""
    for c in t[i + 1:t.rfind(">")]:
        d += c in "<(["
        d -= c in ">)]"
        if c == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return out + [cur.strip()] if i >= 0 else []


NULLRCP = ("g", "SymEngine::null")


def base(t):
    """Class name of a (reference/pointer/const) type spelling."""
    t = t.replace("const ", "").strip()
    while t and t[-1] in "&* ":
        t = t[:-1]
    if t.endswith(" const"):
        t = t[:-6]
    return t


def arith(t):
    w = base(t).replace("unsigned", "").replace("signed", "").split()
    return not w or all(x in ("int", "long", "short", "char", "bool", "float", "double", "size_t", "std::size_t") for x in w)


class OEngine(R.JEngine):
    writers = {}              # writer function of an out-parameter -> tag
    readers = {}              # reader function -> tag of the writer it inverts
    printers = {}             # value-returning printer -> tag
    stop = ()                 # functions never inlined

    def follow(self, fn):
        if fn["q"] in self.stop or fn["q"] in self.writers or fn["q"] in self.readers or fn["q"] in self.printers:
            return False
        return super().follow(fn)

    def devirt(self, n, rl, st=None):
        t = self.cls_of(rl)
        if t is None and st is not None and rl is not None:
            v = st.env.get(rl)
            if isinstance(v, tuple) and v[:1] == ("obj",) and len(v) == 3:
                t = v[1]
        if t is None:
            return None
        us = {n["u"]: self.fx.fns.get(n["u"])}
        for f in self.fx.overriders(n["u"]):
            us[f["u"]] = self.fx.fns.get(f["u"])
        for c in [t] + self.fx.bases(t):
            for f in us.values():
                if f is not None and f.get("cls") == c:
                    return f
        return None

    def e_ctor(self, n, st):
        if n.get("q") == "std::pair" and "&" in n.get("t", "") and len(n["a"]) == 2:
            refs = [a.rstrip(">").rstrip().endswith("&") for a in tmpl_args(n["t"])]
            if len(refs) == 2 and any(refs):
                out = []
                for s, vs in self.args(list(n["a"]), st):
                    vs = list(vs)
                    for i, a in enumerate(n["a"]):
                        if refs[i] and not (isinstance(vs[i], tuple) and vs[i][:1] == ("ref",)):
                            vs[i] = ("ref", self.loc(a, s)[0][1])
                        elif not refs[i]:
                            vs[i] = self.derefs(s, [vs[i]])[0]
                    out.append((s, ("list", tuple(vs), "std::pair")))
                return out
        return super().e_ctor(n, st)

    def init_into(self, st, loc, n, *a, **kw):
        if len(loc) == 3 and loc[0] == "f" and self.stack and self.stack[-1].get("ctor"):
            c = self.fx.recs.get(self.stack[-1].get("cls")) or {"fields": []}
            if any(f["n"] == loc[2] and f["t"].endswith("&") for f in c["fields"]):
                for s, l in self.loc(n, st):
                    s.env[loc] = ("ref", self.resolve(s, l))
                    return [s]
        return super().init_into(st, loc, n, *a, **kw)

    def loc(self, n, st):
        if n.get("k") == "cast" and n.get("dyn") and "*" not in n.get("t", "*") or n.get("k") == "dyncast" and "*" not in n.get("t", "*"):
            return self.loc(n["x"], st)
        return super().loc(n, st)

    def resolve(self, st, loc):
        loc = super().resolve(st, loc)
        for _ in range(20):
            if len(loc) == 2 and loc[0] == "t" and isinstance(loc[1], tuple) and loc[1][:1] == ("dyncast",) and len(loc[1]) > 2 \
                    and "*" not in loc[1][1] and isinstance(loc[1][2], tuple) and loc[1][2][0] == "ld":
                loc = super().resolve(st, loc[1][2][1])
                continue
            if len(loc) == 3 and loc[0] == "f" and loc[2] in ("first", "second") and loc[1][0] == "t" \
                    and isinstance(loc[1][1], tuple) and loc[1][1][0] == "list" and len(loc[1][1][1]) == 2:
                y = loc[1][1][1][0 if loc[2] == "first" else 1]
                if isinstance(y, tuple) and y and y[0] == "ref":
                    loc = super().resolve(st, y[1])
                    continue
            elif len(loc) == 3 and loc[0] == "f" and loc[2] in ("first", "second") and isinstance(st.env.get(loc[1]), tuple) \
                    and st.env[loc[1]][:1] == ("list",) and len(st.env[loc[1]][1]) == 2 and loc not in st.env:
                y = st.env[loc[1]][1][0 if loc[2] == "first" else 1]
                if isinstance(y, tuple) and y and y[0] == "ref":
                    loc = super().resolve(st, y[1])
                    continue
            elif len(loc) == 3 and loc[0] in ("f", "e") and isinstance(loc[1], tuple) and loc[1][0] in ("f", "t", "e"):
                b = self.resolve(st, loc[1])
                if b != loc[1]:
                    loc = super().resolve(st, (loc[0], b, loc[2]))
                    continue
            break
        return loc

    def cls_of(self, loc):
        if not isinstance(loc, tuple):
            return None
        if loc[0] == "o" and len(loc) > 2:
            return base(loc[2])
        if loc[0] == "d" and isinstance(loc[1], tuple) and loc[1][0] == "dyncast":
            return base(loc[1][1])
        return None

    def ctor_for(self, t, n, args, an):
        """The constructor of class t a call with these arguments selects."""
        cs = [f for f in self.fx.fns.values() if f.get("ctor") and f.get("cls") == t and not f.get("dep")]
        cs += [f for f in self.fx.decls.values() if f.get("ctor") and f.get("cls") == t and f["u"] not in self.fx.fns]
        req = lambda f: sum(1 for p in f["ps"] if not p.get("def"))
        cs = [f for f in cs if len(f["ps"]) == n and not f.get("deleted")]
        if len(cs) > 1:
            sc = {}
            for f in cs:
                sc[f["u"]] = sum(2 * (base(p["t"]) == base((a or {}).get("t", "?"))) or
                                 (arith(p["t"]) and arith((a or {}).get("t", "?"))) for p, a in zip(f["ps"], an))
            m = max(sc.values())
            cs = [f for f in cs if sc[f["u"]] == m]
        return cs[0] if len(cs) == 1 else None

    def build(self, st, t, args, an, node):
        f = self.ctor_for(t, len(args), args, an)
        if f is None or not f.get("body"):
            return None
        loc = ("o", self.fresh(), t)
        vals = [self.as_param(st, p, v) for p, v in zip(f["ps"], args)]
        return [(s, ("addr", loc)) for s, _ in self.invoke(f, st, ("addr", loc), vals)]

    def as_param(self, st, p, v):
        if p["t"].endswith("&"):
            if isinstance(v, tuple) and v and v[0] == "ref":
                return v
            return ("ref", ("t", v))
        return v

    def on_call(self, st, node, q, rl, rv, args, an):
        name = last(q)
        if name == "make_unique" or name == "make_shared":
            t = base((node.get("ta") or [""])[0])
            if t:
                r = self.build(st, t, args, an, node)
                if r is not None:
                    return r
        if q.endswith("unique_ptr::ctor") and len(args) == 2:
            return [(st, args[0])]
        if q == "std::find" and len(args) == 3 and isinstance(args[1], tuple) and args[1][:1] == ("end",):
            c = self.load(st, args[1][1])
            if isinstance(c, tuple) and c and c[0] == "list":
                if not c[1]:
                    return [(st, args[1])]
                if any(self.bare(x) == self.bare(args[2]) for x in c[1]):
                    return [(st, ("it", self.fresh()))]
        if "unique_ptr" in q and name == "get_deleter":
            return [(st, ("t", ("deleter", self.fresh())))]
        if ("unique_ptr" in q or "shared_ptr" in q or "RCP" in q) and name in ("operator*", "operator->", "get") and rl is not None:
            v = self.load(st, rl)
            if isinstance(v, tuple) and v and v[0] in ("addr", "new"):
                return [(st, ("ref", self.deref(v)) if name == "operator*" else v)]
        if q.startswith("std::") and name in ("push_back", "emplace_back", "insert", "emplace", "insert_or_assign", "try_emplace") and (rl is not None or rv is not None) \
                and not q.startswith("std::basic_string"):
            vs = tuple(args)
            if name in ("emplace", "try_emplace", "insert_or_assign") and len(vs) == 2:
                vs = (("list", vs, "std::pair"),)
            st.emit("put", rl if rl is not None else ("t", rv), vs, self.where(node))
            rl = rl if rl is not None else ("t", self.fresh())
            if name in ("push_back", "emplace_back") and isinstance(rv, tuple) and rv and rv[0] == "list" and len(vs) == 1:
                self.store(st, rl, ("list", rv[1] + vs, rv[2]), node, quiet=True)
            else:
                self.store(st, rl, ("mut", name, rv, vs), node, quiet=True)
            if name in ("push_back",):
                return [(st, ("void",))]
            if name == "emplace_back":
                return [(st, vs[-1])]
            x = vs[-1]
            if isinstance(x, tuple) and x and x[0] == "list" and len(x[1]) == 2:
                P = ("o", self.fresh(), "std::pair")
                st.env[("f", P, "first")], st.env[("f", P, "second")] = x[1]
                return [(st, ("rec", ("ins", self.fresh()), (("first", ("addr", P)),)))]
            return [(st, ("ins", self.fresh()))]
        if name in ("back", "front") and rl is not None and isinstance(rv, tuple) and rv:
            if rv[0] == "mut" and rv[1] in ("push_back", "emplace_back") and name == "back":
                return [(st, rv[3][-1])]
            if rv[0] == "list" and rv[1]:
                return [(st, rv[1][-1 if name == "back" else 0])]
        if name == "contains" and "basic_json" in q and isinstance(rv, tuple) and rv and len(args) == 1:
            k = self.has(rv, args[0])
            if k is not None:
                return [(st, I(int(k)))]
        if name == "get" and "basic_json" in q and not args and rv is not None:
            return [(st, self.unjson((node.get("ta") or [node.get("t", "")])[0], rv))]
        if "basic_json" in q and "::operator " in q and rv is not None and not args and node.get("op") is None:
            return [(st, self.unjson(node.get("t", ""), rv))]
        if "optional" in q and name in ("has_value", "operator bool") and isinstance(rv, tuple) and rv:
            if rv[:2] == ("g", "std::nullopt") or rv[0] == "list" and not rv[1]:
                return [(st, I(0))]
            if rv[0] in ("copy", "addr", "rec", "new"):
                return [(st, I(1))]
        if name in ("operator==", "operator!=") and "basic_json" not in q:
            vs = ([rv] if rl is not None else []) + list(args)
            if len(vs) == 2:
                nul = [v in (I(0), ("null",)) or isinstance(v, tuple) and v[:1] == ("nullptr",) for v in vs]
                own = [isinstance(v, tuple) and v and v[0] in ("addr", "copy", "new") for v in vs]
                if nul[0] and own[1] or nul[1] and own[0]:
                    return [(st, I(int(name == "operator!=")))]
        if name == "operator bool" and "unique_ptr" in q and isinstance(rv, tuple) and rv and rv[0] in ("addr", "copy", "new"):
            return [(st, I(1))]
        if name == "release" and "unique_ptr" in q and isinstance(rv, tuple) and rv and rv[0] in ("addr", "copy", "new"):
            return [(st, rv)]
        w = self.writers.get(q)
        if w is not None and len(args) >= 2:
            x = self.subject(st, an[1], args[1])
            out = []
            for s2, l in self.loc(an[0], st):
                l = self.resolve(s2, l)
                s2.emit("written", w, l, x, self.where(node))
                self.store(s2, l, ("out", w, x), node, quiet=True)
                out.append((s2, ("void",)))
            return out
        w = self.readers.get(q)
        if w is not None and args:
            x = args[0]
            out = []
            extra = []
            for a in an[1:]:
                r = [self.resolve(st, l) for _, l in self.loc(a, st)] if a is not None and a.get("k") != "defarg" else [None]
                extra.append(r[0] if r else None)
            st.emit("read", w, x, tuple(extra), tuple(args), self.where(node))
            while isinstance(x, tuple) and x and x[0] == "jget":
                x = x[2]
            if isinstance(x, tuple) and x and x[0] == "out":
                return [(st, ("copy", w, x))]
            return [(st, ("copy", w, ("bad", x)))]
        w = self.printers.get(q)
        if w is not None and args:
            return [(st, ("out", w, args[0]))]
        if name == "items" and "basic_json" in q and isinstance(rv, tuple) and rv:
            es = self.entries(rv)
            if es is not None:
                return [(st, ("list", tuple(("list", (k, x), "std::pair") for k, x in es), "items"))]
        if name in ("key", "value") and not args and isinstance(rv, tuple) and rv and rv[0] == "list" and len(rv[1]) == 2 and rv[2] == "std::pair":
            return [(st, rv[1][0 if name == "key" else 1])]
        if name == "is_null" and "RCP" in q and isinstance(rv, tuple):
            if rv == NULLRCP:
                return [(st, I(1))]
        return super().on_call(st, node, q, rl, rv, args, an)

    @staticmethod
    def bare(v):
        while isinstance(v, tuple) and v and v[0] in ("jget", "cast"):
            v = v[2]
        return v

    def unjson(self, t, v):
        if t == "bool" or isinstance(v, tuple) and v and v[0] == "s" and "string" in t:
            return v
        if "std::vector<" in t and isinstance(v, tuple) and v and v[0] == "list":
            el = t.split("<", 1)[1].split(",")[0].strip(" >")
            return v if "basic_json" in el else ("list", tuple(self.unjson(el, x) for x in v[1]), t)
        return ("jget", t, v)

    def entries(self, v):
        """Key/value pairs of a JSON object built on this path, in insertion order; None when unknown."""
        out = []
        if v[0] == "rec":
            inner = self.entries(v[1])
            if inner is None:
                return None
            return inner + list(v[2])
        return [] if v[0] == "list" and not v[1] else None

    def has(self, v, key):
        """Whether JSON object v has the key: True, False, None (unknown)."""
        while isinstance(v, tuple) and v and v[0] == "rec":
            for k, x in v[2]:
                if k == key:
                    return True
            v = v[1]
        if isinstance(v, tuple) and v and v[0] == "list" and not v[1]:
            return False
        return None

    def store(self, st, loc, val, node=None, quiet=False):
        loc = self.resolve(st, loc)
        if loc[0] == "e":
            self.entry(st, loc[1])
        super().store(st, loc, val, node, quiet)

    def entry(self, st, p):
        """A JSON entry that does not exist yet becomes an object when something is stored into it."""
        if p[0] != "e" or p in st.env:
            return
        self.entry(st, p[1])
        v = self.load0(st, p)
        if isinstance(v, tuple) and v and v[0] == "idx" and v[1] == ("list", (), "json"):
            st.env[p] = ("list", (), "json")

    def subject(self, st, node, v):
        """The object an argument denotes: its location when it is an object, else its value."""
        for _, l in self.loc(node, st):
            return ("obj", self.resolve(st, l))
        return v
