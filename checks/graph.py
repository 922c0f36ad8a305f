"""C01-C05: the graph queries every analysis is built on (sdfg/src/graph)."""
import glob
import os

from lib import absint as A, cxx, rules as R
from lib.absint import I, last, show

NS = "sdfg::graph::"
NULLV = "null_vertex"
CONT = ("std::unordered_map", "std::map", "std::list", "std::vector", "std::set", "std::unordered_set", "std::deque",
        "std::multimap")
VMUT = ("add_vertex", "remove_vertex")
EMUT = ("add_edge", "remove_edge", "clear_vertex", "remove_edge_if", "remove_out_edge_if", "remove_in_edge_if",
        "clear_out_edges", "clear_in_edges")
GREAD = ("vertices", "edges", "out_edges", "in_edges", "source", "target", "out_degree", "in_degree", "degree",
         "num_vertices", "num_edges", "edge", "adjacent_vertices", "inv_adjacent_vertices")


class GEngine(R.JEngine):
    """JSON engine plus a model of boost graphs, property maps and local containers."""
    stop = ()           # functions whose calls are recorded and not followed

    # ---------------------------------------------------------------- locations of arguments
    def aloc(self, x, st):
        try:
            r = self.loc(x, st.fork())
        except A.Undecided:
            return None
        return self.resolve(st, r[0][1]) if r else None

    def gid(self, x, st):
        """Identity of the graph an argument denotes."""
        l = self.aloc(x, st)
        if l is None:
            raise A.Undecided("a graph argument cannot be identified")
        if l[0] == "t" and isinstance(l[1], tuple) and l[1][0] == "rev":
            return l[1]
        v = self.load0(st, l)
        if isinstance(v, tuple) and v and v[0] == "rev":
            return v
        if l[0] == "t":
            return l[1]
        return l

    @staticmethod
    def base(g):
        while isinstance(g, tuple) and g and g[0] == "rev":
            g = g[1]
        return g

    def ver(self, st, g):
        return st.env.get(("gver", self.base(g)), 0)

    def isgraph(self, x):
        t = (x or {}).get("t", "")
        return ("adjacency_list<" in t or "reverse_graph<" in t) and not t.lstrip("const ").startswith("std::") and "iterator" not in t.split("<")[0]

    # ---------------------------------------------------------------- containers
    def declare(self, d, st):
        out = super().declare(d, st)
        t = d.get("t", "").replace("const ", "")
        if t.startswith(CONT) and not t.rstrip().endswith("&") and "iterator" not in t.split("<")[0]:
            loc = ("v", self.fr, d["id"], d["n"])
            for s in out:
                self.adopt(s, loc, t)
        return out

    def adds(self, s, loc, t, vals):
        for v in vals:
            if "set<" in t or t.endswith("set"):
                s.emit("setadd", loc, v, self.where(None))
            elif "map" in t.split("<")[0]:
                if v[0] == "list" and len(v[1]) == 2:
                    s.emit("mapset", loc, v[1][0], v[1][1], self.where(None))
            else:
                s.emit("push", loc, "back", v, self.where(None))

    def adopt(self, s, loc, t=""):
        v = self.load0(s, loc)
        if isinstance(v, tuple) and v and v[0] == "cont" and v[1] == loc:
            if t.startswith("std::vector") and not any(e[0] == "vec" and e[1] == loc for e in s.events()):
                s.emit("vec", loc, I(0), I(0))
            return
        if isinstance(v, tuple) and v and v[0] == "ctor":
            if len(v[2]) == 1 and v[2][0][0] == "cont":
                s.emit("vec", loc, ("sizeof", v[2][0][1]), ("copyof", v[2][0][1]))
            elif len(v[2]) == 1 and v[2][0][0] == "list":
                self.adds(s, loc, v[1], v[2][0][1])
            elif len(v[2]) == 2 and self.revrange(v[2]) is not None:
                s.env[("ord", loc)] = ("flip", self.revrange(v[2]))
            elif len(v[2]) == 2 and R.range_src(*v[2]) is not None:
                s.env[("ord", loc)] = ("same", R.range_src(*v[2]))
            else:
                s.emit("vec", loc, v[2][0] if v[2] else I(0), v[2][1] if len(v[2]) > 1 else I(0))
        elif isinstance(v, tuple) and v and v[0] == "cont":
            s.env[("ord", loc)] = ("same", v)
            s.emit("vec", loc, ("sizeof", v[1]), ("copyof", v[1]))
        elif isinstance(v, tuple) and v and v[0] == "list":
            self.adds(s, loc, t, v[1])
            if t.startswith("std::vector"):
                s.emit("vec", loc, I(len(v[1])), I(0))
        elif isinstance(v, tuple) and v and v[0] in ("undef",):
            if t.startswith("std::vector"):
                s.emit("vec", loc, I(0), I(0))
        else:
            return
        for l in [l for l in s.env if self.under(l, loc)]:
            del s.env[l]
        s.env[loc] = ("cont", loc)

    @staticmethod
    def revrange(vs):
        a, b = vs
        if a[0] == "call" and last(a[1]) in ("rbegin", "crbegin") and b[0] == "call" and last(b[1]) in ("rend", "crend") and a[2] == b[2]:
            return a[2]
        return None

    def range_loc(self, st, rl):
        v = self.load0(st, rl)
        if isinstance(v, tuple) and v and v[0] in ("rngv", "cont"):
            return ("t", v)
        if isinstance(v, tuple) and v and v[0] == "call" and last(v[1]) in ("vertices", "edges", "out_edges", "in_edges"):
            return ("t", ("rngv", v))
        return rl

    def mutate(self, st, rl, q, rv, vs, n):
        if isinstance(rv, tuple) and rv and rv[0] in ("cont", "param-cont"):
            return
        super().mutate(st, rl, q, rv, vs, n)

    def contof(self, st, rl):
        """Canonical container location for a receiver."""
        if rl is None:
            return None
        if rl[0] == "t" and isinstance(rl[1], tuple) and rl[1] and rl[1][0] == "cont":
            return rl[1][1]
        v = self.load0(st, rl)
        if isinstance(v, tuple) and v and v[0] == "cont":
            return v[1]
        if isinstance(v, tuple) and v and v[0] == "pmap":
            return v[1]
        return None

    # ---------------------------------------------------------------- statements
    def iter_vars(self, n, st):
        """(a, b) when the loop condition is  a != b  over iterator locals of one pair."""
        c = n.get("c")
        while c and c.get("k") == "cast":
            c = c["x"]
        if not c:
            return None
        if c.get("k") == "un" and c.get("op") == "!" and c["x"].get("op") == "==":
            c = c["x"]
        elif c.get("op") != "!=":
            return None
        ops = list(c.get("a") or [c.get("x"), c.get("y")])
        if c.get("r") is not None:
            ops = [c["r"]] + ops
        if len(ops) != 2:
            return None
        res = []
        for o in ops:
            while isinstance(o, dict) and o.get("k") == "cast":
                o = o["x"]
            if not isinstance(o, dict):
                return None
            if o.get("k") == "ref" and o.get("d") in ("local", "param"):
                l = self.varloc(st, o)
                res.append((l, self.load0(st, l)))
                continue
            if any(x.get("k") in ("call", "bin", "un", "new", "lambda") and last(x.get("q") or "") not in ("end", "cend", "begin", "cbegin") for x in cxx.walk(o)):
                return None
            try:
                r = self.ev(o, st.fork())
            except A.Undecided:
                return None
            if len(r) != 1:
                return None
            res.append((None, r[0][1]))
        va, vb = res[0][1], res[1][1]
        res = [l for l, _ in res]
        for x, y, lx in ((va, vb, res[0]), (vb, va, res[1])):
            if lx is None:
                continue
            if isinstance(x, tuple) and isinstance(y, tuple) and x and y and x[0] == "fld" and y[0] == "fld" and x[1] == y[1] and x[2] == "first" and y[2] == "second":
                return lx, x[1]
            if isinstance(x, tuple) and isinstance(y, tuple) and x and x[0] == "call" and last(x[1]) in ("begin", "cbegin") and y and (y[0] == "end" or y[0] == "call" and last(y[1]) in ("end", "cend")):
                src = x[2]
                ysrc = y[2] if y[0] == "call" else self.load0(st, y[1])
                if src is not None and src == ysrc:
                    return lx, src
        return None

    def s_for(self, n, st):
        r = self.iter_loop(n)
        if r is not None:
            return self.s_frange(r, st)
        sts = [st]
        if n.get("init"):
            sts = [s for k, s, v in self.stmt(n["init"], st)]
        outs = []
        for s in sts:
            iv = self.iter_vars(n, s)
            if iv is None:
                outs += super().s_for(dict(n, init=None), s)
            else:
                outs += self.iter_while(n, s, iv, n.get("inc"))
        return outs

    def s_while(self, n, st):
        iv = self.iter_vars(n, st) if not n.get("cv") else None
        if iv is None:
            return super().s_while(n, st)
        return self.iter_while(n, st, iv, None)

    def iter_while(self, n, st, iv, inc):
        al, C = iv
        rl = ("t", C if C[0] in ("rngv", "cont") else ("rngv", C))
        cnt = self.fresh()
        empty = ("un", "!", ("call", "empty", rl[1], (), 0))
        ids = {k: v for k, v in self.assigned([n.get("b"), inc]).items() if k != al[2]}

        def cond(x):
            k = x.env.get(("rc", cnt), 0)
            fk = ("more", cnt, k)
            if k == 0:
                tr = x.truth(empty)
                if tr is not None:
                    return ([x], []) if tr else ([], [x])
                y = x.fork()
                x.assume(empty, True)
                y.assume(empty, False)
                return [x], [y]
            tr = x.facts.get(fk)
            if tr is not None:
                return ([x], []) if tr else ([], [x])
            y = x.fork()
            x.facts[fk], y.facts[fk] = True, False
            return [x], [y]

        def body(x, i):
            c = x.env.get(("rc", cnt), 0)
            x.env[("rc", cnt)] = c + 1
            el = ("e", rl, ("itn", cnt, min(c, 1)))
            x.env[self.resolve(x, al)] = ("addr", el)
            x.env[("cur", cnt)] = ("addr", el)
            x.emit("iter", rl, el, self.where(n))
            return self.stmt(n["b"], x)

        def step(x):
            out = []
            for y in ([y for y, _ in self.ev(inc, x)] if inc else [x]):
                v, e = self.load0(y, self.resolve(y, al)), y.env[("cur", cnt)]
                if v not in (("un", "++", e), ("bin", "+", e, I(1), ""), ("call", "std::next", None, (e,), 0)) and not (
                        isinstance(v, tuple) and v[0] in ("un", "bin") and v[1] in ("++", "+") and e in v and len(v) > 2):
                    raise A.Undecided("an iterator loop does not advance by one element per iteration")
                out.append(y)
            return out
        done = self.loop(st, cond, body, step, ids)
        for o in done:
            o[1].emit("iterdone", cnt)
        return done

    def s_return(self, n, st):
        out = super().s_return(n, st)
        return out

    def store(self, st, loc, val, node=None, quiet=False):
        l = self.resolve(st, loc)
        cur = st.env.get(l)
        if l[0] == "t" and isinstance(l[1], tuple) and l[1] and l[1][0] == "tie":
            cur = l[1]
        if isinstance(cur, tuple) and cur and cur[0] == "tie" and not (isinstance(val, tuple) and val and val[0] == "tie"):
            for i, x in enumerate(cur[1]):
                if isinstance(val, tuple) and val and val[0] == "list" and i < len(val[1]):
                    v = val[1][i]
                else:
                    v = ("fld", val, ("first", "second")[i] if i < 2 else i)
                super().store(st, x, v, node, quiet)
            return
        if l[0] == "e":
            m = self.contof(st, l[1])
            if m is not None:
                st.emit("mapset", m, l[2], val, self.where(node))
                return
        if isinstance(val, tuple) and val and val[0] == "cont" and l[0] == "v" and val[1] != l:
            # a container assigned / copied into another variable keeps its own identity
            st.env[("ord", l)] = ("same", val)
        super().store(st, loc, val, node, quiet)

    # ---------------------------------------------------------------- calls
    def on_call(self, st, node, q, rl, rv, args, an):
        name = last(q)
        w = self.where(node)
        if node.get("u") in self.stop:
            vals = tuple(("G", self.gid(x, st)) if self.isgraph(x) else v for x, v in zip(an, args))
            st.emit("call", q, rl, rv, vals, ("void",), w)
            return [(st, ("void",))]
        if q in ("std::get",) and len(args) == 1 and (node.get("ta") or [""])[0].isdigit():
            i = int(node["ta"][0])
            v = args[0]
            if v[0] == "list" and i < len(v[1]):
                return [(st, v[1][i] if v[1][i][0] != "cont" else ("ref", ("t", v[1][i])))]
            return [(st, ("fld", v, i if i > 1 or v[0] == "list" else ("first", "second")[i]))]
        if name == "tie" and rl is None:
            locs = [self.aloc(x, st) for x in an]
            if all(locs):
                return [(st, ("ref", ("t", ("tie", tuple(locs)))))]
        if name in ("null_vertex",):
            return [(st, (NULLV,))]
        if q.startswith("boost::bgl_named_params") and rl is not None and name not in ("ctor",):
            return [(st, ("np", rv, name, args[0] if args else None))]
        if q.startswith("boost::") and rl is None and name in ("color_map", "vertex_index_map", "root_vertex", "visitor", "vertex_index1_map", "root_map"):
            return [(st, ("np", None, name, args[0]))]
        if "associative_property_map" in q and name == "ctor" or name == "make_assoc_property_map":
            real = [(v, a) for v, a in zip(args, an) if a is not None and a.get("k") != "defarg"]
            if len(real) == 1:
                v = real[0][0]
                if v[0] == "pmap":
                    return [(st, v)]
                if v[0] == "cont":
                    return [(st, ("pmap", v[1]))]
                l = self.aloc(real[0][1], st)
                return [(st, ("pmap", l))]
        if "iterator_property_map" in q and name in ("make_iterator_property_map", "ctor"):
            real = [v for v, a in zip(args, an) if a is not None and a.get("k") != "defarg"]
            if len(real) == 1 and real[0][0] == "ipm":
                return [(st, real[0])]
            if len(real) >= 2:
                b = real[0]
                src = b[2] if b[0] == "call" and last(b[1]) in ("begin", "data") else None
                return [(st, ("ipm", src[1] if src is not None and src[0] == "cont" else b, real[1]))]
        if q == "boost::put" and len(args) == 3:
            if args[0][0] == "pmap":
                st.emit("mapset", args[0][1], args[1], args[2], w)
            elif args[0][0] == "ipm":
                st.emit("mapset", args[0][1], ("idx", args[0][2], args[1]), args[2], w)
            else:
                raise A.Undecided("put into an unknown property map")
            return [(st, ("void",))]
        if q == "boost::get" and len(args) == 2:
            if args[0][0] == "pmap":
                return [(st, ("idx", ("cont", args[0][1]), args[1]))]
            if args[0][0] == "ipm":
                return [(st, ("idx", ("cont", args[0][1]), ("idx", ("cont", args[0][2][1]), args[1])))]
        if node.get("op") == "[]" and isinstance(rv, tuple) and rv and rv[0] == "ipm" and len(args) == 1:
            return [(st, ("idx", ("cont", rv[1]), ("idx", ("cont", rv[2][1]), args[0])))]
        if name in ("subrange", "make_iterator_range", "ctor") and ("subrange" in q or "iterator_range" in q):
            real = [v for v, a in zip(args, an) if a is not None and a.get("k") != "defarg"]
            if len(real) == 1 and real[0][0] == "rngv":
                return [(st, real[0])]
            if len(real) == 1:
                return [(st, ("rngv", real[0]))]
            if len(real) == 2 and real[0][0] == "fld" and real[1][0] == "fld" and real[0][1] == real[1][1] and real[0][2] == "first" and real[1][2] == "second":
                return [(st, ("rngv", real[0][1]))]
        if name in ("back_inserter", "front_inserter") and args:
            c = args[0]
            return [(st, (name, c[1] if c[0] == "cont" else self.aloc(an[0], st)))]
        if "reverse_graph" in q and name in ("ctor", "make_reverse_graph") and an:
            if args and isinstance(args[0], tuple) and args[0] and args[0][0] == "rev":
                return [(st, args[0])]
            return [(st, ("rev", self.gid(an[0], st)))]
        # containers
        m = self.contof(st, rl) if rl is not None else None
        if m is not None:
            cv = ("cont", m)
            if name in ("emplace", "insert", "try_emplace", "insert_or_assign", "emplace_hint"):
                if len(args) == 2:
                    st.emit("mapset", m, args[0], args[1], w)
                elif len(args) == 1 and args[0][0] == "list" and len(args[0][1]) == 2:
                    st.emit("mapset", m, args[0][1][0], args[0][1][1], w)
                elif len(args) == 1:
                    st.emit("setadd", m, args[0], w)
                else:
                    raise A.Undecided("insertion form")
                new = ("un", "!", ("call", "contains", cv, (args[0],), 0)) if len(args) == 1 and args[0][0] != "list" else ("ins", self.fresh())
                return [(st, ("list", (("it", rl, args[0], cv), new), "pair"))]
            if name in ("push_back", "emplace_back", "push_front", "emplace_front") and len(args) == 1:
                st.emit("push", m, "front" if "front" in name else "back", args[0], w)
                return [(st, ("void",))]
            if name in ("pop_back", "pop_front") and not args:
                st.emit("pop", m, name[4:], w)
                return [(st, ("void",))]
            if name == "erase":
                st.emit("erase", m, tuple(args), w)
                return [(st, ("void",))]
            if name == "reverse" and not args:
                st.env[("ord", m)] = ("flip", st.env.get(("ord", m), ("raw", m)))
                return [(st, ("void",))]
            if name in ("resize", "assign") and args:
                st.emit("vec", m, args[0], args[1] if len(args) > 1 else I(0))
                return [(st, ("void",))]
            if name in ("clear", "sort", "unique", "remove", "remove_if", "splice", "merge", "swap"):
                st.emit("cmut", m, name, w)
                return [(st, ("void",))]
            if name in ("begin", "cbegin", "rbegin", "rend", "crbegin", "crend", "data") and not args:
                return [(st, ("call", q, cv, (), 0))]
            if name in ("end", "cend") and not args:
                return [(st, ("end", ("t", cv)))]
            if node.get("op") == "[]" or name == "at":
                return [(st, ("ref", ("e", ("t", cv), args[0])))]
            if name == "find" and len(args) == 1:
                return [(st, ("it", rl, args[0], cv))]
            if name in ("size", "empty", "count", "contains") :
                return [(st, ("call", name, cv, tuple(args), 0))]
        if q in ("std::erase_if", "std::erase") and args and args[0][0] == "cont":
            st.emit("cmut", args[0][1], name, w)
            return [(st, ("call", q, None, tuple(args), self.fresh()))]
        if q == "std::reverse" and len(args) == 2:
            src = R.range_src(*args)
            if src is not None and src[0] == "cont":
                st.env[("ord", src[1])] = ("flip", st.env.get(("ord", src[1]), ("raw", src[1])))
                return [(st, ("void",))]
        # graphs
        if (q.startswith("boost::") or name in GREAD) and rl is None and an and name != "ctor" and not q.startswith("sdfg"):
            gs = [self.gid(x, st) if self.isgraph(x) else None for x in an]
            if any(g is not None for g in gs):
                g = [x for x in gs if x is not None][0]
                vals = tuple(("G", x) if x is not None else v for x, v in zip(gs, args))
                if name in GREAD:
                    if name in ("vertices", "num_vertices"):
                        return [(st, ("call", q, None, (("G", g), self.ver(st, g)), 0))]
                    return [(st, ("call", q, None, vals, 0))]
                if name in VMUT or name in EMUT:
                    res = ("call", q, None, vals, self.fresh())
                    st.emit("gmut", name, self.base(g), vals, res, w)
                    if name in VMUT:
                        st.env[("gver", self.base(g))] = self.ver(st, g) + 1
                    if name == "add_edge":
                        res = ("list", (res, ("ins", self.fresh())), "pair")
                    return [(st, res)]
                res = ("call", q, None, vals, self.fresh())
                st.emit("galgo", name, vals, res, w, self.ver(st, g), dict(an=an))
                # sinks
                for v in vals:
                    if isinstance(v, tuple) and v and v[0] in ("back_inserter", "front_inserter") and name == "topological_sort":
                        k = ("flip", ("topo", g)) if v[0] == "back_inserter" else ("topo", g)
                        st.env[("ord", v[1])] = k
                outs = [(st, res)]
                if name == "topological_sort":
                    s2 = st.fork()
                    s2.emit("throw-algo", name, w)
                    self.sink.append((s2, ("exc", "boost::not_a_dag", ("void",))))
                return outs
        return super().on_call(st, node, q, rl, rv, args, an)

    def isb(self, t):
        return t


# ------------------------------------------------------------------ path helpers
def norm(v):
    while isinstance(v, tuple) and v and v[0] == "cast":
        v = v[2]
    return v


def iters(st):
    """[(range value, element location, counter, events of that iteration)] in order; an iteration lasts until
    the next iteration of the same loop or its end, nested loops included."""
    ev = st.events()
    out = []
    pos = [(i, e) for i, e in enumerate(ev) if e[0] == "iter"]
    for j, (i, e) in enumerate(pos):
        cnt = e[2][2][1]
        k = len(ev)
        for i2 in range(i + 1, len(ev)):
            e2 = ev[i2]
            if e2[0] == "iter" and e2[2][2][1] == cnt or e2[0] == "iterdone" and e2[1] == cnt:
                k = i2
                break
        out.append((e[1], e[2], cnt, ev[i + 1:k]))
    return out


def elval(el):
    """Value term of reading the iterated element."""
    rl = el[1]
    return ("idx", rl[1], el[2]) if rl[0] == "t" else ("ld", el)


def exhausted(st, cnt, n):
    if n == 0:
        return True
    return st.facts.get(("more", cnt, n)) is False


def loops_over(st, pred):
    """{counter: [iterations]} of the loops whose range value satisfies pred."""
    out = {}
    for rl, el, cnt, ev in iters(st):
        rv = rl[1] if rl[0] == "t" else ("ld", rl)
        if pred(rv):
            out.setdefault(cnt, []).append((el, ev))
    return out


def vrange(rv, base=None, ver=None):
    """Is the range the vertices of graph `base` (optionally at mutation version ver)?"""
    if rv[0] == "rngv":
        rv = rv[1]
    if rv[0] != "call" or last(rv[1]) != "vertices":
        return False
    g = rv[3][0][1]
    return (base is None or GEngine.base(g) == base) and (ver is None or rv[3][1] == ver)


def erange(rv, base=None):
    if rv[0] == "rngv":
        rv = rv[1]
    return rv[0] == "call" and last(rv[1]) == "edges" and (base is None or rv[3][0][1] == base)


def crange(rv, m):
    return rv == ("cont", m)


def unpos(v):
    return norm(v)


def field(v, k):
    return ("fld", v, k)


def find_mapsets(evs, m):
    return [e for e in evs if e[0] == "mapset" and e[1] == m]


# ------------------------------------------------------------------ loading
def facts(rep):
    files = sorted(glob.glob(os.path.join(cxx.REPO, "sdfg/src/graph/*.cpp")))
    rep.need(files, "sdfg/src/graph/*.cpp")
    fx = cxx.load(files)
    rep.files |= {os.path.relpath(f, cxx.REPO) for f in files} | {"sdfg/include/sdfg/graph/graph.h"}
    return fx


def run(rep, fx, name):
    """[(kind, state, value)] of a public graph function, or None (undecided recorded)."""
    fns = [f for f in fx.named(NS + name) if not f.get("dep")]
    rep.need(fns, NS + name)
    e = GEngine(fx)
    try:
        out = e.run(fns[0])
    except A.Undecided as x:
        return e, fns[0], None, str(x)
    rep.fns |= e.funcs
    rep.count("paths", len(out))
    return e, fns[0], [o for o in out if o[0] != "exit"], ""


PUBLIC = ("reverse", "undirected", "depth_first_search", "strongly_connected_components", "weakly_connected_components",
          "dominator_tree", "post_dominator_tree", "topological_sort", "is_acyclic", "back_edges", "all_simple_paths")


def pgraph(fn):
    return ("d", ("p", fn["ps"][0]["n"] or "0", 0))


# ------------------------------------------------------------------ C01
def c01(rep):
    fx = facts(rep)
    rep.rule("unchanged", "on every path, each vertex a query adds to the caller's graph is disconnected and removed again before "
                          "it returns, each edge it adds touches such a vertex, and nothing else is added or removed")
    rep.rule("own-vertices", "no key or value of the result can be a vertex the query itself added and removed")
    rep.rule("reverse-view", "reverse() is a view of the caller's graph, not a copy")
    for name in PUBLIC:
        e, fn, outs, why = run(rep, fx, name)
        if outs is None:
            rep.undecided("unchanged", name, why)
            continue
        G = pgraph(fn)
        for kind, st, val in outs:
            added, gone, cleared = [], [], []
            for ev in st.events():
                if ev[0] != "gmut" or ev[2] != G:
                    continue
                n, vals, res, w = ev[1], ev[3], ev[4], ev[5]
                where = "%s at %s" % (name, w[0])
                if n == "add_vertex":
                    added.append((res, w))
                elif n == "add_edge":
                    if not any(v in [a for a, _ in added] for v in vals if v[0] != "G"):
                        rep.bad("unchanged", name, "%s: adds an edge between existing vertices" % where)
                elif n == "clear_vertex":
                    if vals[0] not in [a for a, _ in added]:
                        rep.bad("unchanged", name, "%s: clears the edges of a vertex of the caller" % where)
                    cleared.append(vals[0])
                elif n == "remove_vertex":
                    if vals[0] not in [a for a, _ in added]:
                        rep.bad("unchanged", name, "%s: removes a vertex of the caller" % where)
                    elif vals[0] not in cleared:
                        rep.bad("unchanged", name, "%s: removes a vertex that still has edges" % where)
                    gone.append(vals[0])
                else:
                    rep.bad("unchanged", name, "%s: %s on the caller's graph" % (where, n))
            left = [w for a, w in added if a not in gone]
            if left:
                rep.bad("unchanged", name, "the vertex added at %s stays in the caller's graph on some path" % left[0][0])
            rep.ok("unchanged", name)
            # the result never mentions an added vertex
            if kind == "return" and added:
                syn = [a for a, _ in added]
                m = val[1] if isinstance(val, tuple) and val and val[0] == "cont" else None
                if m is None:
                    rep.undecided("own-vertices", name, "result is not a local container")
                    continue
                res = c_own(st, m, syn)
                if res is True:
                    rep.ok("own-vertices", name)
                elif res is None:
                    rep.undecided("own-vertices", name, "the result's contents could not be traced")
                else:
                    rep.bad("own-vertices", name, res)
            elif kind == "return":
                rep.ok("own-vertices", name)
    e, fn, outs, why = run(rep, fx, "reverse")
    for kind, st, val in outs or ():
        rep.judge("reverse-view", "reverse", val == ("rev", pgraph(fn)), "reverse() does not return the reversed view of its argument: %s" % show(val))


def vertex_enum(st, L):
    """Index map L: keys enumerate the vertices of some graph.  Returns (graph, version) or None."""
    for cnt, its in st_loops(st).items():
        rv = its[0][0]
        if vrange(rv) and any(find_mapsets(ev, L) for _, _, ev in its):
            c = rv[1] if rv[0] == "rngv" else rv
            return c[3][0][1], c[3][1]
    return None


def st_loops(st):
    out = {}
    for rl, el, cnt, ev in iters(st):
        rv = rl[1] if rl[0] == "t" else ("ld", rl)
        out.setdefault(cnt, []).append((rv, el, ev))
    return out


def c_own(st, m, syn):
    """True / None / message: does map m avoid the synthetic vertices as keys and values?"""
    sets = [e for e in st.events() if e[0] == "mapset" and e[1] == m]
    erased = [norm(a) for e in st.events() if e[0] == "erase" and e[1] == m for a in e[2]]
    for e in sets:
        key, v = norm(e[2]), norm(e[3])
        for s in syn:
            ks = st_neq(st, key, s)
            if key == s and s not in erased:
                return "a result key is the synthetic vertex (%s)" % (e[4][0],)
            if ks is not False and s not in erased:
                return "a result key (%s) may be the synthetic vertex added by the query" % (e[4][0],)
            if v == s:
                return "a result value is the synthetic vertex (%s)" % (e[4][0],)
            if A.mentions(v, lambda x: x == (NULLV,)):
                continue
            if st_neq(st, v, s) is not False:
                return "a result value (%s) may be the synthetic vertex added by the query" % (e[4][0],)
    return True


def st_neq(st, a, b):
    """False when the path knows a != b; None when unknown; True when equal."""
    return st.truth(("bin", "==", a, b, "bool"))


# ------------------------------------------------------------------ C02
def c02(rep):
    fx = facts(rep)
    rep.rule("vertices", "undirected(): every vertex of the input gets exactly one new vertex")
    rep.rule("edges", "undirected(): every edge of the input is added once, between the new vertices of its source and target")
    rep.rule("mappings", "undirected(): the returned maps are original->new and new->original of the same pairs, in this order")
    rep.rule("reverse-view", "reverse() reverses every edge of its own argument")
    e, fn, outs, why = run(rep, fx, "reverse")
    for kind, st, val in outs or ():
        rep.judge("reverse-view", "reverse", val == ("rev", pgraph(fn)), "reverse() returns %s" % show(val))
    if outs is None:
        rep.undecided("reverse-view", "reverse", why)
    e, fn, outs, why = run(rep, fx, "undirected")
    if outs is None:
        rep.undecided("vertices", "undirected", why)
        return
    G = pgraph(fn)
    for kind, st, val in outs:
        if kind != "return":
            continue
        if not (isinstance(val, tuple) and val[0] == "list" and len(val[1]) == 3 and val[1][1][0] == "cont" and val[1][2][0] == "cont"):
            rep.undecided("mappings", "undirected", "result %s" % show(val))
            continue
        fwd, inv = val[1][1][1], val[1][2][1]
        news = [x for x in st.events() if x[0] == "gmut" and x[1] == "add_vertex"]
        loops = {c: its for c, its in st_loops(st).items() if vrange(its[0][0], G)}
        good = True
        for c, its in loops.items():
            touches = any(x[0] == "gmut" and x[1] == "add_vertex" for _, _, ev in its for x in ev)
            if not touches:
                continue
            for _, el, ev in its:
                av = [x for x in ev if x[0] == "gmut" and x[1] == "add_vertex"]
                v = elval(el)
                f, r = find_mapsets(ev, fwd), find_mapsets(ev, inv)
                if len(av) != 1:
                    rep.bad("vertices", "undirected", "an input vertex gets %d new vertices on some path" % len(av))
                    good = False
                    continue
                nv = av[0][4]
                if [(norm(x[2]), norm(x[3])) for x in f] != [(v, nv)]:
                    rep.bad("mappings", "undirected", "the second component does not map each vertex to its new vertex: %s" % ", ".join("%s -> %s" % (show(x[2]), show(x[3])) for x in f))
                if [(norm(x[2]), norm(x[3])) for x in r] != [(nv, v)]:
                    rep.bad("mappings", "undirected", "the third component does not map each new vertex back: %s" % ", ".join("%s -> %s" % (show(x[2]), show(x[3])) for x in r))
            if not exhausted(st, c, len(its)):
                rep.bad("vertices", "undirected", "the loop over the vertices can stop early")
            rep.ok("vertices", "undirected")
            rep.ok("mappings", "undirected")
        if news and not any(any(x in ev for x in news) for its in loops.values() for _, _, ev in its):
            rep.undecided("vertices", "undirected", "vertices are added outside a loop over the input's vertices")
        if not news and val[1][0][0] == "new" and not any(not v for k, v in st.facts.items() if k[0] == "empty"):
            pass
        el_loops = {c: its for c, its in st_loops(st).items() if erange(its[0][0], G)}
        adds = [x for x in st.events() if x[0] == "gmut" and x[1] == "add_edge"]
        if adds and not el_loops:
            alt = any(last(rv[1][1]) in ("out_edges", "in_edges") for its in st_loops(st).values() for rv, _, _ in its if rv[0] == "rngv" and rv[1][0] == "call")
            rep.undecided("edges", "undirected", "edges are added outside a loop over the input's edges" + (" (per-vertex loops)" if alt else ""))
        for c, its in el_loops.items():
            for _, el, ev in its:
                ed = elval(el)
                ae = [x for x in ev if x[0] == "gmut" and x[1] == "add_edge"]
                if len(ae) != 1:
                    rep.bad("edges", "undirected", "an input edge is added %d times on some path" % len(ae))
                    continue
                ends = sorted((through(x, fwd) for x in ae[0][3] if x[0] != "G"), key=repr)
                want = sorted([("source", ed), ("target", ed)], key=repr)
                if None in ends:
                    rep.undecided("edges", "undirected", "endpoints %s" % ", ".join(show(x) for x in ae[0][3]))
                elif ends != want:
                    rep.bad("edges", "undirected", "an added edge does not join the images of source and target: %s" % ", ".join(show(x) for x in ae[0][3]))
            if not exhausted(st, c, len(its)):
                rep.bad("edges", "undirected", "the loop over the edges can stop early")
            rep.ok("edges", "undirected")
        if not el_loops and not adds:
            # a path that adds no edge must have seen an empty edge range
            if not any(k[0] == "empty" and isinstance(k[1], tuple) and erange(k[1], G) and v for k, v in st.facts.items()):
                seen = [x for _, _, _, ev in iters(st) for x in ev]
                rep.bad("edges", "undirected", "a path returns without visiting the edges of the input")


def through(v, m):
    """('source'|'target', edge) when v is map m applied to an endpoint."""
    v = norm(v)
    if v[0] == "ld" and v[1][0] == "e":
        v = ("idx", v[1][1][1] if v[1][1][0] == "t" else ("ld", v[1][1]), v[1][2])
    if v[0] == "idx" and v[1] == ("cont", m):
        x = norm(v[2])
        if x[0] == "call" and last(x[1]) in ("source", "target"):
            return last(x[1]), norm(x[3][0])
        return ("other", x)
    return None if v[0] in ("call", "idx") and A.mentions(v, lambda x: x == ("cont", m)) else ("other", v)


# ------------------------------------------------------------------ C03
def named(v):
    """Named-parameter chain as {name: value}."""
    out = {}
    while isinstance(v, tuple) and v and v[0] == "np":
        out[v[2]] = v[3]
        v = v[1]
    return out


def order_of(st, loc):
    """('topo', g, flips) of a returned list, or None."""
    v = st.env.get(("ord", loc))
    flips = 0
    n = 0
    while isinstance(v, tuple) and n < 20:
        n += 1
        if v[0] == "flip":
            flips += 1
            v = v[1]
        elif v[0] == "same":
            v = v[1]
        elif v[0] == "cont":
            v = st.env.get(("ord", v[1]))
        elif v[0] == "topo":
            return v[1], flips % 2
        else:
            break
    if v is None:
        # rebuilt element by element
        push = [e for e in st.events() if e[0] == "push" and e[1] == loc]
        for c, its in st_loops(st).items():
            rv = its[0][0]
            if rv[0] == "cont" and any(p in ev for _, _, ev in its for p in push):
                per = []
                for _, el, ev in its:
                    mine = [p for p in ev if p in push]
                    if len(mine) != 1 or norm(mine[0][3]) != elval(el):
                        return "lost"
                    per.append(mine[0][2])
                if not exhausted(st, c, len(its)) or len(set(per)) != 1:
                    return "lost"
                src = order_of(st, rv[1])
                if isinstance(src, tuple):
                    return src[0], (src[1] + (1 if per[0] == "front" else 0)) % 2
        if not push:
            for k, val in st.facts.items():
                if k[0] == "empty" and val and k[1][0] == "cont":
                    r = order_of(st, k[1][1])
                    return (r[0], None) if isinstance(r, tuple) else r
    return None


def visitor_pushes(fx, rep, cls):
    """{field: [(callback, end, pushes its first parameter)]} of a DFS visitor class."""
    out = {}
    for f in fx.methods(cls):
        if f.get("ctor") or f.get("dtor") or not f.get("body"):
            continue
        e = GEngine(fx)
        res = e.run(f)
        rep.fns.add(f["q"])
        counts = set()
        for kind, st, _ in res:
            n = 0
            for ev in st.events():
                if ev[0] == "call" and last(ev[1]) in ("push_back", "emplace_back", "push_front", "insert", "emplace_front", "emplace"):
                    n += 1
                    fl = ev[2]
                    out.setdefault(fl[2] if fl[0] == "f" else str(fl), []).append(
                        (f["n"], "front" if "front" in last(ev[1]) else "back", bool(ev[4]) and norm(ev[4][-1]) == ("p", f["ps"][0]["n"] or "0", 0)))
                elif ev[0] == "call" and last(ev[1]) in ("pop_back", "pop_front", "clear", "erase"):
                    out.setdefault(ev[2][2] if ev[2][0] == "f" else str(ev[2]), []).append((f["n"], "removes", False))
            counts.add(n)
        if len(counts) > 1:
            out.setdefault("?", []).append((f["n"], "conditional", False))
    return out


def dfs(rep, fx, name, callback, rule):
    e, fn, outs, why = run(rep, fx, name)
    if outs is None:
        rep.undecided(rule, name, why)
        return
    G = pgraph(fn)
    start = ("p", fn["ps"][1]["n"] or "1", 1)
    for kind, st, val in outs:
        if kind != "return":
            continue
        algo = [x for x in st.events() if x[0] == "galgo"]
        if not (isinstance(val, tuple) and val[0] == "cont"):
            rep.undecided(rule, name, "result %s" % show(val))
            continue
        if len(algo) != 1 or not algo[0][1].startswith("depth_first") and not algo[0][1].startswith("breadth"):
            rep.undecided(rule, name, "not a single boost traversal")
            continue
        a = algo[0]
        if a[1] != "depth_first_search":
            rep.bad(rule, name, "%s does not visit every vertex of the graph depth first (%s)" % (a[1], a[4][0]))
            continue
        if a[2][0] != ("G", G):
            rep.bad(rule, name, "the traversal runs on %s" % show(a[2][0]))
            continue
        vis, st0 = None, None
        if len(a[2]) >= 3 and a[2][1][0] != "np":
            vis = a[2][1]
            st0 = norm(a[2][3]) if len(a[2]) > 3 else None
        else:
            np = named(a[2][1])
            vis, st0 = np.get("visitor"), norm(np["root_vertex"]) if "root_vertex" in np else None
        if st0 != start:
            rep.bad(rule, name, "the traversal does not begin at the given start vertex (%s)" % (a[4][0],))
        cls = vis[1][1] if isinstance(vis, tuple) and vis and vis[0] == "rec" and vis[1][0] in ("obj", "agg") else None
        if cls is None:
            rep.undecided(rule, name, "visitor %s" % show(vis))
            continue
        fl = {k: v for k, v in vis[2]}
        try:
            push = visitor_pushes(fx, rep, cls)
        except A.Undecided as x:
            rep.undecided(rule, name, str(x))
            continue
        mine = [k for k, v in fl.items() if v == val]
        if not mine:
            rep.bad(rule, name, "the returned list is not the one the visitor fills")
            continue
        if len(mine) > 1:
            rep.bad(rule, name, "two visitor lists share the returned list")
            continue
        got = push.get(mine[0], [])
        extra = push.get("?", [])
        if got != [(callback, "back", True)] or [x for x in extra if x[0] == callback]:
            rep.bad(rule, name, "the returned list is not filled by %s in order: %s" % (callback, got + extra))
        direct = [x for x in st.events() if x[0] in ("push", "pop", "erase", "cmut") and x[1] == val[1]]
        if direct or ("ord", val[1]) in st.env:
            rep.bad(rule, name, "the list is changed after the traversal")
        rep.ok(rule, name)


def c03(rep):
    fx = facts(rep)
    rep.rule("topological", "topological_sort returns boost's (reverse topological) order flipped an odd number of times")
    rep.rule("acyclic", "is_acyclic is true exactly when sorting its argument raises no not_a_dag")
    rep.rule("dfs-order", "depth_first_search lists every vertex in discovery order beginning at the start vertex")
    rep.rule("back-edges", "back_edges lists exactly the edges the depth-first visitor reports as back edges")
    e, fn, outs, why = run(rep, fx, "topological_sort")
    if outs is None:
        rep.undecided("topological", "topological_sort", why)
    else:
        G = pgraph(fn)
        for kind, st, val in outs:
            algo = [x for x in st.events() if x[0] == "galgo" and x[1] == "topological_sort"]
            thrown = any(x[0] == "throw-algo" for x in st.events())
            if thrown:
                rep.judge("topological", "cycle", kind == "throw" and val[1] == "boost::not_a_dag", "a cycle is not reported to the caller")
                continue
            if kind != "return":
                continue
            if not algo or not (isinstance(val, tuple) and val[0] == "cont"):
                rep.undecided("topological", "topological_sort", "result %s" % show(val))
                continue
            o = order_of(st, val[1])
            if o is None:
                rep.undecided("topological", "topological_sort", "order not traced")
            elif o == "lost":
                rep.bad("topological", "topological_sort", "the sorted list is not copied completely")
            else:
                g, flips = o
                chain, x = [val[1]], st.env.get(("ord", val[1]))
                while isinstance(x, tuple) and len(x) > 1:
                    if x[0] == "cont":
                        chain.append(x[1])
                        x = st.env.get(("ord", x[1]))
                    elif x[0] in ("flip", "same"):
                        x = x[1]
                    else:
                        break
                hit = [x for x in st.events() if x[0] in ("pop", "erase", "cmut") and x[1] in chain]
                if [x for x in hit if x[0] != "cmut" or x[2] in ("sort", "clear", "unique", "remove", "remove_if", "erase_if", "erase")]:
                    rep.bad("topological", "topological_sort", "the sorted list is changed before it is returned (%s)" % hit[0][2])
                if GEngine.base(g) != G:
                    rep.bad("topological", "topological_sort", "sorts another graph")
                rev = 1 if g != GEngine.base(g) else 0
                rep.judge("topological", "topological_sort", flips is None or (flips + rev) % 2 == 0, "the list is in reverse topological order")
    e, fn, outs, why = run(rep, fx, "is_acyclic")
    if outs is None:
        rep.undecided("acyclic", "is_acyclic", why)
    else:
        G = pgraph(fn)
        for kind, st, val in outs:
            algo = [x for x in st.events() if x[0] == "galgo"]
            thrown = any(x[0] == "throw-algo" for x in st.events())
            if not algo and A.is_int(val) and any(x[0] == "galgo" for _, s2, _ in outs for x in s2.events()):
                nv = [x for k in st.facts for x in A.subterms(k) if x and x[0] == "call" and last(x[1]) in ("num_edges", "num_vertices")]
                zero = [x for x in nv if st.truth(("bin", "==", x, I(0), "bool")) is True]
                if zero:
                    rep.judge("acyclic", "is_acyclic:empty", val[1] == 1, "an empty graph is called cyclic")
                elif nv or not st.facts:
                    rep.bad("acyclic", "is_acyclic", "a path answers %s without looking at the edges" % bool(val[1]))
                else:
                    rep.undecided("acyclic", "is_acyclic", "a path that is not decided by a topological sort")
                continue
            if not algo or any(x[1] != "topological_sort" for x in algo):
                rep.undecided("acyclic", "is_acyclic", "not decided by a topological sort")
                continue
            if GEngine.base(algo[0][2][0][1]) != G:
                rep.bad("acyclic", "is_acyclic", "another graph is tested")
            if kind == "throw":
                rep.bad("acyclic", "is_acyclic", "a cyclic graph raises %s" % val[1])
            elif A.is_int(val):
                rep.judge("acyclic", "is_acyclic:" + ("cyclic" if thrown else "acyclic"), bool(val[1]) != thrown,
                          "returns %s for %s graph" % (bool(val[1]), "a cyclic" if thrown else "an acyclic"))
            elif partial(val) or nonempty(val):
                rep.bad("acyclic", "is_acyclic", "the answer depends on %s" % show(val))
            else:
                rep.undecided("acyclic", "is_acyclic", show(val))
    dfs(rep, fx, "depth_first_search", "discover_vertex", "dfs-order")
    dfs(rep, fx, "back_edges", "back_edge", "back-edges")


def nonempty(v):
    """A test of a list being empty: wrong for the graph without vertices, or for every other one."""
    v = norm(v)
    while v[0] == "un" and v[1] == "!":
        v = norm(v[2])
    if v[0] == "call" and last(v[1]) == "empty":
        return isinstance(v[2], tuple) and v[2][0] == "cont"
    return v[0] == "bin" and v[1] in ("<", ">", "==", "!=") and any(A.is_int(x) for x in v[2:4]) and any(
        norm(x)[0] == "call" and last(norm(x)[1]) == "size" and norm(x)[2][0] == "cont" for x in v[2:4])


def partial(v):
    """A comparison of the graph's own size with a constant: neither always true nor always false."""
    v = norm(v)
    return v[0] == "bin" and v[1] in ("<", ">", "==", "!=", "<=", ">=") and any(A.is_int(x) for x in v[2:4]) and any(
        norm(x)[0] == "call" and last(norm(x)[1]) in ("num_vertices", "num_edges") for x in v[2:4])


# ------------------------------------------------------------------ C04
def origin(st, L):
    """The container a never modified copy was made from."""
    n = 0
    while n < 8 and not any(e[0] in ("mapset", "setadd", "push", "erase", "cmut") and e[1] == L for e in st.events()):
        v = st.env.get(("ord", L))
        if not (isinstance(v, tuple) and v[0] == "same" and v[1][0] == "cont"):
            break
        L = v[1][1]
        n += 1
    return L


def index_ok(st, L, g, ver):
    """True/None/message: map L numbers every vertex of g (at version ver) 0, 1, 2, ..."""
    L = origin(st, L)
    sets = [e for e in st.events() if e[0] == "mapset" and e[1] == L]
    loops = {c: its for c, its in st_loops(st).items() if any(find_mapsets(ev, L) for _, _, ev in its)}
    base = GEngine.base(g)
    if not loops:
        if sets:
            return None
        for k, v in st.facts.items():
            if k[0] == "empty" and v and isinstance(k[1], tuple) and vrange(k[1], base):
                return True
        return "the vertex numbering is empty"
    if len(loops) > 1:
        return None
    for c, its in loops.items():
        rv = its[0][0]
        if not vrange(rv, base):
            return "the numbering is not over the vertices of the graph the algorithm runs on"
        if not vrange(rv, base, ver):
            return "vertices are added or removed between numbering and the algorithm"
        for i, (_, el, ev) in enumerate(its):
            ms = find_mapsets(ev, L)
            if len(ms) != 1:
                return "a vertex is not numbered on some path"
            if norm(ms[0][2]) != elval(el):
                return "the number is stored for another vertex"
            x = norm(ms[0][3])
            if x[0] == "call" and last(x[1]) == "size" and x[2] == ("cont", L):
                continue
            if i == 0:
                if not A.is_int(x):
                    return None
                if x[1] != 0:
                    return "numbering does not start at 0"
            elif A.is_int(x):
                if x[1] != i:
                    return "numbering is not consecutive"
            elif x[0] == "phi":
                if x[3] != I(1) and x[3] != ("i", i):
                    return "numbering is not consecutive" if A.is_int(x[3]) else None
            else:
                return None
        if not exhausted(st, c, len(its)):
            return "the numbering loop can stop early"
    return True


def pm_index(v):
    """Location of the map behind an index property map argument."""
    if isinstance(v, tuple) and v and v[0] == "np":
        v = named(v).get("vertex_index_map")
    return v[1] if isinstance(v, tuple) and v and v[0] == "pmap" else None


def vec_of(st, loc, depth=0):
    """(size term, initial value) of a local vector."""
    r = None
    for e in st.events():
        if e[0] == "vec" and e[1] == loc:
            r = (e[2], e[3])
    if r is None or depth > 4:
        return None
    if isinstance(r[0], tuple) and r[0][0] == "sizeof":
        b = vec_of(st, r[0][1], depth + 1)
        return (b[0], b[1]) if b else None
    return r


def size_ok(sz, base, ver):
    sz = norm(sz)
    if sz[0] == "call" and last(sz[1]) == "num_vertices":
        return GEngine.base(sz[3][0][1]) == base and sz[3][1] == ver
    if sz[0] == "call" and last(sz[1]) == "size" and sz[2][0] == "cont":
        return None
    items, c = A.lin(sz)
    if len(items) == 1 and items[0][1] == 1 and c > 0 and items[0][0][0] == "call" and last(items[0][0][1]) == "num_vertices":
        return GEngine.base(items[0][0][3][0][1]) == base and items[0][0][3][1] == ver
    return False if A.is_int(sz) or len(items) == 1 and c < 0 else None


def verdict(rep, rule, inst, r):
    if r is True:
        rep.ok(rule, inst)
    elif r is None:
        rep.undecided(rule, inst, "idiom not interpreted")
    else:
        rep.bad(rule, inst, r)


def components(rep, fx, name, algo):
    e, fn, outs, why = run(rep, fx, name)
    if outs is None:
        rep.undecided("components", name, why)
        return
    G = pgraph(fn)
    for kind, st, val in outs:
        if kind != "return":
            continue
        al = [x for x in st.events() if x[0] == "galgo"]
        if len(al) != 1:
            rep.undecided("components", name, "not a single boost call")
            continue
        a = al[0]
        if a[1] != algo:
            rep.bad("components", name, "computes %s" % a[1])
            continue
        g = a[2][0][1]
        cm = a[2][1][1] if a[2][1][0] == "pmap" else None
        L = pm_index(a[2][2]) if len(a[2]) > 2 else None
        if cm is None or L is None or not (isinstance(val, tuple) and val[0] == "list" and len(val[1]) == 2):
            rep.undecided("components", name, "result %s" % show(val))
            continue
        if L == cm:
            rep.bad("components", name, "component and index map are the same container")
        verdict(rep, "numbering", name, index_ok(st, L, g, a[5]))
        if norm(val[1][0]) != a[3]:
            rep.bad("components", name, "the first result is not the number of components: %s" % show(val[1][0]))
        x = val[1][0]
        while isinstance(x, tuple) and x and x[0] == "cast":
            if (A.bits(x[1]) or 64) < 32:
                rep.bad("components", name, "the number of components is cut to %s" % x[1])
            x = x[2]
        res = val[1][1]
        if res[0] != "cont":
            rep.undecided("components", name, "map %s" % show(res))
            continue
        if g == G or g == ("rev", G):
            rep.judge("components", name, res[1] == cm, "the returned map is not the component map")
            touched = [x for x in st.events() if x[0] in ("mapset", "erase", "cmut") and x[1] == cm]
            if touched:
                rep.bad("components", name, "the component map is changed outside the algorithm")
            continue
        # computed on another graph: mapped back through the inverse map
        uv = [x for x in st.events() if x[0] == "gmut" and x[1] == "add_vertex" and x[2] == g]
        loops = {c: its for c, its in st_loops(st).items() if any(find_mapsets(ev, res[1]) for _, _, ev in its)}
        if not loops:
            if find_mapsets(st.events(), res[1]):
                rep.undecided("components", name, "result filled outside a loop")
            elif any(k[0] == "empty" and v and isinstance(k[1], tuple) and (k[1] == ("cont", cm) or vrange(k[1])) for k, v in st.facts.items()):
                rep.ok("components", name)
            else:
                rep.bad("components", name, "a path returns an empty component map")
            continue
        inv = fwd = None
        for c, its in st_loops(st).items():
            for rv, el, ev in its:
                for x in ev:
                    if x[0] == "mapset" and x[1] not in (L, cm, res[1]) and vrange(rv, G):
                        if norm(x[3]) == elval(el):
                            inv = x[1]
                        if norm(x[2]) == elval(el):
                            fwd = x[1]
        if inv is None and fwd is None and any(k[0] == "empty" and v and isinstance(k[1], tuple) and vrange(k[1], G) for k, v in st.facts.items()):
            continue                            # no vertices: the loops below have nothing to visit
        for c, its in loops.items():
            rv = its[0][0]
            for _, el, ev in its:
                ms = find_mapsets(ev, res[1])
                if len(ms) != 1:
                    rep.bad("components", name, "a vertex gets %d components on some path" % len(ms))
                    continue
                k, v = norm(ms[0][2]), norm(ms[0][3])
                x = elval(el)
                if rv == ("cont", cm):
                    okk = k == ("idx", ("cont", inv), field(x, "first"))
                    okv = v == field(x, "second")
                elif rv == ("cont", fwd):
                    okk, okv = k == field(x, "first"), v == ("idx", ("cont", cm), field(x, "second"))
                elif rv == ("cont", inv):
                    okk, okv = k == field(x, "second"), v == ("idx", ("cont", cm), field(x, "first"))
                elif vrange(rv, G):
                    okk, okv = k == x, v == ("idx", ("cont", cm), ("idx", ("cont", fwd), x))
                elif vrange(rv, g):
                    okk, okv = k == ("idx", ("cont", inv), x), v == ("idx", ("cont", cm), x)
                else:
                    rep.undecided("components", name, "loop over %s" % show(rv))
                    continue
                if not okk or not okv:
                    rep.bad("components", name, "the component of a vertex is stored wrongly: %s -> %s" % (show(k), show(v)))
            if not exhausted(st, c, len(its)):
                rep.bad("components", name, "the loop mapping the components back can stop early")
            rep.ok("components", name)


def domtree(rep, fx, name, post):
    e, fn, outs, why = run(rep, fx, name)
    if outs is None:
        rep.undecided("dominators", name, why)
        return
    G = pgraph(fn)
    for kind, st, val in outs:
        if kind != "return":
            continue
        al = [x for x in st.events() if x[0] == "galgo"]
        if len(al) != 1 or not al[0][1].startswith("lengauer") or len(al[0][2]) < 7:
            rep.undecided("dominators", name, "not a single Lengauer-Tarjan call")
            continue
        a = al[0]
        g, ver = a[2][0][1], a[5]
        if GEngine.base(g) != G or (g == G) == post:
            rep.bad("dominators", name, "runs on the wrong graph or direction: %s" % show(g))
        entry, L = norm(a[2][1]), pm_index(a[2][2])
        if L is None:
            rep.undecided("dominators", name, "index map %s" % show(a[2][2]))
            continue
        r = index_ok(st, L, g, ver)
        empty = r is True and not any(find_mapsets(ev, L) for _, _, _, ev in iters(st))
        verdict(rep, "numbering", name, r)
        vecs = []
        for i, what in ((3, "discovery numbers"), (4, "parents"), (6, "dominators")):
            m = a[2][i]
            if m[0] != "ipm" or not isinstance(m[1], tuple):
                rep.undecided("buffers", "%s:%s" % (name, what), show(m))
                continue
            if m[2] != ("pmap", L):
                rep.bad("buffers", "%s:%s" % (name, what), "is not indexed by the vertex numbering")
            vecs.append((m[1], what))
        if a[2][5][0] == "cont":
            vecs.append((a[2][5][1], "vertices by discovery number"))
        dom = a[2][6][1] if a[2][6][0] == "ipm" else None
        for i, (v, what) in enumerate(vecs):
            if v in [x for x, _ in vecs[:i]]:
                rep.bad("buffers", "%s:%s" % (name, what), "shares its buffer with another argument")
            sv = vec_of(st, v)
            if sv is None:
                rep.undecided("buffers", "%s:%s" % (name, what), "size not traced")
                continue
            ok = size_ok(sv[0], G, ver)
            x = norm(sv[0])
            if ok is None and x[0] == "call" and last(x[1]) == "size" and x[2][0] == "cont":
                filled = [its for its in st_loops(st).values() if vrange(its[0][0], G)
                          and any(y[0] in ("setadd", "push", "mapset") and y[1] == x[2][1] for _, _, ev in its for y in ev)]
                if x[2][1] == L or find_mapsets(st.events(), x[2][1]) and index_ok(st, x[2][1], g, ver) is True:
                    ok = True
                elif any(not any(y[0] in ("setadd", "push", "mapset") and y[1] == x[2][1] for y in ev) for its in filled for _, _, ev in its):
                    ok = False
            if ok is None:
                rep.undecided("buffers", "%s:%s" % (name, what), "size %s" % show(sv[0]))
            else:
                rep.judge("buffers", "%s:%s" % (name, what), ok, "is not sized to the number of vertices when the algorithm runs: %s" % show(sv[0]))
            if what == "dominators" and norm(sv[1]) not in ((NULLV,), I(0), ("i", 0)):
                rep.bad("buffers", "%s:initial" % name, "vertices without a dominator do not map to null: %s" % show(sv[1]))
        # the root
        syn = [x[4] for x in st.events() if x[0] == "gmut" and x[1] == "add_vertex" and x[2] == G]
        if not post:
            rep.judge("root", name, entry == ("p", fn["ps"][1]["n"] or "1", 1), "the tree is not rooted at the given source: %s" % show(entry))
        else:
            root(rep, st, name, G, entry, syn, ver)
        # the result
        if not (isinstance(val, tuple) and val[0] == "cont"):
            rep.undecided("dominators", name, show(val))
            continue
        R_ = val[1]
        loops = {c: its for c, its in st_loops(st).items()
                 if its[0][0] == ("cont", L) or vrange(its[0][0], G) and any(find_mapsets(ev, R_) for _, _, ev in its)}
        if not loops:
            if empty or any(k == ("empty", ("cont", L)) and v for k, v in st.facts.items()) or any(k[0] == "empty" and v and vrange(k[1]) for k, v in st.facts.items() if isinstance(k[1], tuple)):
                rep.ok("dominators", name)
            elif find_mapsets(st.events(), R_):
                rep.undecided("dominators", name, "the result is filled outside a loop")
            else:
                rep.bad("dominators", name, "a path returns an empty tree")
            continue
        for c, its in loops.items():
            rv = its[0][0]
            for _, el, ev in its:
                x = elval(el)
                key = field(x, "first") if rv[0] == "cont" else x
                dv = ("idx", ("cont", dom), field(x, "second")) if rv[0] == "cont" else ("idx", ("cont", dom), ("idx", ("cont", L), x))
                dv2 = ("idx", ("cont", dom), ("idx", ("cont", L), key))
                ms = find_mapsets(ev, R_)
                issyn = any(st_neq(st, key, s) is True for s in syn)
                if issyn:
                    continue                    # C01 decides whether the synthetic vertex may appear
                if len(ms) != 1:
                    rep.bad("dominators", name, "a vertex gets %d entries on some path" % len(ms))
                    continue
                k, v = norm(ms[0][2]), norm(ms[0][3])
                if k != key:
                    rep.bad("dominators", name, "an entry is stored under another key: %s" % show(k))
                elif v in (dv, dv2):
                    pass
                elif v in ((NULLV,), I(0)) and any(st_neq(st, d, s) is True for s in syn for d in (dv, dv2)):
                    pass
                elif A.mentions(v, lambda z: z == ("cont", dom)) or v[0] in ("call", "idx", "fld", "i", NULLV, "ld", "p"):
                    rep.bad("dominators", name, "the entry of a vertex is not its immediate dominator: %s" % show(v))
                else:
                    rep.undecided("dominators", name, show(v))
            if not exhausted(st, c, len(its)):
                rep.bad("dominators", name, "the loop building the result can stop early")
            rep.ok("dominators", name)
        bad = [x for x in st.events() if x[0] in ("erase", "cmut") and x[1] == R_ and not (x[0] == "erase" and all(norm(k) in syn for k in x[2]))]
        if bad:
            rep.bad("dominators", name, "entries are removed from the result")


def root(rep, st, name, G, entry, syn, ver):
    """Post-dominators: the root is the only terminal, or a synthetic vertex behind every terminal."""
    term = None
    for c, its in st_loops(st).items():
        rv = its[0][0]
        if not vrange(rv, G):
            continue
        for _, el, ev in its:
            for x in ev:
                if x[0] in ("setadd", "push"):
                    term = x[1] if term in (None, x[1]) else "?"
    if term in (None, "?"):
        for k, v in st.facts.items():
            if k[0] == "empty" and v and isinstance(k[1], tuple) and vrange(k[1], G):
                rep.ok("root", name)
                return
        # no terminal was found on this path: nothing to attach
        seen = [its for its in st_loops(st).values() if vrange(its[0][0], G)]
        if seen and syn and entry in syn:
            for its in seen[:1]:
                for _, el, ev in its:
                    if not any(outdeg(st, elval(el), G) is False for _ in (0,)):
                        rep.bad("root", name, "a vertex without successors is not treated as terminal")
                        return
            rep.ok("root", name)
            return
        if entry not in syn and A.mentions(entry, lambda x: x[0] == "cont"):
            return                              # reads an element of a collection this path left empty
        if term == "?":
            rep.undecided("root", name, "terminal vertices are collected in several containers")
            return
        rep.undecided("root", name, "terminal vertices not traced")
        return
    loop = [(c, its) for c, its in st_loops(st).items() if vrange(its[0][0], G) and any(x[0] in ("setadd", "push") and x[1] == term for _, _, ev in its for x in ev)]
    for c, its in loop:
        for _, el, ev in its:
            x = elval(el)
            adds = [y for y in ev if y[0] in ("setadd", "push") and y[1] == term]
            z = outdeg(st, x, G)
            if z is None:
                rep.bad("root", name, "terminal vertices are not decided by having no outgoing edge")
                return
            if z != bool(adds):
                rep.bad("root", name, "a vertex with%s successors is %s as terminal" % ("out" if z else "", "treated" if adds else "not treated"))
                return
            if adds and norm(adds[0][2] if adds[0][0] == "setadd" else adds[0][3]) != x:
                rep.bad("root", name, "another vertex is recorded as terminal")
                return
        if not exhausted(st, c, len(its)):
            rep.bad("root", name, "the search for terminal vertices can stop early")
            return
    if syn and entry in syn:
        tl = [(c, its) for c, its in st_loops(st).items() if its[0][0] == ("cont", term)]
        edges = [x for x in st.events() if x[0] == "gmut" and x[1] == "add_edge" and x[2] == G]
        if not tl:
            if any(k == ("empty", ("cont", term)) and v for k, v in st.facts.items()):
                rep.ok("root", name)
            else:
                rep.bad("root", name, "the terminals are not connected to the synthetic exit")
            return
        for c, its in tl:
            for _, el, ev in its:
                ae = [x for x in ev if x[0] == "gmut" and x[1] == "add_edge"]
                if [tuple(norm(v) for v in x[3] if v[0] != "G") for x in ae] != [(elval(el), entry)]:
                    rep.bad("root", name, "a terminal is not joined to the synthetic exit by one edge terminal -> exit")
                    return
            if not exhausted(st, c, len(its)):
                rep.bad("root", name, "the loop joining the terminals can stop early")
                return
        al = [i for i, x in enumerate(st.events()) if x[0] == "galgo"]
        late = [i for i, x in enumerate(st.events()) if x in edges and i > al[0]]
        gone = [i for i, x in enumerate(st.events()) if x[0] == "gmut" and x[1] in ("clear_vertex", "remove_vertex") and i < al[0]]
        if late or gone:
            rep.bad("root", name, "the synthetic exit is not connected while the algorithm runs")
            return
        rep.ok("root", name)
        return
    # a single terminal
    one = st.truth(("bin", "==", ("call", "size", ("cont", term), (), 0), I(1), "bool"))
    if one is True and A.mentions(entry, lambda x: x == ("cont", term)):
        rep.ok("root", name)
    elif A.mentions(entry, lambda x: x == ("cont", term)):
        rep.bad("root", name, "one terminal is used as root although there can be several")
    else:
        rep.bad("root", name, "the root is not a terminal vertex: %s" % show(entry))


def outdeg(st, v, G):
    """True: no outgoing edge on this path; False: at least one; None: not tested."""
    t = ("call", "boost::out_degree", None, (v, ("G", G)), 0)
    for op, neg in (("==", False), ("!=", True), (">", True), ("<=", False)):
        r = st.truth(("bin", op, t, I(0), "bool"))
        if r is not None:
            return r != neg
    oe = ("call", "boost::out_edges", None, (v, ("G", G)), 0)
    return st.truth(("bin", "==", ("fld", oe, "first"), ("fld", oe, "second"), "bool"))


def c04(rep):
    fx = facts(rep)
    rep.rule("numbering", "the index map given to the algorithm numbers every vertex of the graph it runs on 0, 1, 2, ... and is current")
    rep.rule("components", "every vertex of the caller's graph gets the component the algorithm computed for it, and the count is the algorithm's")
    rep.rule("buffers", "work buffers are distinct, sized to the vertex count and indexed by the numbering; the dominator buffer starts as null")
    rep.rule("root", "dominators are rooted at the given source, post-dominators at the sole terminal or at a synthetic exit behind every terminal")
    rep.rule("dominators", "every vertex is mapped to the entry of the dominator buffer at its own number")
    components(rep, fx, "strongly_connected_components", "strong_components")
    components(rep, fx, "weakly_connected_components", "connected_components")
    domtree(rep, fx, "dominator_tree", False)
    domtree(rep, fx, "post_dominator_tree", True)


# ------------------------------------------------------------------ C05
def c05(rep):
    fx = facts(rep)
    rep.rule("no-revisit", "the search never extends a path to a vertex already on it, the source included")
    rep.rule("balanced", "whatever a search step adds to the current path and the visited set it removes before it returns")
    rep.rule("record", "a path is recorded exactly when the target is reached, complete with its last edge")
    rep.rule("extend", "every outgoing edge of the source and of every reached vertex that is not the target is tried")
    drv = [f for f in fx.named(NS + "all_simple_paths") if not f.get("dep")]
    rep.need(drv, NS + "all_simple_paths")
    drv = drv[0]
    w = None
    for c in cxx.calls(drv["body"]):
        f = fx.fns.get(c.get("u"))
        if f is not None and any(x.get("u") == f["u"] for x in cxx.calls(f["body"])):
            w = f
    if w is None:
        rep.undecided("extend", "all_simple_paths", "no recursive worker function")
        return
    rep.fns |= {drv["q"], w["q"]}
    try:
        roles = worker(rep, fx, w)
        if roles is not None:
            driver(rep, fx, drv, w, roles)
    except A.Undecided as x:
        rep.undecided("extend", "all_simple_paths", str(x))


def worker(rep, fx, w):
    e = GEngine(fx)
    e.stop = (w["u"],)
    st = A.St()
    for i, p in enumerate(w["ps"]):
        pv = ("p", p["n"] or str(i), i)
        if p["t"].endswith("&"):
            pv = ("ref", ("d", pv))
        if p["t"].endswith("&") and p["t"].replace("const ", "").startswith(CONT):
            st.env[pv[1]] = ("cont", pv[1])
    own, args = set(), []
    for i, p in enumerate(w["ps"]):
        t = p["t"].replace("const ", "")
        args.append(None)
        if t.startswith(CONT) and not t.endswith("&"):
            l = ("d", ("p", p["n"] or str(i), i))
            own.add(l)                          # a copy of its own per call: nothing to restore
            args[i] = ("cont", l)
    outs = [o for o in e.run(w, st=st, args=args) if o[0] == "return"]
    pl = {("p", p["n"] or str(i), i): i for i, p in enumerate(w["ps"])}

    def pi(v):
        v = norm(v)
        if v in pl:
            return pl[v]
        if v[0] == "ld" and v[1][0] == "d" and v[1][1] in pl:
            return pl[v[1][1]]
        if v[0] == "cont" and v[1][0] == "d":
            return pl.get(v[1][1])
        if v[0] == "G" and v[1][0] == "d":
            return pl.get(v[1][1])
        return None
    # roles
    path = visited = alls = edge = u = None
    for kind, st, val in outs:
        for ev in st.events():
            if ev[0] == "push" and pi(ev[3]) is not None and pi(("cont", ev[1])) is not None and ev[3][0] != "cont":
                path, edge = ev[1], norm(ev[3])
            if ev[0] == "setadd" and norm(ev[2])[0] == "call" and last(norm(ev[2])[1]) == "target":
                visited, u = ev[1], norm(ev[2])
    for kind, st, val in outs:
        for ev in st.events():
            if ev[0] == "push" and ev[1] != path and A.mentions(ev[3], lambda x: x == ("cont", path)):
                alls = ev[1]
    if path is None or visited is None or alls is None or u[3][0] != edge:
        rep.undecided("extend", "worker", "the roles of the worker's parameters were not recognised")
        return None
    if alls in own:
        rep.bad("record", "worker", "found paths are added to a copy of the result")
    dst = None
    for kind, st, val in outs:
        for k in st.facts:
            if k[0] == "eq0":
                at = [a for a, _ in k[1]]
                if len(at) == 2 and u in at:
                    o = [a for a in at if a != u][0]
                    if pi(o) is not None:
                        dst = o
    if dst is None:
        rep.undecided("record", "worker", "no comparison with the target")
        return None
    g = u[3][1]
    blocked = False
    for kind, st, val in outs:
        evs = st.events()
        known = st.facts.get(("has", ("cont", visited), u))
        rec = [i for i, x in enumerate(evs) if x[0] == "call" and x[1] == w["q"]]
        recd = [i for i, x in enumerate(evs) if x[0] == "push" and x[1] == alls]
        pushes = [i for i, x in enumerate(evs) if x[0] == "push" and x[1] == path]
        adds = [i for i, x in enumerate(evs) if x[0] == "setadd" and x[1] == visited]
        if known is True:
            adds = [i for i in adds if norm(evs[i][2]) != u]        # inserting a member changes nothing
        pops = [i for i, x in enumerate(evs) if x[0] == "pop" and x[1] == path]
        ers = [i for i, x in enumerate(evs) if x[0] == "erase" and x[1] == visited]
        if [x for x in evs if x[0] == "cmut" and x[1] in (path, visited, alls)] or [x for x in evs if x[0] in ("pop", "erase") and x[1] == alls]:
            rep.bad("balanced", "worker", "a search step rearranges or clears a shared container")
        at = st.truth(("bin", "==", u, dst, "bool"))
        # the search ends at the target, so it is on the path before only as the source of a closed path
        closing = at is True and recd and not rec
        if known is True:
            if (rec or recd) and not closing:
                rep.bad("no-revisit", "worker", "a visited vertex is searched or recorded again")
            if at is not False and not recd:
                blocked = True
        elif known is None and (rec or recd) and not closing:
            rep.bad("no-revisit", "worker", "a vertex is searched without checking whether it is already on the path")
        if known is True and not pushes and not adds and not pops and not ers:
            rep.ok("no-revisit", "worker")
            continue
        # balance
        badb = None
        if path in own:
            pass
        elif len(pushes) != len(pops) or any(evs[i][2] != evs[j][2] for i, j in zip(pushes, pops)) or any(i > j for i, j in zip(pushes, pops)):
            badb = "the current path is not restored (%d added, %d removed)" % (len(pushes), len(pops))
        if badb or visited in own:
            pass
        elif [norm(evs[i][2]) for i in adds] != [norm(ek(evs[i][2])) for i in ers] or any(i > j for i, j in zip(adds, ers)):
            badb = "the visited set is not restored"
        if badb:
            rep.bad("balanced", "worker", badb)
        else:
            rep.ok("balanced", "worker")
        if rec or recd:
            first, lst = min(rec + recd), max(rec + recd)
            inpath = [i for i in pushes if i < first and norm(evs[i][3]) == edge and evs[i][2] == "back"]
            if not inpath or [i for i in pops if i < lst] and not badb:
                rep.bad("record", "worker", "the edge reaching the vertex is not at the end of the path while it is recorded or extended")
            if rec and (not [i for i in adds if i < min(rec) and norm(evs[i][2]) == u] or [i for i in ers if i < max(rec)]):
                rep.bad("no-revisit", "worker", "the vertex is not marked visited while its successors are searched")
        if known is False or known is None and at is True:
            if at is True:
                if len(recd) != 1:
                    rep.bad("record", "worker", "reaching the target records %d paths" % len(recd))
                elif backwards(evs[recd[0]][3], path):
                    rep.bad("record", "worker", "the path is recorded backwards")
                elif norm(evs[recd[0]][3]) not in (("cont", path), ("ctor", "std::list", (("cont", path),))) and not A.mentions(evs[recd[0]][3], lambda x: x == ("cont", path)):
                    rep.bad("record", "worker", "something other than the current path is recorded")
                else:
                    rep.ok("record", "worker")
            else:
                if recd:
                    rep.bad("record", "worker", "a path is recorded although the target is not reached" if at is False else "a path is recorded without comparing with the target")
                its = loops_over(st, lambda rv: rv[0] == "rngv" and rv[1][0] == "call" and last(rv[1][1]) == "out_edges" and norm(rv[1][3][0]) == u and rv[1][3][1] == g)
                extend(rep, st, its, w, "worker", pi, dst, path, visited, alls, edge, pl,
                       empty=any(k[0] == "empty" and v and isinstance(k[1], tuple) and k[1][0] == "rngv" and A.mentions(k[1], lambda x: x == u) for k, v in st.facts.items()))
    return dict(path=pi(("cont", path)), visited=pi(("cont", visited)), alls=pi(("cont", alls)), edge=pi(edge), dst=pi(dst), g=pi(g),
                blocked=blocked)


def backwards(v, path):
    v = norm(v)
    return v[0] == "ctor" and GEngine.revrange(v[2]) == ("cont", path) if v[0] == "ctor" and len(v[2]) == 2 else False


def ek(args):
    x = args[0]
    return x[2] if x[0] == "it" else x


def extend(rep, st, its, w, inst, pi, dst, path, visited, alls, edge, pl, empty):
    if not its:
        if empty:
            rep.ok("extend", inst)
        else:
            rec = [x for x in st.events() if x[0] == "call" and x[1] == w["q"]]
            (rep.undecided if rec else rep.bad)("extend", inst, "the outgoing edges are not enumerated")
        return
    for c, xs in its.items():
        for el, ev in xs:
            rec = [x for x in ev if x[0] == "call" and x[1] == w["q"]]
            if len(rec) != 1:
                rep.bad("extend", inst, "an outgoing edge is searched %d times on some path" % len(rec))
                continue
            a = rec[0][4]
            ei = pi(edge)
            if norm(a[ei]) != elval(el):
                rep.bad("extend", inst, "another edge is searched: %s" % show(a[ei]))
            for role, val in (("target", dst), ("path", ("cont", path)), ("visited set", ("cont", visited)), ("result", ("cont", alls))):
                i = pi(val)
                if norm(a[i]) != val:
                    rep.bad("extend", inst, "the %s passed on is %s" % (role, show(a[i])))
        if not exhausted(st, c, len(xs)):
            rep.bad("extend", inst, "the loop over the outgoing edges can stop early")
        rep.ok("extend", inst)


def driver(rep, fx, drv, w, roles):
    e = GEngine(fx)
    e.stop = (w["u"],)
    src, dst = ("p", drv["ps"][1]["n"] or "1", 1), ("p", drv["ps"][2]["n"] or "2", 2)
    G = pgraph(drv)
    for kind, st, val in e.run(drv):
        if kind != "return":
            continue
        evs = st.events()
        calls = [i for i, x in enumerate(evs) if x[0] == "call" and x[1] == w["q"]]
        its = loops_over(st, lambda rv: rv[0] == "rngv" and rv[1][0] == "call" and last(rv[1][1]) == "out_edges" and norm(rv[1][3][0]) == src and rv[1][3][1] == ("G", G))
        if not its:
            empty = any(k[0] == "empty" and v and A.mentions(k[1], lambda x: x == src) for k, v in st.facts.items() if isinstance(k[1], tuple))
            if calls:
                rep.undecided("extend", "source", "the source's outgoing edges are not enumerated by a recognised loop")
            elif not empty and st.truth(("bin", "==", src, dst, "bool")) is None:
                rep.bad("extend", "source", "the outgoing edges of the source are not searched")
            continue
        for c, xs in its.items():
            for el, ev in xs:
                rec = [x for x in ev if x[0] == "call" and x[1] == w["q"]]
                if len(rec) != 1:
                    rep.bad("extend", "source", "an outgoing edge of the source is searched %d times on some path" % len(rec))
                    continue
                a = rec[0][4]
                if norm(a[roles["edge"]]) != elval(el) or norm(a[roles["dst"]]) != dst:
                    rep.bad("extend", "source", "the search starts with %s towards %s" % (show(a[roles["edge"]]), show(a[roles["dst"]])))
                vs = a[roles["visited"]]
                if a[roles["alls"]] != val:
                    rep.bad("record", "source", "the paths are collected in another list than the returned one")
                if vs[0] != "cont":
                    rep.undecided("no-revisit", "source", "visited set %s" % show(vs))
                    continue
                i0 = evs.index(rec[0])
                marked = [x for x in evs[:i0] if x[0] == "setadd" and x[1] == vs[1] and norm(x[2]) == src]
                others = [x for x in evs[:i0] if x[0] == "setadd" and x[1] == vs[1] and norm(x[2]) != src]
                gone = [x for x in evs[:i0] if x[0] in ("erase", "cmut") and x[1] == vs[1]]
                if others:
                    rep.bad("no-revisit", "source", "the search starts with a vertex marked that is not on the path: %s" % show(others[0][2]))
                if not marked and st.truth(("bin", "==", src, dst, "bool")) is not True or gone:
                    rep.bad("no-revisit", "source", "the source is not marked as visited, so paths can run through it again")
                elif marked and roles["blocked"] and st.truth(("bin", "==", src, dst, "bool")) is not False:
                    rep.bad("no-revisit", "source", "the source is marked as visited although it can be the target, so closed paths are never found")
                else:
                    rep.ok("no-revisit", "source")
                if [x for x in evs[:i0] if x[0] == "push" and x[1] == a[roles["path"]][1]]:
                    rep.bad("record", "source", "the search starts with a non-empty path")
            if not exhausted(st, c, len(xs)):
                rep.bad("extend", "source", "the loop over the source's outgoing edges can stop early")
            rep.ok("extend", "source")


CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05}
