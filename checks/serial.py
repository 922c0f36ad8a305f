"""G01-G03: SDFG documents (JSON) and their round trip, copies of elements."""
import os

from lib import absint as A, cxx, objects as O, rules as R
from lib.absint import I, last, show
from checks.instr import Acc

S = "sdfg::serializer::JSONSerializer::"
SRC = "sdfg/src/serializer/json_serializer.cpp"
TYPES = ["scalar", "array", "tensor", "pointer", "function", "structure"]


DG = "sdfg::data_flow::DataFlowGraph::"
VIEWS = {DG + "nodes": "nodes_", DG + "edges": "edges_",
         "sdfg::Function::containers": "containers_", "sdfg::Function::structures": "structures_"}


class Eng(O.OEngine):
    writers = {S + k: k for k in ("type_to_json", "storage_type_to_json", "debug_info_to_json", "schedule_type_to_json",
                                  "dataflow_to_json", "sequence_to_json", "block_to_json", "for_to_json", "if_else_to_json",
                                  "while_node_to_json", "break_node_to_json", "continue_node_to_json", "map_to_json",
                                  "return_node_to_json", "structure_definition_to_json")}
    readers = {S + r: w for r, w in (("json_to_type", "type_to_json"), ("json_to_storage_type", "storage_type_to_json"),
                                     ("json_to_debug_info", "debug_info_to_json"), ("json_to_schedule_type", "schedule_type_to_json"),
                                     ("json_to_dataflow", "dataflow_to_json"), ("json_to_sequence", "sequence_to_json"),
                                     ("json_to_block_node", "block_to_json"), ("json_to_for_node", "for_to_json"),
                                     ("json_to_if_else_node", "if_else_to_json"), ("json_to_while_node", "while_node_to_json"),
                                     ("json_to_break_node", "break_node_to_json"), ("json_to_continue_node", "continue_node_to_json"),
                                     ("json_to_map_node", "map_to_json"), ("json_to_return_node", "return_node_to_json"),
                                     ("json_to_structure_definition", "structure_definition_to_json"))}
    printers = {S + "expression": "expression"}
    limit = 400.0
    consts = {}               # writer tag -> constant entries of every document it writes

    def proj(self, pv, k, loc):
        if k == "e" and isinstance(pv, tuple) and pv and pv[0] == "out":
            v = self.consts.get(pv[1], {}).get(loc[2])
            if v is not None:
                return v
        return super().proj(pv, k, loc)

    def follow(self, fn):
        return last(fn["q"]) not in ("validate", "check_name") and super().follow(fn)

    def on_call(self, st, node, q, rl, rv, args, an):
        r = self.own_call(st, node, q, rl, rv, args, an)
        w = self.readers.get(q)
        if w == "sequence_to_json" and len(args) > 1 and r:
            for s2, v in r:            # reading elements draws new element ids
                b = [self.resolve(s2, l) for _, l in self.loc(an[1], s2)][0]
                o = self.load(s2, ("f", b, "structured_sdfg_"))
                if isinstance(o, tuple) and o[:1] == ("addr",):
                    self.store(s2, ("f", o[1], "element_counter_"), ("ids", self.fresh()), node, quiet=True)
        if w in {x for x, _ in NODES} and len(args) > 3 and r:
            for s2, v in r:
                loc = [self.resolve(s2, l) for _, l in self.loc(an[2], s2)][0]
                t = ("o", self.fresh(), "sdfg::structured_control_flow::Transition")
                s2.env[("f", t, "assignments_")] = args[3]
                for fl, x in (("children_", v), ("transitions_", ("addr", t))):
                    old = self.load(s2, ("f", loc, fl))
                    if isinstance(old, tuple) and old[0] == "list":
                        self.store(s2, ("f", loc, fl), ("list", old[1] + (x,), old[2]), node, quiet=True)
                    else:
                        self.store(s2, ("f", loc, fl), ("mut", "push_back", old, (x,)), node, quiet=True)
        return r

    def own_call(self, st, node, q, rl, rv, args, an):
        if last(q) in ("at", "operator[]") and "map<" in q and "DataFlowNode" in q and len(args) == 1 and rl is not None and rl[0] != "f":
            x = ("nodeof", R.strip(args[0]))
            return [(st, ("ref", ("d", x) if "DataFlowNode *" not in q else ("t", x)))]
        if last(q) == "merge_patch" and len(args) == 1 and rl is not None and isinstance(args[0], tuple) and args[0][0] == "out":
            old = self.load(st, rl)
            if old[0] == "rec" and old[1][0] == "list" and not old[1][1]:
                own = ("s", "element_id"), ("s", "implementation_type"), ("s", "type")
                d = [x for x in old[2] if x[0] in own]
                self.store(st, rl, ("rec", args[0], tuple(d)), node, quiet=True)
                return [(st, ("void",))]
        if q.endswith("LibraryNodeSerializer::serialize") and args:
            return [(st, ("out", "library_node", self.subject(st, an[0], args[0])))]
        if q.endswith("LibraryNodeSerializer::deserialize") and args:
            x = args[0]
            t = ("o", self.fresh(), "sdfg::data_flow::LibraryNode")
            st.emit("libread", x, t)
            return [(st, ("ref", t))]
        if q in VIEWS and rl is not None and not args:
            return [(st, ("ref", ("f", rl, VIEWS[q])))]
        if q == "sdfg::symbolic::parse" and args:
            return [(st, ("copy", "expression", args[0]))]
        if q == "sdfg::symbolic::integer" and args:
            return [(st, ("symint", args[0]))]
        if last(q) in ("as_int", "as_uint") and isinstance(rv, tuple):
            x = plain(rv)
            if isinstance(x, tuple) and x and x[0] == "symint":
                return [(st, R.strip(x[1]))]
        if last(q) == "clone" and not args and rl is not None and self.cls_of(rl) is None:
            return [(st, ("addr", rl))]
        return super().on_call(st, node, q, rl, rv, args, an)


JLOC = ("d", ("p", "j", 0))


def start(name="j"):
    st = A.St()
    st.env[("d", ("p", name, 0))] = ("list", (), "json")
    return st


_canon = {}


def canon(t):
    """Terms with casts between classes and address/dereference pairs removed at every depth."""
    if not isinstance(t, tuple):
        return t
    r = _canon.get(t)
    if r is not None:
        return r
    x = tuple(canon(y) for y in t)
    if x and x[0] == "d" and len(x) == 2 and isinstance(x[1], tuple):
        y = x[1]
        while isinstance(y, tuple) and y and y[0] == "dyncast" and len(y) > 2:
            y = y[2]
        if isinstance(y, tuple) and y and y[0] == "addr":
            x = y[1]
        else:
            x = ("d", y)
    elif x and x[0] == "f" and len(x) == 3 and isinstance(x[1], tuple) and x[1][0] == "t" and isinstance(x[1][1], tuple) \
            and x[1][1][0] == "list" and x[2] in ("first", "second") and len(x[1][1][1]) == 2:
        y = x[1][1][1][0 if x[2] == "first" else 1]
        x = y[1] if y[0] in ("ld", "addr") else ("t", y)
    if len(_canon) > 200000:
        _canon.clear()
    _canon[t] = x
    return x


def plain(v):
    """Undoes a printer/parser or writer/reader pair, value-preserving conversions and owning pointers."""
    v = canon(v)
    while isinstance(v, tuple) and v:
        k = v[0]
        if k == "copy":
            x = v[2]
            while isinstance(x, tuple) and x and x[0] in ("jget", "cast"):
                x = x[2]
            if isinstance(x, tuple) and x and x[0] == "out" and x[1] == v[1]:
                v = x[2]
                continue
            return ("unmatched", v[1], x)
        if k == "jget" or k == "cast" and not narrow(v[1]):
            v = v[2]
        elif k == "obj" and len(v) == 2 and isinstance(v[1], tuple):
            v = v[1]
        elif k in ("addr", "d", "t") and isinstance(v[1], tuple):
            v = v[1]
        elif k == "ld":
            v = v[1]
        elif k == "f" and isinstance(v[1], tuple) and v[1][0] == "t" and isinstance(v[1][1], tuple) and v[1][1][0] == "list" \
                and v[2] in ("first", "second") and len(v[1][1][1]) == 2:
            v = v[1][1][1][0 if v[2] == "first" else 1]
        elif k == "dyncast" and len(v) > 2 and not v[1].rstrip().endswith("*"):
            v = v[2]
        elif k == "call" and last(v[1]) in ("clone", "release", "get") and not v[3]:
            v = v[2]
        elif k == "call" and last(v[1]) in ("rcp_dynamic_cast", "rcp_static_cast") and len(v[3]) == 1:
            v = v[3][0]
        elif k == "ctor" and "RCP" in v[1] and len(v[2]) == 1:
            v = v[2][0]
        elif k == "call" and v[1] == "sdfg::symbolic::symbol" and len(v[3]) == 1:
            x = v[3][0]
            while isinstance(x, tuple) and x and x[0] in ("jget", "cast"):
                x = x[2]
            if not (isinstance(x, tuple) and x and x[0] == "out" and x[1] == "expression"):
                break
            v = x[2]
        else:
            break
    return v


def narrow(t):
    return any(t.replace("unsigned ", "").startswith(x) for x in ("int", "short", "char", "float", "bool"))


def fields(fx, t):
    out = []
    for c in [t] + fx.bases(t):
        for f in (fx.recs.get(c) or {"fields": []})["fields"]:
            if not f.get("static"):
                out.append(f["n"])
    return out


def same(st, got, src, e=None, sibs=()):
    """got equals the value stored at src: True/False/None"""
    g = plain(got)
    if g == plain(src):
        return True
    if g == I(0) or isinstance(g, tuple) and g and g[0] in ("list", "ctor") and not g[1 if g[0] == "list" else 2]:
        nul = [v for k, v in st.facts.items() if k[0] == "eq0" and any(
            a[0] == "call" and last(a[1]) == "is_null" and a[2] == ("ld", src) for a, _ in k[1])]
        if nul:
            return nul[0] is False
    if isinstance(g, tuple) and g and g[0] == "list":
        idxs = []
        for x in g[1]:
            y = plain(x)
            i = R.elem_of(("ld", y), canon(src))
            if i is None and e is not None:
                r = read_into(st, x)
                i = R.elem_of(("ld", plain(("copy",) + r)), canon(src)) if r is not None else None
            if i is None:
                return None if isinstance(y, tuple) and y and y[0] in ("call", "mut") else False
            idxs.append(i)
        oks = [complete(st, idxs, s) for s in (src,) + tuple(sibs)]
        return True if True in oks else False if False in oks else None
    if isinstance(g, tuple) and g and g[0] in ("rec", "mut") and pairs(g) is not None:
        idxs = []
        for a, b in pairs(g):
            i, i2 = half(a, src, "first"), half(b, src, "second")
            if i is None or i != i2:
                return False
            idxs.append(i)
        oks = [complete(st, idxs, s) for s in (src,) + tuple(sibs)]
        return True if True in oks else False if False in oks else None
    if g == I(0) or g == ("null",) or isinstance(g, tuple) and g[:2] == ("g", "std::nullopt"):
        return st.truth(("ld", src)) is False
    if isinstance(g, tuple) and g and g[0] in ("call", "mut"):
        return None
    return False


def complete(st, idxs, src):
    r = R.complete(st, idxs, src)
    if r is not None or canon(src) == src:
        return r
    return R.complete(st, idxs, canon(src))


def pairs(g):
    """Key/value pairs put into an initially empty map, or None."""
    if g[0] == "list" and not g[1]:
        return []
    if g[0] == "rec":
        x = pairs(g[1])
        return None if x is None else x + list(g[2])
    if g[0] == "mut" and g[1] in ("insert", "emplace", "insert_or_assign", "try_emplace") and len(g[3]) == 1:
        x = pairs(g[2])
        y = g[3][0]
        if x is None or not (isinstance(y, tuple) and y[0] == "list" and len(y[1]) == 2):
            return None
        return x + [y[1]]
    return None


def half(v, src, which):
    """Index term i when v is the key (which = first) or the value (second) of entry i of the map at src."""
    v = plain(v)
    if isinstance(v, tuple) and len(v) == 3 and v[0] in ("f", "fld") and v[2] == which:
        x = v[1]
        if isinstance(x, tuple) and x[0] in ("e", "idx") and plain(x[1]) == plain(src):
            return x[2]
    return None


def read_into(st, obj):
    """(tag, value) of the reader call that filled the object, or None."""
    tgt = plain(obj)
    for ev in after_reader(st):
        if ev[0] == "read" and any(l is not None and plain(l) == tgt for l in ev[3]):
            return ev[1], ev[2]
    return None


def rec_of(st, e, loc):
    return e.load(st, loc)


def writer_paths(rep, fx, q, rule):
    f = fx.one(q)
    e = Eng(fx)
    try:
        outs = e.run(f, st=start(f["ps"][0]["n"] or "0") if "json" in f["ps"][0]["t"] else None)
    except A.Undecided as x:
        rep.undecided(rule, last(q), str(x))
        return f, None, []
    rep.fns |= e.funcs
    return f, e, [o for o in outs if o[0] == "return"]


def reader_paths(rep, fx, q, rule, st, j, init=()):
    f = fx.one(q)
    e = Eng(fx)
    e.seq = 5000
    s = st.fork()
    s.emit("reader")
    s.env[("d", ("p", f["ps"][0]["n"] or "0", 0))] = j
    for l, v in init:
        s.env[l] = v
    try:
        outs = e.run(f, st=s)
    except A.Undecided as x:
        rep.undecided(rule, last(q), str(x))
        return e, []
    rep.fns |= e.funcs
    return e, outs


def after_reader(st):
    evs = list(st.events())
    k = max(i for i, x in enumerate(evs) if x[0] == "reader")
    return evs[k + 1:]


def objects_of(e, st, t):
    """Objects of class t created on this path, in creation order."""
    out = []
    for l in list(st.env):
        while len(l) >= 3 and l[0] in ("f", "e"):
            l = l[1]
        if l[0] == "o" and l not in out and O.base(l[2]) == t:
            out.append(l)
    return sorted(out, key=lambda l: l[1])


SKIP = {"parent_", "vertex_", "edge_", "graph_"}


def unint(v):
    while isinstance(v, tuple) and v and v[0] in ("cast", "jget"):
        v = v[2]
    return v


def whole(e, st, loc, src, fx, t, acc, kind, skip=()):
    """Every field of the object at loc equals the field of the original at src."""
    fs = [f for f in fields(fx, t) if f not in SKIP and f not in skip]
    decl = {f["n"]: f["t"] for c in [t] + fx.bases(t) for f in (fx.recs.get(c) or {"fields": []})["fields"]}
    for f in fs:
        got = e.load(st, ("f", loc, f))
        s = ("f", src, f)
        if O.base(decl[f]) in fx.enums:
            got = unint(got)
        ok = same(st, got, s, e, [("f", src, x) for x in fs if x != f])
        if decl[f] == "bool" and got in (I(0), I(1)) and st.truth(("ld", s)) is not None:
            ok = st.truth(("ld", s)) is bool(got[1])
        if ok is not True:
            r = read_into(st, got) or (read_into(st, loc) if f == "dataflow_" else None)
            if r is not None:
                ok = plain(("copy",) + r) == plain(s)
        acc("%s: %s" % (kind, f.rstrip("_").replace("_", " ")), ok, "a %s comes back with %s = %s" % (kind, f.rstrip("_"), show(got)[:160]))


NODES = [("block_to_json", "json_to_block_node"), ("for_to_json", "json_to_for_node"), ("if_else_to_json", "json_to_if_else_node"),
         ("while_node_to_json", "json_to_while_node"), ("break_node_to_json", "json_to_break_node"),
         ("continue_node_to_json", "json_to_continue_node"), ("map_to_json", "json_to_map_node"), ("return_node_to_json", "json_to_return_node")]


def empty_sequence(l):
    return [(("f", l, "children_"), ("list", (), "vector")), (("f", l, "transitions_"), ("list", (), "vector"))]


def nodes(rep, fx, acc, rule):
    for w, r in NODES:
        f, e, outs = writer_paths(rep, fx, S + w, rule)
        t = O.base(f["ps"][1]["t"])
        kind = last(t)
        src = ("d", ("p", f["ps"][1]["n"], 1))
        for k, st, v in outs:
            rf = fx.one(S + r)
            par = ("d", ("p", rf["ps"][2]["n"], 2))
            e2, outs2 = reader_paths(rep, fx, S + r, rule, st, e.load(st, JLOC), empty_sequence(par))
            done = [o for o in outs2 if o[0] == "return"]
            rep.count("paths", len(outs2))
            if not done:
                acc("%s: restored" % kind, False, "reading a written %s always fails" % kind)
            for k2, s2, v2 in done:
                made = objects_of(e2, s2, t)
                if len(made) != 1:
                    acc("%s: restored" % kind, False, "reading a written %s creates %d of them" % (kind, len(made)))
                    continue
                whole(e2, s2, made[0], src, fx, t, acc, kind)
                cl, tl = e2.load(s2, ("f", par, "children_")), e2.load(s2, ("f", par, "transitions_"))
                if cl[0] != "list" or tl[0] != "list":
                    acc("%s: appended to its parent" % kind, None, "not recognised")
                    continue
                ok = [plain(x) for x in cl[1]] == [made[0]] and len(tl[1]) == 1
                acc("%s: appended to its parent" % kind, ok, "the parent's children are then %s, with %d transitions" % (show(cl)[:120], len(tl[1])))
                if ok and tl[1][0][0] == "addr":
                    got = e2.load(s2, ("f", tl[1][0][1], "assignments_"))
                    want = ("d", ("p", rf["ps"][3]["n"], 3))
                    acc("%s: assignments after it" % kind, plain(got) == plain(want), "they come back as %s" % show(got)[:160])


VALUES = [("debug_info_to_json", "json_to_debug_info"), ("schedule_type_to_json", "json_to_schedule_type"),
          ("storage_type_to_json", "json_to_storage_type")]


def values(rep, fx, acc, rule):
    for w, r in VALUES:
        f, e, outs = writer_paths(rep, fx, S + w, rule)
        t = O.base(f["ps"][1]["t"])
        kind = last(t)
        src = ("d", ("p", f["ps"][1]["n"], 1))
        for k, st, v in outs:
            e2, outs2 = reader_paths(rep, fx, S + r, rule, st, e.load(st, JLOC))
            rep.count("paths", len(outs2))
            done = [o for o in outs2 if o[0] == "return"]
            if not done:
                acc("%s: restored" % kind, False, "reading a written %s always fails" % kind)
            for k2, s2, v2 in done:
                loc = ("tmp", 0)
                s2.env[loc] = v2
                only = None
                h = ("f", src, "has_")
                if "has_" in fields(fx, t) and s2.truth(("ld", h)) is False:
                    got = e2.load(s2, ("f", loc, "has_"))
                    acc("%s: has" % kind, got == I(0) or same(s2, got, h), "an absent %s comes back as present" % kind)
                    continue
                whole(e2, s2, loc, src, fx, t, acc, kind)


def types(rep, fx, acc, rule):
    f, e, outs = writer_paths(rep, fx, S + "type_to_json", rule)
    kinds = set()
    for k, st, v in outs:
        j = e.load(st, JLOC)
        dyn = [x for x in A.subterms(j) if x[0] == "dyncast"]
        if not dyn:
            acc("a written type", None, "no dynamic type was recognised")
            continue
        t = O.base(dyn[0][1])
        src = ("d", dyn[0])
        kinds.add(t)
        e2, outs2 = reader_paths(rep, fx, S + "json_to_type", rule, st, j)
        rep.count("paths", len(outs2))
        done = [o for o in outs2 if o[0] == "return"]
        if not done:
            acc("%s: restored" % last(t), False, "reading a written %s type always fails" % last(t))
        for k2, s2, v2 in done:
            if not (isinstance(v2, tuple) and v2[0] == "addr") or e2.cls_of(v2[1]) != t:
                got = e2.cls_of(v2[1]) if isinstance(v2, tuple) and v2[0] == "addr" else None
                acc("%s: kind" % last(t), False if got else None, "a %s type comes back as %s" % (last(t), show(v2)))
                continue
            acc("%s: kind" % last(t), True)
            own = [x["n"] for x in (fx.recs.get(t) or {"fields": []})["fields"]]
            skip = [] if last(t) != "Reference" else [x for x in fields(fx, t) if x not in own]
            whole(e2, s2, v2[1], src, fx, t, acc, last(t), skip)
    for t in fx.subclasses("sdfg::types::IType"):
        if not (fx.recs.get(t) or {}).get("abstract"):
            acc("%s: written" % last(t), t in kinds, "no path of type_to_json writes a %s" % last(t))


def constants(rep, fx, rule):
    """Entries with the same constant value on every path of a writer."""
    Eng.consts = {}
    for q, tag in Eng.writers.items():
        if not fx.named(q):
            continue
        f, e, outs = writer_paths(rep, fx, q, rule)
        known = None
        for k, st, v in outs:
            j = e.load(st, JLOC)
            d = {a: b for a, b in (j[2] if j[0] == "rec" else ()) if isinstance(b, tuple) and b and b[0] == "s"}
            known = d if known is None else {a: b for a, b in known.items() if d.get(a) == b}
        Eng.consts[tag] = known or {}


DFN = "sdfg::data_flow::"


def dataflow(rep, fx, acc, rule):
    f, e, outs = writer_paths(rep, fx, S + "dataflow_to_json", rule)
    src = ("d", ("p", f["ps"][1]["n"], 1))
    ns, es = ("f", src, "nodes_"), ("f", src, "edges_")
    kinds = set()
    for k, st, v in outs:
        j = e.load(st, JLOC)
        d = dict(j[2]) if j[0] == "rec" else {}
        nl, el_ = d.get(("s", "nodes")), d.get(("s", "edges"))
        if nl is None or el_ is None or nl[0] != "list" or el_[0] != "list":
            acc("Dataflow: written", None, "not recognised")
            continue
        if nl[1] and el_[1]:
            continue
        e2, outs2 = reader_paths(rep, fx, S + "json_to_dataflow", rule, st, j)
        rep.count("paths", len(outs2))
        done = [o for o in outs2 if o[0] == "return"]
        what = [x for x in nl[1] + el_[1]]
        if not done:
            acc("Dataflow: restored", False, "reading a written dataflow always fails")
        for k2, s2, v2 in done:
            puts = [x for x in after_reader(s2) if x[0] in ("put", "libread")]
            made, keyed = [], {}
            for x in puts:
                if x[0] == "libread":
                    made.append(("nodes_", x[2]))
                    continue
                loc, val = x[1], x[2][-1]
                if isinstance(val, tuple) and val and val[0] == "list" and len(val[1]) == 2:
                    key, val = val[1]
                    if loc[0] == "f" and loc[2] in ("nodes_", "edges_"):
                        made.append((loc[2], plain(val)))
                    else:
                        if isinstance(val, tuple) and val[0] == "rec":
                            val = val[1]
                        if isinstance(val, tuple) and val[0] == "obj" and len(val) == 3:
                            val = val[2]
                        if isinstance(val, tuple) and val[0] == "ref":
                            val = e2.resolve(s2, val[1])
                        keyed[plain(val)] = plain(key)
            nodes_made = [x for fl, x in made if fl == "nodes_"]
            edges_made = [x for fl, x in made if fl == "edges_"]
            restored(rep, fx, acc, e2, s2, st, nl, nodes_made, ns, "node", keyed, kinds)
            restored(rep, fx, acc, e2, s2, st, el_, edges_made, es, "edge", keyed, kinds)
    for t in fx.subclasses(DFN + "DataFlowNode"):
        r = fx.recs.get(t) or {}
        if r.get("abstract") or any(c == DFN + "LibraryNode" for c in [t] + fx.bases(t)) or last(t) == "CodeNode":
            continue
        acc("%s: written" % last(t), t in kinds, "no path of dataflow_to_json writes a node of class %s" % last(t))
    acc("LibraryNode: written", DFN + "LibraryNode" in kinds, "no path of dataflow_to_json writes a library node")


def original(rec, cont):
    """Index of the element of the container whose element id a record carries, and the class it was written as."""
    base, ent = rec, {}
    while isinstance(base, tuple) and base and base[0] == "rec":
        ent.update({k: v for k, v in base[2] if k not in ent})
        base = base[1]
    i = None
    for x in A.subterms(rec):
        if x[0] == "e" and len(x) == 3 and canon(x[1]) == canon(cont):
            i = x[2]
    cls = [O.base(x[1]) for x in A.subterms(rec) if x[0] == "dyncast"]
    return i, cls[0] if cls else None


def restored(rep, fx, acc, e2, s2, st, recs, made, cont, what, keyed, kinds):
    objs = [original(x, cont) for x in recs[1]]
    if any(i is None for i, c in objs):
        acc("Dataflow: every %s written" % what, False, "a %s record says nothing of its %s" % (what, what))
        return
    okc = complete(st, [i for i, c in objs], cont)
    acc("Dataflow: every %s written" % what, okc, "the %s records are written for %s" % (what, ", ".join(show(i) for i, c in objs) or "nothing"))
    if len(made) != len(recs[1]):
        acc("Dataflow: every %s restored" % what, False, "%d %ss are written and %d created" % (len(recs[1]), what, len(made)))
        return
    acc("Dataflow: every %s restored" % what, True)
    for (i, cls), o in zip(objs, made):
        o0 = ("e", cont, i)
        t = e2.cls_of(o)
        if what == "edge":
            for fl in fields(fx, DFN + "Memlet"):
                if fl in SKIP or fl in ("src_", "dst_"):
                    continue
                acc("Memlet: " + fl.rstrip("_").replace("_", " "), same(s2, e2.load(s2, ("f", o, fl)), ("f", o0, fl), e2),
                    "it comes back as %s" % show(e2.load(s2, ("f", o, fl)))[:160])
            for fl in ("src_", "dst_"):
                l = e2.resolve(s2, ("f", o, fl))
                got = [x for x in A.subterms(l) if x[0] == "nodeof"]
                ok = bool(got) and plain(got[0][1]) == plain(("f", ("f", o0, fl), "element_id_"))
                if got and not ok and [x for x in A.subterms(plain(got[0][1])) if x[0] == "call"]:
                    ok = None
                acc("Memlet: " + fl.rstrip("_"), ok if got else None, "the %s of a restored memlet is the node with id %s" % (fl.rstrip("_"), show(got[0][1])[:160] if got else "?"))
            continue
        if cls is None:
            acc("Dataflow: class of a node", None, "not recognised")
            continue
        kinds.add(cls)
        src = ("d", ("dyncast", "const %s *" % cls, ("addr", o0)))
        if t != cls:
            acc("%s: kind" % last(cls), False if t else None, "a %s comes back as %s" % (last(cls), t))
            continue
        acc("%s: kind" % last(cls), True)
        if cls == DFN + "LibraryNode":
            for fl in ("element_id_", "implementation_type_"):
                got = e2.load(s2, ("f", o, fl))
                if fl == "implementation_type_":
                    got = e2.load(s2, ("f", ("f", o, fl), "value_"))
                    acc("LibraryNode: implementation type", same(s2, got, ("f", ("f", src, fl), "value_"), e2), "it comes back as %s" % show(got)[:160])
                    continue
                acc("LibraryNode: " + fl.rstrip("_").replace("_", " "), same(s2, got, ("f", src, fl), e2), "it comes back as %s" % show(got)[:160])
            docs = [x for x in after_reader(s2) if x[0] == "libread" and x[2] == o]
            b = docs[0][1] if docs else None
            while isinstance(b, tuple) and b and b[0] in ("rec", "ld", "d"):
                b = b[1]
            acc("LibraryNode: what its serializer wrote", isinstance(b, tuple) and b[:2] == ("out", "library_node") and plain(b[2]) == plain(src),
                "its serializer is given %s" % show(b)[:160])
        else:
            whole(e2, s2, o, src, fx, cls, acc, last(cls), ("outputs_",))
            if cls == DFN + "Tasklet":
                got = e2.load(s2, ("f", o, "outputs_"))
                ok = got[0] == "list" and [R.elem_of(("ld", plain(x)), canon(("f", src, "outputs_"))) for x in got[1]] == [I(0)]
                acc("Tasklet: outputs", ok, "they come back as %s" % show(got)[:160])
        key = keyed.get(plain(o))
        acc("%s: found by its element id" % last(cls), key == plain(("f", src, "element_id_")) if key is not None else False,
            "it is entered under %s" % (show(key)[:160] if key is not None else "no id"))


COLL = ["structures", "containers", "arguments", "externals", "metadata"]


def document(rep, fx, acc, rule):
    f, e, outs = writer_paths(rep, fx, S + "serialize", rule)
    src = ("d", ("p", f["ps"][0]["n"], 0))
    T = "sdfg::StructuredSDFG"
    seen = {x: 0 for x in COLL}
    for k, st, v in outs:
        d = dict(v[2]) if isinstance(v, tuple) and v and v[0] == "rec" else {}
        size = lambda x: len(x[2]) if x[0] == "rec" else len(x[1]) if x[0] == "list" else None
        n = {x: size(d[("s", x)]) if ("s", x) in d else None for x in COLL}
        if None in n.values():
            acc("SDFG: written", None if d else None, "%s not recognised" % ", ".join(x for x in COLL if n[x] is None))
            continue
        full = [x for x in COLL if n[x]]
        if len(full) > 1:
            continue
        for x in full:
            seen[x] += 1
        doc = v
        sym = ("ld", ("p", "CONTAINERS", 99))
        if full and full[0] in ("arguments", "externals"):
            doc = ("rec", v[1], tuple({**d, ("s", "containers"): sym}.items()))
        e2, outs2 = reader_paths(rep, fx, S + "deserialize", rule, st, doc)
        rep.count("paths", len(outs2))
        done = [o for o in outs2 if o[0] == "return"]
        if not done:
            acc("SDFG: restored", False, "reading a written SDFG always fails")
        for k2, s2, v2 in done:
            made = objects_of(e2, s2, T)
            if len(made) != 1:
                acc("SDFG: restored", False if made else None, "reading a written SDFG creates %d of them" % len(made))
                continue
            o = made[0]
            got = {x: e2.load(s2, ("f", o, x)) for x in fields(fx, T)}
            say = lambda x: "it comes back as %s" % show(got[x])[:160]
            for x in ("name_", "element_counter_", "return_type_"):
                acc("SDFG: " + x.rstrip("_").replace("_", " "), same(s2, got[x], ("f", src, x), e2), say(x))
            acc("SDFG: type", enum_same(e2, s2, ("f", o, "type_"), ("f", src, "type_")), say("type_"))
            rd = ev_reads(s2)
            roots = [x for x in rd if x[1] == "sequence_to_json" and any(l is not None and plain(l) == plain(got["root_"]) for l in x[3])]
            acc("SDFG: root", len(roots) == 1 and plain(("copy", "sequence_to_json", roots[0][2])) == ("ld", plain(("f", src, "root_"))) or
                len(roots) == 1 and plain(("copy", "sequence_to_json", roots[0][2])) == plain(("f", src, "root_")), "the root is filled from %s" % (show(roots[0][2])[:160] if roots else "nothing"))
            acc("SDFG: metadata", same(s2, got["metadata_"], ("f", src, "metadata_"), e2), say("metadata_"))
            names = ("f", src, full[0] + "_") if full else None
            for x in ("arguments", "externals"):
                acc("SDFG: %s in order" % x, same(s2, got[x + "_"], ("f", src, x + "_"), e2), say(x + "_"))
            if full and full[0] in ("arguments", "externals"):
                ps = pairs(got["containers_"])
                own = [(a, b) for a, b in ps or () if R.elem_of(("ld", plain(a)), canon(names)) is not None]
                acc("SDFG: %s are containers" % full[0], len(own) == n[full[0]] if ps is not None else None,
                    "%d of %d %s become containers" % (len(own), n[full[0]], full[0]))
                for a, b in own:
                    ks = [y for y in A.subterms(b) if len(y) == 3 and y[0] in ("e", "idx") and y[1] in (sym, sym[1])]
                    acc("SDFG: type of %s" % full[0], all(plain(y[2]) == plain(a) for y in ks) if ks else False, "an entry of %s gets the type %s" % (full[0], show(b)[:160]))
            if full == ["externals"]:
                ps = pairs(got["externals_linkage_types_"])
                for a, b in ps or ():
                    y = plain(b)
                    ok = isinstance(y, tuple) and len(y) == 3 and y[0] in ("e", "idx") and plain(y[1]) == plain(("f", src, "externals_linkage_types_")) and plain(y[2]) == plain(a)
                    acc("SDFG: linkage of externals", ok, "%s gets linkage %s" % (show(a)[:80], show(b)[:160]))
                acc("SDFG: linkage of externals", ps is not None and len({plain(a) for a, b in ps}) == n["externals"], "linkage types: %s" % say("externals_linkage_types_"))
            if full == ["containers"] or not full:
                keyed(acc, "SDFG: containers", e2, s2, pairs(got["containers_"]), ("f", src, "containers_"))
            if full == ["structures"] or not full:
                sd = [x for x in rd if x[1] == "structure_definition_to_json"]
                prs = []
                for x in sd:
                    y = plain(("copy", x[1], x[2]))
                    prs.append((y[2] if len(y) == 3 and y[0] in ("e", "idx") else y, y))
                keyed(acc, "SDFG: structures", e2, s2, prs, ("f", src, "structures_"))
    for x in COLL:
        acc("SDFG: %s written" % x, seen[x] > 0, "no path writes %s" % x)
    f, e, outs = writer_paths(rep, fx, S + "structure_definition_to_json", rule)
    src = ("d", ("p", f["ps"][1]["n"], 1))
    T = O.base(f["ps"][1]["t"])
    for k, st, v in outs:
        e2, outs2 = reader_paths(rep, fx, S + "json_to_structure_definition", rule, st, e.load(st, JLOC))
        done = [o for o in outs2 if o[0] == "return"]
        rep.count("paths", len(outs2))
        if not done:
            acc("StructureDefinition: restored", False, "reading a written structure always fails")
        for k2, s2, v2 in done:
            made = objects_of(e2, s2, T)
            if len(made) != 1:
                acc("StructureDefinition: restored", False if made else None, "%d structures are created" % len(made))
                continue
            whole(e2, s2, made[0], src, fx, T, acc, last(T))
            puts = [x for x in after_reader(s2) if x[0] == "put" and x[1][-1] == "structures_"]
            p = pairs(("mut", "insert", ("list", (), ""), puts[0][2])) if len(puts) == 1 else None
            acc("StructureDefinition: entered by name", p is not None and len(p) == 1 and plain(p[0][1]) == made[0] and plain(p[0][0]) == plain(("f", src, "name_")),
                "it is entered as %s" % (show(p[0][0])[:120] if p else "nothing"))


def keyed(acc, what, e2, s2, ps, cont):
    """ps are exactly the entries (key, value) of the map at cont."""
    if ps is None:
        acc(what, None, "not recognised")
        return
    idxs = []
    for a, b in ps:
        i = R.elem_of(("ld", plain(a)), canon(cont))
        y = plain(b)
        if i is None or not (isinstance(y, tuple) and len(y) == 3 and y[0] in ("e", "idx") and plain(y[1]) == plain(cont) and plain(y[2]) == plain(a)):
            acc(what, False, "entry %s comes back as %s" % (show(a)[:80], show(b)[:160]))
            return
        idxs.append(i)
    acc(what, complete(s2, idxs, cont), "only %s come back" % (", ".join(show(i) for i in idxs) or "none"))


def enum_same(e, st, loc, src):
    """A string-valued enumeration object equals the original, directly or by a comparison made on the path."""
    v = e.load(st, loc)
    want = plain(("f", src, "value_"))
    if isinstance(v, tuple) and v[:1] == ("g",):
        for k, t in st.facts.items():
            if k[0] == "eq0" and t is True and k[2:] in ((0,), ()):
                ts = [x for x, c in k[1]]
                if len(ts) == 2 and any(plain(x) == want for x in ts) and any(v in list(A.subterms(x)) for x in ts):
                    return True
        return False
    return same(st, e.load(st, ("f", loc, "value_")), ("f", src, "value_"), e)


def ev_reads(st):
    return [x for x in after_reader(st) if x[0] == "read"]


def el(src, f, i):
    return ("e", ("f", src, f), i)


def index_of(v, src):
    return R.elem_of(("ld", plain(v)), canon(src))


def sequences(rep, fx, acc, rule):
    f, e, outs = writer_paths(rep, fx, S + "sequence_to_json", rule)
    src = ("d", ("p", f["ps"][1]["n"], 1))
    ch, tr = ("f", src, "children_"), ("f", src, "transitions_")
    rf = fx.one(S + "json_to_sequence")
    dst = ("d", ("p", rf["ps"][2]["n"], 2))
    kinds = set()
    for k, st, v in outs:
        j = dict(e.load(st, JLOC)[2])
        cs = j.get(("s", "children"))
        if cs is None or cs[0] != "list":
            acc("Sequence: children", None, "not recognised")
            continue
        tags = [x[1] if x[0] == "out" else "?" for x in cs[1]]
        kinds |= set(tags)
        tj = j.get(("s", "transitions"))
        if len(tags) == 2 and (tags[0] == tags[1] or any(x[0] == "rec" and dict(x[2]).get(("s", "assignments")) != ("list", (), "json")
                                                          for x in (tj[1] if tj and tj[0] == "list" else ()))):
            continue
        e2, outs2 = reader_paths(rep, fx, S + "json_to_sequence", rule, st, e.load(st, JLOC),
                                 empty_sequence(dst))
        rep.count("paths", len(outs2))
        done = [o for o in outs2 if o[0] == "return"]
        if not done:
            acc("Sequence: restored", False, "reading a written Sequence always fails")
        for k2, s2, v2 in done:
            for fl in ("element_id_", "debug_info_"):
                ok = same(s2, e2.load(s2, ("f", dst, fl)), ("f", src, fl))
                acc("Sequence: " + fl.rstrip("_").replace("_", " "), ok, "it comes back as %s" % show(e2.load(s2, ("f", dst, fl))))
            cl, tl = e2.load(s2, ("f", dst, "children_")), e2.load(s2, ("f", dst, "transitions_"))
            if cl[0] != "list" or tl[0] != "list":
                acc("Sequence: children in order", None, "the children read back are %s" % show(cl)[:200])
                continue
            if len(cl[1]) != len(tl[1]):
                acc("Sequence: one transition per child", False, "%d children and %d transitions are read back" % (len(cl[1]), len(tl[1])))
                continue
            acc("Sequence: one transition per child", True)
            idxs, why = [], ""
            for x in cl[1]:
                y = x
                if x[0] != "copy":
                    r = read_into(s2, x)
                    y = ("copy",) + r if r is not None else x
                i = index_of(y, ch)
                if i is None:
                    why = show(y)[:120]
                idxs.append(i)
            good = False
            if None not in idxs:
                oks = [complete(s2, idxs, y) for y in (ch, tr)]
                good = True if True in oks else False if False in oks else None
            acc("Sequence: children in order", good, "the children read back are %s" % (why or show(cl)[:200]))
            if good is not True:
                continue
            for i, x in zip(idxs, tl[1]):
                t = x[1] if x[0] == "addr" else None
                o = ("d", ("ld", ("e", tr, i)))
                for fl in ("assignments_", "element_id_", "debug_info_"):
                    got = e2.load(s2, ("f", t, fl)) if t is not None else None
                    acc("Transition: " + fl.rstrip("_").replace("_", " "), same(s2, got, ("f", o, fl)) if got is not None else None,
                        "the %s of the transition after a child come back as %s" % (fl.rstrip("_").replace("_", " "), show(got)[:160]))
    for t in fx.subclasses("sdfg::structured_control_flow::ControlFlowNode"):
        r = fx.recs.get(t) or {}
        if r.get("abstract") or fx.subclasses(t):
            continue
        acc("%s: written as a child" % last(t), bool(WKIND(fx, t) & kinds), "no path of sequence_to_json writes a child %s" % last(t))


KINDTAGS = {w for w, r in NODES} | {"sequence_to_json"}


def WKIND(fx, t):
    out = set()
    for w in KINDTAGS:
        for f in fx.named(S + w):
            if O.base(f["ps"][1]["t"]) == t:
                out.add(w)
    return out


# ------------------------------------------------------------------ G01
def facts(rep):
    fs = [SRC, "sdfg/src/codegen/utils.cpp", "sdfg/src/builder/structured_sdfg_builder.cpp", "sdfg/src/builder/function_builder.cpp",
          "sdfg/src/element.cpp", "sdfg/src/function.cpp", "sdfg/src/structured_sdfg.cpp"]
    fs += ["sdfg/src/types/%s.cpp" % x for x in TYPES]
    fs += ["sdfg/src/structured_control_flow/%s.cpp" % x for x in
           "block sequence if_else while for map return control_flow_node structured_loop".split()]
    fs += ["sdfg/src/data_flow/%s.cpp" % x for x in
           "access_node code_node data_flow_graph data_flow_node library_node memlet tasklet".split()]
    fs = [f for f in fs if f == SRC or os.path.exists(os.path.join(cxx.REPO, f))]
    rep.files |= set(fs)
    return cxx.load(fs)


def stage(rep, fx, rule, method, fs):
    rep.rule(rule, method)
    acc = Acc(rep, rule)
    for f in fs:
        try:
            f(rep, fx, acc, rule)
        except (A.Undecided, cxx.AnalysisError) as x:
            rep.undecided(rule, f.__name__, str(x))
    acc.done()


def g01(rep):
    fx = facts(rep)
    for q in (S + "serialize", S + "deserialize"):
        rep.need(fx.named(q), q)
    try:
        constants(rep, fx, "constant entries")
    except cxx.AnalysisError as x:
        Eng.consts = {}
    m = "abstract interpretation of the writer into a symbolic document, then of the reader on that document; every field of the rebuilt object compared with the original's"
    stage(rep, fx, "types and attributes survive a write and a read", m, (types, values))
    stage(rep, fx, "control-flow nodes survive a write and a read", m, (nodes, sequences))
    stage(rep, fx, "data-flow graphs survive a write and a read", m, (dataflow,))
    stage(rep, fx, "the whole document survives a write and a read", m, (document,))


CHECKS = {"G01": g01}
