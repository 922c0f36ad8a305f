"""G02/G03: library nodes through their serializers; copies made by clone(), the builder and the deep copy."""
import glob
import multiprocessing as mp
import os

from lib import absint as A, cxx, objects as O, rules as R
from lib.absint import I, last, show
from checks.instr import Acc
from checks import serial as SR

B = "sdfg::serializer::LibraryNodeSerializer"
LN = "sdfg::data_flow::LibraryNode"
MAIN = "sdfg/src/serializer/json_serializer.cpp"


def walk(n):
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from walk(v)
    elif isinstance(n, list):
        for v in n:
            yield from walk(v)


# printer/parser pairs of enumerations, each decided on its own (see names())
NAMES = {"sdfg::math::cmath::cmath_function_to_stem": "cmath", "sdfg::types::primitive_type_to_string": "primitive"}
PARSE = {"sdfg::math::cmath::string_to_cmath_function": "cmath", "sdfg::types::primitive_type_from_string": "primitive"}


class LEng(SR.Eng):
    limit = 120.0

    def follow(self, fn):
        return fn["q"] not in NAMES and fn["q"] not in PARSE and super().follow(fn)

    def store(self, st, loc, val, node=None, quiet=False):
        loc = self.resolve(st, loc)
        if loc[0] == "e" and isinstance(loc[2], tuple) and loc[2][:1] == ("i",):
            v = st.env.get(loc[1])
            if isinstance(v, tuple) and v and v[0] == "list" and v[2] != "json" and 0 <= loc[2][1] < len(v[1]):
                x = list(v[1])
                x[loc[2][1]] = val
                super().store(st, loc[1], ("list", tuple(x), v[2]), node, quiet)
                return
        super().store(st, loc, val, node, quiet)

    def on_call(self, st, node, q, rl, rv, args, an):
        if q in NAMES and len(args) == 1:
            return [(st, ("out", NAMES[q], args[0]))]
        if q in PARSE and len(args) == 1:
            x = SR.unint(args[0])
            if isinstance(x, tuple) and x and x[0] == "out" and x[1] == PARSE[q]:
                return [(st, x[2])]
        if last(q) == "base64_encode" and len(args) == 2:
            l = base_of(args[0], "data")
            if l is not None and l == base_of(args[1], "size"):
                return [(st, ("out", "base64", l))]
        if last(q) == "base64_decode" and len(args) == 1:
            x = SR.unint(args[0])
            if isinstance(x, tuple) and x and x[:2] == ("out", "base64"):
                return [(st, x[2])]
        if last(q) == "string" and "path" in q and not args and rv is not None:
            return [(st, ("cast", "std::string", rv))]
        if last(q) == "resize" and len(args) == 1 and isinstance(rv, tuple) and rv and rv[0] == "list" and rl is not None \
                and isinstance(args[0], tuple) and args[0][0] == "i" and 0 <= args[0][1] <= 8:
            n = args[0][1]
            self.store(st, rl, ("list", (rv[1] + tuple(("ctor", "", ()) for _ in range(n)))[:n], rv[2]), node, quiet=True)
            return [(st, ("void",))]
        if q == "std::vector::ctor" and len(args) >= 2 and isinstance(args[1], tuple) and args[1][:1] == ("end",):
            x = base_of(args[0], "begin")
            if x is None and isinstance(args[0], tuple) and args[0][:1] == ("begin",):
                x = self.load(st, args[0][1])
            if x is not None and x == self.load(st, args[1][1]):
                return [(st, x)]
        if last(q) in ("operator==", "operator!=") and "json" not in q:
            args = [SR.unint(a) for a in args]
            rv = SR.unint(rv)
            x = st.env.get(rl) if rl is not None else None
            if isinstance(x, tuple) and x and x[0] == "jget":
                st.env[rl] = SR.unint(x)
        return super().on_call(st, node, q, rl, rv, args, an)

    def unjson(self, t, v):
        x = super().unjson(t, v)
        return v if isinstance(v, tuple) and v[:1] == ("ld",) and "basic_string" in t and x == ("jget", t, v) else x


def base_of(v, name):
    return v[2] if isinstance(v, tuple) and v and v[0] == "call" and last(v[1]) == name and not v[3] else None


def norm(v):
    """Normal form in which a value and its copy through JSON or clone() agree."""
    v = SR.plain(v)
    if not isinstance(v, tuple):
        return v
    if v and v[0] == "rec" and isinstance(v[1], tuple) and v[1][:1] == ("obj",) and len(v[1]) == 3 and v[1][1] == "sdfg::StringEnum":
        d = dict(v[2])
        if set(d) == {"value_"}:
            x = norm(d["value_"])
            return norm(x[1]) if isinstance(x, tuple) and x and x[0] in ("fld", "f") and x[2] == "value_" else ("strenum", x)
    if v and v[0] == "rec" and isinstance(v[1], tuple) and v[1][:1] == ("list",):
        x = list(v[1][1])
        if all(isinstance(k, tuple) and k[:1] == ("i",) and k[1] < len(x) for k, y in v[2]):
            for k, y in v[2]:
                x[k[1]] = y
            v = ("list", tuple(x))
    if v and v[0] == "list":
        return ("list", tuple(norm(x) for x in v[1]))
    if v and v[0] == "call" and (v[1].startswith("sdfg::symbolic::") or v[1] == "std::to_string"):
        v = v[:4] + (0,)
    return tuple(norm(x) if isinstance(x, tuple) else x for x in v)


WIDE = ("long", "size_t", "int64_t", "uint64_t", "unsigned long", "ptrdiff_t")


def cut(decl, got):
    """A value of a 64-bit field that went through a narrower type on its way."""
    t = decl.replace("const ", "")
    if O.base(t) not in WIDE and not any("vector<" in t and w in t for w in WIDE[:5]):
        return None
    todo = [got]
    while todo:
        x = todo.pop()
        while isinstance(x, tuple) and x:
            if x[0] in ("jget", "cast"):
                e = O.tmpl_args(x[1])[0] if "vector<" in x[1] else x[1]
                if SR.narrow(e):
                    return e
                x = x[2]
            elif x[0] == "list":
                todo += x[1]
                break
            else:
                break
    return None


def compare(acc, inst, fx, e, st, a, b, decl, single=False, doc=()):
    """Field value b of the copy against a of the original."""
    if O.base(decl) in fx.enums:
        a, b = SR.unint(a), SR.unint(b)
    w = cut(decl, b)
    if w:
        acc(inst, False, "it goes through the narrower type %s" % w)
        return
    na, nb = norm(a), norm(b)
    ok = na == nb
    if not ok and single and isinstance(nb, tuple) and nb[:1] == ("list",) and len(nb[1]) == 1:
        x = nb[1][0]
        ok = isinstance(na, tuple) and na[:1] == ("list",) and len(na[1]) > 1 and x == na[1][0] or \
            isinstance(x, tuple) and len(x) == 3 and x[0] in ("e", "idx") and x[2] == I(0) and norm(x[1]) in (na, norm(a[1]) if a[0] == "ld" else na)
    if not ok and isinstance(b, tuple) and b[:1] == ("addr",) and e.cls_of(b[1]) in fx.recs and e.cls_of(b[1]) != O.base(decl):
        t = e.cls_of(b[1])
        srcs = [x for x in A.subterms(doc) if x[0] == "dyncast" and O.base(x[1]) == t and norm(x[2]) == na]
        if not srcs:
            acc(inst, None if not any(x[0] == "dyncast" for x in A.subterms(doc)) else False, "it comes back as a %s" % last(t))
            return
        for fl, d in decls(fx, t).items():
            compare(acc, "%s (%s %s)" % (inst, last(t), fl.rstrip("_").replace("_", " ")), fx, e, st, ("ld", ("f", ("d", srcs[0]), fl)),
                    e.load(st, ("f", b[1], fl)), d)
        return
    if not ok:
        src = a[1] if isinstance(a, tuple) and a and a[0] == "ld" else None
        ok = SR.same(st, b, src, e) if src is not None else None if has_call(nb) or has_call(na) else False
        if ok is False and nb in (I(0), I(1)) and st.truth(a) is not None:
            ok = st.truth(a) is bool(nb[1])
        if ok is False and (opaque(nb) or opaque(na)):
            ok = None
        if ok is None and closed(nb) and a[0] in ("ld", "p", "param", "sym") and not any(a in A.subterms(f) for f in st.facts):
            ok = False
    acc(inst, ok, "%s comes back as %s" % (show(na)[:140], show(nb)[:200]))


def closed(t):
    """A term that depends on nothing: constants and functions of constants."""
    return isinstance(t, tuple) and bool(t) and (t[0] == "i" or t[0] == "call" and t[1].startswith("sdfg::symbolic::") and not t[2]
                                                 and all(closed(x) for x in t[3]))


def has_call(t):
    return any(x[0] in ("call", "mut", "phi") for x in A.subterms(t)) if isinstance(t, tuple) else False


def opaque(t):
    return any(x[0] in ("phi",) for x in A.subterms(t)) if isinstance(t, tuple) else False


def ctors(fx, t):
    return sorted((g for g in fx.fns.values() if g.get("ctor") and g.get("cls") == t and g.get("body") and not g.get("dep")
                   and not (len(g["ps"]) == 1 and O.base(g["ps"][0]["t"]) == t)), key=lambda g: -len(g["ps"]))


def is_vec(t):
    b = O.base(t)
    return b.startswith("std::vector<") or b in ("sdfg::symbolic::MultiExpression",)


def originals(fx, t, g, lens=None, fixed=None):
    """Symbolic instances of t as constructor g leaves them; lens: lengths of its vector parameters (None: unknown)."""
    e = LEng(fx)
    loc = ("o", 1, t)
    st = A.St()
    args = []
    k = 0
    for i, p in enumerate(g["ps"]):
        if fixed and i in fixed:
            args.append(fixed[i])
        elif lens is not None and is_vec(p["t"]):
            v = ("list", tuple(("ld", ("e", ("p", p["n"], i), I(j))) for j in range(lens[k])), O.base(p["t"]))
            k += 1
            if p["t"].endswith("&"):
                l = ("d", ("p", p["n"] or str(i), i))
                st.env[l] = v
                args.append(None)
            else:
                args.append(v)
        else:
            args.append(None)
    outs = e.run(g, this=("addr", loc), args=args, st=st)
    return e, loc, [s for k, s, v in outs if k == "return"]


def shapes(n):
    """Length assignments of n vector parameters."""
    if n == 0:
        return []
    out = [[k] * n for k in (0, 1, 2, 3)]
    for i in range(n):
        for k in (0, 3):
            x = [2] * n
            x[i] = k
            if x not in out:
                out.append(x)
    return out


def nonempty(d):
    if d[0] != "rec":
        return 0
    return sum(1 for k, x in d[2] if isinstance(x, tuple) and x and x[0] == "list" and x[1])


SKIP = {"vertex_", "parent_", "element_id_", "implementation_type_"}


def decls(fx, t):
    return {f["n"]: f["t"] for c in [t] + fx.bases(t) for f in (fx.recs.get(c) or {"fields": []})["fields"] if not f.get("static")}


class Sure:
    """Passes on decided verdicts only (the general run of a class that is also run in each of its special shapes)."""

    def __init__(self, acc, rep):
        self.acc, self.rep = acc, rep

    def __call__(self, inst, verdict, detail=""):
        if verdict is None:
            self.rep.count("general paths decided by their special shapes only")
        else:
            self.acc(inst, verdict, detail)


def roundtrip(fx, ser, des, t, acc0, rep):
    name = last(t)
    dd = decls(fx, t)
    for g in ctors(fx, t)[:3]:
        if len(g["ps"]) < 4:
            continue
        nv = sum(is_vec(p["t"]) for p in g["ps"])
        modes = [(None, None)] + [(x, None) for x in shapes(nv)]
        for i, p in enumerate(g["ps"]):
            if nv == 0 and O.base(p["t"]) in fx.enums:
                modes += [(None, {i: I(v)}) for _, v in fx.enums[O.base(p["t"])]["consts"]]
        for lens, fixed in modes:
            acc = acc0 if len(modes) == 1 or lens is not None or fixed else Sure(acc0, rep)
            try:
                e, loc, sts = originals(fx, t, g, lens, fixed)
            except A.Undecided as x:
                acc("%s: restored" % name, None, str(x))
                continue
            rep.fns |= e.funcs
            for s in sts:
                e1 = LEng(fx)
                e1.seq = 3000
                try:
                    o1 = e1.run(ser, args=[("ref", loc)], st=s.fork())
                except A.Undecided as x:
                    acc("%s: restored" % name, None, str(x))
                    continue
                rep.fns |= e1.funcs
                docs = [(s2, d) for k1, s2, d in o1 if k1 == "return"]
                if not docs and not fixed:
                    acc("%s: written" % name, False, "serialising a %s always fails" % name)
                for s2, d in docs:
                    if lens is None and nv and nonempty(d) > 1 or not (isinstance(d, tuple) and d and d[0] == "rec"):
                        if not (isinstance(d, tuple) and d and d[0] == "rec"):
                            acc("%s: written" % name, None, "not recognised")
                        continue
                    acc("%s: written" % name, True)
                    back(fx, e1, s2, d, des, t, loc, dd, acc, rep, name, lens)


def back(fx, e1, s2, d, des, t, loc, dd, acc, rep, name, lens):
    own = (("element_id", ("ld", ("f", loc, "element_id_"))), ("type", ("s", "library_node")),
           ("implementation_type", e1.load(s2, ("f", ("f", loc, "implementation_type_"), "value_"))),
           ("debug_info", ("out", "debug_info_to_json", ("obj", ("f", loc, "debug_info_")))))
    keys = {k for k, x in d[2]}
    for k, x in own:
        if ("s", k) in keys and dict(d[2])[("s", k)] != x and k != "implementation_type":
            y = dict(d[2])[("s", k)]
            if norm(y) != norm(x):
                acc("%s: entry '%s'" % (name, k), None if has_call(y) else False, "the serializer replaces it by %s" % show(y)[:160])
    code = norm(dict(d[2]).get(("s", "code"), ("none",)))
    want = norm(e1.load(s2, ("f", ("f", loc, "code_"), "value_")))
    acc("%s: code written" % name, norm(code) == norm(want), "the document says code = %s, the node has %s" % (show(code)[:120], show(want)[:120]))
    doc = ("rec", d[1], tuple((("s", k), x) for k, x in own if ("s", k) not in keys) + tuple(d[2]))
    e2 = LEng(fx)
    e2.seq = 6000
    s3 = s2.fork()
    s3.emit("reader")
    s3.env[("d", ("p", des["ps"][0]["n"], 0))] = doc
    try:
        o2 = e2.run(des, st=s3)
    except A.Undecided as x:
        acc("%s: restored" % name, None, str(x))
        return
    rep.fns |= e2.funcs
    rep.count("paths", len(o2))
    done = [o for o in o2 if o[0] == "return"]
    if not done:
        if lens is None and any(isinstance(x, tuple) and x[:1] == ("list",) for k, x in d[2]):
            rep.count("paths of unknown list length without an outcome")
            return
        acc("%s: restored" % name, False, "reading a written %s always fails" % name)
        return
    for k2, s4, v2 in done:
        made = [l for l in SR.objects_of(e2, s4, t) if l != loc]
        if len(made) != 1:
            acc("%s: restored" % name, None if made else False, "%d objects of class %s are created" % (len(made), name))
            continue
        acc("%s: restored" % name, True)
        for fl in SR.fields(fx, t):
            if fl in SKIP:
                continue
            a, b = e2.load(s4, ("f", loc, fl)), e2.load(s4, ("f", made[0], fl))
            if fl == "debug_info_":
                a = ("obj", ("f", loc, fl))
            compare(acc, "%s: %s" % (name, fl.rstrip("_").replace("_", " ")), fx, e2, s4, a, b, dd.get(fl, ""), fl == "outputs_" and any(last(c) == "TensorNode" for c in fx.bases(t)), doc)


def created(des):
    return sorted({O.base((n.get("ta") or ["?"])[0]) for n in walk(des["body"])
                   if n.get("k") == "call" and last(n.get("q") or "") == "add_library_node"})


def serializers(fx):
    out = {}
    for f in fx.fns.values():
        if f.get("dep") or B not in fx.bases(f.get("cls") or ""):
            continue
        if last(f["q"]) in ("serialize", "deserialize"):
            out.setdefault(f["q"].rsplit("::", 1)[0], {})[last(f["q"])] = f
    return out


_FX = None


class Lite:
    """Picklable part of a report, filled in by a worker process."""

    def __init__(self):
        self.fns, self.stats = set(), {}

    def count(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n


class Box:
    def __init__(self):
        self.calls = []

    def __call__(self, inst, verdict, detail=""):
        self.calls.append((inst, verdict, detail))


def work(job):
    import sys
    sys.setrecursionlimit(20000)
    fn, key = job
    lite, box = Lite(), Box()
    try:
        fn(_FX, key, box, lite)
    except (A.Undecided, cxx.AnalysisError) as x:
        box(str(key), None, str(x))
    seen = {}
    for i, v, d in box.calls:
        k = (i, v)
        if k in seen:
            seen[k][3] += 1
        else:
            seen[k] = [i, v, d, 1]
    return list(seen.values()), lite


def pool(rep, fx, acc, fn, keys):
    global _FX
    _FX = fx
    with mp.get_context("fork").Pool(8) as p:
        for calls, lite in p.imap_unordered(work, [(fn, k) for k in keys], chunksize=1):
            for i, v, d, n in calls:
                for _ in range(n):
                    acc(i, v, d)
            rep.fns |= lite.fns
            for k, n in lite.stats.items():
                rep.count(k, n)


def one_serializer(fx, key, acc, rep):
    x = serializers(fx)[key]
    des = x.get("deserialize")
    ser = x.get("serialize")
    ts = created(des) if des else []
    if not des or not ser or len(ts) != 1:
        acc(last(key), None, "not recognised")
        return
    roundtrip(fx, ser, des, ts[0], acc, rep)


def facts(rep, copies=False):
    fs = [MAIN, "sdfg/src/element.cpp"]
    fs += sorted(os.path.relpath(f, cxx.REPO) for f in glob.glob(cxx.REPO + "/sdfg/src/data_flow/**/*.cpp", recursive=True))
    fs += ["sdfg/src/types/%s.cpp" % x for x in SR.TYPES]
    fs += ["sdfg/src/types/utils.cpp", "sdfg/src/types/type.cpp"]
    if copies:
        fs += ["sdfg/src/builder/structured_sdfg_builder.cpp", "sdfg/src/structured_sdfg.cpp", "sdfg/src/function.cpp"]
        for x in ("deepcopy", "structured_control_flow"):
            fs += sorted(os.path.relpath(f, cxx.REPO) for f in glob.glob(cxx.REPO + "/sdfg/src/%s/*.cpp" % x))
    fs = [f for f in fs if os.path.exists(os.path.join(cxx.REPO, f))]
    rep.files |= set(fs)
    return cxx.load(fs)


def registrations(fx):
    """(code global, serializer class) of every registration."""
    f = fx.one("sdfg::serializer::register_default_serializers")
    out = []
    for n in walk(f["body"]):
        if n.get("k") == "call" and last(n.get("q") or "") == "register_library_node_serializer":
            code = [x["q"] for x in walk(n["a"][0]) if x.get("k") == "ref" and "LibraryNodeType" in (x.get("q") or "")]
            mk = [(x.get("ta") or ["?"])[0] for x in walk(n["a"][1]) if x.get("k") == "call" and last(x.get("q") or "") in ("make_unique", "make_shared")]
            mk += [x["t"] for x in walk(n["a"][1]) if x.get("k") == "new"]
            out.append((code[0] if len(code) == 1 else None, O.base(mk[0]) if len(mk) == 1 else None, n))
    return out


def names(fx, key, acc, rep):
    pq, rq = key
    pf, rf = fx.one(pq), fx.one(rq)
    en = fx.enums[O.base(pf["ps"][0]["t"])]
    got = {}
    for n, v in en["consts"]:
        e = SR.Eng(fx)
        outs = e.run(pf, args=[I(v)])
        rep.fns |= e.funcs
        s = {x[1][1] for x in [(k, SR.unint(w)) for k, _, w in outs if k == "return"] if isinstance(x[1], tuple) and x[1][:1] == ("s",)}
        if not [o for o in outs if o[0] == "return"]:
            continue
        inst = "%s: %s" % (last(en["q"]), n)
        if len(s) != 1:
            acc(inst, None, "its name is not recognised")
            continue
        s = s.pop()
        e = SR.Eng(fx)
        outs = e.run(rf, args=[("ref", ("t", ("s", s))) if rf["ps"][0]["t"].endswith("&") else ("s", s)])
        rep.fns |= e.funcs
        vals = {lookup(w) for k, _, w in outs if k == "return"}
        if None in vals:
            acc(inst, None, "what '%s' names is not recognised" % s)
        elif not vals:
            acc(inst, False, "'%s' is not accepted when read back" % s)
        else:
            acc(inst, vals == {v}, "'%s' is read back as %s" % (s, ", ".join(dict((b, a) for a, b in en["consts"]).get(x, str(x)) for x in sorted(vals))))


def lookup(v):
    v = SR.unint(v)
    if isinstance(v, tuple) and v and v[0] == "i":
        return v[1]
    if isinstance(v, tuple) and v and v[0] in ("idx", "f", "fld", "ld"):
        for t in A.subterms(v):
            if t[0] == "ctor" and "map" in t[1] and t[2] and t[2][0][0] == "list":
                strs = {x[1] for x in A.subterms(v[2]) if x[0] == "s"} if v[0] == "idx" and isinstance(v[2], tuple) else set()
                if len(strs) != 1:
                    return None
                hits = [SR.unint(e[1][1]) for e in t[2][0][1] if e[0] == "list" and SR.unint(e[1][0]) == ("s", list(strs)[0])]
                if len(hits) >= 1 and hits[0][0] == "i":
                    return hits[0][1]
    return None


def one_name(fx, key, acc, rep):
    names(fx, key, acc, rep)


def registered(rep, fx, acc):
    regs = registrations(fx)
    codes = {}
    ss = serializers(fx)
    sc = {}
    for k in ss:
        sc.setdefault(O.base(k), k)
    for code, cls, n in regs:
        if code is None or cls is None:
            acc("a registration", None, "not recognised")
            continue
        codes.setdefault(code, cls)           # a second registration of a code is ignored
    rep.count("registrations", len(regs))
    own = {}
    for t in sorted(fx.subclasses(LN)):
        if (fx.recs.get(t) or {}).get("abstract"):
            continue
        for g in ctors(fx, t)[:1]:
            for s in originals(fx, t, g)[2][:1]:
                e = LEng(fx)
                c = norm(e.load(s, ("f", ("o", 1, t), "code_")))
                own[t] = c[1] if isinstance(c, tuple) and c[:1] == ("g",) else None
    for t, c in own.items():
        if c is None:
            acc("%s has a registered serializer" % last(t), None, "its code is not recognised")
            continue
        cls = codes.get(c)
        if cls is None:
            acc("%s has a registered serializer" % last(t), False, "no serializer is registered for %s" % last(c))
            continue
        k = [k for k in ss if O.base(k) == cls or k == cls]
        des = ss[k[0]].get("deserialize") if len(k) == 1 else None
        if des is None:
            acc("%s has a registered serializer" % last(t), None, "%s not recognised" % cls)
            continue
        acc("%s has a registered serializer" % last(t), created(des) == [t], "the serializer registered for %s creates a %s" % (
            last(c), ", ".join(last(x) for x in created(des))))


def g02(rep):
    fx = facts(rep)
    m = "abstract interpretation of the node's constructor, then serialize(), then deserialize() on the symbolic document; every field of the rebuilt node compared with the original"
    r = "every library node survives its serializer"
    rep.rule(r, m)
    ss = serializers(fx)
    rep.need(ss, "library-node serializers")
    acc = Acc(rep, r)
    pool(rep, fx, acc, one_serializer, sorted(ss))
    acc.done()
    r = "every library node class has its own serializer registered under its code"
    rep.rule(r, "dataflow of each class's code through its constructor, matched with the registrations")
    acc = Acc(rep, r)
    registered(rep, fx, acc)
    acc.done()
    r = "names of enumerators written into documents are read back as the same enumerator"
    rep.rule(r, "evaluation of the printer and the parser on every enumerator (abstract interpretation with constant arguments)")
    acc = Acc(rep, r)
    inv = {v: k for k, v in NAMES.items()}
    pool(rep, fx, acc, one_name, [(inv[v], k) for k, v in PARSE.items() if fx.named(k) and fx.named(inv[v])])
    acc.done()





# ------------------------------------------------------------------ G03
def one_clone(fx, key, acc0, rep):
    """key: unique name of a clone() method."""
    f = fx.fns[key]
    t = f["cls"]
    name = last(t)
    dd = decls(fx, t)
    cs = ctors(fx, t)
    if not cs:
        acc0("%s: copied" % name, None, "no constructor was recognised")
    for g in cs[:4]:
        nv = sum(is_vec(p["t"]) for p in g["ps"])
        modes = [(None, None)] + [(x, None) for x in shapes(nv)]
        for i, p in enumerate(g["ps"]):
            if nv == 0 and O.base(p["t"]) in fx.enums:
                modes += [(None, {i: I(v)}) for _, v in fx.enums[O.base(p["t"])]["consts"]]
        for lens, fixed in modes:
            acc = acc0 if len(modes) == 1 or lens is not None or fixed else Sure(acc0, rep)
            try:
                e, loc, sts = originals(fx, t, g, lens, fixed)
            except A.Undecided as x:
                acc("%s: copied" % name, None, str(x))
                continue
            rep.fns |= e.funcs
            for s in sts:
                copies(fx, f, t, loc, s, e, acc, rep, name, dd, lens)


CSKIP = {"implementation_type_", "vertex_", "parent_", "element_id_", "edge_", "src_", "dst_"}
PARAM = {"vertex_": "vertex", "element_id_": "element_id", "parent_": "parent", "edge_": "edge", "src_": "src", "dst_": "dst"}


class DEng(LEng):
    """The document serializer restores what it wrote (decided by G01)."""

    def on_call(self, st, node, q, rl, rv, args, an):
        if q == "sdfg::serializer::JSONSerializer::serialize" and args:
            return [(st, ("doc", self.resolve(st, self.loc(an[0], st)[0][1])))]
        if q == "sdfg::serializer::JSONSerializer::deserialize" and args and isinstance(args[0], tuple) and args[0][:1] == ("doc",):
            return [(st, args[0])]
        return super().on_call(st, node, q, rl, rv, args, an)


def copies(fx, f, t, loc, s, e, acc, rep, name, dd, lens):
    s = s.fork()
    e1 = DEng(fx)
    e1.seq = 3000
    s.emit("reader")
    try:
        outs = e1.run(f, this=("addr", loc), st=s)
    except A.Undecided as x:
        acc("%s: copied" % name, None, str(x))
        return
    rep.fns |= e1.funcs
    rep.count("paths", len(outs))
    done = [o for o in outs if o[0] == "return"]
    if not done:
        acc("%s: copied" % name, None if lens is None else False, "copying a %s always fails" % name)
        return
    for k, s2, v in done:
        if v == ("doc", loc):
            acc("%s: copied" % name, True)
            continue
        m = v[1] if isinstance(v, tuple) and v[:1] == ("addr",) else None
        if m is None or m == loc or e1.cls_of(m) is None:
            acc("%s: copied" % name, None, "the copy is %s" % show(v)[:160])
            continue
        acc("%s: copied" % name, e1.cls_of(m) == t, "the copy is a %s" % e1.cls_of(m))
        if e1.cls_of(m) != t:
            continue
        for fl in SR.fields(fx, t):
            inst = "%s: %s" % (name, fl.rstrip("_").replace("_", " "))
            a, b = e1.load(s2, ("f", loc, fl)), e1.load(s2, ("f", m, fl))
            if fl in CSKIP:
                if fl not in PARAM:
                    continue
                ps = [p["n"] for p in f["ps"]]
                if PARAM[fl] in ps:
                    i = ps.index(PARAM[fl])
                    p = ("p", PARAM[fl], i)
                    acc(inst, norm(b) in (norm(p), norm(("d", p)), norm(("ld", p))), "the copy gets %s" % show(b)[:160])
                continue
            if fl == "debug_info_":
                a = ("ld", ("f", loc, fl)) if ("f", loc, fl) not in s2.env else a
            compare(acc, inst, fx, e1, s2, a, b, dd.get(fl, ""))


DC = "sdfg::deepcopy::StructuredSDFGDeepCopy::"
BLD = "sdfg::builder::StructuredSDFGBuilder::"
CF = "sdfg::structured_control_flow::"
GFRIENDS = ("root_", "children_", "transitions_", "dataflow_", "cases_", "conditions_")


class CEng(LEng):
    """Recursive calls of the copy are recorded, not followed (induction over the depth of the tree)."""
    stop = (DC + "append", BLD + "add_dataflow")

    def on_call(self, st, node, q, rl, rv, args, an):
        if q in self.stop:
            ls = [self.resolve(st, self.loc(a, st)[0][1]) for a in an]
            st.emit("copied", last(q), tuple(ls), self.where(node))
            return [(st, ("void",))]
        return super().on_call(st, node, q, rl, rv, args, an)


def dyncasts(s, t):
    """Locations of the objects known to be of class t on this path, in the order in which that was found."""
    out = []
    for k, v in s.facts.items():
        if k[0] != "eq0" or v is not False:
            continue
        for x in A.subterms(k):
            if x[0] == "dyncast" and len(x) == 3 and O.base(x[1]) == t and isinstance(x[2], tuple) and x[2][:1] == ("addr",) and x not in out:
                out.append(x)
    return out


def undyn(v):
    """The object behind a pointer that went through dynamic_cast is the object itself."""
    if not isinstance(v, tuple):
        return v
    if v[:1] == ("d",) and len(v) == 2 and isinstance(v[1], tuple) and v[1][:1] == ("dyncast",) and len(v[1]) == 3 \
            and isinstance(v[1][2], tuple) and v[1][2][:1] == ("addr",):
        return undyn(v[1][2][1])
    if v[:1] == ("dyncast",) and len(v) == 3 and isinstance(v[2], tuple) and v[2][:1] == ("addr",):
        return undyn(v[2])
    return tuple(undyn(x) if isinstance(x, tuple) else x for x in v)


def deep_copy(fx, fname, acc, rep):
    """StructuredSDFGDeepCopy::insert on one node of every class, append on sequences of them."""
    fs = [f for f in fx.named(DC + fname) if len(f["ps"]) == 2]
    if len(fs) != 1:
        acc("deep copy: " + fname, None, "not recognised")
        return
    f = fs[0]
    e = CEng(fx)
    rl = ("d", ("p", f["ps"][0]["n"], 0))
    src = ("d", ("p", f["ps"][1]["n"], 1))
    st = A.St()
    for l, v in SR.empty_sequence(rl):
        st.env[l] = v
    st.emit("reader")
    outs = e.run(f, st=st)
    rep.fns |= e.funcs
    rep.count("paths", len(outs))
    kinds = set()
    for k, s, v in outs:
        if k != "return":
            continue
        cl, tl = e.load(s, ("f", rl, "children_")), e.load(s, ("f", rl, "transitions_"))
        if cl[0] != "list" or tl[0] != "list" or any(x[0] != "addr" for x in cl[1] + tl[1]):
            acc("deep copy: " + fname, None, "the copies are %s" % show(cl)[:160])
            continue
        if len(cl[1]) != len(tl[1]):
            acc("deep copy: one transition per node", False, "%d nodes and %d transitions" % (len(cl[1]), len(tl[1])))
            continue
        idx, used = [], set()
        for x, y in zip(cl[1], tl[1]):
            t = e.cls_of(x[1])
            cand = [c for c in dyncasts(s, t) if c not in used] if t else []
            if not cand:
                acc("%s: copy of %s" % (fname, last(t or "?")), None, "which node it copies is not recognised")
                idx.append(None)
                continue
            used.add(cand[0])
            old = undyn(cand[0][2][1])
            kinds.add(t)
            one_copy(fx, acc, e, s, x[1], y[1], t, old, src, rl, fname)
            i = None
            if old[:1] == ("d",) and isinstance(old[1], tuple) and old[1][:1] == ("ld",) and old[1][1][:2] == ("e", ("f", src, "children_")):
                i = old[1][1][2]
            idx.append(i)
        if fname == "insert":
            acc("insert: one copy of one node", len(cl[1]) == 1 or undecided_return(s), "%d nodes are created for one" % len(cl[1]))
        elif None in idx:
            acc("append: children in order", None, "not recognised")
        else:
            got = [SR.complete(s, idx, ("f", src, x)) for x in ("children_", "transitions_")]
            skip = undecided_return(s)
            acc("append: children in order", True if True in got else None if skip else False if False in got else None,
                "copies are made of children %s" % (", ".join(show(i) for i in idx) or "-"))
    cf = {c for c in fx.subclasses(CF + "ControlFlowNode") if not (fx.recs.get(c) or {}).get("abstract") and not fx.subclasses(c)}
    for c in sorted(cf):
        acc("%s: %s" % (fname, last(c)), c in kinds, "nodes of class %s are not copied" % last(c))


def undecided_return(s):
    """A return that is neither data nor a constant does not exist: its type is either null or not."""
    return any(isinstance(k, tuple) and "is_data" in str(k) for k in s.facts)


def one_copy(fx, acc, e, s, o, tr, t, old, src, root, fname):
    name = last(t)
    what = "%s: %s" % (fname, name)
    dd = decls(fx, t)
    body = [x for x in s.events() if x[0] == "copied"]

    def val(l):
        return undyn(e.load(s, l))

    for fl in SR.fields(fx, t):
        inst = "%s: %s" % (what, fl.rstrip("_").replace("_", " "))
        if fl in ("element_id_", "parent_", "graph_", "conditions_", "transitions_"):
            continue
        if fl in ("root_", "dataflow_", "children_"):
            fn = "add_dataflow" if fl == "dataflow_" else "append"
            b = e.load(s, ("f", o, fl))
            new = o if fl in ("children_", "dataflow_") else b[1] if b[:1] == ("addr",) else None
            want = old if fl == "children_" else ("d", ("ld", ("f", old, fl)))
            wanted = [(undyn(x[2][0]), x[2][1]) if fn == "append" else (undyn(x[2][0]), x[2][1]) for x in body if x[1] == fn]
            wanted = [(a, b2) if fn == "add_dataflow" else (undyn(b2), a) for a, b2 in wanted]
            mine = [a for a, b2 in wanted if b2 == new]
            acc(inst, mine == [want] if new is not None else None,
                "its body is filled %d times%s" % (len(mine), "" if not mine else " from " + ", ".join(show(("addr", m)) for m in mine)))
            continue
        if fl == "cases_":
            cases(fx, acc, e, s, o, old, inst, body, what)
            continue
        want = val(("f", old, fl))
        got = val(("f", o, fl))
        if got == ("addr", ("d", ("ld", ("f", old, fl)))):
            got = ("ld", ("f", old, fl))
        if isinstance(got, tuple) and got[:1] == ("call",) and last(got[1]) == "clone" and not got[3] and undyn(got[2]) in (
                ("ld", ("d", ("ld", ("f", old, fl)))), ("obj", ("d", ("ld", ("f", old, fl))))):
            got = ("ld", ("f", old, fl))
        if got == I(0) and s.truth(("ld", ("f", old, fl))) is False:
            got = ("ld", ("f", old, fl))
        if got == I(0) and want != I(0):
            sees = [v for k, v in s.facts.items() if ("f", old, fl) in A.subterms(undyn(k)) and k[0] == "eq0"]
            if True in sees:
                got = want
        compare(acc, inst, fx, e, s, want, got, dd.get(fl, ""))
    acc("%s: transition belongs to the target" % what, val(("f", tr, "parent_")) == ("addr", root), "its parent is %s" % show(val(("f", tr, "parent_")))[:120])
    if fname == "append" and isinstance(old[1], tuple) and old[1][:1] == ("ld",) and old[1][1][:1] == ("e",):
        want = ("ld", ("f", ("d", ("ld", ("e", ("f", src, "transitions_"), old[1][1][2]))), "assignments_"))
        got = val(("f", tr, "assignments_"))
        acc("%s: assignments after it" % what, got == want, "the transition gets %s" % show(got)[:160])
    mapped(acc, e, s, what, old, o)


def mapped(acc, e, s, what, old, o):
    m = [x for l, x in s.env.items() if isinstance(l, tuple) and l[:1] == ("e",) and l[1] == ("f", ("d", ("this",)), "node_mapping")
         and undyn(l[2]) == ("addr", old)]
    acc("%s: recorded in the mapping" % what, m == [("addr", o)], "the mapping sends the node to %s" % (show(m[0])[:100] if m else "nothing"))


def cases(fx, acc, e, s, o, old, inst, body, what):
    cl, dl = e.load(s, ("f", o, "cases_")), e.load(s, ("f", o, "conditions_"))
    if cl[0] != "list" or dl[0] != "list" or any(x[0] != "addr" for x in cl[1]):
        acc(inst, None, "not recognised")
        return
    idx = []
    for x, c in zip(cl[1], dl[1]):
        mine = [undyn(y[2][1]) for y in body if y[1] == "append" and y[2][0] == x[1]]
        i = mine[0][1][1][2] if len(mine) == 1 and mine[0][:1] == ("d",) and mine[0][1][:1] == ("ld",) and mine[0][1][1][:2] == ("e", ("f", old, "cases_")) else None
        if i is None:
            acc(inst, False if not mine else None, "a branch is filled %d times" % len(mine))
            return
        idx.append(i)
        w = ("ld", ("e", ("f", old, "conditions_"), i))
        acc("%s condition" % inst, undyn(c) == w, "the condition is %s" % show(c)[:120])
        w = ("ld", ("f", mine[0], "debug_info_"))
        acc("%s debug info" % inst, undyn(e.load(s, ("f", x[1], "debug_info_"))) == w, "it is %s" % show(e.load(s, ("f", x[1], "debug_info_")))[:120])
        mapped(acc, e, s, inst, mine[0], x[1])
    s2 = s.fork()
    s2.facts.update({undyn(k): v for k, v in s.facts.items()})
    for k, v in s.bounds.items():
        s2.bounds.setdefault(undyn(k), v)
    got = [SR.complete(s2, idx, ("f", old, x)) for x in ("cases_", "conditions_")]
    acc("%s in order" % inst, len(cl[1]) == len(dl[1]) and (True if True in got else False if False in got else None),
        "branches %s are copied" % (", ".join(show(i) for i in idx) or "-"))


class GEng(LEng):
    """Objects of known class and small maps with known contents."""

    def e_cast(self, n, st):
        out = []
        for s, v in super().e_cast(n, st):
            if isinstance(v, tuple) and v[:1] == ("dyncast",) and len(v) == 3 and isinstance(v[2], tuple) and v[2][:1] == ("addr",):
                c, t = self.cls_of(v[2][1]), O.base(v[1])
                if c in self.fx.recs:
                    v = v[2] if c == t or t in self.fx.bases(c) else I(0)
            out.append((s, v))
        return out

    def on_call(self, st, node, q, rl, rv, args, an):
        name = last(q)
        if q.startswith("std::unordered_map") or q.startswith("std::map"):
            es = pairs_of(rv)
            if es is not None and rl is not None:
                if name in ("insert", "emplace", "try_emplace", "insert_or_assign"):
                    x = ("list", tuple(args), "std::pair") if len(args) == 2 else args[0]
                    if isinstance(x, tuple) and x[:1] == ("list",) and len(x[1]) == 2 and not any(k == x[1][0] for k, _ in es):
                        out = super().on_call(st, node, q, rl, rv, args, an)
                        for s, v in out:
                            SR.Eng.store(self, s, rl, ("list", rv[1] + (x,), rv[2]), node, quiet=True)
                        return out
                if name in ("operator[]", "at") and len(args) == 1:
                    for k, v in es:
                        if norm(k) == norm(args[0]):
                            return [(st, v)]
        return super().on_call(st, node, q, rl, rv, args, an)

    def loc(self, n, st):
        if n.get("k") in ("opcall", "call") and (n.get("q") or "").startswith("std::unordered_map") and last(n["q"]) in ("operator[]", "at"):
            return [(s, v[1] if isinstance(v, tuple) and v[:1] == ("ref",) else ("t", v)) for s, v in self.ev(n, st)]
        return super().loc(n, st)


def pairs_of(v):
    if isinstance(v, tuple) and v[:1] == ("list",) and all(isinstance(x, tuple) and x[:1] == ("list",) and len(x[1]) == 2 for x in v[1]):
        return [x[1] for x in v[1]]
    return None


IMPL = ("f", "implementation_type_")


def with_impl(fx, t):
    """A node of class t as its constructor leaves it, with an implementation type of its own."""
    for g in ctors(fx, t)[:1]:
        nv = sum(is_vec(p["t"]) for p in g["ps"])
        e, loc, sts = originals(fx, t, g, [2] * nv if nv else None)
        for s in sts:
            s = s.fork()
            if "implementation_type_" in SR.fields(fx, t):
                s.env[("f", ("f", loc, "implementation_type_"), "value_")] = ("ld", ("sym", "implementation"))
            yield e, loc, s


def same_impl(acc, inst, e, s, t, a, b, fx):
    if "implementation_type_" in SR.fields(fx, t):
        va, vb = (norm(e.load(s, ("f", ("f", l, "implementation_type_"), "value_"))) for l in (a, b))
        acc("%s: implementation type" % inst, va == vb, "the copy has %s" % show(vb)[:120])


def node_copy(fx, t, acc, rep):
    """builder copy_node for one class of data-flow node."""
    f = fx.one(BLD + "copy_node")
    name = last(t)
    for e, loc, s in with_impl(fx, t):
        e1 = GEng(fx)
        e1.seq = 3000
        outs = e1.run(f, args=[None, ("ref", loc)], st=s)
        rep.fns |= e1.funcs
        rep.count("paths", len(outs))
        for k, s2, v in outs:
            if k != "return":
                continue
            mine = [o for o in SR.objects_of(e1, s2, t) if o != loc]
            if len(mine) != 1:
                acc("copy_node of %s" % name, None if mine else False, "%d copies are made" % len(mine))
                continue
            acc("copy_node of %s" % name, v == ("ref", mine[0]) or None, "it returns %s" % show(v)[:120])
            same_impl(acc, "copy_node of %s" % name, e1, s2, t, loc, mine[0], fx)


def flow_copy(fx, key, acc, rep):
    """builder add_dataflow on graphs with one edge between two nodes, either of them a library node."""
    f = fx.one(BLD + "add_dataflow")
    lib, flip = key
    T, AN, M = "sdfg::data_flow::Tasklet", "sdfg::data_flow::AccessNode", "sdfg::data_flow::Memlet"
    st = A.St()
    a, b, m = ("o", 1, lib), ("o", 2, AN), ("o", 3, M)
    src, dst = (a, b) if flip else (b, a)
    if "implementation_type_" in SR.fields(fx, lib):
        st.env[("f", ("f", a, "implementation_type_"), "value_")] = ("ld", ("sym", "implementation"))
    va, vb = ("ld", ("sym", "vertex a")), ("ld", ("sym", "vertex b"))
    st.env[("f", a, "vertex_")], st.env[("f", b, "vertex_")] = va, vb
    st.env[("f", m, "src_")], st.env[("f", m, "dst_")] = ("ref", src), ("ref", dst)
    G = ("d", ("p", f["ps"][0]["n"], 0))
    H = ("d", ("ld", ("f", ("d", ("p", f["ps"][1]["n"], 1)), "dataflow_")))
    st.env[("f", G, "nodes_")] = ("list", tuple(("list", (v, ("addr", o)), "std::pair") for v, o in ((va, a), (vb, b))), "map")
    st.env[("f", G, "edges_")] = ("list", (("list", (("ld", ("sym", "edge")), ("addr", m)), "std::pair"),), "map")
    for x in ("nodes_", "edges_"):
        st.env[("f", H, x)] = ("list", (), "map")
    e = GEng(fx)
    e.seq = 3000
    outs = e.run(f, st=st)
    rep.fns |= e.funcs
    rep.count("paths", len(outs))
    inst = "add_dataflow"
    for k, s, v in outs:
        if k != "return":
            continue
        ns, es = pairs_of(e.load(s, ("f", H, "nodes_"))), pairs_of(e.load(s, ("f", H, "edges_")))
        if ns is None or es is None or any(x[1][:1] != ("addr",) for x in ns + es):
            acc(inst, None, "not recognised")
            continue
        acc("%s: all nodes and edges" % inst, (len(ns), len(es)) == (2, 1), "2 nodes and 1 edge become %d and %d" % (len(ns), len(es)))
        if (len(ns), len(es)) != (2, 1):
            continue
        cls = {e.cls_of(x[1][1]): x for x in ns}
        if set(cls) != {lib, AN}:
            acc("%s: classes" % inst, False, "the copies are of classes %s" % ", ".join(sorted(last(c or "?") for c in cls)))
            continue
        for c, x in cls.items():
            acc("%s: a node knows its vertex" % inst, norm(e.load(s, ("f", x[1][1], "vertex_"))) == norm(x[0]), "the node is filed under another vertex")
        same_impl(acc, "%s of %s" % (inst, last(lib)), e, s, lib, a, cls[lib][1][1], fx)
        m2 = es[0][1][1]
        for fl, o in (("src_", src), ("dst_", dst)):
            want = cls[e.cls_of(o)][1][1]
            got = e.resolve(s, ("f", m2, fl))
            if got == ("f", m2, fl):
                x = s.env.get(got)
                got = x[1] if isinstance(x, tuple) and x[:1] in (("ref",), ("addr",)) else None
            acc("%s: the edge has the copy of its %s" % (inst, "source" if fl == "src_" else "target"), None if got is None else got == want,
                "it is attached to %s" % show(("addr", got))[:120])
        eds = [x for x in s.events() if x[0] == "call" and last(x[1]) == "add_edge"]
        if len(eds) == 1:
            got = [norm(x) for x in eds[0][4][:2]]
            want = [norm(cls[e.cls_of(o)][0]) for o in (src, dst)]
            acc("%s: the edge joins the copies in the graph" % inst, got == want, "add_edge is called for other vertices")
        else:
            acc("%s: the edge joins the copies in the graph" % inst, None, "not recognised")


def g03(rep):
    fx = facts(rep, True)
    r = "a copy made by clone() carries every field"
    rep.rule(r, "abstract interpretation of the constructor, then of clone() on the object it leaves; every field of the copy compared with the original")
    keys = sorted(u for u, f in fx.fns.items() if last(f["q"]) == "clone" and not f.get("dep") and f.get("cls") and f.get("body"))
    rep.need(keys, "clone()")
    acc = Acc(rep, r)
    pool(rep, fx, acc, one_clone, keys)
    acc.done()
    r = "a deep copy of a control-flow tree keeps every node, field, condition and assignment"
    rep.rule(r, "abstract interpretation of insert and append over symbolic trees (recursion by induction); the fields of every node created compared with the node it copies")
    acc = Acc(rep, r)
    pool(rep, fx, acc, deep_copy, [x for x in ("insert", "append") if fx.named(DC + x)])
    acc.done()
    r = "nodes and graphs copied by the builder keep their implementation type and their ends"
    rep.rule(r, "abstract interpretation of copy_node on a node of every class and of add_dataflow on a graph of two nodes and an edge")
    acc = Acc(rep, r)
    libs = [t for t in sorted(fx.subclasses(LN)) if not (fx.recs.get(t) or {}).get("abstract") and ctors(fx, t)]
    if len(fx.named(BLD + "copy_node")) == 1:
        pool(rep, fx, acc, node_copy, libs + [t for t in ("sdfg::data_flow::Tasklet", "sdfg::data_flow::AccessNode", "sdfg::data_flow::ConstantNode") if ctors(fx, t)])
    if len(fx.named(BLD + "add_dataflow")) == 1:
        pool(rep, fx, acc, flow_copy, [(t, w) for t in ("sdfg::data_flow::Tasklet", libs[0]) for w in (True, False)])
    acc.done()


CHECKS = {"G02": g02, "G03": g03}
