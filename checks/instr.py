"""B01-B06: runtime instrumentation (rtl/src/instrumentation.cpp)."""
import os

from lib import absint as A, cxx, locks, ratio, rules as R
from lib.absint import I, last, show

CLS = "DaisyInstrumentationState"
SRC = "rtl/src/instrumentation.cpp"
THIS = ("d", ("this",))
API = {"__daisy_instrumentation_init", "__daisy_instrumentation_enter", "__daisy_instrumentation_exit",
       "__daisy_instrumentation_finalize", "__daisy_instrumentation_increment", "__daisy_instrumentation_metric"}


class BEngine(R.JEngine):
    limit = 200.0

    def follow(self, fn):
        if self.in_dtor and any("_IO_FILE" in p["t"] or "std::basic_ostream<" in p["t"] for p in fn["ps"]):
            return False                 # trace output, decided separately (B04)
        return super().follow(fn)

    in_dtor = False

    def loc(self, n, st):
        if n.get("k") == "ref" and n.get("d") in ("global", "slocal") and (n.get("t") or "") == CLS:
            return [(st, THIS)]          # the process-wide state object
        return super().loc(n, st)

    def on_call(self, st, node, q, rl, rv, args, an):
        name = last(q).lstrip("*")
        w = self.where(node)
        if rl is None and not args and not name.startswith("operator") and q in (f["q"] for f in self.fx.decls.values()):
            t = (node.get("t") or "").replace("const ", "").rstrip("& ")
            if t == CLS:
                return [(st, ("ref", THIS))]
            if t == CLS + " *":
                return [(st, ("addr", THIS))]
        if name.startswith("_PAPI_") or name.startswith("PAPI_"):
            p = name.lstrip("_")[5:]
            buf = None
            if p in ("read", "stop", "accum") and len(args) == 2:
                b = args[1]
                if isinstance(b, tuple) and b[0] == "addr":
                    buf = b[1][1] if b[1][0] == "e" and b[1][2] == I(0) else b[1]
            size = self.vecsize(st, buf) if buf is not None else None
            res = ("call", "*" + name, None, tuple(args), self.fresh())
            es = args[0] if args else None
            if p in ("create_eventset", "destroy_eventset") and isinstance(es, tuple) and es[0] == "addr":
                l = es[1]
                es = self.load(st, l)
                if p == "create_eventset":
                    new = ("es", self.fresh())
                    st.emit("papi", p, new, l, None, res, w, es)
                    self.store(st, l, new, quiet=True)
                else:
                    st.emit("papi", p, es, l, None, res, w, None)
                    self.store(st, l, I(-1), quiet=True)
                return [(st, res)]
            if p in ("get_real_nsec", "strerror"):
                st.emit("papi", p, None, None, None, res, w, None)
                return [(st, res)]
            st.emit("papi", p, es, args[1] if p == "add_named_event" and len(args) > 1 else buf, size, res, w, None)
            if buf is not None:
                rd = ("reading", self.fresh(), size)
                for l in [l for l in st.env if self.under(l, buf)]:
                    del st.env[l]
                st.env[buf] = rd
            return [(st, res)]
        if "vector" in q and rl is not None:
            if name == "data":
                return [(st, ("addr", ("e", rl, I(0))))]
            if name == "size" and not args:
                s = self.vecsize(st, rl)
                if s is not None:
                    return [(st, s)]
            if name in ("resize", "assign") and args:
                v = args[1] if len(args) > 1 else I(0)
                st.emit("call", q, rl, rv, tuple(args), None, w)
                old = self.load0(st, rl)
                em = st.truth(("call", "empty", old, (), 0))
                for l in [l for l in st.env if self.under(l, rl)]:
                    del st.env[l]
                st.env[rl] = ("filled", args[0], v) if name == "assign" or em is True else ("resized", old, args[0], v)
                return [(st, ("void",))]
            if name == "clear":
                st.emit("call", q, rl, rv, (), None, w)
                for l in [l for l in st.env if self.under(l, rl)]:
                    del st.env[l]
                st.env[rl] = ("list", (), "cleared")
                return [(st, ("void",))]
            if name in ("push_back", "emplace_back") and len(args) == 1 and rl[0] == "f":
                st.emit("push", rl, args[0], w)
        if name in ("at", "operator[]") and rl is not None and "vector" in q and len(args) == 1:
            return [(st, ("ref", ("e", rl, args[0])))]
        return super().on_call(st, node, q, rl, rv, args, an)

    def construct(self, st, n, q, vs):
        real = [v for v, a in zip(vs, n.get("a", ())) if a is None or a.get("k") != "defarg"]
        if q.startswith("std::vector") and len(real) in (1, 2) and real[0][0] in ("i", "call", "bin", "cast"):
            return ("filled", real[0], real[1] if len(real) > 1 else I(0))
        return super().construct(st, n, q, vs)

    def proj(self, pv, k, loc):
        if k == "e" and isinstance(pv, tuple) and pv:
            if pv[0] == "filled":
                return pv[2]
            if pv[0] == "reading":
                return ("cnt", pv[1], loc[2])
        return super().proj(pv, k, loc)

    def vecsize(self, st, l):
        v = self.load0(st, l)
        while isinstance(v, tuple) and v and v[0] == "rec":
            v = v[1]
        if not isinstance(v, tuple) or not v:
            return None
        if v[0] in ("reading",):
            return v[2]
        if v[0] == "filled":
            return v[1]
        if v[0] == "resized":
            return v[2]
        return None


def facts(rep):
    f = os.path.join(cxx.REPO, SRC)
    rep.need(os.path.exists(f), SRC)
    rep.files.add(SRC)
    return cxx.load([f])


def api(fx, name):
    fns = [f for f in fx.named(name) if f.get("body")]
    if not fns:
        raise cxx.AnalysisError("analysis anchor lost: " + name)
    return fns[0]


def paths(rep, fx, fn, rule, **kw):
    e = BEngine(fx)
    for k, v in kw.items():
        setattr(e, k, v)
    try:
        out = e.run(fn)
    except A.Undecided as x:
        rep.undecided(rule, last(fn["q"]), str(x))
        return e, None
    rep.fns |= e.funcs
    rep.count("paths", len(out))
    return e, out


def loc_of(n):
    return "line %s" % n.get("l")


# ------------------------------------------------------------------ B01
def b01(rep):
    rule = "every access to shared runtime state holds one common mutex"
    rep.rule(rule, "context-sensitive lockset walk from the six C entry points; a field that some entry point modifies (and every "
                   "DaisyRegion reached from the shared tables) must be accessed under a non-empty intersection of locksets; nobody "
                   "locks a mutex it already holds")
    fx = facts(rep)
    rep.need(CLS in fx.recs, "class " + CLS)
    w = locks.Walk(fx, enter=lambda f: f.get("file", "").endswith(SRC) and not f.get("ctor") and not f.get("dtor") and last(f["q"]) not in (CLS, "~" + CLS))
    for a in sorted(API):
        w.run(api(fx, a))
    rep.fns |= w.fns
    meth = [f for f in fx.fns.values() if f["q"] in w.fns and f.get("body")]
    mut = locks.written(fx, CLS, meth)
    gmut = locks.written(fx, CLS, meth, glob=True)
    common, sites, first = {}, {}, {}
    for n, held, fn, entry in w.acc:
        g = locks.global_key(n)
        if g and g in gmut and CLS not in (n.get("t") or ""):
            key = g[1]
        elif n.get("k") != "mem" or n.get("method"):
            continue
        q = n.get("q") or ""
        if g:
            pass
        elif q in mut and not locks.is_mutex(n.get("t")):
            key = q
        elif q.startswith("DaisyRegion::"):
            b = n.get("b") or {}
            t = b.get("t", "")
            if b.get("k") == "ref" and b.get("d") == "local" and is_value_local(fn, b):
                continue
            key = "DaisyRegion reached from the shared tables"
        else:
            continue
        rep.count("guarded accesses")
        sites.setdefault(key, 0)
        sites[key] += 1
        if key not in common:
            common[key] = held
        new = common[key] & held
        if common[key] and not new:
            first[key] = (n, fn, entry, held)
        elif not held and key not in first:
            first[key] = (n, fn, entry, held)
        common[key] = new
    for k in sorted(common):
        if common[k]:
            rep.ok(rule, k, "%d accesses under %s" % (sites[k], ", ".join(sorted(common[k]))))
        else:
            n, fn, entry, held = first[k]
            rep.bad(rule, k, "%s (%s, reached from %s) touches it %s; other accesses use another lock or none" % (
                fn["q"], loc_of(n), entry, "without a lock" if not held else "under " + ", ".join(sorted(held))))
    if not common:
        rep.undecided(rule, CLS, "no shared mutable state recognised")
    for n, m, fn in w.double:
        rep.bad(rule, "double lock of " + m, "%s (%s) locks it again while held" % (fn["q"], loc_of(n)))


def is_value_local(fn, b):
    for x in cxx.walk(fn["body"]):
        if x.get("s") == "decl":
            for v in x.get("v", ()):
                if v.get("id") == b.get("id"):
                    return not v.get("t", "").rstrip().endswith(("&", "*"))
    return False


# ------------------------------------------------------------------ shared terms
def S(f):
    return ("f", THIS, f)


def LD(l):
    return ("ld", l)


REGIONS, LOOKUP, NAMES, LISTL, NEXT = S("regions"), S("sleeping_regions_id_lookup"), S("region_name_to_id"), S("sleeping_regions_by_name"), S("next_region_id")
KINDS = (("__DAISY_EVENT_SET_CPU", "event_names_cpu"), ("__DAISY_EVENT_SET_CUDA", "event_names_cuda"))


def RG(i, *fs):
    l = ("e", REGIONS, i)
    for f in fs:
        l = ("f", l, f)
    return l


def kinds(fx):
    """{enumerator value: location of its event list}"""
    en = {}
    for e in fx.enums.values():
        for n, v in e.get("consts", ()):
            en[n] = int(v)
    return {en[n]: S(l) for n, l in KINDS if n in en}


def kind_of(st, terms, ks):
    """Which event list belongs to the region on this path: a location, False (provably none) or None."""
    no = set()
    for t in terms:
        for v, l in ks.items():
            r = st.truth(("bin", "==", t, I(v), "bool"))
            if r is True:
                return l
            if r is False:
                no.add(v)
    return False if no == set(ks) else None


def nonempty(st, l):
    r = st.truth(("call", "empty", LD(l), (), 0))
    return None if r is None else not r


def maybe_one(st, l):
    """Does the path bound the size of l but still allow an element?"""
    for items, (lo, hi) in st.bounds.items():
        if len(items) == 1 and abs(items[0][1]) == 1 and is_size(items[0][0], l):
            top = hi if items[0][1] == 1 else -lo if lo is not None else None
            return top is None or top >= 1
    return False


def size_known(st, l):
    """Does the path bound the size of l?"""
    return any(len(items) == 1 and is_size(items[0][0], l) for items in st.bounds)


def papi(st, *names):
    return [e for e in st.events() if e[0] == "papi" and (not names or e[1] in names)]


def size_of(l):
    return ("call", "size", LD(l), (), 0)


def is_size(t, l):
    t = R.strip(t) if t is not None else None
    return bool(t) and t[0] == "call" and last(t[1]) in ("size", "length") and t[2] == LD(l)


def good_size(st, t, l):
    """Is a buffer of t elements large enough for the events in list l?"""
    if t is None:
        return None
    if is_size(t, l):
        return True
    for v in ("event_names_cpu", "event_names_cuda"):
        if is_size(t, S(v)):
            return False
    if A.is_int(t):
        return False
    return None


def checked(st, res):
    """Did this path test that the PAPI call succeeded?"""
    r = st.truth(("bin", "==", res, I(0), "bool"))
    if r is None:
        r = True if st.truth(("bin", "<", res, I(0), "bool")) is False else None
    return r


def touches(st, loc, *names):
    """Calls of a container method on loc (or on part of it)."""
    return [e for e in st.events() if e[0] == "call" and e[2] == loc and (not names or last(e[1]) in names)]


READS = ("find", "end", "begin", "size", "empty", "at", "count", "contains", "front", "operator[]", "cbegin", "cend", "back")


def mutated(st, loc):
    return [e for e in st.events() if e[0] == "call" and e[2] == loc and last(e[1]) not in READS] + \
        [e for e in st.events() if e[0] == "store" and len(e[1]) == 3 and e[1][0] == "e" and e[1][1] == loc]


def effects(st):
    return [e for e in st.events() if e[0] in ("papi", "push") or e[0] == "store" and root(e[1]) == THIS]


def root(l):
    while isinstance(l, tuple) and l and l[0] in ("f", "e"):
        l = l[1]
    return l


def has(st, k):
    """Was the key present (before anything was inserted on this path)?"""
    r = st.facts.get(("had",) + k[1:])
    return st.truth(k) if r is None else r


class Acc:
    """Collects path verdicts per rule instance: a violation on any path wins, then undecided."""

    def __init__(self, rep, rule, only=None):
        self.only = only
        self.rep, self.rule, self.bad, self.und, self.n = rep, rule, {}, {}, {}

    def __call__(self, inst, verdict, detail=""):
        if self.only and not any(x in inst for x in self.only):
            return
        self.n[inst] = self.n.get(inst, 0) + 1
        if verdict is None:
            self.und.setdefault(inst, detail)
        elif not verdict:
            self.bad.setdefault(inst, detail)

    def done(self, expect=()):
        for i in sorted(self.n):
            if i in self.bad:
                self.rep.bad(self.rule, i, self.bad[i])
            elif i in self.und:
                self.rep.undecided(self.rule, i, self.und[i])
            else:
                self.rep.ok(self.rule, i, "%d paths" % self.n[i])
        for i in expect:
            if i not in self.n:
                self.rep.undecided(self.rule, i, "no path of this kind was recognised")


# ------------------------------------------------------------------ B02
def b02(rep):
    fx = facts(rep)
    ks = kinds(fx)
    rep.rule(STOPS, "every path of init, enter, exit, finalize and the destructor that reaches exit() carries a failed PAPI result, an unknown id or another failed request")
    registering(rep, fx, ks)

    r2 = "counter buffers are as long as the event set they are read from"
    rep.rule(r2, "at every PAPI_read/PAPI_stop the destination has one slot per event of the region's kind and the event set is the region's own")
    acc = Acc(rep, r2)
    r3 = "finalising stops the region once and caches or destroys its event set"
    rep.rule(r3, "typestate over every path of __daisy_instrumentation_finalize and of the destructor")
    fin = Acc(rep, r3)
    for name in ("__daisy_instrumentation_enter", "__daisy_instrumentation_exit", "__daisy_instrumentation_finalize"):
        f = api(fx, name)
        e, out = paths(rep, fx, f, r2)
        idt = ("p", f["ps"][0]["n"], 0)
        short = name.split("_")[-1]
        fatal(rep, short, out)
        for kind, st, v in out or ():
            if kind != "return":
                continue
            src = kind_of(st, [LD(RG(idt, "event_set"))], ks)
            rd = papi(st, "read", "stop", "accum")
            for x in rd:
                acc(short + ": event set", x[2] == LD(RG(idt, "papi_eventset")), "PAPI_%s on %s" % (x[1], show(x[2])))
                g = good_size(st, x[4], src) if src else (False if src is False and not A.is_int(x[4]) else None)
                acc(short + ": buffer size", g, "PAPI_%s at %s fills a buffer of %s elements; the region counts %s" % (x[1], x[6], show(x[4]) if x[4] else "?", show(LD(src)) if src else "nothing"))
            ne = nonempty(st, src) if src else False
            if short != "finalize":
                m = mutated(st, LISTL) + mutated(st, LOOKUP)
                acc(short + ": the cache of finalised regions stays as it is", not m, "%s changes it" % (last(m[0][1]) if m and m[0][0] == "call" else "a store"))
                if src and (ne is True or ne is None and not rd and maybe_one(st, src)):
                    acc(short + ": counters are read", len([x for x in rd if x[1] == "read"]) == 1 and len(rd) == 1, "%d reads on a path of a region with events" % len(rd))
                continue
            finalize(fin, e, st, idt, src, ne, ks)
    for name in ("__daisy_instrumentation_increment", "__daisy_instrumentation_metric"):
        e, out = paths(rep, fx, api(fx, name), r2)
        for kind, st, v in out or ():
            m = mutated(st, LISTL) + mutated(st, LOOKUP)
            acc(name.split("_")[-1] + ": the cache of finalised regions stays as it is", not m, "%s changes it" % (last(m[0][1]) if m and m[0][0] == "call" else "a store"))
    acc.done(["enter: buffer size", "exit: buffer size", "finalize: buffer size"])
    destructor(rep, fx, fin)
    fin.done(["eviction: the evicted event set is cleaned up and destroyed once", "shutdown: every cached event set is destroyed"])


PLAIN = {"size", "length", "empty", "find", "end", "begin", "cbegin", "cend", "count", "contains", "front", "back", "at", "data", "c_str", "operator[]",
         "push_back", "push_front", "remove", "erase"}


def names_in(t):
    """Names of the functions whose results occur in a term."""
    if isinstance(t, tuple):
        if len(t) > 1 and t[0] == "call" and isinstance(t[1], str):
            yield last(t[1]).lstrip("*")
        for x in t:
            yield from names_in(x)


def reasoned(st, expected=()):
    """Why does this path end the process?  True: a PAPI call failed or an id is unknown; False: nothing on the path failed; None: something else
    was asked for that may have failed."""
    calls = papi(st)
    if any(checked(st, x[5]) is False for x in calls):
        return True
    other = None
    for k, v in list(st.facts.items()) + [(b, None) for b in st.bounds]:
        if isinstance(k, tuple) and k and k[0] == "has":
            if v is False and k not in expected:
                return True
            continue
        if isinstance(k, tuple) and k and k[0] in ("empty", "more"):
            continue
        for n in names_in(k):
            if n in ("fopen", "fopen64") and k[0] == "eq0" and v is True:
                return True
            if n not in PLAIN and "PAPI_" not in n:
                other = n
    if other or any(x[1] not in ("get_real_nsec", "strerror") and checked(st, x[5]) is None and any(x[5] in parts(k) for k in st.facts) for x in calls):
        return None
    return False


def parts(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            yield from parts(x)


def fatal(rep, name, out, expected=()):
    """Obligation of every path that ends the process."""
    acc = Acc(rep, STOPS)
    for kind, st, v in out or ():
        if kind == "exit":
            acc(name, reasoned(st, expected), "%s() on a path where every PAPI call succeeded and the region is known" % [x for x in st.events() if x[0] == "exit"][-1][1])
    acc.done([])


STOPS = "the process is ended only when something failed"

IDS = ("null metadata", "case analysis", "same id", "fresh id", "leads back")


def registering(rep, fx, ks, ids=False):
    """Every path of init; with ids only the obligations about the id handed out."""
    if ids:
        r1 = "ids are unique, never 0, and stay with their region's name"
        rep.rule(r1, "every path of __daisy_instrumentation_init returns the id recorded for the name or a fresh one and records it; the counter starts above 0, "
                     "grows by one per new region and nobody else changes it")
    else:
        r1 = "registering a region leaves it with exactly one running event set holding all its events"
        rep.rule(r1, "path-sensitive typestate of the PAPI event set over every path of __daisy_instrumentation_init")
    e, out = paths(rep, fx, api(fx, "__daisy_instrumentation_init"), r1)
    acc = Acc(rep, r1, IDS if ids else None)
    MD = ("d", ("p", fx.one("__daisy_instrumentation_init")["ps"][0]["n"], 0))
    KP = ("p", fx.one("__daisy_instrumentation_init")["ps"][1]["n"], 1)
    U = LD(("f", MD, "region_uuid"))
    if not ids:
        fatal(rep, "init", out, (("has", LD(LOOKUP), U), ("has", LD(NAMES), U)))
    for kind, st, v in out or ():
        if kind != "return":
            continue
        null = st.truth(("p", MD[1][1], 0))
        if null is False:
            acc("null metadata", R.strip(v) == I(0) and not effects(st), "init(nullptr) has effects or returns %s" % show(v))
            continue
        acc("null metadata", null is True, "a path uses the metadata without testing it for null")
        sl = has(st, ("has", LD(LOOKUP), U))
        kn = has(st, ("has", LD(NAMES), U))
        v = R.strip(v)
        starts, creates, adds = papi(st, "start"), papi(st, "create_eventset"), papi(st, "add_named_event")
        gone = papi(st, "destroy_eventset", "cleanup_eventset", "stop")
        acc("no event set is destroyed while registering", not gone, "PAPI_%s at %s" % (gone[0][1], str(gone[0][6])) if gone else "")
        if sl is None and kn is None:
            acc("case analysis", None, "path does not decide whether the region is cached")
            continue
        if sl is True:
            i = LD(("e", LOOKUP, U))
            c = "sleeping region"
            acc(c + ": same id", v == i, "returns %s" % show(v))
            acc(c + ": its event set is started once, not re-created", not creates and len(starts) == 1 and starts[0][2] == LD(RG(i, "papi_eventset")),
                "creates %d, starts %s" % (len(creates), [show(x[2]) for x in starts]))
            acc(c + ": leaves the cache", bool(mutated(st, LOOKUP)) and bool(mutated(st, LISTL)), "not removed from both the list and the id lookup")
            for m in touches(st, LISTL, "remove"):
                acc(c + ": leaves the cache", m[4][0] == U, "removes %s from the list" % show(m[4][0]))
            for m in touches(st, LOOKUP, "erase"):
                a = m[4][0]
                acc(c + ": leaves the cache", a == U or a[0] == "it" and a[2] == U, "erases %s from the id lookup" % show(a))
            acc(c + ": leaves the cache", not touches(st, LISTL, "clear", "pop_front", "pop_back") and not touches(st, LOOKUP, "clear"), "another region is dropped from the cache")
            continue
        if kn is True:
            c = "known region"
            i = LD(("e", NAMES, U))
            want_kind = [LD(RG(i, "event_set"))]
            acc(c + ": same id", v == i, "returns %s" % show(v))
            okc = len(creates) == 1 and creates[0][3] == RG(i, "papi_eventset")
            acc(c + ": its event set is created once", okc, "creates %s" % [show(LD(x[3])) for x in creates])
            if okc:
                new = creates[0][2]
        elif kn is False and sl is False:
            c = "new region"
            i = LD(NEXT)
            want_kind = [KP]
            acc(c + ": fresh id", fresh_size(v) or v == i and R.strip(e.load(st, NEXT)) == ("bin", "+", i, I(1), "unsigned long") or
                v == i and A.lin(e.load(st, NEXT)) == A.lin(("bin", "+", i, I(1), "l")), "returns %s and leaves next id %s" % (show(v), show(e.load(st, NEXT))))
            okc = len(creates) == 1
            acc(c + ": its event set is created once", okc, "creates %d event sets" % len(creates))
            if okc:
                new = creates[0][2]
                got = e.load(st, RG(i, "papi_eventset"))
                acc(c + ": the stored region owns the created event set", got == new, "regions[id].papi_eventset is %s" % show(got))
                prev = creates[0][7]
                acc(c + ": event set handle starts as PAPI_NULL", prev_null(fx, prev), "PAPI_create_eventset on a handle holding %s" % show(prev))
                got = e.load(st, RG(i, "event_set"))
                acc(c + ": the stored region has the requested kind", R.strip(got) == KP, "regions[id].event_set is %s" % show(got))
                got = e.load(st, RG(i, "metadata"))
                acc(c + ": the stored region has the given metadata", copy_md(got, MD), "regions[id].metadata is %s" % show(got))
            nm = stored_names(st, e)
            acc(c + ": the name leads back to the id", any(is_uuid(k, U, MD) and x == i for k, x in nm), "name table updates: %s" % [(show(k), show(x)) for k, x in nm])
        else:
            acc("case analysis", None, "path does not decide whether the region is known")
            continue
        if not okc:
            continue
        acc(c + ": failure to create is fatal", checked(st, creates[0][5]) is True, "a path continues without testing the result of PAPI_create_eventset")
        okst = len(starts) == 1 and starts[0][2] == new
        acc(c + ": the event set is started once", okst, "starts %s" % [show(x[2]) for x in starts])
        ev = st.events()
        if okst and adds:
            acc(c + ": events are added before the start", all(ev.index(x) < ev.index(starts[0]) and ev.index(x) > ev.index(creates[0]) for x in adds), "PAPI_add_named_event outside create..start")
        for x in adds:
            acc(c + ": failure to add an event is fatal", checked(st, x[5]) is True, "a path continues without testing the result of PAPI_add_named_event")
            acc(c + ": events go into the new event set", x[2] == new, "event added to %s" % show(x[2]))
        src = kind_of(st, want_kind, ks)
        if src is None:
            empty = all(nonempty(st, l) is False for l in ks.values())
            acc(c + ": all events of its kind are added", None if adds or empty else False, "the kind of the region is not decided on a path that adds %d events" % len(adds))
        elif src is False:
            acc(c + ": all events of its kind are added", not adds, "events added to a region without event kind")
        else:
            idx = [R.elem_of(x[3], src) for x in adds]
            if any(x is None for x in idx):
                other = [l for l in ks.values() if l != src and any(R.elem_of(x[3], l) is not None for x in adds)]
                acc(c + ": all events of its kind are added", False if other else None, "adds %s" % [show(x[3]) for x in adds])
            else:
                acc(c + ": all events of its kind are added", R.complete(st, idx, src), "visits %s of %s" % ([show(x) for x in idx], show(src)))
    if ids:
        counter_start(acc, fx)
        acc.done(["known region: same id", "new region: fresh id", "sleeping region: same id", "null metadata"])
        return
    acc.done([c + s for c in ("known region", "new region") for s in (": all events of its kind are added", ": the event set is started once")] + ["sleeping region: same id"])

def fresh_size(v):
    """regions.size() + k, k > 0: unique while the table only grows."""
    d = A.lin(v)
    return bool(d) and d[1] > 0 and len(d[0]) == 1 and list(dict(d[0]).values()) == [1] and is_size(list(dict(d[0]))[0], REGIONS)


def counter_start(acc, fx):
    f = [x for x in (fx.recs.get(CLS) or {}).get("fields", ()) if x.get("n") == "next_region_id"]
    if not f:
        return
    c = field_init(fx, CLS, "next_region_id")
    acc("fresh id: the first id is not 0", c >= 1 if c is not None else None, "next_region_id starts at %s" % c)
    t = f[0].get("t", "")
    acc("fresh id: the counter is as wide as an id", t in ("unsigned long", "size_t", "std::size_t", "unsigned long long", "long", "uint64_t", "std::uint64_t"), "next_region_id is %s" % t)



def prev_null(fx, prev):
    p = R.strip(prev)
    if p == I(-1) or p == ("un", "-", I(1)):
        return True
    if A.is_int(p):
        return False
    f = field_init(fx, "DaisyRegion", "papi_eventset")
    if p and p[0] in ("fld", "idx", "ld") and "papi_eventset" in str(p):
        return f == -1 if f is not None else False
    return None


def field_init(fx, cls, name):
    """Constant default member initialiser: an int/float, None when there is none or it is not constant."""
    r = fx.recs.get(cls) or {}
    for f in r.get("fields", ()):
        if f.get("n") == name:
            n = f.get("init")
            neg = False
            while n:
                k = n.get("k")
                if k in ("cast",):
                    n = n.get("x")
                elif k == "list" and len(n.get("a", ())) == 1:
                    n = n["a"][0]
                elif k == "un" and n.get("op") == "-":
                    neg = not neg
                    n = n["x"]
                elif k in ("int", "float", "fl", "bool"):
                    v = float(n["v"]) if k in ("float", "fl") else int(n["v"])
                    return -v if neg else v
                else:
                    return None
    return None


def copy_md(v, MD):
    """Is v a full copy of *metadata?"""
    if v == LD(MD):
        return True
    for x in A.subterms(v):
        if x and x[0] == "out" and x[1] == "memcpy":
            a = x[3]
            if a and LD(MD) in (a[0], LD(MD)) and ("p", MD[1][1], 0) in a:
                return True
    if ("p", MD[1][1], 0) in A.subterms(v) or LD(MD) in A.subterms(v):
        return None
    return False


def is_uuid(k, U, MD):
    if k == U:
        return True
    return k[0] in ("fld", "ld") and "region_uuid" in str(k) and any(x == ("p", MD[1][1], 0) for x in A.subterms(k)) or \
        (k[0] in ("fld", "ld") and k[-1] == "region_uuid" or "region_uuid" in str(k[1])) and ("p", MD[1][1], 0) in list(A.subterms(k))


def stored_names(st, e):
    out = []
    for x in st.events():
        if x[0] == "store" and len(x[1]) == 3 and x[1][0] == "e" and x[1][1] == NAMES:
            out.append((x[1][2], R.strip(x[2])))
        if x[0] == "call" and x[2] == NAMES and last(x[1]) in ("insert", "emplace", "try_emplace", "insert_or_assign"):
            out += pairs(x[4])
    return out


def pairs(a):
    if len(a) == 1 and a[0][0] in ("list", "ctor"):
        xs = a[0][1] if a[0][0] == "list" else a[0][2]
        return [(xs[0], R.strip(xs[1]))] if len(xs) == 2 else []
    if len(a) == 2:
        return [(a[0], R.strip(a[1]))]
    return []


def finalize(fin, e, st, idt, src, ne, ks):
    UR = LD(RG(idt, "metadata", "region_uuid"))
    stops = papi(st, "stop")
    if src and (ne is True or ne is None and not stops and maybe_one(st, src)):
        fin("stop: a counting region is stopped once", len(stops) == 1, "PAPI_stop is called %d times" % len(stops))
    elif src is None and not stops:
        eq = {v: st.truth(("bin", "==", LD(RG(idt, "event_set")), I(v), "bool")) for v in ks}
        # the path was chosen by the kind of the region, and leaves open one that counts
        for v, l in ks.items():
            if eq[v] is None and False in eq.values():
                ne = nonempty(st, l)
                if ne is True or ne is None and not size_known(st, l):
                    fin("stop: a counting region is stopped once", False, "a region whose events are those of %s can be finalised without PAPI_stop" % l[-1])
    known = has(st, ("has", LD(LOOKUP), UR))
    pushes = touches(st, LISTL, "push_back", "emplace_back", "insert", "push_front", "emplace_front")
    ins = []
    for x in st.events():
        if x[0] == "store" and len(x[1]) == 3 and x[1][0] == "e" and x[1][1] == LOOKUP:
            ins.append((x[1][2], R.strip(x[2])))
        if x[0] == "call" and x[2] == LOOKUP and last(x[1]) in ("insert", "emplace", "try_emplace", "insert_or_assign"):
            ins += pairs(x[4])
    if known is None:
        fin("caching: once per region", None, "path does not decide whether the region is already cached")
    elif known:
        fin("caching: once per region", not pushes, "an already cached region is listed again")
    else:
        fin("caching: once per region", len(pushes) == 1 and pushes[0][4] and pushes[0][4][-1] == UR and last(pushes[0][1]) in ("push_back", "emplace_back", "push_front", "emplace_front"),
            "list updates: %s" % [last(p[1]) for p in pushes])
        fin("caching: the name leads back to the id", (UR, idt) in ins and len(ins) == 1, "lookup updates: %s" % [(show(a), show(b)) for a, b in ins])
    cl, de = papi(st, "cleanup_eventset"), papi(st, "destroy_eventset")
    pops = [x for x in touches(st, LISTL) if last(x[1]) in ("pop_front", "erase", "pop_back", "remove", "clear")]
    small = bounded(st, len(pushes))
    if not cl and not de and not pops:
        fin("eviction: the cache stays bounded", small, "a path keeps a cache that exceeds its limit of ten")
        er = [x for x in touches(st, LOOKUP) if last(x[1]) in ("erase", "clear")]
        fin("eviction: the list and the lookup agree", not er, "the lookup loses an entry whose name stays listed")
    else:
        er = [x for x in touches(st, LOOKUP) if last(x[1]) in ("erase",)]
        ev = st.events()
        rounds = max(1, len(pops))
        fin("eviction: the evicted event set is cleaned up and destroyed once", len(cl) == len(de) == rounds and
            all(c[2] == d[2] and ev.index(c) < ev.index(d) for c, d in zip(cl, de)) and len({x[2] for x in cl}) == rounds,
            "cleanup %s, destroy %s" % ([show(x[2])[:80] for x in cl], [show(x[2])[:80] for x in de]))
        fin("eviction: the list and the lookup agree", len(pops) == rounds and len(er) == rounds, "removals from the list: %d, from the lookup: %d" % (len(pops), len(er)))
        for x in cl + de:
            fin("eviction: failure to release is fatal", checked(st, x[5]) is True, "result of PAPI_%s is not tested" % x[1])
        if len(er) == len(cl) == len(pops) == rounds:
            for k in range(rounds):
                evicted(fin, e, st, pushes, er[k], cl[k], pops[k])
    mess = touches(st, LISTL, "sort", "reverse", "splice", "merge", "swap", "unique", "assign")
    fin("eviction: the oldest entry leaves", not mess, "%s changes the order of the cached names" % (last(mess[0][1]) if mess else ""))
    own = [x for x in st.events() if x[0] == "store" and x[1] == RG(idt, "papi_eventset")]
    fin("caching: the finalised region keeps its event set", not own, "papi_eventset of the region becomes %s" % (show(own[0][2]) if own else ""))


def evicted(fin, e, st, pushes, er, cl, p):
    key = er[4][0]
    if key[0] == "it":
        key = key[2]
    es = cl[2]
    ok = None
    if es and es[0] == "ld" and es[1][0] == "f" and es[1][2] == "papi_eventset" and es[1][1][0] == "e" and es[1][1][1] == REGIONS:
        ident = es[1][1][2]
        ok = False
        if ident[0] in ("idx", "ld"):
            k2 = ident[2] if ident[0] == "idx" else ident[1][2]
            ok = k2 == key
    fin("eviction: the region destroyed is the one removed from the cache", ok, "removes %s but releases %s" % (show(key)[:90], show(es)[:120]))
    pos = key[2][1] if key[0] == "idx" and key[2][0] == "pos" else None
    if pos and last(p[1]) in ("pop_front", "pop_back") and last(p[1]) != "pop_" + pos:
        fin("eviction: the region destroyed is the one removed from the cache", False, "the name looked up is not the one popped")
    if pos and pushes:
        new = "front" if last(pushes[0][1]).endswith("front") else "back"
        fin("eviction: the oldest entry leaves", pos != new, "names are added at the %s and evicted from the %s" % (new, pos))
    got = R.strip(e.load(st, ("f", es[1][1], "papi_eventset"))) if es and es[0] == "ld" and es[1][0] == "f" else None
    fin("eviction: the handle is reset", got == I(-1) if got is not None else None, "papi_eventset is %s afterwards" % (show(got) if got else "?"))


LIMIT = 10


def bounded(st, pushed):
    """Does the path know that the cache list stays within the limit?"""
    top = None
    for items, (lo, hi) in st.bounds.items():
        if len(items) == 1 and items[0][1] == 1 and hi is not None:
            a = items[0][0]
            if a[0] == "call" and last(a[1]) == "size" and "sleeping_regions" in str(a[2]):
                seen = sum(1 for x in A.subterms(a[2]) if x and x[0] == "mut" and str(x[1]).startswith(("push", "emplace", "insert")))
                h = hi + max(0, pushed - seen)
                top = h if top is None else min(top, h)
    return top is not None and top <= LIMIT


def destructor(rep, fx, fin):
    ds = [f for f in fx.methods(CLS) if (f.get("dtor") or f["n"].startswith("~")) and f.get("body")]
    if not ds:
        rep.undecided(fin.rule, "shutdown: every cached event set is destroyed", "no destructor found")
        return
    e, out = paths(rep, fx, ds[0], fin.rule, in_dtor=True)
    fatal(rep, "shutdown", out)
    for kind, st, v in out or ():
        if kind != "return":
            continue
        cl, de = papi(st, "cleanup_eventset"), papi(st, "destroy_eventset")
        idx = []
        for a, b in zip(cl, de):
            if a[2] != b[2]:
                fin("shutdown: every cached event set is destroyed", False, "cleans up %s, destroys %s" % (show(a[2]), show(b[2])))
        for x in cl + de:
            fin("shutdown: failure to release is fatal", checked(st, x[5]) is True, "result of PAPI_%s is not tested" % x[1])
        und = False
        for x in de:
            es = x[2]
            i = None
            if es[0] == "ld" and es[1][0] == "f" and es[1][1][0] == "e" and es[1][1][1] == REGIONS:
                ident = es[1][1][2]
                if ident[0] == "ld" and ident[1][0] == "e" and ident[1][1] == LOOKUP:
                    i = R.elem_of(ident[1][2], LISTL)
                elif ident[0] == "ld" and ident[1][0] == "f" and ident[1][2] == "second":
                    i = ident[1][1][2] if ident[1][1][0] == "e" and ident[1][1][1] == LOOKUP else None
            if i is None:
                und = True
            else:
                idx.append(i)
        if und:
            fin("shutdown: every cached event set is destroyed", None, "the destroyed event sets are not recognised as those of the cached names")
            continue
        done = R.complete(st, idx, LISTL)
        if done is not True and R.complete(st, idx, LOOKUP) is True:
            done = True
        fin("shutdown: every cached event set is destroyed", done and len(cl) == len(de), "destroys %d (cleans up %d) of the cached event sets" % (len(de), len(cl)))


# ------------------------------------------------------------------ B03
def b03(rep):
    rule = "an unknown region id stops the process before any effect"
    rep.rule(rule, "on every path of enter/exit/increment/metric/finalize the id was found in the region table before any PAPI call or store; "
                   "otherwise the path ends in exit() with a failure status and no effect")
    fx = facts(rep)
    acc = Acc(rep, rule)
    for name in sorted(API - {"__daisy_instrumentation_init"}):
        f = api(fx, name)
        e, out = paths(rep, fx, f, rule)
        idt = ("p", f["ps"][0]["n"], 0)
        short = name.split("_")[-1]
        for kind, st, v in out or ():
            known = has(st, ("has", LD(REGIONS), idt))
            if kind == "return":
                acc(short + ": a known id is required", known is True, "a path goes on %s" % ("for an id that is not in the table" if known is False else "without looking the id up"))
                oth = [x for x in effects(st) if x[0] == "store" and region_key(x[1]) not in (None, idt) and not evict_key(x[1])]
                acc(short + ": only that region is touched", not oth, "writes %s" % (show(LD(oth[0][1]))[:120] if oth else ""))
            elif kind == "exit" and known is False:
                ef = effects(st)
                acc(short + ": unknown id has no effect", not ef, "%s before exiting" % (str(ef[0][:2])[:120] if ef else ""))
                x = [x for x in st.events() if x[0] == "exit"][-1]
                code = R.strip(x[2][0]) if x[2] else None
                bad = "abort" not in x[1] and "terminate" not in x[1] and not (code is not None and A.is_int(code) and code[1] != 0)
                acc(short + ": unknown id fails the process", not bad, "%s(%s)" % (x[1], show(code) if code else ""))
                keep(acc, short, st)
            if kind == "return":
                keep(acc, short, st)
    registering(rep, fx, kinds(fx), ids=True)
    acc.done([n + ": unknown id fails the process" for n in ("enter", "exit", "finalize", "increment", "metric")])


def keep(acc, short, st):
    """Issued ids stay issued: nothing leaves the region table or the table of names."""
    for loc, what in ((REGIONS, "region table"), (NAMES, "table of names")):
        gone = [x for x in touches(st, loc) if last(x[1]) in ("erase", "clear", "extract", "swap", "merge", "pop_back", "pop_front", "resize")]
        re = [x for x in st.events() if x[0] == "store" and x[1] == loc]
        if loc is REGIONS:
            nx = [x for x in st.events() if x[0] == "store" and x[1] == NEXT]
            acc(short + ": the id counter is left alone", not nx, "the counter becomes %s" % (show(nx[0][2]) if nx else ""))
        acc(short + ": issued ids stay known", not gone and not re, "%s on the %s" % (last(gone[0][1]) if gone else "assignment", what))


def region_key(l):
    while isinstance(l, tuple) and l and l[0] in ("f", "e"):
        if l[0] == "e" and l[1] == REGIONS:
            return l[2]
        l = l[1]
    return None


def evict_key(l):
    k = region_key(l)
    return k is not None and k[0] in ("idx", "ld") and "sleeping_regions" in str(k)


# ------------------------------------------------------------------ B05
STATS = ("n", "mean", "variance", "min", "max")


def numlim(t, which):
    """Is t the largest (which='max') / smallest representable value, i.e. a neutral start of a minimum/maximum?"""
    t = R.strip(t)
    if t[0] == "un" and t[1] == "-":
        return numlim(t[2], "max") if which == "min" else False
    if t[0] == "call" and "numeric_limits" in t[1]:
        n, ty = last(t[1]), t[1]
        if which == "max":
            return n in ("max", "infinity")
        return n == "lowest" or n == "min" and "<double>" not in ty and "<float>" not in ty
    if t[0] == "bin" and t[1] == "-" and t[3] == I(1):
        return numlim(t[2], which)
    if A.is_int(t):
        return t[1] >= 2 ** 63 - 1 if which == "max" else t[1] <= -2 ** 63 + 1
    return False


def extreme(st, e, f, x, old, which, norm, opp=None):
    """Is f = min(x, old) (which='min') resp. max on this path?"""
    fs = R.strip(f)
    if fs[0] == "call" and last(fs[1]) in (which, "f" + which) and len(fs[3]) == 2:
        a, b = fs[3]
        return ratio.same(a, x, norm) and ratio.same(b, old, norm) or ratio.same(a, old, norm) and ratio.same(b, x, norm)
    rel = ratio.order(st, x, old, norm)
    if ratio.same(f, x, norm):
        return bool(rel & ({"<="} if which == "min" else {">="}))
    if ratio.same(f, old, norm):
        if opp is not None and ratio.order(st, x, opp, norm) & ({">", ">="} if which == "min" else {"<", "<="}):
            return True          # min <= max always holds: beyond the other end is not beyond this one
        return bool(rel & ({">="} if which == "min" else {"<="}))
    return False


def judge_stats(acc, inst, st, e, loc, x, first, norm=lambda t: t, init=None):
    """loc: {stat: location}; x: the new sample; first: is this the first sample?"""
    new = {k: e.load(st, loc[k]) for k in STATS}
    if first is None:
        acc(inst + ": first sample", None, "the path does not decide whether this is the first sample")
        return
    if first:
        nz = norm

        def norm(t):
            t = nz(t)
            if init:
                for k in ("n", "mean", "variance"):
                    if t == LD(loc[k]) and init.get(k) is not None:
                        return A.I(int(init[k]))
            return t
        one, zero = I(1), I(0)
        for k, want in (("n", one), ("mean", x), ("variance", zero)):
            acc(inst + ": first sample", ratio.same(new[k], want, norm), "%s becomes %s" % (k, show(new[k])[:160]))
        for k, w in (("min", "max"), ("max", "min")):
            f = new[k]
            fs = R.strip(norm(f))
            start = norm(LD(loc[k]))
            if ratio.same(f, x, norm):
                good = True
            elif fs[0] == "call" and last(fs[1]) == k and len(fs[3]) == 2:
                good = any(ratio.same(a, x, norm) and numlim(norm(b), w) for a, b in (fs[3], fs[3][::-1]))
            else:
                good = numlim(fs, w) and bool(ratio.order(st, x, f, norm) & ({">="} if k == "min" else {"<="}))
                if not good and init and init.get(k) is not None and f == LD(loc[k]) and abs(init[k]) >= 2 ** 62:
                    good = True
            acc(inst + ": first sample", good, "%s becomes %s" % (k, show(f)[:160]))
        return
    n0, m0, v0 = LD(loc["n"]), LD(loc["mean"]), LD(loc["variance"])
    B = lambda op, a, b: ("bin", op, a, b, "double")
    n1 = B("+", n0, I(1))
    m1 = B("+", m0, B("/", B("-", x, m0), n1))
    v1 = B("+", v0, B("/", B("-", B("*", B("-", x, m0), B("-", x, m1)), v0), n1))
    for k, want in (("n", n1), ("mean", m1), ("variance", v1)):
        acc(inst + ": later sample", ratio.same(new[k], want, norm), "%s becomes %s" % (k, show(new[k])[:200]))
    for k in ("min", "max"):
        acc(inst + ": later sample", extreme(st, e, new[k], x, LD(loc[k]), k, norm, LD(loc["max" if k == "min" else "min"])), "%s becomes %s without the comparison that justifies it" % (k, show(new[k])[:120]))


def whole(st, idxs, size):
    """Do the visited indices cover 0..size-1 on this path?"""
    if any(not A.is_int(i) for i in idxs):
        if not idxs or A.is_int(idxs[-1]) or [i[1] for i in idxs[:-1] if A.is_int(i)] != list(range(len(idxs) - 1)):
            return None
    elif [i[1] for i in idxs] != list(range(len(idxs))):
        return False
    nxt = I(len(idxs)) if all(A.is_int(i) for i in idxs) else ("bin", "+", idxs[-1], I(1), "l")
    more = st.truth(("bin", "<", nxt, size, "bool"))
    return None if more is None else not more


def b05(rep):
    fx = facts(rep)
    ks = kinds(fx)
    r1 = "each measurement is (end - start) of the matching enter/exit"
    rep.rule(r1, "dataflow of clock and counter readings through enter_region/exit_region on every path")
    r2 = "aggregated statistics are the running mean, population variance, count, minimum and maximum"
    rep.rule(r2, "the stored values equal Welford's update as rational functions of the previous state and the sample (base case and step); "
                 "minimum and maximum are justified by the path's comparisons")
    a1, a2 = Acc(rep, r1), Acc(rep, r2)
    AGG = LD(S("aggregate_events"))
    f = api(fx, "__daisy_instrumentation_enter")
    idt = ("p", f["ps"][0]["n"], 0)
    e, out = paths(rep, fx, f, r1)
    for kind, st, v in out or ():
        if kind != "return":
            continue
        ev = st.events()
        agg = st.truth(AGG)
        clock = papi(st, "get_real_nsec")
        rd = papi(st, "read")
        if agg is None or not clock:
            a1("enter: start time", False if not clock else None, "no clock reading" if not clock else "the recording mode is not decided")
            continue
        push = [x for x in ev if x[0] == "push"]
        dropped(a1, "enter: earlier measurements are kept", st)
        if agg:
            s1 = R.strip(e.load(st, RG(idt, "last_start")))
            a1("enter: start time", s1 in [c[5] for c in clock], "last_start becomes %s" % show(s1))
            f0, f1 = LD(RG(idt, "first_start")), R.strip(e.load(st, RG(idt, "first_start")))
            z = st.truth(("bin", "==", f0, I(0), "bool"))
            a1("enter: first start is kept", z is not None and f1 == (s1 if z else f0), "first_start becomes %s" % show(f1))
            used = s1
        else:
            p = [x for x in push if x[1] == RG(idt, "starts")]
            a1("enter: start time", len(p) == 1 and R.strip(p[0][2]) in [c[5] for c in clock], "pushes %s" % [show(x[2]) for x in p])
            used = R.strip(p[0][2]) if p else None
        other = [x for x in push if x[1] != RG(idt, "starts")]
        a1("enter: nothing else is recorded", not other, "also pushes to %s" % (show(LD(other[0][1])) if other else ""))
        at = [ev.index(c) for c in clock if c[5] == used]
        for x in rd:
            if at:
                a1("enter: counters are read before the clock", ev.index(x) < at[0], "the measured time includes reading the counters")
            lc = e.load(st, RG(idt, "last_counts"))
            a1("enter: start counters are kept", lc[0] == "reading" or (lc[0] == "rec" and lc[1][0] == "reading" and not lc[2]), "last_counts becomes %s" % show(lc)[:120])

    f = api(fx, "__daisy_instrumentation_exit")
    idt = ("p", f["ps"][0]["n"], 0)
    e, out = paths(rep, fx, f, r2)
    RT = {"n": RG(idt, "runtime_n"), "mean": RG(idt, "runtime_mean"), "variance": RG(idt, "runtime_variance"), "min": RG(idt, "runtime_min"), "max": RG(idt, "runtime_max")}
    init = {k: field_init(fx, "DaisyRegion", RT[k][2]) for k in STATS}
    for kind, st, v in out or ():
        if kind != "return":
            continue
        ev = st.events()
        agg = st.truth(AGG)
        clock = papi(st, "get_real_nsec")
        rd = papi(st, "read")
        push = [x for x in ev if x[0] == "push"]
        dropped(a1, "exit: earlier measurements are kept", st)
        if agg is None or len(clock) != 1:
            a1("exit: duration", False if not clock else None, "%d clock readings" % len(clock))
            continue
        end = clock[0][5]
        for x in rd:
            a1("exit: counters are read after the clock", ev.index(x) > ev.index(clock[0]), "the measured time includes reading the counters")
        src = kind_of(st, [LD(RG(idt, "event_set"))], ks)
        have = bool(src) and nonempty(st, src) is True
        if not agg:
            p = [x for x in push if x[1] == RG(idt, "durations")]
            want = ("bin", "-", end, LD(("e", RG(idt, "starts"), ("pos", "back"))), "long long")
            a1("exit: duration", len(p) == 1 and ratio.same(p[0][2], want), "pushes %s" % [show(x[2]) for x in p])
            pc = [x for x in push if x[1] == RG(idt, "counts")]
            other = [x for x in push if x not in p and x not in pc]
            a1("exit: nothing else is recorded", not other, "also pushes to %s" % (show(LD(other[0][1])) if other else ""))
            if have:
                a1("exit: counter differences", diffs(st, pc, idt, rd), "pushes %s" % [show(x[2])[:200] for x in pc])
            else:
                a1("exit: counter differences", None if src is None and pc else not pc, "records counters for a region without events")
            continue
        a1("exit: nothing is listed when aggregating", not push, "pushes to %s" % (show(LD(push[0][1])) if push else ""))
        x = ("bin", "-", end, LD(RG(idt, "last_start")), "long long")
        z = st.truth(("bin", "==", LD(RT["n"]), I(0), "bool"))
        if z is None:
            z = False if st.truth(("bin", ">", LD(RT["n"]), I(0), "bool")) else None
        if z is None:
            judge_stats(a2, "runtime", st, e, RT, x, False)
            judge_stats(a2, "runtime", st, e, RT, x, True, init=init)
        else:
            judge_stats(a2, "runtime", st, e, RT, x, z, init=init)
        if have:
            counters(a2, st, e, idt, src, rd)
    a1.done(["enter: start time", "exit: duration", "exit: counter differences"])
    for name, x in (("__daisy_instrumentation_metric", None), ("__daisy_instrumentation_increment", None)):
        f = api(fx, name)
        e, out = paths(rep, fx, f, r2)
        idt, key = ("p", f["ps"][0]["n"], 0), ("p", f["ps"][1]["n"], 1)
        val = ("p", f["ps"][2]["n"], 2)
        inst = "user metric (%s)" % name.split("_")[-1]
        L = {k: ("e", RG(idt, "static_counters_" + k), key) for k in STATS}
        for kind, st, v in out or ():
            if kind != "return":
                continue
            first = None
            for k in STATS:
                h = has(st, ("has", LD(RG(idt, "static_counters_" + k)), key))
                if h is not None and first is None:
                    first = not h
            if first is None:
                z = st.truth(("bin", "==", LD(L["n"]), I(0), "bool"))
                first = z

            def norm(t, first=first):
                return I(0) if first and t in [LD(x) for x in L.values()] else t
            if first is None and "static_counters" not in str(list(st.facts)) + str(list(st.bounds)):
                judge_stats(a2, inst, st, e, L, val, False)       # nothing was asked: later samples come here as well
            else:
                judge_stats(a2, inst, st, e, L, val, first, norm)
    a2.done([i + s for i in ("runtime", "counters", "user metric (metric)", "user metric (increment)") for s in (": first sample", ": later sample")])

    r3 = "registering a known region again keeps its recorded results"
    rep.rule(r3, "on the paths of init that find the name, only the event set handle of the region is written")
    a3 = Acc(rep, r3)
    f = api(fx, "__daisy_instrumentation_init")
    U = LD(("f", ("d", ("p", f["ps"][0]["n"], 0)), "region_uuid"))
    e, out = paths(rep, fx, f, r3)
    for kind, st, v in out or ():
        if kind == "return" and (has(st, ("has", LD(LOOKUP), U)) or has(st, ("has", LD(NAMES), U))):
            lost(a3, "re-registration", st)
    f = api(fx, "__daisy_instrumentation_finalize")
    e, out = paths(rep, fx, f, r3)
    for kind, st, v in out or ():
        if kind == "return":
            lost(a3, "finalisation", st)
    a3.done(["re-registration", "finalisation"])


TRANSIENT = ("papi_eventset", "last_counts", "last_start")
SHRINK = ("clear", "erase", "pop_back", "pop_front", "swap", "extract", "merge")


def lost(acc, inst, st):
    """Nothing but the event set handle and the transient start values of a region changes."""
    def kept(l):
        return region_key(l) is not None and not (l[0] == "f" and l[2] in TRANSIENT) and not (l[0] == "e" and l[1][0] == "f" and l[1][2] in TRANSIENT)
    w = [x[1] for x in st.events() if x[0] in ("store", "push") and kept(x[1])]
    w += [x[2] for x in touches(st, REGIONS, "erase", "clear", "insert_or_assign")]
    w += [x[2] for x in st.events() if x[0] == "call" and isinstance(x[2], tuple) and x[2] and x[2][0] in ("f", "e") and kept(x[2]) and
          last(x[1]) in SHRINK + ("resize", "assign", "insert", "emplace", "push_back", "emplace_back")]
    acc(inst, not w, "writes %s" % (show(LD(w[0])) if w else ""))


def dropped(acc, inst, st):
    """No recorded measurement is removed."""
    w = [x for x in st.events() if x[0] == "call" and isinstance(x[2], tuple) and x[2] and x[2][0] in ("f", "e") and region_key(x[2]) is not None and
         not (x[2][0] == "f" and x[2][2] in TRANSIENT) and last(x[1]) in SHRINK]
    acc(inst, not w, "%s on %s" % (last(w[0][1]), show(LD(w[0][2]))) if w else "")


def diffs(st, pc, idt, rd):
    if len(pc) != 1 or len(rd) != 1:
        return False if len(pc) != 1 else None
    v = pc[0][2]
    if v[0] != "rec" or v[1][0] != "reading":
        return False if v[0] == "reading" and st_nonempty(st, v) else None
    idx = []
    for i, t in v[2]:
        if A.is_int(i):
            want = ("bin", "-", ("cnt", v[1][1], i), LD(("e", RG(idt, "last_counts"), i)), "l")
            if not ratio.same(t, want):
                return False
        idx.append(i)
    idx.sort(key=lambda i: (not A.is_int(i), i[1] if A.is_int(i) else 0))
    return whole(st, idx, v[1][2]) if v[1][2] is not None else None


def st_nonempty(st, v):
    return st.truth(("bin", ">", v[2], I(0), "bool")) is True if v[2] is not None else False


def counters(acc, st, e, idt, src, rd):
    L = {k: RG(idt, k) for k in STATS}
    first = None
    for k in STATS:
        r = st.truth(("call", "empty", LD(L[k]), (), 0))
        if r is not None:
            first = r
        elif first is None:
            first = sized(acc, st, L[k], src, rd)
    idx = sorted({x[1][2] for x in st.events() if x[0] == "store" and x[1][0] == "e" and x[1][1] in L.values()}, key=lambda i: (not A.is_int(i), i[1] if A.is_int(i) else 0))
    w = whole(st, idx, size_of(src))
    if not idx and len(rd) == 1:
        sz = [t for t in [rd[0][4]] if t is not None]
        w = whole(st, idx, sz[0]) if sz else None
    if w is None and idx and not A.is_int(idx[-1]):
        w = whole(st, idx, rd[0][4]) if rd and rd[0][4] is not None else None
    elif rd and rd[0][4] is not None:
        w = whole(st, idx, rd[0][4])
    # a loop over n elements that provably exist is entered: a path without iterations needs size <= 0
    acc("counters: every event is aggregated", w, "updates elements %s only" % [show(i) for i in idx])

    def norm(t):
        if t[0] == "idx" and t[1][0] == "resized" and first:
            return t[1][3]
        if t[0] == "idx" and t[1][0] == "filled":
            return t[1][2]
        if t[0] == "idx" and t[1][0] == "resized" and first is False:
            return LD(("e", t[1][1][1], t[2])) if t[1][1][0] == "ld" else t
        return t
    for i in idx:
        if not A.is_int(i):
            continue
        if len(rd) != 1:
            acc("counters: first sample", None, "%d counter readings" % len(rd))
            continue
        k = [x for x in st.events() if x[0] == "papi" and x[1] == "read"]
        rid = reading_id(st, e, i)
        x = ("bin", "-", ("cnt", rid, i), LD(("e", RG(idt, "last_counts"), i)), "long long")
        judge_stats(acc, "counters", st, e, {k: ("e", L[k], i) for k in STATS}, x, first, norm)


def sized(acc, st, l, src, rd):
    """First sample decided by comparing the number of statistics with the number of counters."""
    for key, v in st.facts.items():
        if key[0] != "eq0" or key[2] != 0 or sorted(c for _, c in key[1]) != [-1, 1]:
            continue
        ts = [a for a, _ in key[1]]
        mine = [t for t in ts if is_size(t, l)]
        if len(mine) != 1:
            continue
        o = [t for t in ts if t is not mine[0]][0]
        if is_size(o, src) or rd and rd[0][4] is not None and A.lin(rd[0][4]) == A.lin(o):
            return not v
        if any(is_size(o, S(x)) for _, x in KINDS):
            acc("counters: first sample", False, "the statistics restart whenever their number differs from %s" % show(o))
    return None


def reading_id(st, e, i):
    for v in st.env.values():
        for t in A.subterms(v) if isinstance(v, tuple) else ():
            if t and t[0] == "cnt" and t[2] == i:
                return t[1]
            if t and t[0] == "reading":
                return t[1]
    return None


CHECKS = {"B01": b01, "B02": b02, "B03": b03, "B05": b05}
