"""Argument capture: index round trip, I/O error discipline, payload sizes, distinct
names, capture strategies."""
import glob
import os

from lib import absint as A
from lib import cxx
from lib import rules as R
from lib.absint import I, last, show

NS = "arg_capture::"
SER = NS + "ArgCapture::serialize_into"
PARSE = NS + "ArgCapture::parse_from"
IO = NS + "ArgCaptureIO::"
THIS = ("d", ("this",))


def facts():
    fs = sorted(glob.glob(cxx.REPO + "/arg-capture-io/src/*.cpp")) + sorted(glob.glob(cxx.REPO + "/rtl/src/capture*.cpp"))
    return cxx.load(fs + [cxx.VERIF + "/tus/from_index.cpp"])


class Eng(R.JEngine):
    opaque = ("base64_encode", "base64_decode")


class EngIdx(R.JEngine):
    opaque = ("base64_encode", "base64_decode", SER, PARSE)

    def on_call(self, st, node, q, rl, rv, args, an):
        if q == SER and rl is not None:
            s = self.loc(an[0], st)[0][1]
            self.store(st, s, ("ser", self.load(st, s), rl), node)
            return [(st, ("void",))]
        if q == PARSE:
            l0, l1 = [self.resolve(st, self.loc(x, st)[0][1]) for x in an[:2]]
            st.emit("parse", l0, l1, args[2] if len(args) > 2 else None)
            return [(st, ("void",))]
        return super().on_call(st, node, q, rl, rv, args, an)


def run(rep, eng, fn, **kw):
    """Paths of fn, or None (undecided) when the construct is out of scope."""
    try:
        out = eng.run(fn, **kw)
    except A.Undecided as e:
        rep.undecided("engine", fn["q"], str(e))
        return None
    rep.fns |= eng.funcs
    rep.count("paths", len(out))
    rep.count("calls_evaluated", eng.ncalls)
    return out


def fld(loc, n):
    return ("ld", ("f", loc, n))


def recget(v, key):
    if isinstance(v, tuple) and v and v[0] == "rec":
        for k, x in v[2]:
            if k == key:
                return x
        return recget(v[1], key)
    return None


def reckeys(v):
    if isinstance(v, tuple) and v and v[0] == "rec":
        return [k for k, _ in v[2]] + [k for k in reckeys(v[1])]
    return []


WIDTH = {"bool": (1, False), "int": (32, True), "unsigned int": (32, False), "long": (64, True), "unsigned long": (64, False),
         "short": (16, True), "unsigned short": (16, False), "signed char": (8, True), "unsigned char": (8, False), "char": (8, True),
         "long long": (64, True), "unsigned long long": (64, False), "int32_t": (32, True), "uint32_t": (32, False),
         "size_t": (64, False), "std::size_t": (64, False), "uint64_t": (64, False), "int64_t": (64, True), "uint8_t": (8, False),
         "int8_t": (8, True), "int16_t": (16, True), "uint16_t": (16, False)}


def holds_type(have, want):
    """Can every value of scalar/vector type `want` be represented in `have`?  None when unknown."""
    h, w = have.replace("const ", "").strip("& "), want.replace("const ", "").strip("& ")
    if h == w:
        return True
    for v in ("std::vector<", "vector<"):
        if h.startswith(v) and w.startswith(v):
            return holds_type(h[len(v):].split(",")[0].rstrip("> "), w[len(v):].split(",")[0].rstrip("> "))
    if h in WIDTH and w in WIDTH:
        (a, s), (b, t) = WIDTH[h], WIDTH[w]
        if s == t or b == 1:
            return a >= b
        return s and a > b
    if "string" in h and ("string" in w or "path" in w):
        return True
    return None


# ============================================================ A01
def a01(rep):
    rep.rule("record-writer", "on every path of the record writer each scalar field, the dimension list and whichever payload "
             "the record holds are stored under one key from that very field")
    rep.rule("record-reader", "on every path of the record reader every field is filled from the key the writer used for it, at a "
             "type that holds all its values, and the record is filed under its own (argument, in/out) key")
    rep.rule("index-writer", "the index file holds format, target, invocation, element and one record per capture")
    rep.rule("index-reader", "the index loader restores each of them from the same key and rejects other formats")
    rep.rule("record-copy", "copying, moving or constructing a record keeps every field")
    fx = facts()
    ser, par = fx.one(SER), fx.one(PARSE)
    rec = fx.recs.get(NS + "ArgCapture")
    rep.need(rec, "struct ArgCapture")
    fields = {f["n"]: f["t"] for f in rec["fields"]}
    for f in ("arg_idx", "after", "primitive_type", "dims", "data", "ext_file"):
        rep.need(f in fields, "field ArgCapture::" + f)
    scalars = [f for f in fields if f not in ("data", "ext_file", "dims")]
    # ---- writer
    wkey = {}
    outs = run(rep, Eng(fx), ser)
    jp = ("d", ("p", ser["ps"][0]["n"], 0))
    npub = 0
    for kind, s, v in outs or ():
        if kind != "return":
            continue
        entry = None
        for e in s.events():
            if e[0] == "call" and last(e[1]) in ("push_back", "emplace_back", "operator+=") and e[2] == jp:
                entry = e[4][0] if entry is None else "two"
        if entry is None:
            jv = s.env.get(jp)
            if isinstance(jv, tuple) and jv[0] == "list" and len(jv[1]) == 1:
                entry = jv[1][0]
        if entry is None or entry == "two":
            rep.bad("record-writer", "one record is appended", "a path of %s appends %s records to the index" % (SER, "two" if entry else "no"))
            continue
        npub += 1
        if not (isinstance(entry, tuple) and entry[0] == "rec"):
            rep.undecided("record-writer", "entry", "the record is not a recognisable JSON object")
            continue
        for f in scalars:
            ks = [k for k in reckeys(entry) if recget(entry, k) == fld(THIS, f)]
            if not ks:
                kk = wkey.get(f)
                rep.bad("record-writer", "field " + f, "no key of the written record carries field %s unchanged%s"
                        % (f, " (key %s holds %s)" % (show(kk), show(recget(entry, kk))) if kk and recget(entry, kk) else ""))
            else:
                wkey.setdefault(f, ks[0])
                rep.judge("record-writer", "field " + f, wkey[f] == ks[0], "paths disagree on the key of " + f)
        dk, st_ = None, None
        for k in reckeys(entry):
            c = R.copy_of(s, recget(entry, k), ("f", THIS, "dims"))
            val = R.strip(recget(entry, k))
            if c is True:
                dk, st_ = k, True
                break
            if isinstance(val, tuple) and val[0] == "list" and (dk is None) and all(R.elem_of(x, ("f", THIS, "dims")) is not None for x in val[1]):
                dk, st_ = k, c
        if dk is None:
            und = [k for k in reckeys(entry) if k == wkey.get("dims", ("s", "dims"))]
            if und and R.copy_of(s, recget(entry, und[0]), ("f", THIS, "dims")) is None:
                rep.undecided("record-writer", "field dims", "unrecognised copy of the dimension list")
            else:
                rep.bad("record-writer", "field dims", "no key of the written record carries the dimension list")
        elif st_ is False:
            rep.bad("record-writer", "field dims", "the dimension list written under %s is not a complete in-order copy on some path" % show(dk))
        elif st_ is None:
            rep.undecided("record-writer", "field dims", "cannot see whether all dimensions are written")
        else:
            wkey.setdefault("dims", dk)
            rep.judge("record-writer", "field dims", wkey["dims"] == dk, "paths disagree on the key of dims")
        data, ext = fld(THIS, "data"), fld(THIS, "ext_file")
        td, te = s.truth(data), s.truth(ext)
        enc = [k for k in reckeys(entry) if is_enc(recget(entry, k))]
        exs = [k for k in reckeys(entry) if is_extname(recget(entry, k))]
        if td is True or td is None and enc:
            rep.judge("record-writer", "payload data", len(enc) == 1, "a record with inline data is written without it on some path")
            if enc:
                a = recget(entry, enc[0])[3]
                p, n = a[0], R.strip(a[1])
                good = is_member(p, "data", data) and is_member(n, "size", data)
                rep.judge("record-writer", "payload data is whole", good, "inline payload is encoded from (%s, %s)" % (show(p), show(n)))
                wkey.setdefault("data", enc[0])
                rep.judge("record-writer", "payload key", wkey["data"] == enc[0], "paths disagree on the payload key")
        elif td is False:
            rep.judge("record-writer", "no data without payload", not enc, "data is written although the record has none")
            if te is True:
                rep.judge("record-writer", "payload ext_file", len(exs) == 1, "a record with a payload file is written without its name on some path")
                if exs:
                    wkey.setdefault("ext_file", exs[0])
                    rep.judge("record-writer", "payload file key", wkey["ext_file"] == exs[0], "paths disagree on the payload-file key")
            elif te is None and not exs:
                rep.bad("record-writer", "payload ext_file", "a path writes the record without looking at its payload file")
        elif td is None:
            rep.bad("record-writer", "payload data", "a path writes the record without looking at its inline data")
    rep.need(outs is None or npub, "writer appends a record")
    # ---- reader
    ent, mp, bp = [("d", ("p", p["n"], i)) if p["t"].endswith("&") else ("p", p["n"], i) for i, p in enumerate(par["ps"])]
    entl = ent if ent[0] == "d" else ("v",)
    outs = run(rep, Eng(fx), par)
    for kind, s, v in outs or ():
        if kind != "return":
            continue
        ins = [e for e in s.events() if e[0] == "call" and last(e[1]) in ("emplace", "insert", "try_emplace", "insert_or_assign") and e[2] == mp]
        if len(ins) != 1 or len(ins[0][4]) not in (1, 2):
            if not ins:
                rep.bad("record-reader", "record is filed", "a path of %s files no record" % PARSE)
            else:
                rep.undecided("record-reader", "record is filed", "unrecognised insertion")
            continue
        args = ins[0][4]
        if len(args) == 1 and args[0][0] == "list" and len(args[0][1]) == 2:
            args = args[0][1]
        if len(args) != 2:
            rep.undecided("record-reader", "record is filed", "unrecognised insertion")
            continue
        key, val = args
        got = {}
        for f in fields:
            got[f] = recget(val, f)
        for f in scalars + ["dims"]:
            g = got[f]
            if f not in wkey:
                continue
            while isinstance(g, tuple) and g[0] == "cast":
                g = g[2]
            if not (isinstance(g, tuple) and g[0] == "jget"):
                rep.bad("record-reader", "field " + f, "field %s of the loaded record is %s, not the stored value" % (f, show(g) if g else "unset"))
                continue
            src = jkey(g[2], entl)
            rep.judge("record-reader", "field " + f, src == wkey[f],
                      "field %s is written under key %s but read from %s" % (f, show(wkey[f]), show(src) if src else show(g[2])))
            ht = holds_type(g[1], fields[f])
            if ht is None:
                rep.undecided("record-reader", "type of " + f, "read as " + g[1])
            else:
                rep.judge("record-reader", "type of " + f, ht, "field %s of type %s is read at the narrower type %s" % (f, fields[f], g[1]))
        good = key_is(key, got)
        if good is None:
            rep.undecided("record-reader", "record key", show(key))
        else:
            rep.judge("record-reader", "record key", good, "the record is filed under %s" % show(key))
        # payload
        if "data" in wkey:
            hd = has(s, ent, wkey["data"])
            d = got["data"]
            isdec = isinstance(d, tuple) and A.mentions(d, lambda x: x[0] == "call" and last(x[1]) == "base64_decode"
                                                         and len(x[3]) == 1 and jkey(R.strip(x[3][0]), entl) == wkey["data"])
            if hd is True:
                rep.judge("record-reader", "payload data", isdec, "a record with an inline payload is loaded with data = %s" % show(d))
            elif hd is None and not isdec:
                rep.bad("record-reader", "payload data", "a path loads the record without looking for key %s" % show(wkey["data"]))
            else:
                rep.ok("record-reader", "payload data")
            if "ext_file" in wkey and hd is not True:
                he = has(s, ent, wkey["ext_file"])
                x = got["ext_file"]
                isx = ext_ok(x, entl, wkey["ext_file"], bp)
                if he is True:
                    rep.judge("record-reader", "payload ext_file", isx, "a record with a payload file is loaded with ext_file = %s" % show(x))
                elif he is None and not isx:
                    rep.bad("record-reader", "payload ext_file", "a path loads the record without looking for key %s" % show(wkey["ext_file"]))
    index_rules(rep, fx)
    copies(rep, fx, rec, fields)


def is_enc(v):
    return isinstance(v, tuple) and v and v[0] == "call" and last(v[1]) == "base64_encode"


def is_member(v, name, obj):
    """obj->name()"""
    v = R.strip(v)
    return isinstance(v, tuple) and v[0] == "call" and last(v[1]) == name and v[2] is not None and A.mentions(v[2], lambda x: x == obj)


def is_extname(v):
    return isinstance(v, tuple) and A.mentions(v, lambda x: x[0] == "call" and last(x[1]) == "filename") and \
        A.mentions(v, lambda x: x == fld(THIS, "ext_file"))


def jkey(v, ent):
    """The key k when v reads ent[k]."""
    while isinstance(v, tuple) and v and v[0] in ("jget", "cast"):
        v = v[2]
    if isinstance(v, tuple) and v and v[0] == "ld" and v[1][0] == "e" and v[1][1] == ent:
        return v[1][2]
    return None


def has(s, ent, key):
    for k, b in s.facts.items():
        if k[0] == "has" and k[2] == key:
            return b
    return None


def ext_ok(x, ent, key, bp):
    if not isinstance(x, tuple):
        return False
    bpv = bp if bp[0] == "p" else ("ld", bp)
    for y in A.subterms(x):
        if y and y[0] == "call" and last(y[1]) == "operator/" and len(y[3]) == 2:
            if y[3][0] == bpv and jkey(y[3][1], ent) == key:
                return True
    return False


def key_is(key, got):
    if isinstance(key, tuple) and key[0] in ("list", "ctor"):
        xs = key[1] if key[0] == "list" else key[2]
        if len(xs) == 2:
            return R.strip(xs[0]) == R.strip(got["arg_idx"]) and R.strip(xs[1]) == R.strip(got["after"])
    return None


def index_name(rep, rule, s, base=None):
    """Every index file opened on this path carries target, invocation and element of the captures it is written for."""
    es = s.events()
    CC = ("f", THIS, "current_captures_")
    regs = [e[2] for e in es if e[0] == "iter" and e[1] == CC]
    n = 0
    for reg, d in zip(regs, [e for e in es if e[0] == "open"]):
        p = d[2][0] if d[2] else ("void",)
        t = [fld(THIS, "name_"), ("call", "std::to_string", None, (("ld", ("e", ("f", THIS, "invokes_"), fld(reg, "first"))),), 0), fld(reg, "first")]
        n += 1
        rep.judge(rule, "index file name", all(A.mentions(p, lambda x, y=y: x == y) for y in t),
                  "the index file name %s does not carry target, invocation and element" % show(p))
        if base is not None:
            dr, nm = split_path(R.strip(p))
            rep.judge("payload-dir", "index file", dr == base and not any(x[0] == "s" and "/" in x[1] for x in A.pieces(nm)),
                      "the index file %s is not in the directory handed to the index writer" % show(p))
    return n


def fresh_record(rep, rule, inst, s, in_captures):
    """A record inserted into the capture table does not meet an older one under the same key."""
    for e in s.events():
        if e[0] != "call" or e[2] is None or not in_captures(e[2]):
            continue
        if last(e[1]) in ("emplace", "insert", "try_emplace") and e[4]:
            key = e[4][0]
            gone = [x for x in before(s, e) if x[0] == "call" and x[2] == e[2] and (
                last(x[1]) == "clear" or last(x[1]) in ("erase", "extract") and x[4] and (x[4][0] == key or x[4][0][0] == "it" and x[4][0][2] == key))]
            absent = s.facts.get(("has", ("ld", e[2]), key)) is False
            rep.judge(rule, inst, bool(gone) or absent, "a record is inserted under an existing key without removing the old one")
        elif last(e[1]) == "insert_or_assign":
            rep.ok(rule, inst)


def index_rules(rep, fx):
    wi = fx.one(IO + "write_index")
    CC = ("f", THIS, "current_captures_")
    outs = run(rep, EngIdx(fx), wi)
    wk = {}
    wrote = 0
    for kind, s, v in outs or ():
        if kind != "return":
            continue
        es = s.events()
        regs = []
        for e in es:
            if e[0] == "iter" and e[1] == CC:
                regs.append(e[2])
        dumps = [e for e in es if e[0] == "call" and (last(e[1]) == "operator<<" and (JS(e[4][0]) or A.mentions(e[4][0], lambda x: x[0] == "call" and last(x[1]) == "dump")))]
        dumps += [e for e in es if e[0] == "call" and last(e[1]) == "write" and len(e[4]) == 2 and whole_dump(e[4])]
        if len(dumps) != len(regs):
            rep.bad("index-writer", "one index per element", "%d captured elements, %d index documents written on some path" % (len(regs), len(dumps)))
            continue
        rep.ok("index-writer", "one index per element")
        for reg, d in zip(regs, dumps):
            j = d[4][0]
            if not JS(j):
                j = next((x[2] for x in A.subterms(j) if x[0] == "call" and last(x[1]) == "dump"), None)
            wrote += 1
            rid = fld(reg, "first")
            want = {"target": fld(THIS, "name_"), "invocation": ("ld", ("e", ("f", THIS, "invokes_"), rid)), "element_id": rid}
            for w, t in want.items():
                ks = [k for k in reckeys(j) if R.strip(recget(j, k)) == t]
                rep.judge("index-writer", w, bool(ks), "no key of the index document carries the %s (%s)" % (w, show(t)))
                if ks:
                    wk.setdefault(w, ks[0])
            ks = [k for k in reckeys(j) if A.is_int(recget(j, k))]
            if len(ks) == 1:
                wk.setdefault("format", ks[0])
                wk.setdefault("version", recget(j, ks[0]))
            recs = []
            ck = None
            for k in reckeys(j):
                x = recget(j, k)
                if isinstance(x, tuple) and (x[0] == "ser" or x[0] == "list" and not x[1]):
                    ck = k
                    while x[0] == "ser":
                        recs.append(x[2])
                        x = x[1]
            recs.reverse()
            if ck is None:
                rep.bad("index-writer", "captures", "no key of the index document carries the capture records")
                continue
            wk.setdefault("captures", ck)
            src = ("f", reg, "second")
            idx = []
            okk = True
            for r in recs:
                if r[0] == "f" and r[2] == "second" and r[1][0] == "e" and r[1][1] == src:
                    idx.append(r[1][2])
                else:
                    okk = False
            c = R.complete(s, idx, src) if okk else False
            if c is None:
                rep.undecided("index-writer", "every capture is written", "unrecognised traversal")
            else:
                rep.judge("index-writer", "every capture is written", c, "the index document does not hold exactly the captures of its element on some path")
        index_name(rep, "index-writer", s)
    rep.need(outs is None or wrote, "index writer writes a document")
    # ---- loader
    fi = [f for f in fx.named(IO + "from_index") if not f.get("dep")]
    rep.need(fi, "from_index instantiation")
    outs = run(rep, EngIdx(fx), fi[0])
    fp = ("ld", ("d", ("p", fi[0]["ps"][0]["n"], 0)))
    nret = 0
    for kind, s, v in outs or ():
        if kind != "return":
            continue
        nret += 1
        # version gate
        ver = [(k, b) for k, b in s.facts.items() if k[0] == "eq0" and any(jk(a) == wk.get("format") for a, c in k[1])]
        good = bool(ver) and all(b and ((k[2] == -wk["version"][1] and k[1][0][1] == 1) or (k[2] == wk["version"][1] and k[1][0][1] == -1)) for k, b in ver)
        if "format" in wk:
            rep.judge("index-reader", "format gate", good, "an index is accepted without its format being %s" % show(wk.get("version")))
        obj = R.strip(v)
        loc = obj[1] if obj[0] == "addr" else None
        if loc is None:
            rep.undecided("index-reader", "result", show(v))
            continue
        nm = s.env.get(("f", loc, "name_"))
        if "target" in wk:
            rep.judge("index-reader", "target", jk(nm) == wk["target"], "the loaded name is %s" % show(nm))
        inv = [(l, x) for l, x in s.env.items() if l[0] == "e" and l[1] == ("f", loc, "invokes_")]
        good = len(inv) == 1 and jk(inv[0][1]) == wk.get("invocation") and jk(inv[0][0][2]) == wk.get("element_id")
        rep.judge("index-reader", "invocation", good, "invocation counters restored as %s" % [(show(l), show(x)) for l, x in inv])
        g = R.strip(inv[0][1]) if inv else None
        if g and g[0] == "jget":
            rep.judge("index-reader", "invocation type", holds_type(g[1], "unsigned int") is not False, "invocation read as " + g[1])
        pc = [e for e in s.events() if e[0] == "parse"]
        its = [e for e in s.events() if e[0] == "iter"]
        its = [e for e in its if jlockey(e[1]) == wk.get("captures")]
        if not its and not pc:
            emp = [b for k, b in s.facts.items() if k[0] == "empty"]
            rep.judge("index-reader", "every record", bool(emp) and emp[0] is True, "a path loads no record although the index has some")
        else:
            rep.judge("index-reader", "every record", len(its) == len(pc) and R.complete(s, [e[2][2] for e in its], its[0][1]) is True if its else False,
                      "%d records visited, %d loaded on some path" % (len(its), len(pc)))
        for e, it in zip(pc, its):
            a = e[1:]
            rep.judge("index-reader", "record passed", a[0] == it[2], "parse_from is given %s" % show(a[0]))
            par = a[2] if len(a) > 2 else None
            good = isinstance(par, tuple) and par[0] == "call" and last(par[1]) == "parent_path" and par[2] == fp
            rep.judge("index-reader", "payload files are looked up next to the index", good, "base directory passed: %s" % show(par))
            m = a[1]
            good = m[0] == "e" and m[1] == ("f", loc, "current_captures_") and jk(m[2]) == wk.get("element_id")
            rep.judge("index-reader", "records are filed under their element", good, "records are filed in %s" % show(m))
    rep.need(outs is None or nret, "from_index returns")


def whole_dump(args):
    """(text.data(), text.size()) of one dumped document."""
    p, z = R.strip(args[0]), R.strip(args[1])
    return p[0] == "call" and z[0] == "call" and last(p[1]) in ("data", "c_str") and last(z[1]) in ("size", "length") and p[2] == z[2] and p[2] is not None and \
        A.mentions(p[2], lambda x: x[0] == "call" and last(x[1]) == "dump") or \
        z[0] == "call" and last(z[1]) in ("size", "length") and z[2] == p and A.mentions(p, lambda x: x[0] == "call" and last(x[1]) == "dump")


def JS(v):
    return isinstance(v, tuple) and v and v[0] == "rec" and len(v[2]) > 0


def jk(v):
    while isinstance(v, tuple) and v and v[0] in ("jget", "cast"):
        v = v[2]
    if isinstance(v, tuple) and v and v[0] in ("ld",) and v[1][0] == "e":
        return v[1][2]
    if isinstance(v, tuple) and v and v[0] == "idx":
        return v[2]
    return None


def jlockey(l):
    return l[2] if l[0] == "e" else None


def copies(rep, fx, rec, fields):
    n = 0
    for f in fx.methods(NS + "ArgCapture"):
        if not f.get("ctor") or not f["ps"] or f.get("defaulted"):
            continue
        eng = Eng(fx)
        loc = ("o", 0, "new")
        outs = run(rep, eng, f, this=("addr", loc))
        for kind, s, v in outs or ():
            if kind != "return":
                continue
            n += 1
            cp = len(f["ps"]) == 1
            if cp and not f["ps"][0]["t"].replace("const ", "").rstrip("& ").endswith("ArgCapture"):
                continue
            name = "move" if cp and f["ps"][0]["t"].endswith("&&") else "copy" if cp else "construct"
            if cp:
                src = ("d", ("p", f["ps"][0]["n"] or "0", 0))
                for fn in fields:
                    got = s.env.get(("f", loc, fn))
                    rep.judge("record-copy", "%s keeps %s" % (name, fn), got == fld(src, fn), "field %s becomes %s" % (fn, show(got)))
            else:
                for fn, want in zip(("arg_idx", "after", "primitive_type", "dims"), range(4)):
                    got = s.env.get(("f", loc, fn))
                    p = f["ps"][want]
                    w = ("ld", ("d", ("p", p["n"], want))) if p["t"].endswith("&") else ("p", p["n"], want)
                    rep.judge("record-copy", "construct sets " + fn, R.strip(got) == w if got else False, "field %s becomes %s" % (fn, show(got)))
    if not n:
        rep.ok("record-copy", "compiler-generated")


# ============================================================ entry points
CAPTURES = ["__daisy_capture_raw", "__daisy_capture_1d", "__daisy_capture_2d", "__daisy_capture_3d"]
EXTRA = {"size"}


def capture_paths(rep, fx):
    """(entry, ctx location, params, outcomes) of every capture entry point."""
    for n in CAPTURES:
        fn = fx.one(n)
        outs = run(rep, Eng(fx), fn)
        if outs is not None:
            yield fn, outs


def stores_of(s):
    """Raw file writes of a path: (stream location, path term, [(data, size)], final stream value)."""
    out = []
    opened = {}
    for e in s.events():
        if e[0] == "open":
            opened[e[3]] = (e[2], e[1])
        if e[0] == "call" and last(e[1]) == "open" and e[2] is not None and "stream" in e[1]:
            opened[e[2]] = (e[4], e[1])
    files = {}
    for e in s.events():
        if e[0] == "call" and last(e[1]) in ("write", "put", "sputn") and e[2] is not None:
            files.setdefault(e[2], []).append(e[4])
    for loc, ws in files.items():
        path = None
        for e in s.events():
            if e[0] == "call" and e[2] == loc and e[3] in opened:
                path = opened[e[3]]
        if path is None and loc in opened:
            path = opened[loc]
        out.append((loc, path, ws))
    return out


MODES = {"app": 1, "ate": 2, "binary": 4, "in": 8, "out": 16, "trunc": 32}


def open_mode(args):
    """Open-mode bits of a stream constructor or open() call, None when unknown."""
    bits = 0
    for a in args[1:]:
        for x in A.subterms(a):
            if x and x[0] == "i":
                bits |= x[1]
            elif x and x[0] == "g" and last(x[1]) in MODES:
                bits |= MODES[last(x[1])]
            elif x and x[0] in ("p", "ld", "phi", "out", "mut", "enum"):
                return None
    return bits


def truncates(rep, rule, inst, args):
    b = open_mode(args)
    if b is None:
        rep.undecided(rule, inst, "open mode " + show(args[1]))
    else:
        rep.judge(rule, inst, not b & 3 and not (b & 8 and not b & 32), "the file is opened without discarding what an earlier capture left in it")


def final_ok(s, loc):
    """Is the stream known good after its last effect on this path?"""
    lastv = None
    for e in s.events():
        if e[0] == "call" and e[2] == loc and isinstance(e[3], tuple) and e[3] and e[3][0] == "st":
            lastv = e[3]
    v = s.env.get(loc)
    if isinstance(v, tuple) and v and v[0] == "st":
        lastv = v
    if lastv is None:
        return None, None
    return s.truth(lastv), lastv


def closed(s, loc):
    names = [last(e[1]) for e in s.events() if e[0] == "call" and e[2] == loc]
    return any(n in ("close", "flush") for n in names)


def a03(rep):
    rep.rule("write-reported", "every path of a capture entry point or library writer that reports success has checked the output "
             "stream after its last write and its close (stream error bits are sticky)")
    rep.rule("recorded-after-success", "a capture record refers to a payload file only on paths where that file's stream was "
             "checked good")
    rep.rule("index-reported", "the index writer returns normally only after checking each index stream after close")
    rep.rule("read-reported", "the payload reader returns normally only after checking that the whole payload was read")
    rep.rule("null-payload", "a null data pointer with a non-zero size never reaches the stream write")
    fx = facts()
    for fn, outs in capture_paths(rep, fx):
        n = 0
        for kind, s, v in outs:
            for loc, path, ws in stores_of(s):
                n += 1
                okk, _ = final_ok(s, loc)
                if kind == "return":
                    rep.judge("write-reported", fn["q"], okk is True and closed(s, loc), "a path of %s returns normally although the payload stream was not "
                              "checked good after its last operation" % fn["q"])
                for d, sz in [w for w in ws if len(w) == 2]:
                    dp = R.strip(d)
                    rep.judge("null-payload", fn["q"], s.truth(dp) is True or s.truth(("bin", ">", R.strip(sz), I(0), "bool")) is False or
                              s.truth(("bin", "==", R.strip(sz), I(0), "bool")) is True,
                              "a path of %s writes from %s without excluding a null pointer" % (fn["q"], show(dp)))
            ext = [x for l, x in s.env.items() if l[0] == "f" and l[2] == "ext_file"]
            ext = [x for x in ext if not (x[0] == "list" and not x[1])]
            if ext:
                good = [final_ok(s, loc)[0] is True for loc, _, _ in stores_of(s)]
                rep.judge("recorded-after-success", fn["q"], bool(good) and all(good), "a record names a payload file whose write was not checked")
        ctx = ("p", fn["ps"][0]["n"], 0)
        for kind, s, v in outs:
            if kind == "return" and s.truth(ctx) is True and not stores_of(s):
                ins = [x for l, x in s.env.items() if l[0] == "f" and l[2] == "data" and x[0] in ("new", "addr")]
                rep.judge("write-reported", fn["q"], bool(ins), "a path of %s returns normally with nothing written" % fn["q"])
        rep.need(n, "payload writes reachable from " + fn["q"])
    w = fx.one(IO + "write_data_to_raw_file")
    for kind, s, v in run(rep, Eng(fx), w) or ():
        if kind != "return":
            continue
        st = stores_of(s)
        if v is not None and (s.truth(v) is True or s.truth(v) is None):
            if s.truth(v) is None and v[0] in ("call", "un", "bin"):
                # the returned value is itself the stream check
                t = s.fork()
                t.assume(v, True)
                s = t
            good = [final_ok(s, loc)[0] is True and closed(s, loc) for loc, _, _ in st]
            rep.judge("write-reported", w["q"], bool(good) and all(good), "%s returns true on a path where the stream was not checked good after its last operation" % w["q"])
    wi = fx.one(IO + "write_index")
    k = 0
    for kind, s, v in run(rep, EngIdx(fx), wi) or ():
        if kind != "return":
            continue
        for e in s.events():
            if e[0] == "open":
                v0 = e[3]
                k += 1
                locs = [x[2] for x in s.events() if x[0] == "call" and x[3] == v0]
                vals = chain(s, v0)
                good = bool(vals) and s.truth(vals[-1]) is True and any(last_op(x) in ("close", "flush") for x in vals)
                rep.judge("index-reported", wi["q"], good, "a path of %s returns normally although the index stream was not checked good after close" % wi["q"])
    rep.need(k, "index stream")
    rd = fx.one(IO + "read_data_from_raw_file")
    k = 0
    for kind, s, v in run(rep, Eng(fx), rd) or ():
        if kind != "return":
            continue
        for e in s.events():
            if e[0] == "open":
                k += 1
                vals = chain(s, e[3])
                # the check must come after the read
                i = [j for j, x in enumerate(vals) if last_op(x) == "read"]
                good = bool(i) and any(s.truth(x) is True for x in vals[i[-1]:])
                if not good:
                    good = gcount_checked(s)
                rep.judge("read-reported", rd["q"], good, "a path of %s returns normally although fewer bytes than requested may have been read" % rd["q"])
    rep.need(k, "payload reader stream")


def chain(s, v0):
    """Successive values of the stream opened as v0 (by location)."""
    loc = None
    for e in s.events():
        if e[0] == "call" and e[3] == v0:
            loc = e[2]
            break
    vals = [v0]
    on = False
    for e in s.events():
        if e[0] == "open":
            on = e[3] == v0 or (on and False)
        if e[0] == "call" and on and e[2] == loc and isinstance(e[3], tuple) and e[3] and e[3][0] == "st" and e[3] not in vals:
            vals.append(e[3])
        if e[0] == "dtor" and e[2] == loc and on:
            on = False
    v = s.env.get(loc)
    if on is not False or True:
        if isinstance(v, tuple) and v and v[0] == "st" and v not in vals and not any(e[0] == "open" and e[3] != v0 for e in s.events()):
            vals.append(v)
    return vals


def last_op(v):
    return v[2] if len(v) == 3 else "open"


def gcount_checked(s):
    for k, b in s.facts.items():
        if k[0] == "eq0" and any(a[0] == "call" and last(a[1]) == "gcount" for a, _ in k[1]) and b:
            return True
        if k[0] == "ge0" and any(a[0] == "call" and last(a[1]) == "gcount" for a, _ in k[1]):
            return True
    return False


# ============================================================ A04
def a04(rep):
    rep.rule("payload-size", "on every path the number of bytes written or copied is the product of the element size and all "
             "dimensions handed to the entry point, computed in 64 bits, and the bytes come from the caller's pointer")
    rep.rule("recorded-dims", "the record keeps element size and dimensions in the order given, with the argument index, direction "
             "and type of the call")
    fx = facts()
    for fn, outs in capture_paths(rep, fx):
        ps = {p["n"]: ("p", p["n"], i) for i, p in enumerate(fn["ps"])}
        names = [p["n"] for p in fn["ps"]]
        idx = {"arg_idx": 1, "data": 2, "size": 3, "type": 4}
        dims = [("p", names[3], 3)] + [("p", names[i], i) for i in range(5, len(names) - 2)]
        after, elem = ("p", names[-2], len(names) - 2), ("p", names[-1], len(names) - 1)
        rep.need(len(dims) == {"w": 1, "1": 2, "2": 3, "3": 4}[fn["q"][-2] if fn["q"][-1] == "d" else "w"], "parameters of " + fn["q"])
        data = ("p", names[2], 2)
        for kind, s, v in outs:
            for loc, path, ws in stores_of(s):
                for w in ws:
                    if len(w) != 2:
                        rep.undecided("payload-size", fn["q"], "unrecognised write")
                        continue
                    judge_size(rep, fn["q"], w[0], w[1], data, dims)
            for e in s.events():
                if e[0] == "call" and last(e[1]) in ("memcpy", "copy_n", "memmove") and len(e[4]) == 3:
                    a = e[4] if last(e[1]) != "copy_n" else (e[4][2], e[4][0], e[4][1])
                    judge_size(rep, fn["q"] + " (inline)", a[1], a[2], data, dims)
            fresh_record(rep, "recorded-dims", fn["q"] + " replaces older record", s,
                         lambda l, c=("d", ("p", names[0], 0)): A.mentions(l, lambda x: x == ("f", c, "current_captures_")))
            if kind != "return":
                continue
            for l, x in s.env.items():
                if l[0] == "f" and l[2] == "dims":
                    dv = R.strip(x)
                    if dv[0] != "list":
                        rep.undecided("recorded-dims", fn["q"] + " dims", show(x))
                        continue
                    rep.judge("recorded-dims", fn["q"] + " dims", [R.strip(y) for y in dv[1]] == dims, "dimensions recorded as %s" % show(x))
                if l[0] == "f" and l[2] in ("arg_idx", "after", "primitive_type"):
                    want = {"arg_idx": ("p", names[1], 1), "after": after, "primitive_type": ("p", names[4], 4)}[l[2]]
                    good = R.strip(x) == want or (l[2] == "after" and A.is_int(R.strip(x)) and s.truth(after) == bool(R.strip(x)[1]))
                    rep.judge("recorded-dims", "%s %s" % (fn["q"], l[2]), good, "recorded as %s" % show(x))
            recs = [(l, x) for l, x in s.env.items() if l[0] == "e" and l[1][0] == "e" and l[1][1][0] == "f" and l[1][1][2] == "current_captures_"]
            for l, x in recs:
                k = l[2]
                good = k[0] in ("list", "ctor") and len(k[1] if k[0] == "list" else k[2]) == 2 and \
                    [R.strip(y) for y in (k[1] if k[0] == "list" else k[2])] == [("p", names[1], 1), after]
                rep.judge("recorded-dims", fn["q"] + " key", good, "record filed under %s" % show(k))
                el = l[1][2]
                rep.judge("recorded-dims", fn["q"] + " element", el == ("call", "std::to_string", None, (elem,), 0), "record filed under element %s" % show(el))
                if isinstance(x, tuple) and x[0] in ("rec",):
                    for f, want in (("arg_idx", ("p", names[1], 1)), ("after", after), ("primitive_type", ("p", names[4], 4))):
                        g = recget(x, f)
                        if g is not None:
                            rep.judge("recorded-dims", "%s %s" % (fn["q"], f), R.strip(g) == want, "recorded as %s" % show(g))
                    g = recget(x, "dims")
                    if g is not None and R.strip(g)[0] == "list":
                        rep.judge("recorded-dims", fn["q"] + " dims", [R.strip(y) for y in R.strip(g)[1]] == dims, "dimensions recorded as %s" % show(g))
    for q in ("create_and_capture_inline", "create_and_capture_to_file"):
        fn = fx.one(IO + q)
        di = next(i for i, p in enumerate(fn["ps"]) if "vector" in p["t"])
        dn = fn["ps"][di]["n"]
        dp = next(i for i, p in enumerate(fn["ps"]) if "void" in p["t"])
        data = ("p", fn["ps"][dp]["n"], dp)
        src = ("d", ("p", dn, di))
        n = 0
        for kind, s, v in run(rep, Eng(fx), fn) or ():
            for e in s.events():
                if e[0] == "store" and e[1][0] == "f" and e[1][2] == "data":
                    rep.judge("payload-size", fn["q"] + " own buffer", not A.mentions(e[2], lambda y: y[0] == "g" and str(y[1]).startswith("static:")),
                              "the inline payload is kept in %s, which other captures share" % show(e[2]))
            uses = [(w[0], w[1]) for _, _, ws in stores_of(s) for w in ws if len(w) == 2]
            uses += [(e[4][1], e[4][2]) for e in s.events() if e[0] == "call" and last(e[1]) in ("memcpy", "memmove") and len(e[4]) == 3]
            for p, z in uses:
                n += 1
                fs, w = R.factors(z)
                good = R.strip(p) == data
                if fs == [("fold", "*", ("ld", src))]:
                    pass
                elif all(R.elem_of(f, src) is not None for f in fs):
                    c = R.complete(s, [R.elem_of(f, src) for f in sorted(fs, key=lambda f: repr(R.elem_of(f, src)))], src)
                    if c is None:
                        rep.undecided("payload-size", fn["q"], show(z))
                        continue
                    good = good and c
                elif any(isinstance(f, tuple) and f[0] in ("phi", "call", "out", "mut") for f in fs):
                    rep.undecided("payload-size", fn["q"], show(z))
                    continue
                else:
                    good = False
                rep.judge("payload-size", fn["q"], good, "%s bytes of %s are captured" % (show(z), show(p)))
                rep.judge("payload-size", fn["q"] + " width", w >= 64, "the size is computed in %d bits" % w)
        if not n:
            rep.undecided("payload-size", fn["q"], "no recognised use of the payload")


def judge_size(rep, inst, p, z, data, dims):
    fs, w = R.factors(z)
    rep.judge("payload-size", inst + " source", R.strip(p) == data, "captured bytes come from %s" % show(p))
    if any(isinstance(f, tuple) and f[0] in ("phi", "fold", "call", "out", "mut", "bin") for f in fs):
        rep.undecided("payload-size", inst, show(z))
        return
    rep.judge("payload-size", inst, fs == sorted(dims, key=repr), "%s bytes are captured instead of the product of %s" % (show(z), ", ".join(show(d) for d in dims)))
    rep.judge("payload-size", inst + " width", w >= 64, "the size is computed in %d bits" % w)


# ============================================================ A05
def a05(rep):
    rep.rule("file-identity", "the payload file name of a capture is built from target, invocation, argument, direction and element, with "
             "a non-digit separator between numbers, inside the output directory")
    rep.rule("direction", "inputs and outputs get different file names")
    rep.rule("fresh-record", "a repeated capture replaces the earlier record instead of keeping its dimensions")
    rep.rule("fresh-payload", "every capture that names a payload file writes it, from an empty file")
    rep.rule("index-identity", "the index file name is built from target, invocation and element")
    rep.rule("payload-dir", "payload files and the index that names them are written to the same directory")
    fx = facts()
    lits = {}
    for fn, outs in capture_paths(rep, fx):
        names = [p["n"] for p in fn["ps"]]
        ctx = ("d", ("p", names[0], 0))
        elem, arg, after = ("p", names[-1], len(names) - 1), ("p", names[1], 1), ("p", names[-2], len(names) - 2)
        els = ("call", "std::to_string", None, (elem,), 0)
        need = {"target": fld(ctx, "name_"), "argument": ("call", "std::to_string", None, (arg,), 0), "element": els,
                "invocation": ("call", "std::to_string", None, (("ld", ("e", ("f", ctx, "invokes_"), els)),), 0)}
        n = 0
        for kind, s, v in outs:
            for loc, path, ws in stores_of(s):
                if path is None or not path[0]:
                    rep.undecided("file-identity", fn["q"], "file name not recognised")
                    continue
                n += 1
                truncates(rep, "fresh-payload", fn["q"], path[0])
                p = R.strip(path[0][0])
                d, nm = split_path(p)
                rep.judge("payload-dir", fn["q"], d == fld(ctx, "output_dir_"), "payload directory is %s" % show(d))
                ps = A.pieces(nm)
                for w, t in need.items():
                    rep.judge("file-identity", "%s carries %s" % (fn["q"], w), t in ps, "file name %s lacks the %s" % (show(nm), w))
                nums = [isnum(x) for x in ps]
                rep.judge("file-identity", fn["q"] + " separators", separated(ps), "adjacent numbers in %s" % show(nm))
                tr = s.truth(after)
                if tr is None:
                    rep.judge("direction", fn["q"], any(A.mentions(x, lambda y: y == after) for x in ps), "a file name is chosen without looking at the direction")
                else:
                    lits.setdefault(fn["q"], {}).setdefault(tr, set()).add(tuple(ps))
                badlit = [x for x in ps if x[0] == "s" and "/" in x[1]]
                rep.judge("payload-dir", fn["q"] + " flat", not badlit, "the name introduces a subdirectory")
            ext = [x for l, x in s.env.items() if l[0] == "f" and l[2] == "ext_file" and not (x[0] == "list" and not x[1])]
            if ext:
                rep.judge("fresh-payload", fn["q"] + " written", bool(stores_of(s)), "a capture names a payload file that is not written on some path")
            fresh_record(rep, "fresh-record", fn["q"], s, lambda l: A.mentions(l, lambda x: x == ("f", ctx, "current_captures_")))
        rep.need(n, "payload file of " + fn["q"])
    for q, d in lits.items():
        if True in d and False in d:
            rep.judge("direction", q, not (d[True] & d[False]), "inputs and outputs share the file name")
    en = fx.one("__daisy_capture_end")
    k = 0
    for kind, s, v in run(rep, EngIdxNo(fx), en) or ():
        for e in s.events():
            if e[0] == "call" and e[1] == IO + "write_index":
                k += 1
                rep.judge("payload-dir", "index", R.strip(e[4][0]) == fld(("d", ("p", en["ps"][0]["n"], 0)), "output_dir_"), "index directory is %s" % show(e[4][0]))
    rep.need(k, "index written by __daisy_capture_end")
    # library level writers
    for q in ("create_and_capture_inline", "create_and_capture_to_file"):
        fn = fx.one(IO + q)
        for kind, s, v in run(rep, Eng(fx), fn) or ():
            fresh_record(rep, "fresh-record", fn["q"], s, lambda l: A.mentions(l, lambda x: x == ("f", THIS, "current_captures_")))
    wi = fx.one(IO + "write_index")
    k = 0
    for kind, s, v in run(rep, EngIdx(fx), wi) or ():
        k += index_name(rep, "index-identity", s, ("p", wi["ps"][0]["n"], 0) if not wi["ps"][0]["t"].endswith("&") else ("ld", ("d", ("p", wi["ps"][0]["n"], 0))))
    rep.need(k, "index files opened by write_index")


def prior_slot(s, inv):
    """Was the counter's slot created explicitly (any insertion into the map) before it was incremented?"""
    return any(e[0] == "call" and last(e[1]) in ("emplace", "insert", "try_emplace", "insert_or_assign") and e[2] == inv[1] for e in s.events())


class EngIdxNo(R.JEngine):
    opaque = ("base64_encode", "base64_decode", IO + "write_index")


def before(s, e):
    out = []
    for x in s.events():
        if x is e:
            break
        out.append(x)
    return out


def split_path(p):
    if p[0] == "call" and last(p[1]) == "operator/" and len(p[3]) == 2:
        return R.strip(p[3][0]), R.strip(p[3][1])
    return ("void",), p


def isnum(x):
    return x[0] == "call" and last(x[1]) == "to_string"


def separated(ps):
    for a, b in zip(ps, ps[1:]):
        if a[0] != "s" and b[0] != "s":
            return False
    for i, p in enumerate(ps):
        if p[0] == "s" and i and i + 1 < len(ps) and isnum(ps[i - 1]) and isnum(ps[i + 1]) and (not p[1] or p[1].isdigit()):
            return False
    return True


# ============================================================ A06
def a06(rep):
    rep.rule("strategy", "'all' captures every invocation, 'never' none, and unset, 'once' or an unknown value only the first")
    rep.rule("directory", "the output directory is the environment override, else the caller's argument, else the default")
    rep.rule("enter", "entering a region discards the previous records, counts the invocation once and enables capturing exactly "
             "when the strategy selects it")
    rep.rule("end", "an index is written exactly when something was captured")
    rep.rule("null-context", "entry points given a null context do nothing")
    fx = facts()
    ini = fx.one("__daisy_capture_init")
    strat = ("call", "getenv", None, (("s", "__DAISY_CAPTURE_STRATEGY_DEFAULT"),), 0)
    envd = ("call", "getenv", None, (("s", "__DAISY_CAPTURE_BASE_DIR"),), 0)
    bd = ("p", ini["ps"][1]["n"], 1)
    nm = ("p", ini["ps"][0]["n"], 0)
    kinds = set()
    allv = 0xFFFFFFFF
    for kind, s, v in run(rep, Eng(fx), ini) or ():
        if kind != "return":
            rep.bad("strategy", "init returns", "__daisy_capture_init ends by %s" % kind)
            continue
        eq = lambda w: s.truth_atom(A.streq(strat, ("s", w)))
        if s.truth(strat) is False:
            want = 0
            kinds.add("unset")
        elif eq("all") is True:
            want = allv
            kinds.add("all")
        elif eq("never") is True:
            want = None
            kinds.add("never")
        elif eq("once") is True:
            want = 0
            kinds.add("once")
        elif eq("all") is False and eq("never") is False:
            want = 0
            kinds.add("unknown")
        else:
            rep.bad("strategy", "decided", "a path of __daisy_capture_init does not distinguish the strategies 'all' and 'never'")
            continue
        v = R.strip(v)
        if want is None:
            rep.judge("strategy", "never", v == I(0), "strategy 'never' still creates a capture context")
            continue
        name = "all" if want == allv else "first only"
        if v[0] != "addr":
            rep.judge("strategy", name, v != I(0), "no context is created where captures are selected")
            if v != I(0):
                rep.undecided("strategy", name, show(v))
            continue
        o = v[1]
        got = s.env.get(("f", o, "invocation_to_capture_"))
        if got is None:
            rep.undecided("strategy", name, "context layout changed")
            continue
        g = R.strip(got)
        rep.judge("strategy", name, A.is_int(g) and g[1] % (1 << 32) == want, "the context captures invocation %s" % show(got))
        rep.judge("strategy", "context name", R.strip(s.env.get(("f", o, "name_"), ("void",))) == nm, "context named %s" % show(s.env.get(("f", o, "name_"))))
        d = R.strip(s.env.get(("f", o, "output_dir_"), ("void",)))
        te, tb = s.truth(envd), s.truth(bd)
        if te is True:
            rep.judge("directory", "environment", d == envd, "directory is %s" % show(d))
        elif te is False and tb is True:
            rep.judge("directory", "argument", d == bd, "directory is %s" % show(d))
        elif te is False and tb is False:
            rep.judge("directory", "default", d[0] == "s" and d[1] != "", "directory is %s" % show(d))
        else:
            rep.judge("directory", "decided", d == envd if te is None and d == envd else False, "a path picks %s without looking at the override" % show(d))
    rep.need({"unset", "all", "never"} <= kinds or not kinds, "strategy names")
    # ---- enter
    en = fx.one("__daisy_capture_enter")
    cx = ("p", en["ps"][0]["n"], 0)
    ctx = ("d", cx)
    el = ("call", "std::to_string", None, (("p", en["ps"][1]["n"], 1),), 0)
    inv = ("e", ("f", ctx, "invokes_"), el)
    n = 0
    for kind, s, v in run(rep, Eng(fx), en) or ():
        if kind != "return":
            continue
        touched = touches(s, cx)
        if s.truth(cx) is not True:
            rep.judge("null-context", en["q"], s.truth(cx) is False and not touched and s.truth(v) is False, "a null context is dereferenced or enables capturing")
            continue
        n += 1
        cc = s.env.get(("f", ctx, "current_captures_"))
        rep.judge("enter", "records discarded", cc is not None and cc[0] == "list" and not cc[1], "captures of the previous invocation are kept (%s)" % show(cc))
        new = s.env.get(inv)
        hs = [b for k, b in s.facts.items() if k[0] == "has" and k[2] == el]
        old = ("ld", inv)
        if new is None:
            new = load_mut(s, inv)
        if hs:
            good = (new == I(0)) if not hs[0] else A.lin(new) == A.lin(("bin", "+", old, I(1), "u")) if new else False
            rep.judge("enter", "invocation counted", good, "the invocation number becomes %s" % show(new))
        elif new is not None and A.lin(new) == A.lin(("bin", "+", old, I(1), "u")) and allv is not None and not prior_slot(s, inv):
            good = False
            rep.bad("enter", "invocation counted", "the first invocation of a region gets number 1")
        elif new is None and not any((e[0] == "store" or e[0] == "call" and last(e[1]) not in ("at", "count", "contains", "find", "empty", "size", "end")) and e[2 if e[0] == "call" else 1] is not None and
                                     A.mentions(e[2 if e[0] == "call" else 1], lambda x: x == inv[1]) for e in s.events()):
            good = False
            rep.bad("enter", "invocation counted", "a path enters the region without counting the invocation")
        else:
            rep.undecided("enter", "invocation counted", "unrecognised counter update: %s" % show(new))
        target = fld(ctx, "invocation_to_capture_")
        if new is not None and (not hs or good):
            alls = s.truth(("bin", "==", target, I(allv), "bool"))
            same = s.truth(("bin", "==", new, target, "bool"))
            tv = s.truth(v)
            if tv is None and v is not None:
                # value is the comparison itself
                t = s.fork()
                t.assume(v, True)
                same = t.truth(("bin", "==", new, target, "bool"))
                f = s.fork()
                f.assume(v, False)
                rep.judge("enter", "selection", alls is False and same is True and f.truth(("bin", "==", new, target, "bool")) is False, "capturing enabled by %s" % show(v))
            elif tv is True:
                rep.judge("enter", "selection", alls is True or same is True, "an invocation the strategy does not select is captured")
            else:
                rep.judge("enter", "selection", alls is False and same is False, "an invocation the strategy selects is not captured")
    rep.need(n, "enter paths")
    # ---- end
    ed = fx.one("__daisy_capture_end")
    cx = ("p", ed["ps"][0]["n"], 0)
    CC = fld(("d", cx), "current_captures_")
    n = 0
    for kind, s, v in run(rep, EngIdxNo(fx), ed) or ():
        w = [e for e in s.events() if e[0] == "call" and e[1] == IO + "write_index"]
        if s.truth(cx) is not True:
            rep.judge("null-context", ed["q"], s.truth(cx) is False and not touches(s, cx) and not w, "a null context is dereferenced")
            continue
        n += 1
        emp = s.facts.get(("empty", CC))
        if w:
            rep.judge("end", "no index without captures", emp is not True, "an index is written although nothing was captured")
            rep.judge("end", "directory", all(R.strip(e[4][0]) == fld(("d", cx), "output_dir_") for e in w), "the index is written into %s" % show(w[0][4][0]))
            rep.judge("end", "one index", len(w) == 1, "the index is written %d times" % len(w))
        else:
            rep.judge("end", "captures get an index", emp is True, "a path ends the region without writing the index of its captures")
    rep.need(n, "end paths")
    for fn, outs in capture_paths(rep, fx):
        cx = ("p", fn["ps"][0]["n"], 0)
        for kind, s, v in outs:
            if s.truth(cx) is not True:
                rep.judge("null-context", fn["q"], s.truth(cx) is False and kind == "return" and not touches(s, cx) and not stores_of(s), "a null context is dereferenced")


def load_mut(s, loc):
    return None


def touches(s, ptr):
    d = ("d", ptr)
    for l in s.env:
        x = l
        while len(x) >= 3 and x[0] in ("f", "e"):
            x = x[1]
        if x == d:
            return True
    for e in s.events():
        if e[0] in ("call", "enter"):
            if any(isinstance(x, tuple) and A.mentions(x, lambda y: y == d) for x in e[1:]):
                return True
    return False


CHECKS = {"A01": a01, "A03": a03, "A04": a04, "A05": a05, "A06": a06}
