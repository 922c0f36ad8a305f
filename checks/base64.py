"""A02: the text encoding of inline payloads is lossless."""
import glob

from lib import absint as A
from lib import bitflow as B
from lib import cxx
from lib.absint import I, last, show


STD = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"


def facts():
    return cxx.load(sorted(glob.glob(cxx.REPO + "/arg-capture-io/src/*.cpp")))


def table_of(fx, v):
    """String literal behind a lookup table value."""
    if v[0] == "s":
        return v[1]
    if v[0] in ("g", "gl"):
        var = fx.vars.get(v[1])
        if var and var.get("init"):
            n = var["init"]
            while n.get("k") in ("cast", "ctor", "list") and (n.get("x") or n.get("a")):
                n = n.get("x") or n["a"][0]
            if n.get("k") == "str":
                return n["v"]
    return None


def lookup(fx, t):
    """(table literal, index term) of table[index]."""
    t = strip(t)
    if t[0] == "idx":
        lit = table_of(fx, t[1])
        return (lit, t[2]) if lit else None
    if t[0] == "ld" and t[1][0] == "e" and t[1][1][0] == "gl":
        lit = table_of(fx, t[1][1])
        return (lit, t[1][2]) if lit else None
    return None


def strip(t):
    while isinstance(t, tuple) and t and t[0] == "cast":
        t = t[2]
    return t


def off(idx):
    """(group counter symbol or None, constant, coefficient) of an index."""
    items, c = A.lin(idx)
    if not items:
        return None, c, 0
    if len(items) == 1 and items[0][0][0] == "N":
        return items[0][0], c, items[0][1]
    return "?", c, 0


def watch(e, fns, hits):
    """Records every store of engine e into an element of a local array at a known index."""
    import re
    size = {}
    for fn in fns:
        for x in cxx.walk(fn["body"]):
            m = re.fullmatch(r".*\[(\d+)\]", str(x.get("t", "")))
            if m and x.get("n") and x.get("id") is not None and x.get("k") in (None, "ref") and str(x.get("t")).count("[") == 1:
                size[(x["id"], x["n"])] = int(m.group(1))
    plain = e.store

    def store(st, loc, *a, **k):
        if loc[0] == "e" and loc[1][0] == "v" and loc[2][0] == "i":
            n = size.get((loc[1][2], loc[1][3]))
            if n is not None:
                hits.setdefault((loc[1][3], n), set()).add(loc[2][1])
        return plain(st, loc, *a, **k)
    e.store = store


def a02(rep):
    rep.rule("bounds", "every store into a local array of the coders has an index below the array's length, on every path")
    hits = {}
    try:
        coders(rep, hits)
    finally:
        for (nm, n), at in sorted(hits.items()):
            rep.judge("bounds", "%s[%d]" % (nm, n), all(0 <= i < n for i in at), "an element at index %s of %s is written, which has %d" % (max(at) if max(at) >= n else min(at), nm, n))


def coders(rep, hits):
    rep.rule("encode-map", "for a generic group and every remainder each output character is the table entry of exactly the "
             "input bits of its position (bit provenance through the loop, accelerated by a group counter)")
    rep.rule("lossless", "substituting the encoder's bit map into the decoder's gives back every bit of every byte, for a generic "
             "full group and for 1- and 2-byte remainders")
    rep.rule("alphabet", "the table has 64 distinct characters, none of them the pad, the decoder searches the same table and "
             "accepts all of them")
    rep.rule("length", "the encoder consumes exactly the given number of bytes and lengths are never narrowed below 64 bits")
    fx = facts()
    enc, dec = fx.one("base64_encode"), fx.one("base64_decode")
    # ---- encoder
    e = B.PEngine(fx)
    watch(e, (enc, dec), hits)
    try:
        outs = [o for o in e.run(enc) if o[0] == "return"]
    except A.Undecided as x:
        rep.undecided("encode-map", "encoder", str(x))
        return
    rep.count("encoder_paths", len(outs))
    rep.fns |= e.funcs
    rep.need(outs, "encoder paths")
    pin, plen = enc["ps"][0]["n"], ("p", enc["ps"][1]["n"], 1)
    src = ("d", ("p", pin, 0))
    tables = set()

    def leaf_in(t):
        if t[0] == "ld" and t[1][0] == "e" and t[1][1] == src:
            n, c, k = off(t[1][2])
            return [(("in", n, c, k), b) for b in range(8)]
        if t[0] == "ld" and t[1] == src:
            return [(("in", None, 0, 0), b) for b in range(8)]
        return None

    shapes = []           # (group block or None, tail chars, consumed, state)
    for _, s, v in outs:
        ps = flat(v)
        if ps is None:
            rep.undecided("encode-map", "encoder result", show(v))
            return
        blk, n, tail = None, None, []
        for p in ps:
            if p[0] == "rep":
                if blk is not None or tail:
                    rep.undecided("encode-map", "encoder result", "two repeated blocks")
                    return
                n, blk = p[1], chars(p[2])
            else:
                tail += chars([p])
        shapes.append((n, blk, tail, s))
    if not any(n for n, _, _, _ in shapes):
        rep.undecided("encode-map", "encoder", "the group loop was not recognised")
        return

    def enc_char(c):
        """('pad', ch) or ('data', 6 provenance bits)"""
        if c[0] == "i":
            return ("lit", c[1])
        lk = lookup(fx, c)
        if lk is None:
            return None
        tables.add(lk[0])
        return ("data", tuple(B.bits(lk[1], leaf_in, 16)))

    ok_maps = {}
    for n, blk, tail, s in shapes:
        cs = []
        for c in (blk or []):
            cs.append(("blk", enc_char(c)))
        for c in tail:
            cs.append(("tail", enc_char(c)))
        if any(c is None for _, c in cs):
            rep.undecided("encode-map", "encoder", "an output character is not a table entry: " + show(tail[0] if tail else blk[0]))
            return
        # consumed bytes
        offs = [y[0][2] for _, c in cs if c[0] == "data" for y in c[1] if isinstance(y, tuple)]
        if n is None:
            cons = I(max(offs) + 1) if offs else I(0)
            r = cons[1]
            if r > 2:
                continue              # full groups: covered by the generic paths
        else:
            toffs = [y[0][2] for w, c in cs if w == "tail" and c[0] == "data" for y in c[1] if isinstance(y, tuple)]
            boffs = [y[0][2] for w, c in cs if w == "blk" and c[0] == "data" for y in c[1] if isinstance(y, tuple)]
            glen = max(boffs) - min(boffs) + 1 if boffs else 3
            start = min(boffs) if boffs else 0
            r = (max(toffs) + 1 - start) if toffs else 0
            if start != 0:
                continue
            cons = ("bin", "+", ("bin", "*", n, I(glen), "long"), I(r), "long")
        tr = s.truth(("bin", "==", plen, cons, "bool"))
        if tr is None:
            rep.undecided("length", "encoder consumes every byte", "cannot relate length and consumption (remainder %d)" % r)
        else:
            rep.judge("length", "encoder consumes every byte", tr, "a path ends with %s bytes encoded although the length differs" % show(cons))
        full, rem = (r // 3, r % 3) if n is None else (0, r)
        while n is not None and rem >= 3:
            rem -= 3
        m = ok_maps.setdefault(("blk" if blk else "none", rem if n is not None else r), (n, cs, s))
    # group block and tails by remainder
    grp = None
    tails = {}
    for (b, r), (n, cs, s) in ok_maps.items():
        blk = [c for w, c in cs if w == "blk"]
        if blk:
            grp = blk
        tl = [c for w, c in cs if w == "tail"]
        base = 0
        if r < 3:
            tails.setdefault(r, []).append(tl)
    if grp is None or set(tails) != {0, 1, 2}:
        rep.undecided("encode-map", "encoder", "remainders seen: %s" % sorted(tails))
        return

    def norm(cs):
        """bits relative to the first byte of the group: (byte offset, bit)"""
        out = []
        for c in cs:
            if c[0] == "lit":
                out.append(c)
                continue
            out.append(("data", tuple((y[0][2], y[1]) if isinstance(y, tuple) else y for y in c[1])))
        return out
    grp = norm(grp)
    ntails = {}
    for r, ts in tails.items():
        variants = {tuple(norm(t)) for t in ts}
        if len(variants) > 1:
            rep.bad("encode-map", "remainder %d" % r, "paths with %d remaining bytes encode differently" % r)
        ntails[r] = list(variants)[0]
    for name, cs in [("full group", grp)] + [("remainder %d" % r, t) for r, t in sorted(ntails.items())]:
        bad = [i for i, c in enumerate(cs) if c[0] == "data" and any(y is None for y in c[1])]
        rep.judge("encode-map", name, not bad, "character %s of the %s mixes bits in a way that loses them" % (bad, name))
        over = [i for i, c in enumerate(cs) if c[0] == "data" and any(y != 0 for y in c[1][6:])]
        rep.judge("encode-map", name + " index range", not over, "character %s of the %s indexes the table with more than 6 bits" % (over, name))
    if len(tables) != 1:
        rep.bad("alphabet", "one table", "the encoder uses %d tables" % len(tables))
        return
    table = tables.pop()
    rep.judge("alphabet", "64 distinct characters", len(table) == 64 and len(set(table)) == 64, "table %r" % table)
    rep.judge("alphabet", "standard alphabet", table == STD, "table %r is not the standard one" % table)
    pads = {chr(c[1]) for t in ntails.values() for c in t if c[0] == "lit"}
    rep.judge("alphabet", "pad is not data", not (pads & set(table)), "pads %s" % pads)
    # ---- decoder
    d = B.PEngine(fx)
    d.alphabet = {ord(c) for c in table}
    dsrc = ("d", ("p", dec["ps"][0]["n"], 0))

    def charvar(t):
        t = strip(t)
        if t[0] == "ld" and t[1][0] == "e" and t[1][1] == dsrc:
            return t
        return None
    d.charvar = charvar
    watch(d, (enc, dec), hits)
    try:
        douts = [o for o in d.run(dec) if o[0] == "return"]
    except A.Undecided as x:
        rep.undecided("lossless", "decoder", str(x))
        return
    rep.fns |= d.funcs
    rep.count("decoder_paths", len(douts))
    searched = set()
    dmap = {}

    def leaf_dec(t):
        if t[0] == "find":
            tb = table_of(fx, t[1])
            searched.add(tb)
            c = strip(t[2])
            if A.is_int(c):
                p = (tb or "").find(chr(c[1] % 256)) if c[1] else -1
                v = p % (1 << 64)
                return [(v >> i) & 1 for i in range(64)]
            cv = charvar(c)
            if cv is not None:
                n, k, co = off(cv[1][2])
                return [(("c", k), b) for b in range(6)]
            return [None] * 64
        return None

    partial = set()
    for _, s, v in douts:
        ps = flat(v)
        if ps is None:
            rep.undecided("lossless", "decoder result", show(v))
            return
        n, blk, tail = None, None, []
        for p in ps:
            if p[0] == "rep":
                n, blk = p[1], list(p[2])
            else:
                tail.append(p)
        # data characters consumed on this path and how the path ended
        cands = {k[1]: c for k, c in s.facts.items() if k[0] == "cand"}
        data, ended, mixed = [], "end", False
        for cv, c in cands.items():
            k = off(cv[1][2])
            if (k[0] is None) != (n is None):
                continue
            if c == frozenset([61]):
                ended = "pad"
            elif 61 in c:
                mixed = True
            else:
                data.append(k[1])
                if c != frozenset(d.alphabet):
                    partial.add(frozenset(d.alphabet) - c)
        t = len(data)
        if mixed:
            continue
        if ended == "end" and not (n is None and t >= 4):
            cons = I(t) if n is None else ("bin", "+", ("bin", "*", n, I(4), "long"), I(t), "long")
            left = s.truth(("bin", "==", ("call", "size", ("ld", dsrc), (), 0), cons, "bool"))
            szs = [a for k in s.facts for x in k[1:] if isinstance(x, tuple) for a in A.subterms(x)
                   if isinstance(a, tuple) and a and a[0] == "call" and last(a[1]) in ("size", "length") and a[2] == ("ld", dsrc)]
            if szs:
                left = s.truth(("bin", "==", szs[0], cons, "bool"))
            if left is False:
                rep.bad("lossless", "decoder reads to the end", "a path ends after %s characters although more follow" % show(cons))
            elif left:
                rep.ok("lossless", "decoder reads to the end")
        if n is None and t >= 4:
            continue
        dmap.setdefault((n is not None, t, ended), []).append((blk, tail, s))
    for p in partial:
        rep.bad("alphabet", "decoder accepts every table character", "the decoder treats %s differently from other data characters"
                % "".join(sorted(chr(x) for x in p)))
    if not partial:
        rep.ok("alphabet", "decoder accepts every table character")
    if not any(k[0] for k in dmap):
        rep.undecided("lossless", "decoder", "the group loop was not recognised")
        return

    def decbytes(terms):
        return [B.bits(x, leaf_dec, 64)[:8] for x in terms]

    def compose(name, cs, bs, nbytes):
        datac = [c for c in cs if c[0] == "data"]
        if len(bs) != nbytes:
            rep.bad("lossless", name, "%d bytes are encoded but %d are decoded" % (nbytes, len(bs)))
            return
        for i, by in enumerate(bs):
            for b, y in enumerate(by):
                if isinstance(y, tuple):
                    k = y[0][1]
                    if k >= len(datac):
                        y = None
                    else:
                        y = datac[k][1][y[1]]
                if y != (i, b):
                    rep.bad("lossless", name, "bit %d of byte %d of a %s decodes to %s" % (b, i, name, "bit %d of byte %d" % (y[1], y[0]) if isinstance(y, tuple) else y))
                    return
        rep.ok("lossless", name)

    gblk = [blk for (g, t, x), l in dmap.items() if g for blk, _, _ in l if blk]
    variants = {repr(decbytes(b)) for b in gblk}
    if len(variants) != 1:
        rep.undecided("lossless", "full group", "decoder group block ambiguous")
        return
    compose("full group", grp, decbytes(gblk[0]), 3)
    rep.judge("lossless", "group size", len([c for c in grp if c[0] == "data"]) == 4 and not any(c[0] == "lit" for c in grp), "a full group is %d characters" % len(grp))
    for r in (0, 1, 2):
        cs = ntails[r]
        t = len([c for c in cs if c[0] == "data"])
        lits = [c[1] for c in cs if c[0] == "lit"]
        ended = "pad" if lits else "end"
        if any(c[0] == "data" for c in cs[t:]):
            rep.bad("lossless", "remainder %d" % r, "padding precedes data")
            continue
        for g in (False, True):
            sel = dmap.get((g, t, ended))
            if not sel:
                if g or t:
                    rep.undecided("lossless", "remainder %d" % r, "no decoder path for %d data characters ending in %s" % (t, ended))
                continue
            for blk, tail, s in sel:
                compose("remainder %d" % r, cs, decbytes(tail), r)
    rep.judge("alphabet", "same table", searched == {table}, "decoder searches %s" % searched)
    # ---- padding: as many pads as the last group lacks data characters
    for r, t in sorted(ntails.items()):
        np_ = len([c for c in t if c[0] == "lit"])
        rep.judge("alphabet", "padding of remainder %d" % r, np_ == (3 - r) % 3 and pads <= {"="},
                  "a remainder of %d bytes is padded with %d characters (%s)" % (r, np_, "".join(sorted(pads))))
    # ---- widths
    for fn, outs_, what in ((enc, outs, "encoder"), (dec, douts, "decoder")):
        narrow = set()
        for _, s, v in outs_:
            for x in list(s.env.values()) + [a for k in s.facts for a in k if isinstance(a, tuple)]:
                if isinstance(x, tuple):
                    for y in A.subterms(x):
                        if y[0] == "cast" and A.bits(y[1]) < 64 and not A.is_float(y[1]) and A.mentions(y[2], lambda z: z[0] == "call" and last(z[1]) in ("size", "length")):
                            narrow.add(y[1])
        if what == "encoder" and A.bits(enc["ps"][1]["t"]) < 64:
            narrow.add(enc["ps"][1]["t"])
        for x in cxx.walk(fn["body"]):
            if x.get("k") == "cast" and 1 < A.bits(x.get("t", "")) < 64 and isinstance(x.get("x"), dict):
                y = x["x"]
                while y.get("k") == "cast" and A.bits(y.get("t", "")) >= 64:
                    y = y["x"]
                if y.get("k") == "call" and last(y.get("q", "")) in ("size", "length") or \
                        what == "encoder" and y.get("k") == "ref" and y.get("n") == enc["ps"][1]["n"]:
                    narrow.add(x["t"])
        for x in cxx.walk(fn["body"]):
            base = ix = None
            if x.get("k") == "idx":
                base, ix = x.get("b"), x.get("i")
            elif x.get("k") == "call" and x.get("op") == "[]":
                base, ix = (x["r"], x["a"][0]) if x.get("r") is not None else x["a"][:2]
            if not isinstance(base, dict) or not isinstance(ix, dict):
                continue
            while base.get("k") == "cast":
                base = base["x"]
            if base.get("k") != "ref" or base.get("n") != fn["ps"][0]["n"]:
                continue
            for y in cxx.walk(ix):
                if y.get("k") == "ref" and y.get("d") in ("local", "param") and A.is_scalar(y.get("t", "")) and A.bits(y["t"]) < 64:
                    narrow.add(y["t"] + " index")
        rep.judge("length", what + " length width", not narrow, "the %s's length is narrowed to %s" % (what, ", ".join(sorted(narrow))))


def flat(v):
    v = strip(v)
    if v[0] == "cat":
        return list(v[1])
    if v[0] == "s":
        return [v] if v[1] else []
    if v[0] == "list":
        return list(v[1])
    return None


def chars(ps):
    out = []
    for p in ps:
        p = strip(p)
        if p[0] == "s":
            out += [I(ord(c)) for c in p[1]]
        else:
            out.append(p)
    return out


CHECKS = {"A02": a02}
