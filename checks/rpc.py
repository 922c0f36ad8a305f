"""E01-E06: remote optimisation client (rpc): credentials, secrecy, HTTP outcome, answer use, configuration."""
import os

from lib import absint as A, cxx, rules as R
from lib.absint import I, last, show

NS = "sdfg::passes::rpc::"
B = NS + "SimpleRpcContextBuilder::"
D = NS + "DaisytunerRpcContext::"
S = NS + "SimpleRpcContext::"
THIS = ("d", ("this",))
SRC = ("passes/rpc/rpc_context.cpp", "passes/rpc/daisytuner_rpc_context.cpp", "util/utils_curl.cpp")
TR = "transformations/rpc_node_transform.cpp"
OUT = ("std::cout", "std::cerr", "std::clog")
# curl option numbers (curl.h: long 0+n, object 10000+n, function 20000+n)
O_WDATA, O_URL, O_POST, O_HDR, O_WFUN, O_COPYPOST = 10001, 10002, 10015, 10023, 20011, 10165
O_VERBOSE, O_VPEER, O_VHOST, O_UNRES, O_PSIZE, O_PSIZEL = 41, 64, 81, 105, 60, 30120
# options that turn the exchange into something other than a plain POST: number -> (name, harmless value)
FORM = {45: ("FAILONERROR", 0), 10007: ("RANGE", 0), 44: ("NOBODY", 0), 42: ("HEADER", 0), 46: ("UPLOAD", 0), 54: ("PUT", 0), 47: ("POST", 1),
        21: ("RESUME_FROM", 0), 30116: ("RESUME_FROM", 0), 114: ("MAXFILESIZE", 0), 30117: ("MAXFILESIZE", 0), 141: ("CONNECT_ONLY", 0)}
STATUS = ("http-status",)
BODY = ("http-body",)


class EEngine(R.JEngine):
    skip_output = False
    limit = 240.0

    def load0(self, st, loc):
        if loc[0] == "f" and loc[1][0] == "d" and isinstance(loc[1][1], tuple) and loc[1][1] and loc[1][1][0] == "list" and len(loc[1][1][1]) == 2 and "pair" in str(loc[1][1][2]):
            return loc[1][1][1][0 if loc[2] == "first" else 1]
        v = super().load0(st, loc)
        if isinstance(v, tuple) and len(v) == 3 and v[0] == "fld" and isinstance(v[1], tuple) and v[1] and v[1][0] == "list" and len(v[1][1]) == 2 and v[2] in ("first", "second"):
            return v[1][1][0 if v[2] == "first" else 1]
        return v

    def on_call(self, st, node, q, rl, rv, args, an):
        name = last(q)
        w = self.where(node)
        if node.get("op") == "<<" and rl is not None and rl[0] == "gl" and rl[1] in OUT:
            st.emit("print", args[-1], w)
            return [(st, ("ref", rl))]
        if name in ("printf", "fprintf", "puts", "fputs", "perror", "syslog", "fwrite", "print", "println") and rl is None:
            for v in args:
                st.emit("print", v, w)
            return [(st, ("void",))]
        if name in ("operator==", "operator!=") and ("g", "std::nullopt") in [rv] + list(args):
            o = [x for x in [rv] + list(args) if x is not None and x != ("g", "std::nullopt")]
            if not o or isinstance(o[0], tuple) and o[0][0] == "list":
                return [(st, I((not o) == (name == "operator==")))]
        if "std::optional" in q and rv is not None and isinstance(rv, tuple):
            if rv[0] == "list" and name in ("has_value", "operator bool"):
                return [(st, I(1))]
            if rv == ("g", "std::nullopt") and name in ("has_value", "operator bool"):
                return [(st, I(0))]
            if name in ("value", "operator*") and rv[0] == "list":
                return [(st, rv)]
            if rv[0] in ("mut", "cat", "s") or rv[0] == "ctor" and "optional" not in rv[1]:
                if name in ("has_value", "operator bool"):
                    return [(st, I(1))]
                if name in ("value", "operator*", "value_or"):
                    return [(st, rv)]
        if "istreambuf_iterator" in q and name in ("ctor", "istreambuf_iterator"):
            real = [v for v, a in zip(args, an) if a is not None and a.get("k") != "defarg"]
            if not real:
                return [(st, ("sbit-end",))]
            if real[0][0] in ("sbit", "sbit-end"):
                return [(st, real[0])]
            return [(st, ("sbit", real[0]))]
        if name in ("ctor", "basic_string", "assign") and "basic_string" in q and len(args) >= 2 and args[0][0] == "sbit" and args[1] == ("sbit-end",):
            v = ("cat", (("call", "std::to_string", None, (("call", "std::basic_ifstream<char>::rdbuf", args[0][1], (), 0),), 0),))
            if name == "assign" and rl is not None:
                self.store(st, rl, v, node)
                return [(st, ("ref", rl))]
            return [(st, v)]
        if rl is not None and rl[0] == "f" and rl[2] in ("headers", "headers_"):
            if name in ("emplace", "insert", "try_emplace", "emplace_hint"):
                key = args[1] if name == "emplace_hint" and len(args) > 1 else args[0] if args else None
                if isinstance(key, tuple) and key and key[0] == "list" and len(key[1]) == 2:
                    key = key[1][0]
                st.emit("keepold", key, absent(st, rl, key), w)
            if name == "erase" and args:
                st.emit("erased", args[0], w)
        if name == "curl_easy_perform":
            res = ("call", q, None, tuple(args), self.fresh())
            st.emit("perform", args[0] if args else None, res, w)
            for e in st.events():
                if e[0] == "setopt" and e[2] == O_WDATA and e[3][0] == "addr":
                    self.store(st, e[3][1], BODY, quiet=True)
            return [(st, res)]
        if name == "curl_easy_setopt" and len(args) == 3:
            st.emit("setopt", args[0], args[1][1] if A.is_int(args[1]) else None, args[2], w)
            return [(st, I(0))]
        if name == "curl_easy_getinfo" and len(args) == 3:
            if args[2][0] == "addr":
                opt = args[1][1] if A.is_int(args[1]) else None
                st.emit("getinfo", opt, args[2][1], w)
                self.store(st, args[2][1], STATUS if opt == 0x200002 else ("info", opt), quiet=True)
            return [(st, I(0))]
        return super().on_call(st, node, q, rl, rv, args, an)


def facts(rep, extra=()):
    fs = [os.path.join(cxx.REPO, "rpc/src", x) for x in SRC + tuple(extra)]
    for f in fs:
        rep.need(os.path.exists(f), f)
    rep.files |= {os.path.relpath(f, cxx.REPO) for f in fs}
    return cxx.load(fs)


def paths(rep, fx, q, rule, pick=lambda f: True, need=True):
    fns = [f for f in fx.named(q) if not f.get("dep") and f.get("body") and pick(f)]
    if not fns:
        if need:
            raise cxx.AnalysisError("analysis anchor lost: " + q)
        return None, None, ()
    e = EEngine(fx)
    try:
        out = e.run(fns[0])
    except A.Undecided as x:
        rep.undecided(rule, last(q), str(x))
        return e, fns[0], None
    rep.fns |= e.funcs
    rep.count("paths", len(out))
    return e, fns[0], [o for o in out if o[0] != "exit"]


def env(name):
    return ("call", "getenv", None, (("s", name),), 0)


def envset(st, g):
    """True/False/None: is the environment value present and non-empty on this path?"""
    nn = st.truth(("bin", "!=", g, I(0), "bool"))
    if nn is False:
        return False
    ch = ("ld", ("d", g))
    ne = st.truth(("bin", "!=", ch, I(0), "bool"))
    if ne is None:
        ne = st.truth(("bin", "!=", ("idx", g, I(0)), I(0), "bool"))
    if ne is None:
        ne = st.truth(("bin", "!=", ("ld", ("e", ("d", g), I(0))), I(0), "bool"))
    if ne is None:
        r = st.truth(("call", "strlen", None, (g,), 0))
        ne = r
    if ne is None:
        r = st.truth(("call", "empty", g, (), 0))
        ne = None if r is None else not r
    if ne is False:
        return False
    if nn and ne:
        return True
    return None


def getenvs(t):
    return [x for x in A.subterms(t) if x and x[0] == "call" and last(x[1] if isinstance(x[1], str) else "") in ("getenv", "secure_getenv")]


def pathparts(v):
    """Flattened components of a path/string expression."""
    if v[0] == "cast":
        return pathparts(v[2])
    if v[0] == "call" and last(v[1]) == "operator/":
        xs = list(v[3]) if v[2] is None else [v[2]] + list(v[3])
        return sum((pathparts(x) for x in xs), [])
    if v[0] == "call" and last(v[1]) in ("string", "c_str", "native", "path", "ctor", "u8string", "generic_string"):
        xs = ([v[2]] if v[2] is not None else []) + list(v[3])
        return pathparts(xs[0])
    if v[0] == "ctor" and v[2]:
        return pathparts(v[2][0])
    if v[0] == "cat":
        out = []
        for x in v[1]:
            out += pathparts(x)
        return out
    if v[0] == "s":
        return [("s", p) for p in v[1].split("/") if p] if v[1] else []
    return [v]


def filekey(v):
    """'home' / 'session' / None for the path expression of a token file."""
    p = pathparts(v)
    txt = tuple(x[1] if x[0] == "s" else "?" for x in p)
    if txt == ("?", ".config", "docc", "token") and p[0] == env("HOME"):
        return "home"
    if txt == ("var", "lib", "daisytuner", "session"):
        return "session"
    return None


def opens(st):
    """[(stream term, kind)] of the files opened on a path."""
    return [(e[3], filekey(e[2][0])) for e in st.events() if e[0] == "open"]


ORDER = ("job", "access", "home", "session")
NAMES = {"job": "$DOCC_JOB_TOKEN", "access": "$DOCC_ACCESS_TOKEN", "home": "$HOME/.config/docc/token", "session": "/var/lib/daisytuner/session"}


def avail(st, k):
    if k == "job":
        return envset(st, env("DOCC_JOB_TOKEN"))
    if k == "access":
        return envset(st, env("DOCC_ACCESS_TOKEN"))
    if k == "home":
        h = envset(st, env("HOME"))
        if h is False:
            return False
    for s, kind in opens(st):
        if kind == k:
            r = st.truth(("call", "good", s, (), 0))
            if r is None:
                r = st.truth(("call", "is_open", s, (), 0))
            if r is not None:
                return r
    return None


def source_of(tok):
    """(source, trimmed) of a token term."""
    for n, k in (("DOCC_JOB_TOKEN", "job"), ("DOCC_ACCESS_TOKEN", "access")):
        if tok == env(n):
            return k, True
        if A.mentions(tok, lambda x: x == env(n)):
            return k, part(tok, env(n))
    for x in A.subterms(tok):
        if x and x[0] == "st" and x[2] == "open":
            k = filekey(x[3][0])
            if k is None:
                return "?", None
            return k, trimmed(tok)
    return None, None


def part(tok, g):
    """Is the variable's value taken whole?"""
    if tok[0] == "cast" or tok[0] == "ctor" and len(tok[2]) == 1 or tok[0] == "cat" and len(tok[1]) == 1:
        x = tok[2] if tok[0] == "cast" else tok[2][0] if tok[0] == "ctor" else tok[1][0]
        return True if x == g else part(x, g)
    ln = None
    if tok[0] == "ctor" and len(tok[2]) == 2 and tok[2][0] == g:
        ln = tok[2][1]
    elif tok[0] == "call" and last(tok[1]) == "substr" and tok[2] == g and tok[3]:
        if tok[3][0] != I(0):
            return False if A.is_int(tok[3][0]) else None
        ln = tok[3][1] if len(tok[3]) > 1 else None
        if ln is None:
            return True
    elif tok[0] == "cat":
        return False
    if ln is None:
        return None
    items, c = A.lin(ln)
    if not items:
        return c in (-1, 2 ** 64 - 1)
    if len(items) == 1 and items[0][1] == 1 and items[0][0][0] == "call" and last(items[0][0][1]) in ("strlen", "size", "length") and A.mentions(items[0][0], lambda x: x == g):
        return c == 0 if c <= 0 else None
    return None


def whole(v):
    """A term holding a file's whole content (True), a part of it (False) or something unknown (None)."""
    while v[0] == "cat" and len(v[1]) == 1 or v[0] == "cast":
        v = v[1][0] if v[0] == "cat" else v[2]
    if v[0] == "call" and last(v[1]) == "to_string" and v[3] and v[3][0][0] == "call" and last(v[3][0][1]) == "rdbuf":
        return True
    if v[0] == "out" and last(v[1]) in ("getline", "operator>>", "get", "read"):
        return False
    return None


def trimmed(tok):
    """Is trailing white space of a file token removed?  None when the form is not recognised."""
    while tok[0] == "cat" and len(tok[1]) == 1:
        tok = tok[1][0]
    if tok[0] == "mut" and tok[1] == "erase" and len(tok) > 3:
        src, at = tok[2], tok[3]
        if isinstance(at, tuple) and at and isinstance(at[0], tuple):
            at = at[0]
        items, c = A.lin(at)
        if len(items) == 1 and items[0][1] == 1:
            f = items[0][0]
            if f[0] == "call" and last(f[1]) == "find_last_not_of" and f[2] == src and f[3] and f[3][0][0] == "s":
                chars = set(f[3][0][1])
                if whole(src) is not True:
                    return whole(src)
                return c == 1 and "\n" in chars and chars <= set(" \n\r\t\v\f") and {"\r", " ", "\t"} <= chars
    if tok[0] == "call" and last(tok[1]) == "substr" and len(tok[3]) == 2 and tok[3][0] == I(0):
        items, c = A.lin(tok[3][1])
        if len(items) == 1 and items[0][0][0] == "call" and last(items[0][0][1]) == "find_last_not_of" and items[0][0][2] == tok[2]:
            if whole(tok[2]) is not True:
                return whole(tok[2])
            return c == 1 and "\n" in items[0][0][3][0][1]
    if whole(tok) is False:
        return False
    if tok[0] == "call" and last(tok[1]) == "to_string" or tok[0] == "cat":
        return False if not any(x and x[0] in ("mut", "phi", "out") for x in A.subterms(tok)) else None
    return None


# ------------------------------------------------------------------ E01
def e01(rep):
    fx = facts(rep)
    rep.rule("precedence", "the credential comes from the first available of $DOCC_JOB_TOKEN, $DOCC_ACCESS_TOKEN, "
                           "$HOME/.config/docc/token, /var/lib/daisytuner/session; an unset or empty variable is not available")
    rep.rule("kind", "only $DOCC_JOB_TOKEN yields a job token")
    rep.rule("token", "the token is the variable's value, or the file's content without trailing white space")
    rep.rule("scheme", "the Authorization value is 'Job <token>' for job tokens and 'Token <token>' otherwise")
    rep.rule("use", "contexts built from the configuration send exactly that header, and building one without a credential fails")
    e, fn, outs = paths(rep, fx, D + "find_docc_auth", "precedence")
    for kind, st, val in outs or ():
        if kind != "return":
            rep.bad("precedence", "find_docc_auth", "raises %s" % (val[1] if val else ""))
            continue
        v = val
        while isinstance(v, tuple) and v and v[0] in ("cast", "ctor") and v != ("g", "std::nullopt"):
            v = v[2] if v[0] == "cast" else (v[2][0] if v[2] else ("g", "std::nullopt"))
        if v == ("g", "std::nullopt") or v == ("list", (), v[2] if len(v) > 2 else ""):
            miss = [k for k in ORDER if avail(st, k) is not False]
            for k in miss:
                a = avail(st, k)
                rep.bad("precedence", "none", "no credential is reported although %s is %s" % (NAMES[k], "available" if a else "never consulted on that path"))
            if not miss:
                rep.ok("precedence", "none")
            continue
        if not (v[0] == "list" and len(v[1]) == 2):
            rep.undecided("precedence", "find_docc_auth", "result %s" % show(v)[:120])
            continue
        tok, job = v[1]
        k, tr = source_of(tok)
        if k is None or k == "?":
            if any(x and x[0] in ("phi", "out") for x in A.subterms(tok)):
                rep.undecided("precedence", "find_docc_auth", "token %s" % show(tok)[:100])
            else:
                rep.bad("precedence", "source", "the token comes from another source: %s" % show(tok)[:160])
            continue
        i = ORDER.index(k)
        bad = False
        for h in ORDER[:i]:
            a = avail(st, h)
            if a is not False:
                rep.bad("precedence", k, "%s is used although %s %s" % (NAMES[k], NAMES[h], "is available" if a else "was not found to be missing"))
                bad = True
        if avail(st, k) is not True:
            rep.bad("precedence", k, "%s is used without being present%s" % (NAMES[k], " and non-empty" if i < 2 else ""))
            bad = True
        if not bad:
            rep.ok("precedence", k)
        if A.is_int(job):
            rep.judge("kind", k, bool(job[1]) == (k == "job"), "the token from %s is marked as %s token" % (NAMES[k], "a job" if job[1] else "an access"))
        elif st.truth(job) is not None:
            rep.judge("kind", k, st.truth(job) == (k == "job"), "the token from %s is marked as %s token" % (NAMES[k], "a job" if st.truth(job) else "an access"))
        elif getenvs(job):
            rep.bad("kind", k, "whether the token from %s is a job token depends on %s" % (NAMES[k], show(job)))
        else:
            rep.undecided("kind", k, show(job))
        if tr is None:
            rep.undecided("token", k, show(tok)[:120])
        else:
            rep.judge("token", k, tr, "the token from %s is not its content without trailing white space" % NAMES[k])
    # scheme
    e, fn, outs = paths(rep, fx, D + "build_auth_header_content", "scheme")
    for kind, st, val in outs or ():
        p = ("p", fn["ps"][0]["n"] or "0", 0)
        j = st.truth(("fld", p, "second"))
        if kind == "return":
            schemejudge(rep, "build_auth_header_content", val, ("fld", p, "first"), j)
    # consumers
    e, fn, outs = paths(rep, fx, B + "from_docc_config", "use")
    for kind, st, val in outs or ():
        auth = found(st)
        h = headers(e, st, THIS, "headers")
        if kind != "return":
            rep.bad("use", "builder", "raises %s" % (val[1] if val else ""))
            continue
        if auth is None:
            rep.undecided("use", "builder", "credential lookup not followed")
            continue
        if auth == "none":
            rep.judge("use", "builder:none", not h and not any(x[0] == "store" and x[1][0] == "f" for x in st.events()),
                      "the configuration changes although there is no credential")
            continue
        hdr = [v for k, v in h if k == ("s", "Authorization")]
        if len(hdr) != 1 or len(h) != 1:
            rep.bad("use", "builder", "the Authorization header is not set")
        else:
            schemejudge(rep, "builder", hdr[0], auth[0], auth[1])
            rep.ok("use", "builder")
    ct = [f for f in fx.methods(NS + "DaisytunerRpcContext") if f.get("ctor") and len(f["ps"]) == 2]
    rep.need(ct, D + "DaisytunerRpcContext")
    e = EEngine(fx)
    try:
        outs = e.run(ct[0])
    except A.Undecided as x:
        rep.undecided("use", "constructor", str(x))
        outs = ()
    rep.fns |= e.funcs
    for kind, st, val in outs:
        if kind != "return":
            continue
        tok, job = [("p", p["n"] or str(i), i) for i, p in enumerate(ct[0]["ps"])]
        h = maplit(e.load(st, ("f", THIS, "headers_")))
        if h is None:
            rep.undecided("use", "constructor", show(e.load(st, ("f", THIS, "headers_")))[:100])
            continue
        hdr = [v for k, v in h if k == ("s", "Authorization")]
        if len(hdr) != 1:
            rep.bad("use", "constructor", "the Authorization header is not set")
            continue
        schemejudge(rep, "constructor", hdr[0], tok, st.truth(job))
        rep.ok("use", "constructor")
    e, fn, outs = paths(rep, fx, D + "from_docc_config", "use")
    for kind, st, val in outs or ():
        auth = found(st)
        if auth is None:
            rep.undecided("use", "context", "credential lookup not followed")
        elif auth == "none":
            rep.judge("use", "context:none", kind == "throw", "a context is built without a credential")
        elif kind == "throw":
            rep.bad("use", "context", "fails although there is a credential")
        else:
            loc = val[1] if isinstance(val, tuple) and val[0] == "addr" else None
            h = maplit(e.load(st, ("f", loc, "headers_"))) if loc else None
            if h is None:
                rep.undecided("use", "context", show(val)[:100])
                continue
            hdr = [v for k, v in h if k == ("s", "Authorization")]
            if len(hdr) != 1:
                rep.bad("use", "context", "the Authorization header is not set")
                continue
            schemejudge(rep, "context", hdr[0], auth[0], auth[1])
            rep.ok("use", "context")


def schemejudge(rep, inst, v, tok, job):
    parts = v[1] if v[0] == "cat" else (v,)
    flat = []
    for x in parts:
        if x[0] == "s" and flat and flat[-1][0] == "s":
            flat[-1] = ("s", flat[-1][1] + x[1])
        else:
            flat.append(x)
    if len(flat) != 2 or flat[0][0] != "s":
        if A.mentions(v, lambda x: x[:1] == ("cond",) or x[:1] == ("phi",)):
            rep.undecided("scheme", inst, show(v)[:100])
        else:
            rep.bad("scheme", inst, "the header value is %s" % show(v)[:120])
        return
    want = None if job is None else ("Job " if job else "Token ")
    if want is None:
        rep.undecided("scheme", inst, "job flag unknown on a path")
    else:
        rep.judge("scheme", inst, flat[0][1] == want and flat[1] == tok, "the header value for %s token is %s" % (
            "a job" if job else "an access", show(v)[:120]))


def found(st):
    """The result of the last find_docc_auth call on a path: 'none', (token, job) or None."""
    r = None
    for x in st.events():
        if x[0] == "leave" and x[1] == D + "find_docc_auth":
            v = x[2]
            if v == ("g", "std::nullopt"):
                r = "none"
            elif v[0] == "list" and len(v[1]) == 2:
                r = (v[1][0], bool(v[1][1][1]) if A.is_int(v[1][1]) else None)
            else:
                r = None
    return r


def absent(st, m, key):
    """The map is known to have no entry for the key on this path."""
    if any(x[0] == "erased" and x[1] == key for x in st.events()):
        return True
    return any(k[0] == "has" and k[2] == key and v is False for k, v in st.facts.items() if len(k) > 2)


def keeps_old(rep, rule, inst, st):
    for x in st.events():
        if x[0] == "keepold" and not x[2]:
            rep.bad(rule, inst, "a header that is already set keeps its old value at %s" % x[3][0])


def headers(e, st, loc, name):
    """[(key, value)] written into a map member on this path."""
    out = []
    m = ("f", loc, name)
    for l, v in st.env.items():
        if l[0] == "e" and l[1] == m:
            out.append((l[2], v))
    return out


def maplit(v):
    """[(key, value)] of a map literal."""
    if isinstance(v, tuple) and v and v[0] in ("ctor",) and v[2]:
        return maplit(v[2][0])
    if isinstance(v, tuple) and v and v[0] == "rec":
        base = maplit(v[1])
        return None if base is None else [x for x in base if x[0] not in [k for k, _ in v[2]]] + list(v[2])
    if isinstance(v, tuple) and v and v[0] == "list" and all(x[0] == "list" and len(x[1]) == 2 for x in v[1]):
        return [(x[1][0], x[1][1]) for x in v[1]]
    return None


# ------------------------------------------------------------------ E02
SIZE = ("size", "length", "empty", "operator bool", "has_value", "strlen", "count", "contains", "find", "find_first_of", "is_string",
        "find_last_not_of", "begin", "end", "operator==", "operator!=", "good", "fail", "is_open", "operator!")


HEADER_ENV = ("header-env",)


def secret(x, holders):
    if x in holders:
        return True
    if x[0] == "call" and isinstance(x[1], str) and last(x[1]) in ("getenv", "secure_getenv") and x[3]:
        if x[3][0][0] != "s" and HEADER_ENV in holders and A.mentions(x[3][0], lambda y: y[0] == "p"):
            return True
        return x[3][0] in (("s", "DOCC_JOB_TOKEN"), ("s", "DOCC_ACCESS_TOKEN"), ("s", "RPC_HEADER"))
    if x[0] == "call" and isinstance(x[1], str) and last(x[1]) in ("rdbuf",) and x[2] is not None:
        return True
    if x[0] == "ld" and x[1][0] == "f" and x[1][2] in ("headers", "headers_"):
        return True
    if x[0] == "ld" and x[1][0] == "e" and x[1][1][0] == "f" and x[1][1][2] in ("headers", "headers_"):
        return x[1][2][0] != "itn"
    if x[0] == "ld" and x[1][0] == "f" and x[1][2] != "first" and x[1][1][0] == "e" and x[1][1][1][0] == "f" and x[1][1][1][2] in ("headers", "headers_"):
        return True
    if x[0] == "call" and isinstance(x[1], str) and last(x[1]) == "get_auth_headers":
        return True
    if x[0] == "call" and isinstance(x[1], str) and last(x[1]) == "dump" and jroot(x[2]):
        return True                                 # the whole configuration, headers included
    if x[0] == "call" and isinstance(x[1], str) and last(x[1]) in ("value", "at", "operator[]") and jroot(x[2]) and x[3] and x[3][0] == ("s", "HEADERS"):
        return True
    if x[0] in ("ld", "idx", "fld") and jkey(x) == "HEADERS":
        return True
    return False


def leaks(v, holders):
    """The secret atom that flows into the term, or None."""
    if not isinstance(v, tuple) or not v:
        return None
    if isinstance(v[0], str):
        if v[0] in ("addr", "fn", "lam", "s", "i"):
            return None
        if v[0] == "call" and isinstance(v[1], str):
            if last(v[1]) in SIZE or last(v[1]).startswith("find"):
                return None
            if last(v[1]) == "substr" and v[3] and v[3][0] == I(0) and len(v[3]) > 1 and v[3][1][0] == "call" and last(v[3][1][1]).startswith("find"):
                return None                         # the name before the colon
            if last(v[1]) == "operator|" and any(isinstance(a, tuple) and a and a[0] == "g" and last(a[1]) == "keys" for a in v[3]):
                return None
        if v[0] == "bin" and v[1] in ("==", "!=", "<", ">", "<=", ">="):
            return None
        if v[0] == "fld" and v[2] == "first" and A.mentions(v[1], lambda x: x[0] in ("idx",)):
            return None
        if secret(v, holders):
            return v
    for x in v:
        r = leaks(x, holders)
        if r is not None:
            return r
    return None


def e02(rep):
    fx = facts(rep, (TR,))
    rep.rule("output", "no token, header value or token-file content reaches standard output, standard error or an error message")
    rep.rule("transport", "requests keep certificate verification on and curl's request tracing (which prints headers) off")
    roots = []
    for f in fx.fns.values():
        q = f["q"]
        if f.get("dep") or not f.get("body") or not f.get("file", "").startswith(cxx.REPO + "/rpc/"):
            continue
        roots.append(f)
    rep.need(len(roots) > 10, "rpc functions")
    for f in sorted(roots, key=lambda f: f["q"]):
        if last(f["q"]) in ("apply", "can_be_applied", "schedule", "to_json", "print_transformation_sequence", "parse_rpc_response"):
            scan(rep, fx, f)
            continue
        e = EEngine(fx)
        try:
            outs = e.run(f)
        except A.Undecided as x:
            scan(rep, fx, f, str(x))
            continue
        rep.fns |= e.funcs
        rep.count("paths", len(outs))
        hold = holders(f)
        for kind, st, val in outs:
            for ev in st.events():
                if ev[0] == "print":
                    s = leaks(ev[1], hold)
                    if s is not None:
                        rep.bad("output", last(f["q"]), "%s prints %s at %s" % (last(f["q"]), show(s)[:80], ev[2][0]))
                if ev[0] == "setopt":
                    off = A.is_int(ev[3]) and ev[3][1] == 0
                    if ev[2] == O_VERBOSE and not off:
                        rep.bad("transport", last(f["q"]), "curl request tracing is switched on at %s" % ev[4][0])
                    if ev[2] in (O_VPEER, O_VHOST) and off:
                        rep.bad("transport", last(f["q"]), "certificate verification is switched off at %s" % ev[4][0])
                    if ev[2] == O_UNRES and not off:
                        rep.bad("transport", last(f["q"]), "credentials are sent on to redirect targets at %s" % ev[4][0])
                if ev[0] == "perform":
                    rep.ok("transport", last(f["q"]))
            if kind == "throw":
                s = leaks(val, hold)
                if s is not None:
                    rep.bad("output", last(f["q"]), "%s throws an exception that carries %s" % (last(f["q"]), show(s)[:80]))
            if f["q"] == "post_json" and kind == "return":
                s = leaks(val, hold)
                if s is not None:
                    rep.bad("output", "post_json", "the HTTP result carries %s" % show(s)[:80])
        rep.ok("output", last(f["q"]))


def holders(f):
    """Parameters that receive a token or a header value."""
    out = set()
    q = f["q"]
    for i, p in enumerate(f["ps"]):
        v = ("p", p["n"] or str(i), i)
        t = p["t"]
        if q == B + "add_header" and i == 1 or q == D + "build_auth_header_content" or q == D + "DaisytunerRpcContext" and i == 0 \
                or "unordered_map<" in t and "SimpleRpcContext" in q or "curl_slist" in t:
            out |= {v, ("ld", ("d", v))}
    if q == B + "from_header_env":
        out.add(HEADER_ENV)                             # the variable it is told to read holds a header
    return out


def scan(rep, fx, f, why=""):
    """Functions outside the engine's reach: no print in them may mention a credential expression at all."""
    hot = []
    tainted = set()
    for n in cxx.walk(f["body"]):
        if n.get("k") == "call" and last(n.get("q") or "") in ("get_auth_headers", "find_docc_auth", "getenv", "build_auth_header_content"):
            hot.append(n)
    if hot:
        rep.undecided("output", last(f["q"]), "credentials are read in a function the engine cannot follow: %s" % why[:80])
    else:
        rep.ok("output", last(f["q"]))
    _ = tainted


# ------------------------------------------------------------------ E03
def e03(rep):
    fx = facts(rep)
    rep.rule("request", "one request is sent: to the given URL, with the given payload and, if given, the header list")
    rep.rule("body", "the whole response body is collected, chunk by chunk, and returned")
    rep.rule("failure", "an error message is set exactly when the transfer failed or the status is not 200..203")
    rep.rule("defined", "the transfer code and the HTTP status of the result are defined on every path")
    e, fn, outs = paths(rep, fx, "post_json", "failure")
    if outs is None:
        return
    P = [("p", p["n"] or str(i), i) for i, p in enumerate(fn["ps"])]
    rep.need(len(P) == 4, "post_json parameters")
    for kind, st, val in outs:
        if kind != "return":
            rep.bad("failure", "post_json", "raises %s" % (val[1] if val else ""))
            continue
        ev = st.events()
        perf = [i for i, x in enumerate(ev) if x[0] == "perform"]
        if len(perf) != 1:
            rep.bad("request", "post_json", "%d requests are sent on some path" % len(perf))
            continue
        opts = {}
        for x in ev[:perf[0]]:
            if x[0] == "setopt":
                if x[2] is None:
                    rep.undecided("request", "options", "an option is not constant")
                opts[x[2]] = x[3]
        if ev[perf[0]][1] != P[0]:
            rep.bad("request", "handle", "another handle performs the request")
        for o, p, n in ((O_URL, P[1], "URL"), (O_POST, P[2], "payload")):
            v = opts.get(o)
            if n == "payload" and v is None:
                v = opts.get(O_COPYPOST)
            good = v in (p, ("ld", ("d", p))) or v is not None and v[0] == "call" and last(v[1]) in ("c_str", "data") and v[2] in (p, ("ld", ("d", p)))
            if v is None:
                rep.bad("request", n, "the %s is not set" % n)
            elif good:
                rep.ok("request", n)
            else:
                rep.bad("request", n, "the %s sent is %s" % (n, show(v)[:100]))
        for o, (n, ok) in FORM.items():
            if o in opts and not (A.is_int(opts[o]) and opts[o][1] == ok):
                rep.bad("body" if n in ("FAILONERROR", "RANGE", "NOBODY", "HEADER", "RESUME_FROM", "MAXFILESIZE") else "request", n,
                        "CURLOPT_%s makes the transfer something other than one POST whose whole answer is read" % n)
        for o in (O_PSIZE, O_PSIZEL):
            if o in opts:
                v = opts[o]
                while v[0] == "cast" and A.bits(v[1]) >= 64 and not v[1].startswith("double"):
                    v = v[2]
                if not (v[0] == "call" and last(v[1]) in ("size", "length") and v[2] in (P[2], ("ld", ("d", P[2])))) and v != I(-1):
                    rep.bad("request", "payload", "the payload length sent is %s" % show(v)[:80])
        hn = st.truth(("bin", "!=", P[3], I(0), "bool"))
        if hn is not False:
            rep.judge("request", "headers", opts.get(O_HDR) == P[3], "the header list is not set")
        # body
        cb = opts.get(O_WFUN)
        if cb is None or O_WDATA not in opts:
            rep.bad("body", "callback", "no write callback or no receiver is set")
        else:
            callback(rep, fx, e, cb)
        get = lambda n: defaulted(fx, e, fn, field(val, n), n)
        b = get("body")
        if opts.get(O_WDATA, ("?",))[0] == "addr":
            rep.judge("body", "returned", b == BODY, "the body returned is %s" % show(b)[:80])
        res = ev[perf[0]][2]
        failed = st.truth(("bin", "!=", res, I(0), "bool"))
        cc = get("curl_code")
        rep.judge("defined", "curl_code", cc == res or A.is_int(cc) and failed is False and cc[1] == 0, "the transfer code returned is %s" % show(cc)[:80])
        err = get("error_message")
        isset = nonempty(err)
        status = get("http_status")
        if undefined(status):
            rep.bad("defined", "http_status", "the HTTP status is left uninitialised when %s" % ("the transfer failed" if failed else "it succeeded"))
        else:
            rep.ok("defined", "http_status")
        if failed is None:
            rep.bad("failure", "transfer", "the transfer result is not checked")
            continue
        if failed:
            if isset is None:
                rep.undecided("failure", "transfer", show(err)[:80])
            else:
                rep.judge("failure", "transfer", isset, "a failed transfer leaves the error message empty")
            continue
        if status != STATUS:
            if status[0] == "cast" and status[2][0] == "cast" and A.bits(status[2][1]) < 16 or status[0] == "cast" and A.bits(status[1]) < 16:
                rep.bad("failure", "status", "the status returned is cut off: %s" % show(status)[:80])
            elif A.mentions(status, lambda x: x == STATUS):
                rep.undecided("failure", "status", show(status)[:80])
            else:
                rep.bad("failure", "status", "the status returned is %s" % show(status)[:80])
            continue
        lo = st.truth(("bin", ">=", STATUS, I(200), "bool"))
        hi = st.truth(("bin", "<", STATUS, I(204), "bool"))
        out = lo is False or hi is False
        for k, v in st.facts.items():
            if v and k[0] == "eq0" and len(k[1]) == 1 and k[1][0][0] == STATUS:
                n = -k[2] * k[1][0][1]
                lo = hi = 200 <= n < 204
                out = not lo
        if isset is None:
            rep.undecided("failure", "status", show(err)[:80])
        elif isset:
            rep.judge("failure", "status", out, "a successful answer can be reported as an error")
        else:
            rep.judge("failure", "status", lo is True and hi is True, "a status outside 200..203 can be reported as success")


def field(v, n):
    if isinstance(v, tuple) and v and v[0] == "rec":
        for k, x in v[2]:
            if k == n:
                return x
        return ("fld", v[1], n)
    return ("fld", v, n)


def undefined(v):
    return isinstance(v, tuple) and v and (v[0] == "fld" and isinstance(v[1], tuple) and v[1] and (v[1][0] in ("undef", "agg") or v[1][0] == "list" and not v[1][1]) or v[0] == "undef")


def defaulted(fx, e, fn, v, n):
    """A field nothing has written holds its in-class initialiser, if it has one."""
    if not undefined(v):
        return v
    rec = fx.recs.get(last(fn.get("rt") or "HttpResult")) or fx.recs.get("HttpResult")
    for f in (rec or {}).get("fields", ()):
        if f["n"] == n and "init" in f:
            i = f["init"]
            if str(i.get("cv", "")).lstrip("-").isdigit():
                return I(int(i["cv"]))
            return ("call", "default", None, (("s", "in-class initialiser"),), 0)
    return v


def nonempty(v):
    if undefined(v):
        return False
    if v[0] == "s":
        return bool(v[1])
    if v[0] == "cat":
        r = [nonempty(x) for x in v[1]]
        return True if True in r else (None if None in r or not r else False)
    if v == BODY:
        return False                                # the body of an answer can be empty
    if v[0] == "call" and last(v[1]) in ("curl_easy_strerror", "to_string"):
        return True
    if v[0] == "call" and last(v[1]) == "operator+":
        r = [nonempty(x) for x in ([v[2]] if v[2] is not None else []) + list(v[3])]
        return True if True in r else None
    if v[0] in ("fld", "ld"):
        return None
    return None


def callback(rep, fx, e, cb):
    lam = [x for x in A.subterms(cb) if x and x[0] == "lam"]
    body, ps, st = None, None, A.St()
    e2 = EEngine(fx)
    if lam:
        node, owner = e.lams[lam[0][1]]
        fn = dict(ps=node["ps"], body=node["body"], q="post_json callback", n="callback", u="", t=node.get("t", ""), cls="", file="", l=0)
    else:
        f = [x for x in A.subterms(cb) if x and x[0] == "fn"]
        fn = fx.fns.get(f[0][2]) if f else None
    if fn is None or len(fn["ps"]) != 4:
        rep.undecided("body", "callback", show(cb)[:80])
        return
    P = [("p", p["n"] or str(i), i) for i, p in enumerate(fn["ps"])]
    try:
        outs = e2.run(fn)
    except (A.Undecided, KeyError) as x:
        rep.undecided("body", "callback", str(x))
        return
    n = ("bin", "*", P[1], P[2], "unsigned long")
    want = A.lin(n)
    for kind, st, val in outs:
        if kind == "throw":
            rep.bad("body", "callback", "the callback raises")
            continue
        app = [x for x in st.events() if x[0] == "call" and last(x[1]) in ("append", "insert", "write", "push_back", "operator+=")]
        l = ("d", P[3])
        now = st.env.get(l)
        full = False
        short = any(v is True and k[0] == "eq0" or v is False and k[0] == "ge0" for k, v in st.facts.items() if A.mentions(k, lambda x: x in (P[1], P[2])))
        if isinstance(now, tuple):
            full = A.mentions(now, lambda x: x == P[0]) and any(A.lin(x) == want for x in A.subterms(now) if x and x[0] == "bin")
        for x in app:
            if x[1].endswith("append") and len(x[4]) == 2 and x[4][0] == P[0] and A.lin(x[4][1]) == want:
                full = True
        lost = [x for x in st.events() if x[0] == "store" and x[1] == l and not A.mentions(x[2], lambda y: y == ("ld", l) or y[0] in ("mut", "out", "st"))]
        mine = now
        while isinstance(mine, tuple) and mine and mine[0] == "mut" and mine[1] in ("append", "operator+=", "push_back", "insert") and mine[2] != ("ld", l):
            mine = mine[2]
        if isinstance(mine, tuple) and mine and mine[0] == "mut" and mine[1] in ("assign", "clear", "erase", "resize", "swap"):
            rep.bad("body", "callback", "a chunk replaces what was received before it: %s" % show(mine)[:80])
        elif isinstance(now, tuple) and now[0] == "mut" and now[1] == "append" and now[3][:1] == (P[0],) and (
                len(now[3]) == 1 or A.lin(now[3][1]) != want and not A.mentions(now[3][1], lambda x: x[0] in ("phi", "out", "cond"))):
            rep.bad("body", "callback", "not all bytes of a chunk are kept: %s" % show(now)[:100])
        elif lost:
            rep.bad("body", "callback", "a chunk replaces what was received before it: %s" % show(lost[0][2])[:80])
        elif A.lin(val) != want:
            rep.bad("body", "callback", "the callback does not report all bytes as consumed, so the transfer is aborted: %s" % show(val)[:80])
        elif not full and not short:
            if now is None and not app:
                rep.bad("body", "callback", "a chunk is dropped")
            elif isinstance(now, tuple) and A.mentions(now, lambda x: x == P[0]) and not any(A.lin(x) == want for x in A.subterms(now) if x and x[0] == "bin"):
                rep.bad("body", "callback", "not all bytes of a chunk are kept: %s" % show(now)[:100])
            else:
                rep.undecided("body", "callback", show(now)[:100] if now else "append form")
        else:
            rep.ok("body", "callback")


# ------------------------------------------------------------------ E06
def unchanged(e, st, name):
    v = e.load(st, ("f", THIS, name))
    return v == ("ld", ("f", THIS, name)) or v == ("f", THIS, name)


def e06(rep):
    fx = facts(rep)
    rep.rule("file", "a configuration file replaces the server, endpoint and headers it names (string values only) and nothing else; "
                     "an unreadable file is an error")
    rep.rule("env", "the configuration file named by the environment is loaded; an unset or empty variable changes nothing")
    rep.rule("header", "the header variable adds 'name:value' split at the first colon, or RPC-Hint without a colon; unset or empty changes nothing")
    rep.rule("docc", "with a docc credential, server and endpoint are the docc defaults, $RPC_SERVER (non-empty) replacing the server")
    rep.rule("build", "a context without a server is refused; otherwise it has the configured server, endpoint and headers")
    rep.rule("address", "requests go to <server>/<endpoint> with the context's headers")
    rep.rule("order", "build_rpc_context_auto starts from the local defaults, then applies the file, then the header variable")
    e, fn, outs = paths(rep, fx, B + "initialize_local_default", "order")
    for kind, st, val in outs or ():
        good = e.load(st, ("f", THIS, "server"))[0] == "s" and e.load(st, ("f", THIS, "endpoint"))[0] == "s" and "localhost" in e.load(st, ("f", THIS, "server"))[1]
        rep.judge("order", "local default", good and kind == "return", "the local default is not a constant local server")
    fromfile(rep, fx)
    # from_env
    e, fn, outs = paths(rep, fx, B + "from_env", "env")
    g = ("call", "getenv", None, (("p", fn["ps"][0]["n"], 0),), 0)
    for kind, st, val in outs or ():
        ent = [x for x in st.events() if x[0] == "enter" and x[1] == B + "from_file"]
        a = envset(st, g)
        opened = [x for x in st.events() if x[0] == "open"]
        if ent and a is not True:
            rep.bad("env", "from_env", "a file is loaded although the variable is not known to be set and non-empty")
        elif ent and not all(pathparts(A_unref(e, st, x[2][0])) == [g] for x in ent):
            rep.bad("env", "from_env", "another file is loaded: %s" % show(ent[0][2][0])[:80])
        elif not ent and a is not False:
            if opened:
                rep.undecided("env", "from_env", "a file is read without from_file")
            else:
                rep.bad("env", "from_env", "the file named by the variable is not loaded")
        elif not ent and (not unchanged(e, st, "server") or not unchanged(e, st, "endpoint") or headers(e, st, THIS, "headers")):
            rep.bad("env", "from_env", "the configuration changes although the variable is unset or empty")
        else:
            rep.ok("env", "from_env")
    # header variable
    e, fn, outs = paths(rep, fx, B + "from_header_env", "header")
    g = ("call", "getenv", None, (("p", fn["ps"][0]["n"], 0),), 0)
    for kind, st, val in outs or ():
        a = envset(st, g)
        h = headers(e, st, THIS, "headers")
        keeps_old(rep, "header", "set", st)
        if kind != "return":
            rep.bad("header", "from_header_env", "raises %s" % (val[1] if val else ""))
            continue
        if a is False:
            rep.judge("header", "unset", not h, "a header is added although the variable is unset or empty")
            continue
        if a is None:
            if h:
                rep.bad("header", "unset", "a header is added without checking that the variable is set and non-empty")
            continue
        if len(h) != 1:
            rep.bad("header", "set", "%d headers are added" % len(h))
            continue
        k, v = h[0]
        if k == ("s", "RPC-Hint"):
            colon = colonpos(st, g)
            rep.judge("header", "hint", v == g and colon is False, "RPC-Hint is %s%s" % (show(v)[:60], "" if colon is False else " although there may be a colon"))
            continue
        pos = k[3][1] if k[0] == "call" and last(k[1]) == "substr" and k[2] == g and len(k[3]) == 2 and k[3][0] == I(0) else None
        if pos is None or not iscolon(pos, g):
            if k == g or k[0] == "call" and last(k[1]) == "substr":
                rep.bad("header", "split", "the header name is %s" % show(k)[:100])
            else:
                rep.undecided("header", "split", show(k)[:100])
            continue
        if not (v[0] == "call" and last(v[1]) == "substr" and v[2] == g):
            rep.undecided("header", "split", show(v)[:100])
            continue
        items, c = A.lin(v[3][0])
        good = len(items) == 1 and iscolon(items[0][0], g) and c == 1 and (len(v[3]) == 1 or A.is_int(v[3][1]) and v[3][1][1] in (-1, 2 ** 64 - 1))
        rep.judge("header", "split", good and colonpos(st, g) is True, "the header value is %s" % show(v)[:120])
    e, fn, outs = paths(rep, fx, B + "add_header", "header")
    for kind, st, val in outs or ():
        h = headers(e, st, THIS, "headers")
        keeps_old(rep, "header", "add_header", st)
        P = [("p", p["n"], i) for i, p in enumerate(fn["ps"])]
        rep.judge("header", "add_header", kind == "return" and h == [(P[0], P[1])], "add_header sets %s" % (
            ", ".join("%s: %s" % (show(k)[:40], show(v)[:40]) for k, v in h) or "nothing"))
    # docc configuration
    for q, loc, inst in ((B + "from_docc_config", THIS, "builder"), (D + "from_docc_config", None, "context")):
        e, fn, outs = paths(rep, fx, q, "docc")
        for kind, st, val in outs or ():
            if kind != "return" or found(st) in (None, "none"):
                continue
            l = loc or (val[1] if isinstance(val, tuple) and val[0] == "addr" else None)
            if l is None:
                rep.undecided("docc", inst, show(val)[:60])
                continue
            sfx = "" if loc else "_"
            docc(rep, inst, st, e.load(st, ("f", l, "server" + sfx)), e.load(st, ("f", l, "endpoint" + sfx)))
    ct = [f for f in fx.methods(NS + "DaisytunerRpcContext") if f.get("ctor") and len(f["ps"]) == 2]
    rep.need(ct, D + "DaisytunerRpcContext")
    e = EEngine(fx)
    try:
        for kind, st, val in e.run(ct[0]):
            if kind == "return":
                docc(rep, "constructor", st, e.load(st, ("f", THIS, "server_")), e.load(st, ("f", THIS, "endpoint_")))
    except A.Undecided as x:
        rep.undecided("docc", "constructor", str(x))
    rep.fns |= e.funcs
    # build
    e, fn, outs = paths(rep, fx, B + "build", "build")
    sv = ("ld", ("f", THIS, "server"))
    for kind, st, val in outs or ():
        em = st.truth(("call", "empty", sv, (), 0))
        if em is None:
            em = st.truth(("bin", "==", sv, ("s", ""), "bool"))
        if kind == "throw":
            rep.judge("build", "refuses", em is True, "building fails although a server is configured")
            continue
        if em is not False:
            rep.bad("build", "refuses", "a context is built without a server")
            continue
        l = val[1] if isinstance(val, tuple) and val[0] == "addr" else None
        if l is None:
            rep.undecided("build", "context", show(val)[:80])
            continue
        for n in ("server", "endpoint", "headers"):
            v = e.load(st, ("f", l, n + "_"))
            rep.judge("build", n, v == ("ld", ("f", THIS, n)), "the context's %s is %s" % (n, show(v)[:80]))
    # addresses
    e, fn, outs = paths(rep, fx, S + "get_remote_address", "address")
    for kind, st, val in outs or ():
        want = [("ld", ("f", THIS, "server_")), ("s", "/"), ("ld", ("f", THIS, "endpoint_"))]
        rep.judge("address", "address", kind == "return" and charparts(flatplus(val)) == want, "the address is %s" % show(val)[:100])
    e, fn, outs = paths(rep, fx, S + "get_auth_headers", "address")
    for kind, st, val in outs or ():
        rep.judge("address", "headers", val == ("ld", ("f", THIS, "headers_")), "the headers are %s" % show(val)[:80])
    ct = [f for f in fx.methods(NS + "SimpleRpcContext") if f.get("ctor") and len(f["ps"]) == 3]
    if ct:
        e = EEngine(fx)
        try:
            for kind, st, val in e.run(ct[0]):
                for x in st.events():
                    if x[0] == "erased":
                        rep.bad("address", "context:headers_", "a header the context was given is removed: %s" % show(x[1])[:60])
                for i, n in enumerate(("server_", "endpoint_", "headers_")):
                    v = e.load(st, ("f", THIS, n))
                    p = ("p", ct[0]["ps"][i]["n"], i)
                    rep.judge("address", "context:" + n, v == p, "%s is set to %s" % (n, show(v)[:80]))
        except A.Undecided as x:
            rep.undecided("address", "constructor", str(x))
    order(rep, fx)


def A_unref(e, st, v):
    return e.load(st, v[1]) if isinstance(v, tuple) and v and v[0] == "ref" else v


def flatplus(v):
    if v[0] == "cat":
        return list(v[1])
    if v[0] == "call" and last(v[1]) == "operator+":
        xs = ([v[2]] if v[2] is not None else []) + list(v[3])
        return sum((flatplus(x) for x in xs), [])
    return [v]


def charparts(xs):
    """Adjacent literals joined, characters as strings."""
    out = []
    for x in xs:
        if A.is_int(x) and 0 < x[1] < 128:
            x = ("s", chr(x[1]))
        if x[0] == "cat":
            out += charparts(x[1])
        elif x[0] == "s" and out and out[-1][0] == "s":
            out[-1] = ("s", out[-1][1] + x[1])
        else:
            out.append(x)
    return out


def iscolon(p, g):
    return p[0] == "call" and last(p[1]) in ("find", "find_first_of") and p[2] == g and p[3] and p[3][0] in (I(58), ("s", ":")) and (len(p[3]) == 1 or p[3][1] == I(0))


def colonpos(st, g):
    """True/False/None: the value is known to contain a colon on this path."""
    for k, v in st.facts.items():
        if k[0] == "eq0" and len(k[1]) == 1 and iscolon(k[1][0][0], g) and k[2] * k[1][0][1] in (-(2 ** 64 - 1), 1):
            return not v
        if k[0] == "has" and k[1] == g and k[2] in (I(58), ("s", ":")):
            return v
    return None


def docc(rep, inst, st, server, endpoint):
    g = env("RPC_SERVER")
    a = envset(st, g)
    if server == g:
        rep.judge("docc", inst, a is True, "$RPC_SERVER is used although it may be unset or empty")
    elif server[0] == "s":
        rep.judge("docc", inst, a is False and server[1].startswith("https://"), "the default server is used although $RPC_SERVER is set"
                  if a is not False else "the default server is %s" % server[1])
    else:
        rep.bad("docc", inst, "the server is %s" % show(server)[:80])
    rep.judge("docc", inst + ":endpoint", endpoint[0] == "s" and bool(endpoint[1]), "the endpoint is %s" % show(endpoint)[:80])


def jroot(v):
    return isinstance(v, tuple) and v and (v[0] == "out" and v[1] == "operator>>" or v[0] == "call" and last(v[1]) == "parse")


def jkey(v):
    """Top-level key a JSON value term stands for."""
    if not isinstance(v, tuple) or not v:
        return None
    if v[0] == "ld" and v[1][0] == "d" and v[1][1][0] == "it" and v[1][1][2][0] == "s" and jroot(v[1][1][3]):
        return v[1][1][2][1]
    if v[0] in ("idx", "fld") and jroot(v[1]) and isinstance(v[2], tuple) and v[2][0] == "s":
        return v[2][1]
    if v[0] == "ld" and v[1][0] == "e" and v[1][2][0] == "s":
        return v[1][2][1]
    return None


def jpred(st, pred, key):
    """Truth of j[key].is_string() etc. on a path."""
    for k, v in st.facts.items():
        if k[0] == "eq0" and len(k[1]) == 1 and k[2] == 0:
            t = k[1][0][0]
            if t[0] == "call" and last(t[1]) == pred and jkey(t[2]) == key:
                return not v
    return None


def jhas(st, key):
    for k, v in st.facts.items():
        if k[0] == "has" and jroot(k[1]) and k[2] == ("s", key):
            return v
    return None


def fromfile(rep, fx):
    e, fn, outs = paths(rep, fx, B + "from_file", "file")
    p = ("p", fn["ps"][0]["n"], 0)
    for kind, st, val in outs or ():
        op = [x[3] for x in st.events() if x[0] == "open"]
        if len(op) != 1 or pathparts([x for x in st.events() if x[0] == "open"][0][2][0]) != [p]:
            rep.bad("file", "opened", "the file opened is not the one given")
            continue
        ok = st.truth(("call", "good", op[0], (), 0))
        if ok is None:
            ok = st.truth(("call", "is_open", op[0], (), 0))
        if kind == "throw":
            form = [k for k in st.facts for x in A.subterms(k) if x and x[0] == "call" and isinstance(x[1], str) and
                    (last(x[1]) in ("is_discarded", "is_object", "is_null", "accept") or last(x[1]) in ("good", "fail", "bad", "eof", "operator bool"))]
            if ok is False or not form:
                rep.judge("file", "unreadable", ok is False, "a readable file is rejected")
            continue
        if ok is not True:
            rep.bad("file", "unreadable", "an unreadable file is not reported")
            continue
        lax = [x for k in list(st.facts) + [v for _, v in st.env.items() if isinstance(v, tuple)] for x in A.subterms(k)
               if x and x[0] == "call" and isinstance(x[1], str) and last(x[1]) == "parse" and len(x[3]) > 2 and x[3][2] == I(0)]
        if lax and not any(x and x[0] == "call" and isinstance(x[1], str) and last(x[1]) in ("is_discarded", "is_object") for k in st.facts for x in A.subterms(k)):
            rep.bad("file", "unreadable", "a file that is not JSON is silently ignored")
            continue
        rep.ok("file", "unreadable")
        for key, mem in (("SERVER", "server"), ("ENDPOINT", "endpoint")):
            v = e.load(st, ("f", THIS, mem))
            has, iss = jhas(st, key), jpred(st, "is_string", key)
            if unchanged(e, st, mem):
                if has is not False and iss is not False:
                    rep.bad("file", key, "a %s string in the file is ignored" % key)
                else:
                    rep.ok("file", key)
            elif v[0] == "jget" and jkey(v[2]) == key or jkey(v) == key:
                rep.judge("file", key, iss is True and has is not False, "%s is used without checking that it is a string" % key)
            elif A.mentions(v, lambda x: jroot(x)):
                ks = {jkey(x) for x in A.subterms(v)} - {None}
                if ks and ks != {key}:
                    rep.bad("file", key, "the %s is taken from %s" % (mem, ", ".join(sorted(ks))))
                else:
                    rep.undecided("file", key, show(v)[:100])
            else:
                rep.bad("file", key, "the %s becomes %s" % (mem, show(v)[:80]))
        # headers
        keeps_old(rep, "file", "HEADERS", st)
        base = st.env.get(("f", THIS, "headers"))
        if base is not None and base != ("ld", ("f", THIS, "headers")):
            if not A.mentions(base, lambda x: x == ("ld", ("f", THIS, "headers"))):
                rep.bad("file", "HEADERS", "headers set before are dropped")
            else:
                rep.undecided("file", "HEADERS", show(base)[:80])
            continue
        for x in st.events():
            if x[0] == "call" and last(x[1]) in ("clear", "erase", "swap") and x[2] == ("f", THIS, "headers"):
                rep.bad("file", "HEADERS", "headers set before are dropped")
        its = [x for x in st.events() if x[0] == "iter" and jkey(container(x[1])) == "HEADERS"]
        hs = headers(e, st, THIS, "headers")
        has, iso = jhas(st, "HEADERS"), jpred(st, "is_object", "HEADERS")
        if not its:
            if hs:
                rep.undecided("file", "HEADERS", "headers are written outside a recognised loop")
            elif has is False or iso is False or any(k[0] == "empty" and v and jkey(container(k[1])) == "HEADERS" for k, v in st.facts.items()):
                rep.ok("file", "HEADERS")
            else:
                rep.bad("file", "HEADERS", "the HEADERS object is not read")
            continue
        keys = []
        for x in its:
            el = ("idx", x[1][1], x[2][2]) if x[1][0] == "t" else ("ld", x[2])
            k = [("fld", el, "first"), ("call", "key", el, (), 0)]
            v = ("fld", el, "second")
            iss = None
            for f, tv in st.facts.items():
                if f[0] == "eq0" and len(f[1]) == 1 and f[1][0][0][0] == "call" and last(f[1][0][0][1]) == "is_string" and A.mentions(f[1][0][0][2], lambda y: y == el):
                    iss = not tv
            mine = [(a, b) for a, b in hs if A.mentions(a, lambda y: y == el)]
            if iss is True and len(mine) != 1:
                rep.bad("file", "HEADERS", "a header string in the file is ignored")
            elif iss is False and mine:
                rep.bad("file", "HEADERS", "a header that is not a string is used")
            elif mine and iss is None:
                rep.bad("file", "HEADERS", "a header is used without checking that it is a string")
            elif mine:
                a, b = mine[0]
                b2 = b[2] if b[0] == "jget" else b
                ka = a in k or a[0] == "call" and last(a[1]) == "key" and a[2] == el
                kb = b2 == v or b2[0] == "call" and last(b2[1]) == "value" and b2[2] == el
                if ka and kb:
                    rep.ok("file", "HEADERS")
                elif a == v or b2 in k:
                    rep.bad("file", "HEADERS", "header names and values are mixed up")
                else:
                    rep.undecided("file", "HEADERS", "%s = %s" % (show(a)[:60], show(b)[:60]))
            keys.append(el)
        cnts = {x[2][2][1] for x in its}
        for c in cnts:
            n = len([x for x in its if x[2][2][1] == c])
            if st.facts.get(("more", c, n)) is not False:
                rep.bad("file", "HEADERS", "the loop over the headers can stop early")


def container(rl):
    v = rl[1] if rl[0] == "t" else rl
    while isinstance(v, tuple) and v and v[0] == "call" and last(v[1]) in ("items",):
        v = v[2]
    if isinstance(v, tuple) and v and v[0] == "ld":
        return v
    if isinstance(v, tuple) and v and v[0] == "d":
        return ("ld", v)
    return v


def order(rep, fx):
    fns = [f for f in fx.named(NS + "build_rpc_context_auto") if f.get("body")]
    if not fns:
        rep.undecided("order", "auto", "build_rpc_context_auto is not defined in the analysed files")
        return
    e = EEngine(fx)
    e.opaque = (B + "initialize_local_default", B + "from_env", B + "from_header_env", B + "build", B + "from_file", B + "from_docc_config", B + "add_header")
    try:
        outs = e.run(fns[0])
    except A.Undecided as x:
        rep.undecided("order", "auto", str(x))
        return
    for kind, st, val in outs:
        seq = [last(x[1]) for x in st.events() if x[0] == "call" and x[1] in e.opaque]
        rep.judge("order", "auto", seq == ["initialize_local_default", "from_env", "from_header_env", "build"], "the steps are %s" % ", ".join(seq))


CHECKS = {"E01": e01, "E02": e02, "E03": e03, "E06": e06}
