"""B04: the trace file written at shutdown (rtl/src/instrumentation.cpp): well-formed, complete and faithful."""
import re

from lib import absint as A, cxx, ratio, rules as R
from lib.absint import I, last, show
from checks import instr as B
from checks.instr import Acc, CLS, LD, S, facts, kind_of, kinds, loc_of, paths

OUT = ("basic_ostream<", "basic_stringstream<", "basic_ostringstream<", "_IO_FILE", "basic_ofstream<", "basic_iostream<")
CONV = re.compile(r"%([-+ #0]*)(\d*|\*)(\.\d+)?(hh|h|ll|l|z|j|t|L)?([diouxXeEfFgGaAcspn%])")


def is_sink(t):
    return any(x in (t or "") for x in OUT)


def bare(t):
    return (t or "").replace("const ", "").rstrip("& *").strip()


class TEngine(B.BEngine):
    """Tracks formatted output as typed pieces: ("s", text) ("str", v) ("num", v, type) ("chr", v) ("fmt", fn, args)
    ("alt", id, ((facts, pieces), ...)) ("value", fn, args)."""
    limit = 120.0
    MAXSTATES = 4000
    joining = True
    inloop = nloops = 0
    summary = None
    formatter = None                     # function under analysis as a formatter (its casts to unsigned char are kept)

    def __init__(self, fx):
        super().__init__(fx)
        self.nalt = 0
        self.userop = {}
        for f in fx.fns.values():
            if f["n"] == "operator<<" and f.get("body") and len(f["ps"]) == 2 and is_sink(f["ps"][0]["t"]):
                self.userop[bare(f["ps"][1]["t"])] = f

    def follow(self, fn):
        if self.in_dtor:
            self.in_dtor = False
            try:
                return super().follow(fn)
            finally:
                self.in_dtor = True
        if fn.get("ctor") and bare(fn.get("cls")) in self.userop and self.formatter is None:
            return False
        return super().follow(fn)

    # ---- pieces of a value
    def typed(self, v, t):
        if isinstance(v, tuple) and v:
            if v[0] == "s":
                return (v,) if v[1] else ()
            if v[0] == "cat":
                return sum((self.typed(x, "std::string") for x in v[1]), ())
            if v[0] in ("txt", "oss"):
                return v[1]
            if v[0] in ("fmt", "value", "alt", "chr", "num"):
                return (v,)
            if v[0] == "call" and last(v[1]) == "to_string" and len(v[3]) == 1:
                return (("num", v[3][0], "int"),)
            if v[0] == "name" and last(v[1]) in ("endl",):
                return (("s", "\n"),)
            if v[0] == "fn" and last(v[1]) == "endl":
                return (("s", "\n"),)
            if v[0] == "fn" and last(v[1]) in ("hex", "dec", "oct"):
                return (("mode", last(v[1]), None),)
            if v[0] == "call" and last(v[1]) in ("setw", "setfill") and len(v[3]) == 1 and A.is_int(v[3][0]):
                return (("mode", last(v[1]), v[3][0][1]),)
            if v[0] == "call" and last(v[1]) == "setprecision":
                return ()
            if v[0] == "fn" and last(v[1]) in ("flush", "fixed", "defaultfloat", "scientific"):
                return ()
        t = bare(t)
        if t in ("char", "signed char", "unsigned char", "int8_t", "uint8_t"):
            if A.is_int(v):
                return (("s", chr(v[1] & 255)),)
            return (("chr", v),)
        if t.startswith("char[") or t.startswith("char [") or A.is_strt(t) or "string_view" in t:
            return (("str", v),)
        if t == "bool" or A.is_scalar(t) or t in ("double", "float", "long double", "unsigned long", "size_t", "long long"):
            return (("num", v, t),)
        return (("other", v, t),)

    def ptyped(self, v, t):
        if (t or "").rstrip().endswith("*") and "char" in t and not (isinstance(v, tuple) and v and v[0] in ("s", "cat", "txt", "fmt", "oss", "value", "alt")):
            return (("str", v),)
        return self.typed(v, t)

    def printf(self, f, args, an):
        out, i, k = (), 0, 0
        while i < len(f):
            j = f.find("%", i)
            if j < 0:
                out += (("s", f[i:]),)
                break
            if j > i:
                out += (("s", f[i:j]),)
            m = CONV.match(f, j)
            if not m:
                return None
            i = m.end()
            fl, wd, pr, ln, c = m.groups()
            if c == "%":
                out += (("s", "%"),)
                continue
            if k >= len(args) or wd == "*" or c in "npaA":
                return None
            v, a = args[k], an[k] or {}
            k += 1
            if c == "s":
                if fl or wd:
                    return None
                ps = self.ptyped(v, "char *")
                if pr and not all(x[0] == "s" and len(x[1]) <= int(pr[1:] or 0) for x in ps):
                    ps = (("cut", v, int(pr[1:] or 0)),)
                out += ps
            elif c == "c":
                out += self.typed(v, "char")
            elif c in "eEfFgG":
                out += (("num", v, "double"),)
            elif c in "xXo" or wd or fl:
                if A.is_int(v) and c in "xX" and v[1] >= 0:
                    out += (("s", (("%" + fl + wd + c) % v[1])),)
                else:
                    out += (("hex", v, fl + wd, c, self.intwidth(a)),)
            else:
                out += (("num", v, "int"),)
        return out

    def intwidth(self, a):
        return 32

    def on_call(self, st, node, q, rl, rv, args, an):
        name = last(q)
        w = self.where(node)
        fn = self.fx.fns.get(node.get("u"))
        if node.get("op") == "<<" or name in ("fprintf", "fputs", "fwrite", "snprintf", "sprintf"):
            args = [self.text(st, v) for v in args]
        if node.get("op") == "<<" and rl is not None and len(args) == 1:
            cur = self.load(st, rl)
            x = (an or [None])[-1] or {}
            u = fn if fn is not None and fn.get("body") and fn["n"] == "operator<<" and self.userop.get(bare(fn["ps"][1]["t"])) is fn else None
            isoss = isinstance(cur, tuple) and cur and cur[0] == "oss"
            isfile = not isoss and is_sink((node.get("r") or (node.get("a") or [{}])[0] or {}).get("t"))
            if isoss or isfile:
                if u is not None:
                    if self.formatter is not None:
                        return None
                    ps = (("fmt", u["u"], args[0]),)
                else:
                    ps = self.ptyped(args[0], x.get("t") or {"char": "char", "int": "int", "bool": "bool", "float": "double", "str": "char *"}.get(x.get("k"), ""))
                if isoss:
                    self.store(st, rl, ("oss", cur[1] + ps), node, quiet=True)
                else:
                    st.emit("write", rl, ps, w)
                return [(st, ("ref", rl))]
        if isinstance(rv, tuple) and rv and rv[0] == "oss":
            if name == "str" and not args:
                return [(st, ("txt", rv[1]))]
            if name == "put" and len(args) == 1:
                self.store(st, rl, ("oss", rv[1] + self.typed(args[0], "char")), node, quiet=True)
                return [(st, ("ref", rl))]
            if name == "write" and len(args) == 2:
                self.store(st, rl, ("oss", rv[1] + (("other", args[0], "write"),)), node, quiet=True)
                return [(st, ("ref", rl))]
            if name in ("precision", "setf", "flags", "width", "fill", "imbue"):
                return [(st, ("void",))]
        if rl is None and not q.startswith("*"):
            if name in ("fprintf", "fputs", "fwrite", "fputc", "putc"):
                sink = args[0] if name == "fprintf" else args[-1]
                if not (sink[0] == "g" and last(sink[1]) in ("stderr", "stdout")):
                    if name == "fprintf" and args[1][0] == "s":
                        ps = self.printf(args[1][1], args[2:], an[2:])
                        ps = (("other", args[1], "format"),) if ps is None else ps
                    elif name == "fprintf":
                        ps = self.typed(args[1], "char *") if isinstance(args[1], tuple) and args[1] else ()
                        ps = ps if ps and all(p[0] == "s" and "%" not in p[1] for p in ps) else (("fmtstr", args[1]),)
                    elif name == "fputs":
                        ps = self.ptyped(args[0], "char *")
                    elif name in ("fputc", "putc"):
                        ps = self.typed(args[0], "char")
                    else:
                        ps = self.fwritten(args)
                    st.emit("write", self.deref(sink), ps, w)
                    return [(st, I(1))]
            if name in ("snprintf", "sprintf"):
                k = 2 if name == "snprintf" else 1
                if args[k][0] == "s" and args[0][0] == "addr":
                    l = args[0][1]
                    l = l[1] if l[0] == "e" and l[2] == I(0) else l
                    ps = self.printf(args[k][1], args[k + 1:], an[k + 1:])
                    if ps is not None:
                        cap = args[1][1] if k == 2 and A.is_int(args[1]) else None
                        self.store(st, l, ("txt", (("cap", cap, ps),) if cap is not None else ps), node, quiet=True)
                        return [(st, ("num", "printed", "int"))]
        # a helper turning one string or number into text is a formatter
        if fn is not None and fn.get("body") and self.formatter is None and A.is_strt(fn.get("t") or "") and len(fn["ps"]) == 1 \
                and len(args) == 1 and (A.is_strt(bare(fn["ps"][0]["t"])) or bare(fn["ps"][0]["t"]) in ("char", "double")):
            return [(st, ("fmt", fn["u"], args[0]))]
        if self.summary is not None and fn is not None and fn.get("body"):
            h = self.summary(self, st, fn, rl, args)
            if h is not None:
                return h
        return super().on_call(st, node, q, rl, rv, args, an)

    def text(self, st, v):
        if isinstance(v, tuple) and v and v[0] == "addr":
            l = v[1]
            l = l[1] if l[0] == "e" and l[2] == I(0) else l
            t = st.env.get(self.resolve(st, l))
            if isinstance(t, tuple) and t and t[0] in ("txt", "s", "cat"):
                return t
        return v

    def fwritten(self, args):
        d = args[0]
        for n in (args[1], args[2]):
            if n[0] == "call" and last(n[1]) in ("size", "length", "strlen"):
                s = n[2] if n[2] is not None else n[3][0]
                if s == d or d[0] == "call" and d[2] == s:
                    return self.ptyped(s, "char *")
        return (("other", d, "fwrite"),)

    def e_cond(self, n, st):
        x, y = n["x"], n["y"]

        def lit(e):
            while isinstance(e, dict) and e.get("k") == "cast":
                e = e["x"]
            return e.get("v") if isinstance(e, dict) and e.get("k") == "str" else None
        a, b = lit(x), lit(y)
        if a is not None and b is not None and self.joining:
            T, F = self.branch(n["c"], st.fork())
            if T and F:
                base = st.facts
                self.nalt += 1
                opts = tuple((dnf([delta(base, s.facts) for s in ss]), (("s", v),) if v else ()) for ss, v in ((T, a), (F, b)))
                # effects of the condition itself (other than facts) are kept from the first state
                keep = T[0]
                keep.facts, keep.bounds = dict(st.facts), dict(st.bounds)
                return [(keep, ("txt", (("alt", self.nalt, opts),)))]
        return super().e_cond(n, st)

    def e_cast(self, n, st):
        if self.formatter is not None and n.get("ck") == "IntegralCast":
            xt = bare((n.get("x") or {}).get("t"))
            t = bare(n.get("t"))
            if xt in ("char", "signed char") and (t.startswith("unsigned") or t.startswith("uint") or t == "size_t"):
                return [(s, v if A.is_int(v) else ("uc", v, A.bits(t))) for s, v in self.ev(n["x"], st)]
        return super().e_cast(n, st)

    # ---- joining of branches that differ only in what they append
    def stmt(self, n, st):
        if n is not None and n.get("s") in ("for", "while", "do", "frange"):
            self.inloop += 1
            self.nloops += 1
            try:
                return super().stmt(n, st)
            finally:
                self.inloop -= 1
        if not self.joining or self.inloop or n is None or n.get("s") not in ("if", "expr", "switch", "decl"):
            return super().stmt(n, st)
        loops0 = self.nloops
        # text known before
        before = {l: v for l, v in st.env.items() if isinstance(v, tuple) and v and v[0] == "oss"}
        base = dict(st.facts)
        bb = dict(st.bounds)
        ev0 = st.ev
        outs = super().stmt(n, st)
        nx = [s for k, s, v in outs if k == "next"]
        if len(nx) < 2 or not before or self.nloops != loops0:
            return outs
        rest = [o for o in outs if o[0] != "next"]
        groups = {}
        for s in nx:
            env = {l: v for l, v in s.env.items() if l not in before}
            if any(not (isinstance(s.env.get(l), tuple) and s.env[l][0] == "oss" and s.env[l][1][:len(v[1])] == v[1]) for l, v in before.items()):
                return outs
            key = (frozenset((repr(k), repr(v)) for k, v in env.items() if not transient(k, v)), tuple(e for e in evs_since(s.ev, ev0) if e[0] in ("write", "store", "papi", "push", "throw")))
            groups.setdefault(key, []).append(s)
        res = rest
        for g in groups.values():
            if len(g) == 1:
                res.append(("next", g[0], None))
                continue
            s0 = g[0]
            for l, v in before.items():
                opts = {}
                for s in g:
                    opts.setdefault(s.env[l][1][len(v[1]):], []).append(delta(base, s.facts))
                if len(opts) > 1:
                    self.nalt += 1
                    s0.env[l] = ("oss", v[1] + (("alt", self.nalt, tuple((dnf(ds), ps) for ps, ds in opts.items())),))
            s0.facts, s0.bounds = common_facts([s.facts for s in g]), bb
            res.append(("next", s0, None))
        return res


def transient(k, v):
    return k[0] == "o"


def evs_since(e, stop):
    out = []
    while e is not None and e is not stop:
        out.append(e[1])
        e = e[0]
    return out[::-1]


def delta(base, f):
    return tuple(sorted(((k, v) for k, v in f.items() if base.get(k) != v), key=repr))


def dnf(ds):
    return tuple(dict.fromkeys(ds))


def common_facts(fs):
    return {k: v for k, v in fs[0].items() if all(f.get(k) == v for f in fs[1:])}


# ------------------------------------------------------------------ JSON over typed pieces
class Bad(Exception):
    pass


class Unknown(Exception):
    pass


NUM = re.compile(r"-?(0|[1-9]\d*)(\.\d+)?([eE][-+]?\d+)?$")


class Parser:
    """Pushdown JSON recogniser; a configuration is (state, ctx, leaves) with state = (stack, mode, buffer)."""

    def __init__(self, init=((), "val", ())):
        self.configs = [(init, (), ())]
        self.alts = {}

    def feed(self, pieces):
        for p in pieces:
            if p[0] == "alt":
                self.alts[p[1]] = p[2]
                new = []
                start = self.configs
                for i, (facts, ps) in enumerate(p[2]):
                    self.configs = [(s, c + ((p[1], i),), lv) for s, c, lv in start]
                    self.feed(ps)
                    new += self.configs
                self.configs = self.join(new)
            else:
                self.configs = self.join([self.step(c, p) for c in self.configs])

    @staticmethod
    def join(cs):
        by = {}
        for s, c, lv in cs:
            if s in by:
                c0, lv0 = by[s]
                k = 0
                while k < len(c) and k < len(c0) and c[k] == c0[k]:
                    k += 1
                seen = set(lv0)
                by[s] = (c0[:k], lv0 + tuple(x for x in lv if x not in seen))
            else:
                by[s] = (c, lv)
        return [(s, c, lv) for s, (c, lv) in by.items()]

    def finish(self):
        out = []
        for s, c, lv in self.configs:
            if s[1] in ("num", "lit"):
                s, lv = self.endnum(s, c, lv)
            if s[0] or s[1] != "done":
                raise Bad("the text ends inside %s" % ("a string" if s[1] == "str" else "an unfinished value"))
            out += [x for x in lv if x not in out]
        return out

    # one piece
    def step(self, cfg, p):
        s, c, lv = cfg
        if p[0] == "cap":
            n = 0
            for x in p[2]:
                if x[0] == "s":
                    n += len(x[1])
                else:
                    n = None
                    break
            if n is None or n >= p[1]:
                raise Unknown("text from a bounded buffer")
            for x in p[2]:
                s, c, lv = self.step((s, c, lv), x)
            return s, c, lv
        if p[0] == "s":
            for ch in p[1]:
                s, lv = self.char(s, c, lv, ch)
            return s, c, lv
        stack, mode, buf = s
        if p[0] == "fmtstr":
            raise Bad("variable text is used as a printf format")
        if p[0] == "str" and any(isinstance(x, tuple) and x and x[0] == "phi" for x in A.subterms(p[1])):
            raise Unknown("text %s set in a loop" % show(p[1]))
        if mode == "esc":
            raise Bad("a backslash is followed by variable text")
        if mode in ("str", "key"):
            return (stack, mode, buf + (p,)), c, lv
        if p[0] == "cut":
            raise Bad("text is cut after %s characters" % p[2])
        if p[0] in ("other",):
            raise Unknown("output %s is not interpreted" % show(p[1]))
        if mode in ("val", "valend"):
            if p[0] in ("num", "hex"):
                if p[0] == "hex":
                    raise Unknown("number with a printf width or base")
                return (stack, "num", (p,)), c, lv
            if p[0] in ("fmt", "value"):
                s, lv = self.leaf(s, c, lv, p)
                return s, c, lv
            raise Bad("raw text %s is written where a JSON value belongs (%s)" % (show(p[1]), where(stack)))
        if mode in ("num", "lit"):
            if p[0] == "num":
                return (stack, "num", buf + (p,)), c, lv
            raise Bad("%s follows a number" % show(p[1]))
        raise Bad("%s is written where %s belongs (%s)" % (
            show(p[1]) if p[0] != "value" else "an event", {"colon": "':'", "comma": "',' or an end", "keyend": "a key", "keyreq": "a key", "done": "nothing"}.get(mode, mode), where(stack)))

    def path(self, stack):
        return tuple(x[1] if x[0] == "obj" else x[1] for x in stack)

    def leaf(self, s, c, lv, v):
        stack, mode, buf = s
        return self.after(stack), lv + ((self.path(stack), v, c),)

    def after(self, stack):
        if not stack:
            return ((), "done", ())
        return (stack, "comma", ())

    def endnum(self, s, c, lv):
        stack, mode, buf = s
        if all(x[0] == "s" for x in buf):
            t = "".join(x[1] for x in buf)
            if not NUM.match(t) and t not in ("true", "false", "null"):
                raise Bad("'%s' is not a JSON value (%s)" % (t, where(stack)))
            v = ("lit", t)
        elif len(buf) == 1:
            v = buf[0]
        else:
            raise Unknown("number composed of several parts")
        return self.leaf((stack, mode, ()), c, lv, v)

    def char(self, s, c, lv, ch):
        stack, mode, buf = s
        if mode in ("str", "key"):
            if ch == '"':
                parts = merge_text(buf)
                if mode == "str":
                    return self.leaf(s, c, lv, ("str", parts))
                top = stack[-1]
                key = parts[0][1] if len(parts) == 1 and parts[0][0] == "s" else parts
                return (stack[:-1] + (("obj", key),), "colon", ()), lv
            if ch == "\\":
                return (stack, "esc", (mode, buf)), lv
            if ord(ch) < 0x20:
                raise Bad("control character inside a string (%s)" % where(stack))
            return (stack, mode, buf + (("s", ch),)), lv
        if mode == "esc":
            m, b = buf
            if ch not in '"\\/bfnrtu':
                raise Bad("invalid escape \\%s" % ch)
            return (stack, m, b + (("s", {"n": "\n", "t": "\t", "r": "\r", "b": "\b", "f": "\f"}.get(ch, ch)),)), lv
        if mode in ("num", "lit"):
            if ch in "+-.eE0123456789" or mode == "lit" and ch.isalpha():
                return (stack, mode, buf + (("s", ch),)), lv
            s, lv = self.endnum(s, c, lv)
            return self.char(s, c, lv, ch)
        if ch in " \t\r\n":
            return s, lv
        if mode in ("val", "valend"):
            if ch == "{":
                return (stack + (("obj", None),), "keyend", ()), lv + ((self.path(stack), ("open", "{"), c),)
            if ch == "[":
                return (stack + (("arr", 0),), "valend", ()), lv + ((self.path(stack), ("open", "["), c),)
            if ch == '"':
                return (stack, "str", ()), lv
            if ch == "]" and mode == "valend":
                return self.after(stack[:-1]), lv
            if ch in "-0123456789":
                return (stack, "num", (("s", ch),)), lv
            if ch in "tfn":
                return (stack, "lit", (("s", ch),)), lv
        elif mode in ("keyend", "keyreq"):
            if ch == '"':
                return (stack, "key", ()), lv
            if ch == "}" and mode == "keyend":
                return self.after(stack[:-1]), lv
        elif mode == "colon":
            if ch == ":":
                return (stack, "val", ()), lv
        elif mode == "comma":
            k = stack[-1]
            if ch == ",":
                if k[0] == "obj":
                    return (stack[:-1] + (("obj", None),), "keyreq", ()), lv
                return (stack[:-1] + (("arr", k[1] + 1),), "val", ()), lv
            if ch == ("}" if k[0] == "obj" else "]"):
                return self.after(stack[:-1]), lv
        raise Bad("'%s' where %s belongs (%s)" % (ch, {
            "val": "a value", "valend": "a value", "keyend": "a key or '}'", "keyreq": "a key", "colon": "':'",
            "comma": "',' or the end of the container", "done": "nothing"}.get(mode, mode), where(stack)))


def merge_text(buf):
    out = []
    for p in buf:
        if p[0] == "s" and out and out[-1][0] == "s":
            out[-1] = ("s", out[-1][1] + p[1])
        else:
            out.append(p)
    return tuple(out) or (("s", ""),)


def where(stack):
    return "at " + "/".join(str(x[1]) if not isinstance(x[1], tuple) else "".join(y[1] if y[0] == "s" else "*" for y in x[1]) for x in stack) if stack else "at top level"


# ------------------------------------------------------------------ formatters
CTYPE = {"iscntrl": lambda c: 0 <= c < 32 or c == 127, "isprint": lambda c: 32 <= c < 127, "isalnum": lambda c: 0 <= c < 128 and chr(c).isalnum(),
         "isdigit": lambda c: 48 <= c < 58, "isspace": lambda c: c in (9, 10, 11, 12, 13, 32), "isalpha": lambda c: 0 <= c < 128 and chr(c).isalpha(),
         "isgraph": lambda c: 32 < c < 127, "isascii": lambda c: 0 <= c < 128}


class Formatters:
    """Decides, once per function, whether it writes every string (or number) as safe JSON text."""

    def __init__(self, fx, rep):
        self.fx, self.rep, self.memo = fx, rep, {}
        self.eng = TEngine(fx)

    def verdict(self, u, kind):
        k = (u, kind)
        if k not in self.memo:
            self.memo[k] = self.decide(self.fx.fns[u], kind)
        return self.memo[k]

    def decide(self, fn, kind):
        """(True/False/None, detail)"""
        e = TEngine(self.fx)
        e.formatter, e.joining = fn, False
        st = A.St()
        osl, V = ("o", -1, "OS"), ("p", "value", 0)
        src = ("d", ("p", "value", 0))
        st.env[osl] = ("oss", ())
        e.sink, e.exits = [], []
        try:
            if fn["n"] == "operator<<" and len(fn["ps"]) == 2:
                T = bare(fn["ps"][1]["t"])
                ctors = [f for f in self.fx.methods(T) if f.get("ctor") and f.get("body") and len(f["ps"]) == 1 and not e.copyctor(f)]
                starts = []
                ol = ("o", -2, T)
                if ctors:
                    cv = ("ref", src) if ctors[0]["ps"][0]["t"].endswith("&") else V
                    if A.is_strt(ctors[0]["ps"][0]["t"]):
                        cv = ("ref", src)
                    self.rep.fns.add(ctors[0]["q"])
                    starts = [s for s, _ in e.invoke(ctors[0], st, ("addr", ol), [cv])]
                else:
                    fields = [x for x in (self.fx.recs.get(T) or {}).get("fields", ())]
                    if len(fields) != 1:
                        return None, "class of the formatted value is not recognised"
                    st.env[("f", ol, fields[0]["n"])] = V
                    starts = [st]
                outs = []
                for s in starts:
                    a1 = ("ref", ol) if fn["ps"][1]["t"].endswith("&") else e.load(s, ol)
                    if a1 == ("ld", ol) or isinstance(a1, tuple) and a1[0] != "ref":
                        # by value: bind the fields to the parameter's own storage
                        a1 = ("ref", ol)
                    outs += [(s2, None) for s2, _ in e.invoke(fn, s, None, [("ref", osl), a1])]
                texts = [(s, e.load(s, osl)[1] if e.load(s, osl)[0] == "oss" else None) for s, _ in outs]
            else:
                isref = fn["ps"][0]["t"].endswith("&") or A.is_strt(fn["ps"][0]["t"])
                texts = [(s, e.typed(v, "std::string")) for s, v in e.invoke(fn, st, ("this",), [("ref", src) if isref else V])]
        except A.Undecided as x:
            return None, str(x)
        self.rep.fns.add(fn["q"])
        und = None
        for s, ps in texts:
            if ps is None:
                return None, "output stream is replaced"
            try:
                r = (self.string if kind == "string" else self.number)(s, ps, V, src)
            except Unknown as x:
                und = str(x)
                continue
            if r:
                return False, r
        if und:
            return None, und
        return True, "%d paths" % len(texts)

    @staticmethod
    def modes(ps):
        """Apply hex/setw/setfill manipulators to the numbers that follow."""
        out, hexm, w, fill = [], False, "", " "
        for p in ps:
            if p[0] == "mode":
                if p[1] == "hex":
                    hexm = True
                elif p[1] == "dec":
                    hexm = False
                elif p[1] == "oct":
                    raise Unknown("octal output")
                elif p[1] == "setw":
                    w = str(p[2])
                else:
                    fill = chr(p[2])
                continue
            if p[0] == "num" and (hexm or w):
                if not hexm or fill not in "0 ":
                    raise Unknown("padded number")
                p = ("hex", p[1], ("0" if fill == "0" else "") + w, "x", 32)
            w = ""
            out.append(p)
        return out, hexm

    def string(self, st, ps, V, src):
        if st.truth(V) is False:
            return None                   # null pointer: nothing to write
        ps, left = self.modes(ps)
        if left:
            return "leaves the stream printing hexadecimal numbers"
        flat = []
        for p in ps:
            if p[0] == "cap":
                flat.append(("capopen", p[1]))
                flat += list(p[2])
                flat.append(("capclose",))
            else:
                flat.append(p)
        chars = []
        for key in st.facts:
            for x in A.subterms(key):
                if isinstance(x, tuple) and x and x[0] == "ld" and is_char_of(x[1], V, src) and x not in chars:
                    chars.append(x)
        # a loop counter standing for "some later position" subsumes the position it starts from
        starts = set()
        for c in chars:
            for x in A.subterms(c):
                if isinstance(x, tuple) and x and x[0] == "phi":
                    starts.add(("ld", A.Engine.deref(self.eng, x[3])))
        chars = [c for c in chars if c not in starts]
        live = [c for c in chars if 0 not in self.allowed(st, c) or len(self.allowed(st, c)) > 1]
        seen = []
        i = 0
        esc = ""
        cap, used = None, 0
        while i < len(flat):
            p = flat[i]
            i += 1
            if p[0] == "capopen":
                cap, used = p[1], 0
                continue
            if p[0] == "capclose":
                cap = None
                continue
            if p[0] == "s":
                for ch in p[1]:
                    used += 1
                    if esc == "":
                        if ch != "\\":
                            return "adds the text '%s' to the string" % ch
                        esc = ch
                    elif esc == "\\":
                        if ch == "u":
                            esc = "\\u"
                            continue
                        if ch not in '"\\/bfnrt':
                            return "writes the invalid escape \\%s" % ch
                        val = ord({"n": "\n", "t": "\t", "r": "\r", "b": "\b", "f": "\f"}.get(ch, ch))
                        nxt = self.pending(live, seen)
                        if nxt is None:
                            raise Unknown("escape for an unknown character")
                        a = self.allowed(st, nxt)
                        if a != {val}:
                            return "writes \\%s for the character codes %s" % (ch, codes(a))
                        seen.append(nxt)
                        esc = ""
                    else:
                        esc += ch
                        if len(esc) == 6:
                            nxt = self.pending(live, seen)
                            if nxt is None:
                                raise Unknown("escape for an unknown character")
                            try:
                                val = int(esc[2:], 16)
                            except ValueError:
                                return "writes the invalid escape " + esc
                            a = self.allowed(st, nxt)
                            if a != {val}:
                                return "writes %s for the character codes %s" % (esc, codes(a))
                            seen.append(nxt)
                            esc = ""
                if cap is not None and used >= cap:
                    return "text is cut off by its buffer of %d bytes" % cap
                continue
            if p[0] == "hex":
                x = uncast(p[1])
                c = x[1] if x[0] == "uc" else x
                if c not in chars:
                    raise Unknown("hexadecimal text of %s" % show(p[1]))
                pad = esc[2:]
                if not esc.startswith("\\u"):
                    return "writes a hexadecimal number outside an escape"
                for v in sorted(self.allowed(st, c)):
                    n = v % (1 << x[2]) if x[0] == "uc" else v % (1 << 32)
                    t = pad + ("%" + p[2] + p[3]) % n
                    if len(t) != 4 or " " in t:
                        return "writes \\u%s for character code %d" % (t, v)
                    if int(t, 16) != v % 256:
                        return "writes \\u%s for character code %d" % (t, v)
                    if cap is not None and used + 4 - len(pad) >= cap:
                        return "escape is cut off by its buffer of %d bytes" % cap
                used += 4 - len(pad)
                seen.append(c)
                esc = ""
                continue
            if p[0] in ("chr", "str"):
                x = uncast(p[1])
                c = x[1] if x[0] == "uc" else x
                if p[0] == "str" and (c == V or c == ("ld", src)):
                    return "writes the text unescaped"
                if not (c[0] == "ld" and is_char_of(c[1], V, src)):
                    raise Unknown("writes %s" % show(p[1]))
                a = self.allowed(st, c) - {0}
                if esc == "\\":
                    for v in a:
                        if chr(v % 256) not in '"\\/':
                            return "writes a backslash before character code %d" % v
                    esc = ""
                elif esc:
                    raise Unknown("variable text in an escape")
                else:
                    for v in a:
                        if v in (34, 92) or 0 < v < 32:
                            return "writes character code %d unescaped" % v
                seen.append(c)
                continue
            raise Unknown("writes %s" % (p,))
        if esc:
            return "ends inside an escape"
        live = [c for c in live if 0 not in self.allowed(st, c)]
        if [c for c in seen if c in live] != live:
            k = [c for c in live if c not in seen]
            if k:
                return "drops the character %s with code %s" % (show(k[0]), codes(self.allowed(st, k[0])))
            return "changes the order of the characters"
        if len(set(seen)) != len(seen):
            return "writes a character twice"
        return None

    @staticmethod
    def pending(live, seen):
        for c in live:
            if c not in seen:
                return c
        return None

    def allowed(self, st, c):
        out = set()
        for v in range(-128, 128):
            ok = True
            for key, val in st.facts.items():
                r = self.holds(key, c, v)
                if r is not None and r != val:
                    ok = False
                    break
            if ok:
                out.add(v)
        return out

    def holds(self, key, c, v):
        if key[0] not in ("ge0", "eq0"):
            return None
        tot = key[2]
        for a, k in key[1]:
            a = uncast(a)
            if a == c:
                x = v
            elif a[0] == "uc" and a[1] == c:
                x = v % (1 << a[2])
            elif a[0] == "call" and last(a[1]) in CTYPE and len(a[3]) == 1:
                b = uncast(a[3][0])
                w = v if b == c else (v % (1 << b[2]) if b[0] == "uc" and b[1] == c else None)
                if w is None:
                    return None
                x = 1 if CTYPE[last(a[1])](w) else 0
            else:
                return None
            tot += k * x
        return tot >= 0 if key[0] == "ge0" else tot == 0

    def number(self, st, ps, V, src):
        ps, left = self.modes(ps)
        if left:
            return "leaves the stream printing hexadecimal numbers"
        poss = {"finite", "inf", "nan"}
        for c in list(poss):
            for key, val in st.facts.items():
                r = self.fholds(key, V, src, c)
                if r is not None and r != val:
                    poss.discard(c)
                    break
        if not poss:
            return None
        if all(p[0] == "s" for p in ps):
            t = "".join(p[1] for p in ps)
            if not NUM.match(t) and t not in ("null",):
                return "writes '%s'" % t
            if "finite" in poss:
                return "writes '%s' for finite numbers" % t
            if t != "null":
                return "writes '%s' for a number that is not finite" % t
            return None
        if len(ps) == 1 and ps[0][0] == "num":
            if uncast(ps[0][1]) not in (V, ("ld", src)):
                raise Unknown("writes %s" % show(ps[0][1]))
            if A.is_float(ps[0][2]) is False or narrowed(ps[0][1]):
                return "writes the number converted to another type"
            if poss - {"finite"}:
                return "writes %s as it is" % " and ".join(sorted(poss - {"finite"}))
            return None
        raise Unknown("number written in several parts")

    def fholds(self, key, V, src, c):
        if key[0] not in ("eq0", "ge0", "call", "truth") and not (key[0] == "call"):
            return None
        if key[0] in ("eq0", "ge0"):
            if len(key[1]) != 1 or key[2] != 0 and key[0] == "eq0":
                return None
            a, k = key[1][0]
            if key[0] == "ge0":
                return None
            r = self.pred(a, V, src, c)
            return None if r is None else not r
        return self.pred(key, V, src, c)

    @staticmethod
    def pred(a, V, src, c):
        a = uncast(a)
        if a[0] == "call" and len(a[3]) == 1 and uncast(a[3][0]) in (V, ("ld", src)):
            n = last(a[1]).replace("__builtin_", "").lstrip("_")
            if n == "isfinite":
                return c == "finite"
            if n == "isnan":
                return c == "nan"
            if n == "isinf":
                return c == "inf"
            if n == "isnormal":
                return None if c == "finite" else False
        return None


def narrowed(v):
    while isinstance(v, tuple) and v and v[0] == "cast":
        if not A.is_float(v[1]):
            return True
        if v[1] == "float":
            return True
        v = v[2]
    return False


def uncast(v):
    while isinstance(v, tuple) and v and v[0] == "cast":
        v = v[2]
    return v


def codes(a):
    a = sorted(x % 256 for x in a)
    return ", ".join(map(str, a[:6])) + (", ..." if len(a) > 6 else "")


def is_char_of(l, V, src):
    """l: location of a character of the text under V"""
    n = 0
    while isinstance(l, tuple) and n < 6:
        if l in (src, ("d", V), V):
            return n > 0 or l == ("d", V)
        if l[0] == "e":
            l = l[1]
        elif l[0] == "d":
            return any(x == V or x == ("ld", src) for x in A.subterms(l))
        else:
            return False
        n += 1
    return False


# ------------------------------------------------------------------ the shutdown routine
def region_param(fn):
    for i, p in enumerate(fn["ps"]):
        if bare(p["t"]) == "DaisyRegion":
            return i
    return None


class Doc:
    """Paths of the destructor as documents, and the event writers it calls."""

    def __init__(self, rep, fx):
        self.rep, self.fx, self.writers, self.why = rep, fx, {}, None
        ds = [f for f in fx.methods(CLS) if (f.get("dtor") or f["n"].startswith("~")) and f.get("body")]
        self.out = None
        if not ds:
            self.why = "no destructor found"
            return
        e = TEngine(fx)
        e.in_dtor = True
        e.joining = False
        e.summary = self.summary
        try:
            self.out = [o for o in e.run(ds[0], this=("this",))]
        except A.Undecided as x:
            self.why = str(x)
            return
        rep.fns |= e.funcs
        rep.count("paths", len(self.out))

    def summary(self, e, st, fn, rl, args):
        i = region_param(fn)
        if i is None:
            return None
        sink = [k for k, p in enumerate(fn["ps"]) if is_sink(p["t"])]
        text = A.is_strt(fn.get("t") or "")
        if not sink and not text:
            return None
        self.writers.setdefault(fn["u"], fn)
        v = ("value", fn["u"], tuple(args))
        if text and not sink:
            return [(st, v)]
        l = args[sink[0]]
        l = e.deref(l) if fn["ps"][sink[0]]["t"].rstrip().endswith("*") else None
        if l is None:
            return None
        st.emit("write", l, (v,), e.where({}))
        return [(st, I(0))]


# ------------------------------------------------------------------ what an event must contain
STR, NUMF, BOOL = "str", "num", "bool"
BASE = [(("args", "function"), STR, "function_name"), (("args", "source_ranges", 0, "file"), STR, "file_name"),
        (("args", "source_ranges", 0, "from", "line"), NUMF, "line_begin"), (("args", "source_ranges", 0, "from", "col"), NUMF, "column_begin"),
        (("args", "source_ranges", 0, "to", "line"), NUMF, "line_end"), (("args", "source_ranges", 0, "to", "col"), NUMF, "column_end"),
        (("args", "target_type"), STR, "target_type")] + \
    [(("args", "docc", x), STR, x) for x in ("sdfg_name", "sdfg_file", "arg_capture_path", "features_file", "opt_report_file")]
ELEM = [(("args", "docc", "element_id"), NUMF, "element_id"), (("args", "docc", "element_type"), STR, "element_type"),
        (("args", "docc", "loopnest_index"), NUMF, "loopnest_index")] + \
    [(("args", "docc", "loop_info", x), NUMF, x) for x in ("loopnest_index", "num_loops", "num_maps", "num_fors", "num_whiles", "max_depth")] + \
    [(("args", "docc", "loop_info", x), BOOL, x) for x in ("is_perfectly_nested", "is_perfectly_parallel", "is_elementwise", "has_side_effects")]


def with_facts(st, d):
    s = st.fork()
    for k, v in d:
        if not s.assume_atom(k, v):
            return None
    return s


def worlds(P, st, ctx):
    """The states in which the alternatives of ctx were taken."""
    out = [st]
    for a, o in ctx:
        out = [y for x in out for d in P.alts[a][o][0] for y in [with_facts(x, d)] if y is not None]
    return out


def uncovered(P, st, ctxs):
    if any(not c for c in ctxs):
        return []
    if not ctxs:
        return [st]
    alt = ctxs[0][0][0]
    out = []
    for o, (dn, ps) in enumerate(P.alts[alt]):
        sub = [c[1:] for c in ctxs if c[0] == (alt, o)]
        oth = [c for c in ctxs if c[0][0] != alt]
        for d in dn:
            s = with_facts(st, d)
            if s is not None:
                out += uncovered(P, s, sub + oth)
    return out


def plain(v):
    """A text or number term without conversions that keep its value."""
    while isinstance(v, tuple) and v:
        if v[0] == "cast" and not (A.bits(v[1]) < 64 and not A.is_float(v[1])) and v[1] != "float":
            v = v[2]
        elif v[0] == "ctor" and len(v[2]) == 1:
            v = v[2][0]
        elif v[0] == "call" and last(v[1]) in ("c_str", "data", "string", "str", "native", "to_string") and v[2] is not None:
            v = v[2]
        elif v[0] == "rec":
            v = v[1]
        else:
            return v
    return v


def known_term(v):
    """Only loads, constants and arithmetic: a difference is then definite."""
    if not isinstance(v, tuple) or not v:
        return False
    if v[0] in ("i", "fl", "ld", "s"):
        return True
    if v[0] == "cast":
        return known_term(v[2])
    if v[0] == "bin":
        return known_term(v[2]) and known_term(v[3])
    if v[0] == "call":
        return last(v[1]) in ("filename", "stem", "parent_path", "extension", "size") and (v[2] is None or known_term(plain(v[2])))
    return False


def cmp_term(v, want):
    a = plain(v)
    if a == want:
        return True
    if a[0] == "call" and want[0] == "call":
        if last(a[1]) == last(want[1]) and a[2] is not None and plain(a[2]) == plain(want[2]):
            return True
    return False if known_term(a) else None


def cmp_num(v, want, intfield=None):
    try:
        if ratio.same(v, want):
            return True
    except Exception:
        return None
    if intfield and isinstance(v, tuple) and v[0] == "cast" and A.bits(v[1]) >= intfield and not A.is_float(v[1]):
        return cmp_num(v[2], want)
    return False if known_term(v) else None


class Judge:
    def __init__(self, rep, fx, fm, rj, rd):
        self.rep, self.fx, self.fm, self.rj, self.rd = rep, fx, fm, rj, rd
        self.bits = {}
        for f in (fx.recs.get("__daisy_metadata") or {}).get("fields", ()):
            self.bits[f["n"]] = A.bits(f["t"]) if A.is_scalar(f["t"]) else 64

    # text of one JSON string: every part must be safe
    def safe(self, inst, leaves):
        for path, v, ctx in leaves:
            parts = list(v[1]) if v[0] == "str" else [v]
            parts += [x for k in path if isinstance(k, tuple) for x in k]
            at = "/".join(k if isinstance(k, str) else str(k) if isinstance(k, int) else "*" for k in path)
            for p in parts:
                if p[0] == "str":
                    self.rj(inst, False, "%s: the text %s is written without escaping" % (at, show(p[1])))
                elif p[0] == "chr":
                    self.rj(inst, None, "%s: character %s" % (at, show(p[1])))
                elif p[0] == "fmt":
                    u = self.fx.fns[p[1]]
                    kind = "double" if v[0] == "fmt" and p is v else "string"
                    r, why = self.fm.verdict(p[1], kind)
                    self.rj("formatter %s: every %s becomes valid JSON text" % (show_fn(u), "number" if kind == "double" else "string"), r, why)
                elif p[0] == "num" and v is p and A.is_float(p[2]) and metric_double(p[1]):
                    self.rj(inst, False, "%s: a user-supplied number that may be infinite or NaN is written as it is" % at)
                elif p[0] in ("other", "open", "value"):
                    if p[0] == "other":
                        self.rj(inst, None, "%s: %s" % (at, show(p[1])))

    def fmt_value(self, parts):
        """The value a JSON string shows, or None."""
        if len(parts) == 1 and parts[0][0] == "fmt":
            return plain(parts[0][2])
        return None

    def event(self, who, P, leaves, st, R, idx, names, agg, ks):
        """One event of region R (location); idx: its index term; names: location or value of its event name list."""
        rd = lambda k, ok, d="": self.rd("%s: %s" % ("aggregated event" if agg else "event", k), ok, d)
        M = ("f", R, "metadata")
        F = lambda x: LD(("f", M, x))
        by = {}
        for path, v, ctx in leaves:
            by.setdefault(path, []).append((v, ctx))

        def missing(path, label, need):
            for s in uncovered(P, st, [c for _, c in by.get(path, [])]):
                if need(s) is not False:
                    rd(label, False, "%s does not write it on every path" % who)
                    return
        # constant keys
        for path, want in ((("ph",), "X"), (("cat",), "aggregated_region,daisy" if agg else "region,daisy")):
            missing(path, path[0], lambda s: True)
            for v, ctx in by.get(path, []):
                ok = v == ("str", (("s", want),))
                rd(path[0], ok if all(p[0] == "s" for p in (v[1] if v[0] == "str" else ())) else None, "%s writes %s" % (who, v[1] if len(v) > 1 else v))
        for k in ("pid", "tid"):
            if by.get((k,)):
                missing((k,), "process and thread", lambda s: True)
            else:
                rd("process and thread", False, "%s writes no %s" % (who, k))
        # name
        missing(("name",), "name and line range", lambda s: True)
        for v, ctx in by.get(("name",), []):
            ps = v[1] if v[0] == "str" else ()
            ok = None
            if len(ps) == 5 and ps[0][0] == "fmt" and ps[2][0] == "num" and ps[4][0] == "s" and ps[3][0] == "num":
                pass
            shape = [p[0] for p in ps]
            if shape == ["fmt", "s", "num", "s", "num", "s"]:
                ok = all3(cmp_term(ps[0][2], F("function_name")), ps[1][1] == " [L" and ps[3][1] == "-" and ps[5][1] == "]",
                          cmp_num(ps[2][1], F("line_begin"), 64), cmp_num(ps[4][1], F("line_end"), 64))
            elif all(x in ("s", "fmt", "num") for x in shape):
                ok = False
            rd("name and line range", ok, "%s writes %s" % (who, render(ps)))
        # module
        path = ("args", "module")
        missing(path, "module", lambda s: True)
        for v, ctx in by.get(path, []):
            x = self.fmt_value(v[1]) if v[0] == "str" else None
            ok = None
            if x is not None:
                if x[0] == "call" and last(x[1]) in ("filename", "stem", "parent_path", "extension", "root_name"):
                    ok = last(x[1]) == "filename" and cmp_term(x[2], F("file_name"))
                elif x[0] == "ld":
                    ok = False
            rd("module", ok, "%s writes %s" % (who, show(x) if x is not None else v))
        # plain fields
        both = lambda s: and3(s.truth(F("sdfg_name")), s.truth(F("sdfg_file")))
        for tab, need in ((BASE, lambda s: True), (ELEM, both)):
            for path, kind, field in tab:
                missing(path, field, need)
                for v, ctx in by.get(path, []):
                    self.field(rd, who, P, st, field, kind, v, ctx, F(field))
        # timing
        thousand = lambda t: ("bin", "/", ("cast", "double", t), ("fl", "1000"), "double")
        if agg:
            tim = [("start time", ("ts",), LD(("f", R, "first_start")), None),
                   ("duration", ("dur",), ("bin", "*", LD(("f", R, "runtime_mean")), LD(("f", R, "runtime_n")), "double"), None)]
        else:
            tim = [("start time", ("ts",), LD(("e", ("f", R, "starts"), idx)), ("f", R, "starts")),
                   ("duration", ("dur",), LD(("e", ("f", R, "durations"), idx)), ("f", R, "durations"))]
        for label, path, want, vec in tim:
            missing(path, label, (lambda s: True) if vec is None else (lambda s: below(s, idx, vec)))
            for v, ctx in by.get(path, []):
                ok = None
                if v[0] in ("num", "lit"):
                    x = v[1] if v[0] == "num" else ("s", v[1])
                    ok = cmp_num(floated(x), thousand(want))
                rd(label, ok, "%s writes %s" % (who, show(v[1])))
        self.metrics(rd, who, P, by, st, R, idx, names, agg, thousand, missing)

    def field(self, rd, who, P, st, field, kind, v, ctx, want):
        ok, d = None, render(v[1]) if v[0] == "str" else show(v[1])
        if kind == STR and v[0] == "str":
            if v[1] == (("s", ""),):
                ok = all(s.truth(want) is False for s in worlds(P, st, ctx))
                d = "an empty text although the field may be set"
            else:
                x = self.fmt_value(v[1])
                if x == ("s", ""):
                    ok = all(s.truth(want) is False for s in worlds(P, st, ctx))
                elif x is not None:
                    ok = cmp_term(x, want)
                elif all(p[0] in ("s", "fmt", "num") for p in v[1]):
                    ok = False
        elif kind == NUMF and v[0] in ("num", "lit"):
            ok = cmp_num(v[1], want, self.bits.get(field, 64)) if v[0] == "num" else False
        elif kind == BOOL:
            if v[0] == "lit" and v[1] in ("true", "false"):
                ws = worlds(P, st, ctx)
                ok = all(s.truth(want) is (v[1] == "true") for s in ws)
                d = "%s where %s is %s" % (v[1], field, {True: "true", False: "false", None: "not tested"}[ws[0].truth(want) if ws else None])
            else:
                ok = False
                d = "a number or text instead of true/false"
        elif v[0] in ("num", "lit", "str", "open"):
            ok = False
        rd(field, ok, "%s writes %s" % (who, d))

    def metrics(self, rd, who, P, by, st, R, idx, names, agg, thousand, missing):
        pre = ("args", "metrics")
        missing(pre, "metrics", lambda s: True)
        keyed = {}
        for path in by:
            if path[:2] == pre and len(path) > 2:
                keyed.setdefault(path[2], {})[path[3:]] = by[path]
        seq, stat = [], []
        for key, sub in keyed.items():
            if key == "runtime":
                continue
            parts = key if isinstance(key, tuple) else (("s", key),)
            if len(parts) == 1 and parts[0][0] == "fmt":
                x = plain(parts[0][2])
                if x[0] == "ld" and x[1][0] == "e" and x[1][1] in names:
                    seq.append((x[1][2], sub))
                    continue
                if x[0] == "ld" and x[1][0] == "e" and any(x[1][1] == S(n) for _, n in B.KINDS):
                    rd("counter names", False, "%s names counters from %s" % (who, show(x[1][1])))
                    continue
            elif len(parts) == 2 and parts[0][0] == "s" and parts[1][0] == "fmt":
                stat.append((parts[0][1], plain(parts[1][2]), sub))
                continue
            rd("counter names", None, "%s writes the key %s" % (who, render(parts)))
        ctx_free = all(not c for _, sub in seq for vs in sub.values() for _, c in vs)
        # counters
        if agg:
            vecs = {"mean": "mean", "variance": "variance", "count": "n", "min": "min", "max": "max"}
            for i, sub in seq:
                for k, f in vecs.items():
                    vs = sub.get((k,), [])
                    if not vs:
                        rd("counter statistics", False, "%s writes no %s" % (who, k))
                    for v, c in vs:
                        ok = cmp_num(v[1], LD(("e", ("f", R, f), i)), 64) if v[0] == "num" else None
                        rd("counter statistics", ok, "%s writes %s as %s" % (who, show(v[1]), k))
        else:
            for i, sub in seq:
                for v, c in sub.get((), []):
                    want = LD(("e", ("e", ("f", R, "counts"), idx), i))
                    ok = cmp_num(v[1], want, 64) if v[0] == "num" else None
                    rd("counter values", ok, "%s writes %s for counter %s" % (who, show(v[1]), show(i)))
        idxs = [i for i, _ in seq]
        srcs = list(names) + ([("f", R, "mean")] if agg else [("e", ("f", R, "counts"), idx)])
        if not agg and below(st, idx, ("f", R, "counts")) is False:
            rd("all counters are written", True)
        else:
            rs = [R_complete(st, idxs, s) for s in srcs]
            if not agg and not idxs and below(st, idx, ("f", R, "counts")) is None and compared(st, idx, ("f", R, "counts")):
                rd("all counters are written", False, "%s skips counters of an enter whose counters were recorded" % who)
            elif not agg and not idxs and not any(w in str(list(st.facts)) + str(list(st.bounds)) for w in ("'counts'", "event_names", "event_set")):
                rd("all counters are written", False, "%s writes none on a path that asks nothing about the counters" % who)
            elif ctx_free:
                rd("all counters are written", True if True in rs else (False if idxs and False in rs and None not in rs[:1] or all(r is False for r in rs) else None),
                   "%s writes %d counters" % (who, len(idxs)))
            else:
                rd("all counters are written", None, "conditional counters")
        if not agg:
            return
        # user metrics
        fields = {"mean": "static_counters_mean", "variance": "static_counters_variance", "count": "static_counters_n",
                  "min": "static_counters_min", "max": "static_counters_max"}
        it = []
        for pfx, name, sub in stat:
            rd("user metric names", pfx == "static:::", "%s prefixes them with '%s'" % (who, pfx))
            loc = name[1] if name[0] == "ld" else None
            el = loc[1] if loc and loc[0] == "f" and loc[2] in ("first",) else None
            if el is None or el[0] != "e" or el[1] not in [("f", R, f) for f in fields.values()]:
                rd("user metric statistics", None, "%s names them %s" % (who, show(name)))
                continue
            it.append((el[1], el[2]))
            for k, f in fields.items():
                vs = sub.get((k,), [])
                if not vs:
                    rd("user metric statistics", False, "%s writes no %s" % (who, k))
                for v, c in vs:
                    x = v[2] if v[0] == "fmt" else v[1] if v[0] == "num" else None
                    if x is None:
                        rd("user metric statistics", None, "%s writes %s" % (who, v))
                        continue
                    x = plain(x)
                    good = [LD(("e", ("f", R, f), name)), LD(("e", ("f", R, f), LD(("f", el, "first"))))]
                    if el[1] == ("f", R, f):
                        good.append(LD(("f", el, "second")))
                    ok = x in good
                    if not ok and not known_term(x):
                        ok = None
                    rd("user metric statistics", ok, "%s writes %s as %s" % (who, show(x), k))
        srcs = [s for s, _ in it]
        if it:
            rd("all user metrics are written", R_complete(st, [i for _, i in it], it[0][0]) if len(set(srcs)) == 1 else None, "%s writes %d user metrics" % (who, len(it)))
        else:
            rs = [st.facts.get(("empty", LD(("f", R, f)))) for f in fields.values()]
            rd("all user metrics are written", True if True in rs else False if not stat else None, "%s leaves user metrics out" % who)
        # runtime
        for k, f in (("mean", "runtime_mean"), ("count", "runtime_n"), ("min", "runtime_min"), ("max", "runtime_max")):
            path = pre + ("runtime", k)
            missing(path, "runtime statistics", lambda s: True)
            for v, c in by.get(path, []):
                want = LD(("f", R, f))
                ok = cmp_num(v[1], want if k == "count" else thousand(want)) if v[0] == "num" else None
                rd("runtime statistics", ok, "%s writes %s as %s" % (who, show(v[1]), k))
        for v, c in by.get(pre + ("runtime", "variance"), []):
            if v[0] == "num":
                ls = [x for x in A.subterms(v[1]) if isinstance(x, tuple) and x and x[0] == "ld"]
                rd("runtime statistics", LD(("f", R, "runtime_variance")) in ls, "%s writes %s as variance" % (who, show(v[1])))


def compared(st, idx, vec):
    """Does the path compare idx with the size of vec?"""
    for items, _ in list(st.bounds.items()):
        at = [a for a, _ in items]
        if any(x and x[0] == "call" and last(x[1]) in ("size", "length") and x[2] == LD(vec) for x in at) and (A.is_int(idx) or idx in at):
            return True
    return False


def below(st, idx, vec):
    """Is idx < vec.size() known on this path?"""
    atoms = set()
    for key in st.facts:
        for x in A.subterms(key):
            if isinstance(x, tuple) and x and x[0] == "call" and last(x[1]) in ("size", "length") and x[2] == LD(vec):
                atoms.add(x)
    for a in atoms:
        for key, val in st.facts.items():
            # idx < a as an ordering fact of either polarity
            if key[0] == "ge0" and dict(key[1]).get(a) and len(key[1]) == 2 - A.is_int(idx):
                r = st.truth(("bin", "<", idx, a, "bool"))
                if r is not None:
                    return r
    return None


def R_complete(st, idxs, src):
    return R.complete(st, idxs, src)


def floated(v):
    """Integer division by 1000 of a timestamp counts as the same instant."""
    if v[0] == "bin" and v[1] == "/" and not A.is_float(v[4]):
        return ("bin", "/", v[2], v[3], "double")
    if v[0] == "cast" and not A.is_float(v[1]):
        return floated(v[2]) if A.bits(v[1]) >= 64 else v
    return v


def metric_double(v):
    return any(isinstance(x, tuple) and x and x[0] == "f" and isinstance(x[-1], str) and x[-1].startswith("static_counters_") for x in A.subterms(v))


def and3(*xs):
    return False if False in xs else None if None in xs else True


all3 = and3


def render(ps):
    try:
        return "".join(p[1] if p[0] == "s" else "<%s>" % show(plain(p[2]) if p[0] == "fmt" else p[1]) for p in ps) or "an empty text"
    except Exception:
        return str(ps)[:120]


def show_fn(f):
    if f["n"] == "operator<<":
        return bare(f["ps"][1]["t"])
    return last(f["q"])


def written_text(st, e, v):
    """Everything a writer function produced on a path: stream writes plus its returned text."""
    ps = sum((ev[2] for ev in st.events() if ev[0] == "write"), ())
    for l, x in st.env.items():
        pass
    if isinstance(v, tuple) and v and v[0] in ("txt", "oss", "cat", "s"):
        ps += e.typed(v, "std::string")
    return ps


def b04(rep):
    fx = facts(rep)
    rep.need(CLS in fx.recs, "class " + CLS)
    ks = kinds(fx)
    r1 = "the trace file is valid JSON on every path"
    rep.rule(r1, "every path of the shutdown routine and of the event writers yields a sequence of typed output pieces; a pushdown JSON "
                 "recogniser accepts each; variable text only through a formatter proved to escape all byte values (enumerated per path)")
    r2 = "events carry their own region's data"
    rep.rule(r2, "each JSON key is matched with the term that flows into it: the region field of that meaning, of the same region and index")
    r3 = "every measurement is written exactly once"
    rep.rule(r3, "per path of the shutdown routine: one event per region when aggregating, else one per recorded start, in an array at "
                 "traceEvents, with the region's own event names")
    a1, a2, a3 = Acc(rep, r1), Acc(rep, r2), Acc(rep, r3)
    fm = Formatters(fx, rep)
    jd = Judge(rep, fx, fm, a1, a2)
    D = Doc(rep, fx)
    if D.out is None:
        rep.undecided(r1, "shutdown routine", D.why)
        return
    modes = {}
    for kind, st, v in D.out:
        if kind == "throw":
            a3("the trace is written", False, "the shutdown routine throws")
        if kind != "return":
            continue
        document(rep, fx, ks, a1, a3, jd, D, st, modes)
    for u, ms in sorted(modes.items()):
        writer(rep, fx, ks, a1, a2, jd, fx.fns[u], ms)
    a1.done(("document",))
    a2.done()
    a3.done(("the trace is written", "one event per measurement"))


def document(rep, fx, ks, a1, a3, jd, D, st, modes):
    ws = [e for e in st.events() if e[0] == "write"]
    opens = [e for e in st.events() if e[0] == "call" and last(e[1]) == "fopen"]
    if not ws:
        a3("the trace is written", False, "a path of the shutdown routine writes nothing")
        return
    if len(set(e[1] for e in ws)) != 1:
        a1("document", None, "several output streams")
        return
    if len(opens) == 1 and ws[0][1] == ("d", opens[0][5]):
        nm, md = opens[0][4]
        a3("the trace is written", (plain(nm) == LD(S("output_file")) or (False if known_term(plain(nm)) else None)) if md[0] == "s" and md[1].startswith("w") else (False if md[0] == "s" else None),
           "to %s with mode %s" % (show(nm), show(md)))
        if not [e for e in st.events() if e[0] == "call" and last(e[1]) == "fclose"]:
            a3("the trace is written", None, "file is not closed explicitly")
    else:
        a3("the trace is written", None, "output is not opened with fopen")
    P = Parser()
    try:
        for e in ws:
            P.feed(e[2])
        leaves = P.finish()
    except Bad as x:
        a1("document", False, str(x) + at_path(st))
        return
    except Unknown as x:
        a1("document", None, str(x))
        return
    a1("document", True)
    jd.safe("document", leaves)
    evs = [(p[1], v) for p, v, c in leaves if len(p) == 2 and p[0] == "traceEvents"]
    if not any(p == ("traceEvents",) and v == ("open", "[") for p, v, c in leaves):
        a3("one event per measurement", False, "there is no traceEvents array")
        return
    inline = [v for _, v in evs if v[0] != "value"]
    if inline:
        a3("one event per measurement", None if all(v == ("open", "{") for v in inline) else False, "events are not written by a function of their own")
        return
    # the regions visited on this path
    regs = S("regions")
    agg = st.truth(LD(S("aggregate_events")))
    its = sorted({x[1] for t in list(st.facts) + [v for _, v in evs] for x in A.subterms(t) if isinstance(x, tuple) and len(x) == 3 and x[0] == "itn"
                  and any(isinstance(y, tuple) and y == ("e", regs, x) for y in A.subterms(t))})
    if st.facts.get(("empty", LD(regs))) is True:
        a3("one event per measurement", not evs, "%d events without regions" % len(evs))
        return
    if len(its) != 1:
        a3("one event per measurement", None if its or evs else False, "iteration over the regions is not recognised" if its or evs else "regions are not visited")
        return
    n = its[0]
    k = 1
    while st.facts.get(("more", n, k)) is True:
        k += 1
    if st.facts.get(("more", n, k)) is not False:
        a3("one event per measurement", False if k > 0 else None, "stops after %d regions although there may be more%s" % (k, at_path(st)))
        return
    if k > 2:
        return
    per = {}
    order = []
    for _, v in evs:
        fn = fx.fns[v[1]]
        val = plain(v[2][region_param(fn)])
        l = val[1] if val[0] == "ld" else None
        if l is None or l[0] != "f" or l[2] != "second" or l[1][:2] != ("e", regs):
            a3("one event per measurement", None, "event of %s" % show(val))
            return
        key = l[1][2]
        per.setdefault(key, []).append(v)
        order.append(key)
    if agg is None:
        a3("mode decides the kind of events", False if evs else None, "events do not depend on the instrumentation mode")
        return
    for j in range(k):
        key = ("itn", n, j)
        R_ = ("f", ("e", regs, key), "second")
        got = per.pop(key, [])
        for v in got:
            modes.setdefault(v[1], set()).add(agg)
            names_arg(fx, ks, a3, st, fx.fns[v[1]], v, R_)
        if agg:
            a3("one event per measurement", len(got) == 1, "%d aggregated events for a region%s" % (len(got), at_path(st)))
            continue
        idxs = []
        und = False
        for v in got:
            fn = fx.fns[v[1]]
            ix = [a for a, p in zip(v[2], fn["ps"]) if A.is_scalar(bare(p["t"])) and not p["t"].endswith("*")]
            if len(ix) != 1:
                und = True
                continue
            idxs.append(ix[0])
        if und:
            a3("one event per measurement", None, "event index is not recognised")
            continue
        c = R.complete(st, idxs, ("f", R_, "starts"))
        if c is None:
            about = {x[2] for t in st.facts for x in A.subterms(t) if isinstance(x, tuple) and len(x) == 3 and x[0] == "f" and x[1] == R_}
            if "starts" not in about and about & {"durations", "counts"}:
                c = False
        a3("one event per measurement", c, "%d events for the recorded starts of a region%s" % (len(got), at_path(st)))
    if per:
        a3("one event per measurement", None, "event of an unrecognised region")


def at_path(st):
    fs = []
    for k, v in list(st.facts.items())[-4:]:
        if k[0] in ("eq0", "ge0") and len(k[1]) == 1:
            fs.append("%s %s %d" % (show(k[1][0][0]), {("eq0", True): "==", ("eq0", False): "!=", ("ge0", True): ">=", ("ge0", False): "<"}[(k[0], v)], -k[2]))
        elif k[0] == "more":
            fs.append(("at least" if v else "only") + " %d region(s)" % (k[2] + (1 if v else 0)))
    return " when " + ", ".join(fs) if fs else ""


def names_arg(fx, ks, a3, st, fn, v, R_):
    ps = [k for k, p in enumerate(fn["ps"]) if "vector" in p["t"] and "basic_string" in p["t"]]
    if not ps:
        return
    x = plain(v[2][ps[0]])
    poss = [l for val, l in ks.items() if st.truth(("bin", "==", LD(("f", R_, "event_set")), I(val), "bool")) is not False]
    sure = [l for val, l in ks.items() if st.truth(("bin", "==", LD(("f", R_, "event_set")), I(val), "bool")) is True]
    if sure:
        poss = sure
    if x[0] == "ld" and x[1] in [S(n) for _, n in B.KINDS]:
        a3("event names match the region's kind", all(l == x[1] for l in poss), "names from %s for a region of another kind" % show(x[1]))
    elif x[0] == "list" and not x[1]:
        a3("event names match the region's kind", not poss, "no event names for a region that has counters")
    else:
        a3("event names match the region's kind", None, "names %s" % show(x))


def writer(rep, fx, ks, a1, a2, jd, fn, ms):
    who = last(fn["q"])
    e = TEngine(fx)
    try:
        out = e.run(fn)
    except A.Undecided as x:
        a1("event of " + who, None, str(x))
        return
    rep.fns |= e.funcs
    rep.count("paths", len(out))
    R_ = ("d", ("p", fn["ps"][region_param(fn)]["n"] or str(region_param(fn)), region_param(fn)))
    idx, names = None, []
    for i, p in enumerate(fn["ps"]):
        if A.is_scalar(bare(p["t"])) and not p["t"].endswith("*"):
            idx = ("p", p["n"] or str(i), i)
        if "vector" in p["t"] and "basic_string" in p["t"]:
            names = [("d", ("p", p["n"] or str(i), i))]
    for kind, st, v in out:
        if kind == "exit":
            continue
        if kind == "throw":
            a1("event of " + who, False, "a path throws an exception")
            continue
        ps = written_text(st, e, v)
        P = Parser()
        try:
            P.feed(ps)
            leaves = P.finish()
        except Bad as x:
            a1("event of " + who, False, str(x) + at_path(st))
            continue
        except Unknown as x:
            a1("event of " + who, None, str(x))
            continue
        if not any(p == () and x == ("open", "{") for p, x, c in leaves):
            a1("event of " + who, False, "the event is not a JSON object")
            continue
        a1("event of " + who, True)
        jd.safe("event of " + who, leaves)
        nm = names
        if not nm:
            l = kind_of(st, [LD(("f", R_, "event_set"))], ks)
            nm = [l] if l else []
        for agg in sorted(ms):
            if not agg and idx is None:
                a2("event: timing", None, who + " has no index parameter")
                continue
            jd.event(who, P, leaves, st, R_, idx, nm, agg, ks)


CHECKS = {"B04": b04}
