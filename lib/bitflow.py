"""Bit-provenance dataflow for byte-group codecs.

Loops whose trip count is unknown are accelerated: when two visits of the loop head
differ only by constant shifts of integer variables and by an appended block of
output, the earlier visit is generalised with a group counter N (every shifted
variable becomes v + delta*N, the output becomes a repetition of the block) and the
loop body is analysed once more from that generic state; it must come back to the
same state with N+1.  Each value is then resolved to the input bits it consists of."""
from . import absint as A
from . import cxx
from .absint import I, last
from .rules import JEngine


class Bad(Exception):
    pass


def growth(a, b):
    """Block appended to a sequence value, or None."""
    for k in ("cat", "list"):
        pa, pb = seq(a, k), seq(b, k)
        if pa is not None and pb is not None and len(pb) > len(pa) and pb[:len(pa)] == pa:
            return k, pb[len(pa):]
    return None


def seq(v, k):
    if k == "cat":
        if v == ("s", ""):
            return ()
        return v[1] if v[0] == "cat" else ((v,) if v[0] in ("s", "idx", "ld") else None)
    return v[1] if v[0] == "list" else None


class PEngine(JEngine):
    PERIOD = 9

    def __init__(self, fx):
        super().__init__(fx)
        self.alphabet = None
        self.charvar = lambda t: None
        self.accel = 0

    # ---- acceleration
    def short(self, st, cond, body, inc, dowhile):
        """A loop that provably ends within four trips is simply unrolled; None otherwise."""
        outs, heads, first = [], [st.fork()], dowhile
        for _ in range(5):
            nxt = []
            for s in heads:
                t, f, _u = self.head(s, cond, first)
                outs += [("next", x, None) for x in f]
                for x in t:
                    for kind, s2, v in body(x, 0):
                        if kind in ("next", "continue"):
                            nxt += inc(s2)
                        elif kind == "break":
                            outs.append(("next", s2, None))
                        else:
                            outs.append((kind, s2, v))
            heads, first = nxt, False
            if not heads:
                return outs
            if len(heads) > 8:
                return None
        return None

    def loop(self, st, cond, body, inc, ids, dowhile=False):
        outs, heads = [], [(st, [], dowhile)]
        o = self.short(st, cond, body, inc, dowhile)
        if o is not None:
            return o
        steps = 0
        while heads:
            s, hist, first = heads.pop()
            steps += 1
            if steps > 2500:
                raise A.Undecided("loop of %s does not stabilise" % self.stack[-1]["q"])
            t, f, undec = self.head(s, cond, first)
            if undec or hist:
                snap = s.fork()
                done = False
                for k in range(len(hist)):
                    d = self.shift(hist[k], snap)
                    if d is None:
                        continue
                    n = ("N", self.fresh())
                    g = self.generic(hist[k], d, n)
                    o = self.round(g, len(hist) - k, n, cond, body, inc)
                    if o is not None:
                        self.accel += 1
                        outs += o
                        done = True
                        break
                if done:
                    continue
                hist = hist + [snap]
                if len(hist) > self.PERIOD:
                    raise A.Undecided("no period found in a loop of " + self.stack[-1]["q"])
            outs += [("next", x, None) for x in f]
            for x in t:
                for kind, s2, v in body(x, 0):
                    if kind in ("next", "continue"):
                        heads += [(y, hist, False) for y in inc(s2)]
                    elif kind == "break":
                        outs.append(("next", s2, None))
                    else:
                        outs.append((kind, s2, v))
        return outs

    def head(self, s, cond, first):
        if first:
            return [s], [], False
        t, f = cond(s.fork())
        return t, f, len(t) + len(f) != 1

    def round(self, g, period, n, cond, body, inc):
        """One trip of `period` visits from the generic state; None when it is not inductive."""
        outs, heads = [], [g.fork()]
        for i in range(period):
            nxt = []
            for s in heads:
                t, f, _ = self.head(s, cond, False)
                outs += [("next", x, None) for x in f]
                for x in t:
                    for kind, s2, v in body(x, 0):
                        if kind in ("next", "continue"):
                            nxt += inc(s2)
                        elif kind == "break":
                            outs.append(("next", s2, None))
                        else:
                            outs.append((kind, s2, v))
            heads = nxt
            if len(heads) > 200:
                return None
        if not heads or not all(self.inductive(g, s, n) for s in heads):
            return None
        return outs

    def shift(self, a, b):
        """{loc: ("d", delta) | ("g", kind, block) | ("x",)} between two loop-head states, or None if not a shift."""
        out = {}
        grew = False
        for l in set(a.env) | set(b.env):
            v, w = a.env.get(l), b.env.get(l)
            if v == w:
                continue
            if v is None or w is None or v[0] == "undef":
                out[l] = ("x",)
                continue
            if isinstance(v, tuple) and isinstance(w, tuple):
                g = growth(v, w)
                if g:
                    out[l] = ("g",) + g
                    grew = True
                    continue
                if l[0] == "e":                                # array contents
                    out[l] = ("x",)
                    continue
                (i1, c1), (i2, c2) = A.lin(v), A.lin(w)
                if i1 == i2:
                    if i1 == () and abs(c1) < 4 and abs(c2) < 4 and c1 != c2 and not grew and False:
                        return None
                    out[l] = ("d", c2 - c1)
                    continue
                out[l] = ("x",)
                continue
            return None
        if not any(x[0] == "d" for x in out.values()):
            return None
        return out if any(x[0] == "g" for x in out.values()) else None

    def generic(self, s, d, n):
        g = s.fork()
        for l, x in d.items():
            if x[0] == "x":
                g.env[l] = ("stale", l)
            elif x[0] == "d":
                g.env[l] = A.unlin(*A.lin(("bin", "+", s.env[l], ("bin", "*", n, I(x[1]), "long"), "long")))
            else:
                kind, block = x[1], x[2]
                base = seq(s.env[l], kind)
                g.env[l] = (kind, base + (("rep", n, tuple(block), tuple(sorted((str(k), y[1]) for k, y in d.items() if y[0] == "d"))),)) \
                    + ((s.env[l][2],) if kind == "list" else ())
        return g

    def inductive(self, g, s, n):
        """s must be g with N+1 (stale contents may differ)."""
        for l, v in g.env.items():
            w = s.env.get(l)
            if v == w or (isinstance(v, tuple) and v and v[0] == "stale"):
                continue
            gr = growth(v, w) if isinstance(w, tuple) else None
            if gr:
                continue
            i1, c1 = A.lin(v)
            i2, c2 = A.lin(w) if isinstance(w, tuple) else ((), None)
            coef = dict(i1).get(n, 0)
            if i1 == i2 and c2 is not None and c2 - c1 == coef:
                continue
            return False
        return True

    # ---- character predicates
    def on_call(self, st, node, q, rl, rv, args, an):
        fn = self.fx.fns.get(node.get("u"))
        if last(q) in ("isalnum", "isalpha", "isdigit") and len(args) == 1 and A.is_int(args[0]):
            c = args[0][1]
            ok = 0 < c < 128 and {"isalnum": chr(c).isalnum(), "isalpha": chr(c).isalpha(), "isdigit": chr(c).isdigit()}[last(q)]
            return [(st, I(1 if ok else 0))]
        if self.alphabet and fn is not None and len(args) == 1 and fn.get("body") and fn["t"] == "bool" and self.charvar(args[0]):
            yes = set()
            for c in self.alphabet | {ord("=")}:
                rs = self.invoke(fn, A.St(), None, [I(c)])
                if len(rs) != 1 or not A.is_int(rs[0][1]):
                    return None
                if rs[0][1][1]:
                    yes.add(c)
            return [(st, ("charpred", self.charvar(args[0]), frozenset(yes)))]
        if last(q) == "find" and rv is not None and len(args) in (1, 2):
            st.emit("find", rv, args[0])
            return [(st, ("find", rv, args[0]))]
        return super().on_call(st, node, q, rl, rv, args, an)

    def branch(self, n, st):
        k = n.get("k")
        if self.alphabet and k not in ("un",) and not (k == "bin" and n["op"] in ("&&", "||")):
            T, F = [], []
            for s, v in self.ev(n, st):
                t, f = self.split(s, v)
                T += t
                F += f
            return T, F
        return super().branch(n, st)

    def split(self, s, v):
        w = v
        while isinstance(w, tuple) and w[0] == "cast":
            w = w[2]
        pred, flip = None, False
        if w[0] == "charpred":
            cv, yes = w[1], w[2]
            pred = yes
        elif w[0] == "bin" and w[1] in ("==", "!="):
            for x, y in ((w[2], w[3]), (w[3], w[2])):
                if A.is_int(y) and self.charvar(x):
                    cv, pred, flip = self.charvar(x), {y[1]}, w[1] == "!="
        if pred is not None:
            key = ("cand", cv)
            cand = s.facts.get(key) or frozenset(self.alphabet | {ord("=")})
            yes, no = cand & pred, cand - pred
            if flip:
                yes, no = no, yes
            T, F = [], []
            if yes:
                s1 = s.fork()
                s1.facts[key] = frozenset(yes)
                T.append(s1)
            if no:
                s2 = s.fork()
                s2.facts[key] = frozenset(no)
                F.append(s2)
            return T, F
        tr = s.truth(v)
        if tr is not None:
            return ([s], []) if tr else ([], [s])
        s2 = s.fork()
        return ([s] if s.assume(v, True) else []), ([s2] if s2.assume(v, False) else [])


# ------------------------------------------------------------------ bits
def bits(t, leaf, w=64):
    """LSB-first provenance bits of a term: 0, 1, (symbol, bit) or None (unknown)."""
    def pad(b):
        return (b + [0] * w)[:w]
    k = t[0]
    x = leaf(t)
    if x is not None:
        return pad(list(x))
    if k == "i":
        v = t[1] % (1 << w)
        return [(v >> i) & 1 for i in range(w)]
    if k == "cast":
        n = A.bits(t[1])
        b = bits(t[2], leaf, w)
        return b[:n] + [0] * (w - n) if "unsigned" in t[1] or n >= w else b[:n] + ([0] * (w - n) if b[n - 1] == 0 else [b[n - 1]] * (w - n))
    if k == "bin":
        op, a, b = t[1], t[2], t[3]
        if op in ("<<", ">>") and A.is_int(b):
            x = bits(a, leaf, w)
            n = b[1]
            return ([0] * n + x)[:w] if op == "<<" else x[n:] + [x[-1] if x[-1] == 0 else None] * n
        if op in ("*", "/", "%") and A.is_int(b) and b[1] > 0 and b[1] & (b[1] - 1) == 0:
            n = b[1].bit_length() - 1
            x = bits(a, leaf, w)
            if op == "*":
                return ([0] * n + x)[:w]
            if op == "/":
                return x[n:] + [0] * n
            return x[:n] + [0] * (w - n)
        if op in ("&", "|", "^", "+"):
            x, y = bits(a, leaf, w), bits(b, leaf, w)
            out = []
            for p, q in zip(x, y):
                if op == "&":
                    out.append(0 if p == 0 or q == 0 else p if q == 1 else q if p == 1 else p if p == q else None)
                elif op == "|":
                    out.append(1 if p == 1 or q == 1 else p if q == 0 else q if p == 0 else p if p == q else None)
                elif op == "^":
                    out.append(p if q == 0 else q if p == 0 else None)
                else:
                    if p != 0 and q != 0:
                        return out + [None] * (w - len(out))      # carries
                    out.append(p if q == 0 else q)
            return out
    return [None] * w
