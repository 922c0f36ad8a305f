"""Path-sensitive analysis of Python functions that take syntax nodes apart (pattern handlers): on every path that
accepts a node, which of its parts were used.  Works on the parsed source only."""
import ast

FIELDS = {"BinOp": ("left", "right"), "UnaryOp": ("operand",), "Call": ("args", "keywords"), "Attribute": ("value",),
          "Subscript": ("value", "slice"), "Name": ("id",), "Constant": ("value",), "Tuple": ("elts",), "List": ("elts",),
          "Compare": ("left", "comparators"), "BoolOp": ("values",), "IfExp": ("test", "body", "orelse"), "Expr": ("value",),
          "Assign": ("targets", "value"), "Slice": ("lower", "upper", "step"), "Starred": ("value",)}
OF = {"left": "BinOp", "right": "BinOp", "operand": "UnaryOp", "args": "Call", "keywords": "Call", "func": "Call", "slice": "Subscript",
      "elts": "Tuple", "id": "Name"}
INERT = {"isinstance", "hasattr", "type", "print", "repr", "id", "get_debug_info", "copy_location", "fix_missing_locations", "format"}
CHECKS = {"check_call"}
LIMIT = 4000


class Dropped(Exception):
    pass


class TooMany(Exception):
    pass


class St:
    __slots__ = ("kinds", "used", "env", "facts", "res", "loaded", "lists")

    def __init__(self, o=None):
        for k in self.__slots__:
            setattr(self, k, dict(getattr(o, k)) if o else {})

    def key(self):
        return tuple(tuple(sorted((repr(k), repr(v)) for k, v in getattr(self, s).items())) for s in self.__slots__)

    def copy(self):
        return St(self)


def dedupe(sts):
    seen, out = set(), []
    for s in sts:
        k = s.key()
        if k not in seen:
            seen.add(k)
            out.append(s)
    if len(out) > LIMIT:
        raise TooMany()
    return out


def boolish(e):
    if e is None:
        return False
    if isinstance(e, ast.Constant):
        return e.value in (True, False)
    if isinstance(e, (ast.Compare,)):
        return True
    if isinstance(e, ast.BoolOp):
        return all(boolish(v) for v in e.values)
    if isinstance(e, ast.UnaryOp):
        return isinstance(e.op, ast.Not)
    if isinstance(e, ast.Call):
        n = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")
        return n in ("isinstance", "any", "all", "bool", "hasattr") or n.lstrip("_").startswith(("is_", "has_"))
    return False


def returns(fn):
    out, todo = [], list(fn.body)
    while todo:
        s = todo.pop()
        if isinstance(s, ast.Return):
            out.append(s.value)
        if not isinstance(s, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            todo += [c for c in ast.iter_child_nodes(s)]
    return out


def predicate(fn):
    """Only answers a question about its arguments: returns truth values and emits no code."""
    rs = returns(fn)
    if not rs or not all(boolish(r) for r in rs):
        return False
    return not any(isinstance(x, ast.Attribute) and x.attr == "builder" for x in ast.walk(fn))


def nonparams(fn):
    return {a.arg for a in fn.args.args + fn.args.kwonlyargs}


class Parts:
    def __init__(self, pr, cls):
        self.pr, self.cls = pr, cls
        self.known, self.collect, self.deep = {}, None, None

    # -------------------------------------------------------------- entry
    def run(self, fn, scope, roots, rec=False):
        """[(line, message)] of dropped parts; scope: nested functions by name; rec: fn recognises nodes (check `return True`)."""
        self.fn, self.scope, self.rec = fn, dict(scope), rec
        self.out, self.exits = [], 0
        for s in fn.body:
            if isinstance(s, ast.FunctionDef):
                self.scope[s.name] = s
        st = St()
        self.roots = set(roots)
        for r in roots:
            st.env[r] = ("p", r)
        self.loops = []
        self.taken = {r for r in parted(fn)}
        self.kept = {a.id for x in ast.walk(fn) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "append"
                     for a in x.args if isinstance(a, ast.Name)}
        self.pairs = {}
        ends = self.block(fn.body, [st])
        if not any(v is not None for v in returns(fn)) and not rec:
            for x in ends:
                self.exits += 1
                self.judge(x, fn.body[-1])
        for line, (used, dropped) in sorted(self.pairs.items()):
            if used and dropped:
                self.out.append((line, sorted(dropped)[0]))
        return self.out

    def kinds_of(self, fn):
        """The kinds of node a one-argument recogniser accepts: [{suffix: kinds}] per accepting path, or None."""
        if id(fn) in self.known:
            return self.known[id(fn)]
        self.known[id(fn)] = None
        ps = [a.arg for a in fn.args.args if a.arg not in ("self", "cls")]
        if len(ps) != 1:
            return None
        q = Parts(self.pr, self.cls)
        q.known, q.collect = self.known, []
        try:
            q.run(fn, self.scope, ps, rec=True)
        except TooMany:
            return None
        out = []
        for st in q.collect:
            d = {k[len(ps[0]):]: v for k, v in st.kinds.items() if k in (ps[0], ps[0] + ".op")}
            if "" not in d:
                return None
            if d not in out:
                out.append(d)
        self.known[id(fn)] = out
        return out

    # -------------------------------------------------------------- paths
    def path(self, e, st):
        """Canonical access path of an expression rooted at a tracked node, or None."""
        if isinstance(e, ast.Name):
            v = st.env.get(e.id)
            return v[1] if v and v[0] == "p" else None
        if isinstance(e, ast.Attribute):
            p = self.path(e.value, st)
            return p + "." + e.attr if p else None
        if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int):
            p = self.path(e.value, st)
            return "%s[%d]" % (p, e.slice.value) if p else None
        if isinstance(e, ast.Call) and getattr(e.func, "id", "") in ("list", "tuple") and len(e.args) == 1 and not e.keywords:
            return self.path(e.args[0], st)
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            p = self.path(e.left, st)
            return p if p and p.endswith((".elts", ".args")) else None
        return None

    def callee(self, c):
        f = c.func
        if isinstance(f, ast.Name):
            if f.id in self.scope:
                return self.scope[f.id]
            return self.pr.funcs[f.id][1] if f.id in self.pr.funcs else None
        if isinstance(f, ast.Attribute):
            k = self.pr.class_of(self.cls, f.value)
            return self.pr.method(k, f.attr) if k else None
        return None

    def inert(self, c):
        n = c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", "")
        return n in INERT

    def asks(self, c):
        f = self.callee(c)
        return f is not None and predicate(f)

    def project(self, call, st):
        """Results of a helper that returns a part of its argument or nothing: [(value, state)]; None for other callees."""
        fn = self.callee(call)
        if fn is None or self.deep is not None or call.keywords or predicate(fn):
            return None
        ps = [a.arg for a in fn.args.args if a.arg not in ("self", "cls")]
        rs = returns(fn)
        if len(ps) != len(call.args) or not rs or any(isinstance(x, (ast.For, ast.While, ast.Try)) for x in ast.walk(fn)):
            return None
        for r in rs:
            e = r
            while isinstance(e, (ast.Attribute, ast.Subscript)):
                e = e.value
            if r is not None and not (isinstance(r, ast.Constant) and r.value in (None, False)) and not (r is not e and isinstance(e, ast.Name) and e.id in ps):
                return None
        args = [self.path(a, st) for a in call.args]
        if not any(args):
            return None
        inner = st.copy()
        saved = dict(st.env)
        inner.env = {p: ("p", a) for p, a in zip(ps, args) if a}
        old, self.deep = self.deep, []
        loops, self.loops = self.loops, []
        try:
            ends = self.block(fn.body, [inner])
            got = self.deep + [(("c", None), x) for x in ends]
        finally:
            self.deep, self.loops = old, loops
        out = []
        for v, x in got:
            x.env = dict(saved)
            out.append((v, x))
        return out

    # -------------------------------------------------------------- uses
    def use(self, e, st, names=None):
        """Records the parts an expression uses; names: variables that receive the results of a call."""
        if e is None or isinstance(e, (ast.Constant, ast.Lambda)):
            return
        p = self.path(e, st)
        if p is not None:
            if names is not None:
                st.res[(p, names)] = True
            else:
                st.used[p] = True
            return
        if isinstance(e, ast.Name):
            self.load(e.id, st, names)
            return
        if isinstance(e, ast.Call):
            if self.inert(e):
                return
            n = e.func.attr if isinstance(e.func, ast.Attribute) else getattr(e.func, "id", "")
            for x in ([e.func.value] if isinstance(e.func, ast.Attribute) else []) + e.args:
                if isinstance(x, ast.Name) and st.env.get(x.id) == ("empty",):
                    del st.env[x.id]
            if n in CHECKS and e.args:
                q = self.path(e.args[0], st)
                if q:
                    st.used[q + ".keywords"] = True
                    st.used[q + ".args*"] = True
                return
            if n in ("append", "add", "extend", "insert") and isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name):
                for a in e.args:
                    q = self.path(a, st)
                    if q:
                        self.keep(e.func.value.id, q, st)
            ask = self.asks(e)
            if isinstance(e.func, ast.Attribute):
                self.use(e.func.value, st, names) if self.path(e.func.value, st) is None else None
            for a in e.args + [k.value for k in e.keywords]:
                q = self.path(a, st)
                if q is not None:
                    if ask:
                        continue
                    if names is not None:
                        st.res[(q, names)] = True
                    else:
                        st.used[q] = True
                else:
                    self.use(a, st, names)
            return
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            for g in e.generators:
                self.use(g.iter, st, names)
            for x in ast.walk(e):
                q = self.path(x, st) if isinstance(x, (ast.Name, ast.Attribute, ast.Subscript)) else None
                if q and q not in self.roots:
                    self.use(x, st, names)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.use(c, st, names)
            elif isinstance(c, ast.keyword):
                self.use(c.value, st, names)

    def load(self, name, st, to=None):
        """A variable is read: for good, or to compute the variables `to`."""
        known = any(name in names for (p, names) in st.res) or any(v is not True and name in v for v in st.loaded.values())
        if known and st.loaded.get(name) is not True:
            st.loaded[name] = True if to is None or name in to else tuple(to)

    def consumed(self, n, st, seen=()):
        v = st.loaded.get(n)
        if v is None or v is True or n in seen:
            return v is True
        return any(st.env.get(m, ("",))[0] in "p" or self.consumed(m, st, seen + (n,)) for m in v)

    def keep(self, lst, q, st):
        """The list remembers what is known about the nodes put into it."""
        snap = ({k[len(q):]: v for k, v in st.kinds.items() if k.startswith(q)}, {k[len(q):]: v for k, v in st.used.items() if k.startswith(q) and k != q},
                {(k[0], k[1][len(q):]): v for k, v in st.facts.items() if isinstance(k, tuple) and k[1].startswith(q)})
        old = st.lists.get(lst)
        st.lists[lst] = snap if old is None else tuple({k: v for k, v in a.items() if b.get(k) == v} for a, b in zip(old, snap))

    # -------------------------------------------------------------- conditions
    def split(self, st, key):
        if key in st.facts:
            return [(st.facts[key], st)]
        a, b = st.copy(), st.copy()
        a.facts[key], b.facts[key] = True, False
        return [(True, a), (False, b)]

    def test(self, e, st):
        if isinstance(e, ast.BoolOp):
            out, cur = [], [(None, st)]
            stop = isinstance(e.op, ast.Or)
            for i, v in enumerate(e.values):
                nxt = []
                for _, s in cur:
                    for t, s2 in self.test(v, s):
                        if t == stop or i == len(e.values) - 1:
                            out.append((t, s2))
                        else:
                            nxt.append((t, s2))
                cur = nxt
            return out
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not t, s) for t, s in self.test(e.operand, st)]
        if isinstance(e, ast.Constant):
            return [(bool(e.value), st)]
        if isinstance(e, ast.Call) and getattr(e.func, "id", "") == "isinstance" and len(e.args) == 2:
            p = self.path(e.args[0], st)
            ks = self.names(e.args[1])
            if p and ks:
                have = st.kinds.get(p)
                if have is not None and have <= ks:
                    return [(True, st)]
                if have is not None and not have & ks:
                    return [(False, st)]
                no = st.facts.get(("not", p), frozenset())
                if ks <= no:
                    return [(False, st)]
                a, b = st.copy(), st.copy()
                a.kinds[p] = (have & ks if have else ks) - no
                b.facts[("not", p)] = no | ks
                if have:
                    b.kinds[p] = have - ks
                return [(True, a), (False, b)]
            return [(True, st), (False, st)]
        p = self.path(e, st)
        if p:
            return self.split(st, ("truth", p))
        if isinstance(e, ast.Name):
            v = st.env.get(e.id)
            if v and v[0] == "c":
                return [(bool(v[1]), st)]
            if v and v[0] == "empty":
                return [(False, st)]
            if v and v[0] == "q":
                return self.test(v[1], st)
            if any(e.id in names for _, names in st.res) or v:
                return self.split(st, ("truth", e.id))
            return [(True, st), (False, st.copy())]
        if isinstance(e, ast.Subscript) and isinstance(e.value, ast.Name) and isinstance(e.slice, ast.Constant) and e.slice.value == 0:
            if any(e.value.id in names for _, names in st.res):
                return self.split(st, ("truth", e.value.id))
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l, r, op = e.left, e.comparators[0], e.ops[0]
            if isinstance(op, (ast.Is, ast.IsNot)) and isinstance(r, ast.Constant) and r.value is None:
                pos = isinstance(op, ast.Is)
                p = self.path(l, st)
                if p:
                    if p in st.kinds:
                        return [(not pos, st)]
                    return [(t == pos, s) for t, s in self.split(st, ("none", p))]
                if isinstance(l, ast.Name) and l.id in st.env:
                    v = st.env[l.id]
                    if v[0] == "c":
                        return [((v[1] is None) == pos, st)]
                    if v[0] == "nn":
                        return [(not pos, st)]
                return [(True, st), (False, st.copy())]
            n = self.length(l, r, op, st)
            if n is not None:
                return n
            out = []
            pos = isinstance(op, (ast.Eq, ast.In))
            neg = isinstance(op, (ast.NotEq, ast.NotIn))
            for t in (True, False):
                s = st.copy()
                if pos and t or neg and not t:
                    self.use(l, s)
                    if isinstance(op, (ast.Eq, ast.NotEq)):
                        self.use(r, s)
                elif not pos and not neg:
                    self.use(e, s)
                out.append((t, s))
            return out
        if isinstance(e, ast.Call):
            ask = self.asks(e)
            got = self.project(e, st)
            if got is not None:
                return [(v[0] != "c" or bool(v[1]), s) for v, s in got]
            out = []
            for t in (True, False):
                s = st.copy()
                if ask:
                    ps = [self.path(a, s) for a in e.args]
                    if t and len(e.args) >= 2:
                        for q in ps:
                            if q:
                                s.used[q] = True
                    elif t and ps and ps[0]:
                        alts = self.kinds_of(self.callee(e))
                        if alts:
                            for d in alts:
                                s2 = s.copy()
                                for k, v in d.items():
                                    have = s2.kinds.get(ps[0] + k)
                                    s2.kinds[ps[0] + k] = have & v if have else v
                                if all(s2.kinds[ps[0] + k] for k in d):
                                    out.append((t, s2))
                            continue
                elif getattr(e.func, "id", "") == "all":
                    if t:
                        self.use(e, s)
                elif self.callee(e) is not None:
                    if t:
                        self.use(e, s)
                        for q in [self.path(a, s) for a in e.args]:
                            if q:
                                s.used[q + ".*"] = True
                else:
                    self.use(e, s)
                out.append((t, s))
            return out
        s = st.copy()
        self.use(e, s)
        return [(True, s), (False, s.copy())]

    def length(self, l, r, op, st):
        """len(path) against a constant."""
        if not (isinstance(l, ast.Call) and getattr(l.func, "id", "") == "len" and len(l.args) == 1 and isinstance(r, ast.Constant) and isinstance(r.value, int)):
            return None
        p = self.path(l.args[0], st)
        if p is None:
            return None
        have = st.facts.get(("len", p))
        if have is not None:
            v = {ast.Eq: have == r.value, ast.NotEq: have != r.value, ast.Gt: have > r.value, ast.GtE: have >= r.value, ast.Lt: have < r.value,
                 ast.LtE: have <= r.value}.get(type(op))
            return None if v is None else [(v, st)]
        a, b = st.copy(), st.copy()
        exact = None
        if isinstance(op, (ast.Eq, ast.NotEq)):
            exact = isinstance(op, ast.Eq)
            (a if exact else b).facts[("len", p)] = r.value
        top = {ast.Gt: (b, r.value), ast.GtE: (b, r.value - 1), ast.Lt: (a, r.value - 1), ast.LtE: (a, r.value)}.get(type(op))
        if top:
            top[0].facts[("max", p)] = min(top[1], st.facts.get(("max", p), top[1]))
        return [(True, a), (False, b)]

    def names(self, e):
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "ast":
            return frozenset([e.attr])
        if isinstance(e, (ast.Tuple, ast.List)):
            xs = [self.names(x) for x in e.elts]
            return frozenset().union(*xs) if all(xs) else None
        return None

    # -------------------------------------------------------------- statements
    def block(self, stmts, sts):
        for s in stmts:
            if not sts:
                return []
            nxt = []
            for st in sts:
                nxt += self.stmt(s, st)
            sts = dedupe(nxt)
        return sts

    def stmt(self, s, st):
        if isinstance(s, ast.Return):
            self.leave(s, st)
            return []
        if isinstance(s, ast.Raise):
            return []
        if isinstance(s, (ast.Continue, ast.Break)):
            if self.loops:
                self.loops[-1].append(st)
            return []
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            return [st]
        if isinstance(s, ast.If):
            out = []
            for t, s2 in self.test(s.test, st):
                out += self.block(s.body if t else s.orelse, [s2])
            return out
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None:
                return [st]
            out = []
            got = self.project(s.value, st) if isinstance(s.value, ast.Call) else None
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            if got is not None and len(ts) == 1 and isinstance(ts[0], ast.Name):
                for v, s2 in got:
                    s2 = s2.copy()
                    self.forget(ts[0].id, s2)
                    s2.env[ts[0].id] = v
                    out.append(s2)
                return out
            for v, s2 in self.value(s.value, st):
                s2 = s2.copy()
                self.assign(s.targets if isinstance(s, ast.Assign) else [s.target], v, s2)
                out.append(s2)
            return out
        if isinstance(s, ast.AugAssign):
            st = st.copy()
            self.use(s.value, st)
            return [st]
        if isinstance(s, ast.Expr):
            st = st.copy()
            self.use(s.value, st)
            return [st]
        if isinstance(s, ast.For):
            return self.loop(s, st)
        if isinstance(s, ast.While):
            out = []
            self.loops.append([])
            for t, s2 in self.test(s.test, st):
                out += self.block(s.body, [s2]) if t else [s2]
            return out + self.loops.pop()
        if isinstance(s, ast.With):
            st = st.copy()
            for i in s.items:
                self.use(i.context_expr, st)
            return self.block(s.body, [st])
        if isinstance(s, ast.Try):
            out = self.block(s.body + s.orelse, [st])
            for h in s.handlers:
                out += self.block(h.body, [st])
            return self.block(s.finalbody, dedupe(out)) if s.finalbody else out
        if isinstance(s, ast.Assert):
            return [x for t, x in self.test(s.test, st) if t]
        if isinstance(s, ast.Delete):
            return [st]
        raise TooMany()

    def value(self, e, st):
        if isinstance(e, ast.IfExp):
            out = []
            for t, s in self.test(e.test, st):
                out += self.value(e.body if t else e.orelse, s)
            return out
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or) and isinstance(e.values[0], ast.Call) and self.callee(e.values[0]) is not None:
            rest = e.values[1] if len(e.values) == 2 else ast.BoolOp(op=e.op, values=e.values[1:])
            return [(e.values[0], st)] + self.value(rest, st.copy())
        return [(e, st)]

    def assign(self, targets, v, st):
        t = targets[0]
        if len(targets) == 1 and isinstance(t, ast.Name):
            p = self.path(v, st)
            if p and isinstance(v, (ast.Call, ast.BinOp)) and st.env.get(t.id) == ("p", p):
                return
            self.forget(t.id, st)
            if p:
                st.env[t.id] = ("p", p)
            elif isinstance(v, ast.Constant):
                st.env[t.id] = ("c", v.value)
            elif isinstance(v, ast.Name):
                w = st.env.get(v.id)
                self.load(v.id, st)
                if w:
                    st.env[t.id] = w
                elif st.facts.get(("truth", v.id)) is True or (v.id, "nn") in st.facts:
                    st.env[t.id] = ("nn",)
            elif isinstance(v, ast.Call) and self.asks(v) or isinstance(v, (ast.BoolOp, ast.Compare)) and boolish(v):
                st.env[t.id] = ("q", v)
            else:
                self.use(v, st, (t.id,))
                if isinstance(v, ast.List) and not v.elts and not any(isinstance(y, ast.Name) and y.id == t.id for n in nested(self.fn) for y in ast.walk(n)):
                    st.env[t.id] = ("empty",)
                elif isinstance(v, (ast.Tuple, ast.List, ast.JoinedStr, ast.BinOp, ast.Dict)):
                    st.env[t.id] = ("nn",)
            return
        if len(targets) == 1 and isinstance(t, (ast.Tuple, ast.List)) and all(isinstance(x, ast.Name) for x in t.elts):
            names = tuple(x.id for x in t.elts)
            src = v.id if isinstance(v, ast.Name) else None
            paths = [p for (p, ns) in st.res if src in ns] if src else []
            if isinstance(v, ast.Tuple) and len(v.elts) == len(names):
                for n, x in zip(names, v.elts):
                    self.assign([ast.Name(id=n, ctx=ast.Store())], x, st)
                return
            p = self.path(v, st)
            for n in names:
                self.forget(n, st)
            if p:
                for i, n in enumerate(names):
                    st.env[n] = ("p", "%s[%d]" % (p, i))
                st.facts[("len", p)] = len(names)
                return
            self.use(v, st, names)
            for p in paths:
                st.res[(p, names)] = True
            return
        self.use(v, st)
        for t in targets:
            for c in ast.iter_child_nodes(t):
                if isinstance(c, ast.expr) and not isinstance(t, ast.Name):
                    self.use(c, st)

    def forget(self, name, st):
        st.env.pop(name, None)
        st.facts.pop(("truth", name), None)
        st.lists.pop(name, None)

    def loop(self, s, st):
        st = st.copy()
        it = s.iter
        enum = None
        while isinstance(it, ast.Call) and getattr(it.func, "id", "") in ("enumerate", "list", "tuple", "reversed", "sorted", "iter") and it.args:
            enum = enum or it.func.id == "enumerate"
            it = it.args[0]
        var = None
        p = self.path(it, st)
        lst = it.id if isinstance(it, ast.Name) and it.id in st.lists else None
        self.use(it if p or lst else s.iter, st)
        t = s.target
        if enum and isinstance(t, ast.Tuple) and len(t.elts) == 2:
            t = t.elts[1]
        inner = st.copy()
        if isinstance(t, ast.Name) and (p or lst or t.id in self.taken or t.id in self.kept):
            var = t.id
            root = "%s@%d" % (var, s.lineno)
            for d in (inner.kinds, inner.used, inner.facts):
                for k in [k for k in d if (k[1] if isinstance(k, tuple) else k).startswith(root)]:
                    del d[k]
            inner.env[var] = ("p", root)
            if lst is not None:
                ks, us, fs = inner.lists[lst]
                inner.kinds.update({root + k: v for k, v in ks.items()})
                inner.used.update({root + k: v for k, v in us.items()})
                inner.facts.update({(k[0], root + k[1]): v for k, v in fs.items()})
        else:
            for x in ast.walk(t):
                if isinstance(x, ast.Name):
                    self.forget(x.id, inner)
        self.loops.append([])
        ends = self.block(s.body, [inner])
        ends = dedupe(ends + self.loops.pop())
        out = [st] if p or not ends or not isinstance(it, ast.Name) else []      # a list collected here is not empty
        for e in ends:
            if var:
                self.element(root, e, s)
                e = e.copy()
                for d in (e.kinds, e.used, e.facts):
                    for k in [k for k in d if (k[1] if isinstance(k, tuple) else k).startswith(root)]:
                        del d[k]
                e.env.pop(var, None)
            out.append(e)
        out = dedupe(out)
        return self.block(s.orelse, out) if s.orelse else out

    # -------------------------------------------------------------- verdicts
    def leave(self, s, st):
        v = s.value
        if self.deep is not None:
            p = self.path(v, st) if v is not None else None
            self.deep.append((("p", p) if p else ("c", None), st.copy()))
            return
        if v is None or isinstance(v, ast.Constant) and v.value in (None, False) or \
                isinstance(v, ast.Tuple) and v.elts and all(isinstance(x, ast.Constant) and x.value is None for x in v.elts):
            return
        sts = [st.copy()]
        if self.rec:
            sts = [x for t, x in self.test(v, st) if t]
        else:
            self.use(v, sts[0])
        for x in sts:
            self.exits += 1
            if self.collect is not None:
                self.collect.append(x)
            else:
                self.judge(x, s)

    def judge(self, st, s):
        for p in sorted(set(st.kinds) | self.roots):
            if "@" in p:
                continue
            self.obligation(p, st, s)

    def element(self, root, st, s):
        if root.split("@")[0] in self.taken:
            u, d = self.pairs.setdefault(s.lineno, (set(), set()))
            touched = self.whole(root, st) or any(k.startswith((root + ".", root + "[")) and ".func" not in k for k in list(st.used) + [q for q, _ in st.res] +
                                                   [f[1] for f in st.facts if isinstance(f, tuple) and f[0] != "not"])
            (u if touched else d).add(root)
        for p in sorted(k for k in st.kinds if k == root or k.startswith(root + ".")):
            self.obligation(p, st, s)
        if root not in st.kinds:
            self.obligation(root, st, s)

    def obligation(self, p, st, s):
        if ".func" in p:
            return                     # the name of a function
        if any(self.whole(q, st) for q in prefixes(p)):
            return
        parts = [k for k in list(st.used) + [q for q, _ in st.res] if k.startswith((p + ".", p + "["))]
        if not parts:
            return                     # untouched as a whole: judged where it was taken apart
        bad = self.missing(p, st)
        if bad:
            self.out.append((s.lineno, bad))

    def whole(self, p, st):
        if p in st.used or p + ".*" in st.used:
            return True
        rs = [names for (q, names) in st.res if q == p]
        live = [ns for ns in rs if not self.refused(ns, st)]
        return bool(live) and all(self.consumed(n, st) or n == "_" or st.env.get(n, ("",))[0] == "p" for ns in live for n in ns)

    def refused(self, names, st):
        n = names[0]
        return st.facts.get(("truth", n)) is False or st.env.get(n) == ("c", None) or st.facts.get(("truth", n + "[0]")) is False

    def missing(self, p, st):
        """A part of p that was not used on this path, or None."""
        if self.whole(p, st) or st.facts.get(("truth", p)) is False or st.facts.get(("none", p)) is True:
            return None
        ks = st.kinds.get(p)
        if ks is None:
            seen = {k[len(p) + 1:].split(".")[0].split("[")[0].rstrip("*") for k in list(st.used) + [q for q, _ in st.res] if k.startswith(p + ".")}
            g = {OF[x] for x in seen if x in OF}
            if len(g) == 1:
                ks = frozenset(g)
            elif not seen:
                idx = [k for k in list(st.used) + [q for q, _ in st.res] if k.startswith(p + "[")]
                n = st.facts.get(("len", p))
                if idx and n is None:
                    top = st.facts.get(("max", p))
                    if p.endswith((".args", ".elts", ".values")) and (top is None or top > len({k[len(p):].split("]")[0] for k in idx})):
                        return p
                    return None
                if n is not None:
                    for i in range(n):
                        b = self.missing("%s[%d]" % (p, i), st)
                        if b:
                            return b
                    return None
                return p
            else:
                return None
        if any(k not in FIELDS for k in ks):
            return None
        for f in sorted({f for k in ks for f in FIELDS[k]}):
            if len(ks) > 1 and not all(f in FIELDS[k] for k in ks):
                continue
            if p + "." + f + "*" in st.used:
                continue
            b = self.missing(p + "." + f, st)
            if b:
                return b
        return None


def prefixes(p):
    out = [p]
    for i in range(len(p) - 1, 0, -1):
        if p[i] in ".[":
            out.append(p[:i])
    return out


def nested(fn):
    return [s for s in fn.body if isinstance(s, ast.FunctionDef)]


PARTS = ("left", "right", "elts", "operand", "comparators", "args", "keywords")


def parted(fn):
    """Variables whose syntax kind is tested or whose parts are taken."""
    out = set()
    for x in ast.walk(fn):
        if isinstance(x, ast.Call) and getattr(x.func, "id", "") == "isinstance" and len(x.args) == 2 and "ast." in ast.unparse(x.args[1]):
            r = x.args[0]
            while isinstance(r, (ast.Attribute, ast.Subscript)):
                r = r.value
            if isinstance(r, ast.Name):
                out.add(r.id)
        if isinstance(x, ast.Attribute) and x.attr in PARTS and isinstance(x.value, ast.Name):
            out.add(x.value.id)
    return out


def roots_of(fn):
    return parted(fn) & (nonparams(fn) - {"self", "cls"})
