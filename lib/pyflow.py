"""Syntax-directed must-analysis of Python classes: which parts of a syntax node every normal exit of a
function has looked at.  Works on the parsed source only."""
import ast
import os
from . import pynorm

BENIGN = {"isinstance", "hasattr", "type", "print", "repr", "id", "get_debug_info", "dump", "copy_location",
          "fix_missing_locations", "format", "getattr"}


class Program:
    def __init__(self, root, files):
        self.root, self.funcs, self.classes, self.src = root, {}, {}, {}
        for f in files:
            p = os.path.join(root, f)
            tree = pynorm.normal(ast.parse(open(p).read(), f))
            self.src[f] = tree
            for n in tree.body:
                if isinstance(n, ast.ClassDef):
                    self.classes[n.name] = (f, n)
                elif isinstance(n, ast.FunctionDef):
                    self.funcs[n.name] = (f, n)
        self.attrs = {}
        for c, (f, n) in self.classes.items():
            for m in n.body:
                if isinstance(m, ast.FunctionDef) and m.name == "__init__":
                    for s in ast.walk(m):
                        if isinstance(s, ast.Assign) and len(s.targets) == 1 and self_attr(s.targets[0]):
                            self.attrs.setdefault(c, {})[self_attr(s.targets[0])] = s.value

    def method(self, cls, name):
        if cls not in self.classes:
            return None
        for m in self.classes[cls][1].body:
            if isinstance(m, ast.FunctionDef) and m.name == name:
                return m
        for b in self.classes[cls][1].bases:
            if isinstance(b, ast.Name):
                m = self.method(b.id, name)
                if m is not None:
                    return m
        return None

    def methods(self, cls):
        return {m.name: m for m in self.classes[cls][1].body if isinstance(m, ast.FunctionDef)} if cls in self.classes else {}

    def file(self, cls):
        return self.classes[cls][0]

    def class_of(self, cls, expr):
        """Class of an expression such as self.numpy_visitor or self._ev, or None."""
        if isinstance(expr, ast.Name) and expr.id == "self":
            return cls
        if isinstance(expr, ast.Attribute):
            c = self.class_of(cls, expr.value)
            if c is None:
                return None
            v = self.attrs.get(c, {}).get(expr.attr)
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in self.classes:
                return v.func.id
            if isinstance(v, ast.IfExp):
                for x in (v.body, v.orelse):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in self.classes:
                        return x.func.id
            if isinstance(v, ast.Name):
                return self.param_class(c, v.id)
        return None

    def param_class(self, cls, param):
        """Class of a constructor parameter, from the places that construct cls with self."""
        init = self.method(cls, "__init__")
        names = [a.arg for a in init.args.args[1:]] if init else []
        if param not in names:
            return None
        i, found = names.index(param), set()
        for c, (f, n) in self.classes.items():
            for x in ast.walk(n):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == cls:
                    a = x.args[i] if i < len(x.args) else next((k.value for k in x.keywords if k.arg == param), None)
                    if isinstance(a, ast.Name) and a.id == "self":
                        found.add(c)
        return found.pop() if len(found) == 1 else None

    def targets(self, cls, func, env=None):
        """(class, method) pairs a call may reach with the names of a dispatch table, or [] when unknown."""
        if isinstance(func, ast.Attribute):
            c = self.class_of(cls, func.value)
            if c is not None and self.method(c, func.attr) is not None:
                return [("", c, self.method(c, func.attr))]
            return []
        if isinstance(func, ast.Name) and env and func.id in env:
            return self.targets(cls, env[func.id])
        if isinstance(func, ast.Subscript) or (isinstance(func, ast.Call) and isinstance(func.func, ast.Attribute) and func.func.attr == "get"):
            base = func.value if isinstance(func, ast.Subscript) else func.func.value
            d = self.table(cls, base)
            out = []
            for k, v in d or []:
                t = self.targets(v[0], v[1])
                out += [(k, c, m) for _, c, m in t]
            return out
        return []

    def table(self, cls, base):
        """[(key, (class, value expression))] of a literal dispatch table of a class."""
        if isinstance(base, ast.Subscript):
            out = []
            for k, (c, v) in self.table(cls, base.value) or []:
                if isinstance(v, ast.Dict):
                    out += [(k + "." + str(const(a)), (c, b)) for a, b in zip(v.keys, v.values)]
            return out
        if isinstance(base, ast.Attribute):
            c = self.class_of(cls, base.value)
            v = self.attrs.get(c, {}).get(base.attr) if c else None
            if v is None and c:
                for s in self.classes[c][1].body:
                    if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and s.targets[0].id == base.attr:
                        v = s.value
            if isinstance(v, ast.Dict):
                return [(str(const(a)), (c, b)) for a, b in zip(v.keys, v.values)]
        return None


def const(e):
    return e.value if isinstance(e, ast.Constant) else None


def self_attr(e):
    return e.attr if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == "self" else None


def join(a, b):
    out = dict(a)
    for k, v in b.items():
        o = out.get(k)
        out[k] = v if o is None or "*" in o and "*" not in v else o if "*" in v and "*" not in o else v & o
    return out


ELEMS = 6      # elements of a list told apart


def kwtok(names):
    return "kw:" + ",".join(sorted(map(str, names)))


def elem_test(t, var, consts):
    """Value of a test for an element of the keywords whose name differs from every name in the source, and the names compared."""
    if isinstance(t, ast.BoolOp):
        xs = [elem_test(v, var, consts) for v in t.values]
        names = set().union(*[n for _, n in xs])
        vs = [v for v, _ in xs]
        if isinstance(t.op, ast.And):
            return (False if False in vs else None if None in vs else True), names
        return (True if True in vs else None if None in vs else False), names
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        v, n = elem_test(t.operand, var, consts)
        return (None if v is None else not v), n
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        l, r = t.left, t.comparators[0]
        if not is_arg(l, var):
            l, r = r, l
        if is_arg(l, var):
            c = consts(r)
            if c is not None and isinstance(t.ops[0], (ast.Eq, ast.In)):
                return False, c
            if c is not None and isinstance(t.ops[0], (ast.NotEq, ast.NotIn)):
                return True, c
    return None, set()


def is_arg(e, var):
    return isinstance(e, ast.Attribute) and e.attr == "arg" and isinstance(e.value, ast.Name) and e.value.id == var


def unknown_element(body, var, consts):
    """What a loop body does with an unknown keyword: ("raise" | "drop" | "use" | None, names compared)."""
    names, used, res = set(), [False], []

    def uses(n):
        return any(isinstance(x, ast.Name) and x.id == var for x in ast.walk(n))

    def go(stmts, k):
        if not stmts:
            return k()
        s, rest = stmts[0], stmts[1:]
        nxt = lambda: go(rest, k)
        if isinstance(s, ast.If):
            v, n = elem_test(s.test, var, consts)
            names.update(n)
            out = []
            if v is not False:
                out.append(go(s.body + rest, k))
            if v is not True:
                out.append(go(s.orelse + rest, k))
            else:
                pass
            for b in (s.body,) if v is False else ():
                pass
            return merge(out)
        if isinstance(s, ast.Raise):
            return "raise"
        if isinstance(s, (ast.Continue, ast.Break, ast.Return)):
            return "use" if isinstance(s, ast.Return) and s.value is not None and uses(s.value) else "drop"
        if uses(s):
            return "use"
        return nxt()

    def merge(o):
        return o[0] if len(set(o)) == 1 else None if not o or "use" in o else "drop" if "drop" in o else None
    return go(list(body), lambda: "drop"), names


class Must:
    """Tokens every normal exit has seen, per trail of dispatch choices.
    Tokens: "f:whole", "f:part" for a field f of the tracked node, "*" for all of it."""

    def __init__(self, prog, benign=BENIGN, follow=6, kind=None, failing=False):
        self.prog, self.benign, self.follow, self.stack, self.notes = prog, benign, follow, [], []
        self.kind = kind            # class of the tracked node, for isinstance tests
        self.failing = failing      # returning False, None or a tuple of None means "not handled"
        self.seen = {}              # trail -> functions it went through

    def run(self, cls, fn, param, trail="", start=frozenset(), bind=None, failing=False):
        """exits: {trail: tokens} over all normal exits, {} when none."""
        key = (cls, fn.name, param)
        if key in self.stack or len(self.stack) > self.follow:
            return {trail: start | {"*"}}
        self.stack.append(key)
        saved = self.__dict__.get("frame")
        self.frame = dict(cls=cls, node={param}, alias={}, env={}, exits={}, loop=[], fn=fn, bind=bind or {}, trail=trail, failing=failing)
        self.seen.setdefault(trail, []).append(fn)
        for s in ast.walk(fn):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                v, t = s.value, s.targets[0].id
                n = sum(isinstance(x, ast.Name) and x.id == t and isinstance(x.ctx, ast.Store) for x in ast.walk(fn))
                if n == 1:
                    if isinstance(v, ast.Name) and v.id == param:
                        self.frame["node"].add(t)
                    elif isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id in self.frame["node"]:
                        self.frame["alias"][t] = v.attr
                    else:
                        self.frame["env"][t] = v
        out = self.block(fn.body, {trail: start})
        ex = join(self.frame["exits"], out)
        self.frame = saved
        self.stack.pop()
        return ex

    # statements
    def block(self, stmts, S):
        for s in stmts:
            if not S:
                return S
            S = self.stmt(s, S)
        return S

    def stmt(self, s, S):
        f = self.frame
        if isinstance(s, ast.Return):
            if (self.failing and len(self.stack) == 1 or f["failing"]) and (s.value is None or isinstance(s.value, ast.Constant) and not s.value.value):
                return {}
            S = self.expr(s.value, S) if s.value else S
            f["exits"] = join(f["exits"], S)
            return {}
        if isinstance(s, ast.Raise):
            return {}
        if isinstance(s, ast.If):
            T, F = self.cond(s.test, S)
            return join(self.block(s.body, T), self.block(s.orelse, F))
        if isinstance(s, (ast.For, ast.AsyncFor)):
            S = self.expr(s.iter, S)
            if self.field(s.iter) == "keywords" and isinstance(s.target, ast.Name):
                r, names = unknown_element(s.body, s.target.id, self.consts)
                S = self.add(S, kwtok(names) if r == "raise" else "kw?use" if r == "use" else "kw?%s%d" % (r or "", s.lineno))
            f["loop"].append(({}, {}))
            B = self.block(s.body, S)
            br, co = f["loop"].pop()
            end = join(S, join(B, co[0] if co else {}))
            return join(self.block(s.orelse, end), br[0] if br else {})
        if isinstance(s, ast.While):
            T, F = self.cond(s.test, S)
            f["loop"].append(({}, {}))
            B = self.block(s.body, T)
            br, co = f["loop"].pop()
            always = isinstance(s.test, ast.Constant) and s.test.value
            end = {} if always else join(F, B)
            return join(self.block(s.orelse, end), br[0] if br else {})
        if isinstance(s, (ast.Break, ast.Continue)):
            if f["loop"]:
                d = f["loop"][-1][0 if isinstance(s, ast.Break) else 1]
                d[0] = join(d.get(0, {}), S)
            return {}
        if isinstance(s, ast.Try):
            B = self.block(s.orelse, self.block(s.body, S))
            for h in s.handlers:
                B = join(B, self.block(h.body, S))
            return self.block(s.finalbody, B)
        if isinstance(s, ast.With):
            for i in s.items:
                S = self.expr(i.context_expr, S)
            return self.block(s.body, S)
        if isinstance(s, ast.Assert):
            T, _ = self.cond(s.test, S)
            return T
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
                (s.targets[0].id in f["alias"] or s.targets[0].id in f["node"]):
            return self.add(S, s.value.attr + ":part") if isinstance(s.value, ast.Attribute) else S
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            return S
        if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
                refused(f["fn"], s.targets[0].id):
            return self.call(s.value, S, True)
        for e in ast.iter_child_nodes(s):
            if isinstance(e, ast.expr):
                S = self.expr(e, S)
        return S

    def cond(self, e, S):
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And):
                F = {}
                for v in e.values:
                    S, f = self.cond(v, S)
                    F = join(F, f)
                return S, F
            T = {}
            for v in e.values:
                t, S = self.cond(v, S)
                T = join(T, t)
            return T, S
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            a, b = self.cond(e.operand, S)
            return b, a
        if isinstance(e, ast.Call) and not self.field(e) and isinstance(e.func, ast.Attribute):
            return self.call(e, S, True), self.expr(e, S)
        fld = self.field(e)
        if fld:                                  # truth test of a field
            S2 = self.add(S, fld + ":part")
            return S2, self.add(S2, fld + ":whole")      # false: nothing in it
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and self.field(e.left) and const(e.comparators[0]) is None and \
                isinstance(e.comparators[0], ast.Constant) and isinstance(e.ops[0], (ast.Is, ast.IsNot)):
            S2 = self.add(S, self.field(e.left) + ":part")
            W = self.add(S2, self.field(e.left) + ":whole")
            return (W, S2) if isinstance(e.ops[0], ast.Is) else (S2, W)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            r = self.bound(e)
            if r:
                fld, t, fl = r
                S2 = self.add(self.expr(e.comparators[0], S), fld + ":part")
                return self.limit(S2, fld, t), self.limit(S2, fld, fl)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "isinstance" and len(e.args) == 2 and \
                isinstance(e.args[0], ast.Name) and e.args[0].id in self.frame["node"] and self.kind:
            ks = [k.attr for k in ([e.args[1]] if not isinstance(e.args[1], ast.Tuple) else e.args[1].elts) if isinstance(k, ast.Attribute)]
            return (S, self.add(S, "*")) if self.kind in ks else (self.add(S, "*"), S)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("any", "all") and len(e.args) == 1 and \
                isinstance(e.args[0], ast.GeneratorExp) and len(e.args[0].generators) == 1:
            g = e.args[0].generators[0]
            if self.field(g.iter) == "keywords" and not g.ifs and isinstance(g.target, ast.Name):
                v, names = elem_test(e.args[0].elt, g.target.id, self.consts)
                S = self.expr(e, S)
                if e.func.id == "any" and v is True:
                    return S, self.add(S, kwtok(names))
                if e.func.id == "all" and v is False:
                    return self.add(S, kwtok(names)), S
                return S, S
        c = self.frame["env"].get(e.id) if isinstance(e, ast.Name) else None
        if isinstance(c, (ast.ListComp, ast.SetComp)) and len(c.generators) == 1 and self.field(c.generators[0].iter) == "keywords" \
                and isinstance(c.generators[0].target, ast.Name):
            g, ok, names = c.generators[0], True, set()
            for t in g.ifs:
                v, n = elem_test(t, g.target.id, self.consts)
                ok, names = ok and v is True, names | n
            return S, (self.add(S, kwtok(names)) if ok else S)
        S = self.expr(e, S)
        if isinstance(e, ast.Constant):
            return (S, {}) if e.value else ({}, S)
        return S, S

    def rebind(self, e):
        c = self.consts(e)
        return None if c is None else ast.Tuple(elts=[ast.Constant(value=x) for x in sorted(map(str, c))]) if not isinstance(e, ast.Constant) else e

    def consts(self, e):
        """Constant strings of an expression (a tuple, list or set of them, a parameter bound to one), or None."""
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            x = [const(i) for i in e.elts]
            return None if None in x else set(x)
        if isinstance(e, ast.Constant):
            return {e.value}
        if isinstance(e, ast.Name):
            f = self.frame
            return self.consts(f["bind"][e.id]) if e.id in f["bind"] else self.consts(f["env"][e.id]) if e.id in f["env"] else None
        return None

    def bound(self, e):
        """(field, most elements it has in the true branch, and in the false one; None unbounded, -1 unknown) for len(field) OP n."""
        ops = {ast.Gt: "gt", ast.GtE: "ge", ast.Lt: "lt", ast.LtE: "le", ast.Eq: "eq", ast.NotEq: "ne"}
        l, r, op = e.left, e.comparators[0], ops.get(type(e.ops[0]))

        def ln(x):
            if isinstance(x, ast.Name) and x.id in self.frame["env"]:
                x = self.frame["env"][x.id]
            return self.field(x.args[0]) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "len" and len(x.args) == 1 else None
        if op is None:
            return None
        fld = ln(l)
        if not fld:
            fld, r = ln(r), l
            op = {"gt": "lt", "lt": "gt", "ge": "le", "le": "ge"}.get(op, op)
        if not fld:
            return None
        c = self.consts(r)
        n = next(iter(c)) if c is not None and len(c) == 1 else None
        n = n if isinstance(n, int) and not isinstance(n, bool) else None
        less = -1 if n is None else max(n - 1, 0)
        same = -1 if n is None else max(n, 0)
        return (fld,) + {"gt": (None, same), "ge": (None, less), "lt": (less, None), "le": (same, None), "eq": (same, None), "ne": (None, same)}[op]

    def limit(self, S, fld, n):
        """At most n elements are in the field: there is nothing to read beyond."""
        if n is None:
            return S
        if n < 0:
            return self.add(S, fld + ":whole")
        for i in range(min(n, ELEMS), ELEMS + 1):
            S = self.add(S, "%s:#%d" % (fld, i))
        return self.done(S, fld)

    def done(self, S, fld):
        full = {"%s:#%d" % (fld, i) for i in range(ELEMS + 1)}
        return {k: v | {fld + ":whole"} if full <= v else v for k, v in S.items()}

    def field(self, e):
        """Field of the tracked node an expression denotes, or None."""
        f = self.frame
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id in f["node"]:
            return e.attr
        if isinstance(e, ast.Name) and e.id in f["alias"] and isinstance(e.ctx, ast.Load):
            return f["alias"][e.id]
        return None

    def add(self, S, tok):
        if tok.endswith(":whole"):
            more = {tok} | {"%s:#%d" % (tok[:-6], i) for i in range(ELEMS + 1)}
            return {k: v | more for k, v in S.items()}
        return {k: v | {tok} for k, v in S.items()}

    def expr(self, e, S):
        if e is None or not S:
            return S
        f = self.frame
        if isinstance(e, ast.BoolOp):
            a, b = self.cond(e, S)
            return join(a, b)
        if isinstance(e, ast.IfExp):
            T, F = self.cond(e.test, S)
            return join(self.expr(e.body, T), self.expr(e.orelse, F))
        if isinstance(e, ast.Subscript) and self.field(e.value):
            if not isinstance(e.slice, ast.Slice) and (isinstance(const(e.slice), int) or isinstance(e.slice, ast.UnaryOp)):
                i = const(e.slice)
                S = self.add(S, "%s:#%d" % (self.field(e.value), i)) if isinstance(i, int) and 0 <= i < ELEMS else S
                return self.done(self.add(S, self.field(e.value) + ":part"), self.field(e.value))
            if isinstance(e.slice, ast.Slice) and e.slice.upper is not None:
                return self.add(S, self.field(e.value) + ":part")
        fld = self.field(e)
        if fld:
            return self.add(self.add(S, fld + ":part"), fld + ":whole")
        if isinstance(e, ast.Call):
            return self.call(e, S)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for i, g in enumerate(e.generators):
                S = self.expr(g.iter, S)
            return S
        if isinstance(e, ast.Lambda):
            return S
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                S = self.expr(c, S)
        return S

    def call(self, e, S, failing=False):
        f = self.frame
        name = e.func.attr if isinstance(e.func, ast.Attribute) else e.func.id if isinstance(e.func, ast.Name) else ""
        if name == "len" and len(e.args) == 1 and self.field(e.args[0]):
            return self.add(S, self.field(e.args[0]) + ":part")
        if name == "isinstance" and e.args and self.field(e.args[0]):
            return self.add(S, self.field(e.args[0]) + ":part")
        S = self.expr(e.func.value, S) if isinstance(e.func, ast.Attribute) and not self.field(e.func) else S
        me = [i for i, a in enumerate(e.args) if isinstance(a, ast.Name) and a.id in f["node"]]
        mk = [k.arg for k in e.keywords if isinstance(k.value, ast.Name) and k.value.id in f["node"]]
        for i, a in enumerate(e.args):
            if i not in me:
                S = self.expr(a, S)
        for k in e.keywords:
            if k.arg not in mk:
                S = self.expr(k.value, S)
        if not me and not mk:
            return S
        if name == "getattr" and len(e.args) > 1 and me == [0] and const(e.args[1]):
            return self.add(self.add(S, const(e.args[1]) + ":part"), const(e.args[1]) + ":whole")
        ts = self.prog.targets(f["cls"], e.func, f["env"])
        if name.startswith("visit") and ts and len(ts) == 1 and name in ("visit", "generic_visit"):
            return self.add(S, "*")
        if not ts and isinstance(e.func, ast.Name) and e.func.id in self.prog.funcs and name not in self.benign:
            ts = [("", None, self.prog.funcs[e.func.id][1])]
        if not ts:
            return S if name in self.benign else self.add(S, "*")
        out = {}
        for key, c, m in ts:
            params = [a.arg for a in m.args.args]
            if c is not None and params and params[0] == "self":
                params = params[1:]
            p = params[me[0]] if me and me[0] < len(params) else mk[0] if mk else None
            if p is None:
                out = join(out, self.add(S, "*"))
                continue
            for tr, toks in S.items():
                t2 = tr
                if key or len(ts) > 1:
                    t2 = (tr + " > " if tr else "") + key
                elif m.name.startswith("_handle") or m.name.startswith("handle"):
                    t2 = (tr + " > " if tr else "") + m.name
                b = dict(zip(params[::-1], m.args.defaults[::-1]))
                b.update({x: a for x, a in zip(params, e.args)})
                b.update({k.arg: k.value for k in e.keywords})
                b = {x: self.rebind(a) for x, a in b.items()}
                self.seen.setdefault(t2, []).extend(x for x in self.seen.get(tr, []) if t2 != tr)
                out = join(out, self.run(c, m, p, t2, toks, {x: a for x, a in b.items() if a is not None}, failing))
        return out


def refused(fn, name):
    """The function raises when the value called name is false."""
    n = sum(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in ast.walk(fn))
    return n == 1 and any(isinstance(x, ast.If) and isinstance(x.test, ast.UnaryOp) and isinstance(x.test.op, ast.Not) and
                          isinstance(x.test.operand, ast.Name) and x.test.operand.id == name and x.body and isinstance(x.body[-1], ast.Raise)
                          for x in ast.walk(fn))


def covered(tokens, field, many):
    return "*" in tokens or field + ":whole" in tokens or not many and field + ":part" in tokens
