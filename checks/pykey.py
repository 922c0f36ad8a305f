"""F02: what a compiled kernel depends on is part of its cache key."""
import ast

from lib import pyflow as P

FILE = "python_program.py"
R1 = "every fact of the arguments the translation reads is in the cache key"
R2 = "every resolved option of the compilation is in the cache key"
R3 = "the output folder is distinguished by everything the key and the program object distinguish"
R4 = "type strings tell types apart"
R5 = "the cache is searched and filled under the same key"
FIELDS = {"Scalar": {"primitive_type"}, "Pointer": {"pointee_type"}, "Structure": {"name"}, "Array": {"element_type", "num_elements"}}


def cname(e):
    return ast.unparse(e)


class Prov:
    """Explicit flows (and the tests choosing between values) of one class, over its methods; a frame is (method, {param: [(frame, expr)]})."""

    def __init__(self, methods):
        self.ms, self.busy, self.memo, self.cuts, self.dm = methods, set(), {}, set(), {}

    # ---- definitions of a name: [(kind, expr, node, conditions)]
    def defs(self, fn, name):
        k = (id(fn), name)
        if k not in self.dm:
            self.dm[k] = self.defs_(fn, name)
        return self.dm[k]

    def defs_(self, fn, name):
        out = []

        def go(stmts, conds, loops):
            for s in stmts:
                if isinstance(s, ast.Assign):
                    for t in s.targets:
                        self.target(out, t, s.value, name, s, conds, loops)
                elif isinstance(s, (ast.AnnAssign, ast.AugAssign)) and s.value is not None:
                    self.target(out, s.target, s.value, name, s, conds, loops)
                elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and \
                        isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == name and \
                        s.value.func.attr in ("append", "add", "extend", "update", "insert", "setdefault"):
                    for a in s.value.args:
                        out.append(("elem", a, s, conds, loops))
                elif isinstance(s, ast.If):
                    go(s.body, conds + [s.test], loops)
                    go(s.orelse, conds + [s.test], loops)
                elif isinstance(s, ast.For):
                    self.loop(out, s.target, s.iter, name, s, conds, loops + [s])
                    go(s.body, conds, loops + [s])
                    go(s.orelse, conds, loops)
                elif isinstance(s, ast.While):
                    go(s.body, conds + [s.test], loops + [s])
                elif isinstance(s, (ast.With, ast.Try)):
                    go(s.body, conds, loops)
                    for h in getattr(s, "handlers", []):
                        go(h.body, conds, loops)
        go(fn.body, [], [])
        return out

    def target(self, out, t, v, name, s, conds, loops):
        if isinstance(t, ast.Name) and t.id == name:
            out.append(("val", v, s, conds, loops))
        elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == name:
            out.append(("elem", ast.Tuple(elts=[t.slice, v]), s, conds, loops))
        elif isinstance(t, ast.Tuple):
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Name) and e.id == name:
                    out.append(("val", v.elts[i] if isinstance(v, ast.Tuple) and len(v.elts) == len(t.elts) else v, s, conds, loops))

    def loop(self, out, t, it, name, s, conds, loops):
        f = it.func.id if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) else ""
        if f == "enumerate" and isinstance(t, ast.Tuple) and len(t.elts) == 2:
            if isinstance(t.elts[0], ast.Name) and t.elts[0].id == name:
                out.append(("index", it.args[0], s, conds, loops))
                return
            self.loop(out, t.elts[1], it.args[0], name, s, conds, loops)
            return
        if f == "zip" and isinstance(t, ast.Tuple) and len(t.elts) == len(it.args):
            for e, a in zip(t.elts, it.args):
                self.loop(out, e, a, name, s, conds, loops)
            return
        if f in ("sorted", "list", "tuple", "reversed", "set") and it.args:
            self.loop(out, t, it.args[0], name, s, conds, loops)
            return
        if f == "range":
            if isinstance(t, ast.Name) and t.id == name:
                for a in it.args:
                    out.append(("index", a, s, conds, loops))
            return
        if isinstance(t, ast.Tuple):
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Name) and e.id == name:
                    out.append(("key" if i == 0 else "item", it, s, conds, loops))
            return
        if isinstance(t, ast.Name) and t.id == name:
            out.append(("item", it, s, conds, loops))

    # ---- atoms of an expression
    def of(self, fr, e, at=None, local=None):
        local = local or {}
        if e is None or isinstance(e, ast.Constant):
            return set()
        if isinstance(e, ast.Name):
            if e.id in local:
                return local[e.id]
            return self.name(fr, e.id, at if at is not None else e)
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name) and e.value.id == "self":
                return {"self." + e.attr}
            b = self.part(self.of(fr, e.value, at, local))
            if "flags" in b:
                return (b - {"flags"}) | {"flags." + e.attr.upper()}
            if b == {"arg"}:
                return {"type"} if e.attr in ("dtype", "__class__") else {e.attr}
            if b == {"self.func"} and e.attr.startswith("__"):
                return {"self.func." + e.attr}
            if b == {"self.func.__code__"}:
                return {"source" if e.attr in ("co_firstlineno", "co_code", "co_consts") else "self.func.__code__"}
            return b
        if isinstance(e, ast.Subscript):
            b = self.of(fr, e.value, at, local)
            if "flags" in b and isinstance(e.slice, ast.Constant):
                return (b - {"flags"}) | {"flags." + str(e.slice.value).upper()}
            if isinstance(e.slice, ast.Constant) or isinstance(e.slice, ast.Slice) and (e.slice.lower or e.slice.upper):
                b = self.part(b)
            i = self.part(self.classes(self.of(fr, e.slice, at, local))) if not isinstance(e.slice, ast.Slice) else set()
            return b | i
        if isinstance(e, ast.Compare):
            l = self.of(fr, e.left, at, local)
            for r in e.comparators:
                l = l | self.of(fr, r, at, local)
            op = e.ops[0]
            l = self.part(l)
            if isinstance(op, (ast.In, ast.NotIn)):
                return self.classes(l)
            k = [x for x in [e.left] + e.comparators if isinstance(x, ast.Constant)]
            if len(k) == 1 and "shape" in l:
                o = "==" if isinstance(op, (ast.Eq, ast.NotEq)) else type(op).__name__
                return (l - {"shape"}) | {"dim%s%s" % (o, k[0].value)}
            return l
        if isinstance(e, ast.Call):
            return self.call(fr, e, at, local)
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            loc, extra = dict(local), set()
            for g in e.generators:
                names = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                for n in names:
                    out = []
                    self.loop(out, g.target, g.iter, n, g, [], [])
                    loc[n] = set().union(*[self.kind("key" if k == "item" and self.isdict(fr, v) else k, self.of(fr, v, at, loc)) for k, v, *_ in out]) if out else set()
                for t in g.ifs:
                    extra |= self.of(fr, t, at, loc)
                extra |= self.classes(self.of(fr, g.iter, at, loc)) - {"arg"}
            parts = [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]
            return set().union(extra, *[self.of(fr, p, at, loc) for p in parts])
        if isinstance(e, ast.Lambda):
            return self.of(fr, e.body, at, dict(local, **{a.arg: set() for a in e.args.args}))
        out = set()
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.FormattedValue)):
                out |= self.of(fr, c, at, local)
        return out

    def isdict(self, fr, e):
        return isinstance(e, ast.Name) and any(isinstance(d[1], (ast.Dict, ast.DictComp)) or isinstance(d[1], ast.Call) and cname(d[1].func) == "dict"
                                               for d in self.defs(fr[0], e.id) if d[0] == "val")

    def part(self, s):
        """Not the whole of an object any more."""
        return {a for a in s if not a.startswith(("objk:", "objv:", "call:"))}

    def classes(self, s):
        return {("eq" if a == "shape" else a) for a in s}

    def kind(self, k, s):
        if k == "index":
            return self.part(self.classes(s) - {"arg"})
        if k == "key":
            s = {a for a in s if not a.startswith("objv:")}
        if "__dict__" in s:
            return s if k != "item" else {("member" if a == "__dict__" else a) for a in s} | {"memtype"} if k == "item" else s
        return s

    def call(self, fr, e, at, local):
        f = e.func
        args = [self.of(fr, a.value if isinstance(a, ast.Starred) else a, at, local) for a in e.args] + [self.of(fr, k.value, at, local) for k in e.keywords]
        allp = set().union(*args) if args else set()
        if isinstance(f, ast.Name):
            if f.id in ("isinstance", "type"):
                a = args[0] if args else set()
                return ((a - {"arg"}) | {"type"} if "arg" in a else a) | ({"memtype"} if "member" in a else set())
            if f.id == "len":
                return self.part({"ndim" if a == "shape" else a for a in allp} - {"arg"})
            if f.id in ("bool", "any", "all", "min", "max", "sum", "id"):
                return self.part(allp)
            if f.id in ("sorted", "list", "tuple", "set", "frozenset", "reversed", "enumerate") and e.args and self.isdict(fr, e.args[0]):
                return {a for a in allp if a != "objv:" + e.args[0].id}
            if f.id in ("hasattr", "getattr") and "arg" in args[0]:
                return args[0] - {"arg"} | ({str(P.const(e.args[1]))} if f.id == "getattr" else {"type"})
            return allp
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Name) and f.value.id == "self" and f.attr in self.ms:
                return self.method(fr, self.ms[f.attr], e, at, local)
            if isinstance(f.value, ast.Name) and f.value.id == "os" or cname(f).startswith("os.environ"):
                n = [P.const(a) for a in e.args if P.const(a)]
                return {"env:" + str(n[0])} if n else set()
            if cname(f) in ("inspect.getsourcelines", "inspect.getsource"):
                return {"source"}
            b = self.of(fr, f.value, at, local)
            if f.attr == "keys":
                return {a for a in b if not a.startswith("objv:")}
            if f.attr == "values":
                return {a for a in b if not a.startswith("objk:")}
            if f.attr in ("index", "count"):
                return self.classes(b | allp) - {"arg"}
            return b | allp
        return allp

    def method(self, fr, m, e, at, local):
        key = (m.name,)
        if key in self.busy or len(self.busy) > 12:
            return set().union(set(), *[self.of(fr, a, at, local) for a in e.args])
        self.busy.add(key)
        ps = [a.arg for a in m.args.args]
        bind = {}
        for p, a in zip(ps[1:], e.args):
            bind[p] = self.of(fr, a, at, local)
        for k in e.keywords:
            bind[k.arg] = self.of(fr, k.value, at, local)
        fr2 = (m, bind)
        out = {"call:" + m.name}

        def go(stmts, conds):
            nonlocal out
            for i, s in enumerate(stmts):
                if isinstance(s, ast.Return):
                    if s.value is not None:
                        out |= self.of(fr2, s.value)
                elif isinstance(s, ast.If):
                    if any(isinstance(x, ast.Return) for x in ast.walk(s)):
                        out |= self.part(self.of(fr2, s.test))
                    go(s.body, conds)
                    go(s.orelse, conds)
                elif isinstance(s, (ast.For, ast.While, ast.With)):
                    go(s.body, conds)
                    go(getattr(s, "orelse", []), conds)
        go(m.body, [])
        self.busy.discard(key)
        return out

    def name(self, fr, name, at):
        fn, bind = fr
        key = (fn.name, name)
        if key in self.busy:
            self.cuts.add(key)
            return set()
        pos = getattr(at, "lineno", 10 ** 9)
        mk = (id(fn), tuple(sorted((k, tuple(sorted(v))) for k, v in bind.items())), name, pos)
        if mk in self.memo:
            return set(self.memo[mk])
        saved, self.cuts = self.cuts, set()
        self.busy.add(key)
        out = set()
        ds = self.defs(fn, name)
        for k, v, s, conds, loops in ds:
            shared = any(getattr(l, "lineno", 0) <= pos <= getattr(l, "end_lineno", 0) for l in loops)
            if s.lineno > pos and not shared:
                continue
            out |= self.kind(k, self.of(fr, v, s))
            if k in ("val", "elem"):
                for c in conds:
                    out |= {a for a in self.part(self.of(fr, c, s)) if a not in ("arg",)}
        if name in bind:
            out |= bind[name]
        elif fn.name == "compile":
            out |= {"objk:" + name, "objv:" + name}
        self.busy.discard(key)
        self.cuts.discard(key)
        if not self.cuts:
            self.memo[mk] = set(out)
        self.cuts |= saved
        return out


def f02(rep):
    import os
    root = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "python/docc/python")
    pr = P.Program(root, [FILE])
    rep.files.add("python/docc/python/" + FILE)
    rep.need("PythonProgram" in pr.classes, "class PythonProgram")
    ms = pr.methods("PythonProgram")
    rep.need("compile" in ms, "PythonProgram.compile")
    rep.rule(R1, "provenance of every value and test _build_sdfg uses, traced to observations of the arguments (type, dimensions, comparison of a dimension "
                 "with a constant, contiguity, strides, members); each must reach the key expression of self.cache")
    rep.rule(R2, "every parameter of compile and environment variable that reaches a call made after the cache lookup reaches the key")
    rep.rule(R3, "the text hashed for the default output folder receives the key, and every attribute of the program object used by the compilation")
    rep.rule(R4, "each branch of the type printer uses every field of its class, with a constant text no other branch uses")
    rep.rule(R5, "lookups and stores of self.cache use one name, assigned once")
    comp = ms["compile"]
    rep.fns.add("PythonProgram.compile")
    va = comp.args.vararg.arg if comp.args.vararg else None
    bind = {va: {"arg"}} if va else {}
    for a in comp.args.args[1:] + comp.args.kwonlyargs:
        bind[a.arg] = {"opt:" + a.arg}
    fr = (comp, bind)
    pv = Prov(ms)
    keys, hit, stores = set(), None, []
    for x in ast.walk(comp):
        if isinstance(x, ast.Compare) and isinstance(x.ops[0], (ast.In, ast.NotIn)) and cname(x.comparators[0]) == "self.cache":
            keys.add(cname(x.left))
            hit = x if hit is None or x.lineno < hit.lineno else hit
        if isinstance(x, ast.Subscript) and cname(x.value) == "self.cache":
            keys.add(cname(x.slice))
            stores.append(x)
        if isinstance(x, ast.Call) and cname(x.func) in ("self.cache.get", "self.cache.setdefault") and x.args:
            keys.add(cname(x.args[0]))
            hit = x if hit is None or x.lineno < hit.lineno else hit
    if not keys or hit is None:
        rep.undecided(R5, "self.cache", "no lookup of self.cache in compile")
        return
    if len(keys) > 1:
        names = [k for k in keys]
        same = len({ast.dump(d[1]) for k in names for d in pv.defs(comp, k)}) == 1 and all(k.isidentifier() for k in names)
        if not same:
            rep.bad(R5, "self.cache", "different keys: " + ", ".join(sorted(keys)))
    else:
        rep.ok(R5, "self.cache", "key " + next(iter(keys)))
    kexpr = next((x.left for x in [hit] if isinstance(x, ast.Compare)), None) or hit.args[0]
    ka = pv.of(fr, kexpr, hit)
    # options
    used, where = set(), {}
    later = [s for s in ast.walk(comp) if isinstance(s, ast.Call) and s.lineno > hit.end_lineno]
    for c in later:
        nm = cname(c.func)
        if nm.startswith("self._build") or nm.startswith("os.path") or nm.startswith("shutil.") or nm == "print":
            continue
        for a in list(c.args) + [k.value for k in c.keywords]:
            for t in pv.of(fr, a, c):
                used.add(t)
                where.setdefault(t, "%s (line %d)" % (nm, c.lineno))
    folder_only = {"opt:output_folder", "env:DOCC_TMP", "env:USER"}
    for t in sorted(used):
        if t.startswith("opt:") and t not in folder_only or t.startswith("env:") and t not in folder_only:
            (rep.ok if t in ka else rep.bad)(R2, t, "in the key" if t in ka else "%s depends on it and the key does not" % where[t])
    # arguments
    obs = {}
    bc = [c for c in ast.walk(comp) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and cname(c.func.value) == "self" and c.func.attr in ms and
          c.lineno > hit.end_lineno]
    for c in bc:
        m = ms[c.func.attr]
        rep.fns.add("PythonProgram." + m.name)
        b2 = {}
        ps = [a.arg for a in m.args.args][1:]
        for p, a in zip(ps, c.args):
            b2[p] = pv.part(pv.of(fr, a, c))
            if isinstance(a, ast.Name):
                whole(pv, rep, fr, a, c, ka, m)
        for k in c.keywords:
            b2[k.arg] = pv.of(fr, k.value, c)
        observe(pv, (m, b2), obs)
    have = set(ka)
    if "shape" in have:
        have |= {"eq", "ndim"}
    if "eq" in have:
        have |= {"ndim"}
    for o, (m, line) in sorted(obs.items()):
        if o in ("arg", "self") or o.startswith("self.") or o.startswith("opt:") or o.startswith(("env:", "objk:", "objv:", "call:")) or o == "source":
            continue
        good = o in have or o.startswith("dim") and "shape" in have or o == "itemsize" and "type" in have or o == "member" and "__dict__" in have or \
            o == "memtype" and ("member" in have or "memtype" in have) or o == "ndim" and "strides" in have or o == "flags" and "flags.C_CONTIGUOUS" in have
        (rep.ok if good else rep.bad)(R1, TEXT.get(o, o), "in the key" if good else "%s (line %d) depends on it and the key does not" % (m, line))
    # folder
    fold = [c for c in ast.walk(comp) if isinstance(c, ast.Call) and cname(c.func).startswith("hashlib.") and c.args]
    if fold:
        ha = pv.of(fr, fold[0].args[0], fold[0]) if fold[0].args else set()
        attrs = {t for t in used if t.startswith("self.")} | {o for o in obs if o.startswith("self.")} | ({"source"} & set(obs))
        for x in ast.walk(comp):
            if isinstance(x, ast.Compare) and isinstance(x.left, ast.Attribute) and cname(x.left).startswith("self.") and "None" not in cname(x):
                attrs.add(cname(x.left))
        init = {s.attr for m in (ms.get("__init__"),) if m for s in ast.walk(m) if isinstance(s, ast.Attribute) and isinstance(s.value, ast.Name) and s.value.id == "self"}
        for a in sorted(attrs):
            if a in ("self.cache", "self.last_sdfg", "self.func.__code__", "self.func.__name__") or a[5:].startswith("_") or a[5:] in ms:
                continue
            good = a in ha or a == "self.func" and any(h.startswith("self.func") for h in ha)
            (rep.ok if good else rep.bad)(R3, a, "hashed" if good else "the compilation uses it and the folder name does not")
        objs = {a.id for c in bc for a in c.args if isinstance(a, ast.Name)}
        lost = sorted(t for t in ka if t not in ha and t != "arg" and not (t[:5] in ("objk:", "objv:") and t[5:] not in objs))
        (rep.bad if lost else rep.ok)(R3, "key", "the folder name does not distinguish " + ", ".join(TEXT.get(t, t) for t in lost) if lost else "the key is hashed")
    else:
        rep.undecided(R3, "hash", "no hashlib call in compile")
    typestr(rep, ms)


def whole(pv, rep, fr, a, c, ka, m):
    """An object worked out from the arguments and handed to the translation is in the key as a whole."""
    at = pv.of(fr, a, c)
    if not pv.part(at) & {"type", "eq", "ndim"} or "shape" in at:
        return
    calls = {x for x in at if x.startswith("call:")}
    if {"objk:" + a.id, "objv:" + a.id} <= ka or "shape" in ka and "type" not in at or calls and calls <= ka:
        rep.ok(R1, a.id, "in the key as a whole")
    else:
        rep.bad(R1, a.id, "%s is handed %s (line %d) and the key holds %s of it" % (
            m.name, a.id, c.lineno, "a part" if {"objk:" + a.id, "objv:" + a.id} & ka else "nothing"))


TEXT = {"eq": "equal dimensions", "ndim": "number of dimensions", "type": "argument types", "shape": "dimensions", "strides": "strides", "__dict__": "members",
        "memtype": "member types", "member": "members", "dim==1": "dimensions equal to 1"}


def observe(pv, fr, obs):
    """Observations used by the statements of a method: tests, and arguments of calls."""
    m = fr[0]

    def note(s, e):
        for a in pv.of(fr, e, s):
            obs.setdefault(a, (m.name, getattr(s, "lineno", 0)))

    def go(stmts):
        for s in stmts:
            if isinstance(s, ast.If):
                note(s, s.test)
                go(s.body)
                go(s.orelse)
            elif isinstance(s, ast.For):
                go(s.body)
                go(s.orelse)
            elif isinstance(s, (ast.While, ast.With, ast.Try)):
                go(s.body)
                for h in getattr(s, "handlers", []):
                    go(h.body)
            elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                for a in s.value.args:
                    note(s, a)
                for k in s.value.keywords:
                    note(s, k.value)
            elif isinstance(s, ast.Return) and s.value is not None:
                note(s, s.value)
            elif isinstance(s, ast.Assign):
                if not all(isinstance(t, ast.Name) for t in s.targets):
                    note(s, s.value)
                else:
                    for c in ast.walk(s.value):
                        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == "self" and \
                                c.func.attr in pv.ms and c.func.attr not in pv.busy:
                            note(s, c)
                        if isinstance(c, ast.IfExp):
                            note(s, c.test)
    go(m.body)


def typestr(rep, ms):
    m = ms.get("_type_to_str")
    if m is None:
        rep.undecided(R4, "_type_to_str", "not found")
        return
    rep.fns.add("PythonProgram._type_to_str")
    made = {c.func.id for f in ("_infer_type",) if f in ms for c in ast.walk(ms[f]) if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in FIELDS}
    p = m.args.args[1].arg
    texts = {}
    seen = set()

    def go(stmts, cls):
        for s in stmts:
            if isinstance(s, ast.If):
                t = s.test
                c = None
                if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and isinstance(t.args[1], ast.Name):
                    c = t.args[1].id
                go(s.body, c)
                go(s.orelse, None)
            elif isinstance(s, ast.Return) and cls in FIELDS:
                seen.add(cls)
                hidden = {id(a) for x in ast.walk(s.value) if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and
                          x.func.id in ("type", "len", "bool", "isinstance", "hash", "id") for a in x.args}
                hidden |= {id(x.value) for x in ast.walk(s.value) if isinstance(x, ast.Attribute)}
                used = {x.attr for x in ast.walk(s.value) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == p and id(x) not in hidden}
                whole = any(isinstance(x, ast.Call) and any(isinstance(a, ast.Name) and a.id == p for a in x.args) for x in ast.walk(s.value))
                text = "".join(x.value for x in ast.walk(s.value) if isinstance(x, ast.Constant) and isinstance(x.value, str))
                lost = sorted(FIELDS[cls] - used) if not whole else []
                if lost:
                    rep.bad(R4, cls, "line %d does not print %s" % (s.lineno, ", ".join(lost)))
                elif text in texts and not whole:
                    rep.bad(R4, cls, "line %d prints the same text as %s" % (s.lineno, texts[text]))
                else:
                    rep.ok(R4, cls, "every field printed")
                texts.setdefault(text, cls)
    go(m.body, None)
    for c in sorted(made - seen):
        rep.undecided(R4, c, "no branch for this class (printed by str)")


CHECKS = {"F02": f02}
