"""F: the Python frontend."""
import ast
import glob
import os

from lib import pyflow as P
from lib import pyparts as Q

DIR = "python/docc/python"
PARSER = "ASTParser"
IGNORED = {"ctx", "type_comment", "kind", "type_ignores", "simple", "annotation", "type_params"}


def grammar():
    """{class: [(field, multiplicity)]} of the statements and expressions of Python."""
    out = {}
    for base in (ast.stmt, ast.expr):
        for c in base.__subclasses__():
            d = (c.__doc__ or "").replace("\n", " ")
            fields = []
            if "(" in d:
                for part in d[d.index("(") + 1:d.rindex(")")].split(","):
                    if part.strip():
                        t, n = part.split()
                        fields.append((n, "*" if t.endswith("*") else "?" if t.endswith("?") else ""))
            out[c.__name__] = fields
    return out


def program(rep):
    root = os.path.join(os.environ.get("VERIF_REPO", "/repo"), DIR)
    files = ["ast_parser.py", "ast_utils.py", "memory.py"] + sorted("functions/" + os.path.basename(x) for x in glob.glob(root + "/functions/*.py"))
    pr = P.Program(root, files)
    for f in files:
        rep.files.add(DIR + "/" + f)
    rep.need(PARSER in pr.classes, "class ASTParser of " + DIR)
    return pr


R1 = "every kind of syntax is handled or refused"
R2 = "no part of a statement or expression is ignored"
R3 = "no keyword argument is ignored"
R4 = "no step of a slice is ignored"
R5 = "no element of a list is skipped"
R6 = "no argument is ignored because of its form"
R7 = "a pattern that matches an expression uses all of it"


def f01(rep):
    pr = program(rep)
    rep.rule(R1, "for every statement and expression class of Python's grammar the parser has a visit method, or its fallback raises on every path")
    rep.rule(R2, "on every normal exit of a visit method, followed into the handlers it hands the node to, each field of the node has been read "
                 "(lists beyond a constant index, or tested to be empty)")
    rep.rule(R3, "every handler of a call refuses keywords other than the ones it uses (tested element by element, or collected and rejected)")
    rep.rule(R4, "code that uses the bounds of a slice node also reads its step")
    rep.rule(R5, "a loop over the elements of a tuple or argument list that uses some elements uses or refuses every one on each path")
    rep.rule(R6, "the value of an accepted keyword or argument that is used in one form (a constant, a tuple) is used or refused in every other form")
    rep.rule(R7, "on every path on which a handler of a whole assignment accepts it (returns other than False or None), each part of the nodes "
                 "it took apart was used or compared; the same for its helpers")
    gm = grammar()
    ms = {}
    for c in [PARSER] + [b.id for b in pr.classes[PARSER][1].bases if isinstance(b, ast.Name)]:
        for k, m in pr.methods(c).items():
            ms.setdefault(k, m)
    fb = ms.get("generic_visit")
    refuses = False
    if fb is not None:
        mu = P.Must(pr)
        ex = mu.run(PARSER, fb, fb.args.args[1].arg)
        refuses = not ex
        if ex and kinds_only(fb) is not None:
            refuses = None
    ops = {}
    for base in (ast.operator, ast.unaryop, ast.cmpop, ast.boolop):
        for c in base.__subclasses__():
            ops[c.__name__] = base.__name__
    if "visit" in ms:
        rep.undecided(R1, "dispatch", "the parser replaces NodeVisitor.visit")
        return
    skip = {"Index", "ExtSlice", "Slice", "Num", "Str", "Bytes", "NameConstant", "Ellipsis", "Constant", "FormattedValue", "Interpolation"}
    for k in sorted(set(gm) | set(ops)):
        if k in skip and "visit_" + k not in ms:
            continue
        if "visit_" + k in ms or refuses or (refuses is None and k not in (kinds_only(fb) or ())):
            rep.ok(R1, k, "visit_" + k if "visit_" + k in ms else "generic_visit raises")
        else:
            rep.bad(R1, k, "%s/ast_parser.py: no visit_%s, and the fallback %s" % (DIR, k, "visits the children and drops the node itself" if fb is None else
                    "generic_visit (line %d) can return normally" % fb.lineno))
    roots = [(k, PARSER, ms["visit_" + k], ms["visit_" + k].args.args[1].arg, k, False) for k in sorted(gm) if "visit_" + k in ms]
    roots += direct_calls(pr, ms)
    for k, c, m, param, kind, failing in roots:
        if k in NO_EFFECT:
            continue
        rep.fns.add("%s.%s" % (c, m.name))
        mu = P.Must(pr, kind=kind, failing=failing)
        ex = mu.run(c, m, param)
        if not ex:
            rep.ok(R2, k, "never returns normally")
        for tr, toks in sorted(ex.items()):
            lab = "%s%s" % (k, " (" + tr + ")" if tr else "")
            for fld, mult in gm[kind]:
                if fld in IGNORED or (fld == "func" and failing) or (kind, fld) == ("AnnAssign", "target"):
                    continue
                inst = "%s: %s" % (lab, fld)
                if P.covered(toks, fld, mult == "*") or (kind, fld) == ("Compare", "comparators") and P.covered(toks, "ops", True):
                    rep.ok(R2, inst, "read on every path")
                else:
                    rep.bad(R2, inst, "%s.%s%s returns without reading %s of the field %s" % (
                        c, m.name, " via " + tr if tr else "", "every element" if fld + ":part" in toks else "anything", fld))
            if kind == "Call" and P.covered(toks, "keywords", True):
                keywords(rep, pr, lab, toks, mu.seen.get(tr, []))
    for cls in sorted(pr.classes):
        for m in pr.methods(cls).values():
            slices(rep, cls, m)
            forms(rep, cls, m)
            cut(rep, cls, m)
            loops(rep, cls, m)
    patterns(rep, pr)


def claims(pr):
    """Handlers that may accept a whole statement: if self.x.handle(target, value): return."""
    out = {}
    for m in pr.methods(PARSER).values():
        for x in ast.walk(m):
            if not isinstance(x, ast.If) or not x.body or not isinstance(x.body[-1], ast.Return):
                continue
            for t in ([x.test] if not isinstance(x.test, ast.BoolOp) else x.test.values):
                if isinstance(t, ast.Call) and isinstance(t.func, ast.Attribute) and len(t.args) >= 2:
                    for tr, c, fn in pr.targets(PARSER, t.func):
                        out[(c, fn.name)] = (c, fn)
    return [out[k] for k in sorted(out)]


def patterns(rep, pr):
    done = set()
    for c, fn in claims(pr):
        todo = [(fn, {})]
        while todo:
            f, scope = todo.pop()
            if id(f) in done:
                continue
            done.add(id(f))
            sc = dict(scope)
            sc.update({n.name: n for n in Q.nested(f)})
            todo += [(n, sc) for n in Q.nested(f)]
            for x in ast.walk(f):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id == "self":
                    k = pr.method(c, x.func.attr)
                    if k is not None:
                        todo.append((k, {}))
            ask = Q.predicate(f)
            roots = Q.roots_of(f)
            if f is fn and f.args.args:
                roots = roots | {f.args.args[-1].arg}
            if not roots or ask and len(f.args.args) < 3:
                continue
            rep.fns.add("%s.%s" % (c, f.name))
            inst = "%s.%s" % (c, f.name) if f.name in pr.methods(c) else "%s.%s.%s" % (c, fn.name, f.name)
            q = Q.Parts(pr, c)
            try:
                bad = q.run(f, sc, roots, rec=ask)
            except Q.TooMany:
                rep.undecided(R7, inst, "too many paths or an unknown statement")
                continue
            for line, part in sorted(set(bad)):
                rep.bad(R7, inst + ": " + part, "%s (line %d) accepts the expression without using %s" % (inst, line, part))
            if not bad:
                rep.ok(R7, inst, "every part is used at each of the %d accepting exits" % q.exits)


NO_EFFECT = ("Import", "ImportFrom", "Pass", "Global", "Nonlocal")


def direct_calls(pr, ms):
    """Handlers that are given a whole value expression before it is visited, as self.x.handle_...(target, node.value)."""
    out = {}
    m = ms.get("visit_Assign")
    for x in ast.walk(m) if m else ():
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
            pos = [i for i, a in enumerate(x.args) if isinstance(a, ast.Attribute) and a.attr == "value"]
            ts = pr.targets(PARSER, x.func)
            if len(ts) == 1 and len(pos) == 1 and len(x.args) == 2:
                _, c, fn = ts[0]
                ps = [a.arg for a in fn.args.args][1:]
                tested = any(isinstance(y, ast.Attribute) and y.attr in ("args", "keywords") and isinstance(y.value, ast.Name) and y.value.id == ps[pos[0]]
                             for y in ast.walk(fn))
                if tested:
                    out[fn.name] = ("assignment from " + fn.name, c, fn, ps[pos[0]], "Call", True)
    return sorted(out.values(), key=lambda t: t[0])


def keywords(rep, pr, lab, toks, fns):
    inst = lab
    if "*" in toks:
        rep.ok(R3, inst, "handed on as a whole")
        return
    oks = [t[3:] for t in toks if t.startswith("kw:")]
    if oks:
        names = set.intersection(*[set(filter(None, t.split(","))) for t in oks])
        used = set()
        for fn in fns:
            for x in ast.walk(fn):
                if isinstance(x, ast.Compare) or isinstance(x, ast.Subscript):
                    used |= {y.value for y in ast.walk(x) if isinstance(y, ast.Constant) and isinstance(y.value, str)}
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("get", "pop"):
                    used |= {P.const(a) for a in x.args}
        left = sorted(n for n in names if n not in used)
        if left:
            rep.bad(R3, inst, "the keyword %s is accepted and never used" % ", ".join(left))
        else:
            rep.ok(R3, inst, "only %s accepted" % (", ".join(sorted(names)) or "none"))
        return
    if "kw?use" in toks:
        rep.ok(R3, inst, "every keyword is used")
    elif any(t.startswith("kw?drop") for t in toks):
        rep.bad(R3, inst, "a keyword with another name is skipped")
    elif any(t.startswith("kw?") for t in toks):
        rep.undecided(R3, inst, "the loop over the keywords is not recognised")
    elif any(dict_only(fn) for fn in fns):
        rep.bad(R3, inst, "keywords are collected and only those asked for are used")
    elif any("keywords:whole" in toks for _ in (0,)) and not any(mentions(fn) for fn in fns):
        rep.ok(R3, inst, "tested to be empty")
    else:
        rep.undecided(R3, inst, "use of the keywords is not recognised")


def mentions(fn):
    return any(isinstance(x, (ast.For, ast.comprehension)) and any(isinstance(y, ast.Attribute) and y.attr == "keywords" for y in ast.walk(x.iter)) for x in ast.walk(fn))


def dict_only(fn):
    """A dict of the keywords that is only asked for constant names."""
    for a in ast.walk(fn):
        if isinstance(a, ast.Assign) and isinstance(a.value, ast.DictComp) and isinstance(a.targets[0], ast.Name) and \
                any(isinstance(y, ast.Attribute) and y.attr == "keywords" for y in ast.walk(a.value)):
            v, good = a.targets[0].id, 0
            total = sum(isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load) for x in ast.walk(fn))
            for x in ast.walk(fn):
                if isinstance(x, ast.Compare) and isinstance(x.left, ast.Constant) and isinstance(x.comparators[0], ast.Name) and x.comparators[0].id == v:
                    good += 1
                if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == v and isinstance(x.slice, ast.Constant):
                    good += 1
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("get", "pop") and isinstance(x.func.value, ast.Name) and x.func.value.id == v:
                    good += 1
            return good == total
    return False


def slices(rep, cls, m):
    """Where a value is known to be a slice and its bounds are used, its step is looked at too."""
    for x in ast.walk(m):
        if not isinstance(x, ast.If):
            continue
        t = slice_test(x.test)
        if t is None:
            continue
        got = {y.attr for s in x.body for y in ast.walk(s) if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == t}
        if not got & {"lower", "upper"}:
            continue
        whole = {y.attr for y in ast.walk(m) if isinstance(y, ast.Attribute) and isinstance(y.value, ast.Name) and y.value.id == t}
        passed = any(isinstance(y, ast.Call) and any(isinstance(a, ast.Name) and a.id == t for a in y.args) and
                     not (isinstance(y.func, ast.Name) and y.func.id in P.BENIGN) for s in x.body for y in ast.walk(s))
        rep.fns.add("%s.%s" % (cls, m.name))
        inst = "%s.%s: %s" % (cls, m.name, t)
        if "step" in whole or passed:
            rep.ok(R4, inst, "the step is read")
        else:
            rep.bad(R4, inst, "%s.%s (line %d) uses the bounds of a slice and never its step" % (cls, m.name, x.lineno))


def slice_test(e):
    if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And):
        for v in e.values:
            t = slice_test(v)
            if t:
                return t
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "isinstance" and len(e.args) == 2 and \
            isinstance(e.args[0], ast.Name) and isinstance(e.args[1], ast.Attribute) and e.args[1].attr == "Slice":
        return e.args[0].id
    return None


def loops(rep, cls, m):
    """A loop over the elements of a syntax list that uses some of them uses or refuses all of them."""
    alias = {}
    for a in ast.walk(m):
        if isinstance(a, ast.Assign) and isinstance(a.targets[0], ast.Name) and isinstance(a.value, ast.Attribute) and a.value.attr in ("elts", "args"):
            alias[a.targets[0].id] = a.value.attr
    for x in ast.walk(m):
        if not isinstance(x, ast.For):
            continue
        it, tg = x.iter, x.target
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "enumerate" and len(it.args) == 1 and \
                isinstance(tg, ast.Tuple) and len(tg.elts) == 2:
            it, tg = it.args[0], tg.elts[1]
        lst = it.attr if isinstance(it, ast.Attribute) else alias.get(it.id) if isinstance(it, ast.Name) else None
        if lst not in ("elts", "args") or not isinstance(tg, ast.Name):
            continue
        r = paths(x.body, tg.id)
        inst = "%s.%s: loop over %s" % (cls, m.name, ast.unparse(it))
        if "use" not in r or r <= {"use", "raise"}:
            if "use" in r:
                rep.ok(R5, inst, "every element is used or refused")
            continue
        if None in r:
            rep.undecided(R5, inst, "not recognised")
        else:
            rep.bad(R5, inst, "%s.%s (line %d) skips elements of other kinds" % (cls, m.name, x.lineno))


def forms(rep, cls, m):
    """An argument that is used when it has one form is used or refused in every form."""
    todo = []
    for x in ast.walk(m):
        if isinstance(x, ast.For) and isinstance(x.target, ast.Name) and any(isinstance(y, ast.Attribute) and y.attr == "keywords" for y in ast.walk(x.iter)) | \
                (isinstance(x.iter, ast.Name) and x.iter.id == "keywords"):
            for y in ast.walk(x):
                if isinstance(y, ast.If):
                    names = set()
                    for c in ast.walk(y.test):
                        if isinstance(c, ast.Compare) and P.is_arg(c.left, x.target.id) and isinstance(c.ops[0], (ast.Eq, ast.In)):
                            names |= {str(k.value) for k in ast.walk(c.comparators[0]) if isinstance(k, ast.Constant)}
                    if names:
                        t = y.test
                        body = y.body
                        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And):
                            rest = [v for v in t.values if not (isinstance(v, ast.Compare) and P.is_arg(v.left, x.target.id))]
                            if rest:
                                body = [ast.If(test=rest[0] if len(rest) == 1 else ast.BoolOp(op=ast.And(), values=rest), body=y.body, orelse=y.orelse)]
                        todo.append((",".join(sorted(names)), x.target.id, body, y.lineno))
        for blk in ("body", "orelse"):
            b = getattr(x, blk, None)
            for i, s in enumerate(b if isinstance(b, list) else ()):
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Subscript) and \
                        isinstance(s.value.slice, ast.Constant) and (isinstance(s.value.value, ast.Attribute) and s.value.value.attr == "args" or
                                                                     isinstance(s.value.value, ast.Name) and s.value.value.id == "args"):
                    todo.append((s.targets[0].id, s.targets[0].id, b[i + 1:], s.lineno))
    seen = {}
    for what, var, body, line in todo:
        r = paths(body, var)
        inst = "%s.%s: %s" % (cls, m.name, what)
        if "use" not in r:
            continue
        bad = "drop" in r
        if inst not in seen or bad:
            seen[inst] = (bad, line)
    for inst, (bad, line) in sorted(seen.items()):
        rep.fns.add("%s.%s" % (cls, m.name))
        if bad:
            rep.bad(R6, inst, "%s.%s (line %d) uses it in some forms and ignores it in the others" % (cls, m.name, line))
        else:
            rep.ok(R6, inst, "used or refused in every form")


LISTS = ("elts", "args", "body", "orelse", "values", "targets", "keywords", "finalbody", "handlers")


def cut(rep, cls, m):
    """A syntax list is never shortened."""
    al = set()
    for a in ast.walk(m):
        if isinstance(a, ast.Assign) and isinstance(a.targets[0], ast.Name):
            v = a.value.body if isinstance(a.value, ast.IfExp) else a.value
            if isinstance(v, ast.Attribute) and v.attr in LISTS and isinstance(v.value, (ast.Name, ast.Attribute)):
                al.add(a.targets[0].id)
    for x in ast.walk(m):
        if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and isinstance(x.slice, ast.Slice) and x.slice.upper is not None and (
                isinstance(x.value, ast.Attribute) and x.value.attr in LISTS or isinstance(x.value, ast.Name) and x.value.id in al):
            src = ast.unparse(x.value)
            rest = any(isinstance(y, ast.Subscript) and y is not x and ast.unparse(y.value) == src and
                       (y.slice.upper is None if isinstance(y.slice, ast.Slice) else not isinstance(y.slice, ast.Name)) for y in ast.walk(m))
            inst = "%s.%s: %s" % (cls, m.name, ast.unparse(x))
            if rest:
                rep.undecided(R5, inst, "another part of the list is taken too")
            else:
                rep.bad(R5, inst, "%s.%s (line %d) drops the end of a list of syntax nodes" % (cls, m.name, x.lineno))


def paths(body, var):
    """Outcomes of a loop body for its element: use, raise, drop."""
    def uses(n):
        for y in ast.walk(n):
            if isinstance(y, ast.Call):
                f = y.func.id if isinstance(y.func, ast.Name) else y.func.attr if isinstance(y.func, ast.Attribute) else ""
                if f in P.BENIGN:
                    continue
                if any(isinstance(a, (ast.Name, ast.Attribute, ast.UnaryOp)) and root(a) == var for a in y.args):
                    return True
            if isinstance(y, (ast.Assign, ast.AugAssign, ast.FormattedValue)) and root(y.value) == var:
                return True
            if isinstance(y, ast.comprehension) and root(y.iter) == var:
                return True
        return False

    def looked(t):
        """Test of a part of the element: x.lower, x.lower is not None."""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t = t.operand
        if isinstance(t, ast.BoolOp):
            return any(looked(v) for v in t.values)
        if isinstance(t, ast.Compare):
            t = t.left
        return isinstance(t, ast.Attribute) and root(t) == var and t.attr in ("lower", "upper", "step")

    def root(a):
        while isinstance(a, (ast.Attribute, ast.UnaryOp, ast.Subscript)):
            a = a.operand if isinstance(a, ast.UnaryOp) else a.value
        return a.id if isinstance(a, ast.Name) else None

    def go(stmts, used):
        if not stmts:
            return {"use" if used else "drop"}
        s, rest = stmts[0], list(stmts[1:])
        if isinstance(s, ast.Raise):
            return {"raise"}
        if isinstance(s, ast.Return):
            return {"use" if used or s.value is not None and uses(s) else "raise"}
        if isinstance(s, ast.Break):
            return {"use" if used else "raise"}
        if isinstance(s, ast.Continue):
            return {"use" if used else "drop"}
        if isinstance(s, ast.If):
            u = used or uses(s.test) or looked(s.test)
            return go(s.body + rest, u) | go(s.orelse + rest, u)
        if isinstance(s, ast.Try):
            return go(s.body + s.orelse + rest, used) | set().union(*[go(h.body + rest, used) for h in s.handlers])
        if isinstance(s, (ast.For, ast.While)):
            return go(rest, used or any(uses(b) for b in ast.walk(s) if isinstance(b, ast.stmt)))
        return go(rest, used or uses(s))
    return go(list(body), False)


def kinds_only(fb):
    """Classes a fallback accepts silently: `if isinstance(node, (...)): return` before raising."""
    return None


CHECKS = {"F01": f01}
