"""Normal form of Python syntax trees: the ways of writing the same thing that refactorings switch between are undone before the
dataflow analyses look at a function. Every rewriting keeps the meaning of the program and the line numbers of what it keeps."""
import ast
import copy


def names(node, t, ctx):
    return sum(isinstance(x, ast.Name) and x.id == t and isinstance(x.ctx, ctx) for x in ast.walk(node))


def local_only(fn, t):
    """t is an ordinary local name of fn, not shared with a nested function."""
    for x in ast.walk(fn):
        if isinstance(x, (ast.Global, ast.Nonlocal)) and t in x.names:
            return False
        if x is not fn and isinstance(x, (ast.FunctionDef, ast.Lambda)) and names(x, t, (ast.Load, ast.Store)):
            return False
    return True


def ends(b):
    return bool(b) and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


def push(b, r):
    """The statements of b followed by return r, with the return in the branches that assign it last; None if it would not help."""
    if ends(b):
        return b
    if not b:
        return None
    s = b[-1]
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == r.id:
        return b[:-1] + [ast.copy_location(ast.Return(s.value), s)]
    if isinstance(s, ast.If):
        x, y = push(s.body, r), push(s.orelse, r)
        if x is None and y is None:
            return None
        ret = [ast.copy_location(ast.Return(copy.deepcopy(r)), s)]
        n = ast.If(s.test, x if x is not None else s.body + ret, y if y is not None else s.orelse + copy.deepcopy(ret))
        return b[:-1] + [ast.copy_location(n, s)]
    return None


class Norm(ast.NodeTransformer):
    def visit_FunctionDef(self, fn):
        self.generic_visit(fn)
        if not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn)):
            self.fn = fn
            self.count = {}
            for x in ast.walk(fn):
                if isinstance(x, ast.Name):
                    self.count.setdefault(x.id, [0, 0])[isinstance(x.ctx, ast.Load)] += 1
            args = {a.arg for a in ast.walk(fn.args) if isinstance(a, ast.arg)}
            self.once = {t for t, c in self.count.items() if c == [1, 1] and t not in args and local_only(fn, t)}
            fn.body = self.conditions(fn.body)
            fn.body = self.returns(fn.body)
        return fn

    def conditions(self, b):
        """t = c; if t: becomes if c: where nothing else reads t."""
        out = []
        for s in b:
            for f in ("body", "orelse", "finalbody"):
                if isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)) and getattr(s, f, None):
                    setattr(s, f, self.conditions(getattr(s, f)))
            for h in getattr(s, "handlers", []):
                h.body = self.conditions(h.body)
            p = out[-1] if out else None
            if isinstance(s, ast.If) and isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and p.targets[0].id in self.once:
                t = p.targets[0].id
                n, f = s, "test"
                while True:
                    x = getattr(n, f) if f != "values" else n.values[0]
                    if isinstance(x, ast.Name) and x.id == t:
                        if f == "values":
                            n.values[0] = p.value
                        else:
                            setattr(n, f, p.value)
                        out.pop()
                        break
                    if isinstance(x, ast.UnaryOp):
                        n, f = x, "operand"
                    elif isinstance(x, ast.BoolOp):
                        n, f = x, "values"
                    elif isinstance(x, ast.Compare):
                        n, f = x, "left"
                    else:
                        break
            out.append(s)
        return out

    def returns(self, b):
        """t = e; return t and if c: t = e else: t = g; return t become returns of e and g."""
        out = []
        for s in b:
            for f in ("body", "orelse", "finalbody"):
                if isinstance(s, (ast.If, ast.For, ast.While, ast.With, ast.Try)) and getattr(s, f, None):
                    setattr(s, f, self.returns(getattr(s, f)))
            for h in getattr(s, "handlers", []):
                h.body = self.returns(h.body)
            if isinstance(s, ast.Return) and isinstance(s.value, ast.Name) and out and local_only(self.fn, s.value.id):
                n = push(out, s.value)
                if n is not None:
                    out = n
                    continue
            out.append(s)
        return out

    def visit_Call(self, n):
        """"..{}..".format(a, b) is f"..{a}..{b}..\""""
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == "format" and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str) and not n.keywords \
                and not any(isinstance(a, ast.Starred) for a in n.args):
            import string
            out, k = [], 0
            try:
                for lit, field, spec, conv in string.Formatter().parse(f.value.value):
                    if lit:
                        out.append(ast.Constant(lit))
                    if field is None:
                        continue
                    if spec or conv or not (field == "" or field.isdigit()):
                        return n
                    i = k if field == "" else int(field)
                    k += 1
                    out.append(ast.FormattedValue(n.args[i], -1, None))
            except (ValueError, IndexError):
                return n
            return ast.copy_location(ast.JoinedStr(out), n)
        return n


def normal(tree):
    tree = Norm().visit(tree)
    return ast.fix_missing_locations(tree)
