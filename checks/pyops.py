"""F03: the program the Python frontend builds for scalar operators and control flow means what Python says.

The translation methods are interpreted abstractly (lib/pyinterp.py): operands are names, so what is built for a
statement form is built for every program that contains the form. The recorded program is then evaluated over the
cells of the operands (sign, order, divisibility, truth) and compared with the language's meaning of the form."""
import ast
import itertools
import math
import os
import warnings

try:
    import numpy
    numpy.seterr(all="ignore")
except ImportError:
    numpy = None

from lib import cxx, pyinterp as P, pysem as S
from checks.instr import Acc

SRC = "python/docc/python/ast_parser.py"
INT = {"a": "Int64", "b": "Int64", "n": "Int64"}
I32 = {"i": "Int32", "j": "Int32"}
FLT = {"x": "Double", "y": "Double"}
BOOL = {"p": "Bool", "q": "Bool"}
SCAL = {**INT, **I32, **FLT, **BOOL}
IV = [-7, -6, -3, -2, -1, 0, 1, 2, 3, 6, 7]
FV = [-7.25, -6.0, -2.5, -1.0, -0.75, 0.5, 1.0, 2.5, 3.0, 7.25, 0.0]
BV = [False, True]


def vals(name):
    t = SCAL[name]
    return BV if t == "Bool" else FV if t == "Double" else IV


def method_line(repo, name):
    t = P.tree(os.path.join(repo, SRC))
    for n in ast.walk(t):
        if isinstance(n, ast.FunctionDef) and n.name == name:
            return "%s:%d %s" % (SRC, n.lineno, name)
    return "%s %s" % (SRC, name)


def settle(acc, inst, res):
    """The verdicts of the programs a form may become: one that needs a branch nothing is known about counts as wrong only if the others are."""
    fine = any(ok is True for _, ok, _ in res)
    for guess, ok, why in res:
        if ok is False and guess and fine:
            acc(inst, None, "only on a branch that is not decided: " + why)
        else:
            acc(inst, ok, why)


def names(src):
    out = []
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.Name) and n.id not in out:
            out.append(n.id)
    return out


def same(u, v):
    if u is None or v is None:
        return u is v
    if isinstance(u, float) or isinstance(v, float):
        if u != u or v != v:
            return u != u and v != v
        return abs(u - v) <= 1e-12 * max(1.0, abs(u), abs(v))
    return u == v


def python(src, env, out):
    """What the language says the statements leave in `out`; None when they raise."""
    g = {"__builtins__": {"range": range, "min": min, "max": max, "int": int, "float": float, "abs": abs, "bool": bool,
                          "len": len, "round": round, "sum": sum, "pow": pow}, "math": math}
    if numpy is not None:
        g["np"] = g["numpy"] = numpy
    d = dict(env)
    try:
        exec(compile(src, "<form>", "exec"), g, d)
    except Exception:
        return None
    r = d.get(out)
    if numpy is not None and isinstance(r, numpy.generic):
        r = r.item()
    return None if isinstance(r, complex) or isinstance(r, float) and not math.isfinite(r) else (r,)


SUMMARY = {}


def programs(src, globals_=None):
    k = (src, repr(globals_))
    if k not in SUMMARY:
        SUMMARY[k] = P.translate(src, dict(SCAL), {}, cxx.REPO, globals_=globals_)
    return SUMMARY[k]


def shown(b, depth=0):
    """The tasklets and conditions of a recorded program, for the report."""
    out = []
    for n in b:
        if n.kind == "block":
            out += [S.tag(x.code) or "?" for x in n.nodes if x.kind in ("task", "cmath")]
        elif n.kind == "if":
            out.append("if(%s){%s}{%s}" % (n.cond, shown(n.then), shown(n.els)))
        elif n.kind == "for":
            out.append("for(%s=%s; to %s; %s){%s}" % (n.var, n.start, n.end, n.step, shown(n.body)))
        elif n.kind == "while":
            out.append("while{%s}" % shown(n.body))
        elif n.kind == "set":
            out.append("%s=%s" % (n.name, n.value))
        else:
            out.append(n.name if n.kind == "op" else n.kind)
    return " ".join(x for x in out if x != "assign")


def form(acc, inst, src, cells, where, out="r", strict=True, globals_=None, truth=False):
    """One statement form: every program built for it agrees with the language on every cell of its operands."""
    cells = list(cells)
    refs = [python(src, {**(globals_ or {}), **env}, out) for env in cells]
    if not any(refs):
        return          # the language itself has no value for the form
    ps = programs(src, globals_)
    res = []
    for b, ip, err in ps:
        def note(inst, ok, why="", guess=bool(ip.taken)):
            res.append((guess, ok, why))
        if err is not None:
            note(inst, True if err[0] == "refused" else None, err[1])
            continue
        n = 0
        und = None
        for env, ref in zip(cells, refs):
            if ref is None:
                continue
            try:
                st = S.Sem(dict(b.types), env)
                st.run(b.root)
                if out not in st.v:
                    note(inst, False, "%s: `%s` leaves no value in %s" % (where, src.replace("\n", "; "), out))
                    break
                got = st.v[out]
            except S.Wrong as x:
                note(inst, False, "%s: the program built for `%s` %s" % (where, src.replace("\n", "; "), x))
                break
            except S.IllTyped as x:
                if strict:
                    note(inst, False, "%s: the program built for `%s` is rejected by the validator: %s" % (where, src.replace("\n", "; "), x))
                break
            except S.Undecided as x:
                und = str(x)
                continue
            n += 1
            want = ref[0]
            if truth:
                got, want = bool(got), bool(want)
            if not same(got, want):
                note(inst, False, "%s: `%s` is built as [%s]; for %s it gives %r, the language says %r" % (
                    where, src.replace("\n", "; "), shown(b.root)[:160],
                    ", ".join("%s = %r" % kv for kv in sorted(env.items()) if kv[0] in names(src)), got, want))
                break
        else:
            if n:
                note(inst, True)
            else:
                note(inst, None, und or "no case of the operands is decidable")
    settle(acc, inst, res)



def cells(vs, cap=None):
    vs = [v for v in vs if v in SCAL]
    for c in itertools.product(*[(vals(v) if cap is None else cap.get(v, vals(v))) for v in vs]):
        yield dict(zip(vs, c))


ARITH = ["+", "-", "*", "/", "//", "%", "**"]
BITS = ["&", "|", "^", "<<", ">>"]
CMP = ["<", "<=", ">", ">=", "==", "!="]
OPN = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "//": "floordiv", "%": "mod", "**": "pow", "&": "and",
       "|": "or", "^": "xor", "<<": "lshift", ">>": "rshift", "<": "lt", "<=": "le", ">": "gt", ">=": "ge", "==": "eq",
       "!=": "ne"}
PAIRS = [("a", "b", "int, int"), ("a", "x", "int, float"), ("x", "a", "float, int"), ("x", "y", "float, float"),
         ("i", "j", "int32, int32"), ("i", "a", "int32, int"), ("i", "x", "int32, float"), ("a", "a", "same int"),
         ("a", "3", "int, literal"), ("3", "a", "literal, int"), ("x", "2.5", "float, literal"), ("2", "x", "int literal, float"),
         ("a", "-3", "int, negative literal"), ("a", "2.5", "int, float literal"), ("-2.5", "x", "negative literal, float")]
EXP = {"**": {"b": [0, 1, 2, 3], "a": IV, "x": FV}, "<<": {"b": [0, 1, 3], "j": [0, 1, 3], "a": IV, "i": IV}, ">>": {"b": [0, 1, 3], "j": [0, 1, 3], "a": IV, "i": IV}}


def f03(rep):
    rep.files.add(SRC)
    repo = cxx.REPO
    rep.need(os.path.exists(os.path.join(repo, SRC)), SRC)

    rep.rule("R1 binary", "For every arithmetic and bitwise operator and every class of operands the frontend accepts, "
             "the tasklets it builds compute the operator of the language: floor for //, the sign of the divisor "
             "for %, an arithmetic >>, operands in order; also in augmented assignment and nested")
    acc = Acc(rep, "R1 binary")
    w = method_line(repo, "visit_BinOp")
    for op in ARITH + BITS:
        for l, r, cl in PAIRS:
            if op in BITS and ("float" in cl):
                continue
            if op in ("<<", ">>") and (cl == "same int" or "negative" in cl or cl.startswith("literal") or r == "a"):
                continue
            if op == "**" and cl in ("same int", "int, negative literal", "int, int", "int32, int32", "int32, int", "literal, int"):
                cap = {"b": [0, 1, 2, 3], "j": [0, 1, 2, 3]}
                if r == "a":
                    cap["a"] = [0, 1, 2, 3]
            else:
                cap = EXP.get(op)
            src = "r = %s %s %s" % (l, op, r)
            form(acc, "%s (%s)" % (OPN[op], cl), src, cells(names(src), cap), w)
        for l, r, cl in (("a", "b", "int"), ("x", "y", "float"), ("x", "a", "float, int")):
            if op in BITS and "float" in cl:
                continue
            src = "%s %s= %s\nr = %s" % (l, op, r, l)
            form(acc, "%s= (%s)" % (OPN[op], cl), src, cells([l, r], EXP.get(op)), method_line(repo, "visit_AugAssign"))
    small = {v: [-3, -1, 2, 3] for v in ("a", "b", "n")}
    small.update({v: [-2.5, 1.0, 3.0] for v in ("x", "y")})
    for e in ("(a - b) - n", "a - (b - n)", "(a - b) * (a + b)", "a - b * n", "(x / y) / x", "x / (y / x)", "a * x - b * y",
              "(a + b) % n", "a - b - 1", "-(a - b)", "-a % b", "(a // b) * b + a % b", "x - (y - a)", "a * 2 - 3 * b"):
        src = "r = " + e
        form(acc, "nested " + e, src, cells(names(src), small), w)
    acc.done()

    rep.rule("R2 unary", "Unary minus, plus, complement and not give the language's value on every class of operand")
    acc = Acc(rep, "R2 unary")
    w = method_line(repo, "visit_UnaryOp")
    for o, nm in (("-", "neg"), ("+", "pos"), ("~", "invert"), ("not ", "not")):
        for v, cl in (("a", "int"), ("i", "int32"), ("x", "float"), ("p", "bool")):
            if (o == "~" and v in "xp") or (o in "-+" and v == "p"):
                continue
            src = "r = %s%s" % (o, v)
            form(acc, "%s (%s)" % (nm, cl), src, cells([v]), w, strict=True)
        form(acc, "%s of a comparison" % nm if o == "not " else "%s of an expression" % nm,
             "r = %s(a < b)" % o if o == "not " else "r = %s(a + b)" % o, cells(["a", "b"]), w)
    for lit in ("-3", "-2.5", "-True", "not True", "+3", "- -3", "~3", "-0"):
        form(acc, "literal " + lit, "r = %s\nr = r" % lit, [{}], w)
        if lit == "not True":
            continue
        form(acc, "literal %s in an expression" % lit, "r = a + (%s)" % lit, cells(["a"]), w)
    acc.done()

    rep.rule("R3 comparison", "Each comparison yields the truth value of the language's operator with its operands in order")
    acc = Acc(rep, "R3 comparison")
    w = method_line(repo, "visit_Compare")
    for op in CMP:
        for l, r, cl in PAIRS + [("p", "q", "bool, bool")]:
            src = "r = %s %s %s" % (l, op, r)
            form(acc, "%s (%s)" % (OPN[op], cl), src, cells(names(src)), w)
        src = "r = a + 1 %s b - 1" % op
        form(acc, "%s of expressions" % OPN[op], src, cells(["a", "b"]), w)
    acc.done()

    rep.rule("R4 truth", "and, or and not have the truth value of the language; a branch or a loop condition is taken by it")
    acc = Acc(rep, "R4 truth")
    w = method_line(repo, "visit_BoolOp")
    for e in ("p and q", "p or q", "p and q and a < b", "p or q or a < b", "p and (q or a < b)", "p and q or a < b",
              "not (p and q)", "not p or q", "not (p or not q)", "a < b and b < n", "a < b or b < n", "a and b", "a or b",
              "a and x", "x or a", "not a and b", "a < 2 and x < 2.0"):
        src = "r = " + e
        form(acc, e, src, cells(names(src), small), w, truth=True)
        w2 = method_line(repo, "visit_If")
        src = "r = 0\nif %s:\n    r = 1\nelse:\n    r = 2" % e
        form(acc, "if " + e, src, cells(names(src), small), w2)
    for e in ("a", "x", "p", "a < b", "a + b", "not a", "not x", "not p", "a == b", "i"):
        src = "r = 0\nif %s:\n    r = 1\nelse:\n    r = 2" % e
        form(acc, "if " + e, src, cells(names(src)), method_line(repo, "visit_If"))
        src = "r = 0\nwhile %s:\n    r = r + 1\n    if r > 3:\n        break\n    a = a + 1\n    i = 0\n    x = x * 0.0\n    p = False" % e
        form(acc, "while " + e, src, cells(["a", "b", "x", "p", "i"], {"a": [-2, 0, 1], "b": [-1, 0, 2], "x": [0.0, -0.5], "p": BV, "i": [0, 2]}), method_line(repo, "visit_While"))
    acc.done()

    rep.rule("R5 control", "Branches, while loops and range loops run the statements the language runs: bounds, step and "
             "direction of the range, break and continue, nesting, re-evaluation of a while condition")
    acc = Acc(rep, "R5 control")
    wf, wi, ww = (method_line(repo, m) for m in ("visit_For", "visit_If", "visit_While"))
    rng = {"a": [-3, 0, 1, 4], "b": [-2, 0, 3, 5], "n": [-2, -1, 1, 2, 3]}
    body = ":\n    r = r * 3 + k + 7"
    for e in ("range(a)", "range(a, b)", "range(a, b, 1)", "range(a, b, 2)", "range(a, b, 3)", "range(a, b, -1)", "range(a, b, -2)",
              "range(5)", "range(2, 9, 4)", "range(9, 2, -3)", "range(a - 1, b + 1)", "range(b - 1, a, -1)", "range(-1, 3)",
              "range(3, -1, -1)", "range(0)", "range(b, b)"):
        src = "r = 1\nfor k in %s%s" % (e, body)
        form(acc, e, src, cells(names(src), rng), wf)
    for e in ("range(a, b, n)", "range(a, b, -n)"):
        src = "r = 1\nfor k in %s%s" % (e, body)
        form(acc, e + " with a positive step", src, cells(names(src), {**rng, "n": [1, 2] if e == "range(a, b, n)" else [-1, -2]}), wf)
        form(acc, e + " with a negative step", src, cells(names(src), {**rng, "n": [-1, -2] if e == "range(a, b, n)" else [1, 2]}), wf)
    T = {
        "if without else": "r = 5\nif a < b:\n    r = 6",
        "if else": "if a < b:\n    r = 1\nelse:\n    r = 2",
        "elif chain": "if a < b:\n    r = 1\nelif a == b:\n    r = 2\nelse:\n    r = 3",
        "nested if": "r = 0\nif a < b:\n    if b < n:\n        r = 1\n    else:\n        r = 2\nelse:\n    r = 3\nr = r + 10",
        "statements after a branch": "r = a\nif a < b:\n    r = b\nr = r * 2",
        "assignments in order": "r = a\nr = r + b\nr = r * 2\nr = r - a",
        "rebinding reads the old value": "r = a\nr = b - r",
        "a copy is a value": "r = a\na = a + 1\nr = r - a",
        "a copy survives the other name": "n = a\na = b\nr = n",
        "pass": "r = a\nif a < b:\n    pass\nelse:\n    r = b",
        "chained targets": "r = n = a - b\nr = r * 10 + n",
        "annotated assignment": "r: int = a - b",
    }
    L = {
        "while": "r = 0\nwhile r < a:\n    r = r + 2",
        "while with break": "r = 0\nwhile True:\n    r = r + 1\n    if r > b:\n        break",
        "while with continue": "r = 0\nn = 0\nwhile n < 6:\n    n = n + 1\n    if n % 2 == 0:\n        continue\n    r = r * 10 + n",
        "for with break": "r = 0\nfor k in range(6):\n    if k > a:\n        break\n    r = r * 10 + k + 1",
        "for with continue": "r = 0\nfor k in range(6):\n    if k == a:\n        continue\n    r = r * 10 + k + 1",
        "nested for": "r = 0\nfor k in range(a):\n    for m in range(b):\n        r = r * 2 + k - m + 1",
        "inner bound from outer": "r = 0\nfor k in range(4):\n    for m in range(k, 4):\n        r = r * 2 + k - m",
        "inner break": "r = 0\nfor k in range(4):\n    for m in range(4):\n        if m > k:\n            break\n        r = r * 2 + m + 1\n    r = r + 100",
        "inner continue": "r = 0\nfor k in range(3):\n    for m in range(3):\n        if m == k:\n            continue\n        r = r * 2 + m + 1\n    r = r + 100",
        "condition re-evaluated": "r = 0\nwhile a * a < 20:\n    a = a + 1\n    r = r + 1\n    if r > 8:\n        break",
        "loop carries a value": "r = 1\nn = 1\nfor k in range(5):\n    t = r + n\n    n = r\n    r = t",
        "two loops, one variable": "r = 0\nfor k in range(3):\n    r = r * 10 + k\nfor k in range(4, 6):\n    r = r * 10 + k",
        "variable of a loop in an expression": "r = 0\nfor k in range(a, 5):\n    r = r + k * k - b",
    }
    for nm, src in T.items():
        form(acc, nm, src, cells(["a", "b", "n"], small), wi if "if" in nm or "branch" in nm else method_line(repo, "visit_Assign"))
    for nm, src in L.items():
        form(acc, nm, src, cells(["a", "b"], {"a": [-1, 0, 2, 3], "b": [-1, 0, 1, 4]}), ww if "while" in nm else wf)
    form(acc, "loop variable after the loop", "k = 0\nr = 0\nfor k in range(a):\n    r = r + 1\nr = k", cells(["a"], {"a": [1, 3]}), wf)
    form(acc, "bound changed inside the loop", "r = 0\nfor k in range(a):\n    a = a - 1\n    r = r + 1", cells(["a"], {"a": [0, 2, 4]}), wf)
    form(acc, "variable changed inside the loop", "r = 0\nfor k in range(4):\n    r = r + k\n    k = k + 5", [{}], wf)
    acc.done()

    rep.rule("R6 binding", "Assignments bind what the language binds: tuple assignment evaluates its right side first, "
             "literals and module constants keep their value, a name that is rebound takes the value it is given")
    acc = Acc(rep, "R6 binding")
    w = method_line(repo, "visit_Assign")
    for nm, src in (("tuple of literals", "r, n = 3, 4\nr = r * 10 + n"), ("tuple of names", "r, n = a, b\nr = r * 10 + n"),
                    ("swap", "a, b = b, a\nr = a * 10 - b"), ("shift of three", "a, b, n = b, n, a\nr = a * 100 + b * 10 + n"),
                    ("tuple of expressions", "r, n = a - b, b - a\nr = r * 10 + n"),
                    ("update of a pair", "a, b = b, a + b\nr = a * 10 + b"),
                    ("float after int", "r = 0\nr = x"), ("float sum after int", "r = 0\nr = r + x"),
                    ("division of an int name", "r = a\nr = r / 2"), ("int after float", "r = 0.5\nr = a"),
                    ("True", "r = True"), ("False", "r = False"), ("comparison kept", "r = a < b\nr = r")):
        form(acc, nm, src, cells(names(src), {**small, "x": [-2.5, 0.5, 3.0]}), w)
    w = method_line(repo, "visit_Name")
    for nm, g in (("int", {"G": 5}), ("negative int", {"G": -5}), ("float", {"G": 2.5}), ("true", {"G": True}), ("false", {"G": False}),
                  ("exponent float", {"G": 1e-20}), ("large float", {"G": 1e20})):
        form(acc, "module constant %s" % nm, "r = a * 1 + G" if not isinstance(g["G"], bool) else "r = G", cells(["a"], small), w, globals_=g)
        form(acc, "module constant %s compared" % nm, "r = a < G" if not isinstance(g["G"], bool) else "r = p == G",
             cells(["a", "p"], small), w, globals_=g)
    acc.done()
    rep.rule("R7 functions", "A call of a supported scalar function computes the function of that name of the language, math or "
             "NumPy on its arguments in order, for every class of operand")
    acc = Acc(rep, "R7 functions")
    PRE = "python/docc/python/functions/"
    for f in sorted(set(dir(math)) | {"exp2", "cbrt", "fma"}):
        if f.startswith("_") or not callable(getattr(math, f, None)):
            continue
        for args in (["x"], ["x", "y"], ["a"], ["a", "x"], ["x", "a"], ["i"], ["x", "y", "x * y"], ["a + b"], ["x - y"]):
            src = "r = math.%s(%s)" % (f, ", ".join(args))
            vs = names(src)
            cap = {"x": [0.25, 0.75, 1.0, 2.5, -0.5, -7.25], "y": [0.5, 3.0, -2.5]}
            form(acc, "math.%s(%s)" % (f, ", ".join(args)), src, cells(vs, cap), PRE + "math.py", strict=False)
    for f, args in (("min", "a b"), ("max", "a b"), ("min", "x y"), ("max", "x y"), ("min", "a x"), ("max", "x a"), ("min", "i a"),
                    ("max", "a 3"), ("min", "x 2.5"), ("max", "-3 a"), ("min", "a b n"), ("max", "a b n"), ("min", "x y a"),
                    ("int", "x"), ("int", "a"), ("float", "a"), ("float", "x"), ("bool", "a"), ("bool", "x"), ("abs", "a"), ("abs", "x"),
                    ("round", "x"), ("pow", "x a"), ("int", "p"), ("float", "p"), ("len", "a"), ("int", "x / y"), ("int", "a / b")):
        al = [t for t in args.split(" ")] if "/" not in args else [args]
        src = "r = %s(%s)" % (f, ", ".join(al))
        form(acc, "%s(%s)" % (f, ", ".join(al)), src, cells(names(src), {"a": IV, "b": IV, "n": [-4, 5]}), PRE + "python.py", strict=False)
    if numpy is not None:
        U = ["abs", "absolute", "sqrt", "exp", "tanh", "sin", "cos", "log", "negative", "square", "sign", "floor", "ceil"]
        B = ["add", "subtract", "multiply", "divide", "power", "minimum", "maximum", "mod", "floor_divide", "arctan2", "hypot"]
        for f in U:
            for v in ("x", "a", "x - y"):
                src = "r = np.%s(%s)" % (f, v)
                form(acc, "np.%s(%s)" % (f, v), src, cells(names(src), {"x": [0.25, 2.5, -0.5, 3.0], "y": [0.5, 3.0]}), PRE + "numpy.py", strict=False)
        for f in B:
            for u, v in (("x", "y"), ("x", "a"), ("a", "x"), ("x", "2.5"), ("2.5", "x"), ("a", "b")):
                src = "r = np.%s(%s, %s)" % (f, u, v)
                form(acc, "np.%s(%s, %s)" % (f, u, v), src, cells(names(src), {"b": [1, 2, 3]} if f == "power" else None), PRE + "numpy.py", strict=False)
        for e in ("np.clip(x, -1.0, 2.0)", "np.where(x < y, x, y)", "np.where(a < b, 1.0, 2.0)"):
            form(acc, e, "r = " + e, cells(names(e)), PRE + "numpy.py", strict=False)
    acc.done()
    rep.count("forms", len(SUMMARY))
    rep.count("programs", sum(len(v) for v in SUMMARY.values()))
    rep.assume.append("tasklets, math functions, conditions and loops mean what G04 establishes for their printed text")


CHECKS = {"F03": f03}
