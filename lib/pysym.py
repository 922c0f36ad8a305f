"""How the symbolic library of the compiler prints an index expression it was given as text: sums and products of names,
calls and integers are put into one normal form (a sum of products with rational coefficients)."""
import ast
import re
from fractions import Fraction


class NoForm(Exception):
    pass


def key(mono):
    return (len(mono), mono)


def show_num(c):
    return str(c.numerator) if c.denominator == 1 else "%d/%d" % (c.numerator, c.denominator)


def show_term(mono, c):
    t = "*".join(a if n == 1 else "%s**%d" % (a, n) for a, n in mono)
    if not mono:
        return show_num(c)
    if c == 1:
        return t
    if c == -1:
        return "-" + t
    return ("(%s)" % show_num(c) if c.denominator != 1 else show_num(c)) + "*" + t


def show(p):
    if not p:
        return "0"
    out = ""
    for m in sorted(p, key=lambda m: (len(m) > 0, m)):
        t = show_term(m, p[m])
        out = t if not out else out + (" - " + t[1:] if t.startswith("-") else " + " + t)
    return out


def add(p, q, f=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + f * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def mono(*ms):
    d = {}
    for m in ms:
        for a, n in m:
            d[a] = d.get(a, 0) + n
    return tuple(sorted((a, n) for a, n in d.items() if n))


def mul(p, q):
    if len(p) == 1 and () in p or len(q) == 1 and () in q or len(p) == 1 and len(q) == 1:
        r = {}
        for m, c in p.items():
            for n, d in q.items():
                r = add(r, {mono(m, n): c * d})
        return r
    if not p or not q:
        return {}

    def factor(x):
        if len(x) == 1:
            (m, c), = x.items()
            return m, c
        return (("(%s)" % show(x), 1),), Fraction(1)
    (m, c), (n, d) = factor(p), factor(q)
    return {mono(m, n): c * d}



def form(e):
    if isinstance(e, ast.Constant) and type(e.value) is int:
        return {(): Fraction(e.value)} if e.value else {}
    if isinstance(e, ast.Name):
        return {((e.id, 1),): Fraction(1)}
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        return mul({(): Fraction(-1)}, form(e.operand))
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.UAdd):
        return form(e.operand)
    if isinstance(e, ast.BinOp):
        p, q = form(e.left), form(e.right)
        if isinstance(e.op, ast.Add):
            return add(p, q)
        if isinstance(e.op, ast.Sub):
            return add(p, q, -1)
        if isinstance(e.op, ast.Mult):
            return mul(p, q)
        if isinstance(e.op, ast.Div) and len(q) == 1 and () in q:
            return mul(p, {(): 1 / q[()]})
        raise NoForm()
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and not e.keywords:
        return {(("%s(%s)" % (e.func.id, ", ".join(show(form(x)) for x in e.args)), 1),): Fraction(1)}
    raise NoForm()


def canon(s):
    if not isinstance(s, str):
        return str(s)
    if re.fullmatch(r"\w+", s):
        return s
    try:
        return show(form(ast.parse(s.strip(), mode="eval").body))
    except (SyntaxError, NoForm, RecursionError):
        return s
