"""Equality of arithmetic terms as rational functions of their opaque sub-terms (polynomial identity
testing over Q on fixed pseudo-random points: exact arithmetic, no execution of the analysed code)."""
import hashlib
from fractions import Fraction as F

from . import absint as A
from .absint import last

POINTS = 3


class Opaque(Exception):
    pass


def point(t, k):
    h = hashlib.sha256(("%d|%r" % (k, t)).encode()).digest()
    return F(int.from_bytes(h[:4], "big") + 1, int.from_bytes(h[4:6], "big") + 1)


def val(t, k, norm=lambda t: t):
    t = norm(t)
    h = t[0]
    if h == "i":
        return F(t[1])
    if h == "fl":
        try:
            return F(str(t[1]))
        except ValueError:
            return F(float(t[1]))
    if h == "cast":
        ty = t[1]
        if ty == "float":
            x = t[2]
            return val(t[2], k, norm) if x[0] in ("i", "fl") or x[0] == "cast" and x[1] == "float" else point(("round", val(t[2], k, norm)), k)
        if A.is_float(ty) or A.bits(ty) == 64:
            return val(t[2], k, norm)
        return point(("trunc", ty, val(t[2], k, norm)), k)
    if h == "un" and t[1] in ("-", "+"):
        v = val(t[2], k, norm)
        return -v if t[1] == "-" else v
    if h == "bin" and t[1] in "+-*/" and len(t) >= 5:
        a, b = val(t[2], k, norm), val(t[3], k, norm)
        fl = A.is_float(t[4])
        if t[1] == "+":
            r = a + b
        elif t[1] == "-":
            r = a - b
        elif t[1] == "*":
            r = a * b
        elif fl:
            if b == 0:
                return point(("div0", a), k)
            r = a / b
        else:
            return point(("idiv", a, b), k)
        if not fl and A.bits(t[4]) < 64 and t[4] not in ("", "l"):
            return point(("wrap", t[4], r), k)
        return r
    if h == "call" and last(t[1]).lstrip("*") in ("fma", "__builtin_fma") and len(t[3]) == 3:
        a, b, c = (val(x, k, norm) for x in t[3])
        return a * b + c
    if h == "call" and last(t[1]) == "pow" and len(t[3]) == 2 and A.is_int(t[3][1]) and 0 <= t[3][1][1] < 9:
        return val(t[3][0], k, norm) ** t[3][1][1]
    return point(t, k)


def same(a, b, norm=lambda t: t):
    return all(val(a, k, norm) == val(b, k, norm) for k in range(POINTS))


def diff(a, b, norm=lambda t: t):
    return [val(a, k, norm) - val(b, k, norm) for k in range(POINTS)]


def order(st, a, b, norm=lambda t: t):
    """Relations between a and b known on the path: subset of {'<', '<=', '>', '>=', '=='}."""
    out = set()
    d = diff(a, b, norm)
    if all(x == 0 for x in d):
        return {"==", "<=", ">="}
    for key, v in st.facts.items():
        h = key[0]
        if h in ("flt", "fle"):
            x = diff(key[1], key[2], norm)
            if x == d:
                rel = ("<" if h == "flt" else "<=") if v else (">=" if h == "flt" else ">")
            elif x == [-y for y in d]:
                rel = (">" if h == "flt" else ">=") if v else ("<=" if h == "flt" else "<")
            else:
                continue
            out.add(rel)
        elif h in ("ge0", "eq0"):
            L = [sum((c * val(t, k, norm) for t, c in key[1]), F(key[2])) for k in range(POINTS)]
            for off, table in ((0, (">=", "<")), (-1, (">", "<="))):
                if h == "eq0":
                    if off == 0 and v and (L == d or L == [-y for y in d]):
                        out.add("==")
                    continue
                if L == [y + off for y in d]:
                    out.add(table[0] if v else table[1])
                if L == [-y + off for y in d]:
                    out.add({">=": "<=", "<": ">", ">": "<", "<=": ">="}[table[0] if v else table[1]])
    if out & {"<", "=="}:
        out.add("<=")
    if out & {">", "=="}:
        out.add(">=")
    return out
