"""H01: helper operations of the runtime header that generated code relies on."""
from checks.instr import Acc
from lib import absint as A, cxx, rules as R
from lib.absint import I, show

TU = cxx.VERIF + "/tus/rtl_helpers.cpp"
HDR = "rtl/include/daisy_rtl/daisy_rtl.h"


def P(n, i):
    return ("p", n, i)


def B(op, a, b):
    return ("bin", op, a, b, "int")


def run(rep, fx, name, rule):
    f = [f for f in fx.fns.values() if f["n"] == name]
    rep.need(f, name)
    e = R.JEngine(fx)
    try:
        out = e.run(f[0])
    except A.Undecided as x:
        rep.undecided(rule, name, str(x))
        return []
    rep.fns |= e.funcs
    rep.count("paths", len(out))
    return out


def h01(rep):
    r1 = "helper macros are single operands of the operation they name"
    r2 = "__daisy_sym_pow computes the power"
    rep.rule(r1, "uses of each macro with operands and contexts of other precedence are parsed against the current header; the resolved "
                 "value must be the named operation of the whole operands, inside the context")
    rep.rule(r2, "every loop iteration preserves result * base^exponent (monomial exponents compared for all exponents), entry and exit "
                 "match it, and no intermediate product is formed that the result does not contain")
    rep.files.add(HDR)
    fx = cxx.load([TU])
    rep.need(any(True for _ in fx.fns), HDR)
    acc, a2 = Acc(rep, r1), Acc(rep, r2)
    a, b, c, d = P("a", 0), P("b", 1), P("c", 2), P("d", 3)
    a1, b2, c4 = B("|", a, I(1)), B("|", b, I(2)), B("|", c, I(4))
    from lib import ratio
    for kind, st, v in run(rep, fx, "w_fma", r1):
        want = B("*", d, B("+", B("*", a1, b2), c4))
        try:
            ok = all(ratio.val(v, k) == ratio.val(want, k) for k in range(ratio.POINTS))
        except ratio.Opaque:
            ok = None
        acc("__daisy_fma", kind == "return" and ok, "2 | operands in the context d * fma(..) give %s" % show(v))
    for name, w, least in (("__daisy_min", "w_min", True), ("__daisy_max", "w_max", False)):
        for kind, st, v in run(rep, fx, w, r1):
            d2 = P("d", 2)
            x, y = B("*", d2, a1), B("*", d2, b2)
            if kind != "return" or v not in (x, y):
                acc(name, False, "operands in the context d * %s(..) give %s" % (name[8:], show(v) if v else kind))
                continue
            le = st.truth(("bin", "<=", a1, b2, "bool"))
            ge = st.truth(("bin", ">=", a1, b2, "bool"))
            good = (le if (v == x) == least else ge)
            if good is None:
                good = None if any(k[0] not in ("ge0", "eq0") for k in st.facts) else False
            acc(name, good, "chooses %s when %s" % ("the first operand" if v == x else "the second operand", "it is " + ("larger" if least else "smaller")))
    power(rep, fx, a2, r2)
    acc.done(["__daisy_fma", "__daisy_min", "__daisy_max"])
    a2.done(["iteration", "zero exponent"])


def factors(t):
    """Multiset of factors of a product, casts between int widths kept opaque."""
    if t[0] == "bin" and t[1] == "*":
        return factors(t[2]) + factors(t[3])
    return [] if t == I(1) else [t]


def degree(t, x):
    """t = rest * x^n: (rest factors, n)"""
    fs = factors(t)
    return [f for f in fs if f != x], sum(f == x for f in fs)


NARROW = ("int", "unsigned int", "short", "char", "unsigned short", "signed char", "unsigned char")


def truth(st, op, a, b):
    for t in ("int", "long", "long long", "unsigned int", "unsigned long", "unsigned long long"):
        y = st.truth(("bin", op, a, b, "bool" if op in ("==", "<", "<=", ">") else t))
        if y is not None:
            return y
    return None


def power(rep, fx, acc, rule):
    for kind, st, v in run(rep, fx, "w_pow", rule):
        base, ex = P("a", 0), P("b", 1)
        if kind != "return":
            acc("every exponent returns", False, "a path ends in a %s" % kind)
            continue
        zero, neg = st.truth(("bin", "==", ex, I(0), "bool")), st.truth(("bin", "<", ex, I(0), "bool"))
        if neg is True:
            ok = v == I(0) or (None if any(t and t[0] in ("call", "phi", "ld", "loop") for t in A.subterms(v)) else False)
            acc("negative exponent", ok, "a negative exponent gives %s" % show(v))
            continue
        if zero is True:
            acc("zero exponent", v == I(1), "x^0 gives %s" % show(v))
            continue
        order = [x for x in st.events() if x[0] == "store"]
        narrow = [t for x in [v] + [x[2] for x in order] for t in A.subterms(x)
                  if t[0] == "cast" and t[1] in NARROW and not A.is_int(t[2]) or t[0] == "bin" and t[1] == "*" and t[4] in NARROW]
        if narrow:
            acc("iteration", False, "%s is computed in 32 bits" % show(narrow[0]))
            continue
        if not order:
            acc("iteration", None, "no loop was recognised")
            continue
        iteration(acc, st, v, base, ex, order)


def iteration(acc, st, v, base, ex, order):
    """Splits the stores into iterations (the first, and a generic later one) and checks each."""
    gen = [x for x in order if A.mentions(x[2], lambda t: t[0] == "phi")]
    its = [x for x in ([x for x in order if x not in gen], gen) if x]
    evar = [x[1] for x in order if x[2][0] == "bin" and x[2][1] in (">>", "/") or x[2][0] == "bin" and x[2][1] == "-" and x[2][3] == I(1)]
    if not evar:
        return acc("iteration", None, "no exponent update was recognised")
    evar = evar[0]
    for it in its:
        new = {x[1]: x[2] for x in it}
        if evar not in new:
            return acc("iteration", None, "an iteration keeps the exponent")
        t = new[evar]
        X = t[2]
        halved = t[1] == ">>" and t[3] == I(1) or t[1] == "/" and t[3] == I(2)
        dec = t[1] == "-" and t[3] == I(1)
        if not halved and not dec:
            return acc("iteration", False, "the exponent becomes %s" % show(t))
        bit = None
        if halved:
            tr = [truth(st, "&", X, I(1)), truth(st, "%", X, I(2))]
            tr += [truth(st, "==", ("bin", o, X, I(k), t), I(1)) for o, k in (("&", 1), ("%", 2)) for t in ("int", "long", "long long")]
            tr = [y for y in tr if y is not None]
            if not tr:
                odd = [k for k in st.facts if A.mentions(k, lambda t: t[0] == "bin" and t[1] in ("&", "%") and t[2] == X and A.is_int(t[3]))]
                return acc("iteration", False if odd else None, "the lowest bit of the exponent is not tested")
            bit = int(tr[0])
        # the base: squared variable, or the factor of the result
        prods = {l: y for l, y in new.items() if l != evar}
        sq = [(l, y) for l, y in prods.items() if len(factors(y)) == 2 and factors(y)[0] == factors(y)[1]]
        last_it = st.truth(B("==", t, I(0))) is True or st.truth(t) is False
        if it is its[-1]:
            more = st.truth(t) is True or truth(st, "==", t, I(0)) is False
            if truth(st, "<", t, I(0)) is True or truth(st, "<=", t, I(0)) is True or truth(st, ">", t, I(0)) is False:
                more = None         # a negative exponent cannot appear here
            acc("all bits used", True if last_it else False if more else None, "the loop ends while bits of the exponent are left")
        if dec:
            if len(prods) != 1:
                return acc("iteration", None, "unrecognised update")
            (l, y), = prods.items()
            acc("iteration", len(factors(y)) in (1, 2) and None, "linear form")
            continue
        res = [(l, y) for l, y in prods.items() if (l, y) not in sq]
        if len(sq) > 1 and its.index(it) == 0:
            return acc("iteration", None, "ambiguous roles")
        if last_it and sq:
            acc("intermediates", False, "the base is squared once more after the last bit of the exponent: the product overflows although the result fits")
        elif last_it:
            acc("intermediates", True)
        if not sq and not last_it:
            return acc("iteration", False, "the base is not squared between two bits of the exponent")
        Pt = factors(sq[0][1])[0] if sq else None
        if res:
            (l, y) = res[0]
            fs = factors(y)
            if bit == 0:
                acc("iteration", False, "the result is multiplied although the bit of the exponent is clear")
            elif Pt is not None:
                rest, n = degree(y, Pt)
                acc("iteration", n == 1 and len(rest) <= 1, "the result becomes %s" % show(y))
            else:
                acc("iteration", 1 <= len(fs) <= 2 and (fs[-1] == base or fs[-1][0] == "phi" or fs[0] == base), "the result becomes %s" % show(y))
        else:
            acc("iteration", bit == 0, "a set bit of the exponent does not multiply the result")
    acc("first factor", True)
    # value returned: the last value of the result variable
    fs = factors(v)
    if any(f[0] not in ("phi", "p") for f in fs) or ex in fs:
        acc("result", None if any(f[0] not in ("phi", "p", "i") for f in fs) else False, "returns %s" % show(v))
    else:
        acc("result", True)


CHECKS = {"H01": h01}
