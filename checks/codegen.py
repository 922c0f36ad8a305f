"""G04: the text that the code generators emit for a tasklet, a math function, a symbolic function or a type
computes what the tasklet code, the function or the type is named after.

Every generator function is interpreted abstractly for every enumerator; the text it builds (literals and
operand names) is parsed, brought to a normal form for every case of the operands (smaller, equal, larger,
NaN) and compared with the meaning of the enumerator's name."""
import itertools
import os
import re

from lib import absint as A, cxx
from lib.absint import I, last, show
from checks import serial as SR
from checks.instr import Acc

LE = "sdfg/src/codegen/language_extensions/"
HW = "opt/src/targets/highway/codegen/highway_map_dispatcher.cpp"
CM = "sdfg/src/data_flow/library_nodes/math/cmath/cmath_node.cpp"
SP = "sdfg/src/passes/symbolic/symbol_promotion.cpp"
SRC = [LE + "c_language_extension.cpp", LE + "cpp_language_extension.cpp", LE + "cuda_language_extension.cpp", HW, CM, SP]
TC, CF, PT = "sdfg::data_flow::TaskletCode", "sdfg::math::cmath::CMathFunction", "sdfg::types::PrimitiveType"


def facts(rep):
    have = [s for s in SRC if os.path.exists(os.path.join(cxx.REPO, s))]
    fx = cxx.load([os.path.join(cxx.REPO, s) for s in have])
    rep.files |= set(have)
    for e in (TC, CF, PT):
        rep.need(e in fx.enums, "enumeration " + e)
    return fx


# ---------------------------------------------------------------- the text a function returns
class E(SR.Eng):
    """One code node with a fixed code / function / type and symbolic connectors."""
    fixed = {}

    def own(self, st, n, q, rl, rv, args):
        if n in self.fixed and not args:
            return self.fixed[n]
        if n == "inputs" and not args:
            return ("conns",)
        if n in ("input", "output"):
            return ("conn", args[0] if args and n == "input" else ("out",))
        if n == "outputs" and not args:
            return ("outs",)
        if n in ("at", "operator[]") and args:
            if rv == ("conns",) or rl == ("t", ("conns",)):
                return ("conn", args[0])
            if rv == ("outs",) or rl == ("t", ("outs",)):
                return ("conn", ("out",))
        return None

    def on_call(self, st, node, q, rl, rv, args, an):
        v = self.own(st, last(q), q, rl, rv, args)
        if v is not None:
            return [(st, v)]
        return super().on_call(st, node, q, rl, rv, args, an)


def flat(v):
    """The text of a string value: literals with operands as $0, $1, .. and $o; None if not recognised."""
    v = SR.unint(v) if isinstance(v, tuple) else v
    if not isinstance(v, tuple) or not v:
        return None
    if v[0] == "s":
        return v[1]
    if v[0] == "conn":
        k = v[1]
        return "$o" if k == ("out",) else "$%d" % k[1] if isinstance(k, tuple) and k[0] == "i" else None
    if v[0] == "hole":
        return "$" + v[1]
    if v[0] == "cat":
        ps = [flat(x) for x in v[1]]
        return None if None in ps else "".join(ps)
    return None


def texts(fx, f, fixed, rep, args=None, eng=None):
    """The texts f can return; 'refused' where it throws; None where the value is not recognised."""
    e = (eng or E)(fx)
    e.fixed = fixed
    try:
        outs = e.run(f, args=args)
    except A.Undecided:
        return {None}
    rep.fns |= e.funcs
    out = set()
    for k, st, w in outs:
        if k in ("throw", "exit"):
            out.add("refused")
        elif k == "return":
            t = flat(w)
            out.add("refused" if t == "" else t)
    return out or {None}


# ---------------------------------------------------------------- expressions
class Bad(Exception):
    pass


TOK = re.compile(r"\s*(\$\w+|[A-Za-z_][\w:]*|\d+\.?\d*(?:[eE][-+]?\d+)?[a-zA-Z]*|<<|>>|<=|>=|==|!=|&&|\|\||[-+*/%<>=!~&|^?:(),;])")
BIN = [("||",), ("&&",), ("|",), ("^",), ("&",), ("==", "!="), ("<", "<=", ">", ">="), ("<<", ">>"), ("+", "-"), ("*", "/", "%")]
TYPES = {"signed", "unsigned", "char", "short", "int", "long", "float", "double", "bool", "__int128", "size_t",
         "int64_t", "int32_t", "uint64_t", "uint32_t", "int8_t", "uint8_t", "int16_t", "uint16_t"}


def parse(s):
    ts, i = [], 0
    s = s.strip()
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise Bad("unknown text '%s'" % s[i:i + 10])
        ts.append(m.group(1))
        i = m.end()
    while ts and ts[-1] == ";":
        ts.pop()
    if len(ts) > 2 and ts[0] == "$o" and ts[1] == "=":
        ts = ts[2:]
    pos = [0]

    def peek(k=0):
        return ts[pos[0] + k] if pos[0] + k < len(ts) else None

    def eat(t=None):
        x = peek()
        if x is None or (t is not None and x != t):
            raise Bad("'%s' expected at '%s'" % (t, x))
        pos[0] += 1
        return x

    def cond():
        c = binary(0)
        if peek() == "?":
            eat()
            a = cond()
            eat(":")
            return ("?", c, a, cond())
        return c

    def binary(l):
        if l == len(BIN):
            return unary()
        a = binary(l + 1)
        while peek() in BIN[l]:
            op = eat()
            a = (op, a, binary(l + 1))
        return a

    def unary():
        t = peek()
        if t in ("-", "+", "!", "~"):
            eat()
            x = unary()
            return x if t == "+" else ("neg" if t == "-" else t, x)
        if t == "(" and peek(1) in TYPES:
            k = 1
            while peek(k) in TYPES:
                k += 1
            if peek(k) == ")":
                ty = " ".join(ts[pos[0] + 1:pos[0] + k])
                pos[0] += k + 1
                return ("cast", ctype(ty), unary())
        if t == "(":
            eat()
            x = cond()
            eat(")")
            return x
        eat()
        if t.startswith("$"):
            return ("v", t[1:])
        if re.match(r"\d", t):
            return ("n", float(re.match(r"[\d.]+(?:[eE][-+]?\d+)?", t).group(0)))
        if t in ("true", "false"):
            return t == "true"
        if peek() != "(":
            raise Bad("unknown name " + t)
        eat("(")
        args = []
        while peek() != ")":
            args.append(tag() or cond())
            if peek() == ",":
                eat()
        eat(")")
        return ("call", t, tuple(args))

    def tag():
        """A type argument: hn::ScalableTag<..>()."""
        if re.match(r"(hn::)?(ScalableTag|FixedTag|Rebind)$|daisy_vec", peek() or ""):
            d = 0
            while peek() is not None and not (d == 0 and peek() in (",", ")")):
                d += {"(": 1, "<": 1, ")": -1, ">": -1}.get(peek(), 0)
                pos[0] += 1
            return ("tag",)
        return None

    x = cond()
    if peek() is not None:
        raise Bad("text after the expression: " + peek())
    return x


def ctype(t):
    """(kind, bits) of a C type name on the targets (LP64)."""
    w = t.split()
    u = "unsigned" in w
    m = re.match(r"(u?)int(\d+)_t$", t)
    if m:
        return ("u" if m.group(1) else "s", int(m.group(2)))
    if t == "size_t":
        return ("u", 64)
    base = {"void": ("void", 0), "bool": ("bool", 1), "_Bool": ("bool", 1), "float": ("f", 32), "double": ("f", 64), "long double": ("f", 80),
            "_Float16": ("f", 16), "__fp16": ("f", 16), "__half": ("f", 16), "half": ("f", 16), "__bf16": ("bf", 16), "__nv_bfloat16": ("bf", 16),
            "__float128": ("f", 128), "_Float128": ("f", 128), "__ibm128": ("f", 128)}
    if t in base:
        return base[t]
    if set(w) - {"signed", "unsigned", "char", "short", "int", "long", "__int128"}:
        return None
    if "char" in w:
        return ("u" if u else "s", 8)     # plain char is signed on x86-64, the target of the C generator
    if "short" in w:
        return ("u" if u else "s", 16)
    if "__int128" in w:
        return ("u" if u else "s", 128)
    return ("u" if u else "s", 64 if "long" in w else 32)


# ---------------------------------------------------------------- normal forms
COMM = {"+", "*", "&", "|", "^"}


def term(op, *xs):
    if op in COMM:
        xs = tuple(sorted(xs, key=repr))
    if op == "-" and len(xs) == 2:
        return term("+", xs[0], term("neg", xs[1]))
    if op == "neg" and isinstance(xs[0], tuple) and xs[0][0] == "neg":
        return xs[0][1]
    if op == "neg" and isinstance(xs[0], tuple) and xs[0][0] == "n":
        return ("n", -xs[0][1])
    if op == "*" and ("n", -1.0) in xs:
        return term("neg", [x for x in xs if x != ("n", -1.0)][0])
    return (op,) + xs


# a case: {"rel": lt/eq/gt, "nan": set of operands, "sign": of $0}
def compare(op, a, b, case):
    """Truth of a comparison of two normal forms, None if the case does not settle it."""
    if isinstance(a, bool) or isinstance(b, bool):
        r = None
        if isinstance(a, bool) and isinstance(b, bool):
            r = (a > b) - (a < b)
        elif ("n", 0.0) in (a, b) or ("n", 1.0) in (a, b):
            x = [float(y) if isinstance(y, bool) else y[1] for y in (a, b)]
            r = (x[0] > x[1]) - (x[0] < x[1])
        return None if r is None else holds(op, r)
    if a[0] == "n" and b[0] == "n":
        return holds(op, (a[1] > b[1]) - (a[1] < b[1]))
    if a[0] == "v" and b[0] == "v":
        if a[1] in case["nan"] or b[1] in case["nan"]:
            return op == "!="
        r = 0 if a == b else {"lt": -1, "eq": 0, "gt": 1}[case["rel"]] if a == ("v", "0") else -{"lt": -1, "eq": 0, "gt": 1}[case["rel"]]
        return holds(op, r)
    if a == ("v", "0") and b == ("n", 0.0) and case.get("sign") is not None:
        return holds(op, case["sign"])
    if b == ("v", "0") and a == ("n", 0.0) and case.get("sign") is not None:
        return holds(op, -case["sign"])
    return None


def holds(op, r):
    return {"<": r < 0, "<=": r <= 0, ">": r > 0, ">=": r >= 0, "==": r == 0, "!=": r != 0}[op]


def truth(x):
    if isinstance(x, bool):
        return x
    if x[0] == "n":
        return x[1] != 0
    raise Bad("a condition that is not settled: %s" % (x,))


SAME = {"std::": "", "::": "", "hn::": "hn::"}
CMPF = {"isless": "<", "isgreater": ">", "islessequal": "<=", "isgreaterequal": ">=",
        "hn::Eq": "==", "hn::Ne": "!=", "hn::Lt": "<", "hn::Le": "<=", "hn::Gt": ">", "hn::Ge": ">="}
HN2 = {"hn::Add": "+", "hn::Sub": "-", "hn::Mul": "*", "hn::Div": "/", "hn::And": "&", "hn::Or": "|", "hn::Xor": "^"}
HN = {k: v for v, ks in {"sin": "Sin", "cos": "Cos", "tan": "Tan", "asin": "Asin", "acos": "Acos", "atan": "Atan", "atan2": "Atan2", "sinh": "Sinh",
                         "cosh": "Cosh", "tanh": "Tanh", "asinh": "Asinh", "acosh": "Acosh", "atanh": "Atanh", "exp": "Exp", "exp2": "Exp2",
                         "expm1": "Expm1", "log": "Log", "log2": "Log2", "log10": "Log10", "log1p": "Log1p", "sqrt": "Sqrt", "fabs": "Abs",
                         "ceil": "Ceil", "floor": "Floor", "trunc": "Trunc", "roundeven": "Round", "fmin": "Min", "fmax": "Max",
                         "copysign": "CopySign", "rint": "NearestInt", "hypot": "Hypot"}.items() for k in ["hn::" + ks]}


def norm(x, case):
    if isinstance(x, bool) or x[0] in ("v", "n"):
        return x
    op = x[0]
    if op == "?":
        return norm(x[2] if truth(norm(x[1], case)) else x[3], case)
    if op in ("&&", "||"):
        a = truth(norm(x[1], case))
        if op == "&&" and not a:
            return False
        if op == "||" and a:
            return True
        return truth(norm(x[2], case))
    if op == "!":
        return not truth(norm(x[1], case))
    if op in ("<", "<=", ">", ">=", "==", "!="):
        a, b = norm(x[1], case), norm(x[2], case)
        r = compare(op, a, b, case)
        if r is None:
            raise Bad("a comparison that the case does not settle")
        return r
    if op == "cast":
        return ("cast", x[1], norm(x[2], case))
    if op == "call":
        f = re.sub(r"^(std::|::|__builtin_)", "", x[1])
        args = [norm(y, case) for y in x[2] if y != ("tag",)]
        if f == "isnan" and len(args) == 1 and args[0][0] == "v":
            return args[0][1] in case["nan"]
        if f in ("isunordered",) and len(args) == 2:
            return bool({a[1] for a in args if a[0] == "v"} & case["nan"])
        if f == "islessgreater":
            return bool(compare("<", *args, case) or compare(">", *args, case))
        if f == "hn::Not":
            return not truth(args[0])
        if f == "hn::IsNaN":
            return args[0][1] in case["nan"]
        if f in CMPF and len(args) == 2:
            r = compare(CMPF[f], args[0], args[1], case)
            if r is None:
                raise Bad("comparison")
            if f == "hn::Ne" and case["nan"]:
                return ("either",)
            return r
        if f in ("hn::Or", "hn::And") and all(isinstance(a, bool) for a in args):
            return any(args) if f == "hn::Or" else all(args)
        if f in HN2 and len(args) == 2:
            return term(HN2[f], *args)
        if f == "hn::Neg":
            return term("neg", *args)
        if f == "hn::MulAdd":
            return term("+", term("*", args[0], args[1]), args[2])
        if f == "hn::NegMulAdd":
            return term("+", term("neg", term("*", args[0], args[1])), args[2])
        if f == "hn::MulSub":
            return term("+", term("*", args[0], args[1]), term("neg", args[2]))
        if f == "hn::Set":
            return args[0]
        if f in HN:
            return ("f", HN[f]) + tuple(args)
        m = re.match(r"(fma|fmod|fmin|fmax|fabs)(f|l)?$", f)
        if m and m.group(1) == "fma":
            return term("+", term("*", args[0], args[1]), args[2])
        if m:
            return ("f", m.group(1)) + tuple(args)
        if f in ("abs", "labs", "llabs"):
            return ("abs", args[0])
        raise Bad("unknown function " + x[1])
    if len(x) == 2:
        return term(op, norm(x[1], case))
    return term(op, norm(x[1], case), norm(x[2], case))


# ---------------------------------------------------------------- what the names mean
V0, V1, V2 = ("v", "0"), ("v", "1"), ("v", "2")
FMOD = [("f", "fmod", V0, V1), term("-", V0, term("*", ("f", "trunc", term("/", V0, V1)), V1))]
ARITH = {"add": "+", "sub": "-", "mul": "*", "div": "/", "sdiv": "/", "udiv": "/", "srem": "%", "urem": "%", "and": "&", "or": "|", "xor": "^",
         "shl": "<<", "ashr": ">>", "lshr": ">>"}


def cases(code):
    fp = code.startswith("fp_")
    if code == "int_abs":
        return [{"nan": set(), "rel": "eq", "sign": s} for s in (-1, 0, 1)]
    out = [{"nan": set(), "rel": r} for r in ("lt", "eq", "gt")]
    if fp and re.match(r"fp_[ou]", code):
        out += [{"nan": n, "rel": "eq"} for n in ({"0"}, {"1"}, {"0", "1"})]
    elif not re.match(r"int_(eq|ne|[su](lt|le|gt|ge|min|max|cmp))$", code):
        out = out[:1]
    return out


def meaning(code, case):
    """The accepted normal forms; None: the name is not known to this check."""
    if code == "assign":
        return [V0]
    if code == "fp_neg":
        return [("neg", V0)]
    if code == "fp_rem":
        return FMOD
    if code == "fp_fma":
        return [term("+", term("*", V0, V1), V2)]
    if code == "int_abs":
        return [("abs", V0), ("f", "fabs", V0)] + ([("neg", V0)] if case["sign"] <= 0 else []) + ([V0] if case["sign"] >= 0 else [])
    k, _, op = code.partition("_")
    if k not in ("fp", "int"):
        return None
    r, nan = case["rel"], case["nan"]
    if k == "fp" and op in ("ord", "uno"):
        return [bool(nan) == (op == "uno")]
    rel = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}
    if k == "fp" and op[:1] in "ou" and op[1:] in rel:
        return [op[0] == "u" if nan else holds(rel[op[1:]], {"lt": -1, "eq": 0, "gt": 1}[r])]
    n = {"lt": -1, "eq": 0, "gt": 1}[r]
    if k == "int" and (op in rel or op[1:] in rel and op[0] in "su"):
        return [holds(rel.get(op) or rel[op[1:]], n)]
    if k == "int" and op[1:] == "cmp":
        return [("n", float(n))]
    if k == "int" and op[1:] in ("min", "max"):
        lo = {"lt": [V0], "gt": [V1], "eq": [V0, V1]}[r]
        hi = {"lt": [V1], "gt": [V0], "eq": [V0, V1]}[r]
        w = lo if op[1:] == "min" else hi
        return w + [("f", "f" + op[1:], V0, V1)]
    if op in ARITH:
        return [term(ARITH[op], V0, V1)]
    return None


def operand_names(c):
    return "first < second" if c["rel"] == "lt" else "first > second" if c["rel"] == "gt" else "equal operands"


def describe(c):
    if c["nan"]:
        return "NaN as %s operand" % " and ".join({"0": "first", "1": "second"}[x] for x in sorted(c["nan"]))
    if "sign" in c:
        return {-1: "negative", 0: "zero", 1: "positive"}[c["sign"]] + " operand"
    return operand_names(c)


def tasklets(rep, fx):
    r = "the text emitted for a tasklet computes the operation its code names"
    rep.rule(r, "abstract interpretation of every tasklet() generator for every tasklet code; the text parsed and normalised for every case of the operands "
                "(first smaller, equal, larger, NaN in either) and compared with the meaning of the code's name")
    acc = Acc(rep, r)
    gens = [f for f in fx.fns.values() if last(f["q"]) == "tasklet" and f.get("body") and len(f["ps"]) == 1 and "Tasklet" in f["ps"][0]["t"]]
    rep.need(gens, "generators of tasklets")
    for f in sorted(gens, key=lambda f: f["q"]):
        who = f["q"].split("::")[-2]
        for n, v in fx.enums[TC]["consts"]:
            inst = "%s: %s" % (who, n)
            for t in sorted(texts(fx, f, {"code": I(v)}, rep), key=str):
                judge(acc, inst, t, n, cases(n), meaning)
    acc.done()


def judge(acc, inst, t, name, cs, mean, say=None):
    if t == "refused":
        return acc(inst, True)
    if t is None:
        return acc(inst, None, "the text is not recognised")
    try:
        x = parse(t)
    except Bad as e:
        return acc(inst, None, "'%s': %s" % (t, e))
    for c in cs:
        want = mean(name, c)
        if want is None:
            return acc(inst, None, "the name is not known")
        try:
            got = norm(x, c)
        except (Bad, KeyError, TypeError, IndexError) as e:
            acc(inst, None, "'%s': %s" % (t, e))
            continue
        if got == ("either",):
            acc(inst, True)
            continue
        if got in want:
            acc(inst, True)
            continue
        when = "NaN operand" if c["nan"] else describe(c) if len(cs) > 1 else "it"
        acc("%s [%s gives %s]" % (inst, when, pretty(got)), False, "%s: '%s' gives %s, not %s" % (describe(c) if len(cs) > 1 else "any operands", t, pretty(got), pretty(want[0])))


def pretty(x):
    if isinstance(x, bool):
        return str(x).lower()
    if x[0] == "v":
        return "$" + x[1]
    if x[0] == "n":
        return "%g" % x[1]
    if x[0] == "f":
        return "%s(%s)" % (x[1], ", ".join(pretty(y) for y in x[2:]))
    if x[0] == "cast":
        return "(%s%s) %s" % (x[1] + (pretty(x[2]),)) if x[1] else "cast"
    if len(x) == 2:
        return "%s(%s)" % (x[0], pretty(x[1]))
    if len(x) == 3:
        return "(%s %s %s)" % (pretty(x[1]), x[0], pretty(x[2]))
    return str(x)


# ---------------------------------------------------------------- tables of tasklet codes
ONE, THREE = {"assign", "fp_neg", "int_abs"}, {"fp_fma"}


def unsigned_code(n):
    return bool(re.match(r"int_(u\w+|lshr)$", n))


def arity(n):
    return 1 if n in ONE else 3 if n in THREE else 2


def consts(fx, f, arg, rep):
    e = E(fx)
    try:
        outs = e.run(f, args=arg)
    except A.Undecided:
        return {None}
    rep.fns |= e.funcs
    out = set()
    for k, st, w in outs:
        w = SR.unint(w) if isinstance(w, tuple) else w
        if k == "return":
            out.add(w[1] if isinstance(w, tuple) and w[0] in ("i", "b", "s") else int(w) if isinstance(w, bool) else w[1] if isinstance(w, tuple) and w[:1] == ("bool",) else None)
        elif k in ("throw", "exit"):
            out.add("refused")
    return out


def tables(rep, fx):
    r = "the tables of tasklet codes and math functions agree with the names"
    rep.rule(r, "abstract interpretation of arity, is_unsigned, is_integer, is_floating_point and the function stems for every enumerator")
    acc = Acc(rep, r)
    D, M, T = "sdfg::data_flow::", "sdfg::math::cmath::", "sdfg::types::"
    for q, want in (("arity", arity), ("is_unsigned", unsigned_code), ("is_integer", lambda n: n.startswith("int_")),
                    ("is_floating_point", lambda n: n.startswith("fp_"))):
        for f in [f for f in fx.named(D + q) if f.get("body") and len(f["ps"]) == 1 and f["ps"][0]["t"].endswith("TaskletCode")]:
            for n, v in fx.enums[TC]["consts"]:
                for g in consts(fx, f, [I(v)], rep):
                    acc("%s(%s)" % (q, n), None if g is None else True if g == "refused" and q == "arity" else g != "refused" and int(g) == int(want(n)), "it is %s" % g)
    two = {"atan2", "pow", "hypot", "fmod", "remainder", "frexp", "ldexp", "nextafter", "nexttoward", "copysign", "fmax", "fmin", "fdim", "scalbn", "scalbln"}
    for f in [f for f in fx.named(M + "cmath_function_to_arity") if f.get("body")]:
        for n, v in fx.enums[CF]["consts"]:
            if n in ("frexp", "modf"):
                continue                       # they write through a pointer: no operand count to compare
            for g in consts(fx, f, [I(v)], rep):
                acc("cmath arity of %s" % n, None if g is None else g == "refused" or int(g) == (3 if n == "fma" else 2 if n in two else 1),
                    "it is %s: calls are emitted with a different number of arguments than the function has" % g)
    for f in [f for f in fx.named(M + "get_cmath_intrinsic_name") if f.get("body")]:
        for (n, v), (p, pv) in itertools.product(fx.enums[CF]["consts"], fx.enums[PT]["consts"]):
            suf = {"Float": "f", "Double": "", "X86_FP80": "l", "FP128": "l", "PPC_FP128": "l", "Half": "f", "BFloat": "f"}.get(p)
            for t in texts(fx, f, {}, rep, args=[I(v), I(pv)]):
                acc("C function for %s" % n, None if t is None else t == "refused" or suf is not None and t == n + suf, "of %s operands it is '%s'" % (p, t))
    acc.done()


# ---------------------------------------------------------------- types
def types(rep, fx):
    r = "the C type emitted for a primitive type has its width and signedness, and its zero is a zero"
    rep.rule(r, "abstract interpretation of primitive_type() and zero() of every language extension for every primitive type; the type name read as C on LP64")
    acc = Acc(rep, r)
    kind = {"Void": ("void", 0), "Bool": ("bool", 1), "Half": ("f", 16), "BFloat": ("bf", 16), "Float": ("f", 32), "Double": ("f", 64),
            "X86_FP80": ("f", 80), "FP128": ("f", 128), "PPC_FP128": ("f", 128)}
    for n, v in fx.enums[PT]["consts"]:
        m = re.match(r"(U?)Int(\d+)$", n)
        want = kind.get(n) or (("u" if m.group(1) else "s", int(m.group(2))) if m else None)
        for f in fx.fns.values():
            q = last(f["q"])
            if not f.get("body") or len(f["ps"]) != 1 or not f["ps"][0]["t"].endswith("PrimitiveType") or "LanguageExtension" not in f["q"]:
                continue
            who = f["q"].split("::")[-2]
            if q == "primitive_type":
                for t in texts(fx, f, {}, rep, args=[I(v)]):
                    c = None if t in (None, "refused") else ctype(t)
                    acc("%s: type %s%s" % (who, n, "" if c is None or want is None or c == want else " [is '%s']" % t), True if t == "refused" else None if c is None or want is None else c == want,
                        "it is written '%s' (%s, %s bits)" % (t, {"s": "signed", "u": "unsigned"}.get((c or ("?",))[0], (c or ("?",))[0]), (c or (0, 0))[1]))
            elif q == "zero":
                for t in texts(fx, f, {}, rep, args=[I(v)]):
                    ok = True if t == "refused" else None if t is None else bool(re.fullmatch(r"0*\.?0*([uUlLfF]*)|false|\(?0\)?", t)) or "ZERO" in t or (None if re.match(r"[A-Za-z_]", t) else False)
                    acc("%s: zero of %s" % (who, n), ok, "it is '%s'" % t)
    acc.done()


# ---------------------------------------------------------------- math functions with their own text
def cmath_meaning(n, c):
    f = lambda g, *a: ("f", g) + a   # noqa: E731
    two = {"atan2", "hypot", "copysign", "fmax", "fmin"}
    own = [f(n, V0, V1)] if n in two else [f(n, V0)]
    if n == "fmod":
        return FMOD
    if n == "remainder":
        return [term("-", V0, term("*", ("f", "roundeven", term("/", V0, V1)), V1))]
    if n == "pow":
        return [f("pow", V0, V1)]
    if n == "cbrt":
        return [f("cbrt", V0)]
    if n == "exp10":
        return own + [f("exp", term("*", V0, f("log", ("n", 10.0))))]
    if n == "hypot":
        return own + [f("sqrt", term("+", term("*", V0, V0), term("*", V1, V1)))]
    if n == "fma":
        return [term("+", term("*", V0, V1), V2)]
    if n in ("nearbyint", "rint"):
        return [f("roundeven", V0), f("rint", V0)]
    return own


def vectors(rep, fx):
    r = "the vector code emitted for a math function computes that function"
    rep.rule(r, "abstract interpretation of the Highway generator of math functions for every function; the text normalised and compared with the function")
    acc = Acc(rep, r)
    dbl = dict(fx.enums[PT]["consts"])["Double"]
    for f in [f for f in fx.fns.values() if last(f["q"]) == "cmath_node" and f.get("body") and len(f["ps"]) == 1]:
        for n, v in fx.enums[CF]["consts"]:
            for t in sorted(texts(fx, f, {"function": I(v), "primitive_type": I(dbl), "daisy_vec": None}, rep, eng=VEng), key=str):
                judge(acc, "%s: %s" % (f["q"].split("::")[-2], n), t, n, [{"nan": set(), "rel": "lt"}], cmath_meaning)
    acc.done()


class VEng(E):
    def own(self, st, n, q, rl, rv, args):
        if n == "daisy_vec":
            return ("s", "daisy_vec")
        return super().own(st, n, q, rl, rv, args)


# ---------------------------------------------------------------- symbolic functions
class PEng(E):
    """A printer visiting a function of a fixed name: its arguments print as $0, $1."""
    def own(self, st, n, q, rl, rv, args):
        if n == "get_name":
            return self.fixed["name"]
        if n == "get_args":
            return ("pargs",)
        if n == "get_arg":
            return ("parg", I(0))
        if n in ("operator[]", "at") and args and (rv == ("pargs",) or rl == ("t", ("pargs",))):
            return ("parg", args[0])
        if n == "apply" and args:
            for x in A.subterms(args[0]):
                if x[0] == "parg" and isinstance(x[1], tuple) and x[1][0] == "i":
                    return ("hole", str(x[1][1]))
        if n == "parenthesize" and args:
            return ("cat", (("s", "("), args[0], ("s", ")"))) if flat(args[0]) is not None else None
        return super().own(st, n, q, rl, rv, args)


def printers(rep, fx):
    r = "the text emitted for a symbolic function or condition computes it"
    rep.rule(r, "abstract interpretation of the printers' visits of integer division, absolute value, extension, truncation, equality and negation; "
                "the text normalised and compared")
    acc = Acc(rep, r)
    cs3 = [{"nan": set(), "rel": x} for x in ("lt", "eq", "gt")]

    def mean(n, c):
        if n == "idiv":
            return [term("/", V0, V1)]
        if n == "iabs":
            return meaning("int_abs", c)
        if n == "zext_i64":
            return [("cast", ("s", 64), ("cast", ("u", b), V0)) for b in (64, 32)] + [("cast", ("s", 64), ("cast", ("u", 64), ("cast", ("u", 32), V0)))]
        if n == "trunc_i32":
            return [("cast", ("s", 32), ("cast", ("u", 32), ("cast", ("u", 64), V0))), ("cast", ("s", 32), ("cast", ("u", 32), V0)), ("cast", ("s", 32), V0)]
        if n == "Equality":
            return [c["rel"] == "eq"]
        if n == "Unequality":
            return [c["rel"] != "eq"]
        return None
    for f in sorted(fx.fns.values(), key=lambda f: f["q"] + str(f["ps"])):
        if last(f["q"]) != "bvisit" or not f.get("body") or "SymbolicPrinter" not in f["q"]:
            continue
        who, arg = f["q"].split("::")[-2], f["ps"][0]["t"].replace("const ", "").rstrip(" &").split("::")[-1]
        names = {"FunctionSymbol": ["idiv", "iabs", "zext_i64", "trunc_i32"], "Equality": ["Equality"], "Unequality": ["Unequality"]}.get(arg, [])
        for n in names:
            e = PEng(fx)
            e.fixed = {"name": ("s", n)}
            try:
                outs = e.run(f)
            except A.Undecided:
                acc("%s: %s" % (who, n), None, "not recognised")
                continue
            rep.fns |= e.funcs
            for k, st, w in outs:
                if k in ("throw", "exit"):
                    continue
                v = [x for l, x in st.env.items() if l[0] == "f" and l[-1] == "str_"]
                t = flat(v[0]) if len(v) == 1 else None
                judge(acc, "%s: %s" % (who, n), t, n, cases("int_abs") if n == "iabs" else cs3 if n.endswith("quality") else cs3[:1], mean)
    acc.done()


# ---------------------------------------------------------------- promotion to symbolic expressions
class SEng(E):
    fn2 = {"add": "+", "sub": "-", "mul": "*", "div": "/", "mod": "%", "min": "min", "max": "max", "abs": "abs", "pow": "pow"}

    def own(self, st, n, q, rl, rv, args):
        if n == "as_symbol" and len(args) == 3:
            for x in A.subterms(args[2]):
                if x[0] == "conn" and isinstance(x[1], tuple) and x[1][0] == "i":
                    return ("sym", "v", str(x[1][1]))
            return None
        if "symbolic::" in q:
            if n == "integer" and args and isinstance(args[0], tuple) and args[0][0] == "i":
                return ("sym", "n", float(args[0][1]))
            if n in self.fn2 and args:
                return ("sym", self.fn2[n]) + tuple(args)
        if n in ("is_zext", "is_trunc"):
            return A.FALSE if hasattr(A, "FALSE") else I(0)
        return super().own(st, n, q, rl, rv, args)

    def on_call(self, st, node, q, rl, rv, args, an):
        if last(q) == "add_block_before":
            st.env[("g", "promoted")] = ("promoted", tuple(args))
        return super().on_call(st, node, q, rl, rv, args, an)


def sym(v):
    for x in A.subterms(v):
        if x[0] == "sym":
            return conv(x)
    return None


def conv(x):
    if not (isinstance(x, tuple) and x and x[0] == "sym"):
        y = [z for z in A.subterms(x) if z[0] == "sym"] if isinstance(x, tuple) else []
        if not y:
            raise Bad("not recognised")
        x = y[0]
    if x[1] in ("v", "n"):
        return (x[1], x[2])
    return (x[1],) + tuple(conv(y) for y in x[2:])


def promoted(n):
    two = ("pow", ("n", 2.0), V1)
    return {"assign": [V0], "int_smin": [("min", V0, V1), ("min", V1, V0)], "int_smax": [("max", V0, V1), ("max", V1, V0)], "int_abs": [("abs", V0)],
            "int_shl": [("*", V0, two), ("*", two, V0)],
            "int_add": [("+", V0, V1), ("+", V1, V0)], "int_mul": [("*", V0, V1), ("*", V1, V0)], "int_sub": [("-", V0, V1)],
            "int_sdiv": [("/", V0, V1)], "int_srem": [("%", V0, V1)]}.get(n)


def promotion(rep, fx):
    r = "a tasklet promoted to a symbolic expression keeps its operation"
    rep.rule(r, "abstract interpretation of SymbolPromotion::apply for every tasklet code; the symbolic expression assigned compared with the operation "
                "(symbolic division truncates, as it is emitted as C division)")
    acc = Acc(rep, r)
    for f in [f for f in fx.fns.values() if f["q"].endswith("SymbolPromotion::apply") and f.get("body")]:
        for n, v in fx.enums[TC]["consts"]:
            if n in ("int_and", "int_or", "int_xor"):
                continue                       # booleans, with symbolic truth values: not decided here
            e = SEng(fx)
            e.fixed = {"code": I(v)}
            inst = "SymbolPromotion: %s" % n
            try:
                outs = e.run(f)
            except A.Undecided:
                acc(inst, None, "not recognised")
                continue
            rep.fns |= e.funcs
            for k, st, w in outs:
                if k in ("throw", "exit"):
                    acc(inst, True)
                    continue
                if n == "int_ashr":
                    want = []
                else:
                    want = promoted(n)
                p = st.env.get(("g", "promoted"))
                try:
                    g = sym(p) if p else None
                except Bad:
                    g = None
                if g is None or want is None:
                    acc(inst, None, "not recognised")
                    continue
                if n == "int_ashr":
                    two = ("pow", ("n", 2.0), V1)
                    if g == ("/", V0, two):
                        acc(inst + " [truncates]", False, "x >> k becomes the truncating division x / 2**k, which differs for negative x")
                    elif len(g) == 3 and set(g[1:]) <= {V0, V1, two}:
                        acc(inst, False, "it becomes %s" % pretty(g))
                    else:
                        acc(inst, None, "not recognised")
                    continue
                acc(inst, g in want, "it becomes %s" % pretty(g))
    acc.done()


# ---------------------------------------------------------------- tables kept as text
def strip(t):
    return re.sub(r"//[^\n]*|/\*.*?\*/", " ", t, flags=re.S)


def frontends(rep, fx):
    r = "the MLIR importer and the Python bindings name the operation they stand for"
    rep.rule(r, "every `case arith::Cmp[FI]Predicate::P` with the tasklet code chosen under it, every (arith::XOp, TaskletCode) pair and every `.value(\"n\", E::m)` of the bindings")
    acc = Acc(rep, r)
    codes = {n for n, _ in fx.enums[TC]["consts"]}
    p = os.path.join(cxx.REPO, "mlir/lib/Target/SDFG/ArithToSDFGTranslator.cpp")
    if os.path.exists(p):
        rep.files.add("mlir/lib/Target/SDFG/ArithToSDFGTranslator.cpp")
        src = strip(open(p).read())
        open_cases = []
        for m in re.finditer(r"case\s+(?:[\w:]*)Cmp([FI])Predicate::(\w+)\s*:|TaskletCode::(\w+)|\b(break|return)\b", src):
            if m.group(2):
                open_cases.append(("fp_" if m.group(1) == "F" else "int_") + m.group(2).lower())
            elif m.group(3):
                for c in open_cases:
                    if c in codes:
                        acc("MLIR importer: comparison %s" % c, m.group(3) == c, "it becomes %s" % m.group(3))
                open_cases = []
            else:
                open_cases = []
        names = {"addf": "fp_add", "subf": "fp_sub", "mulf": "fp_mul", "divf": "fp_div", "remf": "fp_rem", "negf": "fp_neg", "addi": "int_add", "subi": "int_sub",
                 "muli": "int_mul", "divsi": "int_sdiv", "divui": "int_udiv", "remsi": "int_srem", "remui": "int_urem", "andi": "int_and", "ori": "int_or",
                 "xori": "int_xor", "shli": "int_shl", "shrsi": "int_ashr", "shrui": "int_lshr", "maxsi": "int_smax", "maxui": "int_umax", "minsi": "int_smin",
                 "minui": "int_umin"}
        for m in re.finditer(r"<\s*(?:::)?(?:mlir::)?arith::(\w+)Op\s*,\s*[\w:]*TaskletCode::(\w+)\s*>", src):
            if m.group(1).lower() in names:
                acc("MLIR importer: arith.%s" % m.group(1).lower(), m.group(2) == names[m.group(1).lower()], "it becomes %s" % m.group(2))
    b = os.path.join(cxx.REPO, "python/bindings")
    for d, _, fs in sorted(os.walk(b)):
        for x in sorted(fs):
            if not x.endswith((".cpp", ".h")):
                continue
            src = strip(open(os.path.join(d, x), errors="replace").read())
            vals = re.findall(r"\.value\(\s*\"(\w+)\"\s*,\s*([\w:]+)::(\w+)", src)
            by = {}
            for n, e, m in vals:
                by.setdefault(last(e), []).append((n, m))
            for e, vs in sorted(by.items()):
                allm = {m for _, m in vs} | {c for q, k in fx.enums.items() if last(q) == e for c, _ in k["consts"]}
                for n, m in vs:
                    same = n == m or n.lower().strip("_") == m.lower().strip("_")
                    acc("bindings: %s.%s" % (e, n), True if same else False if n in allm else None, "it is bound to %s" % m)
            if vals:
                rep.files.add(os.path.relpath(os.path.join(d, x), cxx.REPO))
    acc.done()


def g04(rep):
    fx = facts(rep)
    tasklets(rep, fx)
    tables(rep, fx)
    types(rep, fx)
    vectors(rep, fx)
    printers(rep, fx)
    promotion(rep, fx)
    frontends(rep, fx)
    rep.count("obligations", len(rep.obl))


CHECKS = {"G04": g04}
