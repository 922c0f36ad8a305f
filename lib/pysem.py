"""Meaning of a recorded program (lib/pyinterp.Builder) for one case of its operands: tasklets, math functions,
conditions, transitions and counted loops are given the meaning the code generators print for them (G04)."""
import ast
import itertools
import math
import re

from . import cxx
from .pyinterp import Enum, Node, Type, UNK


class Undecided(Exception):
    pass


class IllTyped(Exception):
    """The program is one that the validator of the compiler core rejects."""


class Wrong(Exception):
    """The program reads memory as what it is not."""


class _B(Exception):
    pass


class _C(Exception):
    pass


class _R(Exception):
    def __init__(self, v):
        self.v = v


SIZES = {"Bool": 1, "Int8": 1, "UInt8": 1, "Int16": 2, "UInt16": 2, "Half": 2, "Int32": 4, "UInt32": 4, "Float": 4,
         "Int64": 8, "UInt64": 8, "Double": 8}
WIDTH = {"Int8": 8, "Int16": 16, "Int32": 32, "Int64": 64, "UInt8": 8, "UInt16": 16, "UInt32": 32, "UInt64": 64}


def prim(t):
    """The scalar type name at the bottom of a type object."""
    seen = 0
    while isinstance(t, Type) and seen < 5:
        p = t.f.get("primitive_type")
        if isinstance(p, Enum):
            return p.name
        t = t.f.get("pointee_type") or t.f.get("element_type")
        seen += 1
    return None


def is_array(t):
    return isinstance(t, Type) and t.kind in ("Pointer", "Array", "Tensor")


def cast(v, p):
    if p is None:
        return v
    if p == "Bool":
        return bool(v)
    if p in WIDTH:
        if isinstance(v, float):
            if math.isnan(v) or math.isinf(v):
                raise Undecided("conversion of a non-finite value")
            v = int(v)
        w = WIDTH[p]
        v = int(v) & ((1 << w) - 1)
        if p[0] == "I" and v >> (w - 1):
            v -= 1 << w
        return v
    if p in ("Double", "Float", "Half"):
        return float(v)
    return v


def tdiv(a, b):
    if b == 0:
        raise Undecided("division by zero")
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def isint(v):
    return isinstance(v, (int, bool))


M64 = (1 << 64) - 1


def sgn(v):
    v &= M64
    return v - (1 << 64) if v >> 63 else v


def fdiv(a, b):
    if isint(a) and isint(b):
        return tdiv(a, b)
    if b == 0:
        raise Undecided("division by zero")
    return a / b


def fmod(a, b):
    if b == 0:
        raise Undecided("division by zero")
    return math.fmod(a, b)


BIN = {
    "fp_add": lambda a, b: a + b, "fp_sub": lambda a, b: a - b, "fp_mul": lambda a, b: a * b, "fp_div": fdiv,
    "fp_rem": fmod,
    "int_add": lambda a, b: sgn(a + b), "int_sub": lambda a, b: sgn(a - b), "int_mul": lambda a, b: sgn(a * b),
    "int_sdiv": tdiv, "int_srem": lambda a, b: a - b * tdiv(a, b),
    "int_udiv": lambda a, b: sgn(tdiv(a & M64, b & M64)), "int_urem": lambda a, b: sgn((a & M64) % (b & M64)),
    "int_and": lambda a, b: a & b, "int_or": lambda a, b: a | b, "int_xor": lambda a, b: a ^ b,
    "int_shl": lambda a, b: sgn(a << b) if 0 <= b < 64 else _bad("shift"),
    "int_ashr": lambda a, b: a >> b if 0 <= b < 64 else _bad("shift"),
    "int_lshr": lambda a, b: sgn((a & M64) >> b) if 0 <= b < 64 else _bad("shift"),
    "int_smin": min, "int_smax": max, "int_scmp": None,
    "int_umin": lambda a, b: sgn(min(a & M64, b & M64)), "int_umax": lambda a, b: sgn(max(a & M64, b & M64)),
}
REL = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b,
       "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b}
for _k, _f in REL.items():
    if _k in ("eq", "ne"):
        BIN["int_" + _k] = _f
    else:
        BIN["int_s" + _k] = _f
        BIN["int_u" + _k] = lambda a, b, f=_f: f(a & M64, b & M64)
    BIN["fp_o" + _k] = _f
    BIN["fp_u" + _k] = _f


def _bad(x):
    raise Undecided(x)


UN = {"fp_neg": lambda a: -a, "assign": lambda a: a, "int_abs": abs}
CM1 = {n: getattr(math, n) for n in ("sqrt", "exp", "log", "log2", "log10", "sin", "cos", "tan", "sinh", "cosh", "tanh",
                                     "asin", "acos", "atan", "asinh", "acosh", "atanh", "expm1", "log1p", "fabs",
                                     "erf", "erfc", "lgamma")}
CM1.update(floor=lambda x: float(math.floor(x)), ceil=lambda x: float(math.ceil(x)), trunc=lambda x: float(math.trunc(x)),
           round=lambda x: float(math.copysign(math.floor(abs(x) + 0.5), x)), rint=lambda x: float(round(x)),
           nearbyint=lambda x: float(round(x)), exp2=lambda x: 2.0 ** x, tgamma=math.gamma,
           cbrt=lambda x: math.copysign(abs(x) ** (1 / 3), x))
CM2 = {"pow": math.pow, "fmod": fmod, "atan2": math.atan2, "hypot": math.hypot, "fmin": min, "fmax": max,
       "copysign": math.copysign, "fdim": lambda a, b: max(a - b, 0.0), "remainder": math.remainder}


def tag(x):
    return x.name if isinstance(x, Enum) else None


class Sem:
    def __init__(self, types, values, arrays=None, fuel=20000):
        self.types = types
        self.v = dict(values)
        self.arr = arrays or {}
        self.writes = {}
        self.reads = []
        self.fuel = fuel
        self.given = set(values)
        self.strides = {}
        self.fresh = 0
        self.heap = {}

    # ------------------------------------------------------------ expressions in text form
    def text(self, s):
        if isinstance(s, (int, float)):
            return s
        if not isinstance(s, str):
            raise Undecided("an expression that is not text")
        if re.search(r"\b(True|False|None|inf|nan)\b", s):
            raise IllTyped("no such name: " + s)
        t = s.replace("&&", " and ").replace("||", " or ")
        t = re.sub(r"!(?!=)", " not ", t)
        t = re.sub(r"\btrue\b", "True", t)
        t = re.sub(r"\bfalse\b", "False", t)
        try:
            e = ast.parse(t.strip(), mode="eval").body
        except SyntaxError:
            raise Undecided("expression " + s)
        return self.tev(e)

    def tev(self, e):
        if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)):
            return e.value
        if isinstance(e, ast.Name):
            return self.load(e.id)
        if isinstance(e, ast.UnaryOp):
            x = self.tev(e.operand)
            if isinstance(e.op, ast.USub):
                return -x
            if isinstance(e.op, ast.Not):
                return not x
            if isinstance(e.op, ast.UAdd):
                return x
            raise Undecided("unary operator in an expression")
        if isinstance(e, ast.BoolOp):
            vs = [self.tev(x) for x in e.values]
            return all(vs) if isinstance(e.op, ast.And) else any(vs)
        if isinstance(e, ast.Compare):
            if len(e.ops) != 1:
                raise Undecided("chained comparison in an expression")
            a, b = self.tev(e.left), self.tev(e.comparators[0])
            f = {ast.Eq: "eq", ast.NotEq: "ne", ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge"}.get(type(e.ops[0]))
            if f is None:
                raise Undecided("comparison in an expression")
            return REL[f](a, b)
        if isinstance(e, ast.BinOp):
            a, b = self.tev(e.left), self.tev(e.right)
            o = type(e.op)
            if o is ast.Add:
                return a + b
            if o is ast.Sub:
                return a - b
            if o is ast.Mult:
                return a * b
            if o is ast.Div:
                # kept as a quotient by the symbolic library, printed as a division of doubles
                return a // b if isint(a) and isint(b) and b and a % b == 0 else fdiv(float(a), b)
            if o is ast.Mod and isint(a) and isint(b):
                return a - b * tdiv(a, b)
            if o is ast.Pow:
                return a ** b
            if o is ast.BitAnd and isinstance(a, bool) and isinstance(b, bool):
                return a and b
            if o is ast.BitOr and isinstance(a, bool) and isinstance(b, bool):
                return a or b
            raise Undecided("operator in an expression %s" % ast.unparse(e))
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
            f = e.func.id
            if f in self.types and is_array(self.types[f]):
                return self.at(f, [self.tev(x) for x in e.args])
            a = [self.tev(x) for x in e.args]
            if f == "idiv" and len(a) == 2:
                return tdiv(a[0], a[1])
            if f == "imod" and len(a) == 2:
                return a[0] - a[1] * tdiv(a[0], a[1])
            if f in ("min", "max"):
                return (min if f == "min" else max)(a)
            if f == "abs":
                return abs(a[0])
            raise Undecided("call of %s in an expression" % f)
        raise Undecided("expression form " + type(e).__name__)

    # ------------------------------------------------------------ storage
    def load(self, name):
        if name in self.v:
            return self.v[name]
        if name in self.types and not is_array(self.types[name]):
            raise Wrong("reads %s before it is computed" % name)
        raise Undecided("value of " + name)

    def store(self, name, v):
        t = self.types.get(name)
        if t is None:
            raise Undecided("store to unknown container " + name)
        if is_array(t):
            raise Undecided("store to a whole array")
        self.v[name] = cast(v, prim(t))

    def index(self, sub, t):
        """Position a subset addresses, as a tuple; a one-element subset of a multi-dimensional array is linear."""
        if not isinstance(sub, str):
            raise Undecided("subset")
        parts, d, cur = [], 0, ""
        for c in sub:
            if c in "([":
                d += 1
            elif c in ")]":
                d -= 1
            if c == "," and d == 0:
                parts.append(cur)
                cur = ""
            else:
                cur += c
        parts.append(cur)
        return [self.text(p) for p in parts if p.strip()]

    def flat(self, name, idx, t):
        shape = None
        if isinstance(t, Type) and t.kind == "Tensor":
            shape = t.f.get("shape")
            off = t.f.get("offset")
            st = t.f.get("strides")
            if isinstance(st, (list, tuple)) and len(st) == len(idx) and st:
                k = 0
                for i, s in zip(idx, st):
                    k += i * self.text(s)
                return k + (self.text(off) if isinstance(off, (str, int)) and off not in ("", None) else 0)
            if isinstance(shape, (list, tuple)) and len(shape) == len(idx):
                k = 0
                for i, s in zip(idx, shape):
                    k = k * self.text(s) + i
                return k + (self.text(off) if isinstance(off, (str, int)) and off not in ("", None) else 0)
        if len(idx) == 1:
            return idx[0]
        have = self.types.get(name)
        inner = have.f.get("pointee_type") if isinstance(have, Type) else None
        if isinstance(inner, Type) and inner.kind == "Structure" and len(idx) == 2 and idx[0] == 0:
            return idx[1]
        sh = self.strides.get(name)
        if sh and len(sh) == len(idx):
            k = 0
            for i, s in zip(idx, sh):
                k = k * s + i
            return k
        raise Undecided("address of %s with %d indices" % (name, len(idx)))

    def at(self, name, idx, t=None):
        return self.peek(name, self.flat(name, idx, t), t)

    def same_elem(self, name, t):
        have, as_ = prim(self.types.get(name)), prim(t)
        if have is not None and as_ is not None and have != as_ and is_array(self.types.get(name)):
            raise Wrong("%s holds %s elements and is accessed as %s" % (name, have, as_))

    def peek(self, name, k, t=None):
        self.same_elem(name, t)
        base, off = self.alias(name)
        k += off
        m = self.arr.get(base)
        self.reads.append((base, k))
        if m is None:
            raise Undecided("elements of " + name)
        if k not in m:
            raise Wrong("reads element %s of %s, which %s" % (k, name, "was not written" if base in self.heap and 0 <= k * SIZES.get(self.heap[base][1], 8) < self.heap[base][0] else "does not exist"))
        return m[k]

    def poke(self, name, k, v, t=None):
        self.same_elem(name, t)
        base, off = self.alias(name)
        k += off
        if base not in self.arr:
            raise Undecided("elements of " + name)
        if base in self.heap:
            size, pr = self.heap[base]
            if not 0 <= k * SIZES.get(pr, 8) < size:
                raise Wrong("writes element %s of %s, which does not exist" % (k, name))
        elif k not in self.arr[base]:
            raise Wrong("writes element %s of %s, which does not exist" % (k, name))
        self.arr[base][k] = cast(v, prim(t) or prim(self.types.get(name)))
        self.writes.setdefault(base, []).append((k, self.arr[base][k]))

    # ------------------------------------------------------------ tensor operations of the compiler core
    def shape(self, t):
        sh = t.f.get("shape") if isinstance(t, Type) and t.kind == "Tensor" else None
        if not isinstance(sh, (list, tuple)):
            raise Undecided("shape")
        r = [self.text(x) for x in sh]
        for i, x in enumerate(r):
            if isinstance(x, float):
                if x != int(x):
                    raise Wrong("has an extent of %g elements" % x)
                r[i] = int(x)
        return r

    def place(self, t, idx):
        st = t.f.get("strides")
        if not isinstance(st, (list, tuple)) or len(st) != len(idx):
            raise Undecided("strides")
        off = t.f.get("offset")
        k = self.text(off) if isinstance(off, (str, int)) and off != "" else 0
        for i, x in zip(idx, st):
            k += i * self.text(x)
        return k

    def operand_of(self, name, t, shape):
        """idx -> value of an operand of an elementwise operation over `shape`."""
        if not isinstance(name, str):
            raise Undecided("operand")
        if name not in self.types:
            v = self.text(name)
            return lambda idx: v
        ty = self.types.get(name)
        if not is_array(ty):
            v = self.load(name)
            return lambda idx: v
        sh = self.shape(t)
        if sh == []:
            return lambda idx: self.peek(name, self.place(t, []), t)
        if len(sh) != len(shape) or any(a != b for a, b in zip(sh, shape)):
            raise Wrong("operand %s of shape %s in an operation over %s" % (name, sh, shape))
        return lambda idx: self.peek(name, self.place(t, idx), t)

    def result_to(self, name, t):
        ty = self.types.get(name)
        if not is_array(ty):
            return lambda idx, v: self.store(name, v)
        return lambda idx, v: self.poke(name, self.place(t, idx), v, t)

    def space(self, shape):
        n = 1
        for x in shape:
            n *= max(x, 0)
        self.fuel -= n
        if self.fuel < 0:
            raise Undecided("too many steps")
        return itertools.product(*[range(x) for x in shape])

    def n_op(self, n):
        f = getattr(self, "o_" + n.name, None)
        if f is None:
            raise Undecided("operation " + n.name)
        try:
            f(*n.args, **{k: v for k, v in n.kw.items() if k != "debug_info"})
        except TypeError as x:
            raise Undecided("%s: %s" % (n.name, x))
        except (ValueError, OverflowError, ZeroDivisionError) as x:
            raise Undecided("%s: %s" % (n.name, x))

    EW = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": fdiv,
          "pow": lambda a, b: math.pow(a, b), "min": min, "max": max}
    FLOATING = {"pow", "sqrt", "exp", "tanh"}

    def same_types(self, op, *ts):
        """What the validator of tensor operations asks for."""
        ps = {prim(t) for t in ts if isinstance(t, Type)} - {None}
        if len(ps) > 1:
            raise IllTyped("%s on operands of types %s" % (op, ", ".join(sorted(ps))))
        if op in self.FLOATING and ps and not ps & {"Double", "Float", "Half"}:
            raise IllTyped("%s on operands of type %s" % (op, ps.pop()))

    EU = {"abs": abs, "sqrt": math.sqrt, "exp": math.exp, "tanh": math.tanh}

    def o_add_elementwise_op(self, op, A, At, B, Bt, C, Ct, debug_info=None):
        if op not in self.EW:
            raise Undecided("elementwise %s" % (op,))
        self.same_types(op, At, Bt)
        sh = self.shape(Ct)
        a, b, c = self.operand_of(A, At, sh), self.operand_of(B, Bt, sh), self.result_to(C, Ct)
        for i in self.space(sh):
            c(i, self.EW[op](a(i), b(i)))

    def o_add_elementwise_unary_op(self, op, A, At, C, Ct, debug_info=None):
        if op not in self.EU:
            raise Undecided("elementwise %s" % (op,))
        self.same_types(op, At)
        sh = self.shape(Ct)
        a, c = self.operand_of(A, At, sh), self.result_to(C, Ct)
        for i in self.space(sh):
            c(i, self.EU[op](a(i)))

    def o_add_cast_op(self, A, At, C, Ct, debug_info=None):
        sh = self.shape(Ct)
        a, c = self.operand_of(A, At, sh), self.result_to(C, Ct)
        for i in self.space(sh):
            c(i, a(i))

    def o_add_reduce_op(self, op, A, At, C, Ct, axes, keepdims=False, debug_info=None):
        sh = self.shape(At)
        ax = [self.text(x) if not isinstance(x, int) else x for x in axes]
        ax = [x + len(sh) if x < 0 else x for x in ax]
        if not ax:
            ax = list(range(len(sh)))
        if any(not 0 <= x < len(sh) for x in ax):
            raise IllTyped("axis %s of an array of %d dimensions" % (ax, len(sh)))
        keep = [d for d in range(len(sh)) if d not in ax]
        a, c = self.operand_of(A, At, sh), self.result_to(C, Ct)
        acc = {}
        for i in self.space(sh):
            o = tuple(0 if d in ax else i[d] for d in range(len(sh))) if keepdims else tuple(i[d] for d in keep)
            acc.setdefault(o, []).append(a(i))
        out = self.shape(Ct)
        want = [1 if d in ax else sh[d] for d in range(len(sh))] if keepdims else [sh[d] for d in keep]
        if is_array(self.types.get(C)) and out != want and not (out == [1] and want == []):
            raise Wrong("the result of a reduction has shape %s, its container %s" % (want, out))
        for o, vs in acc.items():
            if op == "sum":
                r = sum(vs)
            elif op in ("max", "min"):
                r = (max if op == "max" else min)(vs)
            elif op == "mean":
                r = sum(vs) / len(vs)
            elif op == "std":
                mu = sum(vs) / len(vs)
                r = math.sqrt(max(0.0, sum((x - mu) ** 2 for x in vs) / len(vs)))
            else:
                raise Undecided("reduction %s" % (op,))
            c(o if o or out == [] else (0,) * len(out), r)

    def first(self, name, subset):
        """Position of the first element of a view."""
        if not subset:
            return 0
        if len(subset) != 1:
            raise Wrong("a view of a pointer with %d indices" % len(subset))
        return self.text(subset[0])

    def factor(self, s):
        v = self.text(s)
        return v

    def o_add_gemm(self, A, B, C, alpha, beta, m, n, k, trans_a=False, trans_b=False, a_subset=(), b_subset=(), c_subset=(),
                   lda="", ldb="", ldc="", debug_info=None):
        m, n, k = self.text(m), self.text(n), self.text(k)
        lda = self.text(lda) if lda != "" else (m if trans_a else k)
        ldb = self.text(ldb) if ldb != "" else (k if trans_b else n)
        ldc = self.text(ldc) if ldc != "" else n
        al, be = self.factor(alpha), self.factor(beta)
        a0, b0, c0 = self.first(A, a_subset), self.first(B, b_subset), self.first(C, c_subset)
        res = {}
        for i, j in self.space([m, n]):
            acc = 0.0
            for q in range(k):
                acc += self.peek(A, a0 + (q * lda + i if trans_a else i * lda + q)) * self.peek(B, b0 + (j * ldb + q if trans_b else q * ldb + j))
            old = self.peek(C, c0 + i * ldc + j) * be if be != 0 else 0.0
            res[(i, j)] = al * acc + old
        for (i, j), v in res.items():
            self.poke(C, c0 + i * ldc + j, v)

    def o_add_dot(self, X, Y, result, n, incx, incy, x_subset=(), y_subset=(), debug_info=None):
        n, ix, iy = self.text(n), self.text(incx), self.text(incy)
        x0, y0 = self.first(X, x_subset), self.first(Y, y_subset)
        self.store(result, sum((self.peek(X, x0 + i * ix) * self.peek(Y, y0 + i * iy) for i in range(n)), 0.0))

    def alias(self, name):
        """The storage a pointer points to (references copy the pointer at the time they are taken)."""
        return self.v.get(("ref", name), (name, 0))

    # ------------------------------------------------------------ statements
    def run(self, nodes):
        for n in nodes:
            self.fuel -= 1
            if self.fuel < 0:
                raise Undecided("too many steps")
            getattr(self, "n_" + n.kind, self.other)(n)

    def other(self, n):
        raise Undecided("operation " + (n.name if n.kind == "op" else n.kind))

    def n_if(self, n):
        self.run(n.then if self.text(n.cond) else n.els)

    def n_while(self, n):
        while True:
            self.fuel -= 1
            if self.fuel < 0:
                raise Undecided("too many steps")
            try:
                self.run(n.body)
            except _B:
                return
            except _C:
                pass

    def n_for(self, n):
        v = self.text(n.start)
        step = self.text(n.step)
        self.v[n.var] = v
        self.types.setdefault(n.var, None)
        if step == 0:
            raise Undecided("loop with step 0")
        while True:
            self.fuel -= 1
            if self.fuel < 0:
                raise Undecided("too many steps")
            end = self.text(n.end)
            i = self.v[n.var]
            if not (i < end if step > 0 or not const_step(n.step) else i > end):
                return
            try:
                self.run(n.body)
            except _B:
                return
            except _C:
                pass
            self.v[n.var] = self.v[n.var] + self.text(n.step)

    def n_break(self, n):
        raise _B()

    def n_continue(self, n):
        raise _C()

    def n_return(self, n):
        raise _R(self.v.get(n.name) if isinstance(n.name, str) else None)

    def n_set(self, n):
        v = self.text(n.value)
        t = self.types.get(n.name)
        self.v[n.name] = cast(v, prim(t)) if t is not None else v

    def const(self, n):
        x = n.value
        if isinstance(x, (int, float)):
            v = x
        elif isinstance(x, str):
            s = x.strip()
            if s in ("true", "false"):
                v = s == "true"
            else:
                try:
                    v = int(s)
                except ValueError:
                    try:
                        v = float(s.rstrip("f"))
                    except ValueError:
                        if re.match(r"^[A-Za-z_]\w*$", s):
                            raise Undecided("literal " + s)
                        v = self.text(s)
        else:
            raise Undecided("constant")
        p = prim(n.type)
        return (cast(v, p), p)

    def operand(self, src, sub, t, vals):
        """(value, primitive type)"""
        if src.kind == "const":
            return self.const(src)
        if src.kind == "access":
            ty = self.types.get(src.name)
            if is_array(ty) or (isinstance(t, Type) and t.kind == "Tensor"):
                if sub in ("", None) and not (isinstance(t, Type) and t.kind == "Tensor"):
                    raise Undecided("whole array operand")
                tt = t if isinstance(t, Type) and t.kind == "Tensor" else ty
                return self.at(src.name, self.index(sub or "", tt), tt), prim(tt)
            return self.load(src.name), prim(ty)
        raise Undecided("operand")

    def n_block(self, b):
        done, todo = set(), [n for n in b.nodes if n.kind in ("task", "cmath")]
        copies = [e for e in b.edges if e[1] == "ref" or (e[0].kind in ("access", "const") and e[2].kind == "access")]
        for src, sc, dst, dc, sub, t in copies:
            if sc == "ref" and src.kind == "access" and dst.kind == "access":
                off = self.text(sub) if sub not in ("", None) else 0
                base, o = self.alias(src.name)
                self.v[("ref", dst.name)] = (base, o + off)
            else:
                raise Undecided("copy edge")
        for n in b.nodes:
            if n.kind == "malloc":
                for e in b.edges:
                    if e[0] is n:
                        self.fresh += 1
                        base = "%s#%d" % (e[2].name, self.fresh)
                        self.arr[base] = {}
                        self.heap[base] = (self.text(n.size), prim(self.types.get(e[2].name)))
                        self.v[("ref", e[2].name)] = (base, 0)
            elif n.kind == "memset":
                for e in b.edges:
                    if e[0] is n:
                        pr = prim(self.types.get(e[2].name))
                        base, off = self.alias(e[2].name)
                        if self.text(n.value) != 0 or off != 0:
                            raise Undecided("memset of a value other than 0")
                        for k in range(int(self.text(n.num)) // SIZES.get(pr, 8)):
                            self.arr.setdefault(base, {})[k] = cast(0, pr)
        for n in b.nodes:
            if n.kind == "op":
                raise Undecided("operation " + n.name)
        # a node is ready when every access node it reads has been written inside the block (if it is written there)
        while todo:
            for n in todo:
                ins = [e for e in b.edges if e[2] is n]
                if any(any(f[2] is e[0] and f[0] in todo for f in b.edges) for e in ins):
                    continue
                break
            else:
                raise Undecided("cyclic block")
            todo.remove(n)
            self.task(b, n, ins)

    def task(self, b, n, ins):
        self.fuel -= 1
        code = tag(n.code)
        byc = {}
        for src, sc, dst, dc, sub, t in ins:
            if dc in byc:
                raise IllTyped("connector %s of %s is fed twice" % (dc, code))
            byc[dc] = self.operand(src, sub, t, None)
        if n.kind == "task":
            if not isinstance(n.ins, (list, tuple)):
                raise Undecided("inputs of a tasklet")
            order = list(n.ins)
            if set(order) != set(byc):
                raise IllTyped("the inputs of %s are not its connectors" % code)
        else:
            order = sorted(byc)
        ops = [byc[c] for c in order]
        if n.kind == "task" and code is not None:
            for v, p in ops:
                if p is None:
                    continue
                if code.startswith("int_") and p in ("Double", "Float", "Half"):
                    raise IllTyped("%s on a %s operand" % (code, p))
                if code.startswith("fp_") and (p in WIDTH or p == "Bool"):
                    raise IllTyped("%s on a %s operand" % (code, p))
        a = [v for v, p in ops]
        try:
            if n.kind == "cmath":
                a = [float(x) for x in a]
                if code in CM1 and code not in CM2 and len(a) != 1 or code in CM2 and code not in CM1 and len(a) != 2:
                    raise IllTyped("%s has not %d operands" % (code, len(a)))
                r = CM1[code](*a) if len(a) == 1 and code in CM1 else CM2[code](*a) if len(a) == 2 and code in CM2 else _bad("math function %s" % code)
            elif len(a) == 1 and code in UN:
                r = UN[code](*a)
            elif len(a) == 2 and BIN.get(code):
                r = BIN[code](*a)
            else:
                raise Undecided("tasklet %s with %d operands" % (code, len(a)))
        except (ValueError, OverflowError, ZeroDivisionError, KeyError) as x:
            raise Undecided("%s: %s" % (code, x))
        outs = [e for e in b.edges if e[0] is n]
        if not outs:
            raise IllTyped("%s has no output" % code)
        for src, sc, dst, dc, sub, t in outs:
            if dst.kind != "access":
                raise Undecided("output")
            ty = self.types.get(dst.name)
            if is_array(ty) or (isinstance(t, Type) and t.kind == "Tensor"):
                tt = t if isinstance(t, Type) and t.kind == "Tensor" else ty
                k = self.flat(dst.name, self.index(sub or "", tt), tt)
                self.poke(dst.name, k, r, tt)
            else:
                self.store(dst.name, r)


def const_step(s):
    """A step written as a literal: the loop's direction is known when it is built."""
    return isinstance(s, int) or (isinstance(s, str) and re.match(r"^\(?-?\d+\)?$", s.strip()) is not None)
