"""Interpretation of a call of a translated function: PythonProgram.__call__, compile, CompiledSDFG.

ctypes and numpy are not interpreted: what is built with them is kept as a term, so that the arguments of the library function and the
conversions of its results can be read off."""
import ast
import re
from . import cxx
from .pyinterp import (Arr, Builder, Cls, Enum, External, Inst, Interp, NATIVE, Node, Obj, PRIMS, PyFun, Refused, Type, UNK, Undecided, Unknown, functions)

PRIMS.setdefault("eval", None)


class Term:
    def __init__(self, op, args=(), kw=None):
        self.op, self.args, self.kw = op, tuple(args), dict(kw or {})

    def __getitem__(self, k):
        return Term("[]", (self, k))

    def __repr__(self):
        return "%s(%s)" % (self.op, ", ".join([show(a) for a in self.args] + ["%s=%s" % (k, show(v)) for k, v in self.kw.items()]))


def show(v):
    return v.name if isinstance(v, External) else v.cls.name if isinstance(v, Obj) else v.name if isinstance(v, Cls) else repr(v)


class Recorder(Builder):
    number, compiled = 0, False

    def move(self):
        def compiled(*a, **k):
            self.compiled = True
            return "lib%d" % self.number
        return Node("sdfg", name="kernel", _compile=compiled, arguments=list(self.arguments), type=lambda n: self.types[n], metadata=lambda k: "",
                    return_type=Type("Scalar", primitive_type=Enum("PrimitiveType", "Void")))


class Caller(Interp):
    def __init__(self, repo, choices=()):
        super().__init__(repo, choices)
        self.calls, self.builders = [], []

    def ext(self, name):
        return re if name == "re" else super().ext(name)

    def construct(self, kind, args, kw):
        if kind == "StructuredSDFGBuilder":
            self.builder = Recorder()
            self.builder.number = len(self.builders)
            self.builders.append(self.builder)
            return self.builder
        return super().construct(kind, args, kw)

    def call(self, fn, args, kw, env):
        if isinstance(fn, External) and fn.name not in NATIVE and fn.name.split(".")[0] in ("ctypes", "numpy", "hashlib"):
            return Term(fn.name, args, kw)
        if isinstance(fn, Term):
            t = Term("call", (fn,) + tuple(args), kw)
            self.calls.append(t)
            return None if fn.kw.get("restype", fn) is None else t
        if isinstance(fn, Obj):
            return self.call(self.attr(fn, "__call__", env), args, kw, env)
        if isinstance(fn, Cls) and any(ast.unparse(b) == "ctypes.Structure" for b in fn.bases):
            o = Obj(fn)
            o.d.update(kw)
            return o
        return super().call(fn, args, kw, env)

    def attr(self, o, n, env, quiet=False):
        if isinstance(o, Term):
            if o.op == "ctypes.POINTER":
                if n in ("contents", "_type_"):
                    return o.args[0] if n == "_type_" else UNK
                return self if quiet else Term("." + n, (o,))
            return self if quiet and n == "contents" else Term("." + n, (o,))
        if isinstance(o, External) and n in ("contents", "_type_") and o.name.startswith("ctypes.c_"):
            return self if quiet else UNK
        if isinstance(o, Arr) and n == "ctypes":
            return Term(".ctypes", (o,))
        if isinstance(o, Cls) and n == "_fields_":
            for c in o.node.body:
                if isinstance(c, ast.Assign) and ast.unparse(c.targets[0]) == n:
                    return self.ev(c.value, dict(getattr(o, "closure", {}), __mod__=o.mod))
        return super().attr(o, n, env, quiet)

    def store_attr(self, o, n, v):
        if isinstance(o, Term):
            o.kw[n] = v
            return None
        return super().store_attr(o, n, v)

    def binop(self, op, a, b):
        if not isinstance(a, Unknown) and not isinstance(b, Unknown) and (isinstance(a, (External, Term, Cls)) or isinstance(b, (External, Term, Cls))):
            return Term(type(op).__name__, (a, b))
        return super().binop(op, a, b)

    def cmp(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)) and (a is None or b is None) and isinstance(a if b is None else b, (External, Term)):
            return isinstance(op, ast.IsNot)
        if isinstance(op, (ast.In, ast.NotIn)) and isinstance(b, (dict, list, tuple, set)) and not b and not isinstance(a, Unknown):
            return isinstance(op, ast.NotIn)
        return super().cmp(op, a, b)

    def fmt(self, x):
        return "%s.%s" % (x.enum, x.name) if isinstance(x, Enum) else repr(x) if isinstance(x, Term) else str(x) if isinstance(x, (list, tuple, dict)) and plain(x) else None

    def prim(self, n, args, kw, env):
        if n == "eval":
            if any(isinstance(x, Unknown) for x in args) or not isinstance(args[0], str):
                return UNK
            if len(args) > 1 and isinstance(args[1], dict):
                ns = {k: (lambda *a, f=v: self.call(f, list(a), {}, env)) if not callable(v) and not isinstance(v, (int, float)) else v for k, v in args[1].items()}
            else:
                ns = {}
            ns["__builtins__"] = {k: PRIMS[k] for k in ("int", "float", "abs", "min", "max", "sum", "len")}
            try:
                return eval(args[0], ns, {k: v for k, v in (args[2] if len(args) > 2 else {}).items()})
            except Exception as x:
                raise Refused("%s: %s" % (type(x).__name__, x))
        if n in ("int", "float", "bool") and args and isinstance(args[0], Term):
            return Term(n, args[:1])
        if n in ("type", "str") and args and isinstance(args[0], (Inst, Enum)):
            return type(args[0]) if n == "type" else self.fmt(args[0]) or UNK
        return super().prim(n, args, kw, env)


def plain(x):
    if isinstance(x, dict):
        return all(plain(k) and plain(v) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return all(plain(v) for v in x)
    return isinstance(x, (str, int, float, bool, type(None)))


def call(src, lists, repo=None, max_paths=8):
    """The function of src called with each list of arguments in turn: yields (interpreter, error or None, [(library call, result) per call])."""
    todo, out = [[]], []
    while todo and len(out) < max_paths:
        ch = todo.pop()
        ip = Caller(repo, ch)
        m = ip.module("docc.python.python_program")
        if m is None or "PythonProgram" not in m.env:
            raise cxx.AnalysisError("analysis anchor lost: docc.python.python_program.PythonProgram")
        fn, callees = functions(src)
        pf = PyFun(fn, ast.get_source_segment(src, fn) + "\n")
        pf.__globals__ = callees
        env, err, got = {"__mod__": m}, None, []
        try:
            o = Obj(m.env["PythonProgram"])
            o.d.update(name=fn.name, target="none", category="server", instrumentation_mode=None, capture_args=None, remote_tuning=False, cache={}, last_sdfg=None)
            ip.call(ip.attr(o, "__init__", env), [pf], {}, env)
            for args in lists:
                n = len(ip.calls)
                r = ip.call(ip.attr(o, "__call__", env), list(args), {}, env)
                got.append(([c for c in ip.calls[n:] if libcall(c)], r))
        except Refused as x:
            err = ("raised" if x.explicit and any(b.compiled for b in ip.builders) else "refused", str(x))
        except Undecided as x:
            err = ("undecided", str(x))
        except (RecursionError, AttributeError, TypeError, ValueError, KeyError, IndexError) as x:
            err = ("undecided", "%s in the model" % type(x).__name__)
        out.append((ip, err, got))
        for i in range(len(ch), len(ip.taken)):
            if ip.taken[i]:
                todo.append(ip.taken[:i] + [False])
    return out


def libcall(t):
    f = t.args[0]
    return isinstance(f, Term) and f.op == ".kernel" and isinstance(f.args[0], Term) and f.args[0].op == "ctypes.CDLL"
