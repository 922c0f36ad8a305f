"""Stands in for the compiled bindings: the builder records what the frontend asks it to build."""
import os
import sys
import types
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd() + "/python")
m = types.ModuleType("docc.sdfg")
class Rec:
    log = []
class _T:
    def __eq__(s, o): return type(s) is type(o) and s.__dict__ == o.__dict__
    def __hash__(s): return hash(repr(s))
    def __repr__(s): return type(s).__name__ + "(" + ",".join(f"{k}={v!r}" for k, v in sorted(s.__dict__.items())) + ")"
class PT:
    def __init__(s, n): s.name = n
    def __repr__(s): return s.name
    def __eq__(s, o): return isinstance(o, PT) and s.name == o.name
    def __hash__(s): return hash(s.name)
class PTM(type):
    def __getattr__(c, n):
        if n.startswith("__"): raise AttributeError(n)
        return PT(n)
class PrimitiveType(metaclass=PTM): pass
class Type(_T): pass
class Scalar(Type):
    def __init__(s, p): s.primitive_type = p
class Pointer(Type):
    def __init__(s, p=None): s.pointee_type = p
    def has_pointee_type(s): return s.pointee_type is not None
    @property
    def primitive_type(s): return s.pointee_type.primitive_type if s.pointee_type is not None else PT('Void')
class Array(Type):
    @property
    def primitive_type(s): return s.element_type.primitive_type
    def __init__(s, e, n): s.element_type = e; s.num_elements = n
class Structure(Type):
    def __init__(s, n): s.name = n
class Tensor(Type):
    def __init__(s, e, shape, strides=None, offset="0"):
        s.element_type = e if isinstance(e, Scalar) else Scalar(e)
        s.shape = [str(x) for x in shape]
        if strides is None:
            strides = []; acc = "1"
            for x in reversed(s.shape): strides.insert(0, acc); acc = f"({acc} * {x})"
        s.strides = [str(x) for x in strides]; s.offset = offset
    def flip(s, ax): st=list(s.strides); st[ax]=f'-({st[ax]})'; return Tensor(s.element_type, s.shape, st, s.offset+f'+f{ax}')
    @property
    def primitive_type(s): return s.element_type.primitive_type
class DebugInfo(_T):
    def __init__(s, *a): s.a = len(a)
class En(metaclass=PTM): pass
class TaskletCode(En): pass
class CMathFunction(En): pass
class StructuredSDFG(_T):
    arguments=()
    def __getattr__(s, n):
        if n.startswith("__"): raise AttributeError(n)
        return lambda *a, **k: None
class Builder:
    def __init__(s, *a): s._n = 0; s._seen=set(); s._c = {}; Rec.log.append(("new", repr(a)))
    def __getattr__(s, n):
        def f(*a, **k):
            Rec.log.append((n, repr(a), repr(sorted(k.items()))))
            if n == "add_container" or n == "add_external": s._seen.add(a[0])
            if n == "exists": return a[0] in s._seen
            if n == "is_hoistable_size": return False
            if n == "find_new_name":
                s._n += 1; x = f"{a[0] if a else 'tmp'}{s._n}"; return x
            if n == "get_sizeof": return "8"
            s._n += 1
            return s._n
        return f
    def move(s): Rec.log.append(("move",)); return StructuredSDFG()
for x in (Type, Scalar, Pointer, Array, Structure, Tensor, DebugInfo, PrimitiveType, TaskletCode, CMathFunction, StructuredSDFG): setattr(m, x.__name__, x)
m.StructuredSDFGBuilder = Builder
m._plugin_context = lambda *a, **k: None
sys.modules["docc.sdfg"] = m
md = types.ModuleType("ml_dtypes")
import numpy as np
md.bfloat16 = np.float16
sys.modules["ml_dtypes"] = md


def translate(fn, *args):
    """Builder calls made for a Python function, or the exception that refused it."""
    from docc.python.python_program import PythonProgram
    Rec.log = []
    try:
        PythonProgram(fn, target="none", category="server").to_sdfg(*args)
    except Exception as e:
        return e
    return list(Rec.log)


def refused(fn, *args):
    return isinstance(translate(fn, *args), (NotImplementedError, ValueError, TypeError, SyntaxError))
