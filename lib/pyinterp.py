"""Abstract interpreter for the Python frontend's translation code.

The sources are parsed, never imported. The builder is a recording one: the result of interpreting a visit
method on a syntax tree whose operands are only names is the program it would build. Values are constants,
records, or Unknown; a branch on an unknown value is followed both ways (bounded re-execution)."""
import ast
import copy
import inspect
import math
import os
import re
import textwrap

from . import cxx
from .pysym import canon

ROOT = "python/docc/"


class Undecided(Exception):
    pass


class Refused(Exception):
    """The interpreted code raised; explicit: by a raise statement that depends on nothing the model lacks."""
    explicit = False


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


class Unknown:
    def __repr__(self):
        return "?"


UNK = Unknown()


class Enum:
    """A member of an enumeration of the bindings (PrimitiveType.Int64)."""
    def __init__(self, enum, name):
        self.enum, self.name = enum, name

    def __eq__(self, o):
        return isinstance(o, Enum) and (self.enum, self.name) == (o.enum, o.name)

    def __hash__(self):
        return hash((self.enum, self.name))

    def __repr__(self):
        return "%s.%s" % (self.enum, self.name)


class Type:
    """A type object of the bindings: Scalar, Pointer, Array, Tensor, Structure."""
    def __init__(self, kind, **f):
        self.kind, self.f = kind, f

    def __eq__(self, o):
        return isinstance(o, Type) and (self.kind, self.f) == (o.kind, o.f)

    def __hash__(self):
        return hash((self.kind, repr(sorted(self.f.items(), key=str))))

    def __repr__(self):
        return "%s(%s)" % (self.kind, ",".join("%s" % (v,) for v in self.f.values()))


class Ctor:
    def __init__(self, kind):
        self.kind = kind


class EnumCls:
    def __init__(self, name):
        self.name = name


class Cls:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.bases = [b for b in node.bases]
        self.methods = {n.name: n for n in node.body if isinstance(n, ast.FunctionDef)}


class Obj:
    def __init__(self, cls):
        self.cls, self.d = cls, {}


class Fun:
    def __init__(self, mod, node, self_=None, closure=None):
        self.mod, self.node, self.self_, self.closure = mod, node, self_, closure


class Mod:
    def __init__(self, path, tree):
        self.path, self.tree, self.env = path, tree, {}


class External:
    """A name of a module that is not interpreted (numpy, inspect, ..)."""
    def __init__(self, name):
        self.name = name


class PyFun:
    """A function of the program that is translated (as the value of a global name)."""
    def __init__(self, node, src):
        self.__name__ = self.name = node.name
        self.src = src
        self.__closure__ = None
        self.__globals__ = {}
        self.__code__ = type("Code", (), {"co_freevars": (), "co_name": node.name, "co_firstlineno": 1,
                                         "co_names": tuple(sorted({n.id for n in ast.walk(node) if isinstance(n, ast.Name)}))})()


class DType:
    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, DType) and o.name == self.name

    def __hash__(self):
        return hash(self.name)


class Arr:
    """An array passed to the program: its dtype, extents, strides (in elements) and flags; no contents."""
    def __init__(self, dtype, shape, strides, itemsize=8):
        self.dtype, self.shape, self.ndim, self.itemsize = DType(dtype), tuple(shape), len(shape), itemsize
        self.strides = tuple(s * itemsize for s in strides)

        def packed(order):
            n = 1
            for i in order:
                if shape[i] != 1 and strides[i] != n:
                    return False
                n *= shape[i]
            return True
        self.flags = {"C_CONTIGUOUS": packed(range(self.ndim - 1, -1, -1)), "F_CONTIGUOUS": packed(range(self.ndim))}
        self.flags["FORC"] = self.flags["C_CONTIGUOUS"] or self.flags["F_CONTIGUOUS"]


class Inst:
    """An object passed to the program: its class name and the members it has."""
    def __init__(self, cls, members):
        self.__dict__.update(members)
        self.__class__ = type(cls, (Inst,), {})


class Sink:
    """Stands for a class whose construction ends the analysis: keeps what it is given."""
    def __init__(self, got):
        self.got = got


class Signature:
    """inspect.signature of a function of the program."""
    empty = inspect.Signature.empty

    def __init__(self, f):
        a = ast.parse(f.src).body[0].args
        self.parameters = {x.arg: x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        r = ast.parse(f.src).body[0].returns
        self.return_annotation = self.empty if r is None else ("prim", r.id) if isinstance(r, ast.Name) and r.id in PRIMS else External(ast.unparse(r).replace("np.", "numpy."))


VALUES = {"inspect.Signature.empty": inspect.Signature.empty}
ENVIRON = {"os.environ.get": lambda k, d=None: d, "os.getenv": lambda k, d=None: d, "os.path.exists": lambda p: False, "getpass.getuser": lambda: "user"}
NATIVE = {**ENVIRON, "typing.get_origin": lambda a: None, "typing.get_args": lambda a: (), "inspect.isclass": lambda a: False, "inspect.signature": Signature, "inspect.getsourcefile": lambda f: "program.py",
          "inspect.isfunction": lambda f: isinstance(f, PyFun), "inspect.getsourcelines": lambda f: (f.src.splitlines(True), 1),
          "inspect.getsource": lambda f: f.src, "textwrap.dedent": textwrap.dedent}

PRIMS = {"len": len, "str": str, "int": int, "float": float, "range": range, "zip": zip, "enumerate": enumerate, "list": list, "tuple": tuple, "dict": dict,
         "set": set, "frozenset": frozenset, "any": any, "all": all, "min": min, "max": max, "repr": repr, "sorted": sorted, "abs": abs, "sum": sum, "bool": bool,
         "reversed": reversed, "map": None, "filter": None, "round": round, "ord": ord, "chr": chr, "id": id, "complex": complex, "bytes": bytes, "slice": slice,
         "type": type, "object": object, "iter": iter, "next": next, "divmod": divmod, "hash": hash, "pow": pow}
EXC = {n for n in dir(__builtins__ if not isinstance(__builtins__, dict) else type("b", (), __builtins__))
       if n.endswith(("Error", "Exception", "Warning", "Iteration", "Interrupt"))}


# ---------------------------------------------------------------- the recording builder
class Node:
    def __init__(self, kind, **k):
        self.kind = kind
        self.__dict__.update(k)


class Builder:
    """Records what it is asked to build."""
    def __init__(self):
        self.types = {}
        self.n = 0
        self.root = []
        self.stack = [self.root]
        self.ifs = []
        self.args = set()
        self.arguments = []
        self.structures = {}
        self.inputs = set()

    def move(self):
        return Node("sdfg", arguments=list(self.arguments))

    # containers
    def find_new_name(self, prefix="tmp_"):
        if not isinstance(prefix, str):
            prefix = "tmp_"
        i = 0
        while prefix + str(i) in self.types:
            i += 1
        return prefix + str(i)

    def exists(self, name):
        return name in self.types

    def add_container(self, name, t, is_argument=False):
        if name in self.types:
            raise Refused("container %s exists already" % (name,))
        self.types[name] = t
        if is_argument is True:
            self.arguments.append(name)
            self.inputs.add(name)

    def add_structure(self, name, members):
        self.structures[name] = list(members)

    def set_return_type(self, t):
        pass

    # structure
    def put(self, x):
        self.stack[-1].append(x)

    def add_block(self, debug_info=None):
        b = Node("block", nodes=[], edges=[])
        self.put(b)
        return b

    def begin_if(self, cond, debug_info=None):
        n = Node("if", cond=cond, then=[], els=[])
        self.put(n)
        self.ifs.append(n)
        self.stack.append(n.then)

    def begin_else(self, debug_info=None):
        self.stack.pop()
        self.stack.append(self.ifs[-1].els)

    def end_if(self):
        self.stack.pop()
        self.ifs.pop()

    def begin_for(self, var, start, end, step, debug_info=None):
        n = Node("for", var=var, start=start, end=end, step=step, body=[])
        self.put(n)
        self.stack.append(n.body)

    def end_for(self):
        self.stack.pop()

    def begin_while(self, debug_info=None):
        n = Node("while", body=[])
        self.put(n)
        self.stack.append(n.body)

    def end_while(self):
        self.stack.pop()

    def add_break(self, debug_info=None):
        self.put(Node("break"))

    def add_continue(self, debug_info=None):
        self.put(Node("continue"))

    def add_return(self, name, debug_info=None):
        self.put(Node("return", name=name))

    def add_transition(self, name, value, debug_info=None):
        self.put(Node("set", name=name, value=value))

    add_assignment = add_transition

    # data flow
    def add_access(self, block, name, debug_info=None):
        n = Node("access", name=name)
        block.nodes.append(n)
        return n

    def add_constant(self, block, value, type=None, debug_info=None):
        n = Node("const", value=value, type=type)
        block.nodes.append(n)
        return n

    def add_tasklet(self, block, code, inputs, outputs, debug_info=None):
        n = Node("task", code=code, ins=inputs, outs=outputs)
        block.nodes.append(n)
        return n

    def add_cmath(self, block, fn, prim=None, debug_info=None):
        n = Node("cmath", code=fn)
        block.nodes.append(n)
        return n

    def add_memlet(self, block, src, src_conn, dst, dst_conn, subset="", type=None, debug_info=None):
        block.edges.append((src, src_conn, dst, dst_conn, subset, type))

    def add_reference_memlet(self, block, src, dst, subset="", type=None, debug_info=None):
        block.edges.append((src, "ref", dst, "ref", subset, type))

    SIZE = {"Bool": 1, "Int8": 1, "UInt8": 1, "Int16": 2, "UInt16": 2, "Half": 2, "Int32": 4, "UInt32": 4, "Float": 4,
            "Int64": 8, "UInt64": 8, "Double": 8}

    def get_sizeof(self, t):
        p = t.f.get("primitive_type") if isinstance(t, Type) else None
        return str(self.SIZE[p.name]) if isinstance(p, Enum) and p.name in self.SIZE else UNK

    def is_hoistable_size(self, text):
        if not isinstance(text, str):
            return UNK
        return all(w in self.inputs for w in re.findall(r"[A-Za-z_]\w*", text) if w not in ("idiv", "imod", "min", "max"))

    def insert_block_at_root_start(self, debug_info=None):
        b = Node("block", nodes=[], edges=[])
        self.root.insert(0, b)
        return b

    def add_malloc(self, block, size, debug_info=None):
        n = Node("malloc", size=size)
        block.nodes.append(n)
        return n

    def add_memset(self, block, value, num, debug_info=None):
        n = Node("memset", value=value, num=num)
        block.nodes.append(n)
        return n

    def add_free(self, block, debug_info=None):
        n = Node("free")
        block.nodes.append(n)
        return n

    def call(self, name, args, kw):
        """A method without a model: recorded as an opaque operation."""
        n = Node("op", name=name, args=args, kw=kw)
        self.put(n)
        return n


class Interp:
    limit = 400000

    def __init__(self, repo=None, choices=()):
        self.repo = repo or cxx.REPO
        self.mods = {}
        self.steps = 0
        self.choices, self.taken = list(choices), []
        self.funcs = set()
        self.soft = False

    # ------------------------------------------------------------ modules
    def module(self, dotted):
        if dotted in self.mods:
            return self.mods[dotted]
        p = os.path.join(self.repo, "python", dotted.replace(".", "/"))
        p = p + ".py" if os.path.exists(p + ".py") else os.path.join(p, "__init__.py")
        if not dotted.startswith("docc.") or not os.path.exists(p):
            return None
        m = Mod(p, tree(p))
        m.dotted = dotted
        self.mods[dotted] = m
        for n in m.tree.body:
            if isinstance(n, ast.FunctionDef):
                m.env[n.name] = Fun(m, n)
            elif isinstance(n, ast.ClassDef):
                m.env[n.name] = Cls(m, n)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    m.env[(a.asname or a.name).split(".")[0]] = self.ext(a.name)
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    m.env[a.asname or a.name] = ("lazy", n.module or "", a.name)
            elif isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(t, ast.Name):
                        m.env[t.id] = ("expr", n.value)
        return m

    def ext(self, name):
        return {"ast": ast, "copy": copy, "math": math, "builtins": External("builtins")}.get(name) or External(name)

    def glob(self, m, name):
        if name in m.env:
            v = m.env[name]
            if isinstance(v, tuple) and v and v[0] == "lazy":
                v = self.imported(v[1], v[2])
                m.env[name] = v
            elif isinstance(v, tuple) and v and v[0] == "expr":
                m.env[name] = UNK
                v = self.ev(v[1], {"__mod__": m})
                m.env[name] = v
            return v
        if name in PRIMS or name in ("isinstance", "hasattr", "getattr", "setattr", "callable", "super", "print", "issubclass"):
            return ("prim", name)
        if name in EXC:
            return ("exc", name)
        return UNK

    SDFG = {"Scalar": Ctor("Scalar"), "Pointer": Ctor("Pointer"), "Array": Ctor("Array"), "Tensor": Ctor("Tensor"), "Structure": Ctor("Structure"),
            "DebugInfo": Ctor("DebugInfo"), "PrimitiveType": EnumCls("PrimitiveType"), "TaskletCode": EnumCls("TaskletCode"), "CMathFunction": EnumCls("CMathFunction")}

    def imported(self, module, name):
        if module == "docc.sdfg" or module.startswith("docc.sdfg."):
            return self.SDFG.get(name) or Ctor(name)
        m = self.module(module)
        if m is not None:
            return self.glob(m, name)
        if module in ("ast", "copy", "math"):
            return getattr(self.ext(module), name)
        return External(module + "." + name)

    # ------------------------------------------------------------ decisions
    def truth(self, v):
        if isinstance(v, Unknown):
            i = len(self.taken)
            c = self.choices[i] if i < len(self.choices) else True
            self.taken.append(c)
            return c
        if isinstance(v, (Obj, Enum, Type, Ctor, Cls, Fun, Node, Builder, External)):
            return True
        return bool(v)

    # ------------------------------------------------------------ calls
    def method(self, cls, name):
        if name in cls.methods:
            return cls.mod, cls.methods[name]
        for b in cls.bases:
            c = self.ev(b, {"__mod__": cls.mod}) if isinstance(b, ast.Name) else None
            if isinstance(c, Cls):
                r = self.method(c, name)
                if r:
                    return r
        return None

    def invoke(self, f, args, kw):
        mod, node = f.mod, f.node
        a = node.args
        env = dict(f.closure or (getattr(f.self_.cls, "closure", None) if isinstance(f.self_, Obj) else None) or {})
        env["__mod__"] = mod
        names = [x.arg for x in a.posonlyargs + a.args]
        if f.self_ is not None:
            args = [f.self_] + list(args)
        if len(args) > len(names):
            if a.vararg is None:
                raise Refused("too many arguments")
            env[a.vararg.arg] = tuple(args[len(names):])
        elif a.vararg is not None:
            env[a.vararg.arg] = ()
        for n, v in zip(names, args):
            env[n] = v
        ds = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for n in names[len(args):] + [x.arg for x in a.kwonlyargs]:
            if n in kw:
                env[n] = kw[n]
            elif n in ds:
                env[n] = self.ev(ds[n], {"__mod__": mod})
            else:
                d = dict(zip([x.arg for x in a.kwonlyargs], a.kw_defaults)).get(n)
                if d is None:
                    raise Undecided("missing argument " + n)
                env[n] = self.ev(d, {"__mod__": mod})
        rest = {k: v for k, v in kw.items() if k not in names and k not in [x.arg for x in a.kwonlyargs]}
        if a.kwarg is not None:
            env[a.kwarg.arg] = rest
        self.funcs.add(node.name if isinstance(node, ast.FunctionDef) else "<lambda>")
        if isinstance(node, ast.Lambda):
            return self.ev(node.body, env)
        try:
            self.block(node.body, env)
        except Ret as r:
            return r.v
        return None

    def call(self, fn, args, kw, env):
        if isinstance(fn, External) and fn.name in NATIVE and not kw and not any(isinstance(x, Unknown) for x in args):
            try:
                return NATIVE[fn.name](*args)
            except (TypeError, AttributeError):
                return UNK
        if isinstance(fn, Unknown) or isinstance(fn, External):
            return UNK
        if isinstance(fn, Sink):
            fn.got.append((args, kw))
            return UNK
        if isinstance(fn, Fun):
            return self.invoke(fn, args, kw)
        if isinstance(fn, Cls):
            o = Obj(fn)
            m = self.method(fn, "__init__")
            if m:
                self.invoke(Fun(m[0], m[1], o), args, kw)
            return o
        if isinstance(fn, Ctor):
            return self.construct(fn.kind, args, kw)
        if isinstance(fn, tuple) and fn[:1] == ("prim",):
            return self.prim(fn[1], args, kw, env)
        if isinstance(fn, tuple) and fn[:1] == ("exc",):
            return ("exn", fn[1], args)
        if isinstance(fn, tuple) and fn[:1] == ("visit",):
            return self.visit(fn[1], args[0])
        if isinstance(fn, tuple) and fn[:1] == ("bmeth",):
            b, n = fn[1], fn[2]
            if any(isinstance(x, Unknown) for x in args):
                raise Undecided("the builder is called with a value that is not known: " + n)
            if hasattr(Builder, n) and n not in ("call", "put"):
                try:
                    return getattr(b, n)(*args, **kw)
                except (TypeError, IndexError, AttributeError) as e:
                    raise Undecided("builder." + n + ": " + str(e))
            return b.call(n, args, kw)
        if callable(fn):
            if getattr(fn, "__name__", "") == "join" and args and isinstance(args[0], (list, tuple)) and any(isinstance(x, Unknown) for x in args[0]):
                return UNK
            if any(isinstance(x, Unknown) for x in list(args) + list(kw.values())):
                o = getattr(fn, "__self__", None)
                if isinstance(o, (list, dict, set)) and getattr(fn, "__name__", "") in ("append", "add", "get", "pop", "extend", "insert", "setdefault"):
                    try:
                        return fn(*args, **kw)
                    except Exception:
                        pass
                return UNK
            try:
                return fn(*args, **kw)
            except (ValueError, KeyError, IndexError, TypeError, AttributeError) as e:
                raise Refused("%s: %s" % (type(e).__name__, e))
        raise Undecided("call of %r" % (fn,))

    def construct(self, kind, args, kw):
        if kind == "StructuredSDFGBuilder":
            self.builder = Builder()
            return self.builder
        if kind == "Scalar":
            return Type("Scalar", primitive_type=args[0] if args else UNK)
        if kind == "Pointer":
            t = Type("Pointer")
            if args:
                t.f["pointee_type"] = args[0]
            return t
        if kind == "Array":
            return Type("Array", element_type=args[0], num_elements=args[1] if len(args) > 1 else UNK)
        if kind == "Tensor":
            sh = args[1] if len(args) > 1 else kw.get("shape", UNK)
            st = args[2] if len(args) > 2 else kw.get("strides")
            if st is None and isinstance(sh, (list, tuple)):
                st, acc = [], "1"
                for x in reversed(list(sh)):
                    st.insert(0, acc)
                    acc = "(%s * %s)" % (acc, x)
            off = args[3] if len(args) > 3 else kw.get("offset", "0")
            return Type("Tensor", element_type=args[0], shape=[canon(x) for x in sh] if isinstance(sh, (list, tuple)) else UNK,
                        strides=[canon(x) for x in st] if isinstance(st, (list, tuple)) else UNK,
                        offset=canon(off) if isinstance(off, (str, int)) else off)
        if kind == "Structure":
            return Type("Structure", name=args[0] if args else UNK)
        if kind == "DebugInfo":
            return Type("DebugInfo")
        return UNK

    def flip(self, t, axis):
        """types::Tensor::flip: the stride of the axis is negated, the offset moves to its last element."""
        sh, st, off = t.f["shape"], t.f["strides"], t.f["offset"]
        if not isinstance(axis, int) or not isinstance(sh, list) or not isinstance(st, list) or isinstance(off, Unknown):
            return UNK
        if not 0 <= axis < len(sh):
            raise Refused("axis out of range for flip")
        new = list(st)
        new[axis] = "-(%s)" % st[axis]
        return self.construct("Tensor", [t.f["element_type"], list(sh), new, "%s + (%s) * ((%s) - 1)" % (off, st[axis], sh[axis])], {})

    def isinst(self, v, c):
        if isinstance(c, tuple) and not (c and c[0] in ("prim", "exc")):
            rs = [self.isinst(v, x) for x in c]
            return True if True in rs else UNK if any(isinstance(r, Unknown) for r in rs) else False
        if isinstance(v, Unknown):
            return UNK
        if isinstance(c, Ctor):
            return isinstance(v, Type) and v.kind == c.kind
        if isinstance(c, EnumCls):
            return isinstance(v, Enum) and v.enum == c.name
        if isinstance(c, Cls):
            def sub(k):
                return k is c or any(isinstance(b2, Cls) and sub(b2) for b2 in [self.ev(b, {"__mod__": k.mod}) for b in k.bases if isinstance(b, ast.Name)])
            return isinstance(v, Obj) and sub(v.cls)
        if isinstance(c, tuple) and c[0] == "prim":
            t = PRIMS.get(c[1])
            return isinstance(v, t) if isinstance(t, type) and not isinstance(v, (Obj, Enum, Type, Node, Builder, External)) else False
        if isinstance(c, type):
            return isinstance(v, c)
        if isinstance(v, (Arr, Inst)):
            return isinstance(v, Arr) and isinstance(c, External) and c.name == "numpy.ndarray"
        return UNK if isinstance(c, (Unknown, External)) and not isinstance(v, (str, int, float, list, dict, tuple, ast.AST, Type, Enum, type(None))) else False

    def prim(self, n, args, kw, env):
        if n == "isinstance":
            return self.isinst(args[0], args[1])
        if n == "hasattr":
            v = self.attr(args[0], args[1], env, quiet=True)
            return UNK if isinstance(v, Unknown) and isinstance(args[0], Unknown) else v is not self
        if n == "getattr":
            v = self.attr(args[0], args[1], env, quiet=True)
            if v is self:
                if len(args) > 2:
                    return args[2]
                raise Refused("no attribute " + str(args[1]))
            return v
        if n == "setattr":
            self.store_attr(args[0], args[1], args[2])
            return None
        if n == "callable":
            v = args[0]
            return UNK if isinstance(v, Unknown) else isinstance(v, (Fun, Cls, Ctor)) or (isinstance(v, tuple) and v[:1] in (("prim",), ("visit",), ("bmeth",))) \
                or (callable(v) and not isinstance(v, (Obj, Type, Enum, Node)))
        if n == "print":
            return None
        if n == "super":
            return UNK
        if n == "type":
            v = args[0]
            if isinstance(v, Unknown):
                return UNK
            return ("tyobj", v.kind if isinstance(v, Type) else v.cls.name if isinstance(v, Obj) else type(v).__name__)
        if any(isinstance(x, Unknown) for x in args):
            return UNK
        if n == "str" and args and isinstance(args[0], (Type, Enum, Obj, Node)):
            return UNK
        if n in ("map", "filter"):
            f, it = args[0], args[1]
            r = [self.call(f, [x], {}, env) for x in it]
            return r if n == "map" else [x for x, y in zip(it, r) if self.truth(y)]
        if n in ("any", "all"):
            xs = list(args[0])
            if any(isinstance(x, Unknown) for x in xs):
                known = [self.truth(x) for x in xs if not isinstance(x, Unknown)]
                if n == "any" and any(known):
                    return True
                if n == "all" and not all(known):
                    return False
                return UNK
        kw = {k: (lambda *a, f=v: self.call(f, list(a), {}, env)) if isinstance(v, Fun) else v for k, v in kw.items()}
        try:
            return PRIMS[n](*args, **kw)
        except (ValueError, TypeError, KeyError, IndexError, StopIteration) as e:
            raise Refused("%s: %s" % (type(e).__name__, e))

    # ------------------------------------------------------------ node visitors
    def visit(self, o, node):
        if isinstance(node, Unknown):
            raise Undecided("a node that is not known is visited")
        m = self.method(o.cls, "visit_" + type(node).__name__)
        if m:
            return self.invoke(Fun(m[0], m[1], o), [node], {})
        m = self.method(o.cls, "generic_visit")
        if m:
            return self.invoke(Fun(m[0], m[1], o), [node], {})
        return self.children(o, node)

    def is_visitor(self, cls, kinds=("NodeVisitor", "NodeTransformer")):
        for b in cls.bases:
            t = ast.unparse(b)
            if t.endswith(kinds):
                return True
            c = self.ev(b, {"__mod__": cls.mod})
            if isinstance(c, Cls) and self.is_visitor(c, kinds):
                return True
        return False

    # ------------------------------------------------------------ attributes
    def attr(self, o, n, env, quiet=False):
        """The attribute; with quiet, self (the interpreter) when it does not exist."""
        if isinstance(o, Unknown) or isinstance(o, External):
            return VALUES.get(o.name + "." + n, External(o.name + "." + n)) if isinstance(o, External) else UNK
        if isinstance(o, Obj):
            if n in o.d:
                return o.d[n]
            m = self.method(o.cls, n)
            if m:
                decs = [ast.unparse(d) for d in m[1].decorator_list]
                if "property" in decs:
                    return self.invoke(Fun(m[0], m[1], o), [], {})
                return Fun(m[0], m[1], None if "staticmethod" in decs else o)
            if n in ("visit", "generic_visit") and self.is_visitor(o.cls):
                return ("visit", o) if n == "visit" else (lambda node: self.children(o, node))
            for c in o.cls.node.body:
                if isinstance(c, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n for t in c.targets):
                    return self.ev(c.value, {"__mod__": o.cls.mod})
            return self if quiet else UNK
        if isinstance(o, Builder):
            return ("bmeth", o, n)
        if isinstance(o, EnumCls):
            return Enum(o.name, n)
        if isinstance(o, Enum):
            return o.name if n == "name" else (self if quiet else UNK)
        if isinstance(o, Type):
            if n in o.f:
                return o.f[n]
            if o.kind == "Pointer" and n == "has_pointee_type":
                return lambda: "pointee_type" in o.f
            if n == "primitive_type":
                for k in ("pointee_type", "element_type"):
                    if k in o.f:
                        return self.attr(o.f[k], n, env)
            if o.kind == "Tensor" and n == "dtype":
                return o.f["element_type"]
            if o.kind == "Tensor" and n == "flip":
                return lambda axis: self.flip(o, axis)
            return self if quiet else UNK
        if isinstance(o, tuple) and o[:1] == ("tyobj",) and n == "__name__":
            return o[1]
        if isinstance(o, Node):
            return getattr(o, n, self if quiet else UNK)
        if isinstance(o, Cls) and n != "__name__":
            for c in o.node.body:
                if isinstance(c, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n for t in c.targets):
                    return self.ev(c.value, {"__mod__": o.mod})
        if isinstance(o, (Cls, Fun, Ctor)):
            return o.name if n == "__name__" and isinstance(o, Cls) else UNK
        try:
            return getattr(o, n)
        except AttributeError:
            if quiet:
                return self
            raise Refused("no attribute %s" % n)

    def children(self, o, node):
        """generic_visit of a visitor, or of a transformer: the results replace the children."""
        if not self.is_visitor(o.cls, "NodeTransformer"):
            for _, v in ast.iter_fields(node):
                for x in v if isinstance(v, list) else [v]:
                    if isinstance(x, ast.AST):
                        self.visit(o, x)
            return None
        for f, v in ast.iter_fields(node):
            if isinstance(v, list):
                new = []
                for x in v:
                    if isinstance(x, ast.AST):
                        x = self.visit(o, x)
                        if isinstance(x, Unknown):
                            raise Undecided("a node that is not known")
                        if x is None:
                            continue
                        if isinstance(x, list):
                            new.extend(x)
                            continue
                    new.append(x)
                v[:] = new
            elif isinstance(v, ast.AST):
                x = self.visit(o, v)
                if isinstance(x, Unknown):
                    raise Undecided("a node that is not known")
                if x is None:
                    delattr(node, f)
                else:
                    setattr(node, f, x)
        return node

    def store_attr(self, o, n, v):
        if isinstance(o, Obj):
            o.d[n] = v
        elif isinstance(o, ast.AST):
            setattr(o, n, v)
        elif isinstance(o, Type):
            o.f[n] = v

    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        self.steps += 1
        if self.steps > self.limit:
            raise Undecided("too many steps")
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Undecided("expression " + type(e).__name__)
        return m(e, env)

    def e_Constant(self, e, env):
        return e.value

    def e_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        return self.glob(env["__mod__"], e.id)

    def e_Attribute(self, e, env):
        return self.attr(self.ev(e.value, env), e.attr, env)

    def fmt(self, x):
        """The text of a value in a format string, if it is known."""
        return None

    def e_JoinedStr(self, e, env):
        out = ""
        for v in e.values:
            if isinstance(v, ast.Constant):
                out += v.value
                continue
            x = self.ev(v.value, env)
            if not isinstance(x, (str, int, float, type(None))):
                x = self.fmt(x)
                if x is None:
                    return UNK
            if v.format_spec is not None:
                return UNK
            out += repr(x) if v.conversion == 114 else str(x)
        return out

    def seq(self, elts, env):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value, env)
                if isinstance(v, Unknown):
                    raise Undecided("unpacking")
                out += list(v)
            else:
                out.append(self.ev(x, env))
        return out

    def e_List(self, e, env):
        return self.seq(e.elts, env)

    def e_Tuple(self, e, env):
        return tuple(self.seq(e.elts, env))

    def e_Set(self, e, env):
        return set(self.seq(e.elts, env))

    def e_Dict(self, e, env):
        out = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = self.ev(v, env)
                if isinstance(x, Unknown):
                    return UNK
                out.update(x)
                continue
            kk = self.ev(k, env)
            if isinstance(kk, Unknown):
                return UNK
            out[kk] = self.ev(v, env)
        return out

    def e_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def e_BoolOp(self, e, env):
        for x in e.values:
            v = self.ev(x, env)
            t = self.truth(v)
            if t != isinstance(e.op, ast.And):
                return v if not isinstance(v, Unknown) else t
        return v if not isinstance(v, Unknown) else t

    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return UNK if isinstance(v, Unknown) else not self.truth(v)
        if isinstance(v, Unknown):
            return UNK
        return -v if isinstance(e.op, ast.USub) else +v if isinstance(e.op, ast.UAdd) else ~v

    OPS = {ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b, ast.Div: lambda a, b: a / b, ast.FloorDiv: lambda a, b: a // b,
           ast.Mod: lambda a, b: a % b, ast.Pow: lambda a, b: a ** b, ast.BitOr: lambda a, b: a | b, ast.BitAnd: lambda a, b: a & b, ast.BitXor: lambda a, b: a ^ b,
           ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b}

    def e_BinOp(self, e, env):
        a, b = self.ev(e.left, env), self.ev(e.right, env)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        if isinstance(a, Unknown) or isinstance(b, Unknown):
            return UNK
        if isinstance(a, (Obj, Type, Enum, Node)) or isinstance(b, (Obj, Type, Enum, Node)):
            return UNK
        try:
            return self.OPS[type(op)](a, b)
        except (TypeError, ZeroDivisionError, ValueError) as x:
            raise Refused(str(x))

    def e_Compare(self, e, env):
        a = self.ev(e.left, env)
        for op, c in zip(e.ops, e.comparators):
            b = self.ev(c, env)
            r = self.cmp(op, a, b)
            if isinstance(r, Unknown):
                return UNK
            if not r:
                return False
            a = b
        return True

    def cmp(self, op, a, b):
        if isinstance(op, (ast.In, ast.NotIn)):
            if isinstance(b, (Unknown, External, Obj)) or isinstance(a, Unknown):
                return UNK
            try:
                r = a in b
            except TypeError as x:
                raise Refused(str(x))
            return r if isinstance(op, ast.In) else not r
        if isinstance(a, DType) and isinstance(b, External) and isinstance(op, (ast.Eq, ast.NotEq)):
            return (b.name in ("numpy." + a.name, "ml_dtypes." + a.name)) == isinstance(op, ast.Eq)
        if isinstance(a, (Unknown, External)) or isinstance(b, (Unknown, External)):
            return UNK
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = a is b or (isinstance(a, (Enum, bool)) and a == b) or (isinstance(a, tuple) and isinstance(b, tuple) and a[:1] == ("prim",) and a == b)
            return r if isinstance(op, ast.Is) else not r
        try:
            return {ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b, ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b,
                    ast.GtE: lambda: a >= b}[type(op)]()
        except TypeError as x:
            raise Refused(str(x))

    def e_Subscript(self, e, env):
        o = self.ev(e.value, env)
        if isinstance(e.slice, ast.Slice):
            ks = [self.ev(x, env) if x is not None else None for x in (e.slice.lower, e.slice.upper, e.slice.step)]
            k = slice(*ks) if not any(isinstance(x, Unknown) for x in ks) else UNK
        else:
            k = self.ev(e.slice, env)
        if isinstance(o, (Unknown, External)) or isinstance(k, Unknown):
            return UNK
        try:
            return o[k]
        except (KeyError, IndexError, TypeError) as x:
            raise Refused("%s: %s" % (type(x).__name__, x))

    def e_Starred(self, e, env):
        raise Undecided("starred")

    def e_Lambda(self, e, env):
        return Fun(env["__mod__"], e, None, env)

    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        env[e.target.id] = v
        return v

    def comp(self, gens, env, body):
        if not gens:
            body(env)
            return
        g = gens[0]
        it = self.ev(g.iter, env)
        if isinstance(it, Unknown) or isinstance(it, External):
            raise Undecided("iteration over an unknown value")
        for x in list(it):
            self.assign(g.target, x, env)
            if all(self.truth(self.ev(c, env)) for c in g.ifs):
                self.comp(gens[1:], env, body)

    def e_ListComp(self, e, env):
        out, env2 = [], dict(env)
        self.comp(e.generators, env2, lambda v: out.append(self.ev(e.elt, v)))
        return out

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, env):
        return set(self.e_ListComp(e, env))

    def e_DictComp(self, e, env):
        out, env2 = {}, dict(env)
        self.comp(e.generators, env2, lambda v: out.__setitem__(self.ev(e.key, v), self.ev(e.value, v)))
        return out

    def e_Call(self, e, env):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and "super" not in env:
            return ("superobj", env.get("self"))
        if isinstance(e.func, ast.Attribute):
            o = self.ev(e.func.value, env)
            if isinstance(o, tuple) and o[:1] == ("superobj",):
                if e.func.attr == "generic_visit" and isinstance(o[1], Obj):
                    return self.children(o[1], self.ev(e.args[0], env))
                return None
            fn = self.attr(o, e.func.attr, env)
        else:
            fn = self.ev(e.func, env)
        args = self.seq(e.args, env)
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None:
                if isinstance(v, Unknown):
                    raise Undecided("**kwargs")
                kw.update(v)
            else:
                kw[k.arg] = v
        return self.call(fn, args, kw, env)

    # ------------------------------------------------------------ statements
    def block(self, body, env):
        for s in body:
            self.steps += 1
            if self.steps > self.limit:
                raise Undecided("too many steps")
            m = getattr(self, "s_" + type(s).__name__, None)
            if m is None:
                raise Undecided("statement " + type(s).__name__)
            m(s, env)

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, Unknown):
                for x in t.elts:
                    self.assign(x, UNK, env)
                return
            v = list(v)
            st = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if st:
                i = st[0]
                k = len(t.elts) - 1 - i
                for x, y in zip(t.elts[:i], v):
                    self.assign(x, y, env)
                self.assign(t.elts[i].value, v[i:len(v) - k], env)
                for x, y in zip(t.elts[i + 1:], v[len(v) - k:]):
                    self.assign(x, y, env)
                return
            if len(v) != len(t.elts):
                raise Refused("unpacking")
            for x, y in zip(t.elts, v):
                self.assign(x, y, env)
        elif isinstance(t, ast.Attribute):
            self.store_attr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            if isinstance(t.slice, ast.Slice):
                ks = [self.ev(x, env) if x is not None else None for x in (t.slice.lower, t.slice.upper, t.slice.step)]
                k = UNK if any(isinstance(x, Unknown) for x in ks) or not isinstance(v, (list, tuple)) else slice(*ks)
            else:
                k = self.ev(t.slice, env)
            if isinstance(o, (Unknown, External)):
                return
            if isinstance(k, Unknown):
                raise Undecided("store under an unknown key")
            try:
                o[k] = v
            except (TypeError, IndexError) as x:
                raise Refused(str(x))
        else:
            raise Undecided("assignment target")

    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets:
            self.assign(t, v, env)

    def s_AnnAssign(self, s, env):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, env), env)

    def s_AugAssign(self, s, env):
        cur = self.ev(ast.copy_location(as_load(s.target), s.target), env)
        v = self.ev(s.value, env)
        if isinstance(cur, list) and isinstance(s.op, ast.Add) and isinstance(v, (list, tuple)):
            cur.extend(v)
            return
        self.assign(s.target, self.binop(s.op, cur, v), env)

    def s_Expr(self, s, env):
        self.ev(s.value, env)

    def s_Return(self, s, env):
        raise Ret(self.ev(s.value, env) if s.value is not None else None)

    def s_If(self, s, env):
        self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)

    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        if isinstance(it, (Unknown, External, Obj)):
            raise Undecided("iteration over an unknown value")
        for x in list(it):
            self.assign(s.target, x, env)
            try:
                self.block(s.body, env)
            except Brk:
                return
            except Cnt:
                continue
        self.block(s.orelse, env)

    def s_While(self, s, env):
        n = 0
        while self.truth(self.ev(s.test, env)):
            n += 1
            if n > 500:
                raise Undecided("loop")
            try:
                self.block(s.body, env)
            except Brk:
                return
            except Cnt:
                continue
        self.block(s.orelse, env)

    def s_Break(self, s, env):
        raise Brk()

    def s_Continue(self, s, env):
        raise Cnt()

    def s_Pass(self, s, env):
        pass

    def s_Raise(self, s, env):
        x = Refused(ast.unparse(s)[:120])
        x.explicit = not self.soft
        raise x

    def s_Assert(self, s, env):
        v = self.ev(s.test, env)
        if isinstance(v, Unknown):
            return
        if not self.truth(v):
            raise Refused("assert " + ast.unparse(s.test)[:80])

    def s_Try(self, s, env):
        try:
            self.block(s.body, env)
        except Refused as x:
            if not s.handlers:
                raise
            if not x.explicit:
                self.soft = True
            h = s.handlers[0]
            if h.name:
                env[h.name] = UNK
            self.block(h.body, env)
        else:
            self.block(s.orelse, env)
        finally:
            self.block(s.finalbody, env)

    def s_With(self, s, env):
        raise Undecided("with")

    def s_Delete(self, s, env):
        for t in s.targets:
            if isinstance(t, ast.Name):
                env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o, k = self.ev(t.value, env), self.ev(t.slice, env)
                if isinstance(o, dict):
                    o.pop(k, None)

    def s_Import(self, s, env):
        for a in s.names:
            env[(a.asname or a.name).split(".")[0]] = self.ext(a.name)

    def s_ImportFrom(self, s, env):
        for a in s.names:
            env[a.asname or a.name] = self.imported(s.module or "", a.name)

    def s_FunctionDef(self, s, env):
        env[s.name] = Fun(env["__mod__"], s, None, env)

    def s_ClassDef(self, s, env):
        c = Cls(env["__mod__"], s)
        c.closure = env
        env[s.name] = c

    def s_Global(self, s, env):
        pass

    s_Nonlocal = s_Global


_trees = {}


def tree(p):
    k = (p, os.path.getmtime(p))
    if k not in _trees:
        _trees[k] = ast.parse(open(p).read())
    return _trees[k]


def as_load(t):
    t = copy.deepcopy(t)
    for n in ast.walk(t):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return t


# ---------------------------------------------------------------- driving the parser
def functions(src):
    """(the last function of src, the others as values of global names)."""
    ds = [d for d in ast.parse(src).body if isinstance(d, ast.FunctionDef)]
    return ds[-1], {d.name: PyFun(d, ast.get_source_segment(src, d) + "\n") for d in ds[:-1]}


def translate(src, scalars, arrays, repo=None, max_paths=16, globals_=None, function=False):
    """All programs the parser may build for the statements of src. scalars: name -> primitive type name;
    arrays: name -> (primitive type, shape strings). Yields (builder, interpreter, error or None)."""
    todo, out = [[]], []
    while todo and len(out) < max_paths:
        ch = todo.pop()
        ip = Interp(repo, ch)
        m = ip.module("docc.python.ast_parser")
        if m is None or "ASTParser" not in m.env:
            raise cxx.AnalysisError("analysis anchor lost: docc.python.ast_parser.ASTParser")
        b = Builder()
        ct, tt = {}, {}
        for n, p in scalars.items():
            ct[n] = Type("Scalar", primitive_type=Enum("PrimitiveType", p))
            b.types[n] = ct[n]
        for n, (p, sh) in arrays.items():
            el = Type("Scalar", primitive_type=Enum("PrimitiveType", p))
            ct[n] = Type("Pointer", pointee_type=el)
            b.types[n] = ct[n]
            tt[n] = ip.construct("Tensor", [el, list(sh)], {})
        b.inputs = set(b.types)
        err = None
        try:
            fn, callees = functions(src) if function else (None, {})
            kw = {"globals_dict": {**(globals_ or {}), **callees}}
            if function:
                kw["infer_return_type"] = True
            o = ip.call(m.env["ASTParser"], [b, tt, ct], kw, {"__mod__": m})
            for st in fn.body if function else ast.parse(src).body:
                ip.visit(o, st)
            b.returns = [ip.attr(o, "captured_return_" + k, {"__mod__": m}, quiet=True) for k in ("shapes", "strides")]
            mh = ip.attr(o, "memory_handler", {"__mod__": m})
            if isinstance(mh, Obj):
                ip.call(ip.attr(mh, "emit_allocations", {"__mod__": m}), [], {}, {"__mod__": m})
            b.tables = (tt, ct)
        except Refused as x:
            err = ("refused", str(x))
        except Undecided as x:
            err = ("undecided", str(x))
        except (RecursionError, AttributeError, TypeError, ValueError, KeyError, IndexError) as x:
            err = ("undecided", "%s in the model" % type(x).__name__)
        out.append((b, ip, err))
        for i in range(len(ch), len(ip.taken)):
            if ip.taken[i]:
                todo.append(ip.taken[:i] + [False])
    return out


def program(src, args, repo=None, max_paths=8):
    """PythonProgram.compile interpreted on a function and its arguments (numbers and Arr): yields (builder, interpreter, error or None,
    what CompiledSDFG is given)."""
    todo, out = [[]], []
    while todo and len(out) < max_paths:
        ch = todo.pop()
        ip = Interp(repo, ch)
        m = ip.module("docc.python.python_program")
        if m is None or "PythonProgram" not in m.env:
            raise cxx.AnalysisError("analysis anchor lost: docc.python.python_program.PythonProgram")
        fn, callees = functions(src)
        pf = PyFun(fn, ast.get_source_segment(src, fn) + "\n")
        pf.__globals__ = callees
        given, err = [], None
        env = {"__mod__": m}
        m.env["CompiledSDFG"] = Sink(given)
        try:
            o = Obj(m.env["PythonProgram"])
            o.d.update(name=fn.name, target="none", category="server", instrumentation_mode=None, capture_args=None, remote_tuning=False, cache={}, last_sdfg=None)
            ip.call(ip.attr(o, "__init__", env), [pf], {}, env)
            ip.call(ip.attr(o, "compile", env), list(args), {"output_folder": "/nowhere"}, env)
        except Refused as x:
            err = ("refused", str(x))
        except Undecided as x:
            err = ("undecided", str(x))
        except (RecursionError, AttributeError, TypeError, ValueError, KeyError, IndexError) as x:
            err = ("undecided", "%s in the model" % type(x).__name__)
        out.append((getattr(ip, "builder", None), ip, err, given))
        for i in range(len(ch), len(ip.taken)):
            if ip.taken[i]:
                todo.append(ip.taken[:i] + [False])
    return out
