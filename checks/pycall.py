"""F06: a call of a translated function hands every argument to its parameter and the results back, however often it is called.

PythonProgram.__call__, compile and CompiledSDFG are interpreted on descriptions of the arguments; ctypes and NumPy operations are kept as
terms. The arguments of the library call are decoded against the program that was built (its parameters in their order and types), the
program runs on the flat memory they denote, and the terms of the result are evaluated on the buffers."""
from lib import cxx, pycall as C, pyinterp as P, pysem as S
from checks.instr import Acc
from checks import pyops as O, pyarrays as R, pyfuncs as F

numpy = O.numpy
CT = {"ctypes.c_bool": "Bool", "ctypes.c_int8": "Int8", "ctypes.c_byte": "Int8", "ctypes.c_int16": "Int16", "ctypes.c_short": "Int16", "ctypes.c_int32": "Int32", "ctypes.c_int": "Int32",
      "ctypes.c_int64": "Int64", "ctypes.c_longlong": "Int64", "ctypes.c_long": "Int64", "ctypes.c_uint8": "UInt8", "ctypes.c_ubyte": "UInt8", "ctypes.c_uint16": "UInt16",
      "ctypes.c_uint32": "UInt32", "ctypes.c_uint64": "UInt64", "ctypes.c_float": "Float", "ctypes.c_double": "Double"}
NP = {"numpy." + x for x in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32", "float64", "bool_")}
DT = {"Bool": "bool", "Int8": "int8", "Int16": "int16", "Int32": "int32", "Int64": "int64", "UInt8": "uint8", "UInt16": "uint16", "UInt32": "uint32", "UInt64": "uint64", "Float": "float32", "Double": "float64"}
T, X = C.Term, P.External


class Bad(Exception):
    pass


def ctype(t):
    if isinstance(t, X) and t.name in CT:
        return CT[t.name]
    raise S.Undecided("ctypes type %s" % C.show(t))


def under(t):
    """The object a pointer argument points to."""
    while isinstance(t, T) and t.op in ("ctypes.cast", "ctypes.addressof", "ctypes.byref", "ctypes.pointer") and t.args:
        t = t.args[0]
    return t


def buffer(t):
    """(element type, elements or None for a scalar) of a ctypes object."""
    if isinstance(t, T) and t.op in CT:
        return CT[t.op], None
    if isinstance(t, T) and t.op == "call" and isinstance(t.args[0], T) and t.args[0].op == "Mult":
        a, b = t.args[0].args
        a, b = (b, a) if isinstance(a, int) else (a, b)
        if isinstance(b, int):
            return ctype(a), b
    raise S.Undecided("buffer %r" % (t,))


def pass_arguments(call, b, giv, objs, ip):
    """Values, memories and buffers the library function sees."""
    ts = call.args[1:]
    if len(ts) != len(b.arguments):
        raise Bad("passes %d arguments to the library function, which has %d" % (len(ts), len(b.arguments)))
    sc, mem, bufs = {}, {}, {}
    for nm, t in zip(b.arguments, ts):
        ty = b.types[nm]
        o = under(t)
        if nm.startswith("_docc_ret_"):
            p, n = buffer(o)
            if p != S.prim(ty):
                raise Bad("has a buffer of %s elements for %s, which holds %s" % (p, nm, S.prim(ty)))
            bufs[nm] = (o, p, n)
            continue
        if isinstance(o, T) and o.op == "call" and isinstance(o.args[0], T) and o.args[0].op == ".data_as":
            a = o.args[0].args[0]
            a = a.args[0] if isinstance(a, T) and a.op == ".ctypes" else None
            who = [p for p, g in giv.items() if g.desc is a]
            if not who:
                raise S.Undecided("array argument %r" % (t,))
            if not isinstance(ty, P.Type) or ty.kind != "Pointer":
                raise Bad("passes the array %s to the parameter %s of type %s" % (who[0], nm, ty))
            mem[nm] = (who[0], giv[who[0]].memory())
            continue
        if isinstance(o, P.Obj):
            st = ty.f.get("pointee_type").f.get("name") if isinstance(ty, P.Type) and isinstance(ty.f.get("pointee_type"), P.Type) else None
            reg = b.structures.get(st)
            fields = ip.attr(o.cls, "_fields_", {"__mod__": o.cls.mod})
            if not isinstance(fields, list) or reg is None:
                raise S.Undecided("structure argument " + nm)
            have = [ctype(x[1]) for x in fields]
            want = [S.prim(x) for x in reg]
            if have != want:
                raise Bad("passes %s with members of the types %s, which the program reads as %s" % (nm, have, want))
            mem[nm] = (None, {i: S.cast(o.d.get(f[0], 0), have[i]) for i, f in enumerate(fields)})
            continue
        if isinstance(o, T) and o.op in CT and len(o.args) == 1 and o is t:
            if not isinstance(ty, P.Type) or ty.kind != "Scalar" or CT[o.op] != S.prim(ty):
                raise Bad("passes a %s to the parameter %s of type %s" % (CT[o.op], nm, ty))
            if not isinstance(o.args[0], (int, float)):
                raise S.Undecided("value of " + nm)
            sc[nm] = S.cast(o.args[0], CT[o.op])
            continue
        raise S.Undecided("argument %s: %r" % (nm, t))
    return sc, mem, bufs


def number(v, size):
    if isinstance(v, T) and v.op == "Mult":
        return number(v.args[0], size) * number(v.args[1], size)
    if isinstance(v, T) and v.op == ".itemsize":
        return size
    if isinstance(v, (int, float)):
        return int(v)
    raise S.Undecided("extent %r" % (v,))


def elements(t, bufs, st):
    """The value of a result: a number or (shape, elements)."""
    own = {id(o): (nm, p, n) for nm, (o, p, n) in bufs.items()}
    if isinstance(t, T) and t.op in ("int", "float", "bool") and len(t.args) == 1:
        v = elements(t.args[0], bufs, st)
        if isinstance(v, tuple) or v is None:
            raise S.Undecided("result %r" % (t,))
        return {"int": int, "float": float, "bool": bool}[t.op](v)
    if isinstance(t, T) and t.op == "call" and isinstance(t.args[0], T) and t.args[0].op in (".copy", ".ravel") and len(t.args) == 1:
        sh, v = elements(t.args[0].args[0], bufs, st)
        return (sh if t.args[0].op == ".copy" else (len(v),)), v
    if isinstance(t, T) and t.op == "call" and isinstance(t.args[0], T) and t.args[0].op == ".astype" and len(t.args) == 2 and isinstance(t.args[1], X) and t.args[1].name in NP:
        sh, v = elements(t.args[0].args[0], bufs, st)
        return sh, [None if x is None else numpy.array(x).astype(t.args[1].name[6:]).item() for x in v]
    if isinstance(t, T) and t.op == ".value" and id(t.args[0]) in own:
        nm, p, n = own[id(t.args[0])]
        return st.arr[nm].get(0)
    if isinstance(t, T) and t.op == "numpy.ctypeslib.as_array" and id(t.args[0]) in own:
        nm, p, n = own[id(t.args[0])]
        n = n or 1
        return (n,), [st.arr[nm].get(i) for i in range(n)]
    if isinstance(t, T) and t.op == "numpy.lib.stride_tricks.as_strided":
        base = t.args[0]
        sh = t.kw.get("shape", t.args[1] if len(t.args) > 1 else None)
        bs = t.kw.get("strides", t.args[2] if len(t.args) > 2 else None)
        if not (isinstance(base, T) and base.op == "numpy.ctypeslib.as_array" and id(base.args[0]) in own) or sh is None:
            raise S.Undecided("result %r" % (t,))
        nm, p, n = own[id(base.args[0])]
        size = S.SIZES[p]
        sh = [number(x, size) for x in sh]
        bs = [number(x, size) for x in bs] if bs is not None else [size * x for x in F.c_strides(sh)]
        out = []
        for ix in st.space(sh):
            at = sum(i * s for i, s in zip(ix, bs))
            if at % size or not 0 <= at < (n or 1) * size:
                raise Bad("reads byte %d of the result's buffer of %d bytes" % (at, (n or 1) * size))
            out.append(st.arr[nm].get(at // size))
        return tuple(sh), out
    if isinstance(t, T) and t.op == "call" and isinstance(t.args[0], T) and t.args[0].op == ".reshape":
        sh, v = elements(t.args[0].args[0], bufs, st)
        new = t.args[1:]
        new = [number(x, 8) for x in (new[0] if len(new) == 1 and isinstance(new[0], (list, tuple)) else new)]
        c = 1
        for e in new:
            c *= e
        if c != len(v):
            raise Bad("gives %d elements the shape %s" % (len(v), new))
        return tuple(new), v
    raise S.Undecided("result %r" % (t,))


def dtype(t, bufs):
    """The NumPy element type of a result made from a buffer without conversion, else None."""
    own = {id(o): p for o, p, n in bufs.values()}
    while isinstance(t, T):
        if t.op == "numpy.ctypeslib.as_array":
            return DT.get(own.get(id(t.args[0])))
        if t.op == "call" and isinstance(t.args[0], T) and t.args[0].op == ".astype" and len(t.args) == 2:
            return getattr(t.args[1], "name", "")[6:].rstrip("_") or None
        t = t.args[0].args[0] if t.op == "call" and isinstance(t.args[0], T) and t.args[0].args else t.args[0] if t.op == "numpy.lib.stride_tricks.as_strided" else None
    return None


def one(ip, src, calls, result, args, giv):
    """None if this call does what Python does, else what it does."""
    import warnings
    fn = P.functions(src)[0]
    ps = [a.arg for a in fn.args.args]
    ns = {"np": numpy}
    arrays = {p: g.array() for p, g in giv.items()}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        exec(compile(src, "<form>", "exec"), ns)
        want = ns[fn.name](*[arrays.get(p, a) for p, a in zip(ps, args)])
    if len(calls) != 1:
        return "calls the library function %d times" % len(calls)
    lib = calls[0].args[0].args[0].args[0]
    if not isinstance(lib, str):
        raise S.Undecided("which library is called")
    b = ip.builders[int(lib[3:])]
    sc, mem, bufs = pass_arguments(calls[0], b, giv, None, ip)
    st = S.Sem(dict(b.types), sc, {nm: m for nm, (_, m) in mem.items()}, fuel=200000)
    for nm, (o, p, n) in bufs.items():
        st.arr[nm] = {}
        st.heap[nm] = (max(0, 1 if n is None else n) * S.SIZES[p], p)
    try:
        st.run(b.root)
    except S._R:
        pass
    wants = list(want) if isinstance(want, tuple) else [] if want is None else [want]
    gots = list(result) if isinstance(result, tuple) else [] if result is None else [result]
    if len(wants) != len(gots):
        return "returns %d values, Python %d" % (len(gots), len(wants))
    for g, w in zip(gots, wants):
        d = dtype(g, bufs)
        g = elements(g, bufs, st)
        if d is not None and isinstance(w, numpy.ndarray) and w.ndim and d != w.dtype.name:
            return "returns an array of %s, Python of %s" % (d, w.dtype.name)
        if isinstance(w, numpy.ndarray) and w.ndim:
            if not isinstance(g, tuple):
                return "returns a number, Python an array of shape %s" % (w.shape,)
            if g[0] != tuple(w.shape):
                return "returns an array of shape %s, Python %s" % (g[0], tuple(w.shape))
            for i, (a, e) in enumerate(zip(g[1], w.reshape(-1))):
                if a is None or not R.close(a, e.item(), w.dtype):
                    return "returns %s as element %d, Python %.6g" % ("nothing" if a is None else "%.6g" % a, i, e)
        else:
            w = w.item() if isinstance(w, (numpy.ndarray, numpy.generic)) else w
            if isinstance(g, tuple) or g is None or not F.same(g, w):
                return "returns %r, Python %r" % (g, w)
    for nm, (p, m) in mem.items():
        if p is not None:
            g = giv[p]
            for i in range(g.size):
                if not R.close(m[i - g.origin], g.buf[i].item(), g.buf.dtype):
                    return "leaves %.6g in the memory of %s at offset %d of its first element, Python %.6g" % (m[i - g.origin], p, i - g.origin, g.buf[i].item())
    return None


def called(acc, inst, src, lists, at):
    fn = P.functions(src)[0]
    ps = [a.arg for a in fn.args.args]
    worlds = []
    for k, args in enumerate(lists):
        giv = {p: F.Given(p + "'" * k, *a) for p, a in zip(ps, args) if isinstance(a, tuple)}
        for g in giv.values():
            g.desc = P.Arr(g.dtype, g.dims, g.strides, g.item)
        worlds.append((args, giv))
    text = src.replace("\n", "; ")
    res = []
    for ip, err, got in C.call(src, [[giv[p].desc if p in giv else a for p, a in zip(ps, args)] for args, giv in worlds], cxx.REPO):
        def note(ok, why="", guess=bool(ip.taken)):
            res.append((guess, ok, why))
        if err is not None:
            if err[0] == "raised" and inst not in REFUSED and not ip.taken:
                note(False, "%s: `%s` is built for its arguments, then call %d fails: %s" % (at, text, len(got) + 1, err[1]))
            else:
                note(True if err[0] in ("refused", "raised") else None, err[1])
            continue
        for k, ((args, giv), (calls, result)) in enumerate(zip(worlds, got)):
            case = ", ".join("%s: %s %s strides %s" % (p, giv[p].dtype, giv[p].dims, giv[p].strides) if p in giv else "%s = %s" % (p, a if not isinstance(a, P.Inst) else vars(a)) for p, a in zip(ps, args))
            nth = "" if len(lists) == 1 else " the %s time" % ("first", "second", "third", "fourth")[k]
            try:
                why = one(ip, src, calls, result, args, giv)
                if why:
                    note(False, "%s: `%s`, called%s with %s, %s" % (at, text, nth, case, why))
                    break
            except Bad as x:
                note(False, "%s: `%s`, called%s with %s, %s" % (at, text, nth, case, x))
                break
            except S.Wrong as x:
                note(False, "%s: the program that runs for `%s`, called%s with %s, %s" % (at, text, nth, case, x))
                break
            except S.IllTyped as x:
                note(True, "refused by the validator: %s" % x)
                break
            except S.Undecided as x:
                note(None, str(x))
                break
        else:
            note(True)
    O.settle(acc, inst, res)


f, arr, obj = F.f, F.arr, F.obj
AGAIN = [
    ("same arguments", f("A, x", "A[:] = A * x\nreturn A"), (arr(4), 2.5), (arr(4), -1.0)), ("another extent", f("A", "return A + 1.0"), (arr(4),), (arr(6),)), ("another number", f("A, a", "A[a] = 0.0\nreturn a"), (arr(5), 1), (arr(5), 3)),
    ("number equal to the extent, then not", f("A, n", "A[:] = n"), (arr(4), 4), (arr(4), 2)), ("number not the extent, then equal", f("A, n", "A[:] = n"), (arr(4), 2), (arr(4), 4)), ("number follows the extent", f("A, n", "A[n - 1] = 0.0\nreturn A"), (arr(4), 4), (arr(6), 6)),
    ("square, then not", f("M", "return M.T + 1.0"), (arr((3, 3)),), (arr((3, 4)),)), ("not square, then square", f("M", "return M.T + 1.0"), (arr((3, 4)),), (arr((3, 3)),)), ("other extents alike", f("M, N", "M[0, 0] = N[1, 1]\nreturn N"), (arr((3, 4)), arr((4, 3))), (arr((3, 4)), arr((3, 4)))),
    ("which extents are alike", f("M, N", "return M[0, :], N[1, :]"), (arr((3, 4)), arr((4, 3))), (arr((3, 3)), arr((4, 4)))), ("extents alike, then not", f("A, B", "A[1:] = 0.0\nB[:-1] = 1.0"), (arr(4), arr(4)), (arr(4), arr(6))), ("extents not alike, then alike", f("A, B", "A[1:] = 0.0\nB[:-1] = 1.0"), (arr(4), arr(6)), (arr(5), arr(5))),
    ("which number is the extent", f("A, n, m", "A[:] = n - m"), (arr(4), 4, 7), (arr(4), 7, 4)), ("two numbers, one extent", f("A, n, m", "A[:] = n - m"), (arr(4), 4, 4), (arr(4), 4, 2)), ("one number, then two", f("A, n, m", "A[:] = n - m"), (arr(4), 2, 4), (arr(4), 4, 4)),
    ("extent one, then more", f("M, A", "M[:, :] = M + A"), (arr((3, 1)), arr(1)), (arr((3, 4)), arr(4))), ("more, then extent one", f("M, A", "M[:, :] = M + A"), (arr((3, 4)), arr(4)), (arr((3, 1)), arr(1))), ("another extent is one", f("M", "return M + 1.0"), (arr((1, 4)),), (arr((4, 1)),)),
    ("broadcast, then not", f("M, N", "return M + N"), (arr((3, 1)), arr((3, 4))), (arr((3, 4)), arr((3, 4)))), ("not broadcast, then broadcast", f("M, N", "return M + N"), (arr((3, 4)), arr((3, 4))), (arr((3, 4)), arr((3, 1)))),
    ("row major, then column major", f("M", "M[0, 1] = 7.0\nreturn M * 2.0"), (arr((3, 4)),), (arr((3, 4), "F"),)), ("column major, then row major", f("M", "M[0, 1] = 7.0\nreturn M * 2.0"), (arr((3, 4), "F"),), (arr((3, 4)),)), ("packed, then strided", f("A", "A[1] = 7.0\nreturn A * 2.0"), (arr(4),), (arr(4, (2,)),)),
    ("strided, then packed", f("A", "A[1] = 7.0\nreturn A * 2.0"), (arr(4, (2,)),), (arr(4),)), ("another stride", f("A", "A[1] = 7.0\nreturn A * 2.0"), (arr(4, (2,)),), (arr(4, (3,)),)), ("another block", f("M", "M[1, 1] = 7.0\nreturn M + 0.0"), (arr((3, 4), (6, 1)),), (arr((3, 4), (9, 1)),)),
    ("reversed, then not", f("A", "A[0] = 7.0\nreturn A"), (arr(4, (-1,)),), (arr(4),)), ("column major of another extent", f("M", "return M + 0.0"), (arr((3, 4), "F"),), (arr((5, 2), "F"),)), ("strides of the second array", f("A, B", "return A - B"), (arr(4), arr(4)), (arr(4), arr(4, (2,)))),
    ("double, then single", f("A", "return A * 2.0"), (arr(4),), (arr(4, None, "float32"),)), ("integers, then doubles", f("A", "return A + A"), (arr(4, None, "int64"),), (arr(4),)), ("32 bits, then 64", f("A", "A[0] = A[1]\nreturn A"), (arr(4, None, "int32"),), (arr(4, None, "int64"),)),
    ("int, then float", f("a", "return a * 2"), (3,), (2.5,)), ("float, then int", f("x", "return x * 2"), (2.5,), (3,)), ("bool, then int", f("A, p", "A[0] = p\nreturn A"), (arr(4), True), (arr(4), 3)), ("int, then bool", f("A, p", "if p:\n    A[0] = 2.0\nreturn A"), (arr(4), 3), (arr(4), False)),
    ("int equal to the extent, then float", f("A, n", "A[:] = n"), (arr(4), 4), (arr(4), 4.0)), ("three calls", f("A, n", "A[:] = n\nreturn n"), (arr(4), 4), (arr(4), 2), (arr(4), 4)), ("three extents", f("A, B", "return A[1:], B * 2.0"), (arr(4), arr(5)), (arr(5), arr(5)), (arr(6), arr(3))),
    ("back to the first layout", f("M", "return M * 2.0"), (arr((3, 4)),), (arr((3, 4), "F"),), (arr((2, 5)),)), ("argument assigned", f("A, n", "n = n - 1\nA[:] = n\nreturn n"), (arr(4), 4), (arr(4), 2)), ("no arrays", f("a, x", "return a * x"), (3, 2.5), (-1, 0.5)),
    ("object with other values", f("p", "return p.x * 10.0 - p.n"), (obj("P", x=2.5, n=3),), (obj("P", x=0.5, n=-7),)), ("object with another member", f("p", "return p.x * 10.0 - p.n"), (obj("P", x=2.5, n=3),), (obj("P", a=9, x=0.5, n=-7),)),
    ("object with a member of another type", f("p", "return p.x * 10.0"), (obj("P", x=2.5, n=3),), (obj("P", x=4, n=3),)), ("object of another class", f("p", "return p.x * 10.0"), (obj("P", x=2.5, n=3),), (obj("Q", x=2.5, n=3),)), ("extents of three dimensions", f("K", "return K[1, :, :]"), (arr((2, 3, 4)),), (arr((4, 3, 2)),)),
    ("extents alike in three dimensions", f("K", "return K[1, :, :]"), (arr((2, 3, 2)),), (arr((2, 3, 3)),)), ("result of a number's extent", f("n", "return np.zeros((n, n))"), (3,), (5,)), ("result of two extents", f("A, B", "return np.outer(A, B)"), (arr(3), arr(3)), (arr(3), arr(5))),
]


def f06(rep):
    for p in ("python/docc/python/python_program.py", "python/docc/compiler/compiled_sdfg.py"):
        rep.files.add(p)
    if numpy is None:
        rep.undecided("R1 one call", "all", "the reference (NumPy) is not installed")
        return
    w = "python/docc/compiler/compiled_sdfg.py CompiledSDFG.__call__"
    rep.rule("R1 one call", "Each parameter of the library function receives the argument of its name in its own type (arrays by address, objects member by member, extents of the "
             "array they name), the result buffers hold what is written to them, and the caller gets the values, shapes and order Python returns")
    acc = Acc(rep, "R1 one call")
    for nm, src, args in F.ARGS:
        if nm not in KNOWN:
            called(acc, nm, src, [args], w)
    for nm, src, args in MORE:
        called(acc, nm, src, [args], w)
    acc.done()
    rep.rule("R2 further calls", "A further call with other arguments runs a program that is right for them, whichever earlier call it was built for")
    acc = Acc(rep, "R2 further calls")
    for nm, src, *lists in AGAIN:
        called(acc, nm, src, lists, "python/docc/python/python_program.py PythonProgram.compile")
    acc.done()
    rep.count("forms", len(F.ARGS) + len(AGAIN) + len(MORE))
    rep.assume.append("ctypes and NumPy do what their documentation says; the library function computes the recorded program")


# extents that no argument gives are refused when the call is made
REFUSED = {"member as an extent", "result of an assigned extent", "extent of an element"}
# decided by F05 (findings there are not repeated)
KNOWN = {"argument in two roles", "bound of a slice changed after", "size of a new array changed after", "size of a new array, an argument, changed after"}
MORE = [
    ("result types", f("A, I, x, a, p", "return A * x, I + 1, a, x, p"), (arr(3), arr(3, None, "int64"), 2.5, 7, True)), ("single precision result", f("A", "return A + A"), (arr(3, None, "float32"),)), ("32-bit result", f("A", "return A + A"), (arr(3, None, "int32"),)),
    ("single precision element", f("A", "return A[1]"), (arr(3, None, "float32"),)), ("truth values", f("A, B", "return A < B"), (arr(4), arr(4))), ("eleven values", f("a, b", "return " + ", ".join("a + %d" % i for i in range(11))), (3, 4)), ("one-element array", f("A", "return A[:1]"), (arr(4),)),
    ("empty array", f("A", "return A[4:]"), (arr(4),)), ("array of one extent one", f("A", "return np.zeros((4, 1))"), (arr(4),)), ("row of a matrix", f("M", "return M[1:2, :]"), (arr((3, 4)),)), ("three dimensions", f("K", "return K + 1.0"), (arr((2, 3, 4)),)),
    ("object between arrays", f("A, p, B", "B[p.n] = A[p.m] * p.x"), (arr(4), obj("P", x=2.5, n=3, m=1), arr(5))), ("object first", f("p, a, x", "return p.n * 10 + a * x"), (obj("P", n=3, b=True), 2, 0.5)), ("extents of a later array", f("x, A, M", "return M[:, 1] * x"), (1.5, arr(5), arr((3, 4)))),
    ("extents between numbers", f("a, M, b, N", "return M @ N"), (2, arr((3, 4)), 7, arr((4, 5)))), ("number and extents of two arrays", f("M, n, N", "return M[:, n], N[n, :]"), (arr((3, 4)), 1, arr((2, 5)))),
    ("member assigned", f("A, p", "p.x = A[0]\nA[1] = p.x"), (arr(4), obj("P", x=2.5, n=3))), ("transposed matrix", f("M", "return M.T"), (arr((3, 4)),)), ("column-major argument returned", f("M", "return M"), (arr((3, 4), "F"),)), ("column of a matrix", f("M", "return M[:, 1]"), (arr((3, 4)),)),
    ("transposed with computed extents", f("A", "M = np.zeros((A.shape[0] - 2, 3), order='F')\nM[1, 2] = A[0]\nM[0, 1] = A[1]\nreturn M"), (arr(4),)), ("column-major with computed extents", f("A", "M = np.zeros((3, A.shape[0] - 2, 2), order='F')\nM[1, 1, 0] = A[0]\nM[2, 0, 1] = A[1]\nreturn M"), (arr(4),)),
    ("extent of an element", f("I", "return np.zeros(I[1] % 3 + 2) + 1.0"), (arr(4, None, "int64"),)), ("reversed result", f("A", "return A[::-1]"), (arr(4),)), ("every second", f("A", "return A[::2]"), (arr(5),)), ("block of a matrix", f("M", "return M[1:, 1:3]"), (arr((3, 4)),)), ("arguments of the same name prefix", f("s, _s, A", "return A[0] * s + _s"), (2, 3.5, arr(3))),
] + [("array of %s" % t, f("A", "return A + A, A[1:], A"), (arr(4, None, t),)) for t in ("int8", "int16", "uint8", "uint16", "uint32", "uint64", "bool")] + [
    ("element of %s" % t, f("A", "return A[1]"), (arr(4, None, t),)) for t in ("int8", "int16", "int32", "uint8", "uint16", "uint32", "uint64", "bool")] + [("new array of %s" % t, f("n", "A = np.zeros(n, dtype=np.%s)\nA[1] = 3\nreturn A" % t), (3,)) for t in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32")]

CHECKS = {"F06": f06}
