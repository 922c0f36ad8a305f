"""F05: a translated function returns what the Python function returns, and a function it calls means the call.

The kernel's body is interpreted by the translator's source as in F03 and F04; what the recorded program leaves in the return buffers
(sized and shaped by the captured expressions, which the caller evaluates on the values passed in) and in the caller's arrays is
compared with the function's meaning."""
from lib import cxx, pyinterp as P, pysem as S
from checks.instr import Acc
from checks import pyops as O, pyarrays as R

numpy = O.numpy
SUM = {}


def programs(src):
    if src not in SUM:
        fn = P.functions(src)[0]
        ps = [a.arg for a in fn.args.args]
        SUM[src] = P.translate(src, {k: v for k, v in R.SCAL.items() if k in ps or k in "nmk"},
                               {k: v for k, v in R.ARR.items() if k in ps}, cxx.REPO, function=True)
    return SUM[src]


def reference(src, sc, ar):
    import warnings
    fn = P.functions(src)[0]
    ns = {"np": numpy}
    given = {nm: numpy.array(v, dtype=R.NP[p]).reshape(dims) for nm, (p, dims, v) in ar.items()}
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            exec(compile(src, "<form>", "exec"), ns)
            r = ns[fn.name](*[given[a.arg] if a.arg in given else sc[a.arg] for a in fn.args.args])
    except Exception:
        return None
    return ("value", r), given


def evaluate(text, sc):
    """The caller's evaluation of a shape expression on the values passed in; None: it has no value (the call fails)."""
    try:
        return int(S.Sem({}, {k: v for k, v in sc.items() if not k.startswith("_")}).text(text))
    except S.Undecided:
        return None


def results(b, sc):
    """Return buffers: [(name, shape or None, strides)]; None if the call fails with an error."""
    shapes, strides = [x if isinstance(x, dict) else {} for x in b.returns]
    out = []
    for nm in sorted((n for n in b.types if n.startswith("_docc_ret_")), key=lambda x: int(x.split("_")[-1])):
        if nm in shapes:
            sh = [evaluate(x, sc) for x in shapes[nm]]
            st = [evaluate(x, sc) for x in strides.get(nm, [])]
            if None in sh:
                return None
            out.append((nm, sh, st if None not in st and len(st) == len(sh) else None))
        else:
            out.append((nm, None, None))
    return out


def same(g, w):
    if isinstance(w, (bool, numpy.bool_)):
        return g == w and type(g) in (bool, int) or g is w
    return R.close(g, w, getattr(w, "dtype", "float64"))


def check(acc, inst, src, cells=({},), at="python/docc/python/ast_parser.py"):
    refs = []
    for sz in R.SIZES:
        for c in cells:
            sc, ar = R.world(sz, c)
            r = reference(src, sc, ar)
            if r is not None:
                refs.append((sc, ar) + r)
    if not refs:
        acc(inst, None, "the function has no value")
        return
    res = []
    text = src.replace("\n", "; ")
    for b, ip, err in programs(src):
        def note(ok, why="", guess=bool(ip.taken)):
            res.append((guess, ok, why))
        if err is not None:
            note(True if err[0] == "refused" else None, err[1])
            continue
        und, n = None, 0
        for sc, ar, (_, want), given in refs:
            case = ", ".join("%s = %s" % (k, v) for k, v in sorted(sc.items()) if k in O.names(src) or k in "nmk")
            bufs = results(b, sc)
            if bufs is None:
                n += 1
                continue
            st = S.Sem(dict(b.types), {k: v for k, v in sc.items() if not k.startswith("_")},
                       {nm: dict(enumerate(v)) for nm, (p, dims, v) in ar.items()}, fuel=200000)
            for nm, sh, _ in bufs:
                c = 1
                for e in sh or ():
                    c *= e
                st.arr[nm] = {}
                st.heap[nm] = (max(0, c) * S.SIZES.get(S.prim(b.types[nm]), 8), S.prim(b.types[nm]))
            try:
                try:
                    st.run(b.root)
                except S._R:
                    pass
            except S.Wrong as x:
                note(False, "%s: the program built for `%s` %s (%s)" % (at, text, x, case))
                break
            except S.IllTyped as x:
                note(True, "refused by the validator: %s" % x)
                n += 1
                break
            except S.Undecided as x:
                und = str(x)
                continue
            n += 1
            why = compare(st, bufs, want, given, src)
            if why:
                note(False, "%s: `%s` %s (%s)" % (at, text, why, case))
                break
        else:
            note(True if n and not und else None, und or "no decidable cell")
    O.settle(acc, inst, res)


def compare(st, bufs, want, given, src):
    got = []
    for nm, sh, strides in bufs:
        m = st.arr[nm]
        if sh is None:
            got.append(m.get(0))
            continue
        if strides is None:
            raise S.Undecided("strides of the result")
        got.append((tuple(sh), [m.get(sum(i * s for i, s in zip(ix, strides))) for ix in st.space(sh)]))
    wants = list(want) if isinstance(want, tuple) else [want]
    if want is None:
        wants = []
        if got:
            return "returns %d values, Python None" % len(got)
    if len(got) != len(wants):
        return "returns %d values, Python %d" % (len(got), len(wants))
    for i, (g, w) in enumerate(zip(got, wants)):
        if isinstance(w, numpy.ndarray) and w.ndim:
            if not isinstance(g, tuple):
                return "returns a scalar, Python an array of shape %s" % (w.shape,)
            if g[0] != tuple(w.shape):
                return "returns an array of shape %s, Python %s" % (g[0], tuple(w.shape))
            for k, (a, e) in enumerate(zip(g[1], w.reshape(-1))):
                if a is None or not R.close(a, e.item(), w.dtype):
                    return "returns %s as element %d, Python %.6g" % ("nothing" if a is None else "%.6g" % a, k, e)
        else:
            if isinstance(g, tuple):
                return "returns an array of shape %s, Python a scalar" % (g[0],)
            if g is None:
                return "returns no value, Python %s" % w
            if not same(g, w if not isinstance(w, numpy.ndarray) else w.item()):
                return "returns %r, Python %r" % (g, w)
    ps = [a.arg for a in P.functions(src)[0].args.args]
    for nm in given:
        if nm in ps:
            for i, w in enumerate(given[nm].reshape(-1)):
                if not R.close(st.arr[nm].get(i, 0), w.item(), given[nm].dtype):
                    return "leaves the caller's array %s with %.6g at element %d, Python with %.6g" % (nm, st.arr[nm].get(i, 0), i, w)
    return None


def f(args, body, *callees, r=""):
    return "\n".join(list(callees) + ["def f(%s)%s:" % (args, " -> " + r if r else "")] + ["    " + l for l in body.split("\n")])


KIND = {"float64": ("Double", 8), "int64": ("Int64", 8), "float32": ("Float", 4), "int32": ("Int32", 4), "bool_": ("Bool", 1), "int8": ("Int8", 1), "uint8": ("UInt8", 1),
        "int16": ("Int16", 2), "uint16": ("UInt16", 2), "uint32": ("UInt32", 4), "uint64": ("UInt64", 8)}


def c_strides(dims):
    out, n = [], 1
    for d in reversed(dims):
        out.append(n)
        n *= d
    return tuple(reversed(out))


def f_strides(dims):
    return tuple(reversed(c_strides(tuple(reversed(dims)))))


class Given:
    """An array argument: extents, strides in elements, the flat memory around it (origin: index of its first element there)."""
    def __init__(self, name, dims, strides, dtype):
        self.dims, self.strides, self.dtype = tuple(dims), tuple(strides), dtype
        ext = [(d - 1) * s for d, s in zip(dims, strides)]
        lo, hi = sum(e for e in ext if e < 0), sum(e for e in ext if e > 0)
        self.origin, self.size = -lo + 2, hi - lo + 5
        v = R.fill(name, "Double" if dtype.startswith("float") else "Int64", [self.size])
        if dtype == "bool_":
            v = [bool(x % 2) for x in v]
        elif dtype.startswith("uint"):
            v = [abs(x) for x in v]
        self.flat = numpy.array(v, dtype=dtype.rstrip("_") if dtype == "bool_" else dtype)
        self.item = self.flat.itemsize

    def array(self):
        self.buf = self.flat.copy()
        return numpy.ndarray(self.dims, self.buf.dtype, self.buf, self.origin * self.item, tuple(s * self.item for s in self.strides))

    def memory(self):
        return {i - self.origin: self.flat[i].item() for i in range(self.size)}


def members(b, info, name, obj):
    """The memory of an object: its members in the order the caller lays them out; a string: what is wrong with that order."""
    own = info.get(name) if isinstance(info, dict) else None
    reg = b.structures.get(name)
    if not isinstance(own, dict) or not isinstance(reg, list):
        return "no structure %s is registered" % name
    out = {}
    for nm, (i, t) in own.items():
        if i in out or not 0 <= i < len(reg) or not reg[i] == t:
            return "member %s of %s is laid out as %s, registered as %s" % (nm, name, t, reg[i] if 0 <= i < len(reg) else "nothing")
        out[i] = getattr(obj, nm)
    return out


def arguments(acc, inst, src, args, at):
    import warnings
    fn = P.functions(src)[0]
    ps = [a.arg for a in fn.args.args]
    giv = {p: Given(p, *a) for p, a in zip(ps, args) if isinstance(a, tuple)}
    ns = {"np": numpy}
    arrays = {p: g.array() for p, g in giv.items()}
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        exec(compile(src, "<form>", "exec"), ns)
        want = ns[fn.name](*[arrays.get(p, a) for p, a in zip(ps, args)])
    res = []
    text = src.replace("\n", "; ")
    case = ", ".join("%s: %s %s strides %s" % (p, giv[p].dtype, giv[p].dims, giv[p].strides) if p in giv else "%s = %s" % (p, a) for p, a in zip(ps, args))
    for b, ip, err, got in P.program(src, [P.Arr(giv[p].dtype, giv[p].dims, giv[p].strides, giv[p].item) if p in giv else a for p, a in zip(ps, args)], cxx.REPO):
        def note(ok, why="", guess=bool(ip.taken)):
            res.append((guess, ok, why))
        if err is not None or not got:
            note(True if err and err[0] == "refused" else None, err[1] if err else "no program")
            continue
        a, k = got[0]
        a = list(a) + [None] * 7
        sources, outs, shapes, strides = [k.get(n, a[i]) for n, i in (("shape_sources", 2), ("output_args", 4), ("output_shapes", 5), ("output_strides", 6))]
        user = [n for n in b.arguments if n not in (outs or ()) and not (n.startswith("_s") and n[2:].isdigit())]
        if user != ps:
            note(False, "%s: the arguments of the program built for `%s` are %s, the function's %s" % (at, text, user, ps))
            continue
        sc = {p: v for p, v in zip(ps, args) if p not in giv}
        for i, src_ in enumerate(sources if isinstance(sources, list) else ()):
            sc["_s%d" % i] = args[src_[0]][0][src_[1]]
        missing = [n for n in b.arguments if n.startswith("_s") and n not in sc]
        if missing:
            note(False, "%s: the program built for `%s` has the argument %s, for which the caller has no value (%s)" % (at, text, missing[0], case))
            continue
        b.returns = [shapes, strides]
        bufs = results(b, sc)
        if bufs is None:
            note(True, "the call fails")
            continue
        objs = {p: members(b, k.get("structure_member_info", a[3]), type(v).__name__, v) for p, v in sc.items() if isinstance(v, P.Inst)}
        bad = [v for v in objs.values() if isinstance(v, str)]
        if bad:
            note(False, "%s: `%s`: %s" % (at, text, bad[0]))
            continue
        sc = {p: v for p, v in sc.items() if p not in objs}
        st = S.Sem(dict(b.types), dict(sc), {**{p: g.memory() for p, g in giv.items()}, **objs}, fuel=200000)
        for nm, sh, _ in bufs:
            c = 1
            for e in sh or ():
                c *= e
            st.arr[nm] = {}
            st.heap[nm] = (max(0, c) * S.SIZES.get(S.prim(b.types[nm]), 8), S.prim(b.types[nm]))
        try:
            try:
                st.run(b.root)
            except S._R:
                pass
            why = compare(st, bufs, want, {}, src)
        except S.Wrong as x:
            note(False, "%s: the program built for `%s` %s (%s)" % (at, text, x, case))
            continue
        except S.IllTyped as x:
            note(True, "refused by the validator: %s" % x)
            continue
        except S.Undecided as x:
            note(None, str(x))
            continue
        for p, g in giv.items():
            for i in range(g.size):
                if not why and not R.close(st.arr[p][i - g.origin], g.buf[i].item(), g.buf.dtype):
                    why = "leaves %.6g in the memory of %s at offset %d of its first element, Python %.6g" % (st.arr[p][i - g.origin], p, i - g.origin, g.buf[i].item())
        note(not why, "%s: `%s` %s (%s)" % (at, text, why, case))
    O.settle(acc, inst, res)


def obj(cls, **members):
    return P.Inst(cls, members)


def arr(dims, strides=None, dtype="float64"):
    dims = dims if isinstance(dims, tuple) else (dims,)
    return dims, {None: c_strides(dims), "F": f_strides(dims)}.get(strides, strides) if strides in (None, "F") else strides, dtype


AB = [{"a": p, "b": q} for p, q in ((0, 1), (1, 2), (2, 2), (-1, 3), (3, -2))]


ARGS = [
    ("extent is an argument", f("A, n", "A[:] = n\nreturn n"), (arr(5), 5)), ("extent argument decremented", f("A, n", "n = n - 1\nA[:] = 0.0\nreturn n"), (arr(5), 5)),
    ("extent argument augmented", f("A, n", "n -= 2\nreturn A + n"), (arr(5), 5)), ("extent argument in a loop", f("A, n", "for i in range(3):\n    n -= 1\nA[:] = n"), (arr(5), 5)),
    ("extent argument as a loop variable", f("A, n", "for n in range(2):\n    A[n] = 0.0\nreturn A * 2.0"), (arr(5), 5)), ("second number equal to the extent", f("A, n, m", "n = n + 1\nA[:] = n - m"), (arr(5), 5, 5)),
    ("number equal by chance", f("A, a", "a = a * 2\nreturn A + a"), (arr(4), 4)), ("extent of a matrix", f("M, n, m", "m -= 1\nM[:, :] = m\nreturn n"), (arr((3, 4)), 3, 4)),
    ("square matrix", f("M, n", "M[0, :] = n\nreturn M @ M"), (arr((3, 3)), 3)), ("two arrays of one extent", f("A, B", "A[:] = A + B"), (arr(4), arr(4))), ("two arrays of two extents", f("A, B", "A[1:] = 0.0\nB[:-1] = 1.0"), (arr(4), arr(6))),
    ("extent one", f("M, A", "M[:, :] = M + A"), (arr((1, 4)), arr(4))), ("column and row", f("M, N", "return M + N"), (arr((3, 1)), arr((1, 4)))), ("one by one", f("M", "M[0, 0] = 2.0\nreturn M"), (arr((1, 1)),)),
    ("number one", f("A, a", "A[:] = a\nreturn A"), (arr(1), 1)), ("three dimensions", f("K", "K[1, :, 2] = 0.0\nreturn K[0, :, :]"), (arr((2, 3, 4)),)), ("three dimensions with a number", f("K, n", "K[:, n - 1, :] = 0.0\nreturn np.sum(K, axis=1)"), (arr((2, 3, 4)), 3)),
    ("column major", f("M", "M[0, 1] = 7.0\nreturn M + 1.0"), (arr((3, 4), "F"),)), ("column major and row major", f("M, N", "return M - N"), (arr((3, 4), "F"), arr((3, 4)))), ("column major slice", f("M", "M[1:, :2] = 0.0"), (arr((3, 4), "F"),)),
    ("column major, three dimensions", f("K", "K[1, 2, 3] = 5.0\nreturn K[:, 1, :]"), (arr((2, 3, 4), "F"),)), ("column major with a number", f("M, n", "M[n - 1, :] = 0.0\nreturn M * 2.0"), (arr((3, 4), "F"), 3)), ("product of column major", f("M, N", "return M @ N"), (arr((3, 4), "F"), arr((4, 2)))),
    ("product with column major", f("M, N", "return M @ N"), (arr((3, 4)), arr((4, 2), "F"))), ("matrix-vector, column major", f("M, A", "return M @ A"), (arr((3, 4), "F"), arr(4))), ("transpose of column major", f("M", "return M.T"), (arr((3, 4), "F"),)),
    ("sum of column major", f("M", "return np.sum(M, axis=0)"), (arr((3, 4), "F"),)), ("strided vector", f("A", "A[:] = A + 1.0\nreturn A"), (arr(4, (2,)),)), ("strided vector, element", f("A, a", "A[a] = 9.0\nreturn A[1]"), (arr(4, (3,)), 2)),
    ("strided slice", f("A", "A[1:3] = 0.0\nreturn A[::2]"), (arr(5, (2,)),)), ("reversed vector", f("A", "A[0] = 5.0\nreturn A - 1.0"), (arr(4, (-1,)),)), ("column of a matrix", f("A, B", "A[:] = B * 2.0"), (arr(4, (5,)), arr(4))),
    ("block of a matrix", f("M", "M[:, 1] = 0.0\nreturn M + M"), (arr((3, 4), (6, 1)),)), ("every other column", f("M", "M[1, 2] = 3.0\nreturn M"), (arr((3, 3), (6, 2)),)), ("strided column major", f("M, N", "return M + N"), (arr((3, 4), (1, 5)), arr((3, 4)))),
    ("rows reversed", f("M", "M[0, :] = 1.0\nreturn M"), (arr((3, 4), (-4, 1)),)), ("product of blocks", f("M, N", "return M @ N"), (arr((3, 4), (6, 1)), arr((4, 2), (3, 1)))), ("dot of strided", f("A, B", "return A @ B"), (arr(4, (2,)), arr(4))),
    ("sum of a block", f("M", "return np.sum(M)"), (arr((3, 4), (6, 1)),)), ("axes exchanged", f("K", "K[0, 1, 2] = 1.0\nreturn K * 2.0"), (arr((2, 3, 4), (4, 8, 1)),)), ("reshape of a block", f("M", "return np.reshape(M, (12,))"), (arr((3, 4), (6, 1)),)),
    ("flatten of column major", f("M", "return M.flatten()"), (arr((3, 4), "F"),)), ("max of a strided vector", f("A", "return np.max(A)"), (arr(4, (2,)),)), ("loop over a strided vector", f("A, n", "r = 0.0\nfor i in range(n):\n    r = r * 2.0 + A[i]\nreturn r"), (arr(4, (3,)), 4)),
    ("shape of column major", f("M", "return M.shape[0] * 100 + M.shape[1]"), (arr((3, 4), "F"),)), ("extents exchanged", f("M, n, m", "for i in range(n):\n    for j in range(m):\n        M[i, j] = i * 10 + j"), (arr((3, 4)), 3, 4)),
    ("single precision", f("A, x", "A[:] = A * x\nreturn A"), (arr(4, None, "float32"), 2.5)), ("integers", f("A, a", "A[:] = A + a\nreturn A * 2"), (arr(4, None, "int64"), 3)), ("32-bit integers", f("A", "A[0] = A[1] + A[2]\nreturn A"), (arr(4, None, "int32"),)),
    ("unsigned", f("A", "A[0] = A[1]\nreturn A"), (arr(4, None, "uint8"),)), ("truth values", f("A, B", "for i in range(4):\n    if A[i]:\n        B[i] = 1.0"), (arr(4, None, "bool_"), arr(4))), ("boolean argument", f("A, p", "if p:\n    A[0] = 1.0\nreturn A"), (arr(4), True)),
    ("boolean argument equal to an extent", f("M, p", "if p:\n    M[0, 0] = 1.0\nreturn M"), (arr((1, 3)), True)), ("float argument equal to an extent", f("A, x", "x = x / 2.0\nA[:] = x"), (arr(4), 4.0)), ("no arrays", f("a, x", "return a * x"), (3, 2.5)),
    ("four arrays", f("A, B, C, D", "D[:] = A + B * C"), (arr(3), arr(3), arr(3), arr(3))), ("array after numbers", f("a, x, A, b", "A[a] = x * b"), (1, 2.5, arr(4), 3)), ("arrays of three extents", f("M, N, R", "R[:, :] = M @ N"), (arr((2, 3)), arr((3, 4)), arr((2, 4)))),
    ("returns float", f("a, x", "return a * x", r="float"), (3, 2.5)), ("returns int", f("a, b", "return a - b", r="int"), (3, 5)), ("returns bool", f("a, b", "return a < b", r="bool"), (3, 5)),
    ("returns float on every path", f("a, x", "if a > 4:\n    return 1.0\nreturn x", r="float"), (3, 2.5)), ("returns float, an int on one path", f("a, x", "if a > 2:\n    return 1\nreturn x", r="float"), (3, 2.5)), ("returns float, an int", f("a, x", "return a", r="float"), (3, 2.5)),
    ("returns float, an element", f("A, a", "return A[a]", r="float"), (arr(4), 3)), ("returns int, assigned argument", f("a, b", "a = a + b\nreturn a", r="int"), (3, 5)), ("returns np.float64", f("A, a", "return A[a]", r="np.float64"), (arr(4), 3)),
    ("returns an array", f("A, a", "return A * 2.0", r="np.ndarray"), (arr(4), 3)),
    ("argument in two roles", f("A, n", "n = n - 1\nfor n in range(n):\n    A[n] = n\nreturn n + A[0]"), (arr(5), 5)), ("names alike", f("A, n, n_local", "n = n - n_local\nA[:] = n"), (arr(5), 5, 2)), ("argument assigned in a branch", f("A, n, p", "if p:\n    n = 2\nA[:] = n"), (arr(5), 5, True)),
    ("argument assigned in a branch, not taken", f("A, n, p", "if p:\n    n = 2\nA[:] = n"), (arr(5), 5, False)), ("float argument assigned", f("A, x", "x = x + 1.0\nx *= 2.0\nA[0] = x\nreturn x"), (arr(5), 2.5)), ("boolean argument assigned", f("p, a, b", "p = a < b\nreturn p"), (True, 3, 2)),
    ("array argument rebound", f("A, n", "A = A + 1.0\nA[0] = n\nreturn A"), (arr(5), 5)), ("array argument rebound to a slice", f("A, n", "A = A[1:]\nA[0] = n"), (arr(5), 5)),
    ("size of a new array changed after", f("A, n", "k = n - 1\nr = np.zeros(k)\nk = 1\nr[:] = 7.0\nA[0] = r[2]"), (arr(5), 5)), ("size of a new array, an argument, changed after", f("A, n", "r = np.zeros(n)\nn = 1\nr[:] = 7.0\nA[0] = r[2]"), (arr(5), 5)),
    ("bound of a slice changed after", f("A, n", "k = n - 1\nr = A[:k]\nk = 1\nr[:] = 7.0"), (arr(5), 5)), ("bound of an expression's slice changed after", f("A, n", "k = n - 1\nr = A[:k] * 2.0\nk = 1\nA[1:] = r"), (arr(5), 5)),
    ("growing array", f("A, n", "k = 0\nr = 0.0\nfor i in range(3):\n    k += 1\n    q = np.zeros(k)\n    q[k - 1] = 2.0\n    r += np.sum(q)\nreturn r"), (arr(5), 5)), ("size is the loop variable", f("A, n", "r = 0.0\nfor i in range(1, 4):\n    q = np.ones(i)\n    r += np.sum(q)\nreturn r"), (arr(5), 5)),
    ("slice to the loop variable", f("A, n", "r = 0.0\nfor i in range(1, 4):\n    r += np.sum(A[:i] * 2.0)\nreturn r"), (arr(5), 5)),
    ("member", f("p", "return p.x"), (obj("P", x=2.5, n=3),)), ("members", f("p", "return p.x * 10.0 - p.n"), (obj("P", x=2.5, n=3),)), ("members in another order", f("p, a", "return p.b - p.a * p.c"), (obj("P", c=3, b=2.5, a=1.5), 4)),
    ("integer member", f("p, A", "A[p.n] = p.x"), (obj("P", x=2.5, n=3, a=7), arr(5))), ("boolean member", f("p, A", "if p.flag:\n    A[0] = p.x"), (obj("P", x=2.5, flag=True, a=0), arr(5))), ("false member", f("p, A", "if p.flag:\n    A[0] = p.x"), (obj("P", x=2.5, flag=False, a=1), arr(5))),
    ("two objects", f("p, q", "return p.x - q.x * 2.0"), (obj("P", x=2.5, a=3), obj("P", x=-1.5, a=5))), ("objects of two classes", f("p, q", "return p.x - q.x * 2.0 + q.a"), (obj("P", x=2.5, b=3), obj("Q", a=5, x=-1.5, z=1))), ("private member between", f("p", "return p.x * 2.0 + p.z"), (obj("P", _a=1, x=2.5, y=7, z=3),)),
    ("member in a loop", f("p, A", "for i in range(p.n):\n    A[i] = p.x + i"), (obj("P", x=2.5, a=1, n=3), arr(5))), ("member as an extent", f("p", "return np.zeros(p.n)"), (obj("P", x=2.5, n=3),)), ("member of an unsupported type", f("p", "return p.x - p.n"), (obj("P", a=None, x=2.5, n=3, b="s"),)),
    ("member assigned", f("p", "p.x = 1.0\nreturn p.x"), (obj("P", x=2.5, n=3),)), ("member in a slice", f("p, A", "A[p.a:p.b] = p.x"), (obj("P", x=2.5, a=1, b=3), arr(5))),
    ("empty slice", f("A, n", "A[n:] = 0.0\nreturn A"), (arr(4), 4)), ("result of an argument's extent", f("n", "return np.zeros((n, n))"), (3,)), ("result of an assigned extent", f("A, n", "n = n + 1\nr = np.zeros(n)\nr[n - 1] = A[0]\nreturn r"), (arr(4), 4)),
]


def f05(rep):
    rep.files.add("python/docc/python/ast_parser.py")
    if numpy is None:
        rep.undecided("R1 returns", "all", "the reference (NumPy) is not installed")
        return
    rep.rule("R1 returns", "Every return leaves the values of its expressions in the return buffers, in order, and ends the function; "
             "a returned array is NumPy's, contiguous and independent of later changes to its source")
    acc = Acc(rep, "R1 returns")
    w = O.method_line(cxx.REPO, "visit_Return")
    for nm, src in (
            ("scalar", f("a, b", "return a - b")), ("float", f("x, y", "return x / y")), ("literal", f("a", "return 3")), ("float literal", f("a", "return 2.5")),
            ("argument", f("a", "return a")), ("boolean", f("a, b", "return a < b")), ("element", f("A, n", "return A[1]")), ("last element", f("A, n", "return A[n - 1]")),
            ("two scalars", f("a, x", "return a, x")), ("two scalars reversed", f("a, x", "return x, a")), ("scalar and array", f("A, x", "return x, A + x")),
            ("nothing", f("A, x", "A[0] = x")), ("bare return", f("A, x", "A[0] = x\nreturn")), ("array", f("A", "return A")), ("expression", f("A, C", "return A - C")),
            ("slice", f("A", "return A[1:]")), ("reversed", f("A", "return A[::-1]")), ("strided", f("A", "return A[::2]")), ("matrix", f("M", "return M")),
            ("transpose", f("M", "return M.T")), ("row", f("M, a", "return M[1]")), ("column", f("M", "return M[:, 1]")), ("block", f("M", "return M[1:, :2]")),
            ("product", f("M, R", "return M @ R")), ("matrix-vector product", f("M, V", "return M @ V")), ("dot", f("A, C", "return A @ C")), ("sum", f("A", "return np.sum(A)")),
            ("sum over an axis", f("M", "return np.sum(M, axis=0)")), ("mean", f("A", "return np.mean(A)")), ("zeros", f("n", "return np.zeros(n)")), ("matrix of zeros", f("n, m", "return np.zeros((n, m))")),
            ("local array", f("A, n", "r = np.zeros(n)\nr[1:] = A[:-1]\nreturn r")), ("outer", f("A, V", "return np.outer(A, V)")), ("integers", f("I", "return I * 2")),
            ("integer element", f("I", "return I[0]")), ("comparison", f("A, C", "return A < C")), ("local view", f("M", "r = M.T\nreturn r")), ("flip", f("M", "return np.flip(M)")),
            ("reshape", f("M, n, m", "return np.reshape(M, (m, n))")), ("copy", f("A", "return A.copy()")), ("three values", f("A, a, x", "return A * 2.0, a + 1, x")),
            ("changed after", f("A, x", "r = A + 0.0\nA[0] = x\nreturn r")), ("source of a view changed", f("A, x", "r = A[1:]\nA[1] = x\nreturn r")),
            ("argument twice", f("A", "return A, A")), ("view and source", f("M", "return M.T, M")), ("float of int", f("a", "return a * 1.0")), ("int quotient", f("a, b", "return a // 4")),
            ("bounds", f("A, a, b", "return A[1:3]")), ("negative bound", f("A", "return A[:-1]")), ("slice to an argument", f("A, n", "return A[:n - 1]")), ("power", f("A", "return A ** 2")),
            ("integer mean", f("I", "return np.mean(I)")), ("astype", f("A", "return A.astype(np.int64)")), ("single precision", f("F", "return F * F")), ("where", f("A, C", "return np.where(A < C, A, C)")),
            ("not", f("a", "return not a")), ("and", f("a, b", "return a > 0 and b > 0")), ("conditional", f("a, x, y", "return x if a > 0 else y")), ("row of a transpose", f("M", "return M.T[1]")),
            ("length", f("A, n", "return A.shape[0]")), ("len", f("A", "return len(A)")), ("max", f("A", "return np.max(A)")), ("max of scalars", f("a, b", "return max(a, b)"))):
        check(acc, nm, src, AB[1:3], at=w)
    acc.done()
    rep.rule("R2 paths", "A return inside a branch or a loop ends the function there; the paths may return different values of one type")
    acc = Acc(rep, "R2 paths")
    for nm, src in (
            ("branches", f("a, x, y", "if a > 0:\n    return x\nelse:\n    return y")), ("early return", f("a, x, y", "if a > 0:\n    return x\nreturn y")),
            ("early return before a write", f("A, a, x", "if a > 0:\n    return x\nA[0] = x\nreturn x * 2.0")), ("early return from a loop", f("A, n, x", "for i in range(n):\n    if A[i] > x:\n        return i\nreturn n")),
            ("from a while loop", f("a, b", "r = 0\nwhile True:\n    r += 1\n    if r > a:\n        return r\nreturn 0") ), ("elif", f("a", "if a > 1:\n    return 1\nelif a > 0:\n    return 2\nelse:\n    return 3")),
            ("int then float", f("a, x", "if a > 0:\n    return 0\nreturn x")), ("float then int", f("a, x", "if a > 0:\n    return x\nreturn 0")), ("int argument then float", f("a, x", "if a > 0:\n    return a\nreturn x")),
            ("bool then int", f("a, b", "if a > 0:\n    return a < b\nreturn b > 1")), ("arrays", f("A, C, a", "if a > 0:\n    return A + 1.0\nreturn C * 2.0")),
            ("arrays of two shapes", f("A, V, a", "if a > 0:\n    return A + 1.0\nreturn V * 2.0")), ("slices of two lengths", f("A, a", "if a > 0:\n    return A[1:]\nreturn A[2:]")),
            ("view then array", f("A, a", "if a > 0:\n    return A[::-1]\nreturn A + 0.0")), ("transpose then matrix", f("S, a", "if a > 0:\n    return S.T\nreturn S + 0.0")),
            ("array in a branch", f("A, a, n", "if a > 0:\n    r = np.zeros(n)\n    r[0] = 1.0\n    return r\nreturn A + 0.0")), ("nested", f("a, b", "if a > 0:\n    if b > 2:\n        return 1\n    return 2\nreturn 3")),
            ("loop over rows", f("M, n, x", "for i in range(n):\n    if M[i, 0] > x:\n        return M[i]\nreturn M[0]")), ("return in the last branch only", f("A, a, x", "if a > 0:\n    A[0] = x\nelse:\n    A[1] = x\nreturn A")),
            ("bare return in a branch", f("A, a, x", "if a > 0:\n    return\nA[0] = x")), ("bare return in a loop", f("A, a, n", "for i in range(n):\n    if i == a:\n        return\n    A[i] = 0.0")),
            ("two values", f("a, x, y", "if a > 0:\n    return x, y\nreturn y, x")), ("sum then zero", f("A, a", "if a > 0:\n    return np.sum(A)\nreturn 0.0"))):
        check(acc, nm, src, AB, at=w)
    acc.done()
    rep.rule("R3 calls", "A call of another function of the program computes its body on the arguments: parameters and locals are its own, arrays are shared, "
             "its return ends it and is the value of the call")
    acc = Acc(rep, "R3 calls")
    w = O.method_line(cxx.REPO, "_handle_inline_call")
    one = "def g(a):\n    return a * 2 + 1"
    for nm, src in (
            ("expression", f("a", "return g(a)", one)), ("of another argument", f("a, b", "return g(b) - a", one)), ("twice", f("a, b", "return g(a) - g(b)", one)), ("nested", f("a", "return g(g(a))", one)),
            ("literal", f("a", "return g(3) + a", one)), ("float literal", f("x", "return h(2.5) + x", "def h(x):\n    return x / 2.0")), ("expression argument", f("a, b", "return g(a - b)", one)),
            ("arguments in order", f("a, b", "return h(b, a)", "def h(a, b):\n    return a - 2 * b")), ("swapped names", f("x, y", "return h(y, x)", "def h(x, y):\n    return x - 2.0 * y")),
            ("parameter assigned", f("a", "r = h(a)\nreturn r * 100 + a", "def h(a):\n    a = a + 1\n    a = a * 2\n    return a")), ("local of the same name", f("a, b", "r = 7\nq = h(a)\nreturn r + 10 * q", "def h(a):\n    r = a + 1\n    return r")),
            ("loop variable of the same name", f("a", "r = 0\nfor i in range(3):\n    r += h(i)\nreturn r", "def h(n):\n    r = 0\n    for i in range(n):\n        r += i + 1\n    return r")),
            ("array element", f("A", "return h(A)", "def h(B):\n    return B[1] - B[0]")), ("array written", f("A, x", "h(A, x)\nreturn A[0]", "def h(B, x):\n    B[0] = x")),
            ("array written through a slice", f("A, x", "h(A[1:], x)\nreturn A[1]", "def h(B, x):\n    B[0] = x")), ("array result", f("A, C", "return h(A, C) + 1.0", "def h(A, B):\n    return A - B")),
            ("array result assigned", f("A, C", "r = h(A, C)\nr[0] = 5.0\nreturn r", "def h(A, B):\n    return A - B")), ("array returned itself", f("A, x", "r = h(A)\nr[0] = x\nreturn A", "def h(B):\n    return B")),
            ("swapped arrays", f("A, C", "return h(C, A)", "def h(A, C):\n    return A - 2.0 * C")), ("in a condition", f("a, x, y", "if g(a) > 3:\n    return x\nreturn y", one)), ("in a loop", f("a, n", "r = 0\nfor i in range(n):\n    r = g(r) + a\nreturn r", one)),
            ("in an index", f("A, a", "return A[h(a)]", "def h(a):\n    return a - a + 1")), ("in a loop bound", f("a", "r = 0\nfor i in range(g(2)):\n    r += i\nreturn r + a", one)), ("local array", f("A, n", "return h(A, n)", "def h(A, n):\n    r = np.zeros(n)\n    r[1:] = A[:-1]\n    return r")),
            ("branches", f("a, b", "return h(a, b)", "def h(a, b):\n    if a > b:\n        return a\n    else:\n        return b")), ("early return", f("a, b", "return h(a, b)", "def h(a, b):\n    if a > b:\n        return a\n    return b")),
            ("early return skips a write", f("A, a, x", "h(A, a, x)\nreturn A[0]", "def h(A, a, x):\n    if a > 0:\n        return\n    A[0] = x")), ("early return from a loop", f("A, n, x", "return h(A, n, x)", "def h(A, n, x):\n    for i in range(n):\n        if A[i] > x:\n            return i\n    return n")),
            ("two levels", f("a", "return h(a) - 1", one, "def h(a):\n    return g(a) + g(a + 1)")), ("scalars and arrays", f("A, x, a", "return h(A, x, a)", "def h(A, x, a):\n    return A[a * a - a * a + 2] * x + a")), ("matrix", f("M, V", "return h(M, V)", "def h(M, V):\n    return M @ V")),
            ("bare return at the end", f("A, x", "h(A, x)\nreturn A[0]", "def h(A, x):\n    A[0] = x\n    return")),
            ("nested branches", f("a, b", "return h(a, b)", "def h(a, b):\n    if a > 0:\n        if b > 1:\n            return 1\n        a = a + 10\n    elif a < b:\n        return 2\n    return a + b")),
            ("two early returns", f("a, b", "return h(a, b)", "def h(a, b):\n    if a > b:\n        return 1\n    b += 1\n    if a == b:\n        return 2\n    b += a\n    return b")),
            ("early return of an int or a float", f("a, x", "return h(a, x)", "def h(a, x):\n    if a > 0:\n        return 0\n    return x")), ("early return before an array write", f("A, a, x", "r = h(A, a, x)\nreturn r + A[0]", "def h(A, a, x):\n    if a > 0:\n        return x\n    A[0] = 7.0\n    return x + 1.0")),
            ("branches of arrays", f("A, C, a", "return h(A, C, a)", "def h(A, C, a):\n    if a > 0:\n        return A - C\n    return A * C")), ("after the loop", f("A, n, a", "return h(A, n, a)", "def h(A, n, a):\n    r = 0.0\n    for i in range(n):\n        if i == a:\n            break\n        r = r + A[i]\n    return r")),
            ("result unused", f("a", "g(a)\nreturn a", one)), ("augmented", f("a, b", "a += g(b)\nreturn a", one)), ("float of an int literal", f("x", "return h(2, x)", "def h(a, x):\n    return a * x")), ("int divided in the callee", f("a, b", "return h(a, b)", "def h(a, b):\n    return a / 4 + b")),
            ("condition on an argument", f("a, x, y", "return h(a < 1, x, y)", "def h(p, x, y):\n    if p:\n        return x\n    else:\n        return y")), ("negative literal", f("a", "return g(-3) + a", one)), ("slice result", f("A", "return h(A)", "def h(A):\n    return A[1:] - A[:-1]")),
            ("shape in the callee", f("A", "return h(A)", "def h(A):\n    r = 0.0\n    for i in range(A.shape[0]):\n        r = r * 2.0 + A[i]\n    return r")), ("argument changed after", f("A, x", "r = h(A)\nA[0] = x\nreturn r", "def h(A):\n    return A[0] + 0.0")),
            ("view of the argument returned", f("A, x", "r = h(A)\nr[0] = x\nreturn A", "def h(A):\n    return A[1:]")), ("rebinding in the callee", f("A, C", "r = h(A, C)\nreturn r - A", "def h(A, C):\n    A = C * 2.0\n    return A"))):
        check(acc, nm, src, AB[:4], at=w)
    acc.done()
    rep.rule("R4 arguments", "The program built for the arguments of a call reads every array through its own extents and strides, whatever its layout and whichever "
             "extents and numbers coincide; a name the function assigns does not stand for an extent; nothing outside the arrays is touched")
    acc = Acc(rep, "R4 arguments")
    w = "python/docc/python/python_program.py " + "_build_sdfg"
    rep.files.add("python/docc/python/python_program.py")
    for nm, src, args in ARGS:
        arguments(acc, nm, src, args, w)
    acc.done()
    rep.count("functions", len(SUM))
    rep.assume.append("CompiledSDFG evaluates the captured shapes on the values passed in and reads the buffers with the captured strides")


CHECKS = {"F05": f05}
