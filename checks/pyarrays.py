"""F04: the program the Python frontend builds for an array statement accesses and computes what NumPy says.

As F03: the translation methods are interpreted abstractly on statement forms whose operands are names; what comes out
(index functions, tensor views with shape, strides and offset, library operations) is compared with NumPy's meaning of
the form at the cells of the extents and bounds."""
import itertools
import os

from lib import cxx, pyinterp as P, pysem as S
from checks.instr import Acc
from checks import pyops as O

numpy = O.numpy
SCAL = {"n": "Int64", "m": "Int64", "k": "Int64", "a": "Int64", "b": "Int64", "x": "Double", "y": "Double"}
ARR = {"A": ("Double", ["n"]), "C": ("Double", ["n"]), "D": ("Double", ["n"]), "V": ("Double", ["m"]), "W": ("Double", ["k"]),
       "M": ("Double", ["n", "m"]), "N": ("Double", ["n", "m"]), "R": ("Double", ["m", "k"]), "Q": ("Double", ["n", "k"]),
       "T": ("Double", ["m", "n"]), "S": ("Double", ["n", "n"]), "K": ("Double", ["n", "m", "k"]), "I": ("Int64", ["n"]), "J": ("Int64", ["n"]),
       "G": ("Int64", ["n", "m"]), "F": ("Float", ["n"])}
NP = {"Double": "float64", "Int64": "int64", "Float": "float32", "Bool": "bool"}
SIZES = [{"n": 5, "m": 4, "k": 3}, {"n": 3, "m": 6, "k": 2}]


def fill(name, p, shape, salt=0):
    """Distinct values of both signs, in an order unrelated to the index."""
    c = 1
    for e in shape:
        c *= e
    h = sum(ord(ch) for ch in name) + salt
    v = [((i * 7 + h) % (2 * c + 1)) - c + (0 if p == "Int64" else 0.25 * ((i * 3 + h) % 4)) for i in range(c)]
    if p == "Int64":
        v = [int(x) if x else 1 for x in v]
    else:
        v = [x if x else 0.5 for x in v]
    return v


def world(sz, extra):
    sc = {**sz, "a": 1, "b": 2, "x": 2.5, "y": -1.5, **extra}
    ar = {}
    for nm, (p, sh) in ARR.items():
        dims = [sc[d] for d in sh]
        ar[nm] = (p, dims, fill(nm, p, dims))
    if "_nonneg" in extra:
        pass
    return sc, ar


def reference(src, sc, ar, out):
    env = {k: v for k, v in sc.items() if not k.startswith("_")}
    given = {}
    for nm, (p, dims, v) in ar.items():
        env[nm] = given[nm] = numpy.array(v, dtype=NP[p]).reshape(dims)
    import warnings
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            exec(compile(src, "<form>", "exec"), {"np": numpy}, env)
    except Exception:
        return None
    return (env[out], given) if env.get(out) is not None else None


SUM = {}


def programs(src):
    if src not in SUM:
        SUM[src] = P.translate(src, dict(SCAL), dict(ARR), cxx.REPO)
    return SUM[src]


def value(b, st, out):
    """Value of a name after the program: scalar, or nested values of its tensor view."""
    tt, ct = b.tables
    t = tt.get(out)
    ty = b.types.get(out)
    if S.is_array(ty):
        if t is None:
            raise S.Undecided("no view of " + out)
        sh = [max(0, x) for x in st.shape(t)]
        return tuple(sh), [st.peek(out, st.place(t, i), None) for i in st.space(sh)]
    if out in st.v:
        return (), [st.v[out]]
    raise S.Undecided("no value of " + out)


def where(src):
    return "python/docc/python"


def check(acc, inst, src, out, cells=({},), sizes=None, at=None):
    refs = []
    for sz in (sizes or SIZES):
        for c in cells:
            sc, ar = world(sz, c)
            r = reference(src, sc, ar, out)
            if r is not None:
                refs.append((sc, ar, r))
    if not refs:
        acc(inst, None, "NumPy has no value for the form")
        return
    loc = at or where(src)
    res = []
    for b, ip, err in programs(src):
        def note(inst, ok, why="", guess=bool(ip.taken)):
            res.append((guess, ok, why))
        if err is not None:
            note(inst, True if err[0] == "refused" else None, err[1])
            continue
        und, n = None, 0
        for sc, ar, (r, given) in refs:
            types = dict(b.types)
            st = S.Sem(types, {k: v for k, v in sc.items() if not k.startswith("_")},
                       {nm: dict(enumerate(v)) for nm, (p, dims, v) in ar.items()}, fuel=200000)
            case = ", ".join("%s = %s" % (k, v) for k, v in sorted(sc.items()) if k in O.names(src) or k in "nmk")
            try:
                st.run(b.root)
                shp, got = value(b, st, out)
            except S.Wrong as x:
                note(inst, False, "%s: the program built for `%s` %s (%s)" % (loc, src.replace("\n", "; "), x, case))
                break
            except S.IllTyped as x:
                note(inst, True, "refused by the validator: %s" % x)
                n += 1
                break
            except S.Undecided as x:
                und = str(x)
                continue
            n += 1
            want = numpy.asarray(r)
            wl = [e.item() for e in want.reshape(-1)]
            if shp != tuple(want.shape) and not (len(shp) == 1 and shp[0] == 1 and want.shape == ()):
                note(inst, False, "%s: `%s` gives %s the shape %s, NumPy %s (%s)" % (loc, src.replace("\n", "; "), out, shp, tuple(want.shape), case))
                break
            bad = [i for i, (g, w) in enumerate(zip(got, wl)) if not close(g, w, want.dtype)]
            if bad:
                note(inst, False, "%s: `%s` gives element %d of %s the value %.6g, NumPy %.6g (%s)" % (
                    loc, src.replace("\n", "; "), bad[0], out, got[bad[0]], wl[bad[0]], case))
                break
            names = O.names(src)
            bad = [(nm, i) for nm in given if nm in names for i, w in enumerate(given[nm].reshape(-1))
                   if not close(st.arr[nm].get(i, 0), w.item(), given[nm].dtype)]
            if bad:
                nm, i = bad[0]
                note(inst, False, "%s: `%s` leaves the caller's array %s with %.6g at element %d, NumPy with %.6g (%s)" % (
                    loc, src.replace("\n", "; "), nm, st.arr[nm].get(i, 0), i, given[nm].reshape(-1)[i].item(), case))
                break
        else:
            note(inst, True if n and not und else None, und or "no decidable cell")
    O.settle(acc, inst, res)


def close(g, w, dt):
    if isinstance(g, bool) or isinstance(w, bool):
        return bool(g) == bool(w)
    if g != g or w != w:
        return g != g and w != w
    if g in (float("inf"), float("-inf")) or w in (float("inf"), float("-inf")):
        return g == w
    return abs(g - w) <= (1e-4 if str(dt) == "float32" else 1e-9) * max(1.0, abs(w))


def inrange(s, ext):
    """The cells of the bounds in which every bound of the slice that is not a literal lies inside the extent."""
    def ok(c):
        for sz in SIZES:
            sc = {**sz, **c}
            for part in s.split(":")[:2]:
                if part.strip() and not part.strip().lstrip("-").isdigit():
                    v = eval(part, {}, dict(sc))
                    if not 0 <= v <= sc[ext]:
                        return False
        return True
    return [c for c in BND if ok(c)]


BND = [{"a": p, "b": q} for p, q in ((0, 0), (0, 2), (1, 2), (1, 3), (2, 1), (0, 3), (3, 3))]


def f04(rep):
    rep.files.add("python/docc/python/ast_parser.py")
    rep.files.add("python/docc/python/functions/numpy.py")
    if numpy is None:
        rep.undecided("R1 slices", "all", "the reference (NumPy) is not installed")
        return
    SL = [":", "1:", ":2", "1:3", ":-1", "-2:", "1:-1", "-3:-1", "::2", "1::2", "::3", "1:3:2", "::-1", "2::-1", ":1:-1", "-1:0:-1",
          "::-2", "2:2", "2:1", "0:n", "1:n", "n - 2:", ":n - 1", "::1"]
    SV = ["a:b", "a:", ":b", "a:n", "b:n - 1", "a:b + 1", "a:b:2", "a::2", ":b:2", "n - b:", "a - 1:b", "a:b:1"]

    rep.rule("R1 slice reads", "A slice in an expression denotes the elements NumPy selects: bounds counted from the end when "
             "negative, clipped at the extent for literals, every step, in order")
    acc = Acc(rep, "R1 slice reads")
    for s in SL + SV:
        cells, cm = (inrange(s, "n"), inrange(s.replace("n", "m"), "m")) if s in SV else (({},), ({},))
        w = O.method_line(cxx.REPO, "_create_slice_view")
        check(acc, "r = A[%s] + 0" % s, "r = A[%s] + 0.0" % s, "r", cells, at=w)
        check(acc, "r = A[%s]" % s, "r = A[%s]" % s, "r", cells, at=w)
        check(acc, "r = M[a, %s]" % s.replace("n", "m"), "r = M[a, %s] + 0.0" % s.replace("n", "m"), "r", cm, at=w)
        check(acc, "r = M[%s, b]" % s, "r = M[%s, b] + 0.0" % s, "r", cells, at=w)
        check(acc, "r = M[%s, 1:3]" % s, "r = M[%s, 1:3] + 0.0" % s, "r", cells, at=w)
        check(acc, "r = M[%s]" % s, "r = M[%s] + 0.0" % s, "r", cells, at=w)
        check(acc, "r = K[1, %s, 1:]" % s.replace("n", "m"), "r = K[1, %s, 1:] + 0.0" % s.replace("n", "m"), "r", cm, at=w)
    acc.done()

    rep.rule("R2 slice writes", "A slice assignment writes exactly the elements NumPy selects, each with its value, and no other")
    acc = Acc(rep, "R2 slice writes")
    w = O.method_line(cxx.REPO, "_handle_slice_assignment")
    for s in SL + SV:
        cells, cm = (inrange(s, "n"), inrange(s.replace("n", "m"), "m")) if s in SV else (({},), ({},))
        check(acc, "A[%s] = x" % s, "A[%s] = x" % s, "A", cells, at=w)
        check(acc, "A[%s] = C[%s]" % (s, s), "A[%s] = C[%s]" % (s, s), "A", cells, at=w)
        check(acc, "A[%s] = C[%s] * D[%s]" % (s, s, s), "A[%s] = C[%s] * D[%s]" % (s, s, s), "A", cells, at=w)
        check(acc, "A[%s] += x" % s, "A[%s] += x" % s, "A", cells, at=w)
        check(acc, "M[%s, 1:3] = x" % s, "M[%s, 1:3] = x" % s, "M", cells, at=w)
        check(acc, "M[%s, :] = N[%s, :]" % (s, s), "M[%s, :] = N[%s, :]" % (s, s), "M", cells, at=w)
        check(acc, "M[%s] = N[%s]" % (s, s), "M[%s] = N[%s]" % (s, s), "M", cells, at=w)
        check(acc, "M[a, %s] = x" % s.replace("n", "m"), "M[a, %s] = x" % s.replace("n", "m"), "M", cm, at=w)
        check(acc, "M[%s, b] = A[%s]" % (s, s), "M[%s, b] = A[%s]" % (s, s), "M", cells, at=w)
        check(acc, "K[%s, 1, :] = x" % s, "K[%s, 1, :] = x" % s, "K", cells, at=w)
    for src in ("A[a + 1] = x", "A[a + 1] = C[b - 1]", "A[a + 1] += x", "A[a * 2] -= C[a]", "M[a + 1, b - 1] = x", "M[a + 1, b - 1] += M[a, b]", "M[a, b + 1] = V[b - 1]",
                "A[I[a] % 2] = x", "A[I[a] % 2] += x", "A[n - 1 - a] = A[a]", "A[n - b - 1] *= x", "K[a + 1, b - 1, 0] = x", "M[a + 1] = V", "M[a + 1, :] = M[a, :] + V",
                "M[:, a + 1] = M[:, a]", "A[a + 1:] = x", "A[a + 1:] = C[a + 1:]", "A[a + 1:n - 1] = A[a:n - 2] + 0.0", "A[a // 2] = x", "A[-a - 1] = x", "M[n - 1, m - 1] = x",
                "A[int(I[0] % 3)] = x"):
        check(acc, src, src, src[0], BND[2:3], at=w)
    for e in ("A[a + 1]", "A[n - 1 - a]", "M[a + 1, b - 1]", "M[a + 1, :] + 0.0", "M[:, b - 1] + 0.0", "A[a + 1:] + 0.0", "A[I[a] % 2]", "A[a * 2 - b]", "A[a:b + 1] + 0.0", "A[a // 2 + b]",
              "A[a] - A[a + 1]", "K[a + 1, b, a] + K[a, b - 1, 0]", "A[-a - 1]", "A[(a + b) % n]"):
        check(acc, "r = " + e, "r = " + e, "r", BND[2:3], at=w)
    for nm, src, out in (("overlap through a view of the source", "q = A[:-1]\nA[1:] = q", "A"), ("overlap through a view of the target", "q = A[1:]\nq[:] = A[:-1]", "A"),
                         ("overlap with the transpose", "S[:] = S.T", "S"), ("overlap with the reversal", "A[:] = np.flip(A)", "A"),
                         ("augmented overlap", "A[1:] += A[:-1]", "A"), ("augmented reversal", "A += A[::-1]", "A"), ("augmented transpose", "S += S.T", "S")):
        check(acc, nm, src, out, at=w)
    for src in ("A[:] = C[::-1]", "A[1:] = C[:-1]", "A[:-1] = C[1:]", "A[1:-1] = C[:-2] + C[2:]", "A[::2] = x", "A[:] = V[:1]", "A[a] = x", "A[-1] = x",
                "A[-2] = C[-1]", "M[a, b] = x", "M[-1, -2] = x", "M[a] = V", "M[:] = V", "M[:, :] = V", "M[:] = x", "M[a, :] = V", "M[:, a] = A",
                "M[-1] = V", "M[:, -1] = A", "K[a, b, 1] = x", "K[a] = R", "K[a, b] = W", "K[:, :, 1] = M", "K[:, a, :] = Q", "M[:] = N + V", "A[:] = 3", "I[:] = 3", "I[:] = J",
                "A[:] = I", "I[:] = A", "M[1:, 1:] = N[:-1, :-1]", "M[:, 1:] = M[:, :-1] + 0.0", "A[1:] = A[:-1] + 0.0", "A[1:] = A[:-1]", "A[:-1] = A[1:]", "A[:] = A[::-1]",
                "A[a] = A[b] + C[a]", "A[a + 1] = A[a] - x", "A[a] += x", "A[a] -= C[b]", "M[a, b] *= x", "A[a], A[b] = A[b], A[a]", "A += C", "A -= x",
                "A *= C", "A /= C", "M += V", "M -= N", "A[:] -= C", "A[1:] += C[:-1]", "A[a:] *= x", "M[a, :] -= V", "M[:, b] += A",
                "M[1:-1, 1:-1] = N[1:-1, :-2] + N[1:-1, 2:] + N[2:, 1:-1] + N[:-2, 1:-1]", "M[a, :b] = x", "M[:a, :b] = x", "M[a:, b:] = N[a:, b:]"):
        check(acc, src, src, src[0], BND, at=w)
    acc.done()

    rep.rule("R3 elementwise", "An arithmetic operator, comparison or function of arrays computes NumPy's result element by element, operands in "
             "order, with NumPy's broadcasting and result shape")
    acc = Acc(rep, "R3 elementwise")
    w = "python/docc/python/functions/numpy.py handle_array_binary_op"
    OPS = ["+", "-", "*", "/", "**", "//", "%", "<", "<=", ">", ">=", "==", "!="]
    for op in OPS:
        for l, r in (("A", "C"), ("A", "x"), ("x", "A"), ("A", "2"), ("2", "A"), ("A", "2.5"), ("A", "a"), ("a", "A"), ("I", "J"), ("I", "2"), ("I", "a"), ("a", "I"),
                     ("I", "x"), ("x", "I"), ("A", "I"), ("I", "A"), ("M", "V"), ("V", "M"), ("M", "N"), ("M", "x"), ("M", "M[0, :]"), ("M", "M[:, 0:1]"), ("M[:, 0:1]", "M"),
                     ("G", "V"), ("V", "G"), ("K", "R"), ("R", "K"), ("K", "W"), ("A[1:]", "A[:-1]"), ("A[::-1]", "C"), ("A", "C[::-1]"), ("A[::2]", "C[::2]"), ("F", "A"), ("F", "x"),
                     ("F", "F"), ("K", "K"), ("A[a]", "A"), ("M[:, 0:1]", "V"), ("M[0:1, :]", "M"), ("T.T", "M"), ("M", "np.transpose(T)")):
            if op == "**":
                if l in ("2", "2.5", "a") or (l, r) not in (("A", "2"), ("M", "2"), ("I", "2"), ("A", "I")):
                    l = "np.abs(%s)" % l if l not in ("2", "x", "a") else l
            check(acc, "%s %s %s" % (l, op, r), "r = %s %s %s" % (l, op, r), "r", at=w)
    for f in ("np.abs", "np.absolute", "np.sqrt", "np.exp", "np.tanh", "np.sin", "np.negative", "-"):
        for v in ("A", "M", "K", "I", "A[1:]", "A[::-1]", "M[:, 1]", "M[1:, ::2]", "F", "T.T", "A + C", "A[::2]", "M[a]"):
            arg = "np.abs(%s)" % v if f == "np.sqrt" else v
            check(acc, "%s(%s)" % (f, v), "r = %s(%s)" % (f, arg), "r", at=w)
    for f in ("np.add", "np.subtract", "np.multiply", "np.divide", "np.minimum", "np.maximum", "np.power"):
        for l, r in (("A", "C"), ("A", "x"), ("x", "A"), ("M", "V"), ("V", "M"), ("I", "J"), ("A", "I"), ("A[1:]", "C[:-1]"), ("A", "2")):
            l2 = "np.abs(%s)" % l if f == "np.power" else l
            check(acc, "%s(%s, %s)" % (f, l, r), "r = %s(%s, %s)" % (f, l2, r), "r", at=w)
    for e in ("A * x + C", "x * A - y * C", "(A + C) * (A - C)", "A - (C - D)", "(A - C) - D", "A / (C / D)", "-A + C", "-(A - C)", "A * -1.0", "np.abs(A - C)",
              "np.where(A < C, A, C)", "np.where(A > 0.0, x, y)", "np.where(A < x, A, 0.0)", "np.where(M < N, M, N)", "np.clip(A, -1.0, 2.0)", "np.clip(A, y, x)",
              "np.minimum(A, np.maximum(C, D))", "np.where(A[1:] < A[:-1], x, y)", "np.where(I < J, I, J)", "A + M[0, 0]", "A * I[a]", "np.where(A < C, 1, 0)"):
        check(acc, e, "r = " + e, "r", at=w)
    acc.done()

    rep.rule("R4 reductions", "sum, max, min, mean and std reduce over the axes named, in a result of NumPy's shape")
    acc = Acc(rep, "R4 reductions")
    w = O.method_line(cxx.REPO, "_handle_numpy_reduce")
    for f in ("sum", "max", "min", "mean", "std"):
        for v in ("A", "M", "K", "I", "G", "A[1:]", "A[::-1]", "M[:, 1:]", "M[a]", "T.T", "A * C", "F"):
            check(acc, "np.%s(%s)" % (f, v), "r = np.%s(%s)" % (f, v), "r", at=w)
            for ax in ("0", "-1", "1", "(0, 1)", "(1,)", "2"):
                if ax in ("1", "(0, 1)", "(1,)") and v[0] in "AIF" or ax == "2" and v != "K" or v == "M[a]":
                    continue
                check(acc, "np.%s(%s, axis=%s)" % (f, v, ax), "r = np.%s(%s, axis=%s)" % (f, v, ax), "r", at=w)
                check(acc, "np.%s(%s, axis=%s, keepdims=True)" % (f, v, ax), "r = np.%s(%s, axis=%s, keepdims=True)" % (f, v, ax), "r", at=w)
        check(acc, "np.%s(M, 0)" % f, "r = np.%s(M, 0)" % f, "r", at=w)
        check(acc, "M[a, b] = np.%s(A)" % f, "M[a, b] = np.%s(A)" % f, "M", at=w)
        check(acc, "V[:] = np.%s(M, axis=0)" % f, "V[:] = np.%s(M, axis=0)" % f, "V", at=w)
        check(acc, "A - np.%s(A)" % f, "r = A - np.%s(A)" % f, "r", at=w)
        check(acc, "M / np.%s(M, axis=0)" % f, "r = M / np.%s(M, axis=0)" % f, "r", at=w)
    acc.done()

    rep.rule("R5 products", "@, np.dot, np.matmul, np.outer, ufunc.outer and the recognised product patterns compute NumPy's product of the operands as written: "
             "order, transposition, slices, factors and summands")
    acc = Acc(rep, "R5 products")
    w = "python/docc/python/functions/numpy.py _handle_matmul_helper"
    for e in ("M @ R", "M @ V", "A @ M", "A @ C", "np.dot(A, C)", "np.dot(M, V)", "np.dot(M, R)", "np.matmul(M, R)", "np.matmul(M, V)", "T.T @ V", "T @ A", "M.T @ A", "R.T @ V",
              "M @ T", "M.T @ T.T", "S @ S", "S.T @ S", "S @ S.T", "np.transpose(M) @ A", "M[:, 1:] @ R[1:, :]", "M[1:, :] @ R", "M[a, :] @ V", "M[a] @ V", "M[:, a] @ A", "V @ R",
              "M[a, :] @ M[b, :]", "A[1:] @ C[:-1]", "M[0:2] @ R", "K[a] @ R.T", "K[a, :, :] @ W", "K[:, a, :] @ W", "x * A @ C", "A[::-1] @ C", "A[::2] @ C[::2]", "M @ R @ W", "(M @ V) * A",
              "np.outer(A, V)", "np.outer(A, C)", "np.outer(M[0, :], W)", "np.add.outer(A, V)", "np.subtract.outer(A, V)", "np.multiply.outer(A, V)", "np.maximum.outer(A, V)",
              "np.minimum.outer(A, V)", "np.divide.outer(A, V)", "np.subtract.outer(A, A)", "np.add.outer(I, J)", "np.subtract.outer(I, J)", "np.less.outer(A, V)", "I @ J", "G @ V", "M[:, 0:2] @ V[0:2]"):
        check(acc, e, "r = " + e, "r", at=w)
    for src in ("A[:] = M @ V", "Q[:] = M @ R", "Q[:, :] = M @ R", "Q[:] = x * M @ R", "Q[:] = x * M @ R + y * Q", "Q[:] = M @ R + Q", "Q[:] = Q + M @ R", "Q += M @ R", "Q[:] = T.T @ R", "S[:] = S @ S", "S[:] = M @ N.T",
                "S[:] = x * M @ M.T + y * S", "Q[1:, :] = M[1:, :] @ R", "Q[:, 1:] = M @ R[:, 1:]", "Q[a, :] = M[a, :] @ R", "M[:] = np.outer(A, V)", "M += np.outer(A, V)", "M[:] = M + np.outer(A, V)",
                "A[a] = M[a, :] @ V", "A[a] = np.dot(M[a, :], V)", "A[a] -= M[a, :b] @ V[:b]", "M[a, b] -= M[a, :b] @ S[:b, b]", "S[a, b] -= S[a, :b] @ S[:b, b]", "S[a, b] = np.dot(S[a, :b], S[b, :b])", "A[:] = A @ S", "V[:] = A @ M",
                "Q[:] = 2.0 * (M @ R)", "Q[:] = (M @ R) * x", "Q[:] = -1.0 * M @ R + Q", "Q[:] = M @ R - Q", "Q[:] = Q - M @ R", "V[:] = M.T @ A", "M[:] = A[:, np.newaxis] * V", "M -= np.outer(A, V)", "M[:] = np.add.outer(A, V)",
                "M[:] = np.subtract.outer(A, V)", "M[1:, :] = np.add.outer(A[1:], V)", "M[:] = np.minimum(M, np.add.outer(A, V))", "S[:] = np.minimum(S[:], np.add.outer(S[:, a], S[a, :]))", "M[:, 1:] = np.subtract.outer(A, V[1:])"):
        check(acc, src, src, src[0], BND[1:3], at=w)
    for nm, src, out in (("rebound to a product", "r = np.zeros(n)\nr = M @ R", "r"), ("rebound to a matrix-vector product", "r = np.zeros((n, m))\nr = M @ V", "r"),
                         ("rebound to an outer product", "r = np.zeros(n)\nr = np.outer(A, V)", "r"), ("rebound to a dot product", "r = x\nr = A @ C", "r"),
                         ("array of a name rebound to a product", "r = np.zeros((n, k))\nq = r\nr = M @ R\nr = q + 0.0", "r"),
                         ("array of a name rebound to an outer product", "r = np.zeros((n, m))\nq = r\nr = np.outer(A, V)\nr = q + 0.0", "r"),
                         ("argument rebound to a product", "S = S @ S", "S"), ("argument rebound to a scaled product", "S = x * S @ S", "S"),
                         ("argument rebound to its transpose", "S = S.T\nr = S + 0.0", "r"), ("argument rebound to a matrix-vector product", "A = M @ V", "A"),
                         ("argument rebound to an accumulated product", "Q = M @ R + Q", "Q"), ("rebound to a transpose", "r = np.zeros(n)\nr = M.T\nr = r + 0.0", "r"),
                         ("sum of outer products in place", "M[:] = np.outer(A, V) + np.outer(C, V)", "M"), ("outer added to the target", "M[:] = M + np.outer(A, V)", "M"),
                         ("difference of outer products", "M[:] = np.outer(A, V) - np.outer(C, V)", "M")):
        check(acc, nm, src, out, BND[1:3], at=w)
    acc.done()

    rep.rule("R6 views and constructors", "transpose, reshape, flip, copy, astype and the array constructors give NumPy's elements and shape; a copy is "
             "independent of its source, a view is not")
    acc = Acc(rep, "R6 views and constructors")
    w = "python/docc/python/functions/numpy.py"
    for e in ("M.T", "np.transpose(M)", "np.transpose(K)", "np.transpose(K, (1, 0, 2))", "np.transpose(K, (2, 0, 1))", "np.transpose(K, axes=(0, 2, 1))", "np.flip(A)", "np.flip(M)", "np.flip(M, 0)", "np.flip(M, axis=1)",
              "np.fliplr(M)", "np.flipud(M)", "np.flipud(A)", "np.flip(K, (0, 2))", "np.reshape(M, (m, n))", "np.reshape(M, (n * m,))", "M.reshape((m, n))", "np.reshape(A, (1, n))", "np.reshape(A, (n, 1))", "np.reshape(M, (-1,))", "A.copy()", "M.copy()",
              "A.astype(np.int64)", "I.astype(np.float64)", "A.astype(np.float32)", "A[1:].copy()", "M.T.copy()", "np.zeros(n)", "np.zeros((n, m))", "np.ones(n)", "np.ones((n, m))", "np.zeros_like(A)", "np.zeros_like(M)", "np.eye(n)",
              "np.zeros(n, dtype=np.int64)", "np.ones(n, dtype=np.int64)", "np.zeros(A.shape)", "np.zeros((n, m), dtype=A.dtype)", "np.zeros(n + 1)", "np.zeros((a, b))", "np.ones((a, b))", "np.eye(n, m)", "np.eye(n, k=1)", "A[::-1].copy()", "np.zeros(M.shape)",
              "np.zeros(len(A))", "np.full(n, x)", "np.arange(n)", "np.linspace(0, 1, n)", "np.zeros_like(I)", "np.ones(n) * x", "np.eye(n) * 2.0", "A[I % 2]"):
        check(acc, e, "r = " + e, "r", at=w)
        if "zeros" not in e and "ones" not in e and "eye" not in e:
            check(acc, "%s in an expression" % e, "r = (%s) * 2.0 + 1.0" % e, "r", at=w)
    for nm, src, out in (("copy is independent", "r = A.copy()\nA[0] = 99.0", "r"), ("copy leaves the source", "r = A.copy()\nr[0] = 99.0", "A"),
                         ("slice is a view", "r = A[1:]\nr[0] = 99.0", "A"), ("row is a view", "r = M[a]\nr[0] = 99.0", "M"), ("transpose is a view", "r = M.T\nr[0, 1] = 99.0", "M"),
                         ("flip is a view", "r = np.flip(A)\nr[0] = 99.0", "A"), ("reversed slice is a view", "r = A[::-1]\nr[0] = 99.0", "A"), ("reshape is a view", "r = np.reshape(M, (m, n))\nr[0, 1] = 99.0", "M"),
                         ("alias", "r = A\nr[0] = 99.0", "A"), ("expression is a copy", "r = A + 0.0\nA[0] = 99.0", "r"), ("strided slice is a view", "r = A[::2]\nr[1] = 99.0", "A"), ("column is a view", "r = M[:, b]\nr[1] = 99.0", "M"),
                         ("slice of a slice", "r = A[1:]\nq = r[1:]\nr = q + 0.0", "r"), ("slice of a strided slice", "r = A[::2]\nq = r[1:]\nr = q + 0.0", "r"), ("slice of a column", "r = M[:, b]\nq = r[1:]\nr = q + 0.0", "r"),
                         ("element of a slice", "r = A[1:]\nr = r[b]", "r"), ("slice of the transpose", "r = T.T\nq = r[1:, :2]\nr = q + 0.0", "r"), ("slice of a flip", "r = np.flip(A)\nq = r[1:]\nr = q + 0.0", "r"),
                         ("row of a sub-matrix", "r = M[1:, 1:]\nq = r[a]\nr = q + 0.0", "r"), ("element of a sub-matrix", "q = M[1:, 1:]\nr = q[0, 1]", "r"), ("write through a sub-matrix", "q = M[1:, 1:]\nq[0, 1] = 99.0", "M"),
                         ("slice write through a sub-matrix", "q = M[1:, 1:]\nq[0, :] = 99.0", "M"), ("slice write through a transpose", "q = M.T\nq[0, :] = 99.0", "M"), ("slice write through a strided slice", "q = A[::2]\nq[1:] = 99.0", "A"),
                         ("augmented write through a slice", "q = A[1:]\nq += 1.0", "A"), ("sum of a column", "r = np.sum(M[:, b])", "r"), ("product of transposes", "q = M.T\nr = q @ A", "r"),
                         ("swap of arrays", "A, C = C, A\nr = A - 2.0 * C", "r"), ("shape", "r = M.shape[0] * 10 + M.shape[1]", "r"), ("shape of a slice", "q = M[1:, :2]\nr = q.shape[0] * 10 + q.shape[1]", "r"), ("shape of a transpose", "q = M.T\nr = q.shape[0] * 10 + q.shape[1]", "r"),
                         ("write to the copy of a slice", "q = A[1:].copy()\nq[0] = 99.0", "A"), ("gather", "r = A[I * 0 + 1]", "r")):
        check(acc, nm, src, out, at=w)
    acc.done()

    rep.rule("R7 loops over arrays", "Iterating over an array, and arrays created or assigned inside loops, behave as in Python at every iteration")
    acc = Acc(rep, "R7 loops over arrays")
    w = O.method_line(cxx.REPO, "visit_For")
    for nm, src, out in (("elements of a vector", "r = 0.0\nfor v in A:\n    r = r * 2.0 + v", "r"), ("rows of a matrix", "r = 0.0\nfor v in M:\n    r = r * 2.0 + v[1]", "r"), ("rows of a matrix, written", "for v in M:\n    v[0] = x", "M"),
                         ("elements of a slice", "q = A[1:]\nr = 0.0\nfor v in q:\n    r = r * 2.0 + v", "r"), ("columns", "q = M.T\nr = 0.0\nfor v in q:\n    r = r * 2.0 + v[1]", "r"),
                         ("zeros in a loop", "r = 0.0\nfor i in range(3):\n    q = np.zeros(n)\n    q[i] += 1.0\n    r += np.sum(q)", "r"), ("ones in a loop", "r = 0.0\nfor i in range(3):\n    q = np.ones(n)\n    q[i] += 1.0\n    r += np.sum(q)", "r"),
                         ("zeros_like in a loop", "r = 0.0\nfor i in range(3):\n    q = np.zeros_like(A)\n    q[i] += 1.0\n    r += np.sum(q)", "r"), ("eye in a loop", "r = 0.0\nfor i in range(2):\n    q = np.eye(n)\n    q[0, 1] += 1.0\n    r += np.sum(q)", "r"),
                         ("temporary in a loop", "for i in range(3):\n    A[:] = A + C", "A"), ("recurrence over rows", "for i in range(1, n):\n    M[i, :] = M[i - 1, :] + V", "M"), ("recurrence over elements", "for i in range(1, n):\n    A[i] = A[i - 1] + A[i]", "A"),
                         ("triangular update", "for i in range(n):\n    for j in range(i):\n        S[i, j] -= S[i, :j] @ S[j, :j]", "S"), ("double buffer", "for i in range(3):\n    C[1:-1] = A[:-2] + A[2:]\n    A[1:-1] = C[:-2] - C[2:]", "A"),
                         ("reverse loop", "for i in range(n - 1, -1, -1):\n    A[i] = C[n - 1 - i]", "A"), ("conditional write", "for i in range(n):\n    if A[i] < 0.0:\n        C[i] = A[i]\n    else:\n        C[i] = -A[i]", "C"),
                         ("array kept from the previous iteration", "p = np.zeros(n)\nfor i in range(3):\n    q = np.zeros(n)\n    q[0] = p[0] + 1.0 + i\n    p = q\nr = p[0]", "r"),
                         ("result kept from the first iteration", "p = A + 0.0\nfor i in range(3):\n    q = A * (1.0 + i)\n    if i == 0:\n        p = q\nr = p + 0.0", "r"),
                         ("argmax", "r = 0\nfor i in range(1, n):\n    if A[i] > A[r]:\n        r = i", "r"), ("view of the previous row", "for i in range(1, n):\n    q = M[i - 1]\n    M[i, :] = q * x", "M"), ("name rebound in a loop", "q = A + 0.0\nfor i in range(3):\n    q = q * x\nr = q + 0.0", "r")):
        check(acc, nm, src, out, at=w)
    acc.done()
    rep.count("forms", len(SUM))
    rep.assume.append("library operations (elementwise, reductions, gemm, dot, cast) compute what their names say on the tensors they are given")


CHECKS = {"F04": f04}
