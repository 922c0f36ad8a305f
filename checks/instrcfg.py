"""B06: configuration of the runtime instrumentation (constructor of the state object)."""
from checks import instr as B
from lib import absint as A, cxx
from lib.absint import I, last, show

NPOS = I(2**64 - 1)


def S(f):
    return ("f", B.THIS, f)


def is_names(t):
    return "vector" in t and "basic_string" in t


def splits(fn):
    """Does this function split text into a list of strings (by out parameter or result)?"""
    if fn.get("ctor") or fn.get("dtor"):
        return False
    ps = fn["ps"]
    out = [p for p in ps if is_names(p["t"]) and p["t"].endswith("&") and "const std::vector" not in p["t"]]
    text = [p for p in ps if not is_names(p["t"]) and ("basic_string" in p["t"] or "char *" in p["t"])]
    return bool(text) and (bool(out) or is_names(fn.get("rt") or fn.get("t") or ""))


class CEngine(B.BEngine):
    def follow(self, fn):
        return not splits(fn) and super().follow(fn)

    def on_call(self, st, node, q, rl, rv, args, an):
        fn = [f for f in self.fx.named(q) if splits(f)]
        if fn and len(args) == len(fn[0]["ps"]):
            out = []
            for a, p in zip(an, fn[0]["ps"]):
                if is_names(p["t"]):
                    try:
                        out += [l for _, l in self.loc(a, st)][:1]
                    except A.Undecided:
                        pass
            text = plain(args[text_param(fn[0])])
            if text[0] == "ref":
                text = plain(self.load(st, text[1]))
            if out:
                st.emit("split", q, out[0], text)
                return [(st, ("void",))]
        return super().on_call(st, node, q, rl, rv, args, an)


def env(name):
    return ("s", name)


def is_getenv(t, name=None):
    return isinstance(t, tuple) and len(t) == 5 and t[0] == "call" and last(t[1]) in ("getenv", "secure_getenv") and isinstance(t[3], tuple) and len(t[3]) == 1 and (name is None or t[3][0] == ("s", name))


def getenvs(st, name):
    """All getenv(name) terms of the path (facts and events)."""
    out = set()
    for src in (st.facts, st.events(), st.env.values()):
        for x in src:
            for t in A.subterms(x):
                if is_getenv(t, name):
                    out.add(t)
    return out


def state_null(st, name):
    """Is the variable unset on this path: True / False / None (not asked)."""
    r = {st.truth(t) for t in getenvs(st, name)} - {None}
    return None if len(r) != 1 else not r.pop()


def plain(t):
    """Strips string conversions (std::string(x), x.c_str(), references)."""
    while isinstance(t, tuple):
        if t[0] == "call" and last(t[1]) in ("c_str", "data", "str", "string", "basic_string") and t[2] is not None and not t[3]:
            t = t[2]
        elif t[0] == "ctor" and "basic_string" in str(t[1]) and len(t[2]) == 1:
            t = t[2][0]
        else:
            return t
    return t


def called_pointers(fx):
    """Global function pointers _PAPI_x that methods of the state class call."""
    out = {}
    for f in fx.methods(B.CLS):
        todo = [f.get("body")]
        while todo:
            n = todo.pop()
            if isinstance(n, list):
                todo += n
            elif isinstance(n, dict):
                c = n.get("fn")
                if n.get("k") == "call" and isinstance(c, dict) and c.get("d") == "global" and "(*)" in (c.get("t") or ""):
                    out.setdefault(c["n"], []).append((f["n"], n.get("l"), f))
                todo += list(n.values())
    return out


def b06(rep):
    r1 = "environment variables configure the runtime as documented"
    r2 = "every counter function used was found in the loaded library"
    r3 = "event lists are split at every comma"
    rep.rule(r1, "path enumeration of the state object's constructor: on every returning path the mode flag, the output file and the "
                 "event name lists are the required function of getenv results; a missing or refused library version ends the program")
    rep.rule(r2, "each function pointer the class calls is bound by dlsym to the symbol of its own name and tested non-null on every "
                 "returning path")
    rep.rule(r3, "path enumeration of the splitter: the pieces pushed tile the text between consecutive positions found for ','")
    fx = B.facts(rep)
    ctors = [f for f in fx.methods(B.CLS) if f.get("ctor") and f.get("body") and not f["ps"]]
    rep.need(ctors, "constructor of " + B.CLS)
    a1, a2, a3 = B.Acc(rep, r1), B.Acc(rep, r2), B.Acc(rep, r3)
    e = CEngine(fx)
    ptrs = called_pointers(fx)
    splitters = set()
    try:
        st0 = A.St()
        for g in ptrs:
            st0.env[("gl", g)] = I(0)           # their initial value: the library is not loaded
        out = e.run(ctors[0], st=st0)
        rep.fns |= e.funcs
        rep.count("paths", len(out))
    except A.Undecided as x:
        rep.undecided(r1, "constructor", str(x))
        rep.undecided(r2, "constructor", str(x))
        out = []
    done = False
    for kind, st, v in out:
        if kind == "throw":
            a1("construction", False, "a path throws an exception")
            continue
        if kind == "exit":
            why(a1, st)
            continue
        done = True
        config(a1, st, splitters, fx)
        library(a1, a2, st, ptrs, fx)
    if out and not done:
        a1("construction", False, "no path completes: the program ends whatever is configured and installed")
    a1.done(["aggregation mode", "output file", "CPU event names", "CUDA event names", "library version"] if out else [])
    a2.done(["_PAPI_read"] if out else [])
    for q in sorted(splitters):
        for f in fx.named(q):
            if f.get("body"):
                splitter(rep, fx, a3, f, r3)
    a3.done()
    if not splitters:
        rep.undecided(r3, "event lists", "no function that splits the event lists was recognised")


def why(acc, st):
    """A terminating construction needs a failure status and a reason: unusable library, missing or refused version."""
    x = [x for x in st.events() if x[0] == "exit"]
    if x:
        code = B.R.strip(x[-1][2][0]) if x[-1][2] else None
        bad = "abort" not in x[-1][1] and "terminate" not in x[-1][1] and code is not None and A.is_int(code) and code[1] == 0
        acc("failures end the program with a failure status", not bad, "%s(%s)" % (x[-1][1], show(code) if code else ""))
    for k, v in st.facts.items():
        for t in A.subterms(k):
            if isinstance(t, tuple) and t and t[0] == "call" and last(t[1]) in ("dlopen", "dlsym") and st.truth(t) is False:
                return acc("failures", True)
            if is_getenv(t, "__DAISY_PAPI_VERSION") and st.truth(t) is False:
                return acc("failures", True)
    for k, v in st.facts.items():
        if k[0] == "eq0" and v is False and any(isinstance(t, tuple) and t and t[0] == "call" and last(t[1]) in ("strtol", "strtoul", "stoi", "atoi", "strtoll") for t in A.subterms(k)):
            return acc("failures", True)
    if any("PAPI" in repr(k) or "null" in repr(k) for k in st.facts):
        return acc("failures", None, "the program ends on a path whose reason was not recognised")
    acc("failures", False, "the program ends although the library was found and accepted its version")


LOOSE = ("strncmp", "strcasecmp", "strncasecmp", "starts_with", "find", "rfind", "contains", "strstr", "ends_with")


def glued(p, name):
    """Is p the variable's value with other text attached?"""
    if not (p and (p[0] == "cat" or p[0] == "bin" and p[1] == "+" or p[0] == "call" and last(p[1]) in ("operator+", "append", "+"))):
        return False
    xs = list(A.subterms(p))
    return any(is_getenv(x, name) for x in xs) and any(isinstance(x, tuple) and len(x) == 2 and x[0] == "s" and x[1] not in ("", name) for x in xs)


def config(acc, st, splitters, fx):
    # mode
    l = S("aggregate_events")
    v = st.env.get(l)
    name = "__DAISY_INSTRUMENTATION_MODE"
    null = state_null(st, name)
    eqs = {v2 for k, v2 in st.facts.items() if k[0] == "streq" and any(is_getenv(plain(x), name) for x in k[1:]) and ("s", "aggregate") in k[1:]}
    others = [k for k, v2 in st.facts.items() if k not in (("eq0",),) and k[0] != "streq" and k[0] != "eq0" and any(is_getenv(t, name) for t in A.subterms(k))]
    t = None if v is None else st.truth(v)
    if null is True:
        acc("aggregation mode", t is False if t is not None else None, "aggregation is on although %s is not set" % name)
    elif eqs == {True}:
        acc("aggregation mode", t is True if t is not None else None, "aggregation is off although %s is \"aggregate\"" % name)
    elif eqs == {False}:
        acc("aggregation mode", t is False if t is not None else None, "aggregation is on although %s is not \"aggregate\"" % name)
    elif v is not None and v[0] == "streq" and ("s", "aggregate") in v[1:] and any(is_getenv(plain(x), name) for x in v[1:]):
        acc("aggregation mode", True if null is False else None, "comparison of an unchecked variable")
    elif t is not None and not others and not getenvs(st, name):
        acc("aggregation mode", False, "aggregation is always %s: %s is not consulted" % ("on" if t else "off", name))
    else:
        wrong = [k for k in st.facts if k[0] == "streq" and any(is_getenv(plain(x), name) for x in k[1:]) and ("s", "aggregate") not in k[1:]]
        if wrong and t is True and not eqs:
            acc("aggregation mode", False, "aggregation is on for %s = %s" % (name, [x for x in wrong[0][1:] if x[0] == "s"]))
        elif wrong and len(wrong) == 1 and not eqs and t is False and st.facts[wrong[0]] is False and not others:
            acc("aggregation mode", False, "aggregation stays off for %s = \"aggregate\"" % name)
        else:
            loose = [x for k in st.facts for x in A.subterms(k) if isinstance(x, tuple) and x and x[0] == "call" and last(x[1]) in LOOSE and
                     any(is_getenv(y, name) for y in A.subterms(x)) and any(y == ("s", "aggregate") for y in A.subterms(x))]
            if loose and t is True and not eqs and not wrong:
                acc("aggregation mode", False, "aggregation is on whenever %s of %s accepts, not only for \"aggregate\"" % (last(loose[0][1]), name))
            else:
                acc("aggregation mode", None, "value %s" % show(v) if v else "never set")
    # output file
    name = "__DAISY_INSTRUMENTATION_FILE"
    null = state_null(st, name)
    v = st.env.get(S("output_file"))
    p = plain(v) if v is not None else None
    if null is True:
        if p is not None and p[0] == "s":
            acc("output file", p == ("s", "daisy_trace.json"), "the default output file is %r" % (p[1],))
        elif p is not None and is_getenv(p):
            acc("output file", False, "the output file is taken from an unset variable")
        else:
            acc("output file", None, "value %s" % (show(v) if v else "never set"))
    elif null is False:
        if p is not None and (p[0] == "s" or is_getenv(p)):
            extra = [k for k, x in st.facts.items() if any(is_getenv(y, name) for y in A.subterms(k)) and k[0] != "eq0"]
            if is_getenv(p, name):
                acc("output file", True)
            elif extra:
                acc("output file", None, "a further condition decides on " + name)
            else:
                acc("output file", False, "%s is set but the trace goes to %s" % (name, show(p)))
        elif p is not None and glued(p, name):
            acc("output file", False, "the trace goes to %s" % show(p))
        else:
            acc("output file", None, "value %s" % (show(v) if v else "never set"))
    elif p is not None and p[0] == "s":
        acc("output file", False, "the output file is %r whatever %s says" % (p[1], name))
    else:
        acc("output file", None, "unset %s is not told apart" % name)
    # event lists
    for label, name, field in (("CPU event names", "__DAISY_INSTRUMENTATION_EVENTS", "event_names_cpu"),
                               ("CUDA event names", "__DAISY_INSTRUMENTATION_EVENTS_CUDA", "event_names_cuda")):
        null = state_null(st, name)
        got = fills(st, S(field), splitters, fx)
        wrong = [x for x in got if x[0] == "env" and x[1] != name]
        other = [x for x in got if x[0] == "?"]
        mine = [x for x in got if x == ("env", name)]
        if wrong:
            acc(label, False, "filled from %s" % wrong[0][1])
        elif other:
            acc(label, None, "filled by %s" % other[0][1])
        elif len(mine) > 1:
            acc(label, False, "%s is added twice" % name)
        elif null is True:
            acc(label, True if not mine or mine and split_null_ok(fx, splitters) else None, "an unset variable is split")
        elif null is False:
            acc(label, len(mine) == 1, "%s is set but its events are not recorded" % name)
        elif mine:
            acc(label, split_null_ok(fx, splitters) or None, "an unset variable is split")
        elif not getenvs(st, name):
            acc(label, False, "%s is not consulted" % name)
        elif not any(is_getenv(t, name) for k in st.facts for t in A.subterms(k)):
            acc(label, False, "a path ignores %s%s" % (name, ", whether or not it is set"))
        else:
            acc(label, None, "the value of %s is not decided on this path" % name)


def split_null_ok(fx, splitters):
    """Does the splitter return at once on a null text?"""
    for q in splitters:
        for f in fx.named(q):
            if f.get("body"):
                try:
                    out = CEngine(fx).run(f)
                except A.Undecided:
                    return False
                i = text_param(f)
                p = ("p", f["ps"][i]["n"] or str(i), i)
                if not any(st.truth(p) is False and not [x for x in st.events() if x[0] == "call" and last(x[1]) in PUSH] for k, st, v in out):
                    return False
    return bool(splitters)


PUSH = ("push_back", "emplace_back")


def text_param(f):
    for i, p in enumerate(f["ps"]):
        if not is_names(p["t"]) and ("basic_string" in p["t"] or "char *" in p["t"]):
            return i
    return 0


def fills(st, loc, splitters, fx):
    out = []
    for x in st.events():
        if x[0] == "split" and x[2] == loc:
            splitters.add(x[1])
            out.append(("env", x[3][3][0][1]) if is_getenv(x[3]) and x[3][3][0][0] == "s" else ("?", show(x[3])[:80]))
        if x[0] == "call":
            if isinstance(x[4], tuple) and any(a in (("ref", loc), ("addr", loc)) for a in x[4]):
                out.append(("?", show(x[5])[:80]))
            elif x[2] == loc and last(x[1]) not in ("size", "empty", "clear", "reserve", "begin", "end"):
                out.append(("?", last(x[1])))
        elif x[0] in ("store", "init") and x[1] == loc:
            v = x[2]
            if isinstance(v, tuple) and v[0] == "call" and [f for f in fx.named(v[1]) if splits(f)]:
                g = [plain(a) for a in v[3] if is_getenv(plain(a))]
                splitters.add(v[1])
                out.append(("env", g[0][3][0][1]) if g else ("?", show(v)[:80]))
            elif isinstance(v, tuple) and v[0] == "list" and not v[1]:
                out.clear()
            elif x[0] == "store":
                out.append(("?", show(v)[:80]))
    return out


def library(a1, a2, st, ptrs, fx):
    # symbols
    bound = {}
    for x in st.events():
        if x[0] == "store" and x[1][0] == "gl":
            v = x[2]
            while isinstance(v, tuple) and v[0] == "cast":
                v = v[2]
            bound[x[1][1]] = v
    for g in sorted(ptrs):
        v = bound.get(g)
        if v is None or not (isinstance(v, tuple) and v[0] == "call" and last(v[1]) == "dlsym" and v[3][1][0] == "s"):
            if v is None and any(x[0] == "store" and x[1][0] == "gl" for x in st.events()) and st.truth(("ld", ("gl", g))) is None:
                a2(g, None, "not bound on a path that returns")
            elif v is None and st.truth(("ld", ("gl", g))) is False:
                continue
            else:
                a2(g, None, "bound to %s" % (show(v) if v else "nothing"))
            continue
        want = g.lstrip("_")
        if v[3][1][1] != want:
            a2(g, False, "bound to the symbol %s" % v[3][1][1])
            continue
        t = st.truth(v)
        if t is not True:
            sites = ptrs[g]
            free = [s for s in sites if not guarded(s[2], g)]
            a2(g, True if not free else False, "called in %s (line %s) but not tested when the library is loaded" % (free[0][0], free[0][1]) if free else "")
        else:
            a2(g, True)
    # version
    name = "__DAISY_PAPI_VERSION"
    null = state_null(st, name)
    if null is not False:
        a1("library version", False if null is True else None, "construction succeeds without " + name)
        return
    inits = [x for x in st.events() if x[0] in ("call", "papi") and (last(str(x[1])).lstrip("*") in ("_PAPI_library_init", "PAPI_library_init", "library_init") or x[0] == "call" and str(x[1]) == "*?" and len(x[4]) == 1)]
    if not inits:
        a1("library version", False if not any(x[0] == "call" and "*" in str(x[1]) for x in st.events()) else None, "the library is never initialised")
        return
    arg = inits[0][4][0] if inits[0][0] == "call" else None
    res = inits[0][5]
    if arg is None:
        arg = res[3][0] if res and res[3] else None
    a = arg
    while isinstance(a, tuple) and a[0] == "cast":
        a = a[2]
    if not (isinstance(a, tuple) and a[0] == "call" and any(is_getenv(plain(x), name) for x in a[3])):
        a1("library version", None if a is None or a[0] != "i" else False, "initialised with version %s" % (show(arg) if arg else "?"))
        return
    if last(a[1]) in ("strtol", "strtoul", "strtoll", "strtoull") and len(a[3]) == 3 and a[3][2] not in (I(0),):
        a1("library version", False if a[3][2][0] == "i" else None, "the version is read in base %s, so hexadecimal and octal spellings are misread" % show(a[3][2]))
        return
    eq = st.truth(("bin", "==", res, arg, "bool"))
    if eq is True:
        a1("library version", True)
    elif eq is False:
        a1("library version", False, "construction succeeds although the library refused the version")
    else:
        tested = any(any(t == res for t in A.subterms(k)) for k in st.facts if k[0] != "ge0")
        a1("library version", None if tested else False, "the result of the library initialisation is not compared with the version")


def guarded(fn, g):
    """Every call of g in fn sits under a test of g itself (c ? g(..) : .. / if (g))."""
    def walk(n, ok):
        if isinstance(n, list):
            return all(walk(x, ok) for x in n)
        if not isinstance(n, dict):
            return True
        c = n.get("fn")
        if n.get("k") == "call" and isinstance(c, dict) and c.get("n") == g and not ok:
            return False
        if n.get("k") in ("cond", "if"):
            t = n.get("c") or n.get("cond")
            here = ok or g in repr(t)
            return all(walk(v, here if v is not t else ok) for k, v in n.items())
        return all(walk(v, ok) for v in n.values())
    return walk(fn.get("body"), False)


def splitter(rep, fx, acc, f, rule):
    """Tiling of the text by the pieces pushed, on every path."""
    who = last(f["q"])
    try:
        e = CEngine(fx)
        out = e.run(f)
    except A.Undecided as x:
        rep.undecided(rule, who, str(x))
        return
    rep.fns |= e.funcs
    rep.count("paths", len(out))
    i = text_param(f)
    p = ("p", f["ps"][i]["n"] or str(i), i)
    texts = {p, ("ld", ("d", p))}
    judged = 0
    for kind, st, v in out:
        r = tiles(st, texts, p, ",", kind)
        if r is None:
            continue
        judged += 1
        acc(who, r[0], r[1])
    def first_found(st):
        for k in st.facts:
            for t in A.subterms(k):
                if call_of(t, "find") and plain(t[2]) in texts and (len(t[3]) < 2 or t[3][1] == I(0)):
                    return st.truth(("bin", "==", t, NPOS, "bool"))
        return "?"

    seen = [first_found(st) for kind, st, v in out if st.truth(p) is not False]
    if seen and all(x is True for x in seen):
        acc(who, False, "no path returns when the text contains a separator")
    if not judged:
        acc(who, None, "no path could be judged")


def call_of(t, name):
    return isinstance(t, tuple) and len(t) == 5 and t[0] == "call" and last(t[1]) == name


def tiles(st, texts, p, sep, kind):
    """(verdict, detail) for one path, or None when the path cannot happen."""
    if kind == "throw":
        return False, "a path throws an exception"
    if kind == "exit":
        return False, "a path ends the program"
    seps = {I(ord(sep)), ("s", sep), ("c", sep)}
    pieces = [x[4][0] if x[4] else None for x in st.events() if x[0] == "call" and last(x[1]) in PUSH]
    if st.truth(p) is False:
        return (not pieces, "pieces are pushed for a null text")

    def found(a):
        """position of the next separator from a: (term, exists?)"""
        for k in st.facts:
            for t in A.subterms(k):
                if call_of(t, "find") and plain(t[2]) in texts and t[3] and t[3][0] in seps:
                    b = t[3][1] if len(t[3]) > 1 else I(0)
                    if A.lin(b) == A.lin(a):
                        eq = st.truth(("bin", "==", t, NPOS, "bool"))
                        return t, (None if eq is None else not eq)
        return None, None

    empties = [k for k in st.facts if k[0] in ("empty",) and plain(k[1]) in texts]
    empty = st.facts[empties[0]] if empties else None
    if empty is True:
        for k, v in st.facts.items():
            for t in A.subterms(k):
                if call_of(t, "find") and st.truth(("bin", "==", t, NPOS, "bool")) is False:
                    return None          # a separator in an empty text
    cur, done = I(0), False
    for x in pieces:
        x = plain(x)
        if done:
            return False, "a piece is pushed after the last one"
        if not call_of(x, "substr") or plain(x[2]) not in texts:
            if x in texts and cur == I(0):
                x = ("call", "substr", x, (I(0), NPOS), 0)
            else:
                return None if False else (None, "piece %s" % show(x)[:80])
        a = x[3][0] if x[3] else I(0)
        n = x[3][1] if len(x[3]) > 1 else NPOS
        if A.lin(a) != A.lin(cur):
            if isinstance(a, tuple) and a[0] == "phi" and A.lin(a[3]) == A.lin(cur):
                cur = a
            elif isinstance(a, tuple) and (a[0] == "phi" or a[0] == "havoc"):
                return (False, "a piece starts at %s after %s" % (show(a)[:60], show(cur)[:60])) if a[0] == "phi" else (None, "piece at unknown position")
            else:
                return False, "a piece starts at %s where %s is due" % (show(a)[:60], show(cur)[:60])
        pos, some = found(a)
        if pos is None:
            other = [t for k in st.facts for t in A.subterms(k) if call_of(t, "find") and plain(t[2]) in texts and t[3] and t[3][0] not in seps
                     and t[3][0][0] in ("i", "s", "c") and A.lin(t[3][1] if len(t[3]) > 1 else I(0)) == A.lin(a)]
            if other:
                return False, "pieces end at %s instead of %r" % (show(other[0][3][0]), sep)
            loose = any(isinstance(t, tuple) and t and t[0] in ("phi", "havoc") for k in st.facts for t in A.subterms(k))
            if n == NPOS and not loose and a != I(0):
                return False, "the rest is pushed without looking for further separators"
            return None, "piece without a search for the separator"
        if n == NPOS or n == pos and some is False:
            if some is True:
                return False, "the rest is pushed although a separator follows"
            if some is None:
                return None, "rest"
            done = True
            continue
        if A.lin(n) != A.lin(("bin", "-", pos, a, "unsigned long")):
            return False, "a piece of length %s instead of up to the separator" % show(n)[:80]
        if some is not True:
            return (False if some is False else None), "a piece up to a separator that was not found"
        cur = ("bin", "+", pos, I(1), "unsigned long")
    if not done and not (empty is True and not pieces):
        pos, some = found(cur)
        if empty is True:
            return True, ""
        if not pieces and empty is None and any(any(t in texts for t in A.subterms(k)) and k[0] not in ("eq0",) for k in st.facts):
            return None, "nothing is pushed under a condition on the text"
        return False, "the text after the last separator is dropped"
    return True, ""


CHECKS = {"B06": b06}
