"""A07, B07: the capturing and measuring code that the generators put around a region."""
import glob
import os
import re
import shutil
import subprocess
import tempfile

from lib import absint as A, cxx
from lib.absint import I, last
from checks import serial as SR

D = "sdfg/src/codegen/instrumentation/"
DISP = "sdfg/src/codegen/dispatchers/"
GEN = "sdfg/src/codegen/code_generators/"
RTL = "rtl/src/instrumentation.cpp"
CAP = "rtl/src/capture.cpp"
IP, AP = "sdfg::codegen::InstrumentationPlan::", "sdfg::codegen::ArgCapturePlan::"
THIS = ("d", ("this",))


class G(SR.Eng):
    """Text written to a stream, in order."""
    opaque = ()

    def follow(self, fn):
        return fn["q"] not in self.opaque and super().follow(fn)

    def on_call(self, st, node, q, rl, rv, args, an):
        if last(q) == "operator<<" and len(args) in (1, 2):
            st.emit("text", args[-1])
            return [(st, ("ref", rl) if rl is not None else args[0])]
        if q in self.opaque:
            st.emit("plan", q, tuple(args), self.where(node))
        if last(q) in ("expression", "external_prefix") and "LanguageExtension" in q and len(args) <= 1:
            return [(st, ("ask", last(q), q, tuple(sig(x) for x in args)))]
        if last(q) in ("insert", "emplace", "insert_or_assign", "try_emplace"):
            st.emit("entered", q, tuple(args))
        if q == "sdfg::symbolic::subs" and len(args) == 3:
            return [(st, ("subs",) + tuple(args))]
        if q == "sdfg::symbolic::symbol" and len(args) == 1:
            return [(st, ("symbol", args[0]))]
        return super().on_call(st, node, q, rl, rv, args, an)


class BEng(G):
    """Dispatchers: what is begun, ended and dispatched, by the objects named; planning tables stay as they are meanwhile."""
    names = ("begin_node", "end_node", "dispatch", "dispatch_node", "should_instrument", "loop_info", "begin_instrumentation", "end_instrumentation",
             "instrumentation_info", "get_if_available_for_codegen", "expression")
    top = None

    def on_call(self, st, node, q, rl, rv, args, an):
        n = last(q)
        if n in self.names and q != self.top:
            ws = []
            for x, v in zip(an or (), args):
                ls = self.loc(x, st) if x is not None and x.get("k") in ("ref", "mem", "cast", "un") else ()
                ls = [self.resolve(st, l) for _, l in ls or ()]
                ws.append(sig(ls[0]) if ls and "?" not in sig(ls[0]) else sig(v))
            st.emit("step", n, q, tuple(ws))
            return [(st, ("ask", n, q, tuple(ws)))]
        return super().on_call(st, node, q, rl, rv, args, an)


class Acc:
    def __init__(self, rep, rule):
        self.rep, self.rule, self.d = rep, rule, {}

    def __call__(self, inst, ok, why=""):
        old = self.d.get(inst)
        rank = {False: 0, None: 1, True: 2}
        ok = None if ok is None else bool(ok)
        if old is None or rank[ok] < rank[old[0]]:
            self.d[inst] = (ok, why)

    def done(self):
        for i, (ok, why) in sorted(self.d.items()):
            if ok:
                self.rep.ok(self.rule, i)
            elif ok is None:
                self.rep.undecided(self.rule, i, why)
            else:
                self.rep.bad(self.rule, i, why)


# ---------------------------------------------------------------- terms as text
def sig(v):
    if not isinstance(v, tuple) or not v:
        return "?"
    k = v[0]
    if k == "i":
        return str(v[1])
    if k == "s":
        return v[1]
    if k == "this":
        return "this"
    if k == "p":
        return "P%d" % v[2]
    if k in ("ld", "d", "addr", "t", "ref", "obj") and len(v) == 2:
        return sig(v[1])
    if k == "v":
        return "v%s" % v[1]
    if k in ("f", "fld"):
        return "%s(%s)" % (v[2].strip("_"), sig(v[1]))
    if k in ("e", "idx"):
        return "at(%s,%s)" % (sig(v[1]), sig(v[2]))
    if k == "itn":
        return "it%s" % (v[2],)
    if k == "cast":
        return sig(v[2])
    if k == "subs":
        return "subs(%s)" % ",".join(sig(x) for x in v[1:])
    if k == "symbol":
        return "symbol(%s)" % sig(v[1])
    if k == "ctor" and "RCP" in v[1] and len(v[2]) == 1:
        return sig(v[2][0])
    if k == "cat":
        return "cat(%s)" % ",".join(sig(x) for x in v[1])
    if k == "ask":
        return "%s(%s)" % (v[1], ",".join(v[3]))
    if k == "call":
        if v[1] == "std::to_string" and len(v[3]) == 1:
            return sig(v[3][0])
        a = ([v[2]] if v[2] is not None else []) + list(v[3])
        return "%s(%s)" % (last(v[1]), ",".join(sig(x) for x in a))
    return "?"


def write(v):
    """A value written to a stream: literal text with terms in brackets."""
    if not isinstance(v, tuple) or not v:
        return "\x01?\x02"
    if v[0] == "fn":
        return "\n" if v[1] in ("std::endl",) else ""
    if v[0] == "s":
        return v[1]
    if v[0] == "i":
        return str(v[1])
    if v[0] == "cat":
        return "".join(write(x) for x in v[1])
    if v[0] == "cast" and len(v) > 2:
        return write(v[2])
    if v[0] == "call" and v[1] == "std::to_string" and len(v[3]) == 1:
        return write(v[3][0])
    return "\x01" + sig(v) + "\x02"


def text(st):
    return "".join(write(x[1]) for x in st.events() if x[0] == "text")


def say(t):
    return t.replace("\x01", "<").replace("\x02", ">")


def statements(t):
    """Statements of generated text; ';', '{' and '}' separate them outside of quotes and terms."""
    out, cur, q, h = [], "", False, 0
    for c in t:
        if c == "\x01":
            h += 1
        elif c == "\x02":
            h -= 1
        if c == '"' and not h:
            q = not q
        if not q and not h and c in ";{}":
            out.append(" ".join(cur.split()))
            if c != ";":
                out.append(c)
            cur = ""
            continue
        cur += c
    if cur.strip():
        out.append(" ".join(cur.split()))
    return [s for s in out if s]


def known(t, names):
    """Does a text consist of literals and terms over these accessors only?"""
    for h in re.findall("\x01([^\x02]*)\x02", t):
        if "?" in h or any(n not in names for n in re.findall(r"([\w]+)\(", h)):
            return False
    return True


def H(s):
    return "\x01" + s + "\x02"


# ---------------------------------------------------------------- B07
DI, LI, NM = "(debug_info(P0))", "(loop_info(P3))", "name(sdfg(this))"
VALUES = {"file_name": "filename" + DI, "function_name": "function" + DI, "line_begin": "start_line" + DI, "line_end": "end_line" + DI,
          "column_begin": "start_column" + DI, "column_end": "end_column" + DI, "sdfg_name": NM,
          "element_id": ("element_id(P3)", "element_id(P0)"), "element_type": "value(element_type(P3))", "target_type": "value(target_type(P3))"}
VALUES.update({n: n + LI for n in ("loopnest_index", "num_loops", "num_maps", "num_fors", "num_whiles", "max_depth")})
META = ("sdfg_file", "arg_capture_path", "features_file", "opt_report_file")
FLAGS = ("is_perfectly_nested", "is_perfectly_parallel", "is_elementwise", "has_side_effects")
ACCESS = {"filename", "function", "start_line", "end_line", "start_column", "end_column", "debug_info", "name", "sdfg", "element_id", "value",
          "element_type", "target_type", "loop_info", "at", "metadata", "metrics", "first", "second"} | set(VALUES) | set(FLAGS)


def load(rep, files):
    have = [f for f in files if os.path.exists(os.path.join(cxx.REPO, f))]
    rep.files |= set(have)
    return cxx.load([os.path.join(cxx.REPO, f) for f in have])


def runs(rep, fx, q, rule, opaque=()):
    for f in [f for f in fx.named(q) if f.get("body")]:
        e = G(fx)
        e.opaque = opaque
        try:
            out = e.run(f)
        except A.Undecided as x:
            rep.undecided(rule, last(q), str(x))
            return f, []
        rep.fns |= e.funcs
        rep.count("paths", len(out))
        return f, [(st, v) for k, st, v in out if k == "return"]
    rep.undecided(rule, last(q), "function not found")
    return None, []


def fact(st, want):
    """Truth of the flag whose term reads `want`; None if the path does not ask."""
    for k, v in st.facts.items():
        if isinstance(k, tuple) and k[0] == "eq0" and len(k[1]) == 1 and k[2] == 0 and sig(k[1][0][0]) == want:
            return not v
    return None


def begin(rep, fx, rule, acc):
    rec = fx.recs.get("__daisy_metadata") or {}
    fields = {f["n"]: f["t"] for f in rec.get("fields", ())}
    f, out = runs(rep, fx, IP + "begin_instrumentation", rule)
    en = {n: v for n, v in (fx.enums.get("sdfg::codegen::InstrumentationEventType") or {}).get("consts", ())}
    rid = None

    def kinds(st):
        t = ("ld", ("e", ("f", THIS, "nodes_"), ("addr", ("d", ("p", f["ps"][0]["n"], 0)))))
        a = {n: st.truth(("bin", "==", t, I(v), "bool")) for n, v in en.items()}
        return [n for n in en if a[n] is True] or [n for n in en if a[n] is None]

    if not fields:
        acc("record", None, "struct __daisy_metadata not found")
    for st, _ in out:
        k = kinds(st)
        if en and not k:
            continue                 # a value outside the enumeration
        ss = statements(text(st))
        md = x = None
        seen, entered = {}, 0
        for s in ss:
            m = re.fullmatch(r"(?:struct )?__daisy_metadata(?:_t)? ([^ =]+)(?: = )?", s)
            if m and md is None:
                md = m.group(1)
                continue
            m = re.fullmatch(r"([^. ]+)\.(\w+) = (.*)", s, re.S)
            if m and "__daisy" not in m.group(1):
                acc("one record per region", m.group(1) == md, "%s is filled, %s is declared" % (say(m.group(1)), say(md or "nothing")))
                acc("the record is complete before it is used", x is None, "field %s is set after registering" % m.group(2))
                if m.group(2) in seen:
                    acc("field " + m.group(2), seen[m.group(2)] == m.group(3), "set twice")
                seen[m.group(2)] = m.group(3)
                continue
            m = re.fullmatch(r"[\w ]+? ([^ =]+) = __daisy_instrumentation_init\(&([^ ,]+), (\w+)\)", s)
            if m:
                acc("the region is registered once with its record", x is None and m.group(2) == md, "registers %s" % say(m.group(2)))
                x = m.group(1)
                acc("event set of the planned kind", None if len(k) > 1 and m.group(3)[len("__DAISY_EVENT_SET_"):] in k or not en else not k or [m.group(3)] == ["__DAISY_EVENT_SET_" + n for n in k],
                    "a region planned as %s is registered with %s" % (" or ".join(k), m.group(3)))
                continue
            m = re.fullmatch(r"__daisy_instrumentation_enter\(([^ ]+)\)", s)
            if m:
                entered += 1
                acc("the registered region is entered", x is not None and m.group(1) == x, "enters %s" % say(m.group(1)))
                continue
            acc("statements", None, "unrecognised statement '%s'" % say(s)[:80])
        acc("the registered region is entered", entered == 1, "entered %d times" % entered)
        acc("the region is registered once with its record", x is not None, "a region of kind %s is not registered" % " or ".join(k))
        if x:
            rid = x
            acc("regions have their own names", "element_id(P0)" in x and "element_id(P0)" in (md or ""), "every region of a program is called %s" % say(x))
        for n in fields:
            if n not in seen:
                acc("field " + n, False, "it is never set; the runtime reads an uninitialised value")
        for n, v in seen.items():
            if fields and n not in fields:
                acc("field " + n, False, "the record has no such field")
                continue
            string = "char" in fields.get(n, "")
            if string:
                q = re.fullmatch(r'"(.*)"', v, re.S)
                acc("field " + n, bool(q), "a string field is given %s" % say(v))
                if not q:
                    continue
                v = q.group(1)
            elif '"' in v:
                acc("field " + n, False, "a number is given %s" % say(v))
                continue
            ok = None
            if n in VALUES:
                w = VALUES[n]
                ok = v in [H(y) for y in (w if isinstance(w, tuple) else (w,))]
            elif n in META:
                h = [b for k, b in st.facts.items() if isinstance(k, tuple) and k[0] == "has" and k[2] == ("s", n)]
                want = H("at(metadata(sdfg(this)),%s)" % n)
                ok = v == want if h and h[0] is True else v == "" if h else False if v == "" else None
            elif n in FLAGS:
                b = fact(st, n + LI)
                ok = v == H(n + LI) or (v in ("0", "false") and b is False) or (v in ("1", "true") and b is True)
            elif n == "region_uuid":
                ok = "element_id(P0)" in v and NM in v
            else:
                continue
            if not ok and not known(v, ACCESS):
                ok = None
            acc("field " + n, ok, "it is given '%s'" % say(v))
    return rid


def end(rep, fx, rule, acc, rid):
    f, out = runs(rep, fx, IP + "end_instrumentation", rule)
    for st, _ in out:
        ss = statements(text(st))
        done = exits = 0
        ms = []
        for s in ss:
            m = re.fullmatch(r"__daisy_instrumentation_(\w+)\(([^ ,]+)(?:, (.*))?\)", s, re.S)
            if not m:
                acc("statements", None, "unrecognised statement '%s'" % say(s)[:80])
                continue
            if rid is not None:
                acc("the region that was entered is left", m.group(2) == rid if known(m.group(2), ACCESS) else None, "%s of %s, registered as %s" % (m.group(1), say(m.group(2)), say(rid)))
            acc("the region is finalised last", not done, "%s after finalize" % m.group(1))
            if m.group(1) == "exit":
                exits += 1
            elif m.group(1) == "finalize":
                done += 1
            elif m.group(1) in ("metric", "increment"):
                a = re.fullmatch('"\x01first\\(at\\(metrics\\(P3\\),(it\\d+)\\)\\)\x02", \x01second\\(at\\(metrics\\(P3\\),(it\\d+)\\)\\)\x02', m.group(3) or "")
                acc("metrics are reported under their names", bool(a) and a.group(1) == a.group(2) and m.group(1) == "metric" if a or known(m.group(3) or "", ACCESS) else None,
                    "it reports %s" % say(m.group(3) or ""))
                if a:
                    ms.append(a.group(1))
            else:
                acc("statements", False, "the region is %s again while it is being left" % m.group(1))
        acc("the region that was entered is left", exits == 1, "left %d times" % exits)
        acc("the region is finalised last", done == 1, "finalised %d times" % done)
        em = [v for k, v in st.facts.items() if isinstance(k, tuple) and k[0] == "empty" and sig(k[1]) == "metrics(P3)"]
        more = len([1 for k, v in st.facts.items() if isinstance(k, tuple) and k[0] == "more" and v])
        n = 0 if em and em[0] else 1 + more if em else None
        acc("every metric is reported once", None if n is None and ms else n in (None, len(ms)) and len(set(ms)) == len(ms), "%d of %s metrics are reported" % (len(ms), n))
        if n is None and not ms:
            acc("every metric is reported once", False, "metrics are not looked at")


PAIRS = ((IP, "measuring"), (AP, "capturing"))


def brackets(rep, fx, rule, acc):
    """Every function that begins a region also ends it, around the code of the node."""
    ops = tuple(p + n for p, _ in PAIRS for n in ("begin_instrumentation", "end_instrumentation"))
    for f in fx.fns.values():
        if not f.get("body") or not f.get("file", "").startswith((DISP, cxx.REPO + "/" + DISP)) and DISP not in f.get("file", ""):
            continue
        if f["q"] in ops or not any((c.get("q") or "") in ops for c in cxx.calls(f["body"])):
            continue
        e = BEng(fx)
        e.top = f["q"]
        try:
            out = e.run(f)
        except A.Undecided as x:
            rep.undecided(rule, f["q"].split("::", 2)[-1], str(x))
            continue
        rep.fns |= e.funcs
        rep.count("paths", len(out))
        who = "::".join(f["q"].split("::")[-2:])
        for k, st, v in out:
            if k != "return":
                continue
            ev = [x for x in st.events() if x[0] == "step"]
            body = [i for i, x in enumerate(ev) if x[1] in ("dispatch", "dispatch_node")]
            for p, what in PAIRS:
                b = [i for i, x in enumerate(ev) if x[2] == p + "begin_instrumentation"]
                z = [i for i, x in enumerate(ev) if x[2] == p + "end_instrumentation"]
                on = None
                for k2, v2 in st.facts.items():
                    if isinstance(k2, tuple) and k2[0] == "eq0" and len(k2[1]) == 1 and k2[2] == 0 and k2[1][0][0][:3] == ("ask", "should_instrument", p + "should_instrument"):
                        on = not v2
                if on is None and not b and not z:
                    continue
                i = "%s: %s" % (who, what)
                acc(i + " begins and ends together", len(b) == len(z) == (1 if on else 0) if on is not None else None,
                    "begun %d and ended %d times where the plan %s the node" % (len(b), len(z), "has" if on else "does not have"))
                if len(b) == 1 and len(z) == 1:
                    acc(i + " surrounds the node's code", b[0] < z[0] and all(b[0] < j < z[0] for j in body) if body else None, "the code of the node lies outside")
                    x, y = ev[b[0]][3], ev[z[0]][3]
                    und = any("?" in w for w in x[:2] + y[:2])
                    acc(i + " begins and ends the same node", x[:2] == y[:2] or (None if und else False), "%s begun, %s ended" % (", ".join(x[:2]), ", ".join(y[:2])))
            acc(who + ": the code of the node is generated once", len(body) == 1, "generated %d times" % len(body))
    if not acc.d:
        rep.undecided(rule, "dispatchers", "nobody uses the plans")


ETYPE = {"ForDispatcher": "For", "WhileDispatcher": "While", "SequentialMapDispatcher": "Map"}


def infos(rep, fx, rule, acc):
    for f in fx.fns.values():
        if last(f["q"]) != "instrumentation_info" or not f.get("body") or DISP not in f.get("file", ""):
            continue
        cls = f["q"].split("::")[-2]
        if cls not in ETYPE:
            continue
        e = BEng(fx)
        e.top = f["q"]
        try:
            out = e.run(f)
        except A.Undecided as x:
            rep.undecided(rule, cls, str(x))
            continue
        rep.fns |= e.funcs
        for k, st, v in out:
            if k != "return":
                continue
            while isinstance(v, tuple) and v and v[0] in ("cast", "obj") and len(v) < 4 and isinstance(v[-1], tuple):
                v = v[-1]
            a = v[2] if isinstance(v, tuple) and v and v[0] == "ctor" else None
            if not a or len(a) < 3:
                acc(cls + ": describes its node", None, "value not recognised")
                continue
            acc(cls + ": id of its node", sig(a[0]) == "element_id(node(this))" or (None if "?" in sig(a[0]) else False), "it is %s" % sig(a[0]))
            g = str(a[1])
            m = re.search(r"ElementType_(\w+)", g)
            acc(cls + ": kind of element", m.group(1) == ETYPE[cls] if m else None, "it is described as %s" % (m.group(1) if m else "?"))
            if len(a) > 3:
                s = sig(a[3])
                acc(cls + ": loop data of its node", s == "loop_info(node(this))" or (None if "?" in s else False), "it is %s" % s)


def b07(rep):
    r1 = "generated code registers each measured region with a complete and faithful record and enters it"
    r2 = "generated code leaves the same region, reports every metric and finalises it"
    r3 = "measuring and capturing surround exactly the code of the node"
    r4 = "the record's loop data and kind are those of the node"
    rep.rule(r1, "abstract interpretation of the generator's stream output on every path; the statements of the text against struct __daisy_metadata and the source of each value")
    rep.rule(r2, "abstract interpretation of the generator's stream output on every path; calls and their region in order")
    rep.rule(r3, "typestate of begin/end over every path of every dispatcher that uses the plans")
    rep.rule(r4, "abstract interpretation of instrumentation_info of the loop dispatchers")
    fx = load(rep, [D + "instrumentation_plan.cpp", D + "instrumentation_info.cpp", RTL])
    acc = Acc(rep, r1)
    rid = begin(rep, fx, r1, acc)
    acc.done()
    acc = Acc(rep, r2)
    end(rep, fx, r2, acc, rid)
    acc.done()
    fx = load(rep, sorted(os.path.relpath(x, cxx.REPO) for x in glob.glob(os.path.join(cxx.REPO, DISP, "*_dispatcher.cpp"))))
    acc = Acc(rep, r3)
    brackets(rep, fx, r3, acc)
    acc.done()
    acc = Acc(rep, r4)
    infos(rep, fx, r4, acc)
    acc.done()


# ---------------------------------------------------------------- A07
AT, ST = "arg_capture::PrimitiveType", "sdfg::types::PrimitiveType"
CPP = {"Void": "void", "Bool": "bool", "Int8": "int8_t", "Int16": "int16_t", "Int32": "int32_t", "Int64": "int64_t", "Int128": "__int128", "UInt8": "uint8_t",
       "UInt16": "uint16_t", "UInt32": "uint32_t", "UInt64": "uint64_t", "UInt128": "unsigned __int128", "Float": "float", "Double": "double", "X86_FP80": "long double"}


def split_args(t):
    out, cur, h, d = [], "", 0, 0
    for c in t:
        h += (c == "\x01") - (c == "\x02")
        if not h:
            d += (c in "([") - (c in ")]")
        if c == "," and not h and not d:
            out.append(cur.strip())
            cur = ""
        else:
            cur += c
    return out + [cur.strip()]


def strings(var):
    n = (var or {}).get("init") or {}
    while n.get("k") == "cast":
        n = n.get("x") or {}
    out = []
    for a in n.get("a", ()) if n.get("k") == "list" else ():
        while a and a.get("k") in ("cast", "ctor") and (a.get("x") or a.get("a")):
            a = a.get("x") or a["a"][0]
        out.append(a.get("v") if a and a.get("k") == "str" else None)
    return out


def types(rep, fx, acc):
    a = {n: int(v) for n, v in (fx.enums.get(AT) or {}).get("consts", ())}
    s = {n: int(v) for n, v in (fx.enums.get(ST) or {}).get("consts", ())}
    if not a or not s:
        acc("numbering", None, "an enumeration of element types is gone")
        return
    for n in s:
        acc("number of " + n, None if n not in a else a[n] == s[n], "generated code writes %d, the reader takes %s for %s" % (s[n], a.get(n), n))
    for n, v in a.items():
        if n in s:
            acc("number of " + n, s[n] == v, "generated code writes %d, the reader takes %s for %s" % (s[n], v, n))
    for what, var, want in (("name", "arg_capture::primitive_type_names", lambda n: n), ("spelling", "arg_capture::primitive_type_cppspellings", CPP.get)):
        t = strings(fx.vars.get(var))
        for n, v in a.items():
            if n not in s or not t or want(n) is None:
                continue
            got = t[v] if v < len(t) else None
            acc("%s of %s" % (what, n), False if v >= len(t) else None if got is None else ctype(got) == ctype(want(n)) if what == "spelling" else got == want(n), "it is '%s'" % got)


ALIAS = {"signed char": "int8_t", "short": "int16_t", "int": "int32_t", "long": "int64_t", "long long": "int64_t", "unsigned char": "uint8_t",
         "unsigned short": "uint16_t", "unsigned int": "uint32_t", "unsigned": "uint32_t", "unsigned long": "uint64_t", "unsigned long long": "uint64_t",
         "__int128_t": "__int128", "signed __int128": "__int128", "__uint128_t": "unsigned __int128", "_Bool": "bool"}


def ctype(t):
    t = " ".join(t.replace("std::", "").split())
    return ALIAS.get(t, t)


def witness(rep, fx, acc):
    """The C++ type behind each element type, decided by the compiler."""
    h = "arg-capture-io/include/daisy_rtl/primitive_types.h"
    names = [n for n, _ in (fx.enums.get(AT) or {}).get("consts", ()) if n in CPP and n != "Void"]
    src = '#include "%s"\n#include <type_traits>\nusing namespace arg_capture;\n' % os.path.join(cxx.REPO, h)
    src += "template <PrimitiveType T, class W, class = void> struct Is : std::true_type {};\n"
    src += "template <PrimitiveType T, class W> struct Is<T, W, std::void_t<typename PrimitiveCppType<T>::type>> : std::is_same<typename PrimitiveCppType<T>::type, W> {};\n"
    src += "".join('static_assert(Is<PrimitiveType::%s, %s>::value, "witness %s");\n' % (n, CPP[n], n) for n in names)
    d = tempfile.mkdtemp()
    try:
        f = os.path.join(d, "w.cpp")
        with open(f, "w") as o:
            o.write(src)
        r = subprocess.run(["clang++-18", "-std=c++20", "-fsyntax-only", "-ferror-limit=0", f], capture_output=True, text=True)
    finally:
        shutil.rmtree(d)
    bad = set(re.findall(r"error: static assertion failed.*?witness (\w+)", r.stderr))
    if r.returncode and not bad:
        acc("C++ types", None, "the header does not compile on its own: " + r.stderr.strip().split("\n")[0][:100])
        return
    for n in names:
        acc("C++ type of " + n, n not in bad, "PrimitiveCppType names another type than %s" % CPP[n])


CACC = {"arg_idx", "second", "first", "at", "nodes", "external_prefix", "expression", "size", "inner_type", "element_id", "subs", "symbol", "cat", "is_scalar",
        "is_external", "name", "metadata", "sdfg", "language_extension", "capture_input", "capture_output"}


def captures(rep, fx, rule, acc, which):
    f, out = runs(rep, fx, AP + which, rule)
    head = which == "begin_instrumentation"
    direction, after = ("capture_input", "false") if head else ("capture_output", "true")
    flags = set()
    B = "at(at(nodes(this),P0),it%d)"
    for st, _ in out:
        ss = statements(text(st))
        got, depth, guard, ends = {}, 0, None, 0
        for s in ss:
            if s in "{}":
                depth += 1 if s == "{" else -1
                if not depth:
                    guard = None
                continue
            m = re.fullmatch(r"(?:const )?bool ([^ =]+) = __daisy_capture_enter\(__capture_ctx, (.*)\)", s)
            if m:
                acc("the region is asked for under its own id", head and m.group(2) == H("element_id(P0)"), "asks for %s" % say(m.group(2)))
                flags.add(m.group(1))
                continue
            m = re.fullmatch(r"if ?\(([^ ]+)\)", s)
            if m:
                guard = m.group(1)
                flags.add(guard)
                continue
            if s == "__daisy_capture_end(__capture_ctx)":
                ends += 1
                acc("the invocation is ended after the captures", not head, "ended before the region")
                continue
            m = re.fullmatch(r"__daisy_capture_raw\((.*)\)", s, re.S)
            if not m:
                acc("statements", None, "unrecognised statement '%s'" % say(s)[:80])
                continue
            acc("captures are made only when the region was entered", depth > 0 and guard is not None, "an unconditional capture")
            acc("the invocation is ended after the captures", not ends, "a capture after the end")
            a = split_args(m.group(1))
            e = re.findall(r"second\((at\(at\(nodes\(this\),P0\),it(\d+)\))\)", m.group(1))
            if len(a) != 7:
                acc("a capture has the seven arguments of the runtime", False if known(m.group(1), CACC) else None, "%d arguments" % len(a))
                continue
            ks = {int(y) for _, y in e}
            if len(ks) != 1:
                acc("captures describe one argument", False if len(ks) > 1 else None, "mixes arguments" if ks else "argument not recognised")
                continue
            k = ks.pop()
            got[k] = got.get(k, 0) + 1
            b = B % k
            v = "(second(%s))" % b
            ext, sca = fact(st, "is_external" + v), fact(st, "is_scalar" + v)

            def arg(i, name, ok, a=a):
                acc(name, ok if ok or known(a[i], CACC) else None, "%s is passed" % say(a[i]))
            acc("the context is passed first", a[0] == "__capture_ctx", say(a[0]))
            arg(1, "the argument's own index", a[1] == H("arg_idx" + v))
            amp = a[2].startswith("&")
            acc("scalars and externals are captured by address", amp if ext or sca else not amp if ext is False and sca is False else False,
                "%s for %s" % (say(a[2])[:40], "a scalar" if sca else "an external" if ext else "a pointer" if ext is False and sca is False else "every kind of argument"))
            want = (H("external_prefix()") if ext else "") + H("first(%s)" % b)
            arg(2, "the variable itself", a[2].lstrip("&") == want)
            sz = a[3].strip("\x01\x02")
            plain = sz == "expression(size%s)" % v
            sub = re.fullmatch(r"expression\(subs\(size%s,symbol\(first\(%s\)\),symbol\(cat\(external_prefix\(\),first\(%s\)\)\)\)\)" % (re.escape(v), re.escape(b), re.escape(b)), sz)
            arg(3, "the size in bytes planned for it", bool(sub) if ext else plain)
            arg(4, "its element type", a[4] == H("inner_type" + v))
            acc("inputs before and outputs after the region", a[5] == after, "marked %s" % say(a[5]))
            arg(6, "the id of the region", a[6] == H("element_id(P0)"))
        em = [v for k, v in st.facts.items() if isinstance(k, tuple) and k[0] == "empty" and "nodes(this)" in sig(k[1])]
        n = 0 if em and em[0] else 1 + len([1 for k, v in st.facts.items() if isinstance(k, tuple) and k[0] == "more" and v]) if em else None
        for k in range(n or 0):
            w = fact(st, direction + "(second(%s))" % (B % k))
            c = got.get(k, 0)
            acc("each planned %s is captured once" % ("input" if head else "output"), c == (1 if w else 0) if w is not None else None if not c else False,
                "captured %d times where the plan says %s" % (c, w))
        if n is None:
            acc("each planned %s is captured once" % ("input" if head else "output"), None, "the plan is not looked at")
        if not head:
            acc("the invocation is ended after the captures", ends == 1, "ended %d times" % ends)
    return flags


def planned(rep, fx, rule, acc):
    f, out = runs(rep, fx, AP + "add_capture_plan", rule)
    want = {"capture_input": "is_input(P4)", "capture_output": "is_output(P4)", "arg_idx": "P5", "is_external": "P6", "is_scalar": "is_scalar(P4)"}
    if not f or len(f["ps"]) < 7:
        return
    for st, v in out:
        got = [c for c in (entry(x[2]) for x in st.events() if x[0] == "entered") if c]
        if isinstance(v, tuple) and A.is_int(v) and v[1] == 1:
            acc("an argument that can be captured is planned once", len(got) == 1 if got else False if not any(x[0] == "entered" for x in st.events()) else None, "%d entries are made" % len(got))
        elif isinstance(v, tuple) and A.is_int(v):
            acc("an argument that cannot be captured is not planned", not got, "an entry is made although failure is reported")
        for key, c in got:
            acc("plan: under its own name", sig(key) == "P3" or (None if "?" in sig(key) else False), "planned under %s" % sig(key))
            for n, x in c:
                t = sig(x)
                if n in want:
                    acc("plan: " + n, t == want[n] or (None if "?" in t else False), "it is %s" % t)
                elif n == "size":
                    acc("plan: size", bool(re.match(r"at\(argument_sizes\(.*,P3\)$", t)) or None, "it is %s" % t[:80])


def entry(t):
    """(key, fields of the record) of an entry of the plan."""
    if isinstance(t, tuple):
        if len(t) == 3 and t[0] == "list" and len(t[1]) == 2 and isinstance(t[1][1], tuple) and t[1][1][:1] == ("rec",) and "CaptureVarPlan" in str(t[1][1][1]):
            return t[1][0], t[1][1][2]
        if len(t) == 2 and isinstance(t[1], tuple) and t[1][:1] == ("rec",) and "CaptureVarPlan" in str(t[1][1]):
            return t[0], t[1][2]
        for x in t:
            r = entry(x)
            if r:
                return r
    return None


def context(rep, rule, acc):
    for g in ("c_code_generator.cpp", "cpp_code_generator.cpp"):
        fx = load(rep, [GEN + g])
        for f in [f for f in fx.fns.values() if last(f["q"]) == "emit_capture_context_init" and f.get("body")]:
            who = f["q"].split("::")[-2]
            _, out = runs(rep, fx, f["q"], rule)
            for st, _v in out:
                t = text(st)
                m = re.findall(r'__daisy_capture_init\(([^()]*(?:\x01[^\x02]*\x02[^()]*)*)\)', t)
                a = split_args(m[0]) if len(m) == 1 else []
                acc(who + ": the context is created once", len(m) == 1 if m or known(t, CACC) else None, "created %d times" % len(m))
                if len(a) == 2:
                    for i, (x, w) in enumerate(zip(a, ("name(sdfg(this))", "at(metadata(sdfg(this)),arg_capture_path)"))):
                        acc("%s: %s" % (who, ("program name", "capture directory")[i]), x == '"%s"' % H(w) or (False if known(x, CACC) else None), "it is %s" % say(x))


def a07(rep):
    r1 = "element types mean the same to generated code and to the reader of captures"
    r2 = "generated code captures each planned argument once, with its own data"
    r3 = "the capture context is created with the program's name and directory"
    rep.rule(r1, "comparison of the two enumerations and of every table indexed by them; the C++ types by static assertions the compiler decides")
    rep.rule(r2, "abstract interpretation of the generator's stream output on every path; the arguments of each call against the runtime's signature")
    rep.rule(r3, "abstract interpretation of the code generators' stream output")
    fx = load(rep, [D + "arg_capture_plan.cpp", "arg-capture-io/src/arg_capture_io.cpp", CAP])
    acc = Acc(rep, r1)
    types(rep, fx, acc)
    witness(rep, fx, acc)
    acc.done()
    acc = Acc(rep, r2)
    fl = captures(rep, fx, r2, acc, "begin_instrumentation") | captures(rep, fx, r2, acc, "end_instrumentation")
    acc("one flag per region guards its captures", len(fl) == 1 and "element_id(P0)" in list(fl)[0], "flags %s" % ", ".join(sorted(say(x) for x in fl)))
    planned(rep, fx, r2, acc)
    acc.done()
    acc = Acc(rep, r3)
    context(rep, r3, acc)
    acc.done()


CHECKS = {"A07": a07, "B07": b07}
