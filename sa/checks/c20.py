"""C20: every diagnostic code is distinct and errors are labelled as errors."""
from ..exec_model import *
from ..paths import explore, contains
from ..mir import cname
from .. import maps

RC = "program_library::error_code::ReportCode"
# kinds that describe the same problem on another operand share its identifier
SAME = [{"InvalidArgumentInCall", "InvalidArgumentInCallBus"}, {"InvalidArraySize", "InvalidArraySizeT", "InvalidArraySizeB"},
        {"InvalidArrayType", "InvalidArrayTypeB", "InvalidArrayTypeBandSignal", "InvalidArrayTypeDifferentBuses"},
        {"MustBeSingleArithmetic", "MustBeSingleArithmeticT", "MustBeSingleArithmeticB"},
        {"WrongTypesInAssignOperationBus", "WrongTypesInAssignOperationDifferentBus"}]
# the diagnostics a program may have and still be compiled; everything else is an error
WARN = {"NoCompilerVersionWarning", "CustomGateIntermediateSignalWarning", "RuntimeWarning", "UnderscoreWithNoSignalWarning",
        "UnconstrainedSignal", "UnconstrainedIOSignal", "UnusedInput", "UnusedOutput"}


def run(F, r):
    r.do(F, identifiers, severity, rendering, printing)


def variants(F):
    i = next((x for x in F.adts if x.endswith(RC)), None)
    if i is None: raise Anchor("ReportCode")
    return i, F.adts[i]["variants"]


def text_of(F, f, v):
    """the strings Display writes for this variant"""
    adt, vs = variants(F)
    payload = next(x for x in vs if x[0] == v)[2]
    x = ADT(adt, v, tuple((p[0], PARAM("n" + p[0])) for p in payload))

    def write(E, st, name, args, fn, line):
        E.event(st, "text", (E.deref(st, args[-1]),), line, fn); return [(st, OK(UNIT))]
    out = []
    ps, E = explore(F, f, [x, PARAM("f")], intr={r"Formatter::<.*>::write_str$|Formatter::write_str$|::write_str$|Formatter::<.*>::pad$|Formatter::pad$": write, r"::write_fmt$": write})
    for p in ps: out.append("".join(e[1][0].a[0] if e[1][0].op == "str" else str(e[1][0]) for e in p.events("^text$")))
    return out, len(ps)


# ------------------------------------------------------------------------------------------------- the table
def identifiers(F, r):
    r.rule("identifiers", "every kind of diagnostic has its identifier, and kinds that are different problems have different ones")
    f = next((x for x in F.fns.values() if re.search(r"ReportCode as .*Display>::fmt$", x.id)), None)
    if f is None: raise Anchor("Display for ReportCode")
    r.fn(f); ids = {}
    for v in variants(F)[1]:
        t, n = text_of(F, f, v[0]); r.paths(n)
        if len(set(t)) != 1 or not t[0]:
            r.check("identifiers", v[0], False, r.where(f), "%s has %s identifier" % (v[0], "no" if not t or not t[0] else "more than one")); continue
        ids[v[0]] = t[0]
    if len(ids) < 100 and len(ids) != len(variants(F)[1]): raise Anchor("identifiers of the diagnostics")
    same = {}
    for n, i in ids.items(): same.setdefault(i.strip().upper(), []).append(n)
    for n, i in sorted(ids.items()):
        mates = [m for m in same[i.strip().upper()] if m != n and not any(m in s and n in s for s in SAME)]
        r.check("identifiers", "%s is alone" % n, not mates, r.where(f), "%s and %s are different problems shown under the same identifier %s" % (n, ", ".join(mates), i))
    r.floor("identifiers", len(ids), 100, "kinds of diagnostics")
    for c in [x for x in F.fns.values() if x.id.endswith("Report::error_code_to_diagnostic_code")]:
        ps, E = explore(F, c, [PARAM("code")], intr={r"to_string$|::fmt$|format$": pure(lambda *a: mk("shown", *a))})
        r.check("identifiers", "shown as displayed", bool(ps) and all(contains(p.v, PARAM("code")) for p in ps), r.where(c), "the code shown does not come from the kind of the diagnostic")


# ------------------------------------------------------------------------------------------------- where they are raised
class Codes:
    def __init__(self, F):
        self.F = F; self.memo = {}
        self.callers = {}
        for g in F.fns.values():
            for bb, c, a, d, l in g.calls():
                if c: self.callers.setdefault(cname(c), []).append((g, a))
        self.taken = set()
        for g in F.fns.values():
            for b in g.bbs:
                for s in b["s"]: self._taken(s)
                if b["t"][0] == "call":
                    for a in b["t"][2]: self._taken(a)

    def _taken(self, s):
        if isinstance(s, dict):
            if s.get("k") == "fn": self.taken.add(cname(s))
        elif isinstance(s, (list, tuple)):
            for x in s: self._taken(x)

    def operand(self, g, o, seen):
        if o[0] == "c":
            c = o[1]; n = c.get("named") or ""
            if n in self.F.fns: return self.local(self.F.fns[n], 0, seen)
            return {("?", n)}
        pl = [x for x in o[1][1:] if x != "*"]
        if pl: return {("?", "%s %s" % (g.id, o[1]))}
        return self.local(g, o[1][0], seen)

    def local(self, g, l, seen):
        k = (g.id, l)
        if k in seen: return set()
        seen = seen | {k}; out = set()
        if 1 <= l <= g.nargs:
            cs = self.callers.get(g.id, [])
            if g.id in self.taken or g.kind == "closure" or not cs: out.add(("?", g.id))
            for h, a in cs:
                if len(a) >= l: out |= self.operand(h, a[l - 1], seen)
        for bb, j, kind, x in g.defs().get(l, []):
            if kind == "call":
                n = cname(x[1][1]) if x[1][0] == "c" else ""
                if n.endswith("::clone"): out |= self.operand(g, x[2][0], seen)
                elif n in self.F.fns: out |= self.local(self.F.fns[n], 0, seen)
                else: out.add(("?", n))
            elif x[0] == "agg" and x[1] == "adt" and x[2].endswith(RC): out.add(x[3])
            elif x[0] == "use": out |= self.operand(g, x[1], seen)
            elif x[0] == "ref": out |= self.operand(g, ["cp", x[2]], seen)
            else: out.add(("?", "%s %s" % (g.id, x[0])))
        return out


def severity(F, r):
    r.rule("severity", "warnings are raised only for the kinds a program may have and still be compiled; all other kinds are raised as errors")
    C = Codes(F); n = 0; unknown = set()
    for kind in ("error", "warning"):
        f = [x for x in F.fns.values() if re.search(r"error_definition::Report::%s$" % kind, x.id)]
        if len(f) != 1: raise Anchor("Report::" + kind)
        for g, a in C.callers.get(f[0].id, []):
            codes = C.operand(g, a[1], frozenset()); r.fn(g)
            for c in sorted(codes, key=str):
                if isinstance(c, tuple): unknown.add("%s: %s" % (g.id, c[1])); continue
                n += 1
                ok = (c in WARN) == (kind == "warning")
                r.check("severity", "%s as %s in %s" % (c, kind, g.id.rsplit("::", 1)[-1]), ok, r.where(g), "%s is raised as %s" % (c, "an error" if kind == "error" else "a warning"))
    for u in sorted(unknown): r.notes.append("code not resolved: " + u[:120])
    r.floor("severity", n, 90, "raised codes")
    new = [x for x in F.fns.values() if re.search(r"error_definition::Report::new$", x.id)]
    for g, a in (C.callers.get(new[0].id, []) if len(new) == 1 else []):
        r.check("severity", "constructor in %s" % g.id.rsplit("::", 1)[-1], bool(re.search(r"Report::(error|warning)$", g.id)), r.where(g), "a report is built with a category of its own")


# ------------------------------------------------------------------------------------------------- how they are shown
def rendering(F, r):
    r.rule("rendering", "a report raised as an error (a warning) is one, and is shown as one, with its own message, code, labels and notes")
    D = r"codespan_reporting::diagnostic::\w+(::<.*>)?::"

    def made(kind): return lambda E, st, name, args, fn, line: [(st, mk("diagnostic", STR(kind)))]

    def with_(what): return lambda E, st, name, args, fn, line: [(st, mk("with", E.deref(st, args[0]), STR(what), E.deref(st, args[1])))]
    I = {**maps.intrinsics(), **{D + k + "$": made(k) for k in ("error", "warning", "bug", "note", "help")}, **{D + "with_" + k + "$": with_(k) for k in ("message", "code", "labels", "notes")},
         r"Report::error_code_to_diagnostic_code$|ReportCode as .*to_string$|to_string$": pure(lambda x: mk("shown", x)),
         D + "new$": lambda E, st, name, args, fn, line: [(st, mk("diagnostic", E.deref(st, args[0])))]}
    f = F.find("error_definition::Report::to_diagnostic"); r.fn(f)
    for kind in ("error", "warning"):
        g = F.find("error_definition::Report::" + kind); r.fn(g)
        ps, E = explore(F, g, [PARAM("message"), PARAM("code")], intr=maps.intrinsics()); r.paths(len(ps))
        if len(ps) != 1 or ps[0].v.op != "adt": raise Anchor("Report::" + kind)
        rep = ps[0].v; fl = dict(rep.a[2])
        r.check("rendering", "Report::%s keeps message and code" % kind, sum(x is PARAM("message") for x in fl.values()) == 1 and sum(x is PARAM("code") for x in fl.values()) == 1, r.where(g), "Report::%s loses its message or its code" % kind)
        for q in ("is_error", "is_warning"):
            h = F.find("error_definition::Report::" + q); ps, E = explore(F, h, [rep], intr=maps.intrinsics()); r.paths(len(ps))
            r.check("rendering", "%s of %s" % (q, kind), bool(ps) and all(p.v is (TRUE if q == "is_" + kind else FALSE) for p in ps), r.where(h), "%s of a report raised with Report::%s answers %s" % (q, kind, ps and ps[0].v))
        # give it labels and notes through the setters, then render
        st = St(); loc = ("H", "report"); st.mem[loc] = rep; me = mk("ref", loc, ())
        L = {D + r"(primary|secondary)$": lambda E, st, name, args, fn, line: [(st, mk("label", STR(name.rsplit("::", 1)[-1]), *[E.deref(st, a) for a in args]))],
             D + r"with_message$": lambda E, st, name, args, fn, line: [(st, mk("with", E.deref(st, args[0]), STR("message"), E.deref(st, args[1])))]}
        for m, args in (("add_primary", [PARAM("at1"), PARAM("file1"), PARAM("text1")]), ("add_secondary", [PARAM("at2"), PARAM("file2"), SOME(PARAM("text2"))]), ("add_secondary", [PARAM("at3"), PARAM("file3"), NONE]), ("add_note", [PARAM("note1")])):
            h = F.find("error_definition::Report::" + m)
            ps, E = explore(F, h, [me] + args, intr={**maps.intrinsics(), **L}, st=st); r.paths(len(ps))
            if len(ps) != 1: raise Anchor(m)
            st = ps[0].st.fork(); st.cond = ()
            v = st.mem[loc]
            r.check("rendering", "%s on %s" % (m, kind), all(contains(v, a.a[2][0][1] if a.op == "adt" and a.a[2] else a) for a in args if a is not NONE), r.where(h), "%s loses what it is given" % m)
        full = st.mem[loc]
        ps, E = explore(F, f, [rep], intr=I); r.paths(len(ps)); bad = None          # nothing but a message and a code
        for p in ps:
            t = p.v
            while t.op == "with": t = t.a[0]
            sev = str(dict(t.a[2]).get("severity") if t.op == "adt" else t.a[0]).lower()
            if kind not in sev or ("warning" if kind == "error" else "error") in sev: bad = "is shown as %s" % sev
        r.check("rendering", "bare report raised as %s" % kind, bad is None and bool(ps), r.where(f), "a report without labels raised with Report::%s %s" % (kind, bad))
        ps, E = explore(F, f, [full], intr=I); r.paths(len(ps)); bad = None
        for p in ps:
            got = {}; t = p.v
            while t.op == "with": got.setdefault(t.a[1].a[0], t.a[2]); t = t.a[0]
            if t.op == "adt" and t.a[1] is not None:
                for k, x in t.a[2]: got.setdefault(k, x)
                sev = str(dict(t.a[2]).get("severity")).lower()
            elif t.op == "diagnostic": sev = str(t.a[0]).lower()
            else: raise Anchor("diagnostic of a report")
            if kind not in sev or ("warning" if kind == "error" else "error") in sev: bad = "is shown as %s" % sev
            if not contains(got.get("message", UNIT), PARAM("message")): bad = bad or "is shown without its message"
            if not contains(got.get("code", UNIT), PARAM("code")): bad = bad or "is shown without its code"
            for i in (1, 2, 3):
                if not contains(got.get("labels", UNIT), PARAM("at%d" % i)) or not contains(got.get("labels", UNIT), PARAM("file%d" % i)): bad = bad or "loses a label"
            if not contains(got.get("notes", UNIT), PARAM("note1")): bad = bad or "loses its notes"
        r.check("rendering", "report raised as %s" % kind, bad is None and bool(ps), r.where(f), "a report raised with Report::%s %s" % (kind, bad))


def printing(F, r):
    r.rule("printing", "print_reports shows every report it is given, in order")
    f = F.find("error_definition::Report::print_reports"); r.fn(f)

    def emit(E, st, name, args, fn, line):
        E.event(st, "emit", tuple(E.deref(st, a) for a in args), line, fn); return [(st, OK(UNIT))]
    reps = [PARAM("r0"), PARAM("r1"), PARAM("r2")]
    ps, E = explore(F, f, [mk("array", *reps), PARAM("lib")], intr={**maps.intrinsics(), r"term::(emit\w*|\w+::emit\w*)$": emit, r"Report::to_diagnostic$": pure(lambda x: mk("diagnostic", x)), r"StandardStream::\w+$|termcolor::\w+::\w+$|FileLibrary::\w+$|Config as .*default$|::default$": pure(lambda *a: mk("io", *a))}, loop_visits=8)
    r.paths(len(ps)); ok = bool(ps)
    for p in ps:
        got = [x for e in p.events("^emit$") for x in reps if any(contains(a, x) for a in e[1])]
        ok = ok and got == reps
    r.check("printing", "every report", ok, r.where(f), "reports are not all printed, once and in order (path %s)" % (ps and ps[0].show()))
