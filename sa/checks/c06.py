"""C06: errors end the compilation: diagnostics are linear values up to the exit code."""
from ..exec_model import *
from .. import errflow, maps
from ..ev import Budget
from ..diag import Diag

OKAY = "Everything went okay"


def run(F, r):
    r.do(F, linear, used, pipeline, treatment, stages)


def short_(i): return i.replace("::<impl at ", "::").split("::", 1)[-1] if "::" in i else i


# ---------------------------------------------------------------------------------------------------- diagnostics as linear values
def linear(F, r):
    r.rule("linear", "an error diagnostic, once created, reaches the caller as an error (or is kept in the caller's collection together with a failing result), "
                     "or is printed before failing: no path returns normally after dropping, clearing or merely printing an error, nor hands one on as a warning")
    D = Diag(F)
    fns = [F.fns[i] for i in sorted(D.ids)]
    D.solve([D.default(f) for f in fns if f.kind == "fn"])
    n = 0
    runtime = re.compile(r"RuntimeInformation")
    for f in fns:
        if f.kind != "fn" or f.crate == "parser" and "__parse__" in f.id: continue
        rt = f.locals[0][0]
        top = f.id.endswith("::main")
        if not rt.startswith("core::result::Result<") and not top: continue
        if f.id in D.over:
            r.notes.append("%s: too many states, not decided" % f.id); continue
        r.fn(f); n += 1
        if not top:
            gone = set()
            for (fid, args) in [k for k in D.memo if k[0] == f.id]:
                for ret, exits, flags in D.memo[(fid, args)]:
                    if ret[0] == "Err": gone |= {x for x in flags if x[0] != "printed"}
            r.check("linear", "%s: reported" % f.id, not gone, r.where(f), "%s can fail after an error diagnostic was thrown away instead of being returned or printed: %s" %
                    (short_(f.id), ", ".join(sorted("%s %sin %s" % (a, c and "(" + c + ") ", short_(b)) for a, b, c in gone))))
        keep = [i for i in range(1, f.nargs + 1) if runtime.search(f.locals[i][0])]
        lost, asok, left = set(), False, False
        for (fid, args) in [k for k in D.memo if k[0] == f.id]:
            for ret, exits, flags in D.memo[(fid, args)]:
                if ret[0] == "Err": continue
                lost |= set(flags)
                if ret[1] == 2: asok = True
                if any(exits[i - 1] == 2 and args[i - 1][1] != 2 for i in keep): left = True
        if not top:
            r.check("linear", "%s: lost" % f.id, not lost, r.where(f), "%s can return normally although an error diagnostic was lost: %s" %
                    (short_(f.id), ", ".join(sorted("%s %sin %s" % (a, c and "(" + c + ") ", short_(b)) for a, b, c in lost))))
            r.check("linear", "%s: kept" % f.id, not asok and not left, r.where(f),
                    "%s can return normally although an error diagnostic was produced (it is handed on %s)" % (short_(f.id), "with the successful result" if asok else "in the collection of reports"))
    r.paths(sum(len(v) for v in D.memo.values()))
    r.floor("linear", n, 60, "functions handling diagnostics")
    r.notes.append("linear: %d functions and closures hold diagnostics; %d summaries" % (len(D.ids), len(D.memo)))


def used(F, r):
    r.rule("used", "the result of an internal step that can fail (memory, environment, arithmetic, execution error) is looked at: propagated, reported or matched, never ignored")
    n = 0
    RX = re.compile(r"^core::result::Result<.*, \(?((constraint_generation|program_structure|circom_algebra|parser|type_analysis|dag|compiler)::[\w:]+)")
    for f in sorted(F.fns.values(), key=lambda f: f.id):
        if f.derived or f.kind not in ("fn", "closure") or f.crate not in ("constraint_generation", "program_structure", "circom_algebra", "parser", "type_analysis", "circom", "dag", "compiler"): continue
        k = {}
        for bb, c, args, dest, line in f.calls():
            if c is None or len(dest) != 1 or not RX.match(f.locals[dest[0]][0]): continue
            nm = c.get("r") or c["p"]
            if "error_definition::Report" in f.locals[dest[0]][0].rsplit(", ", 1)[-1]: continue          # judged by the linear rule
            if errflow.PASS.search(nm) or errflow.PASS.search(c["p"]): continue
            ok = errflow.consumed(f, dest[0])
            k.setdefault(nm, []).append((ok, line))
        for nm, xs in k.items():
            n += len(xs); r.fn(f)
            b = next((l for ok, l in xs if not ok), None)
            if nm == f.id and "MemorySlice" in nm: b = None       # a weak mismatch (already a warning) copies element by element what fits
            r.check("used", "%s: %s" % (f.id, nm.rsplit("::", 1)[-1]), b is None, r.where(f, b), "the failure of %s is ignored" % nm.rsplit("::", 1)[-1])
    r.floor("used", n, 100, "fallible internal calls")


# ---------------------------------------------------------------------------------------------------- from main to the exit code
PHASES = (("run_parser", 1), ("check_types", 2), ("build_circuit", 3), ("::r1cs$|::sym$|::json_constraints$", 4), ("run_compiler", 5), ("write_c$|write_wasm$", 6), ("wat_to_wasm$", 7))


def phase(n):
    for rx, k in PHASES:
        if re.search(rx, n): return k
    return None


def texts(t): return "".join(x.a[0] for x in subterms(t) if x.op == "str")


def pipeline(F, r):
    r.rule("exit", "main: when any phase fails, no later phase runs, its diagnostics are printed, success is not announced and the process exits with a non-zero status; "
                   "when all succeed, success is announced")
    mains = [f for f in F.fns.values() if f.crate == "circom" and f.kind == "fn" and not f.derived]
    own = {f.id for f in mains}
    names = {}
    for f in mains:
        for bb, c, args, dest, line in f.calls():
            if c is None or len(dest) != 1 or not f.locals[dest[0]][0].startswith("core::result::Result<"): continue
            n = c.get("r") or c["p"]
            if n not in own and phase(n): names[n] = [line]
    m = next((f for f in mains if f.id == "circom::main"), None)
    if m is None: raise Anchor("circom::main")
    r.fn(m)
    getters = re.compile(r"circom::input_user::Input::\w+$")
    keep = [re.escape(i) + "$" for i in own if not getters.match(i) and "input_processing" not in i and "wat_to_wasm" not in i]
    # Input::new is a phase of its own (options): an oracle
    ended = []

    def new(E, st, name, args, fn, line):
        s2 = st.fork()
        g = s2.mem.get(("G", "failed"), mk("array")); s2.mem[("G", "failed")] = mk("array", *(g.a + (mk("failure", STR(name), INT(line)),)))
        E.event(s2, "failed:" + name, (), line, fn); E.event(st, name, (), line, fn)
        return [(st, OK(PARAM("input"))), (s2, ERR(UNIT))]

    def wat(E, st, name, args, fn, line):
        s2 = st.fork()
        g = s2.mem.get(("G", "failed"), mk("array")); s2.mem[("G", "failed")] = mk("array", *(g.a + (mk("failure", STR(name), INT(line)),)))
        E.event(s2, "failed:" + name, (), line, fn); E.event(st, name, (), line, fn)
        return [(st, OK(UNIT)), (s2, ERR(mk("error", name)))]

    def said(E, st, name, args, fn, line):
        E.event(st, "reports", tuple(E.deref(st, a) for a in args), line, fn); return [(st, UNIT)]

    def leave(E, st, name, args, fn, line):
        E.event(st, "exit", tuple(E.deref(st, a) for a in args), line, fn)
        ended.append(P(E, st, UNIT)); return []

    def two(E, st, name, args, fn, line):
        vals = tuple(E.deref(st, a) for a in args)
        s2 = st.fork()
        g = s2.mem.get(("G", "failed"), mk("array")); s2.mem[("G", "failed")] = mk("array", *(g.a + (mk("failure", STR(name), INT(line)),)))
        E.event(s2, "failed:" + name, vals, line, fn); E.event(st, name, vals, line, fn)
        pay = mk("res", name)
        if re.search(r"run_parser$|build_circuit$", name): pay = mk("tup", mk("res", name), mk("res2", name))
        err = mk("error", name)
        if name.endswith("run_parser"): err = mk("tup", mk("library", name), mk("error", name))
        return [(st, OK(pay)), (s2, ERR(err))]
    extra = {r"Input::new$": new, r"wat_to_wasm$": wat, r"print_reports$": said, r"process::exit$": leave, **{("^" + re.escape(n) + "$"): two for n in names}}
    ps, names, E = errflow.lost(F, m, extra=extra, keep=keep, names={}, max_paths=20000)
    ps += ended
    r.paths(len(ps))
    n = ok = 0
    seen = set(); bad = {}
    for p in ps:
        g = p.st.mem.get(("G", "failed"))
        ev = p.evs
        first = next((i for i, e in enumerate(ev) if e[0].startswith("failed:")), None)
        okay = any(e[0] == "print" and OKAY in texts(e[1][0]) for e in ev)
        exits = [e[1][0] for e in ev if e[0] == "exit"]
        if first is not None:
            what = ev[first][0][7:]; seen.add(what); n += 1
            after = ev[first + 1:]
            k = phase(what)
            late = [e[0] for e in after if phase(e[0]) or e[0].startswith("failed:") and phase(e[0][7:])]
            if not exits or exits[0] is INT(0): bad.setdefault(("status", what), "the process ends with status %s although %s failed" % (show(exits[0]) if exits else "0", what.rsplit("::", 1)[-1]))
            if okay: bad.setdefault(("success", what), "'%s' is printed although %s failed" % (OKAY, what.rsplit("::", 1)[-1]))
            if late: bad.setdefault(("later", what), "%s runs although %s failed" % (late[0].replace("failed:", "").rsplit("::", 1)[-1], what.rsplit("::", 1)[-1]))
            if re.search(r"run_parser$|check_types$|wat_to_wasm$", what):
                es = [e for e in after if e[0] == "reports"]
                if not any(contains(e[1][0], mk("error", what)) for e in es):
                    bad.setdefault(("printed", what), "the errors of %s are not printed" % what.rsplit("::", 1)[-1])
        else:
            ok += 1
            if exits and exits[0] is not INT(0): bad.setdefault(("success", "all"), "the process fails although every phase succeeded")
            if not okay: bad.setdefault(("announced", "all"), "success is not announced although every phase succeeded")
            order = [phase(e[0]) for e in ev if phase(e[0])]
            if order != sorted(order) or [x for x in order if x <= 3] != [1, 2, 3]:
                bad.setdefault(("order", "all"), "the phases do not run in order (parsing, analysis, constraint generation): %s" % [e[0].rsplit("::", 1)[-1] for e in ev if phase(e[0])])
            for w in ("run_parser", "check_types"):
                src = next((e[0] for e in ev if e[0].endswith(w)), None)
                t = mk("res2" if w == "run_parser" else "res", src)
                if src and not any(contains(e[1][0], t) for e in ev if e[0] == "reports"):
                    bad.setdefault(("printed", "warnings of " + w), "the warnings of %s are not printed" % w)
    for w in sorted(seen):
        for k in ("status", "success", "later") + (("printed",) if re.search(r"run_parser$|check_types$|wat_to_wasm$", w) else ()):
            r.check("exit", "%s: %s" % (w, k), (k, w) not in bad, r.where(m), bad.get((k, w)))
    for k in [x for x in bad if x[1] not in seen]: r.check("exit", "%s: %s" % k, False, r.where(m), bad[k])
    r.check("exit", "all phases succeed", ok > 0, r.where(m), "no path of main reaches success")
    r.floor("exit", len(seen), 8, "phases that can fail")


# ---------------------------------------------------------------------------------------------------- execution errors become reports
WEAK = {"MismatchedDimensionsWeak"}


def treatment(F, r):
    r.rule("treat", "every kind of execution error handed to the error-reporting functions becomes an error diagnostic in the run-time reports and a failing result; only the documented "
                    "warnings (a quadratic constraint for <--, a variable array of another length) let the execution go on")
    n = 0
    for f in sorted(F.fns.values(), key=lambda f: f.id):
        if f.crate != "constraint_generation" or f.kind != "fn" or f.derived: continue
        et = None
        for i in range(1, f.nargs + 1):
            m = re.match(r"core::result::Result<(.*), (constraint_generation::[\w:]*|circom_algebra::[\w:]*|[\w:]*Error[\w:]*|[\w:]*Warning[\w:]*)(<.*>)?>$", f.locals[i][0])
            if m: et, ai = m.group(2), i
        ri = next((i for i in range(1, f.nargs + 1) if re.match(r"&mut alloc::vec::Vec<.*error_definition::Report>", f.locals[i][0])), None)
        if et is None or ri is None or et not in F.adts: continue
        r.fn(f)
        warn_only = et.endswith("ExecutionWarning")
        for v in F.adts[et]["variants"]:
            outs = set()
            def rep(kind):
                return lambda E, st, name, args, fn, line: [(st, mk("report", STR(kind)))]

            def fmt(E, st, name, args, fn, line): return [(st, PARAM("text"))]
            args = [PARAM(f.locals[i][1] or "a%d" % i) for i in range(1, f.nargs + 1)]
            fs = [x for x in v[2]]
            subs = [()]
            for x in fs:
                inner = F.adts.get(x[1])
                opts = [PARAM("field." + x[0])]
                if inner and len(inner["variants"]) > 1: opts = [ADT(x[1], w[0], tuple((y[0], PARAM("field." + y[0])) for y in w[2])) for w in inner["variants"]]
                subs = [s + ((x[0], o),) for s in subs for o in opts]
            for s in subs:
                args[ai - 1] = ERR(ADT(et, v[0], s))
                args[ri - 1] = mk("ref", ("H", "reports"), ())
                from ..ev import St
                st = St(); st.mem[("H", "reports")] = mk("array")
                try:
                    ps, E = explore(F, f, args, intr={r"Report::error$": rep("error"), r"Report::warning$": rep("warning"), r"fmt::format$": fmt, r"Report::add_\w+$": unit_,
                                                      **maps.intrinsics()}, st=st, loop_visits=2, max_paths=400)
                except (Budget, Anchor) as e:
                    r.notes.append("%s on %s: not decided (%s)" % (f.id, v[0], str(e)[:50])); continue
                r.paths(len(ps))
                inner_name = "".join("(%s)" % o.a[1] for _, o in s if o.op == "adt")
                key = "%s: %s%s" % (f.id.rsplit("::", 1)[-1], v[0], inner_name)
                okk = True; msg = None             # no path: the program ends in a panic
                for p in ps:
                    reps = p.st.mem.get(("H", "reports"))
                    kinds = [x.a[0].a[0] if x.op == "report" else "?" for x in reps.a] if reps is not None and reps.op == "array" else ["?"]
                    if "?" in kinds: continue
                    go = p.variant() == "Ok"
                    may = warn_only or v[0] in WEAK
                    if not may and (go or kinds != ["error"]): okk, msg = False, "%s is turned into %s and the execution %s" % (v[0], kinds or "nothing", "goes on" if go else "fails")
                    if may and go and not kinds: okk, msg = False, "%s is silently ignored" % v[0]
                    if may and not go and kinds != ["error"]: okk, msg = False, "%s makes the execution fail without an error diagnostic" % v[0]
                n += 1
                r.check("treat", key, okk, r.where(f), msg)
    r.floor("treat", n, 25, "kinds of execution errors")


def unit_(E, st, name, args, fn, line): return [(st, UNIT)]


# ---------------------------------------------------------------------------------------------------- stages of the static checks
def stage(n):
    if re.search(r"check_naming_correctness$", n): return 1          # every name is defined
    if "::decorators::" in n: return 3                               # types and constants are annotated
    if re.search(r"type_check::type_check$", n): return 4
    if re.search(r"unknown_known_analysis$|custom_gate_analysis$", n): return 5
    return 2                                                         # structural checks of each definition


def stages(F, r):
    r.rule("stages", "within the static checks: when a stage (names; structure; annotation; types; knownness) finds an error, no later stage runs and the error is returned; "
                     "with no error found, the checks succeed")
    from ..pipeline_types import explore_check
    f, ps, an, E = explore_check(F)
    r.fn(f); r.paths(len(ps))
    bad, seen, ok = {}, set(), 0
    for p in ps:
        fails = [(i, e) for i, e in enumerate(p.evs) if e[0].startswith("failed:")]
        own = contains(p.v, lambda x: x.op == "found" and x.a[0] is STR("check_types"))
        if not fails:
            ok += 1
            if p.variant() == "Err" and not own: bad["clean"] = "a program without errors is rejected"
            continue
        for i, e in fails:
            n = e[0][7:]; seen.add(n)
            later = [x[0] for x in p.evs[i + 1:] if stage(x[0].replace("failed:", "")) > stage(n) and x[0].replace("failed:", "") in an]
            if later: bad[n] = "%s runs although %s found an error" % (later[0].replace("failed:", "").rsplit("::", 1)[-1], n.rsplit("::", 1)[-1])
            if p.variant() != "Err": bad[n] = "the checks succeed although %s found an error" % n.rsplit("::", 1)[-1]
            elif not contains(p.v, mk("found", STR(n), *e[1])): bad[n] = "the error found by %s is not returned" % n.rsplit("::", 1)[-1]
    for n in sorted(seen | set(bad)): r.check("stages", n, n not in bad, r.where(f), bad.get(n))
    r.check("stages", "no error", ok > 0, r.where(f), "the checks never succeed")
    r.floor("stages", len(seen), 12, "analyses that can find errors")
