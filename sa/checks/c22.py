"""C22: include resolution, comment removal, versions, duplicates, main component."""
import itertools
from .. import transducer, bnf
from ..ev import *
from ..paths import *
from .c21 import G

PA = r"parser::"


def run(F, r):
    r.do(F, comments, includes, stack, find, version, pragmas, parse_file, driver, merger)


# ------------------------------------------------------------------ comments
def comments(F, r):
    r.rule("comments", "the comment remover is the reference transducer: comments become blanks of the same byte length, all other text is copied, "
                       "an open block comment at the end is an error (product automaton, inputs of every length)")
    f = F.find("parser_logic::preprocess"); r.fn(f)

    def u(c): return (32,) * len(chr(c).encode())

    def step(s, c):
        ch = chr(c)
        if s == "code": return ("slash", ()) if ch == "/" else ("code", (c,))
        if s == "slash":
            if ch == "/": return "line", (32, 32)
            if ch == "*": return "block", (32, 32)
            return "code", (47, c)
        if s == "line": return ("code", (c,)) if ch == "\n" else ("line", u(c))
        if s == "block": return ("star", (32,)) if ch == "*" else ("block", u(c))
        if ch == "/": return "code", (32,)
        return ("star", (32,)) if ch == "*" else ("block", u(c))
    fin = {"code": ((), True), "slash": ((47,), True), "line": ((), True), "block": ((), False), "star": ((), False)}
    try:
        bad, nconf, ntr, E = transducer.compare(F, f, "code", step, lambda s: fin[s], "/*\n", lambda got, ref: ref == 32 and got in (10, 13, 9))
        r.check("comments", "preprocess", bad is None, r.where(f), "comment removal: %s" % bad)
        r.notes.append("comment remover: %d configurations, %d transitions" % (nconf, ntr))
    except transducer.Undecided as e:
        r.notes.append("comment remover not decided: %s" % e)
    # the error of an open comment
    ps, E = explore(F, f, [PARAM("text"), PARAM("file")])
    for p in ps:
        if p.variant() == "Err":
            codes = {report_code(x) for x in subterms(p.v) if x.op == "adt" and x.a[1] == "Report"}
            r.check("comments", "error of an open comment", codes == {"UnclosedComment"}, r.where(f), "an unterminated comment is reported as %s" % codes)


# ------------------------------------------------------------------ include resolution
def includes(F, r):
    r.rule("include", "an include is looked up relative to the including file first, then in each link library in order; the first regular file found is "
                      "queued under its canonical path unless already parsed; if none exists the include is an error")
    f = F.find("FileStack::add_include"); r.fn(f)
    L1, L2, nm = PARAM("lib1"), PARAM("lib2"), PARAM("name")
    fs = PARAM("fs")
    I = path_intrinsics()
    ps, E = explore(F, f, [fs, nm, mk("array", L1, L2)], intr=I, loop_visits=4)
    cur = getf(fs, "current_location")
    want = [mk("path", d, nm) for d in (cur, L1, L2)]
    n = 0
    for p in ps:
        cand = [e[1][0] for e in p.events("^canonicalize$")]
        tag = "%s after %d candidates" % (p.variant(), len(cand))
        if cand != want[:len(cand)]:
            r.bad("include", "search order", r.where(f), "candidates are %s, expected the including file's folder, then the libraries in order" % [show(c) for c in cand]); continue
        files = [v for t, v in p.bools(lambda t: t.op == "call" and t.a[0].endswith("::is_file"))]
        n += 1
        if p.variant() == "Ok":
            c = mk("canon", cand[-1]) if cand else None
            good = c is not None and contains(getf(p.v, "0"), c) and (not files or files[-1] is True) and p.is_(c, "Ok") is True
            r.check("include", "path " + tag, good, r.where(f), "returns %s for candidate %s" % (show(p.v)[:80], show(cand[-1]) if cand else "none"))
            r.check("include", "must be a file " + tag, bool(files) and files[-1], r.where(f), "a path that is not a regular file is accepted")
            seen = p.bools(lambda t: t.op == "call" and t.a[0].endswith("::contains"))
            after = p.mem(fs, "stack")
            pushed = contains(after, c)
            if not any(v for _, v in seen):
                r.check("include", "queued " + tag, pushed, r.where(f), "a file found for the first time is not queued for parsing")
            else: r.ok("include", "already parsed " + tag)
        elif p.variant() == "Err":
            r.check("include", "not found " + tag, len(cand) == len(want), r.where(f), "reports a missing include after trying only %d of %d folders" % (len(cand), len(want)))
            codes = {report_code(x) for x in subterms(p.v) if x.op == "adt" and x.a[1] == "Report"}
            r.check("include", "error " + tag, codes == {"IncludeNotFound"}, r.where(f), "a missing include is reported as %s" % codes)
            r.check("include", "not found files " + tag, True not in files, r.where(f), "an existing file is reported as not found")
        else: r.bad("include", "result", r.where(f), "unexpected result %s" % show(p.v)[:80])
    r.floor("include", n, 6, "include resolution paths")


def stack(F, r):
    r.rule("once", "a queued file is handed out unless it was handed out before; it is then marked and becomes the base of its own includes; "
                   "the queue ends only when it is empty")
    f = F.find("FileStack::take_next"); r.fn(f)
    fs = PARAM("fs")
    ps, E = explore(F, f, [fs], intr=path_intrinsics(), track=(r"Vec::<T, A>::pop$", r"HashSet.*::insert$", r"HashSet.*::contains$"))
    n = 0
    for p in ps:
        pops = p.events(r"Vec::<T, A>::pop$")
        seen = {t.a[2]: v for t, v in p.bools(lambda t: t.op == "call" and t.a[0].endswith("::contains") and len(t.a) == 3)}
        n += 1
        if p.variant() == "Some":
            x = getf(p.v, "0")
            ins = [e[1][1] for e in p.events("::insert$")]
            # either tested with contains, or by the result of insert
            insres = [v for t, v in p.bools(lambda t: t.op == "call" and t.a[0].endswith("::insert") and t.a[2] is x)]
            r.check("once", "not handed out twice", seen.get(x) is False or True in insres, r.where(f), "a file already handed out can be handed out again")
            r.check("once", "marked as handed out", x in ins, r.where(f), "a file handed out is not marked, so it can be parsed again")
            cl = p.mem(fs, "current_location")
            r.check("once", "base of its includes", cl is mk("parent", x) or show(cl).endswith("parent(%s)" % show(x)), r.where(f),
                    "the folder includes are resolved against is %s, not the folder of the file handed out" % show(cl)[:80])
            r.check("once", "from the queue", contains(x, lambda t: t.op == "call" and t.a[0].endswith("::pop")), r.where(f), "the file handed out does not come from the queue")
        elif p.variant() == "None":
            last = [c for c in p.conds if c[0] == "is" and c[1].op == "call" and c[1].a[0].endswith("::pop")]
            r.check("once", "end of the queue", bool(last) and last[-1][2] == "None", r.where(f), "the queue is abandoned although it is not empty")
    r.floor("once", n, 2, "take_next paths")
    g = F.find("FileStack::new"); r.fn(g)
    ps, E = explore(F, g, [PARAM("src")], intr=path_intrinsics())
    for p in ps:
        st = getf(p.v, "stack"); cl = getf(p.v, "current_location"); bl = getf(p.v, "black_paths")
        x = st.a[0] if st.op == "array" and len(st.a) == 1 else None
        ok = x is not None and contains(x, PARAM("src"))
        r.check("once", "main file queued", ok, r.where(g), "the initial queue is %s" % show(st)[:80])
        if not ok: continue
        c = mk("canon", PARAM("src"))
        if p.is_(c, "Err") is not True:
            r.check("once", "main file canonical", x is c, r.where(g), "the main file is queued as %s, includes as canonical paths: a file including it back parses it again" % show(x)[:60])
        r.check("once", "main file base", cl is mk("parent", x) or cl is mk("parent", PARAM("src")), r.where(g), "the folder of the main file's includes is %s" % show(cl)[:80])


def find(F, r):
    r.rule("read", "a file that cannot be read is an error carrying its name; the text parsed is the text of the file found")
    f = F.find("parser::find_file"); r.fn(f)
    ok = mk("tuple", PARAM("fpath"), PARAM("fsrc")); rep = PARAM("ioreport")
    ps, E = explore(F, f, [PARAM("file"), mk("array", PARAM("d1"), PARAM("d2"))], intr={r"parser::open_file$": oracle([OK(ok), ERR(rep)]), **path_intrinsics()}, loop_visits=6)
    n = 0
    for p in ps:
        v = p.v
        if v.op != "tuple" or len(v.a) != 5: raise bnf.Anchor("result of find_file")
        found, path, src, name, reps = v.a
        opened = p.events("open_file$")
        n += 1
        if found is TRUE:
            r.check("read", "found file", src is PARAM("fsrc") and path is PARAM("fpath"), r.where(f), "a found file yields the text %s" % show(src)[:60])
        else:
            r.check("read", "missing file", reps.op == "array" and len(reps.a) >= 1 or contains(reps, rep), r.where(f), "a file that cannot be opened leaves no report")
            r.check("read", "every folder tried", len(opened) >= 2, r.where(f), "only %d of 2 folders tried" % len(opened))
    r.floor("read", n, 2, "find_file paths")
    g = F.find("parser::open_file"); r.fn(g)
    ps, E = explore(F, g, [PARAM("file")])
    for p in ps:
        k = p.variant()
        src = [t for t in subterms(p.v) if t.op == "call" and t.a[0].endswith("read_to_string")]
        d = [c for c in p.conds if c[0] == "is" and c[1].op == "call" and c[1].a[0].endswith("read_to_string")]
        if d: r.check("read", "open_file " + k, k == d[-1][2], r.where(g), "reading the file gives %s but %s is returned" % (d[-1][2], k))
        if k == "Ok": r.check("read", "contents", contains(getf(getf(p.v, "0"), "1"), lambda t: t.op == "call" and t.a[0].endswith("read_to_string")), r.where(g), "the text returned is not the file's")


# ------------------------------------------------------------------ versions
def version(F, r):
    r.rule("version", "a file is accepted iff its required version has the compiler's major number and is not newer than the compiler; no version is a warning "
                      "(decided on every ordering of the three components)")
    f = F.find("parser::check_number_version"); r.fn(f)
    comp = (5, 5, 5)
    n = 0
    for req in itertools.product((4, 5, 6), repeat=3):
        tup = lambda v: mk("tuple", *[INT(x) for x in v])
        ps, E = explore(F, f, [PARAM("path"), SOME(tup(req)), tup(comp)])
        want = req[0] == comp[0] and req[1:] <= comp[1:]
        n += 1
        rel = " ".join("%s%s" % (k, "<=>"[q - 4]) for k, q in zip(("major", "minor", "patch"), req))
        for p in ps:
            got = p.variant() == "Ok"
            r.check("version", rel, got == want, r.where(f), "a file whose required version compares (%s) with the compiler's is %s" % (rel, "accepted" if got else "rejected"))
            if got and want: r.check("version", "silent " + rel, getf(p.v, "0").op == "array" and not getf(p.v, "0").a, r.where(f), "a matching version is warned about")
            if not got:
                codes = {report_code(x) for x in subterms(p.v) if x.op == "adt" and x.a[1] == "Report"}
                cat = {getf(x, "category").a[1] for x in subterms(p.v) if x.op == "adt" and x.a[1] == "Report"}
                r.check("version", "error " + rel, codes == {"CompilerVersionError"} and cat == {"Error"}, r.where(f), "a version mismatch is reported as %s %s" % (cat, codes))
    ps, E = explore(F, f, [PARAM("path"), NONE, mk("tuple", *[INT(x) for x in comp])])
    for p in ps:
        ok = p.variant() == "Ok" and getf(p.v, "0").op == "array" and len(getf(p.v, "0").a) == 1
        r.check("version", "no version", ok, r.where(f), "a file without a version gives %s" % show(p.v)[:80])
        if ok:
            x = getf(p.v, "0").a[0]
            r.check("version", "no version warning", report_code(x) == "NoCompilerVersionWarning" and getf(x, "category").a[1] == "Warning", r.where(f), "a file without a version is reported as %s" % show(x)[:80])
    r.floor("version", n, 27, "version orderings")
    g = F.find("parser::parse_number_version"); r.fn(g)

    def frm(E, st, name, args, fn, line): return [(st, OK(mk("num", E.deref(st, args[0]))))]

    def split(E, st, name, args, fn, line): return [(st, mk("iter", mk("array", STR("x"), STR("y"), STR("z"))))]
    ps, E = explore(F, g, [PARAM("v")], intr={r"from_str$": frm, r"str>::split$": split, r"str>::parse$": frm})
    for p in ps:
        w = mk("tuple", *[mk("num", STR(c)) for c in "xyz"])
        r.check("version", "compiler version components", p.v is w or p.v.op != "tuple", r.where(g), "the compiler version x.y.z is read as %s" % show(p.v)[:80])
    # the grammar hands over the version written
    gr = G(F, r)
    alts = gr.B.parse("ParsePragma", ["pragma", "circom", (gr.DEC, PARAM("v1")), ".", (gr.DEC, PARAM("v2")), ".", (gr.DEC, PARAM("v3")), ";"])
    vs = [PARAM("v%d" % (i + 1)) for i in range(3)]
    tuples = []
    for v, e in alts:
        t = getf(v, "2") if v.op == "adt" and v.a[1] == "Version" else None
        r.check("version", "pragma version is a version", t is not None and t.op == "tuple" and len(t.a) == 3, "grammar", "pragma circom v1.v2.v3 builds %s" % show(v)[:60])
        if t is not None and t.op == "tuple" and len(t.a) == 3:
            tuples.append(t)
            for i, x in enumerate(t.a):
                r.check("version", "pragma version component %d" % i, not any(contains(x, w) for w in vs if w is not vs[i]), "grammar", "component %d of the version is read from another component" % i)
    r.check("version", "pragma version read", any(all(contains(x, w) for x, w in zip(t.a, vs)) for t in tuples), "grammar", "pragma circom v1.v2.v3 does not build the version (v1,v2,v3)")
    for i in range(3):
        r.check("version", "huge version component %d" % i, any(e for _, e in alts) or any(not contains(t.a[i], vs[i]) for t in tuples), "grammar",
                "a version number outside usize is not handled: the parser panics")
    # the version given to the parser is the compiler's own
    pp = F.find("parser_user::parse_project"); r.fn(pp)
    ps, E = explore(F, pp, [PARAM("input")], stop=(r"parser::run_parser$", r"print_reports$", r"UsefulConstants::new"))
    for p in ps:
        ev = p.events("run_parser$")
        r.check("version", "parse_project", len(ev) == 1 and ev[0][1][1].op == "str" and re.fullmatch(r"\d+\.\d+\.\d+", str(ev[0][1][1].a[0])) is not None, r.where(pp),
                "the compiler version handed to the parser is %s" % (show(ev[0][1][1])[:60] if ev else "missing"))
        if ev: break


def pragmas(F, r):
    r.rule("pragma", "a pragma given twice is an error, and each pragma sets what it names")
    f = F.find("AST::new"); r.fn(f)
    p1, p2 = PARAM("p1"), PARAM("p2")
    for arr in ((p1,), (p1, p2)):
        ps, E = explore(F, f, [PARAM("m"), mk("array", *arr), PARAM("inc"), PARAM("defs"), PARAM("main")])
        for p in ps:
            kinds = [next((c[2] for c in p.conds if c[0] == "is" and c[1] is x), None) for x in arr]
            ast, reps = p.v.a
            dup = len(arr) == 2 and kinds[0] == kinds[1] and kinds[0] in ("Version", "CustomGates")
            nrep = len(reps.a) if reps.op == "array" else None
            tag = "+".join(str(k) for k in kinds)
            r.check("pragma", "duplicates " + tag, (nrep == 1) if dup else (nrep == 0), r.where(f), "pragmas %s give %s error reports" % (tag, nrep))
            if dup and nrep: r.check("pragma", "code " + tag, report_code(reps.a[0]) == "MultiplePragma", r.where(f), "duplicate pragma reported as %s" % report_code(reps.a[0]))
            cv = getf(ast, "compiler_version")
            wv = [x for x, k in zip(arr, kinds) if k == "Version"]
            r.check("pragma", "version " + tag, (cv is NONE) if not wv else (cv.op == "adt" and cv.a[1] == "Some" and contains(cv, wv[0])), r.where(f), "pragmas %s set the version to %s" % (tag, show(cv)[:60]))
            cg = getf(ast, "custom_gates")
            r.check("pragma", "custom " + tag, cg is BOOL("CustomGates" in kinds), r.where(f), "pragmas %s set custom_gates to %s" % (tag, show(cg)[:60]))
            for fld, par in (("includes", "inc"), ("definitions", "defs"), ("main_component", "main")):
                r.check("pragma", "ast " + fld, getf(ast, fld) is PARAM(par), r.where(f), "the file's %s becomes %s" % (fld, show(getf(ast, fld))[:60]))
            anyc = [v for t, v in p.bools(lambda t: "is_custom_gate" in show(t))]
            r.check("pragma", "custom declared", getf(ast, "custom_gates_declared") is BOOL(True in anyc), r.where(f), "custom_gates_declared is %s" % show(getf(ast, "custom_gates_declared")))
    g = G(F, r)
    head = 'pragma circom 7 . 7 . 7 ;'
    for s, err in ((head, False), (head + " " + head, True), ("pragma custom_templates ;", False), ("pragma custom_templates ; pragma custom_templates ;", True),
                   (head + " pragma custom_templates ;", False), (head + ' include "a" ; template T { } component main = T ( ) ;', False)):
        got = g.trees("ParseAst", s)
        r.check("pragma", "source `%s`" % s[:60], bool(got) and all(e == err for _, e in got), "grammar", "`%s` is %s" % (s, "accepted" if got and not got[0][1] else "rejected"))
    for v, e in g.B.parse("ParseAst", g.toks('include "a" ; include "b" ;')):
        inc = getf(v, "includes")
        r.check("pragma", "includes listed", inc.op == "array" and len(inc.a) == 2, "grammar", "two includes become %s" % show(inc)[:80])


def parse_file(F, r):
    r.rule("syntax", "a file with syntax errors of any kind is not accepted: preprocessing, parsing and recovered errors each yield an error")
    f = F.find("parser_logic::parse_file"); r.fn(f)

    def parse(E, st, name, args, fn, line):
        out = []
        for res, errs in ((OK(PARAM("ast")), mk("array")), (OK(PARAM("ast")), mk("array", PARAM("e1"))), (ERR(PARAM("perr")), mk("array"))):
            s = st.fork()
            E.event(s, "parse", tuple(E.deref(s, a) for a in args), line, fn)
            for a in args:
                if a.op == "ref" and E.deref(s, a).op == "array": E.store_through(s, a, errs)
            s.mem[("G", "errs")] = errs
            out.append((s, res))
        return out
    ps, E = explore(F, f, [PARAM("src"), PARAM("file"), PARAM("field"), PARAM("noinit")],
                    intr={r"parser_logic::preprocess$": oracle([OK(PARAM("text")), ERR(PARAM("cerr"))]), r"ParseAstParser::parse$": parse})
    n = 0
    for p in ps:
        pe = p.events("^parse$")
        n += 1
        if not pe:
            r.check("syntax", "comment error", p.variant() == "Err", r.where(f), "an unterminated comment does not stop parsing")
            continue
        r.check("syntax", "text parsed", any(a is PARAM("text") for a in pe[0][1]), r.where(f), "the parser is given %s" % [show(a)[:30] for a in pe[0][1]])
        r.check("syntax", "field", any(a is PARAM("field") for a in pe[0][1]) and any(a is PARAM("noinit") for a in pe[0][1]) and any(a is PARAM("file") for a in pe[0][1]), r.where(f),
                "file, field and initialisation flag are not handed to the parser")
        errs = p.st.mem.get(("G", "errs"))
        if p.variant() == "Ok":
            r.check("syntax", "accepted", getf(p.v, "0") is PARAM("ast") and not errs.a, r.where(f), "a file with recovered syntax errors is accepted")
        else: r.ok("syntax", "rejected")
    r.check("syntax", "valid file", any(p.variant() == "Ok" for p in ps), r.where(f), "no file is accepted")
    r.floor("syntax", n, 4, "parse_file paths")


# ------------------------------------------------------------------ the driver
def driver(F, r):
    r.rule("driver", "every file handed out is found, parsed and version-checked, all its includes are resolved, its definitions and main component are kept, and "
                     "any failure among these ends in an error; exactly one main component is required")
    f = F.find("parser::run_parser"); r.fn(f)
    N = 2

    def take(E, st, name, args, fn, line):
        k = st.mem.get(("G", "k"), INT(0)).a[0]
        s2 = st.fork(); out = []
        E.event(s2, "take_none", (), line, fn); out.append((s2, NONE))
        if k < N:
            st.mem[("G", "k")] = INT(k + 1)
            E.event(st, "take", (PARAM("f%d" % k),), line, fn)
            out.append((st, SOME(PARAM("f%d" % k))))
        return out

    def which(t):
        m = re.search(r"\$(?:f|path|src|prog)(\d)", show(t))
        return int(m.group(1)) if m else 0

    def findf(vals):
        k = which(vals[0])
        return [mk("tuple", b, PARAM("path%d" % k), PARAM("src%d" % k), PARAM("crr%d" % k), PARAM("reps%d" % k)) for b in (TRUE, FALSE)]

    def parsef(vals):
        k = which(vals[0])
        return [OK(PARAM("prog%d" % k)), ERR(PARAM("perr%d" % k))]

    def addf(vals): return [PARAM("id%d" % which(vals[1]))]
    intr = {r"FileStack::take_next$": take, r"parser::find_file$": oracle(findf, lambda r: r.a[0] is FALSE), r"parser_logic::parse_file$": oracle(parsef),
            r"FileLibrary::add_file$": oracle(addf),
            r"FileStack::add_include$": oracle(lambda v: [OK(mk("incpath", v[1])), ERR(PARAM("incerr"))]),
            r"IncludesGraph::add_edge$": oracle([OK(UNIT), ERR(PARAM("edgeerr"))]), r"IncludesGraph::add_node$": oracle([UNIT]),
            r"parser::check_number_version$": oracle([OK(mk("array", PARAM("vwarn"))), ERR(PARAM("verr"))]),
            r"parser::check_custom_gates_version$": oracle([OK(UNIT), ERR(PARAM("cgerr"))]),
            r"parser::parse_number_version$": oracle(lambda v: [mk("numver", v[0])]),
            r"IncludesGraph::get_problematic_paths$": oracle([mk("array"), mk("array", PARAM("chain"))], lambda r: len(r.a) > 0),
            r"IncludesGraph::display_path$": oracle([STR("chain")]),
            r"ProgramArchive::new$": oracle([OK(PARAM("archive")), ERR(mk("tuple", PARAM("lib"), PARAM("rep")))]),
            r"apply_syntactic_sugar$": oracle([OK(UNIT), ERR(PARAM("sugerr"))]),
            **path_intrinsics()}
    ps, E = explore(F, f, [PARAM("main"), PARAM("ver"), PARAM("libs"), PARAM("field"), PARAM("noinit")], intr=intr, loop_visits=8, max_paths=60000)
    cnt = {}

    def chk(c, ok, msg):
        cnt[c] = cnt.get(c, 0) + 1
        if not ok: r.bad("driver", c, r.where(f), msg + " [" + msgp.show()[-200:] + "]")
        elif cnt[c] == 1: r.ok("driver", c)
    for p in ps:
        msgp = p
        evs = p.evs
        names = [e[0] for e in evs]
        taken = [e[1][0] for e in evs if e[0] == "take"]
        err = p.variant() == "Err"
        founds = [e for e in evs if e[0].endswith("find_file")]
        parses = [e for e in evs if e[0].endswith("parse_file")]
        # abnormal: which step was the last one when the loop was left early
        ended = any(e[0] == "take_none" for e in evs)
        if not ended:
            chk("failure in the loop is an error", err, "the loop over files is left early without an error")
            continue
        n = len(taken)
        chk("each file is looked up", len(founds) == n and all(which(e[1][0]) == i for i, e in enumerate(founds)), "%d files taken, %d looked up" % (n, len(founds)))
        chk("each file is parsed once", [which(e[1][0]) for e in parses] == list(range(n)), "files parsed: %s of %d" % ([show(e[1][0]) for e in parses], n))
        for e in parses:
            k = which(e[1][0])
            chk("parsed under its own id", e[1][1] is PARAM("id%d" % k) and e[1][2] is PARAM("field") and e[1][3] is PARAM("noinit"), "parse_file is given %s" % [show(x)[:20] for x in e[1]])
        vers = [e for e in evs if e[0].endswith("check_number_version")]
        chk("each file is version-checked", len(vers) == n and all(contains(e[1][1], PARAM("prog%d" % i)) and "compiler_version" in show(e[1][1]) and e[1][2] is mk("numver", PARAM("ver"))
                                                              for i, e in enumerate(vers)), "%d of %d files are checked against the compiler version" % (len(vers), n))
        custom = [k for k in range(n) if p.bools(lambda t: show(t) == "$prog%d.custom_gates" % k) and p.bools(lambda t: show(t) == "$prog%d.custom_gates" % k)[0][1]]
        cgs = [e for e in evs if e[0].endswith("check_custom_gates_version")]
        chk("files with custom templates are checked", len(cgs) == len(custom), "%d files use custom templates, %d are checked" % (len(custom), len(cgs)))
        for k in range(n):
            inc = mk("iter", getf(PARAM("prog%d" % k), "includes"))
            looped = [c for c in p.conds if c[0] == "loop" and c[1] is inc]
            chk("includes are iterated", len(looped) > 0, "the includes of a file are not resolved")
            has = any(c[2] for c in looped)
            adds = [e for e in evs if e[0].endswith("add_include") and contains(e[1][1], mk("item", inc))]
            edges = [e for e in evs if e[0].endswith("add_edge") and contains(e[1][1], mk("item", inc))]
            if has:
                chk("each include is resolved", len(adds) >= 1 and adds[0][1][2] is PARAM("libs"), "an include is not resolved against the libraries")
                chk("each include is an edge", len(edges) >= 1 and edges[0][1][1] is mk("incpath", mk("item", inc)), "an include is not recorded in the include graph")
        nodes = [e for e in evs if e[0].endswith("add_node")]
        chk("each file is a node", len(nodes) == n and all(len(e[1]) >= 4 and "custom_gates" in show(e[1][2]) and "custom_gates_declared" not in show(e[1][2])
                                                        and "custom_gates_declared" in show(e[1][3]) and which(e[1][2]) == i for i, e in enumerate(nodes)),
            "files are entered in the include graph with %s" % [[show(x)[:30] for x in e[1][1:]] for e in nodes])
        mains = [k for k in range(n) if p.is_(getf(PARAM("prog%d" % k), "main_component"), "Some")]
        arch = [e for e in evs if e[0].endswith("ProgramArchive::new")]
        codes = {report_code(x) for x in subterms(p.v) if x.op == "adt" and x.a[1] == "Report"}
        if len(mains) != 1:
            chk("main components: %s" % ("none" if not mains else "several"), err and not arch, "%d main components do not end in an error" % len(mains))
            chk("main component error code %s" % ("none" if not mains else "several"), {"NoMainFoundInProject" if not mains else "MultipleMain"} <= codes, "%d main components are reported as %s" % (len(mains), codes))
            continue
        prob = [e for e in evs if e[0].endswith("get_problematic_paths")]
        chk("include chains are checked", len(prob) == 1, "the custom-template pragma is not checked along include chains")
        sug = [e for e in evs if e[0].endswith("apply_syntactic_sugar")]
        if not arch:
            chk("missing custom pragma is an error", err and "CustomGatesPragmaError" in codes, "compilation stops before the archive without the pragma error")
            continue
        a = arch[0][1]
        chk("archive main", a[1] is PARAM("id%d" % mains[0]) and contains(a[2], PARAM("prog%d" % mains[0])) and "main_component" in show(a[2]), "the archive's main component is %s in file %s" % (show(a[2])[:50], show(a[1])))
        defs = a[3]
        chk("archive definitions", defs.op == "array" and len(defs.a) == n and all(d.op == "tuple" and d.a[0] is PARAM("id%d" % i) and d.a[1] is getf(PARAM("prog%d" % i), "definitions") for i, d in enumerate(defs.a)),
            "the definitions of the archive are %s" % show(defs)[:120])
        chk("archive custom flag", contains(a[4], getf(PARAM("prog%d" % mains[0]), "custom_gates")) or a[4] is BOOL(mains[0] in custom), "custom_gates of the archive is %s" % show(a[4])[:50])
        if not err:
            chk("sugar removed", len(sug) == 1, "a program is accepted without removing anonymous components and tuples")
            w = getf(p.v, "0")
            chk("warnings kept", n == 0 or contains(w, PARAM("vwarn")), "version warnings are dropped")
            chk("accepted archive", contains(w, PARAM("archive")), "the accepted program is %s" % show(w)[:60])
    nOk = sum(1 for p in ps if p.variant() == "Ok")
    for p in ps:
        if p.variant() == "Ok":
            fl = failed_steps(p)
            r.check("driver", "no failed step on an accepted program", not fl, r.where(f), "a program is accepted although %s failed" % (", ".join(fl)))
    r.floor("driver", nOk, 2, "accepting paths of run_parser")
    r.notes.append("run_parser: %d abstract paths, %d accepting" % (len(ps), nOk))


# ------------------------------------------------------------------ definitions
def merger(F, r):
    r.rule("merge", "a definition is added iff no function, template or bus has its name, and a duplicate is an error")
    f = F.find("Merger::add_definitions"); r.fn(f)
    d = PARAM("def")
    track = (r"::insert$", r"::contains_key$")
    ps, E = explore(F, f, [PARAM("self"), PARAM("file"), mk("array", d)], stop=(r"(Template|Function|Bus)Data::new$", r"HashMap.*::insert$", r"HashMap.*::contains_key$"))
    n = 0
    for p in ps:
        kind = next((c[2] for c in p.conds if c[0] == "is" and c[1] is d), None)
        if kind is None: continue
        n += 1
        nm = getf(downcast(d, kind), "name")
        tested = {}
        for t, v in p.bools(lambda t: t.op == "call" and t.a[0].endswith("contains_key")):
            m = re.search(r"(function|template|bus)_info", show(t))
            if m and contains(t, nm): tested[m.group(1)] = v
        ins = [e for e in p.events("HashMap.*::insert$")]
        where = None
        for e in ins:
            m = re.search(r"(function|template|bus)_info", show(e[1][0])); where = m.group(1) if m else "?"
        if any(tested.values()):
            r.check("merge", "%s duplicate not added" % kind, not ins, r.where(f), "a %s whose name is taken replaces the other definition" % kind)
            r.check("merge", "%s duplicate is an error" % kind, p.variant() == "Err", r.where(f), "a %s whose name is taken (by a %s) is not an error" % (kind, [k for k, v in tested.items() if v]))
            codes = {report_code(x) for x in subterms(p.v) if x.op == "adt" and x.a[1] == "Report"}
            r.check("merge", "%s duplicate code" % kind, codes == {"SameSymbolDeclaredTwice"}, r.where(f), "duplicate reported as %s" % codes)
        else:
            r.check("merge", "%s name compared" % kind, set(tested) == {"function", "template", "bus"}, r.where(f),
                    "the name of a %s is not compared with the existing %s" % (kind, sorted({"function", "template", "bus"} - set(tested))))
            r.check("merge", "%s added" % kind, len(ins) == 1 and where == kind.lower() and contains(ins[0][1][1], nm), r.where(f), "a new %s is added to %s" % (kind, where))
            r.check("merge", "%s accepted" % kind, p.variant() == "Ok", r.where(f), "a new %s is an error" % kind)
            mk_ = p.events("Data::new$")
            if mk_:
                want = {getf(downcast(d, kind), x) for x in ("name", "body", "args")}
                r.check("merge", "%s data" % kind, want <= set(mk_[0][1]) and PARAM("file") in mk_[0][1], r.where(f), "a %s is stored without its name, body, parameters or file" % kind)
                if kind == "Template":
                    g = F.find("TemplateData::new")
                    pn = [g.name(i + 1) for i in range(g.nargs)]
                    for fl, fld in (("is_parallel", "parallel"), ("is_custom_gate", "is_custom_gate"), ("is_extern_c", "is_extern_c")):
                        if fl in pn:
                            r.check("merge", "template flag " + fl, mk_[0][1][pn.index(fl)] is getf(downcast(d, kind), fld), r.where(f), "template modifier %s is stored as %s" % (fl, show(mk_[0][1][pn.index(fl)])[:50]))
    r.floor("merge", n, 6, "definition paths")
    g = F.find("ProgramArchive::new"); r.fn(g)
    ps, E = explore(F, g, [PARAM("lib"), PARAM("id"), mk("tuple", PARAM("pub"), PARAM("call")), mk("array", mk("tuple", PARAM("i1"), PARAM("d1")), mk("tuple", PARAM("i2"), PARAM("d2"))), PARAM("cg")],
                    intr={r"Merger::add_definitions$": oracle([OK(UNIT), ERR(mk("array", PARAM("dup")))]), r"Merger::decompose$": oracle([mk("tuple", PARAM("fresh"), PARAM("funs"), PARAM("tmps"), PARAM("buses"))])},
                    stop=(r"FillMeta.*::fill$",), loop_visits=4)
    for p in ps:
        ad = p.events("add_definitions$")
        r.check("merge", "all files merged", [(e[1][1], e[1][2]) for e in ad] == [(PARAM("i1"), PARAM("d1")), (PARAM("i2"), PARAM("d2"))], r.where(g), "only %d of 2 files are merged" % len(ad))
        if p.variant() == "Ok":
            a = getf(p.v, "0")
            for fld, w in (("functions", "funs"), ("templates", "tmps"), ("buses", "buses"), ("public_inputs", "pub"), ("custom_gates", "cg"), ("file_id_main", "id")):
                r.check("merge", "archive " + fld, getf(a, fld) is PARAM(w), r.where(g), "the archive's %s is %s" % (fld, show(getf(a, fld))[:50]))
        r.check("merge", "duplicates reach the caller", (p.variant() == "Err") == bool(failed_steps(p)), r.where(g), "an archive with duplicate definitions is %s" % p.variant())
