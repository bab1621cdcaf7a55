"""C23: custom templates obey their restrictions and reach the custom-gate sections."""
import itertools, re
from .. import export, maps
from ..ev import mk, St
from ..exec_model import Anchor, INT, PARAM, STR, SOME, NONE, OK, ERR, TRUE, FALSE, UNIT, build
from ..paths import explore
from . import c15


def run(F, r):
    r.do(F, body, applied, declared, carried, pragma, includes, version, exported, kept, wired)


def arr(*xs): return mk("array", *xs)


def ev(F, r, fn, args, st=None, intr=None, **kw):
    f = F.find(fn) if isinstance(fn, str) else fn; r.fn(f); I = dict(intr or {})
    for k, v in export.intrinsics().items():
        if k not in I: I[k] = v
    ps, E = explore(F, f, args, intr=I, st=st, loop_visits=60, max_paths=20000, rec=8, **kw); r.paths(len(ps))
    if E.blind: raise Anchor("what is done by a closure given to %s" % sorted(E.blind)[0])
    return f, ps


S = lambda F, v, **k: build(F, "ast::Statement", v, v.lower(), **k)
unit = lambda F, ty, v: build(F, ty, v, "u")


def decl(F, v, *pay): return S(F, "Declaration", xtype=variant(F, "VariableType", v, *pay), name=STR("x"))


def variant(F, ty, v, *pay):
    from ..exec_model import adt_id, ADT
    i = adt_id(F, "ast::" + ty); vs = next(x for x in F.adts[i]["variants"] if x[0] == v)
    return ADT(i, v, tuple((f[0], pay[k] if k < len(pay) else PARAM("%s.%s" % (v, f[0]))) for k, f in enumerate(vs[2])))


def offenders(F):
    op = variant(F, "AssignOp", "AssignConstraintSignal")
    return [("component", decl(F, "Component")), ("anonymous component", decl(F, "AnonymousComponent")), ("<==", S(F, "Substitution", op=op)), ("_ <==", S(F, "UnderscoreSubstitution", op=op)), ("===", S(F, "ConstraintEquality"))]


def harmless(F):
    sig = lambda t: variant(F, "SignalType", t)
    out = [("variable", decl(F, "Var")), ("input", decl(F, "Signal", sig("Input"))), ("output", decl(F, "Signal", sig("Output"))), ("intermediate", decl(F, "Signal", sig("Intermediate"))), ("assert", S(F, "Assert")), ("log", S(F, "LogCall"))]
    out += [(o, S(F, "Substitution", op=variant(F, "AssignOp", o))) for o in ("AssignVar", "AssignSignal")]
    return out


def inside(F, s):
    """the statement in every position of a statement"""
    h = decl(F, "Var")
    yield "alone", s
    yield "block", S(F, "Block", stmts=arr(s))
    yield "last of a block", S(F, "Block", stmts=arr(h, h, s))
    yield "first of a block", S(F, "Block", stmts=arr(s, h))
    yield "if", S(F, "IfThenElse", if_case=s, else_case=NONE)
    yield "if with an else", S(F, "IfThenElse", if_case=s, else_case=SOME(h))
    yield "else", S(F, "IfThenElse", if_case=h, else_case=SOME(s))
    yield "while", S(F, "While", stmt=s)
    yield "initialization", S(F, "InitializationBlock", initializations=arr(h, s))
    yield "nested", S(F, "Block", stmts=arr(h, S(F, "While", stmt=S(F, "Block", stmts=arr(S(F, "IfThenElse", if_case=h, else_case=SOME(S(F, "Block", stmts=arr(h, s)))), h)))))


def refused(p):
    """True / False: the path ends with errors / without"""
    v = p.E.deref(p.st, p.v)
    if v.op != "adt" or v.a[1] not in ("Ok", "Err"): raise Anchor("result")
    if v.a[1] == "Ok": return False
    e = p.E.deref(p.st, dict(v.a[2])["0"])
    return not (e.op == "array" and not e.a)


def body(F, r):
    r.rule("body", "the analysis of custom templates refuses a component, a `<==` or a `===` wherever it stands, and accepts the other statements")
    f = F.find("analyzers::custom_gate_analysis::custom_gate_analysis"); n = 0
    for kind, group, want in (("refused", offenders(F), True), ("accepted", harmless(F), False)):
        for nm, s in group:
            bad = []
            for where, t in inside(F, s):
                f, ps = ev(F, r, f, [STR("G"), t], intr={r"Meta::get_(file_id|location)$|core::option::Option::<usize>::unwrap$": lambda E, st, name, args, fn, line: [(st, PARAM("m"))]})
                got = {refused(p) for p in ps}; n += 1
                if not ps: raise Anchor("no path")
                if got != {want}: bad.append("%s is %s (%s)" % (nm, "accepted" if want else "refused", where))
            r.check("body", "%s:%s" % (kind, nm), not bad, r.where(f), "; ".join(bad)[:300])
    r.floor("body", n, 100, "bodies")


def applied(F, r):
    r.rule("applied", "every custom template of the program is analysed and its errors are reported, whatever the other templates are")
    f = F.find("check_types::semantic_analyses"); r.fn(f)
    for flags in itertools.product((False, True), repeat=3):
        names = ["A", "B", "C"]
        def get(E, st, name, args, fn, line):
            k = E.deref(st, args[1]); return [(st, mk("td", k))] if k.op == "str" else NotImplemented
        def custom(E, st, name, args, fn, line):
            v = E.deref(st, args[0]); return [(st, TRUE if flags[names.index(v.a[0].a[0])] else FALSE)] if v.op == "td" else NotImplemented
        def analyse(E, st, name, args, fn, line):
            E.event(st, "analysed", (E.deref(st, args[0]), E.deref(st, args[1])), line, fn); k = E.deref(st, args[0])
            return [(st, ERR(arr(mk("report", k))))]
        I = {r"get_template_names$": lambda E, st, name, args, fn, line: [(st, arr(*[STR(x) for x in names]))], r"get_bus_names$": lambda E, st, name, args, fn, line: [(st, arr())], r"ProgramArchive::get_template_data$": get, r"TemplateData::is_custom_gate$": custom,
             r"TemplateData::get_body$": lambda E, st, name, args, fn, line: [(st, mk("body", E.deref(st, args[0])))], r"unknown_known_analysis$": lambda E, st, name, args, fn, line: [(st, OK(UNIT))], r"custom_gate_analysis$": analyse}
        st = St(); st.mem[("G", "e")] = arr(); st.mem[("G", "w")] = arr()
        f, ps = ev(F, r, f, [PARAM("archive"), mk("ref", ("G", "e"), ()), mk("ref", ("G", "w"), ())], st, I); bad = []
        for p in ps:
            want = [x for x, c in zip(names, flags) if c]
            got = {e[1][0].a[0] for e in p.events(r"^analysed$")}
            if got != set(want): bad.append("templates %s are analysed, of %s" % (sorted(got), want)); continue
            for e in p.events(r"^analysed$"):
                if e[1][1] is not mk("body", mk("td", e[1][0])): bad.append("the body analysed for %s is %s" % (e[1][0], e[1][1]))
            er = p.E.deref(p.st, p.st.mem[("G", "e")])
            if er.op != "array": raise Anchor("errors")
            if {x.a[0].a[0] for x in er.a if x.op == "report"} != set(want): bad.append("the errors of %s are lost" % (set(want) - {x.a[0].a[0] for x in er.a if x.op == "report"}))
        r.check("applied", ",".join(x for x, c in zip(names, flags) if c) or "none", bool(ps) and not bad, r.where(f), "; ".join(sorted(set(bad)))[:300])


def declared(F, r):
    r.rule("declared", "a file declares custom gates exactly when one of its definitions is a custom template, and has the pragma exactly when it is written")
    D = lambda k: build(F, "ast::Definition", "Template", "t", is_custom_gate=TRUE) if k == "c" else build(F, "ast::Definition", "Template", "t", is_custom_gate=FALSE) if k == "t" else build(F, "ast::Definition", "Function", "f")
    P = lambda k: variant(F, "Pragma", {"g": "CustomGates", "v": "Version", "u": "Unrecognized"}[k])
    f = F.find("ast::AST::new")
    for ds, ps_ in (("", ""), ("t", ""), ("c", ""), ("tc", ""), ("ct", ""), ("ftfc", ""), ("ft", "g"), ("c", "g"), ("c", "vg"), ("", "gv"), ("t", "uv"), ("fcf", "uvg")):
        f, ps = ev(F, r, f, [PARAM("meta"), arr(*[P(x) for x in ps_]), arr(), arr(*[D(x) for x in ds]), NONE]); bad = []
        for p in ps:
            v = p.E.deref(p.st, p.v)
            if v.op == "tuple": v = p.E.deref(p.st, v.a[0])
            if v.op != "adt": raise Anchor("AST::new")
            d = {k: p.E.deref(p.st, x) for k, x in v.a[2]}
            for k, w in (("custom_gates", "g" in ps_), ("custom_gates_declared", "c" in ds)):
                if d[k] not in (TRUE, FALSE): raise Anchor(k)
                if (d[k] is TRUE) != w: bad.append("%s is %s" % (k, d[k]))
        r.check("declared", "definitions %s, pragmas %s" % (ds or "-", ps_ or "-"), bool(ps) and not bad, r.where(f), "; ".join(sorted(set(bad))))


def carried(F, r):
    r.rule("carried", "the custom mark of a template is carried unchanged from its definition to its instances, to the nodes of the DAG and to those of the exporter")
    def field(p, v, k):
        v = p.E.deref(p.st, v)
        if v.op != "adt" or k not in dict(v.a[2]): raise Anchor(k)
        return p.E.deref(p.st, dict(v.a[2])[k])
    for fn, k in (("template_data::TemplateData::new", "is_custom_gate"), ("template_data::TemplateData::copy", "is_custom_gate"), ("executed_template::ExecutedTemplate::new", "is_custom_gate"), ("dag::Node::new", "is_custom_gate")):
        f = F.find(fn); names = [f.locals[i][1] for i in range(1, f.nargs + 1)]
        if k not in names: raise Anchor("the parameter %s of %s" % (k, fn))
        f, ps = ev(F, r, f, [PARAM("P." + (x or "a%d" % i)) if x != k else PARAM("mark") for i, x in enumerate(names)], intr={r"FillMeta(>|.*)::fill$|fill_\w+$|build_.*$": lambda E, st, name, args, fn, line: [(st, UNIT)]})
        bad = [str(field(p, p.v, k)) for p in ps if field(p, p.v, k) is not PARAM("mark")]
        r.check("carried", fn, bool(ps) and not bad, r.where(f), "the mark becomes %s" % bad[:1])
    for fn in ("template_data::TemplateData::is_custom_gate", "dag::Node::is_custom_gate"):
        ty = fn.rsplit("::", 2)[1]
        f, ps = ev(F, r, fn, [build(F, ty if ty == "TemplateData" else "dag::Node", None, "n", is_custom_gate=PARAM("mark"))])
        r.check("carried", fn, bool(ps) and all(p.E.deref(p.st, p.v) is PARAM("mark") for p in ps), r.where(f), "the mark is read as %s" % [str(p.v) for p in ps][:2])
    f = F.find("map_to_constraint_list::map_node_to_encoding")
    nd = build(F, "dag::Node", None, "n", is_custom_gate=PARAM("mark"), constraints=arr(), ordered_signals=arr(), signal_correspondence=arr(), locals=arr())
    f, ps = ev(F, r, f, [INT(3), nd]); r.check("carried", "encoding", bool(ps) and all(field(p, p.v, "is_custom_gate") is PARAM("mark") for p in ps), r.where(f), "the mark is lost")
    # the calls
    def dag_node(E, st, name, args, fn, line): E.event(st, "node", tuple(E.deref(st, a) for a in args), line, fn); return [(st, UNIT)]
    noop = lambda E, st, name, args, fn, line: [(st, UNIT)]
    f = F.find("executed_template::ExecutedTemplate::insert_in_dag"); t = build(F, "ExecutedTemplate", None, "t", is_custom_gate=PARAM("mark"), report_name=STR("G(1)"), parameter_instances=arr())
    st = St(); st.mem[("G", "t")] = t
    f, ps = ev(F, r, f, [mk("ref", ("G", "t"), ()), PARAM("dag"), PARAM("buses")], st, {r"DAG::add_node$": dag_node, r"build_(wires|ordered_signals|connexions|constraints)$": noop})
    g = F.find("dag::DAG::add_node"); at = [g.locals[i][1] for i in range(1, g.nargs + 1)].index("is_custom_gate") if "is_custom_gate" in [g.locals[i][1] for i in range(1, g.nargs + 1)] else None
    if at is None: raise Anchor("DAG::add_node")
    bad = [p for p in ps if [e[1][at] for e in p.events(r"^node$")] != [PARAM("mark")]]
    r.check("carried", "instance to DAG", bool(ps) and not bad, r.where(f), "the node is not created with the mark of the instance")
    dag = build(F, "dag::DAG", None, "dag", one_signal=INT(0), nodes=arr(), adjacency=arr(), prime=STR("bn128"))
    for mark in (TRUE, FALSE):
        from .c14 import through, node
        d, v = through(F, r, "dag::DAG::add_node", dag, [STR("T(1)"), arr(), FALSE, FALSE]); d, v = through(F, r, "dag::DAG::add_node", d, [STR("G(1)"), arr(PARAM("k1"), PARAM("k2")), FALSE, mark])
        n = node(d, 1); r.check("carried", "DAG node:%s" % mark, n["is_custom_gate"] is mark and n["parameters"] is arr(PARAM("k1"), PARAM("k2")) and n["template_name"] is STR("G(1)"), r.where(g), "the node is %s" % {k: str(n[k]) for k in ("is_custom_gate", "parameters", "template_name")})


def graph(F, files, edges):
    """includes graph: files = [(name, pragma, declares)]; edges = [(including, included)]"""
    nodes = arr(*[build(F, "include_logic::IncludesNode", None, "n", path=STR(n), custom_gates_pragma=TRUE if p else FALSE) for n, p, d in files])
    ix = {n: i for i, (n, p, d) in enumerate(files)}; adj = {}
    for a, b in edges: adj.setdefault(b, []).append(ix[a])
    return build(F, "include_logic::IncludesGraph", None, "g", nodes=nodes, adjacency=arr(*[mk("tuple", STR(k), arr(*[INT(x) for x in v])) for k, v in adj.items()]), custom_gates_nodes=arr(*[INT(i) for i, (n, p, d) in enumerate(files) if d]))


def includes(F, r):
    r.rule("includes", "every file that declares a custom template, or includes one that does at any distance, is refused when it lacks the pragma, and no other file is: all pragmas on chains, diamonds and cycles of up to four files")
    f = F.find("include_logic::IncludesGraph::get_problematic_paths"); n = 0
    for name, k, edges in (("one", 1, []), ("chain2", 2, [(0, 1)]), ("chain3", 3, [(0, 1), (1, 2)]), ("chain5", 5, [(0, 1), (1, 2), (2, 3), (3, 4)]), ("diamond", 4, [(0, 1), (0, 2), (1, 3), (2, 3)]), ("cycle", 3, [(0, 1), (1, 2), (2, 0)]), ("self", 2, [(0, 1), (1, 1)]), ("siblings", 3, [(0, 1), (0, 2)])):
        bad = []
        for decl in range(k):
            for more in ({decl}, {decl, 0}):
                for prag in itertools.product((False, True), repeat=k):
                    files = [("f%d" % i, prag[i], i in more) for i in range(k)]
                    st = St(); st.mem[("G", "g")] = graph(F, files, [("f%d" % a, "f%d" % b) for a, b in edges])
                    f, ps = ev(F, r, f, [mk("ref", ("G", "g"), ())], st)
                    reach = set(more)
                    while True:
                        new = {a for a, b in edges if b in reach} - reach
                        if not new: break
                        reach |= new
                    want = {"f%d" % i for i in reach if not prag[i]}; n += 1
                    for p in ps:
                        v = p.E.deref(p.st, p.v)
                        if v.op != "array": raise Anchor("get_problematic_paths")
                        got = set()
                        for x in v.a:
                            x = p.E.deref(p.st, x)
                            if x.op != "array" or not x.a: raise Anchor("get_problematic_paths")
                            got.add(p.E.deref(p.st, x.a[-1]).a[0])
                        if got != want: bad.append("with custom templates in %s and the pragma in %s, the files refused are %s" % (sorted("f%d" % i for i in more), [x for x, q, d in files if q], sorted(got)))
        r.check("includes", name, n > 0 and not bad, r.where(f), "; ".join(bad)[:300])
    # the graph is built as the files are read
    def run(files, edges):
        st = St(); st.mem[("G", "g")] = build(F, "include_logic::IncludesGraph", None, "g", nodes=arr(), adjacency=arr(), custom_gates_nodes=arr())
        for nm, pr, de in files:
            g, ps = ev(F, r, "include_logic::IncludesGraph::add_node", [mk("ref", ("G", "g"), ()), STR(nm), pr, de], st)
            if len(ps) != 1: raise Anchor("add_node")
            st = St(); st.mem[("G", "g")] = ps[0].st.mem[("G", "g")]
        return g, {k: ps[0].E.deref(ps[0].st, v) for k, v in st.mem[("G", "g")].a[2]}
    fs = [("a", TRUE, FALSE), ("b", FALSE, TRUE), ("c", TRUE, TRUE)]
    g, d = run(fs, []); bad = []
    if d["custom_gates_nodes"] is not arr(INT(1), INT(2)): bad.append("the files with custom templates are %s" % d["custom_gates_nodes"])
    if [dict(x.a[2]).get("custom_gates_pragma") for x in d["nodes"].a] != [TRUE, FALSE, TRUE]: bad.append("the pragmas are mixed up")
    if [dict(x.a[2]).get("path") for x in d["nodes"].a] != [STR(x) for x, y, z in fs]: bad.append("the paths are mixed up")
    r.check("includes", "nodes", not bad, r.where(g), "; ".join(bad))


def version(F, r):
    r.rule("version", "a file with the custom-templates pragma is refused when the version it requires, or without one the compiler's, is below 2.0.6")
    f = F.find("check_custom_gates_version"); V = lambda v: mk("tuple", *[INT(x) for x in v]); bad = []; n = 0
    vs = [(0, 0, 0), (1, 9, 9), (1, 0, 6), (2, 0, 0), (2, 0, 5), (2, 0, 6), (2, 0, 7), (2, 1, 0), (2, 2, 5), (3, 0, 0)]
    for own in [None] + vs:
        for comp in vs:
            f, ps = ev(F, r, f, [STR("f.circom"), SOME(V(own)) if own else NONE, V(comp)]); n += 1
            want = (own or comp) < (2, 0, 6)
            got = {p.E.deref(p.st, p.v).a[1] == "Err" for p in ps if p.E.deref(p.st, p.v).op == "adt"}
            if len(got) != 1: raise Anchor("check_custom_gates_version")
            if got != {want}: bad.append("required %s, compiler %s: %s" % (own, comp, "accepted" if want else "refused"))
    r.check("version", "versions", n > 100 and not bad, r.where(f), "; ".join(bad)[:300])


def pragma(F, r):
    r.rule("pragma", "the pragma of the file with the main component, and not another one's, decides whether the custom-gate sections are written")
    f = F.find("execution_user::generate_output_r1cs"); r.fn(f)
    ex = lambda E, st, name, args, fn, line: (E.event(st, "r1cs", tuple(E.deref(st, a) for a in args), line, fn), [(st, OK(UNIT))])[1]
    f, ps = ev(F, r, f, [STR("o.r1cs"), PARAM("exporter"), PARAM("flag")], intr={r"ConstraintExporter::r1cs$": ex})
    bad = [p for p in ps if [e[1][1:] for e in p.events(r"^r1cs$")] != [(STR("o.r1cs"), PARAM("flag"))]]
    r.check("pragma", "written", bool(ps) and not bad, r.where(f), "the exporter is not asked for the sections as the program says")
    for fn in ("<constraint_list::ConstraintList as constraint_writers::ConstraintExporter>::r1cs", "<dag::DAG as constraint_writers::ConstraintExporter>::r1cs"):
        if fn not in F.fns: raise Anchor(fn)
        to = lambda E, st, name, args, fn, line: (E.event(st, "port", tuple(E.deref(st, a) for a in args), line, fn), [(st, OK(UNIT))])[1]
        f, ps = ev(F, r, F.fns[fn], [PARAM("list"), STR("o.r1cs"), PARAM("flag")], intr={r"r1cs_porting::(port_r1cs|write)$": to})
        bad = [p for p in ps if [e[1][1:] for e in p.events(r"^port$")] != [(STR("o.r1cs"), PARAM("flag"))]]
        r.check("pragma", "exporter:" + fn.split("::")[0].strip("<"), bool(ps) and not bad, r.where(f), "the exporter does not hand the flag on")


def exported(F, r):
    r.rule("exported", "with the flag, each template instance that is a custom gate is listed once with its name and parameters and each use with its signals; without it there are no sections")
    from .c13 import EXPORTERS, file_of
    n = 0
    for name, c in export.samples():
        used, app = c.gates()
        for tag, fn in EXPORTERS:
            for flag in (True, False):
                f, ps, out = file_of(F, r, tag, fn, c, flag, name); bad = []; at = {l: i for i, l in enumerate(export.expected(tag, c)[1])}
                for p, x in out:
                    if isinstance(x, str): continue
                    n += 1
                    if not flag:
                        if x.get("used") or x.get("applied"): bad.append("custom gates are listed without the pragma")
                        continue
                    got = [(y[0], tuple(y[1])) for y in x["used"]]
                    if sorted(map(str, got)) != sorted(str((nm, tuple(ps_))) for nm, ps_ in used): bad.append("the gates listed are %s, of %s" % (got, used))
                    elif sorted((str(got[i]), tuple(y)) for i, y in x["applied"]) != sorted((str((used[i][0], tuple(used[i][1]))), tuple(at[s] for s in ss)) for i, ss in app): bad.append("the uses listed are %s" % (x["applied"],))
                r.check("exported", "%s:%s:%s" % (tag, name, "pragma" if flag else "none"), not bad, r.where(f), "; ".join(sorted(set(bad)))[:300])
    r.floor("exported", n, 12, "files")


def kept(F, r):
    r.rule("kept", "the signals of every custom gate, at every depth, are forbidden to the simplification")
    n = 0
    for name, c in export.samples():
        want = {i + off for k, off, path in c.walk() if c.nodes[k].custom for i in c.nodes[k].signals.values()}
        if not want: continue
        f, out = c15.mapped(F, r, c, 7); bad = []; n += 1
        for p, d in out:
            miss = want - set(c15.ints(p, d["forbidden"]))
            if miss: bad.append("the simplification may remove %s" % sorted(c.labels()[x][0] for x in miss))
        r.check("kept", name, bool(out) and not bad, r.where(f), "; ".join(sorted(set(bad))))
    r.floor("kept", n, 1, "circuits with custom gates")


def wired(F, r):
    r.rule("wired", "the parser's, the merger's and the executor's calls hand on the pragma and the custom mark of the definition they belong to, and a missing pragma stops the compilation")
    from . import c19, c22
    from ..report import R
    n = 0
    for part in (c22.driver, c22.merger, c19.instances):
        sub = R(r.prop); part(F, sub); r.paths(sub.npaths)
        for x in sub.analysed: r.analysed.add(x)
        bad = {(v["rule"], v["key"]): v for v in sub.viol}
        for rule, what, ok in sub.obl:
            if not re.search(r"custom|include chain|each file is a node", what): continue
            v = bad.get((rule, re.sub(r"\s+", "_", "%s/%s" % (rule, what)))) if not ok else None; n += 1
            r.check("wired", what, ok, v["where"] if v else "", v["msg"] if v else what)
    r.floor("wired", n, 5, "calls")
