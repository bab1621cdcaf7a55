"""C14: every output of a circuit numbers its signals by the same witness map."""
import re
from .. import bytesio, export, maps
from ..ev import mk, St
from ..exec_model import Anchor, INT, PARAM, STR, SOME, NONE, OK, ERR, TRUE, FALSE, UNIT, build
from ..paths import explore, subterms
from .c13 import EXPORTERS, file_of, plain


def run(F, r):
    r.do(F, numbering, subtrees, compaction, witness_lists, r1cs, symbols, json, layout, encoded, handed_over)


def cases():
    """the circuits, with the map written in two orders of its entries"""
    for name, c in export.samples(): yield name, c


def given(F, tag, c): return export.as_list(F, c) if tag == "list" else (export.as_dag(F, c), ())


def wire_of(tag, c):
    w = export.expected(tag, c)[1]
    return {l: i for i, l in enumerate(w)}


def numbering(F, r):
    r.rule("numbering", "the signals of a template are numbered from one in the order they are declared to the DAG, the signals of a subcomponent after those already numbered")
    KINDS = {"add_output": ("outputs_length",), "add_input": ("inputs_length",), "add_intermediate": ("intermediates_length",)}
    for seq in (["add_output", "add_output", "add_input!", "add_input", "add_intermediate"], ["add_input", "add_intermediate"], ["add_output", "add_input!", "add_input!", "add_intermediate", "add_intermediate"]):
        f = F.find("dag::DAG::add_node"); r.fn(f); dag = build(F, "dag::DAG", None, "dag", one_signal=INT(0), nodes=mk("array"), adjacency=mk("array"), prime=STR("bn128"))
        st = None; E = None; ok = True
        dag, v = through(F, r, "dag::DAG::add_node", dag, [STR("T(1)"), mk("array"), FALSE, FALSE])
        for i, s in enumerate(seq):
            dag, v = through(F, r, "dag::DAG::" + s.rstrip("!"), dag, [STR("s%d" % i)] + ([TRUE if s.endswith("!") else FALSE] if s.startswith("add_input") else []))
        n = node(dag, 0); names = names_of(n); bad = []
        if names != {"s%d" % i: i + 1 for i in range(len(seq))}: bad.append("the numbers are %s" % names)
        for k, pat in (("outputs_length", "add_output"), ("inputs_length", "add_input"), ("intermediates_length", "add_intermediate")):
            w = sum(s.startswith(pat) for s in seq)
            if n[k] is not INT(w): bad.append("%s is %s, of %d" % (k, n[k].a and n[k].a[0], w))
        if n["public_inputs_length"] is not INT(sum(s.endswith("!") for s in seq)): bad.append("the number of public inputs is %s" % (n["public_inputs_length"].a[0],))
        if n["number_of_signals"] is not INT(len(seq)): bad.append("the number of signals is %s" % (n["number_of_signals"].a[0],))
        loc = {x.a[0] for x in n["locals"].a}
        if loc != set(range(1, len(seq) + 1)): bad.append("the local signals are %s" % sorted(loc))
        r.check("numbering", "declare:" + ",".join(x[4:7] + x[-1:] for x in seq), not bad, r.where(f), "; ".join(bad))
    g = F.find("dag::DAG::add_edge"); r.fn(g); bad = []
    c = export.Circuit([export.Node("Sub(7)", {"out": 1, "in": 2, "t": 3}, inputs=1, outputs=1), export.Node("Top(1)", {"o": 1, "a": 2, "m": 3}, inputs=1, outputs=1)], {})
    dag = export.as_dag(F, c)
    for k in range(2): dag, v = through(F, r, "dag::DAG::add_edge", dag, [INT(0), STR("c[%d]" % k), FALSE])
    n = node(dag, 1); names = names_of(n)
    want = {"o": 1, "a": 2, "m": 3, **{"c[%d].%s" % (k, s): 3 * (k + 1) + i for k in range(2) for s, i in (("out", 1), ("in", 2), ("t", 3))}}
    if names != want: bad.append("the names of the subcomponents' signals are numbered %s" % {k: v for k, v in names.items() if want.get(k) != v})
    if n["number_of_signals"] is not INT(9): bad.append("the number of signals is %s, of 9" % (n["number_of_signals"].a[0],))
    es = [dict(e.a[2]) for e in dict(dag.a[2])["adjacency"].a[1].a]
    if [(e["goes_to"].a[0], e["in_number"].a[0], e["out_number"].a[0]) for e in es] != [(0, 3, 6), (0, 6, 9)]: bad.append("the edges cover the signals %s" % [(e["in_number"].a[0], e["out_number"].a[0]) for e in es])
    r.check("numbering", "subcomponents", not bad, r.where(g), "; ".join(bad))


def node(dag, i):
    n = dict(dag.a[2])["nodes"].a[i]
    return dict(n.a[2])


def names_of(n):
    m = n["signal_correspondence"]
    if m.op != "array": raise Anchor("signal_correspondence")
    return {a.a[0].a[0]: a.a[1].a[0] for a in m.a}


def through(F, r, fn, dag, args):
    """the DAG after a call of one of its &mut self methods"""
    f = F.find(fn); r.fn(f); st = St(); st.mem[("G", "dag")] = dag
    ps, E = explore(F, f, [mk("ref", ("G", "dag"), ())] + args, intr=export.intrinsics(), st=st, loop_visits=60, max_paths=400); r.paths(len(ps))
    got = [p.st.mem[("G", "dag")] for p in ps]
    if len(set(got)) != 1: raise Anchor(fn)
    return got[0], ps[0].v


def subtrees(F, r):
    r.rule("trees", "the signals and the constraints of a subcomponent are those of its template, displaced by the number its subtree begins at, whatever its depth")
    for name, c in cases():
        f, ps = export.evaluate(F, r, "dag::witness_producer::produce_witness", [export.as_dag(F, c)], c); bad = []
        for p in ps:
            x = plain(p.E, p.st, p.v)
            if not isinstance(x, list) or any(not isinstance(y, int) for y in x): raise Anchor("produce_witness")
            if x != list(range(c.total())): bad.append("the witness of a circuit with %d signals is %s" % (c.total() - 1, x[:12]))
        r.check("trees", "witness:" + name, bool(ps) and not bad, r.where(f), "; ".join(bad))


def compaction(F, r):
    r.rule("compaction", "after the simplification the remaining signals keep their order and are numbered from zero without holes; forbidden signals and signals of a constraint remain")
    f = F.find("constraint_simplification::rebuild_witness"); r.fn(f)
    T = lambda xs: mk("array", *[INT(x) for x in xs])
    for i, (n, gone, keep, used) in enumerate([(8, [], [0, 1], [2, 3, 4, 5, 6, 7]), (8, [3], [0, 1], [2, 4, 5, 6, 7]), (9, [2, 3, 6], [0, 1, 4], [5, 8]), (9, [5, 8], [0, 1, 2], [3]), (6, [], [0, 1, 2], []), (12, [4, 7, 10], [0, 1, 2, 3], [5, 9, 11])]):
        st = St(); st.mem[("G", "deleted")] = T(gone)
        m = mk("array", *[mk("tuple", INT(x), mk("array", INT(0))) for x in used])
        ps, E = explore(F, f, [INT(n), mk("ref", ("G", "deleted"), ()), T(keep), m, TRUE], intr=export.intrinsics(), st=st, loop_visits=60, max_paths=400); r.paths(len(ps)); bad = []
        left = [x for x in range(n) if x not in gone and (x in keep or x in used)]
        for p in ps:
            x = plain(E, p.st, p.v)
            if not isinstance(x, list): raise Anchor("rebuild_witness")
            d = dict(x); lost = set(left) - set(d)
            if lost: bad.append("signals %s are lost" % sorted(lost))
            elif sorted(d.values()) != list(range(len(d))): bad.append("the numbers are %s" % sorted(d.values()))
            elif [d[k] for k in sorted(d)] != sorted(d.values()): bad.append("the order of the signals changes: %s" % sorted(d.items()))
            elif set(d) - set(left): bad.append("removed signals keep a number: %s" % sorted(set(d) - set(left)))
            dl = p.st.mem[("G", "deleted")]
            if not bad and {y.a[0] for y in dl.a} != set(range(n)) - set(left): bad.append("the removed signals are said to be %s" % sorted(y.a[0] for y in dl.a))
        r.check("compaction", "case%d" % i, bool(ps) and not bad, r.where(f), "; ".join(bad))


def witness_lists(F, r):
    r.rule("witness", "the list given to the witness program has at each number the signal that the map sends there")
    for name, c in cases():
        lst, cons = export.as_list(F, c)
        f, ps = export.evaluate(F, r, "constraint_list::ConstraintList::get_witness_as_vec", [lst], c, cons); bad = []
        for p in ps:
            x = plain(p.E, p.st, p.v)
            if not isinstance(x, list): raise Anchor("get_witness_as_vec")
            if x != c.witness(): bad.append("%s where the map says %s" % (x[:12], c.witness()[:12]))
        r.check("witness", name, bool(ps) and not bad, r.where(f), "; ".join(bad))


def r1cs(F, r):
    r.rule("r1cs", "the wires of the constraints and of the wire-to-label section are those of the map")
    n = 0
    for name, c in cases():
        for tag, fn in EXPORTERS:
            f, ps, out = file_of(F, r, tag, fn, c, True, name); bad = []
            cons, wit = export.expected(tag, c); used, app = c.gates(); at = wire_of(tag, c)
            if not out: r.notes.append("r1cs: %s:%s not decided" % (tag, name)); continue
            for p, x in out:
                if isinstance(x, str): continue                        # C13
                n += 1
                if x["map"] != wit: bad.append("the labels are %s where the map has %s" % (x["map"][:12], wit[:12]))
                if not export.same_constraints(x["cs"], cons): bad.append("the constraints are not about the wires of their signals")
                if sorted(map(tuple, [tuple(y[1]) for y in x["applied"]])) != sorted(tuple(at[s] for s in ss) for i, ss in app): bad.append("the signals of the custom gates are written as %s" % x["applied"])
            r.check("r1cs", "%s:%s" % (tag, name), not bad, r.where(f), "; ".join(sorted(set(bad))))
    r.floor("r1cs", n, 6, "files")


def symbols(F, r):
    r.rule("sym", "the symbol file has a line for each signal: its label, its wire (-1 when it was removed), its template and its qualified name")
    n = 0
    for name, c in cases():
        for tag, fn in (("list", "constraint_list::sym_porting::port_sym"), ("dag", "dag::sym_porting::write")):
            x, cons = given(F, tag, c); f, ps = export.evaluate(F, r, fn, [x, STR("out.sym")], c, cons); bad = []; at = wire_of(tag, c)
            want = {"%d,%d,%d,%s" % (l, at.get(l, -1), k, nm) for l, (nm, k) in c.labels().items()}
            for p in [p for p in ps if p.v.op == "adt" and p.v.a[1] == "Ok"]:
                b = export.written(p)
                if b is None or any(y.op != "int" for y in b): r.notes.append("sym: %s:%s not decided" % (tag, name)); continue
                n += 1; got = bytes(y.a[0] for y in b).decode(); ls = got.split("\n")
                if ls.pop() != "": bad.append("the last line is not ended")
                if sorted(ls) != sorted(want): bad.append("lines %s are written where %s are expected" % (sorted(set(ls) - want)[:3], sorted(want - set(ls))[:3]) if set(ls) != want else "lines are repeated")
            r.check("sym", "%s:%s" % (tag, name), bool(ps) and not bad, r.where(f), "; ".join(sorted(set(bad))))
    r.floor("sym", n, 6, "files")


def jsons():
    def index_mut(E, st, name, args, fn, line):
        k = E.deref(st, args[1]); root, path = maps.loc(E, st, args[0]); m = E.deref(st, args[0])
        if m.op != "array": return NotImplemented
        E.store_through(st, args[0], mk("array", *(m.a + (mk("tuple", k, UNIT),))))
        return [(st, mk("ref", root, path + (("i", INT(len(m.a))), ("f", "1"))))]
    same = lambda E, st, name, args, fn, line: [(st, E.deref(st, args[0]))]

    def wr(E, st, name, args, fn, line):
        E.event(st, "json", (E.deref(st, args[1]),), line, fn); return [(st, OK(UNIT))]
    return {r"JsonValue::new_object$": lambda E, st, name, args, fn, line: [(st, mk("array"))], r"JsonValue as core::ops::index::IndexMut<.*>>::index_mut$": index_mut,
            r"Into<json::(value::)?JsonValue>>::into$|JsonValue as core::convert::From<.*>>::from$": same, r"json::(value::)?JsonValue as .*ToString>::to_string$|JsonValue::dump$": same, r"String::as_str$": same,
            r"json_writer::ConstraintJSON::write_constraint$": wr, r"build_constraints_file$": lambda E, st, name, args, fn, line: [(st, OK(mk("jsonfile")))], r"ConstraintJSON::end$": lambda E, st, name, args, fn, line: (E.event(st, "json_end", (), line, fn), [(st, OK(UNIT))])[1]}


def json(F, r):
    r.rule("json", "the JSON constraints are those of the r1cs file, with the same wires, in the order A, B, C")
    n = 0
    for name, c in cases():
        for tag, fn in (("list", "constraint_list::json_porting::port_constraints"), ("dag", "dag::json_porting::port_constraints")):
            x, cons = given(F, tag, c); args = [PARAM("storage"), dict(x.a[2])["signal_map"], PARAM("writer")] if tag == "list" else [x, PARAM("writer")]
            f, ps = export.evaluate(F, r, fn, args, c, cons, None, jsons()); bad = []; want = export.expected(tag, c)[0]
            for p in [p for p in ps if p.v.op == "adt" and p.v.a[1] == "Ok"]:
                got = []
                for e in p.events(r"^json$"):
                    v = e[1][0]
                    while v.op == "disp": v = v.a[0]
                    if v.op == "adt" and v.a[1] == "Array": v = p.E.deref(p.st, dict(v.a[2])["0"])
                    ms = [p.E.deref(p.st, m) for m in v.a] if v.op == "array" else []
                    if len(ms) != 3 or any(m.op != "array" for m in ms): raise Anchor("json constraint")
                    got.append([{int(q.a[0].a[0]): q.a[1].a[0] if q.a[1].op == "decimal" else q.a[1] for q in m.a} for m in ms])
                n += 1
                if not export.same_constraints(got, want): bad.append("the constraints of the JSON file are not those of the circuit: %s" % [x for x in got if x not in want][:1])
                if not p.events(r"^json_end$"): bad.append("the file is not ended")
            r.check("json", "%s:%s" % (tag, name), bool(ps) and not bad, r.where(f), "; ".join(sorted(set(bad)))[:600])
    r.floor("json", n, 6, "files")


def layout(F, r):
    r.rule("layout", "a template declares its outputs first, then its public inputs, its private inputs and its intermediate signals, each element by element in order")
    def wire(nm, dims=()): return build(F, "type_definitions::WireData", None, "w", name=STR(nm), length=mk("array", *[INT(d) for d in dims]), is_bus=FALSE)
    f = F.find("ExecutedTemplate::build_wires"); r.fn(f)
    ev = {r"dag::DAG::add_(input|output|intermediate)$": lambda E, st, name, args, fn, line: (E.event(st, "sig:" + name.rsplit("_", 1)[1], tuple(E.deref(st, a) for a in args[1:]), line, fn), [(st, UNIT)])[1]}
    for i, (outs, ins, mid, pub) in enumerate((([("o", ()), ("q", (2,))], [("a", ()), ("p", (2, 2)), ("b", ())], [("m", (2,))], ["p"]), ([], [("a", ()), ("b", ())], [], ["b", "a"]), ([("o", ())], [("a", (0,)), ("c", ())], [("m", ()), ("n", ())], []))):
        me = build(F, "ExecutedTemplate", None, "t", outputs=mk("array", *[wire(*w) for w in outs]), inputs=mk("array", *[wire(*w) for w in ins]), intermediates=mk("array", *[wire(*w) for w in mid]), public_inputs=mk("array", *[STR(x) for x in pub]))
        ps, E = explore(F, f, [me, PARAM("dag"), mk("array")], intr={**ev, **export.intrinsics()}, loop_visits=60, max_paths=400, rec=6); r.paths(len(ps)); bad = []

        def names(w):
            out = [w[0]]
            for d in w[1]: out = ["%s[%d]" % (n, k) for n in out for k in range(d)]
            return out
        want = [("output", n) for w in outs for n in names(w)] + [("input", n, True) for w in ins if w[0] in pub for n in names(w)] + [("input", n, False) for w in ins if w[0] not in pub for n in names(w)] + [("intermediate", n) for w in mid for n in names(w)]
        for p in ps:
            got = [(e[0][4:],) + tuple(x.a[0] if x.op in ("str", "int") else x is TRUE for x in e[1]) for e in p.events(r"^sig:")]
            got = [(g[0], g[1], bool(g[2])) if len(g) == 3 else g for g in got]
            if got != want: bad.append("the signals are declared as %s" % [g[:2] for g in got][:10])
        r.check("layout", "case%d" % i, bool(ps) and not bad, r.where(f), "; ".join(bad)[:400])


def mapped(F, r, c):
    """the simplifier that the DAG of c is turned into: [(path, its fields)]"""
    def run(E, st, name, args, fn, line):
        E.event(st, "simplifier", (E.deref(st, args[0]),), line, fn); return [(st, PARAM("list"))]
    flags = build(F, "dag::SimplificationFlags", None, "fl", prime=STR("bn128"))
    I = {r"Simplifier::simplify_constraints$": run, r"SystemTime::now$|SystemTime::elapsed$|Duration::as_millis$|Result::<.*>::unwrap$": lambda E, st, name, args, fn, line: [(st, PARAM("time"))] if "unwrap" not in name else NotImplemented}
    f, ps = export.evaluate(F, r, "dag::map_to_constraint_list::map", [export.as_dag(F, c), flags], c, (), None, I); out = []
    for p in ps:
        e = p.events(r"^simplifier$")
        if len(e) != 1 or e[0][1][0].op != "adt": raise Anchor("Simplifier")
        out.append((p, {k: p.E.deref(p.st, v) for k, v in e[0][1][0].a[2]}))
    return f, out


def encoded(F, r):
    r.rule("encoded", "the simplified exporter is given the templates, subcomponents, offsets and names of the DAG")
    n = 0
    for name, c in cases():
        try: f, out = mapped(F, r, c)
        except Anchor as e: r.notes.append("encoded: %s not decided (%s)" % (name, e)); continue
        bad = []; want = export.as_list(F, c)[0]; we = dict(want.a[2])["dag_encoding"]; wd = dict(we.a[2])
        for p, d in out:
            n += 1; en = d["dag_encoding"]
            if en.op != "adt": raise Anchor("dag_encoding")
            g = {k: p.E.deref(p.st, v) for k, v in en.a[2]}
            if g["init"] is not wd["init"]: bad.append("the root is node %s" % g["init"])
            if g["nodes"].op != "array" or g["adjacency"].op != "array": raise Anchor("dag_encoding")
            for i, (a, b) in enumerate(zip(g["nodes"].a, wd["nodes"].a)):
                a, b = dict(a.a[2]), dict(b.a[2]); nm = c.nodes[i].name
                for k in ("id", "name", "parameters", "ordered_signals", "is_custom_gate"):
                    if p.E.deref(p.st, a[k]) is not b[k]: bad.append("%s of %s is %s, of %s" % (k, nm, str(a[k])[:80], str(b[k])[:80]))
                if set(p.E.deref(p.st, a["signals"]).a) != set(b["signals"].a): bad.append("the signals of %s are %s" % (nm, str(a["signals"])[:120]))
            if len(g["nodes"].a) != len(c.nodes): bad.append("%d templates are encoded, of %d" % (len(g["nodes"].a), len(c.nodes)))
            if g["adjacency"] is not wd["adjacency"]: bad.append("the subcomponents are placed at %s" % str(g["adjacency"])[:200])
            if d["max_signal"] is not INT(c.total()): bad.append("%s signals are announced, of %d" % (d["max_signal"].a[0], c.total()))
            m = c.nodes[c.main]
            for k, w in (("no_public_inputs", m.public), ("no_public_outputs", m.outputs), ("no_private_inputs", m.inputs - m.public)):
                if d[k] is not INT(w): bad.append("%s is %s, of %d" % (k, d[k], w))
        r.check("encoded", name, bool(out) and not bad, r.where(f), "; ".join(sorted(set(bad)))[:500])
    r.floor("encoded", n, 3, "circuits")


def handed_over(F, r):
    r.rule("handed", "the witness program is given the list of the exporter that writes the other outputs")
    for fn, prod in (("constraint_generation::sync_dag_and_vcp", r"DAG::produce_witness$"), ("constraint_generation::simplification_process", r"get_witness_as_vec$")):
        f = F.find(fn); r.fn(f); lists = []

        def make(E, st, name, args, fn_, line): return [(st, mk("witness_of", E.deref(st, args[0])))]

        def add(E, st, name, args, fn_, line): E.event(st, "given", (E.deref(st, args[1]),), line, fn_); return [(st, UNIT)]
        ps, E = explore(F, f, [PARAM("a%d" % i) for i in range(f.nargs)], intr={r"DAG::produce_witness$|get_witness_as_vec$": make, r"add_witness_list$": add, r"DAG::map_to_list$": lambda E, st, name, args, fn_, line: [(st, PARAM("list"))], **export.intrinsics()}, loop_visits=4, max_paths=200); r.paths(len(ps))
        bad = ["the witness program is not given the list"] if not ps else []
        src = PARAM("list") if "simplif" in fn else None
        for p in ps:
            e = p.events(r"^given$")
            if len(e) != 1: bad.append("the witness program is given %d lists" % len(e)); continue
            t = e[0][1][0]; ws = [x for x in subterms(t) if x.op == "witness_of"]
            if not ws: bad.append("the list given is not the exporter's")
            elif src is not None and ws[0].a[0] is not src or src is None and ws[0].a[0] not in [PARAM("a%d" % i) for i in range(f.nargs)]: bad.append("the list is that of another circuit")
            if src is not None and p.v is not src: bad.append("the exporter returned is not the one whose list was given")
        r.check("handed", fn.rsplit("::", 1)[1], not bad, r.where(f), "; ".join(sorted(set(bad))))
