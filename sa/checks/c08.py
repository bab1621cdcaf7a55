"""C08: every static check runs on every template, function and bus."""
from ..visit import *
from ..pipeline_types import explore_check
from .c04 import static_tags, static_statements

FORMS = lambda F, k: [v[0] for v in F.adts[adt_id(F, k)]["variants"]]


def run(F, r):
    r.do(F, pipeline, naming, main, returns, all_return, functions, placement, buses, custom, symbols, types, type_calls, static_tags, static_statements)


# ---------------------------------------------------------------- which analysis sees which definition
TABLE = {"template": ("free_of_returns", "check_signal_correctness", "reduce_template", "unknown_known_analysis"),
         "function": ("free_of_template_elements", "all_paths_with_return_check", "handle_function_constants", "reduce_function"),
         "bus": ("free_of_invalid_statements", "handle_bus_constants", "reduce_bus", "unknown_known_analysis")}
WHOLE = ("check_naming_correctness", "inference", "type_check")


def pipeline(F, r):
    r.rule("pipeline", "on a program in which no analysis finds anything, every analysis of the table is applied to each of the definitions of its kind (two of each), "
                       "custom-gate restrictions to exactly the custom templates, and only definitions the type checker did not reach are removed")
    f, ps, an, E = explore_check(F, defs=2, fail=lambda n: False, max_paths=20000)
    r.fn(f); r.paths(len(ps)); r.floor("pipeline", len(an), 10, "analyses called by check_types")
    names = {n.rsplit("::", 1)[-1] for n in an}
    bad = {}
    known = {k: {a for a in v if a in names} for k, v in TABLE.items()}
    for k in TABLE:
        for a in TABLE[k]:
            r.check("pipeline", "%s exists" % a, a in names, r.where(f), "check_types no longer calls the analysis %s of every %s" % (a, k)) if F_has(F, a) else r.notes.append("analysis %s not found: undecided" % a)
    for a in WHOLE:
        if F_has(F, a): r.check("pipeline", "%s exists" % a, a in names, r.where(f), "check_types no longer calls %s" % a)
    n = 0
    for p in ps:
        if p.variant() != "Ok": continue
        n += 1
        done = {}
        for e in p.evs:
            if e[0] in an: done.setdefault(e[0].rsplit("::", 1)[-1], []).append(e[1])
        gone = {x.a[0] for e in p.events("^removed$") for x in e[1] if x.op in ("param", "str") and not x.a[0].startswith("program")}
        reach = {}
        for c in p.conds:
            if c[0] == "bool":
                t, v = (c[1].a[0], not c[2]) if c[1].op == "not" else (c[1], c[2])
                if t.op == "call" and t.a[0].endswith("::contains") and contains(t, lambda x: x.op == "field" and x.a[1] == "reached"):
                    for x in subterms(t.a[-1]):
                        if x.op == "param": reach[x.a[0]] = v
        for k, fs in TABLE.items():
            for i in range(2):
                nm = "%s%d" % (k, i)
                for a in known[k]:
                    if a == "unknown_known_analysis" and nm in gone: continue
                    hit = any(any(x.op == "param" and x.a[0] in (nm, nm + ".data") for t in v for x in subterms(t)) for v in done.get(a, []))
                    if not hit: bad.setdefault((a, k), p)
                if nm in gone and reach.get(nm): bad.setdefault(("removed", k), p)
        for a in WHOLE:
            if a in names and a not in done: bad.setdefault((a, "program"), p)
        gates = {}
        for c in p.conds:
            if c[0] == "bool":
                t, v = (c[1].a[0], not c[2]) if c[1].op == "not" else (c[1], c[2])
                if contains(t, lambda x: x.op == "field" and x.a[1] == "is_custom_gate" or x.op == "call" and x.a[0].endswith("is_custom_gate")):
                    for x in subterms(t):
                        if x.op == "param": gates[x.a[0].replace(".data", "")] = v
        for g, v in gates.items():
            hit = any(contains(t, PARAM(g)) or contains(t, PARAM(g + ".data")) for a in done.get("custom_gate_analysis", []) for t in a)
            if v and g not in gone and not hit: bad.setdefault(("custom_gate_analysis", "custom template"), p)
    for k, fs in TABLE.items():
        for a in known[k]:
            p = bad.get((a, k)); r.check("pipeline", "%s on every %s" % (a, k), p is None, r.where(f), "check_types accepts a program without applying %s to one of its %ss: %s" % (a, k, p and p.show()))
        r.check("pipeline", "%s removal" % k, ("removed", k) not in bad, r.where(f), "a %s the type checker reached is removed from the program" % k)
    for a in WHOLE:
        r.check("pipeline", a, (a, "program") not in bad, r.where(f), "check_types accepts a program without running %s" % a)
    r.check("pipeline", "custom gates", ("custom_gate_analysis", "custom template") not in bad, r.where(f), "a custom template is not checked against the custom-template restrictions")
    r.floor("pipeline", n, 1, "accepting paths of check_types")


def F_has(F, name):
    return any(g.id.rsplit("::", 1)[-1] == name for g in F.fns.values() if g.crate == "type_analysis")


def entry_handlers(F, V, fn, args, body, intr=None, **kw):
    """[P] of an analysis' entry function; events "visit" (body term, handler)"""
    f = F.find(fn)
    V.root = mk("noroot"); V.kids = body
    ps, E = explore(F, f, args, intr={**V.I, **(intr or {})}, loop_visits=5, max_paths=4000, **kw)
    return f, ps


DATA = {r"(template|function|bus)_data::\w+::get_body$": pure(lambda x: mk("body", x)), r"(template|function|bus)_data::\w+::get_body_as_vec$": pure(lambda x: mk("array", PARAM("body0"), PARAM("body1"))),
        r"(template|function|bus)_data::\w+::get_(file_id|name|param_location|num_of_params)$": pure(lambda x: mk("data", x))}
BODY = {"body": mk("body", PARAM("def")), "b0": PARAM("body0"), "b1": PARAM("body1")}


def reporting(E, st, name, args, fn, line, V, g):
    """a visit that either reports nothing or adds a report to the collection it was given"""
    return None


def enters(F, r, rule, V, fn, extra=None, nargs=None):
    """the entry function hands the whole body of the definition to the pass and fails exactly when the pass reported something; returns the handler"""
    f = F.find(fn); r.fn(f)

    def res(E, st, name, child, vals, ret): return None
    base = dict(V.I)
    out = set()

    def visit(E, st, name, args, fn_, line):
        g = V.fns[name]; vals = tuple(E.deref(st, a) for a in args)
        hit = [v for i, v in enumerate(vals) if AST.search(g.locals[i + 1][0]) and v in BODY.values()]
        if not hit: return NotImplemented
        E.event(st, "visit", (hit[0], STR(name)) + vals, line, fn_)
        outs = []
        if g.locals[0][0] == "bool":
            s2 = st.fork(); E.event(s2, "found", (), line, fn_)
            return [(st, TRUE), (s2, FALSE)]
        for i, a in enumerate(args):
            if a.op == "ref" and re.search(r"Vec<.*Report>", g.locals[i + 1][0]):
                cur = E.deref(st, a)
                if cur.op == "array":
                    s2 = st.fork(); E.store_through(s2, a, mk("array", *(cur.a + (mk("report"),)))); E.event(s2, "found", (), line, fn_)
                    outs = [(st, UNIT), (s2, UNIT)]
        return outs or [(st, UNIT if g.locals[0][0] == "()" else mk("res", STR(name)))]
    I = {**base, **DATA, **(extra or {})}
    for n in V.fns: I["^" + re.escape(n) + "$"] = visit
    args = [PARAM("def")] + [PARAM("p%d" % i) for i in range(1, f.nargs)]
    ps, E = explore(F, f, args, intr=I, loop_visits=5)
    r.paths(len(ps))
    for p in ps:
        got = set(visited(p)); found = bool(p.events("^found$"))
        whole = BODY["body"] in got or {BODY["b0"], BODY["b1"]} <= got
        r.check(rule, "%s: whole body" % fn, whole or found, r.where(f), "%s does not look at the whole body of the definition" % fn)
        if p.variant() in ("Ok", "Err"):
            r.check(rule, "%s: verdict" % fn, (p.variant() == "Err") == found, r.where(f), "%s %s" % (fn, "accepts a definition its pass reported" if found else "rejects a definition nothing was reported for"))
        for e in p.events("^visit$"): out.add(e[1][1].a[0])
    r.floor(rule, len(out), 1, "handler of %s" % fn)
    hs = {}
    for n in out: hs["Statement"] = n
    return hs["Statement"]


def errs(p): return [e for e in p.events("^error$")]


def forms(F, r, rule, V, fn, kind, skip=(), need=None, **kw):
    """every child of every form is visited on every path that reports nothing"""
    n = 0
    f = F.find(fn); r.fn(f)
    for v in FORMS(F, kind):
        if v in skip: continue
        ps, kids = V.run(fn, kind, v, **kw)
        r.paths(len(ps))
        want = set(kids.values()) if need is None else {k for nm, k in kids.items() if need(v, nm)}
        miss = set()
        for p in ps:
            n += 1
            if errs(p) or p.events("^failed$"): continue
            miss |= want - set(visited(p))
        for k in sorted(want, key=repr):
            r.check(rule, "%s %s" % (v, k.a[0]), k not in miss, r.where(f), "%s does not look at %s of %s" % (f.id.rsplit("::", 2)[-2] + "::" + f.id.rsplit("::", 1)[-1], k.a[0][2:], v))
    return n


def reports(F, r, rule, V, fn, kind, variant, expect, what, args=None, **over):
    """does handling this node report an error: on every path (True), on none (False)"""
    ps, kids = V.run(fn, kind, variant, args=args, **over)
    r.paths(len(ps)); f = F.find(fn)
    ps = [p for p in ps if not p.events("^failed$")]
    got = [bool(errs(p)) for p in ps]
    if expect and not ps: r.ok(rule, what); return ps, kids
    r.check(rule, what, bool(got) and all(g == expect for g in got), r.where(f), "%s: %s %s" % (f.id.rsplit("::", 2)[-2], what, "is not reported" if expect else "is reported although it is allowed"))
    return ps, kids


def vt(F, v, s=None, tags=None):
    A = adt_id(F, "VariableType"); var = next(x for x in F.adts[A]["variants"] if x[0] == v)
    fs = []
    for f in var[2]:
        ty = f[1]
        if "SignalType" in ty: fs.append((f[0], unit_variant(F, "ast::SignalType", s or "Intermediate")))
        elif "Vec<" in ty: fs.append((f[0], tags or mk("array")))
        else: fs.append((f[0], STR("B")))
    return ADT(A, v, tuple(fs))


def op(F, v): return unit_variant(F, "AssignOp", v)


OPS = ("AssignVar", "AssignSignal", "AssignConstraintSignal")


# ---------------------------------------------------------------- no return in templates
def returns(F, r):
    r.rule("returns", "a return anywhere in a template, however deeply nested, is an error; nothing else is")
    V = Visits(F, r"no_returns_in_template::")
    h = enters(F, r, "returns", V, "no_returns_in_template::free_of_returns")
    forms(F, r, "returns", V, h, "Statement", skip=("InitializationBlock",), need=lambda v, nm: v in ("IfThenElse", "While", "Block") and nm != "cond")
    for v in FORMS(F, "Statement"): reports(F, r, "returns", V, h, "Statement", v, v == "Return", "%s in a template" % v)


def all_return(F, r):
    r.rule("all-paths", "a function is accepted only if every path returns: a return, a block with a statement that always returns, a conditional both of whose branches always return; never a loop")
    V = Visits(F, r"functions_all_paths_with_return_statement::")
    h = enters(F, r, "all-paths", V, "functions_all_paths_with_return_statement::all_paths_with_return_check", extra={r"Report::error$": pure(lambda *a: mk("report"))})
    f = F.find(h)

    def says(p): return {c[1]: c[2] for c in p.conds if c[0] == "child"}
    for v in FORMS(F, "Statement"):
        for els in ((True, False) if v == "IfThenElse" else (True,)):
            ps, kids = V.run(h, "Statement", v, els=els)
            r.paths(len(ps))
            for p in ps:
                s = says(p)
                if p.v.op != "bool": r.notes.append("all-paths: %s undecided" % v); continue
                got = p.v.a[0]
                if v == "Return": want = True
                elif v == "Block": want = any(s.get(k) for k in kids.values())
                elif v == "IfThenElse": want = els and all(s.get(kids[k]) for k in ("if_case", "else_case"))
                else: want = False
                r.check("all-paths", "%s%s" % (v, "" if els else " without else"), got == want or want and not got and not says(p), r.where(f),
                        "a %s is said to %sreturn on all paths when its parts say %s" % (v, "" if got else "not ", sorted((k.a[0][2:], x) for k, x in s.items())))


# ---------------------------------------------------------------- functions free of template elements
def functions(F, r):
    r.rule("function-body", "a function contains no signals, components or buses, no signal assignment or constraint, no access with `.`, no call of anything but a function; every nested part is looked at")
    V = Visits(F, r"functions_free_of_template_elements::")
    h = enters(F, r, "function-body", V, "functions_free_of_template_elements::free_of_template_elements")
    ps, k = V.run(h, "Statement", "Return")
    hs = {e[1][1].a[0] for p in ps for e in p.events("^visit$")}
    if len(hs) != 1: raise Anchor("expression handler of functions_free_of_template_elements")
    x = hs.pop()
    skipS = ("MultSubstitution",)
    forms(F, r, "function-body", V, h, "Statement", skip=skipS, access="A.A")
    forms(F, r, "function-body", V, x, "Expression", skip=("Tuple", "AnonymousComp"))
    names = {"function_names": mk("array", STR("f"))}
    R = lambda fn, kind, v, want, what, **o: reports(F, r, "function-body", V, fn, kind, v, want, what, args=names, **o)
    for t, s in (("Var", None), ("Signal", "Input"), ("Signal", "Output"), ("Signal", "Intermediate"), ("Component", None), ("AnonymousComponent", None), ("Bus", "Input"), ("Bus", "Output"), ("Bus", "Intermediate")):
        R(h, "Statement", "Declaration", t != "Var", "declaration of %s %s in a function" % (t, s or ""), xtype=vt(F, t, s))
    R(h, "Statement", "InitializationBlock", False, "variable initialisation in a function", xtype=vt(F, "Var"))
    for o in OPS:
        for st in ("Substitution", "UnderscoreSubstitution"):
            R(h, "Statement", st, o != "AssignVar", "%s with %s in a function" % (st, o), op=op(F, o), **({"access": "AA"} if st == "Substitution" else {}))
    R(h, "Statement", "Substitution", True, "assignment to a field in a function", op=op(F, "AssignVar"), access="A.")
    R(h, "Statement", "ConstraintEquality", True, "=== in a function")
    for st in ("IfThenElse", "While", "Block", "Return", "LogCall", "Assert"): R(h, "Statement", st, False, "%s in a function" % st)
    R(x, "Expression", "Variable", True, "access with . in a function", access=".")
    R(x, "Expression", "Variable", False, "variable with indices in a function", access="AA")
    R(x, "Expression", "Call", False, "call of a function in a function", id=STR("f"))
    R(x, "Expression", "Call", True, "call of a template in a function", id=STR("t"))
    R(x, "Expression", "BusCall", True, "bus instantiation in a function")
    for v in ("InfixOp", "PrefixOp", "InlineSwitchOp", "Number", "ArrayInLine", "UniformArray"): R(x, "Expression", v, False, "%s in a function" % v)


# ---------------------------------------------------------------- where signals, buses and components are declared
def placement(F, r):
    r.rule("placement", "signals, buses and components are not declared inside a loop, at any depth of blocks, conditionals and loops; elsewhere they are allowed")
    V = Visits(F, r"signal_declaration_analysis::")
    h = enters(F, r, "placement", V, "signal_declaration_analysis::check_signal_correctness")
    f = F.find(h)
    flag = [i for i in range(f.nargs) if f.locals[i + 1][0] == "bool"]
    if len(flag) != 1: raise Anchor("placement: one flag expected")
    i = flag[0]; nm = f.locals[i + 1][1]
    top = set()
    I2 = {}
    g = F.find("signal_declaration_analysis::check_signal_correctness")
    V.root = mk("noroot"); V.kids = BODY
    ps, E = explore(F, g, [PARAM("def")] + [PARAM("p%d" % k) for k in range(1, g.nargs)], intr={**V.I, **DATA}, loop_visits=5)
    for p in ps:
        for e in p.events("^visit$"): top.add(e[1][2 + i])
    if len(top) != 1 or next(iter(top)).op != "bool": raise Anchor("placement: value of the flag at the top")
    T0 = top.pop(); In = neg(T0)
    forms(F, r, "placement", V, h, "Statement", skip=("InitializationBlock",), need=lambda v, nm: v in ("IfThenElse", "While", "Block") and nm != "cond")
    for v in ("IfThenElse", "While", "Block"):
        for start in (T0, In):
            ps, kids = V.run(h, "Statement", v, args={nm: start})
            want = In if v == "While" else start
            ok = all(e[1][2 + i] is want for p in ps for e in p.events("^visit$"))
            r.check("placement", "%s %s a loop" % (v, "outside" if start is T0 else "inside"), ok, r.where(f), "the body of a %s %s a loop is treated as %s a loop" % (v, "outside" if start is T0 else "inside", "outside" if want is In else "inside"))
    for t, s in (("Var", None), ("Signal", "Input"), ("Signal", "Output"), ("Signal", "Intermediate"), ("Component", None), ("Bus", "Input"), ("Bus", "Output"), ("Bus", "Intermediate")):
        for start in (T0, In):
            reports(F, r, "placement", V, h, "Statement", "InitializationBlock", start is In and t != "Var", "declaration of %s %s %s a loop" % (t, s or "", "outside" if start is T0 else "inside"), args={nm: start}, xtype=vt(F, t, s))


# ---------------------------------------------------------------- buses
def buses(F, r):
    r.rule("bus-body", "a bus only declares intermediate signals and buses; expressions in it only call functions and use no `.`; every nested part is looked at")
    V = Visits(F, r"buses_free_of_invalid_statements::")
    h = enters(F, r, "bus-body", V, "buses_free_of_invalid_statements::free_of_invalid_statements")
    ps, k = V.run(h, "Statement", "Declaration", xtype=vt(F, "Signal", "Intermediate"))
    hs = {e[1][1].a[0] for p in ps for e in p.events("^visit$")}
    if len(hs) != 1: raise Anchor("expression handler of buses_free_of_invalid_statements")
    x = hs.pop()
    names = {"function_names": mk("array", STR("f"))}
    bus = {"n": None}
    forms(F, r, "bus-body", V, h, "Statement", skip=("MultSubstitution", "Substitution", "UnderscoreSubstitution"))
    forms(F, r, "bus-body", V, x, "Expression", skip=("Tuple", "AnonymousComp"))
    R = lambda fn, kind, v, want, what, **o: reports(F, r, "bus-body", V, fn, kind, v, want, what, args=names, **o)
    for v in ("IfThenElse", "While", "ConstraintEquality", "LogCall", "Assert", "Return"): R(h, "Statement", v, True, "%s in a bus" % v)
    for v in ("Block", "InitializationBlock"): R(h, "Statement", v, False, "%s in a bus" % v)
    for t, s in (("Var", None), ("Signal", "Input"), ("Signal", "Output"), ("Signal", "Intermediate"), ("Component", None), ("AnonymousComponent", None), ("Bus", "Input"), ("Bus", "Output"), ("Bus", "Intermediate")):
        R(h, "Statement", "Declaration", s != "Intermediate", "declaration of %s %s in a bus" % (t, s or ""), xtype=vt(F, t, s))
    for st in ("Substitution", "UnderscoreSubstitution"):
        num, _ = children(F, "Expression", "Number"); inf, _ = children(F, "Expression", "InfixOp"); call, _ = children(F, "Expression", "Call")
        for nm, e in (("number", num), ("operation", inf), ("call", call)):
            R(h, "Statement", st, True, "%s of a %s in a bus" % (st, nm), rhe=e, **({"access": "AA"} if st == "Substitution" else {}))
        bc, _ = children(F, "Expression", "BusCall")
        R(h, "Statement", st, False, "%s of a bus instance in a bus" % st, rhe=bc, **({"access": "AA"} if st == "Substitution" else {}))
    R(x, "Expression", "Variable", True, "access with . in a bus", access=".")
    R(x, "Expression", "Variable", False, "variable with indices in a bus", access="AA")
    R(x, "Expression", "Call", False, "call of a function in a bus", id=STR("f"))
    R(x, "Expression", "Call", True, "call of a template in a bus", id=STR("t"))
    R(x, "Expression", "BusCall", True, "bus instance inside an expression of a bus")
    for v in ("InfixOp", "PrefixOp", "InlineSwitchOp", "Number", "ArrayInLine", "UniformArray"): R(x, "Expression", v, False, "%s in a bus" % v)


# ---------------------------------------------------------------- custom templates
def custom(F, r):
    r.rule("custom-gate", "a custom template declares no component and adds no constraint, at any depth")
    V = Visits(F, r"custom_gate_analysis::")
    f = F.find("custom_gate_analysis::custom_gate_analysis") if len([1 for g in V.fns if g.endswith("custom_gate_analysis::custom_gate_analysis")]) == 1 else None
    tops = [g for g in V.fns.values() if g.vis == "pub" or "Result" in g.locals[0][0]]
    if len(tops) != 1: raise Anchor("custom gate analysis entry")
    t = tops[0]; r.fn(t)
    hand = set(); body = PARAM("body")
    for ok in (0, 1, 2):
        pass

    def visit(E, st, name, args, fn_, line):
        if name == t.id: return NotImplemented
        g = V.fns[name]; vals = [E.deref(st, a) for a in args]
        if not any(v is body for v in vals): return NotImplemented
        hand.add(name); outs = [(st, UNIT)]
        for i, a in enumerate(args):
            if a.op == "ref" and re.search(r"Vec<.*Report>", g.locals[i + 1][0]):
                s2 = st.fork(); E.store_through(s2, a, mk("array", mk("report", STR(g.locals[i + 1][1] or str(i))))); E.event(s2, "found", (STR(g.locals[i + 1][1] or str(i)),), line, fn_); outs.append((s2, UNIT))
        return outs
    I = dict(V.I)
    for n in V.fns: I["^" + re.escape(n) + "$"] = visit
    vals = [body if AST.search(t.locals[i + 1][0]) else PARAM("p%d" % i) for i in range(t.nargs)]
    ps, E = explore(F, t, vals, intr=I, loop_visits=5); r.paths(len(ps))
    if len(hand) != 1: raise Anchor("custom gate handler")
    h = hand.pop(); g = F.find(h)
    # the collection that makes the analysis fail
    bad = {e[1][0].a[0] for p in ps if p.variant() == "Err" for e in p.events("^found$")}
    good = {e[1][0].a[0] for p in ps if p.variant() == "Ok" for e in p.events("^found$")}
    r.check("custom-gate", "errors fail", len(bad) == 1 and not bad & good, r.where(t), "the errors collected for a custom template do not decide whether it is accepted (rejected with %s, accepted with %s)" % (sorted(bad), sorted(good)))
    if len(bad) != 1: return
    en = bad.pop()
    forms(F, r, "custom-gate", V, h, "Statement", skip=("MultSubstitution",), need=lambda v, nm: v in ("IfThenElse", "While", "Block", "InitializationBlock") and nm != "cond")
    ei = next(i for i in range(g.nargs) if (g.locals[i + 1][1] or str(i)) == en)

    def R(v, want, what, **o):
        ps, kids = V.run(h, "Statement", v, args={en: mk("array")}, **o); r.paths(len(ps))
        for p in ps:
            x = V.arg(p, ei)
            if x is None or x.op != "array": r.notes.append("custom-gate: %s undecided" % what); continue
            r.check("custom-gate", what, bool(x.a) == want, r.where(g), "%s in a custom template is %s" % (what, "accepted" if want else "rejected"))
    for o in OPS:
        for st in ("Substitution", "UnderscoreSubstitution"): R(st, o == "AssignConstraintSignal", "%s with %s" % (st, o), op=op(F, o))
    R("ConstraintEquality", True, "===")
    for ty, s in (("Var", None), ("Signal", "Input"), ("Signal", "Output"), ("Signal", "Intermediate"), ("Component", None), ("AnonymousComponent", None), ("Bus", "Input"), ("Bus", "Output"), ("Bus", "Intermediate")):
        R("Declaration", ty in ("Component", "AnonymousComponent"), "declaration of %s %s" % (ty, s or ""), xtype=vt(F, ty, s))
    for v in ("LogCall", "Assert", "IfThenElse", "While", "Block", "InitializationBlock"): R(v, False, v)


# ---------------------------------------------------------------- names
def coll2(kind): return pure(lambda x, k=kind: mk("array", *[mk("tuple", STR("%s%d" % (k, i)), PARAM("%s%d.data" % (k, i))) for i in range(2)]))


def naming(F, r):
    r.rule("naming", "the symbols of every template, function and bus are checked, with its own parameters, body and file, and those of the main expression; what is found fails the compilation")
    f = F.find("symbol_analysis::check_naming_correctness"); r.fn(f)
    per = [g for g in F.fns.values() if g.crate == "type_analysis" and "symbol_analysis::" in g.id and any("[program_structure" in g.locals[i + 1][0] and "Statement" in g.locals[i + 1][0] for i in range(g.nargs)) and "Result" in g.locals[0][0]]
    if len(per) != 1: raise Anchor("analysis of the symbols of one definition")
    per = per[0]
    mains = [g for g in F.fns.values() if g.crate == "type_analysis" and "symbol_analysis::" in g.id and g.nargs == 1 and "ProgramArchive" in g.locals[1][0] and g.id != f.id]

    def h(E, st, name, args, fn, line):
        vals = tuple(E.deref(st, a) for a in args)
        E.event(st, name, vals, line, fn); s2 = st.fork(); E.event(s2, "found", (), line, fn)
        return [(st, OK(UNIT)), (s2, ERR(mk("array", mk("report"))))]
    I = {**maps.intrinsics(), "^" + re.escape(per.id) + "$": h, **{"^" + re.escape(g.id) + "$": h for g in mains},
         r"ProgramArchive::get_templates$": coll2("template"), r"ProgramArchive::get_functions$": coll2("function"), r"ProgramArchive::get_buses$": coll2("bus"),
         r"(template|function|bus)_data::\w+::get_\w+$": lambda E, st, name, args, fn, line: [(st, mk("of", STR(name.rsplit("::", 1)[-1]), E.deref(st, args[0])))]}
    ps, E = explore(F, f, [PARAM("program")], intr=I, loop_visits=8, max_paths=4000)
    r.paths(len(ps))
    want = {PARAM("%s%d.data" % (k, i)) for k in ("template", "function", "bus") for i in range(2)}
    bad = {}; und = False
    for p in ps:
        seen = {}
        for e in p.events("^" + re.escape(per.id) + "$"):
            own = {x.a[1] for v in e[1] if v.op == "of" for x in [v]}
            if not own: und = True
            if len(own) > 1: bad.setdefault("mixed", p)
            for o in own: seen.setdefault(o, set()).update(v.a[0].a[0] for v in e[1] if v.op == "of")
        found = bool(p.events("^found$"))
        if p.variant() in ("Ok", "Err") and (p.variant() == "Err") != found: bad.setdefault("verdict", p)
        if not found:
            for d in want - set(seen): bad.setdefault("missing " + re.sub(r"\d.*", "", d.a[0]), p)
            for d, gs in seen.items():
                if not any(g.startswith("get_body") for g in gs) or "get_name_of_params" not in gs: bad.setdefault("parts", p)
            if mains and not any(p.events("^" + re.escape(g.id) + "$") for g in mains): bad.setdefault("main", p)
    if und: raise Anchor("naming: the definitions handed to the analysis were not followed")
    for k, m in (("missing template", "a template is not checked for undeclared symbols"), ("missing function", "a function is not checked for undeclared symbols"), ("missing bus", "a bus is not checked for undeclared symbols"),
                 ("mixed", "a definition is checked with parts of another one"), ("parts", "a definition is checked without its body or parameters"), ("main", "the main expression is not checked"), ("verdict", "the verdict does not follow from what was found")):
        r.check("naming", k, k not in bad, r.where(f), m)
    r.floor("naming", len(ps), 10, "paths of check_naming_correctness")


def main(F, r):
    r.rule("main", "every name in the public list of main is an input of the main template, and the main expression is checked for undeclared symbols and wrong numbers of arguments like any other")
    gs = [g for g in F.fns.values() if g.crate == "type_analysis" and "symbol_analysis::" in g.id and g.nargs == 1 and "ProgramArchive" in g.locals[1][0] and not g.id.endswith("check_naming_correctness")]
    if len(gs) != 1: raise Anchor("analysis of the main expression")
    f = gs[0]; r.fn(f)
    V = Visits(F, r"symbol_analysis::")
    call, kids = children(F, "Expression", "Call", id=STR("T"))
    V.root = mk("noroot"); V.kids = {"main": call}
    # the main expression is handed to the expression handler as a whole
    for pub in ((), ("a",), ("a", "b"), ("z",), ("a", "z"), ("z", "a")):
        I = {**V.I, **maps.intrinsics(), r"ProgramArchive::get_main_expression$": pure(lambda *a: call), r"ProgramArchive::get_public_inputs_main_component$": pure(lambda *a: mk("array", *[STR(x) for x in pub])),
             r"ProgramArchive::contains_template$": pure(lambda a, b: TRUE), r"ProgramArchive::get_template_data$": pure(lambda a, b: PARAM("T.data")), r"TemplateData::get_inputs$": pure(lambda x: mk("array", mk("tuple", STR("a"), PARAM("wa")), mk("tuple", STR("b"), PARAM("wb"))))}
        ps, E = explore(F, f, [PARAM("program")], intr=I, loop_visits=6); r.paths(len(ps))
        if not ps: raise Anchor("analysis of main not followed")
        for p in ps:
            r.check("main", "expression", call in visited(p), r.where(f), "the main expression is not checked for undeclared symbols")
            r.check("main", "public %s" % (",".join(pub) or "none"), (p.variant() == "Err") == ("z" in pub), r.where(f), "public list [%s] of a template with inputs a, b is %s" % (",".join(pub), "accepted" if p.variant() == "Ok" else "rejected"))


def symbols(F, r):
    r.rule("symbols", "undeclared names, names declared twice in a block, unknown functions, templates or buses and wrong numbers of arguments are errors wherever they occur; a block opens a scope that ends with it")
    V = Visits(F, r"symbol_analysis::")
    A = F.find("symbol_analysis::analyze_symbols"); r.fn(A)
    envi = lambda f: [i for i in range(f.nargs) if re.search(r"Vec<std::collections::hash::set::HashSet<alloc::string::String>>", f.locals[i + 1][0])]
    S = mk("array", PARAM("body0"), PARAM("body1")); V.root = mk("noroot"); V.kids = BODY
    body = next(i for i in range(A.nargs) if "Statement" in A.locals[i + 1][0]); par = next(i for i in range(A.nargs) if A.locals[i + 1][0].startswith("&[alloc::string::String]"))
    hand = None
    for ns in (("n", "m"), ("n", "n"), ()):
        args = [S if i == body else mk("array", *[STR(x) for x in ns]) if i == par else PARAM("p%d" % i) for i in range(A.nargs)]
        ps, E = explore(F, A, args, intr=V.I, loop_visits=6); r.paths(len(ps))
        for p in ps:
            es = [e for e in p.events("^visit$")]
            r.check("symbols", "all statements", {e[1][0] for e in es} == {PARAM("body0"), PARAM("body1")}, r.where(A), "not every statement of a definition is checked")
            r.check("symbols", "parameters %s" % ",".join(ns), bool(errs(p)) == (len(set(ns)) < len(ns)), r.where(A), "parameters %s are %s" % (",".join(ns), "accepted" if not errs(p) else "rejected"))
            if errs(p): r.check("symbols", "duplicate parameters fail", p.variant() == "Err", r.where(A), "duplicate parameters are reported but accepted")
            for e in es:
                hand = e[1][1].a[0]
                ev = [v for v in e[1][2:] if v.op == "array" and v.a and all(x.op == "array" for x in v.a)]
                have = {x.a[0] for v in ev for b in v.a for x in b.a if x.op == "str"}
                if ns and len(set(ns)) == len(ns): r.check("symbols", "parameters in scope", have == set(ns), r.where(A), "the body of a definition is checked with %s in scope instead of its parameters" % sorted(have))
    if hand is None: raise Anchor("statement handler of symbol_analysis")
    H = F.find(hand)
    ps, k = V.run(hand, "Statement", "Return"); xs = {e[1][1].a[0] for p in ps for e in p.events("^visit$")}
    if len(xs) != 1: raise Anchor("expression handler of symbol_analysis")
    X = F.find(xs.pop())

    def info(k): return mk("array", mk("tuple", STR(k), PARAM(k + ".data")))
    V.I[r"(template|function|bus)_data::\w+::get_num_of_params$"] = pure(lambda x: INT(2))
    V.I[r"bus_data::\w+::get_fields$"] = pure(lambda x: mk("array", mk("tuple", STR("x"), PARAM("wx"))))

    def args_of(f, outer=("o",), inner=("i",), **kw):
        d = {}
        for i in range(f.nargs):
            ty, nm = f.locals[i + 1]
            if i in envi(f): d[nm] = mk("array", mk("array", *[STR(x) for x in outer]), mk("array", STR("m")), mk("array", *[STR(x) for x in inner]))
            elif "FunctionData" in ty: d[nm] = info("fun")
            elif "TemplateData" in ty: d[nm] = info("tem")
            elif "BusData" in ty: d[nm] = info("bus")
        return d
    ah, ax = args_of(H), args_of(X)
    known = dict(var=STR("o"), name=STR("i"), id=STR("fun"))
    forms(F, r, "symbols", V, hand, "Statement", skip=("MultSubstitution", "Substitution"), args=ah)
    forms(F, r, "symbols", V, X.id, "Expression", skip=("Tuple", "AnonymousComp", "Variable", "Call", "BusCall"), args=ax)
    R = lambda fn, kind, v, want, what, a, **o: reports(F, r, "symbols", V, fn, kind, v, want, what, args=a, **o)
    for nm, want in (("o", False), ("i", False), ("zz", True)):
        wh = {"o": "declared in an enclosing block", "i": "declared in this block", "zz": "undeclared"}[nm]
        for kind, v, fn, a, fld in (("Expression", "Variable", X.id, ax, "name"), ("Statement", "Substitution", hand, ah, "var")):
            ps, kids = R(fn, kind, v, want, "%s of a name %s" % (v, wh), a, **{fld: STR(nm)})
            if not want:
                for p in ps: r.check("symbols", "%s indices" % v, set(kids.values()) <= set(visited(p)), r.where(F.find(fn)), "not every part of a %s is checked" % v)
    for nm, v, want in (("fun", "Call", False), ("tem", "Call", False), ("bus", "Call", True), ("zz", "Call", True), ("bus", "BusCall", False), ("tem", "BusCall", True), ("zz", "BusCall", True)):
        ps, kids = R(X.id, "Expression", v, want, "%s of %s" % (v, {"fun": "a function", "tem": "a template", "bus": "a bus", "zz": "an unknown name"}[nm]), ax, id=STR(nm))
        if not want:
            for p in ps: r.check("symbols", "%s %s arguments" % (v, nm), set(kids.values()) <= set(visited(p)), r.where(X), "the arguments of a %s are not all checked" % v)
            for n in (0, 1, 3): R(X.id, "Expression", v, True, "%s of %s with %d arguments instead of 2" % (v, nm, n), ax, id=STR(nm), n=n)
    ei = envi(H)[0]
    for nm, want in (("i", True), ("o", False), ("zz", False)):
        ps, kids = R(hand, "Statement", "Declaration", want, "declaration of a name %s" % {"i": "already declared in this block", "o": "declared in an enclosing block", "zz": "not declared"}[nm], ah, name=STR(nm), xtype=vt(F, "Var"))
        for p in ps:
            x = V.arg(p, ei)
            if x is None or x.op != "array": r.notes.append("symbols: scope undecided"); continue
            r.check("symbols", "declaration adds %s" % nm, len(x.a) == 3 and contains(x.a[2], STR(nm)) and x.a[0] is ah[H.locals[ei + 1][1]].a[0], r.where(H), "after a declaration the scopes are %s" % show(x)[:100])
            for e in p.events("^visit$"):
                if nm == "zz": r.check("symbols", "dimensions before the name", not any(contains(v, STR("zz")) for v in e[1][2:] if v.op == "array"), r.where(H), "the dimensions of a declaration are checked with the new name already in scope")
    for tags, want in ((("t",), False), (("x",), True), (("t", "x"), True)):
        R(hand, "Statement", "Declaration", want, "bus declared with tags %s and field x" % ",".join(tags), ah, name=STR("zz"), xtype=vt_bus(F, "bus", tags))
    ps, kids = V.run(hand, "Statement", "Block", args=ah); r.paths(len(ps))
    for p in ps:
        for e in p.events("^visit$"):
            ev = [v for v in e[1][2:] if v.op == "array" and v.a and all(y.op == "array" for y in v.a)]
            if ev: r.check("symbols", "block opens a scope", len(ev[0].a) == 4 and not ev[0].a[3].a, r.where(H), "the statements of a block are checked in scopes %s" % show(ev[0])[:100])
        x = V.arg(p, ei)
        if x is not None and x.op == "array": r.check("symbols", "block closes its scope", len(x.a) == 3, r.where(H), "after a block %d scopes are open instead of 3" % len(x.a))


def vt_bus(F, name, tags):
    t = vt(F, "Bus", "Intermediate", mk("array", *[STR(x) for x in tags]))
    return ADT(t.a[0], "Bus", tuple((n, STR(name) if v.op == "str" else v) for n, v in t.a[2]))


# ---------------------------------------------------------------- type checker
FT = "type_check::FoldedType"


def ft(F, x):
    """folded type: T template, A<d> expression of d dimensions, B<d>/C<d> bus"""
    none = dict(arithmetic=NONE, template=NONE, bus=NONE)
    if x == "T": none["template"] = SOME(STR("T"))
    elif x == "U": none["template"] = SOME(STR("U"))
    elif x[0] == "A": none["arithmetic"] = SOME(INT(int(x[1])))
    else: none["arithmetic"] = SOME(INT(int(x[1]))); none["bus"] = SOME(mk("tuple", STR(x[0]), INT(int(x[1]))))
    return build(F, FT, None, **none)


class Typing(Visits):
    def __init__(self, F):
        super().__init__(F, r"analyzers::type_check::")
        m = [g for g in self.fns.values() if "FoldedType" in g.locals[0][0] and "Result" in g.locals[0][0] and "Vec" not in g.locals[0][0] and any(re.search(r"^&[\w:]*Expression$", g.locals[i + 1][0]) for i in range(g.nargs))]
        s = [g for g in self.fns.values() if any(re.search(r"^&[\w:]*Statement$", g.locals[i + 1][0]) for i in range(g.nargs)) and g.locals[0][0] == "()"]
        if len(m) != 1 or len(s) != 1: raise Anchor("handlers of the type checker")
        self.X, self.S = m[0], s[0]
        syms = [g for g in F.fns.values() if g.crate == "type_analysis" and "::type_check::" in g.id and "SymbolInformation" in g.locals[0][0]]
        if len(syms) != 1: raise Anchor("symbol information")
        self.sym = None; self.types = {}
        self.I["^" + re.escape(syms[0].id) + "$"] = lambda E, st, name, args, fn, line: NotImplemented if self.sym is None else [(st, OK(self.sym))]
        self.I[r"RawEnvironment::<T, CC, SC, VC, BC>::has_symbol$"] = pure(lambda *a: TRUE)
        self.I[r"RawEnvironment::<T, CC, SC, VC, BC>::has_\w+$"] = pure(lambda *a: FALSE)
        self.I[r"RawEnvironment::<T, CC, SC, VC, BC>::(add|remove)_\w+$"] = lambda E, st, name, args, fn, line: [(st, UNIT)]
        self.I[r"RawEnvironment::<T, CC, SC, VC, BC>::get_mut_\w+$"] = self._slot
        self.I[r"Report::error$"] = lambda E, st, name, args, fn, line: (E.event(st, "error", (E.deref(st, args[1]),), line, fn), [(st, mk("report"))])[1]
        self.I[r"alloc::fmt::format"] = pure(lambda *a: STR("message"))
        self.I[r"type_check::add_report$"] = lambda E, st, name, args, fn, line: (E.event(st, "error", (E.deref(st, args[0]),), line, fn), [(st, UNIT)])[1]
        adds = [g for g in F.fns.values() if g.crate == "type_analysis" and "::type_check::" in g.id and g.nargs == 3 and "ReportCode" in g.locals[1][0] and g.locals[0][0] == "()"]
        for g in adds: self.I["^" + re.escape(g.id) + "$"] = self.I[r"type_check::add_report$"]
        self.result = self._types

    def _slot(self, E, st, name, args, fn, line):
        root = ("H", "slot", name); st.mem.setdefault(root, mk("tuple", NONE, INT(0), mk("array"))); return [(st, mk("ref", root, ()))]

    def _types(self, E, st, name, child, vals, ret):
        if name != self.X.id: return None
        for nm, k in self.kids.items():
            if k is child: return [(st, OK(ft(self.F, self.types.get(nm, "A0"))))]

    def go(self, r, what, kind, v, want, types=None, sym=None, args=None, result=None, **over):
        self.types = types or {}; self.sym = sym
        f = self.X if kind == "Expression" else self.S
        r.fn(f)
        try: ps, kids = self.run(f, kind, v, args=args, **over)
        except Anchor as e: r.notes.append("types: %s undecided (%s)" % (what, e)); return
        r.paths(len(ps))
        for p in ps:
            if want is not None:
                r.check("types", what, bool(errs(p)) == want, r.where(f), "%s %s" % (what, "is not reported" if want else "is rejected although it is well typed"))
            if not errs(p):
                for k in kids.values(): r.check("types", "%s looks at %s" % (v, k.a[0][2:]), k in visited(p), r.where(f), "the type checker accepts a %s without looking at its %s" % (v, k.a[0][2:]))
                if result is not None and p.variant() == "Ok":
                    x = p.E.deref(p.st, getf(downcast(p.v, "Ok"), "0"))
                    if x.op == "adt": r.check("types", "%s: type" % what, x is ft(self.F, result), r.where(f), "%s has type %s instead of %s" % (what, show(x)[-80:], result))
        if not ps and want: r.ok("types", what)
        elif not ps: r.notes.append("types: %s: no path" % what)


ALL = ("A0", "A1", "B0", "T")


def types(F, r):
    r.rule("types", "ill-typed operands, conditions, indices, sizes, arguments, assignments, constraints and returned values are reported in every form of statement and expression, well-typed ones are not, and all their parts are looked at")
    V = Typing(F)
    for a in ALL:
        for b in ALL:
            V.go(r, "operation on %s and %s" % (a, b), "Expression", "InfixOp", (a, b) != ("A0", "A0"), {"lhe": a, "rhe": b}, result="A0")
        V.go(r, "prefix operation on %s" % a, "Expression", "PrefixOp", a != "A0", {"rhe": a}, result="A0")
        V.go(r, "parallel on %s" % a, "Expression", "ParallelOp", a != "T", {"rhe": a}, result="T")
        V.go(r, "conditional expression on %s" % a, "Expression", "InlineSwitchOp", a != "A0", {"cond": a}, result="A0")
        if a != "T": V.go(r, "uniform array of %s" % a, "Expression", "UniformArray", False, {"value": a}, result=a[0] + str(int(a[1]) + 1))
        else: V.go(r, "uniform array of %s" % a, "Expression", "UniformArray", True, {"value": a})
        V.go(r, "uniform array of size %s" % a, "Expression", "UniformArray", a != "A0", {"dimension": a})
        for v in ("IfThenElse", "While"): V.go(r, "%s on %s" % (v, a), "Statement", v, a != "A0", {"cond": a})
        V.go(r, "IfThenElse without else on %s" % a, "Statement", "IfThenElse", a != "A0", {"cond": a}, els=False)
        V.go(r, "assert of %s" % a, "Statement", "Assert", a != "A0", {"arg": a})
        for k in ("args0", "args1"): V.go(r, "log of %s" % a, "Statement", "LogCall", a != "A0", {k: a})
        for k in ("dimensions0", "dimensions1"): V.go(r, "declaration with size %s" % a, "Statement", "Declaration", a != "A0", {k: a}, xtype=vt(F, "Var"))
        V.go(r, "_ assigned %s" % a, "Statement", "UnderscoreSubstitution", a == "T", {"rhe": a})
        for k in ("c.A", "A.A"): pass
    for x, y, want, res in (("A0", "A0", False, "A1"), ("A1", "A1", False, "A2"), ("A0", "A1", True, None), ("A1", "A0", True, None), ("T", "A0", True, None), ("A0", "T", True, None), ("B0", "B0", False, "B1"), ("B0", "C0", True, None), ("B0", "A0", True, None), ("A0", "B0", True, None)):
        V.go(r, "array of %s and %s" % (x, y), "Expression", "ArrayInLine", want, {"values0": x, "values1": y}, result=res)
    V.go(r, "empty array", "Expression", "ArrayInLine", True, n=0)
    for x, y, want in (("A0", "A0", False), ("A1", "A1", False), ("A0", "A1", True), ("T", "A0", True), ("A0", "T", True)): V.go(r, "branches %s and %s" % (x, y), "Expression", "InlineSwitchOp", want, {"if_true": x, "if_false": y}, result=x)
    for x, y, want in (("A0", "A0", False), ("A1", "A1", False), ("A0", "A1", True), ("A1", "A0", True), ("T", "A0", True), ("A0", "T", True), ("T", "T", True), ("B0", "B0", False), ("B0", "B1", True), ("B0", "C0", True), ("B0", "A0", True), ("A0", "B0", True)):
        V.go(r, "constraint %s === %s" % (x, y), "Statement", "ConstraintEquality", want, {"lhe": x, "rhe": y})
    for d in (0, 1):
        ai = None
        for x in ("A0", "A1"):
            info = build(F, "type_check::AnalysisInformation", None, "ai", return_type=SOME(INT(d)))
            V.go(r, "return of %s where %d dimensions are returned" % (x, d), "Statement", "Return", x != "A%d" % d, {"value": x}, args={"analysis_information": info})
    for v in ("Block", "InitializationBlock"): V.go(r, v, "Statement", v, False)
    SI = [i for i in F.adts if i.endswith("type_check::SymbolInformation")][0]

    def sy(v, *a): return ADT(SI, v, tuple((str(i), x) for i, x in enumerate(a)))
    bus = lambda n: SOME(STR(n))
    for nm, s, okop, okty in (("signal", sy("Signal", INT(0)), OPS[1:], ("A0",)), ("array of signals", sy("Signal", INT(1)), OPS[1:], ("A1",)), ("variable", sy("Var", INT(0)), OPS[:1], ("A0",)), ("array", sy("Var", INT(1)), OPS[:1], ("A1",)),
                              ("component", sy("Component", bus("T")), OPS[:1], ("T",)), ("unset component", sy("Component", NONE), OPS[:1], ("T", "U")), ("bus", sy("Bus", bus("B"), INT(0)), OPS[1:], ("B0",)), ("array of buses", sy("Bus", bus("B"), INT(1)), OPS[1:], ("B1",)),
                              ("tag", sy("Tag"), OPS[:1], ("A0",))):
        for o in OPS:
            for t in ("A0", "A1", "B0", "B1", "C0", "T", "U"):
                V.go(r, "assignment of %s to a %s with %s" % (t, nm, o), "Statement", "Substitution", None if "bus" in nm and o == "AssignVar" and t in okty else not (o in okop and t in okty), {"rhe": t}, sym=s, op=op(F, o), access="A.A")
    for nm, s, res in (("signal", sy("Signal", INT(0)), "A0"), ("array of signals", sy("Signal", INT(1)), "A1"), ("variable", sy("Var", INT(0)), "A0"), ("array", sy("Var", INT(1)), "A1"), ("component", sy("Component", bus("T")), "T"), ("unset component", sy("Component", NONE), None),
                       ("bus", sy("Bus", bus("B"), INT(0)), "B0"), ("array of buses", sy("Bus", bus("B"), INT(1)), "B1"), ("tag", sy("Tag"), "A0")):
        V.go(r, "use of a %s" % nm, "Expression", "Variable", res is None, sym=s, access="A.A", result=res)
        for a in ALL: V.go(r, "index %s of a %s" % (a, nm), "Expression", "Variable", a != "A0" or res is None, {"access0": a}, sym=s, access="A.A")
    for a in ALL:
        V.go(r, "index %s of an assigned variable" % a, "Statement", "Substitution", a != "A0", {"access2": a}, sym=sy("Var", INT(0)), op=op(F, "AssignVar"), access="A.A")


def type_calls(F, r):
    r.rule("type-calls", "a call marks its template, function or bus as reached, checks every argument (no components or buses), and the called body is type checked once for every combination of argument dimensions; "
                         "the main expression is type checked, must be a template, and its inputs have no tags, also inside buses")
    V = Typing(F)
    C = adt_id(F, "type_check::AnalysisInformation")
    for v, who in (("Call", "template"), ("Call", "function"), ("BusCall", "bus")):
        for known in (None, ("A0", "A0"), ("A1", "A0"), ("A0", "A1")):
            for ty in ((), ("A0", "A0"), ("A1", "A0"), ("A0", "A1"), ("B0", "A0"), ("A0", "T")):
                if not ty and known is not None: continue
                inst = mk("array") if known is None else mk("array", mk("tuple", STR("x"), mk("array", build(F, "type_register::TypeInstance", None, "ti", argument_dimensions=mk("array", *[INT(int(k[1])) for k in known]), returned_dimension=INT(0)))))
                reg = build(F, "type_register::TypeRegister", None, "reg", id_to_instances=inst)
                info = build(F, "type_check::AnalysisInformation", None, "ai", registered_calls=reg, reached=mk("array"), reports=mk("array"), return_type=NONE)
                V.types = {"args%d" % i: t for i, t in enumerate(ty)}; V.sym = None
                body = (PARAM("body0"), PARAM("body1"))
                V.I.update({r"ProgramArchive::contains_%s$" % k: pure(lambda a, b, z=(k == who): TRUE if z else FALSE) for k in ("template", "function", "bus")})
                V.I.update({r"ProgramArchive::get_(template|function|bus)_data$": pure(lambda a, b: PARAM("data")), **DATA, r"\w+_data::\w+::get_name_of_params$": pure(lambda a, n=len(ty): mk("array", *[STR("n%d" % i) for i in range(n)])),
                            r"type_given_function::type_given_function$": pure(lambda *a: SOME(INT(0))), r"RawEnvironment::<T, CC, SC, VC, BC>::new$": pure(lambda *a: mk("newenv")), r"\w+_data::\w+::get_fields$": pure(lambda a: mk("array"))})
                f = V.X

                def vis(E, st, name, args, fn, line, base=V._visit):
                    vals = tuple(E.deref(st, a) for a in args)
                    if name == V.S.id and vals[0] in body: E.event(st, "body", (vals[0],), line, fn); return [(st, UNIT)]
                    return base(E, st, name, args, fn, line)
                V.I["^" + re.escape(V.S.id) + "$"] = vis
                what = "%s of a %s with %s, typed before with %s" % (v, who, "/".join(ty), "/".join(known) if known else "nothing")
                try: ps, kids = V.run(f, "Expression", v, args={"analysis_information": info}, id=STR("x"), n=len(ty))
                except Anchor as e: r.notes.append("type-calls: %s undecided (%s)" % (what, e)); continue
                r.paths(len(ps)); r.fn(f)
                bad = any(t[0] != "A" for t in ty)
                ai = next(i for i in range(f.nargs) if "AnalysisInformation" in f.locals[i + 1][0])
                if not ps: r.notes.append("type-calls: %s not followed" % what)
                for p in ps:
                    e = bool(errs(p)); bodies = {x[1][0] for x in p.events("^body$")}
                    r.check("type-calls", "%s arguments" % what, e == bad, r.where(f), "%s %s" % (what, "is accepted" if bad else "is rejected"))
                    if bad or e: continue
                    r.check("type-calls", "%s all arguments" % what, set(kids.values()) <= set(visited(p)), r.where(f), "%s: not all arguments are checked" % what)
                    want = known != ty
                    r.check("type-calls", "%s body" % what, not want or bodies == set(body), r.where(f), "%s: the called body is accepted without being type checked" % what)
                    x = V.arg(p, ai)
                    if x is not None and getf(x, "reached").op == "array":
                        r.check("type-calls", "%s reached" % what, STR("x") in getf(x, "reached").a, r.where(f), "%s: the called %s is not marked as reached and will be removed" % (what, who))
    # main
    f = F.find("type_check::type_check"); r.fn(f)
    call, _ = children(F, "Expression", "Call", id=STR("T")); num, _ = children(F, "Expression", "Number")
    W = lambda tags, ty: mk("wire", mk("array", *[STR(x) for x in tags]), ty)
    WT = adt_id(F, "WireType")
    sig, busw = ADT(WT, "Signal", ()), lambda b: ADT(WT, "Bus", (("0", STR(b)),))
    BUS = {"P": (("x", W((), sig)),), "Q": (("x", W(("t",), sig)),), "R": (("y", W((), sig)), ("q", W((), busw("Q"))))}
    for nm, expr, tmpl, ins, want in (("a template without tags", call, True, (("a", W((), sig)), ("b", W((), sig))), False), ("a tagged input", call, True, (("a", W((), sig)), ("b", W(("t",), sig))), True),
                                      ("a bus input without tags", call, True, (("a", W((), busw("P"))),), False), ("a tagged bus input", call, True, (("a", W(("t",), busw("P"))),), True), ("a bus input with a tagged field", call, True, (("a", W((), sig)), ("b", W((), busw("Q"))),), True),
                                      ("a bus input with a tagged field of a field", call, True, (("b", W((), busw("R"))),), True), ("a function call", call, False, (), True), ("a number", num, False, (), True)):
        def vis(E, st, name, args, fn, line):
            vals = tuple(E.deref(st, a) for a in args)
            if expr in vals: E.event(st, "visit", (expr, STR(name)), line, fn); return [(st, OK(ft(F, "T")))]
            return NotImplemented
        I = {**{k: x for k, x in V.I.items() if "get_fields" not in k and "get_(template" not in k}, **maps.intrinsics(), "^" + re.escape(V.X.id) + "$": vis, r"ProgramArchive::get_main_expression$": pure(lambda *a: expr), r"ProgramArchive::contains_template$": pure(lambda a, b: TRUE if tmpl else FALSE),
             r"ProgramArchive::get_template_data$": pure(lambda a, b: mk("tdata", b)), r"TemplateData::get_inputs$": pure(lambda x: mk("array", *[mk("tuple", STR(k), v) for k, v in ins])),
             r"ProgramArchive::get_bus_data$": pure(lambda a, b: mk("bdata", b)), r"BusData::get_fields$": pure(lambda x: mk("array", *[mk("tuple", STR(k), v) for k, v in BUS[x.a[0].a[0]]])),
             r"WireData::get_tags$": pure(lambda w: w.a[0]), r"WireData::get_type$": pure(lambda w: w.a[1]), r"add_report$": V.I[r"type_check::add_report$"]}

        def addr(E, st, name, args, fn, line):
            E.event(st, "error", (E.deref(st, args[0]),), line, fn)
            cur = E.deref(st, args[2])
            if cur.op == "array": E.store_through(st, args[2], mk("array", *(cur.a + (mk("report"),))))
            return [(st, UNIT)]
        for k in list(I):
            if I[k] is V.I[r"type_check::add_report$"]: I[k] = addr
        ps, E = explore(F, f, [PARAM("program")], intr=I, loop_visits=5, rec=4); r.paths(len(ps))
        if not ps: r.notes.append("type-calls: main with %s not followed" % nm)
        for p in ps:
            r.check("type-calls", "main expression", expr in visited(p), r.where(f), "the main expression is not type checked")
            if p.variant() in ("Ok", "Err"): r.check("type-calls", "main: %s" % nm, (p.variant() == "Err") == want, r.where(f), "a main component that is %s is %s" % (nm if "call" in nm or "number" in nm else "a template with " + nm, "accepted" if want else "rejected"))
