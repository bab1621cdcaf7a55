"""C18: tuples and anonymous components are expanded or rejected, never ignored."""
from ..visit import *
from .c09 import NEST, META, IS, BUILD, STMT, EXPR, SUGAR_MOD, ASK, opaque, pieces, is_ask, IMPL, sweep, everything, sugar_checks, sugar_removal, tuple_removal, has_sugar

M = "syntax_sugar_remover::"


def run(F, r):
    r.do(F, pipeline, has_sugar, sugar_checks, verdicts, sugar_removal, tuple_removal, anonymous, parallel, statements, assignments, flattening, logs)


def answer(E, st, name, args, fn, line):
    """a question on a node that is not known: two answers, recorded"""
    x = E.deref(st, args[0])
    if x.op == "adt": return NotImplemented
    s2 = st.fork(); q = name.rsplit("::", 1)[-1]
    E.event(st, "yes", (STR(q), x), line, fn); E.event(s2, "no", (STR(q), x), line, fn)
    return [(st, TRUE), (s2, FALSE)]


def preorder(t):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            for x in t: yield from preorder(x)
        return
    yield t
    for x in t.a: yield from preorder(x)


def may(ok, tag):
    def h(E, st, name, args, fn, line):
        vals = tuple(E.deref(st, a) for a in args)
        s2 = st.fork(); E.event(st, tag, vals, line, fn); E.event(s2, tag, vals, line, fn); E.event(s2, "failed", vals, line, fn)
        return [(st, OK(ok(*vals))), (s2, ERR(mk("err", STR(tag))))]
    return h


# ------------------------------------------------------------------------------------------------- every definition
def pipeline(F, r):
    r.rule("pipeline", "the sugar of every template, function and bus is checked and removed (with everything the removal gives), the main expression has none, and every error found stops the compilation")
    f = F.find(M + "apply_syntactic_sugar"); r.fn(f)
    coll = lambda k: mk("array", *[mk("tuple", STR("%s%d" % (k, i)), PARAM("%s%d" % (k, i))) for i in range(2)])
    try: prog = build(F, "ProgramArchive", templates=coll("template"), functions=coll("function"), buses=coll("bus"))
    except Anchor: prog = None
    if prog is None: raise Anchor("ProgramArchive")
    BL = adt_id(F, "Statement")

    def removed(*vals):
        b = next(v for v in vals if v.op == "body")
        return mk("tuple", ADT(BL, "Block", (("meta", mk("meta", b)), ("stmts", mk("array", mk("rest", b))))), mk("array", mk("decls", b)), mk("array", mk("vars", b)), mk("array", mk("subs", b)))

    def set_body(E, st, name, args, fn, line): E.event(st, "set_body", tuple(E.deref(st, a) for a in args), line, fn); return [(st, UNIT)]
    I = {**maps.intrinsics(), **META, **BUILD, r"ProgramArchive::get_main_expression$": lambda E, st, name, args, fn, line: [(st, PARAM("main"))],
         r"::contains_(anonymous_comp|tuple)$": answer, r"(Template|Function|Bus)Data::(get_body|get_mut_body)$|_data::\w+::get_body$": pure(lambda x: mk("body", x)), r"Data::(set_body)$|_data::\w+::set_body$": set_body,
         r"check_anonymous_components_statement$": may(lambda *a: UNIT, "check_anonymous"), r"remove_anonymous_from_statement$": may(removed, "remove_anonymous"),
         r"check_tuples_statement$": may(lambda *a: UNIT, "check_tuples"), r"remove_tuples_from_statement$": may(lambda *a: mk("untupled", *a), "remove_tuples"),
         r"build_(initialization_block|block)$": pure(lambda *a: mk("node", *a))}
    st = St(); st.mem[("H", "arg", 0)] = prog
    ps, E = explore(F, f, [mk("ref", ("H", "arg", 0), ())], intr=I, st=st, loop_visits=8, max_paths=8000); r.paths(len(ps))
    bad = {}; oks = 0
    for p in ps:
        found = p.events("^failed$") or p.events("^yes$")
        if p.variant() == "Err":
            if not found: bad.setdefault("an error is returned although nothing was found", p)
            continue
        if found: bad.setdefault("what was found is dropped and the program accepted", p)
        oks += 1
        no = {(e[1][0].a[0], e[1][1]) for e in p.events("^no$")}
        for q in ("contains_anonymous_comp", "contains_tuple"):
            if (q, PARAM("main")) not in no: bad.setdefault("the main expression is not asked %s" % q, p)
        for k in ("template", "function", "bus"):
            for i in range(2):
                d = PARAM("%s%d" % (k, i)); b = mk("body", d)
                new = [e[1][1] for e in p.events("^set_body$") if e[1][0] is d]
                ct = [e[1][0] for e in p.events("^check_tuples$")]
                if len(new) != 1: bad.setdefault("a %s keeps its sugar" % k, p); continue
                n = new[0]
                if not contains(n, lambda x: x.op == "untupled"): bad.setdefault("tuples are not removed from a %s" % k, p)
                if k == "template":
                    if not any(e[1][0] is b for e in p.events("^check_anonymous$")): bad.setdefault("anonymous components of a template are not checked", p)
                    for w in ("rest", "decls", "vars", "subs"):
                        if not contains(n, mk(w, b)): bad.setdefault("the %s of a template are lost" % w, p)
                    order = [next((i for i, x in enumerate(preorder(n)) if x is mk(w, b)), -1) for w in ("vars", "subs", "rest")]
                    if order != sorted(order): bad.setdefault("what a template has to do first comes after its body", p)
                    rm = [e for e in p.events("^remove_anonymous$") if b in e[1]]
                    if rm and not all(any(contains(v, PARAM("template0")) and contains(v, PARAM("template1")) for v in e[1]) for e in rm): bad.setdefault("anonymous components are not looked up among all templates", p)
                    if not any(contains(c, mk("rest", b)) for c in ct): bad.setdefault("tuples of a template are not checked", p)
                else:
                    if ("contains_anonymous_comp", b) not in no: bad.setdefault("a %s is not asked for anonymous components" % k, p)
                    if not any(contains(c, b) for c in ct): bad.setdefault("tuples of a %s are not checked" % k, p)
                    if not contains(n, b): bad.setdefault("a %s loses its body" % k, p)
    r.check("pipeline", "every definition", not bad and oks > 0, r.where(f), "; ".join("%s (path %s)" % (m, p.show()[:160]) for m, p in list(bad.items())[:4]))
    r.floor("pipeline", oks, 1, "accepting paths of apply_syntactic_sugar")


# ------------------------------------------------------------------------------------------------- what is rejected
def verdicts(F, r):
    r.rule("verdicts", "a node is rejected if a child holds a tuple or an anonymous component where it may not, if a child is rejected, or if `<--` is given an anonymous component; nothing else is rejected")
    for q, own in (("anonymous_components", "contains_anonymous_comp"), ("tuples", "contains_tuple")):
        for kind, forms in (("Statement", STMT), ("Expression", EXPR)):
            f = F.find("%scheck_%s_%s" % (M, q, kind.lower())); r.fn(f)
            V = Visits(F, SUGAR_MOD, intr={**META, **{IMPL + r"is_\w+$": answer}, r"%s\w+_error$" % M: opaque("report")}, inline=lambda name, child: not re.search(ASK, name))
            for v in forms:
                if v == "UnderscoreSubstitution" or v == "AnonymousComp" and q == "tuples": continue
                ops = ("AssignVar", "AssignSignal", "AssignConstraintSignal") if v in ("Substitution", "MultSubstitution") else (None,)
                for o in ops:
                    over = {"op": unit_variant(F, "AssignOp", o)} if o else {}
                    ps, kids = V.run(f, kind, v, **over); r.paths(len(ps)); bad = {}
                    for p in ps:
                        has = {c[1] for c in p.conds if c[0] == "child" and c[2]}
                        fail = bool(p.events("^failed$"))
                        # an anonymous component may stand by itself on the right of an assignment: there the expression check decides
                        ok_rhe = q == "anonymous_components" and o and o != "AssignSignal"
                        blame = {t for t in has if not (ok_rhe and t is kids.get("rhe"))}
                        if p.variant() == "Err" and not fail and not blame: bad["rejects"] = p
                        if p.variant() == "Ok" and (fail or blame): bad["accepts"] = p
                        if p.variant() == "Ok" and o:
                            # <-- with an anonymous component anywhere on the right
                            if q == "anonymous_components" and o == "AssignSignal" and not any(c[0] == "child" and c[1] is kids["rhe"] and not c[2] for c in p.conds): bad["accepts"] = p
                    key = "check_%s on %s%s" % (q, v, " " + o if o else "")
                    r.check("verdicts", key + ": rejected", "accepts" not in bad and bool(ps), r.where(f), "a %s%s is accepted although sugar was found where it is not allowed (path %s)" % (v, " with " + o if o else "", "accepts" in bad and bad["accepts"].show()))
                    r.check("verdicts", key + ": accepted", "rejects" not in bad, r.where(f), "a %s%s is rejected although nothing was found in it (path %s)" % (v, " with " + o if o else "", "rejects" in bad and bad["rejects"].show()))


# ------------------------------------------------------------------------------------------------- the expansion
CASES = [  # (inputs, signals, names, what is expected)
    (2, 2, None, True), (2, 1, None, False), (2, 3, None, False), (0, 0, None, True),
    (2, 2, (("AssignConstraintSignal", "i1"), ("AssignConstraintSignal", "i0")), True),
    (2, 2, (("AssignConstraintSignal", "i0"), ("AssignConstraintSignal", "i1")), True),
    (2, 2, (("AssignConstraintSignal", "i0"), ("AssignSignal", "i1")), False),
    (2, 2, (("AssignConstraintSignal", "i0"), ("AssignVar", "i1")), False),
    (2, 2, (("AssignConstraintSignal", "i0"), ("AssignConstraintSignal", "i0")), False),
    (2, 2, (("AssignConstraintSignal", "i0"), ("AssignConstraintSignal", "other")), False),
    (3, 2, (("AssignConstraintSignal", "i0"), ("AssignConstraintSignal", "i1")), False),
    (1, 2, (("AssignConstraintSignal", "i0"), ("AssignConstraintSignal", "i0")), False), (0, 1, (("AssignConstraintSignal", "i0"),), False)]


def anonymous(F, r):
    r.rule("anonymous", "T(p)(e..) becomes a declaration of a component (indexed by the counter inside a loop), its instantiation with the given parameters, one `<==` per input from the expression given for it "
                        "(by position or by name), and its outputs in order as value; a template that does not exist, a wrong number of inputs, unknown or repeated names and operators other than `<==` are errors")
    f = F.find(M + "remove_anonymous_from_expression"); r.fn(f)
    S, X, A, O, VT = (adt_id(F, n) for n in ("Statement", "Expression", "Access", "AssignOp", "VariableType"))
    H = re.compile(r"remove_anonymous_from_(statement|expression)$")
    for nout in (0, 1, 2):
        for loop in (False, True):
            for par in (False, True):
                for ni, ns, names, good in CASES:
                    if par and (names or nout != 1): continue
                    outs = mk("array", *[mk("tuple", STR("o%d" % i), INT(0)) for i in range(nout)])
                    ins = mk("array", *[mk("tuple", STR("i%d" % i), INT(0)) for i in range(ni)])
                    inmap = mk("array", *[mk("tuple", STR("i%d" % i), PARAM("wire%d" % i)) for i in range(ni)])
                    counter = PARAM("counter")
                    I = {**META, **IS, **{k: v for k, v in BUILD.items() if "build_" not in k},
                         r"get_declaration_inputs$": pure(lambda t: ins), r"get_declaration_outputs$": pure(lambda t: outs), r"TemplateData::get_inputs$|template_data::\w+::get_inputs$": pure(lambda t: inmap),
                         r"get_name$": opaque("name")}
                    V = Visits(F, re.escape(M), intr=I, result=pieces, inline=lambda name, child: not H.search(name), loop_visits=8)
                    nm = NONE if names is None else SOME(mk("array", *[mk("tuple", unit_variant(F, "AssignOp", o), STR(n)) for o, n in names]))
                    try:
                        ps, kids = V.run(f, "Expression", "AnonymousComp", n=ns, names=nm, is_parallel=TRUE if par else FALSE, id=STR("T"), params=mk("array", PARAM("q0"), PARAM("q1")),
                                         args={"var_access": SOME(counter) if loop else NONE, "templates": mk("array", mk("tuple", STR("T"), PARAM("T.data")))})
                    except Budget as e: r.notes.append("anonymous component with %d inputs: undecided (%s)" % (ni, str(e)[:60])); continue
                    r.paths(len(ps))
                    key = "%d inputs, %s, %d outputs%s%s" % (ni, "positions" if names is None else "names %s" % ",".join("%s %s" % (o[6:], n) for o, n in names), nout, ", in a loop" if loop else "", ", parallel" if par else "") + (" (%d given)" % ns)
                    oks = [p for p in ps if p.variant() == "Ok"]
                    if not good:
                        r.check("anonymous", key, not oks and bool(ps), r.where(f), "accepted: " + key); continue
                    bad = {}
                    if not oks: bad["always rejected"] = None
                    for p in ps:
                        if p.variant() == "Err" and not p.events("^failed$"): bad["rejected without a reason"] = p
                    for p in oks:
                        if p.events("^failed$"): bad["an error in an input is dropped"] = p; continue
                        _anon(F, p, bad, kids, ns, names, nout, loop, par, counter, S, X, A)
                    r.check("anonymous", key, not bad, r.where(f), "%s: %s" % (key, "; ".join("%s (path %s)" % (m, p and p.show()[:120]) for m, p in list(bad.items())[:3])))
    V = Visits(F, re.escape(M), intr={**META, **IS, **BUILD}, result=pieces, inline=lambda name, child: not H.search(name))
    ps, kids = V.run(f, "Expression", "AnonymousComp", id=STR("T"), args={"templates": mk("array")})
    r.check("anonymous", "missing template", bool(ps) and all(p.variant() == "Err" for p in ps), r.where(f), "an anonymous component of a template that does not exist is accepted")


def _anon(F, p, bad, kids, ns, names, nout, loop, par, counter, S, X, A):
    v = p.v.a[2][0][1] if p.v.op == "adt" else None
    if v is None or v.op != "tuple" or len(v.a) != 3: raise Anchor("result of remove_anonymous_from_expression")
    decls, stmts, value = v.a
    if decls.op != "array" or stmts.op != "array": raise Anchor("declarations of an anonymous component")
    fld = lambda t, n: next((x for k, x in t.a[2] if k == n), None)
    own = [d for d in decls.a if d.op == "adt" and d.a[1] == "Declaration"]
    if len(own) != 1: bad["not declared once"] = p; return
    name = fld(own[0], "name"); xt = fld(own[0], "xtype"); dims = fld(own[0], "dimensions")
    if (xt.a[1] == "AnonymousComponent") != loop or (xt.a[1] == "Component") == loop: bad["declared as %s" % xt.a[1]] = p
    if loop and not contains(dims, counter) or not loop and dims.op == "array" and dims.a: bad["declared with the wrong dimensions"] = p
    flat = []
    for s in stmts.a:
        if s.op == "adt" and s.a[1] == "Block":
            b = fld(s, "stmts")
            if b.op != "array": raise Anchor("statements of an anonymous component")
            flat += list(b.a)
        else: flat.append(s)
    subs = [s for s in flat if s.op == "adt" and s.a[1] == "Substitution" and fld(s, "var") is name]
    if len(subs) != ns + 1: bad["%d assignments for %d inputs" % (len(subs) - 1, ns)] = p; return
    want = [n for _, n in names] if names else ["i%d" % i for i in range(ns)]

    def access(s, field):
        a = fld(s, "access") if s.a[1] == "Substitution" else fld(s, "access")
        if a.op != "array": raise Anchor("access")
        a = list(a.a)
        if loop:
            if not (a and a[0].a[1] == "ArrayAccess" and contains(a[0], counter)): return False
            a = a[1:]
        return a == [] if field is None else len(a) == 1 and a[0].a[1] == "ComponentAccess" and a[0].a[2][0][1] is STR(field)
    head = subs[0]
    if not access(head, None): bad["instantiated at the wrong place"] = p
    rh = fld(head, "rhe"); call = rh
    if par:
        if rh.op != "adt" or rh.a[1] != "ParallelOp": bad["parallel is lost"] = p; return
        call = fld(rh, "rhe")
    elif rh.op == "adt" and rh.a[1] == "ParallelOp": bad["made parallel"] = p; return
    if call.op != "adt" or call.a[1] != "Call" or fld(call, "id") is not STR("T") or fld(call, "args") is not mk("array", PARAM("q0"), PARAM("q1")): bad["instantiated with another template or other parameters"] = p
    for i, n in enumerate(want):
        new = mk("new", kids["signals%d" % i])
        if loop and any(e[1][0] is kids["signals%d" % i] and SOME(counter) not in e[1][2:] for e in p.events("^visit$")): bad["components inside input expression %d are not indexed" % i] = p
        hit = [s for s in subs[1:] if fld(s, "rhe") is new]
        if len(hit) != 1: bad["input expression %d is not assigned once" % i] = p; continue
        if not access(hit[0], n): bad["expression %d goes to another input than %s" % (i, n)] = p
        if fld(hit[0], "op").a[1] != "AssignConstraintSignal": bad["input assigned with %s" % fld(hit[0], "op").a[1]] = p
        # what the expression needs comes before its use and after nothing that uses it
        pos = [k for k, s in enumerate(flat) if contains(s, mk("subs", kids["signals%d" % i]))]
        if not pos or pos[0] > flat.index(hit[0]): bad["what input expression %d needs is not evaluated before it" % i] = p
        if not contains(decls, mk("decls", kids["signals%d" % i])): bad["declarations of input expression %d are lost" % i] = p
    vals = [value]
    if nout != 1:
        if value.op != "adt" or value.a[1] != "Tuple": bad["outputs are not a tuple"] = p; return
        t = fld(value, "values")
        if t.op != "array": raise Anchor("outputs")
        vals = list(t.a)
    if len(vals) != nout: bad["%d outputs of %d" % (len(vals), nout)] = p; return
    for i, x in enumerate(vals):
        if x.op != "adt" or x.a[1] != "Variable" or fld(x, "name") is not name or not access(x, "o%d" % i): bad["output %d is not the value at its place" % i] = p


def parallel(F, r):
    r.rule("parallel", "`parallel` before an anonymous component makes its component parallel; before anything else it is kept")
    f = F.find(M + "remove_anonymous_from_expression"); H = re.compile(r"remove_anonymous_from_(statement|expression)$")
    V = Visits(F, re.escape(M), intr={**META, **BUILD, IMPL + r"is_anonymous_comp$": answer, IMPL + r"make_anonymous_parallel$": pure(lambda x: mk("parallel", x))}, result=pieces, inline=lambda name, child: not H.search(name))

    def rec(E, st, name, args, fn, line):
        x = [E.deref(st, a) for a in args]; y = next((t for t in x if t.op == "parallel"), None)
        if y is None: return NotImplemented
        E.event(st, "again", (y,), line, fn); return [(st, OK(mk("tuple", mk("array"), mk("array"), mk("new", y))))]
    V.I = {r"remove_anonymous_from_expression$": rec, **V.I}
    ps, kids = V.run(f, "Expression", "ParallelOp"); t = kids["rhe"]; bad = None
    for p in ps:
        y = any(e[1][1] is t for e in p.events("^yes$"))
        if y and not any(contains(e[1][0], t) for e in p.events("^again$")): bad = p
        if not y and not contains(p.v, lambda x: x.op == "adt" and x.a[1] == "ParallelOp"): bad = p
    r.check("parallel", "operator", bad is None and bool(ps), r.where(f), "`parallel` is dropped (path %s)" % (bad and bad.show()))
    g = [x for x in F.fns.values() if x.id.endswith("::make_anonymous_parallel")]
    if len(g) != 1: r.notes.append("make_anonymous_parallel: undecided"); return
    node, kids = children(F, "Expression", "AnonymousComp", is_parallel=PARAM("flag"))
    ps, E = explore(F, g[0], [node], intr={**maps.intrinsics()}); r.paths(len(ps))
    ok = bool(ps) and all(p.v.op == "adt" and p.v.a[1] == "AnonymousComp" and all(x is (TRUE if k == "is_parallel" else y) for (k, x), (_, y) in zip(p.v.a[2], node.a[2])) for p in ps)
    r.check("parallel", "make_anonymous_parallel", ok, r.where(g[0]), "make_anonymous_parallel changes something else than the flag")


def statements(F, r):
    r.rule("statements", "what an assigned expression gives rise to is executed before the assignment, which keeps its target and operator; the components of a loop are indexed by a fresh variable, declared, set to 0 before the loop and increased once at the end of every pass")
    f = F.find(M + "remove_anonymous_from_statement"); H = re.compile(r"remove_anonymous_from_(statement|expression)$")
    intr = {**META, **IS, **{k: v for k, v in BUILD.items() if "build_" not in k}}
    fld = lambda t, n: next((x for k, x in t.a[2] if k == n), None)

    def spread(p, t):
        v = p.v.a[2][0][1]
        if v.op != "tuple" or len(v.a) != 4 or any(x.op != "array" for x in v.a[1:]) or v.a[0].op != "adt": raise Anchor("result of remove_anonymous_from_statement")
        return v.a

    def flat(s): return [y for x in fld(s, "stmts").a for y in flat(x)] if s.op == "adt" and s.a[1] == "Block" and fld(s, "stmts").op == "array" else [s]
    for fn, kind, forms in (("statement", "Statement", NEST + ("Substitution", "MultSubstitution")), ("expression", "Expression", ("ArrayInLine", "Tuple"))):
        g = F.find("%sremove_anonymous_from_%s" % (M, fn)); ctx = SOME(PARAM("counter"))
        V = Visits(F, re.escape(M), intr={**META, **IS, **BUILD}, result=pieces, inline=lambda name, child: not H.search(name))
        for v in forms:
            if v == "While": continue
            ps, kids = V.run(g, kind, v, args={"var_access": ctx})
            lost = [p for p in ps for e in p.events("^visit$") if H.search(e[1][1].a[0]) and not any(x is ctx for x in e[1][2:])]
            r.check("statements", "%s in a loop" % v, not lost and bool(ps), r.where(g), "the components inside a %s of a loop are not indexed by its counter" % v)
    for v in ("Substitution", "MultSubstitution"):
        V = Visits(F, re.escape(M), intr=intr, result=pieces, inline=lambda name, child: not H.search(name))
        ps, kids = V.run(f, "Statement", v); r.paths(len(ps)); bad = None; n = 0; t = kids["rhe"]; node = V.node if hasattr(V, "node") else None
        for p in ps:
            if p.variant() != "Ok" or p.events("^failed$"): continue
            n += 1; s, decls, vs, subs = spread(p, t); ss = flat(s)
            if len(ss) != 2 or ss[0] is not mk("subs", t): bad = "what the value gives rise to does not come right before the assignment"; continue
            a = ss[1]
            if a.op != "adt" or a.a[1] != v or fld(a, "rhe") is not mk("new", t): bad = "is not the assignment of the new value"; continue
            for k in ("op", "var", "access") if v == "Substitution" else ("op",):
                x = fld(a, k)
                if not (x.op == "param" and x.a[0].endswith("." + k) or x is kids.get(k) or contains(x, lambda y: y in kids.values() or y.op == "param" and y.a[0].endswith("." + k))): bad = "the %s changes" % k
            if v == "MultSubstitution" and not contains(a, kids["lhe"]): bad = "the targets change"
        r.check("statements", v, bad is None and n > 0, r.where(f), "%s: %s" % (v, bad or "never accepted"))
    V = Visits(F, re.escape(M), intr=intr, result=pieces, inline=lambda name, child: not H.search(name))
    ps, kids = V.run(f, "Statement", "While", args={"var_access": NONE}); r.paths(len(ps)); bad = {}; n = 0; t = kids["stmt"]
    for p in ps:
        if p.variant() != "Ok" or p.events("^failed$"): continue
        n += 1; s, decls, vs, subs = spread(p, t)
        if s.a[1] != "While" or fld(s, "cond") is not kids["cond"]: bad["the condition changes"] = p; continue
        body = flat(fld(s, "stmt"))
        own = [d for d in vs.a if d.op == "adt" and d.a[1] == "Declaration"]
        if len(own) != 1 or fld(own[0], "xtype").a[1] != "Var" or fld(own[0], "dimensions").a: bad["the counter is not declared as a variable"] = p; continue
        name = fld(own[0], "name")
        isvar = lambda x: x.op == "adt" and x.a[1] == "Variable" and fld(x, "name") is name and not fld(x, "access").a
        given = [e[1][2:] for e in p.events("^visit$") if e[1][0] is t]
        if len(given) != 1 or not any(contains(x, isvar) for x in given[0]): bad["the body is not indexed by the counter"] = p
        num = lambda x, i: x.op == "adt" and x.a[1] == "Number" and contains(x, lambda y: y is INT(i))
        assigns = lambda x: x.op == "adt" and x.a[1] == "Substitution" and fld(x, "var") is name and not fld(x, "access").a and fld(x, "op").a[1] == "AssignVar"
        zero = [x for x in subs.a if assigns(x)]
        if len(zero) != 1 or not num(fld(zero[0], "rhe"), 0): bad["the counter does not start at 0"] = p
        if len(body) != 2 or body[0] is not mk("new", t) or not assigns(body[1]): bad["the counter is not increased once at the end of the body"] = p; continue
        e = fld(body[1], "rhe")
        if e.a[1] != "InfixOp" or fld(e, "infix_op").a[1] != "Add" or not any(isvar(fld(e, a)) and num(fld(e, b), 1) for a, b in (("lhe", "rhe"), ("rhe", "lhe"))): bad["the counter is not increased by 1"] = p
    r.check("statements", "While", not bad and n > 0, r.where(f), "; ".join("%s (path %s)" % (m, p.show()[:120]) for m, p in bad.items()) or "never accepted")


# ------------------------------------------------------------------------------------------------- tuples
def assignments(F, r):
    r.rule("assignments", "an assignment of tuples of the same length is the assignments of their elements in order with its operator (`_` takes any value); different lengths, a value that is not a tuple and targets that are not variables are errors")
    f = F.find(M + "remove_tuples_from_statement"); r.fn(f)
    S, X = adt_id(F, "Statement"), adt_id(F, "Expression")
    var = lambda n: ADT(X, "Variable", (("meta", PARAM("m." + n)), ("name", STR(n)), ("access", PARAM("acc." + n))))
    tup = lambda *xs: ADT(X, "Tuple", (("meta", PARAM("tm")), ("values", mk("array", *xs))))
    num = lambda n: ADT(X, "Number", (("0", PARAM("nm")), ("1", PARAM("n%d" % n))))
    fld = lambda t, n: next((x for k, x in t.a[2] if k == n), None)
    I = {**maps.intrinsics(), **META, r"::\w+_error$": opaque("report")}

    def go(lhe, rhe, o):
        node, _ = children(F, "Statement", "MultSubstitution", lhe=lhe, rhe=rhe, op=unit_variant(F, "AssignOp", o))
        ps, E = explore(F, f, [node], intr=I, loop_visits=8, rec=6); r.paths(len(ps)); return ps
    vals = [num(0), num(1), num(2)]
    for o in ("AssignVar", "AssignSignal", "AssignConstraintSignal"):
        for l, nr in ((("a", "b"), 2), (("a", "_", "c"), 3), (("_", "b"), 2), (("a", "b"), 1), (("a", "b"), 3), (("a",), 0), ((), 1)):
            ps = go(tup(*[var(x) for x in l]), tup(*vals[:nr]), o); bad = None
            for p in ps:
                if len(l) != nr:
                    if p.variant() != "Err": bad = "accepted"
                    continue
                if p.variant() != "Ok": bad = "rejected"; continue
                b = p.v.a[2][0][1]
                if b.op != "adt" or b.a[1] != "Block" or fld(b, "stmts").op != "array": bad = "not a block"; continue
                ss = fld(b, "stmts").a
                if len(ss) != nr: bad = "%d assignments" % len(ss); continue
                for x, s, w in zip(l, ss, vals):
                    if x == "_": ok = s.a[1] in ("UnderscoreSubstitution",) and fld(s, "rhe") is w
                    else: ok = s.a[1] == "Substitution" and fld(s, "var") is STR(x) and fld(s, "access") is PARAM("acc." + x) and fld(s, "rhe") is w
                    if not ok or fld(s, "op") is not unit_variant(F, "AssignOp", o): bad = "`%s` is assigned wrongly" % x
            key = "(%s) %s (%d values)" % (",".join(l), o, nr)
            r.check("assignments", key, bad is None and bool(ps), r.where(f), "%s: %s" % (key, bad))
    for what, lhe, rhe in (("a number as target", tup(num(0), var("b")), tup(*vals[:2])), ("a single value for a tuple", tup(var("a"), var("b")), num(0)),
                           ("a tuple for a variable", var("a"), tup(*vals[:2])), ("a number as only target", num(0), tup(*vals[:2])), ("a call result as target", var("a"), num(0))):
        ps = go(lhe, rhe, "AssignConstraintSignal")
        r.check("assignments", what, bool(ps) and all(p.variant() == "Err" for p in ps), r.where(f), "accepted: " + what)
    for nm in ("a", "_"):
        for rhe, good in ((tup(*vals[:2]), False), (num(0), True)):
            for o in ("AssignVar", "AssignSignal", "AssignConstraintSignal"):
                node, _ = children(F, "Statement", "Substitution", var=STR(nm), rhe=rhe, op=unit_variant(F, "AssignOp", o), access="")
                ps, E = explore(F, f, [node], intr=I, loop_visits=8, rec=6); r.paths(len(ps)); key = "%s %s %s" % (nm, o, rhe.a[1])
                if not good: ok = all(p.variant() == "Err" for p in ps)
                else:
                    out = [p.v.a[2][0][1] for p in ps if p.variant() == "Ok"]
                    ok = len(out) == len(ps) and all(s.a[1] == ("Substitution" if nm == "a" else "UnderscoreSubstitution") and fld(s, "rhe") is rhe and fld(s, "op") is unit_variant(F, "AssignOp", o) for s in out)
                r.check("assignments", key, ok and bool(ps), r.where(f), "%s is %s" % (key, "accepted" if not good else "not kept"))


def flattening(F, r):
    r.rule("flattening", "nested tuples are flattened in order; other expressions are kept as they are")
    f = F.find(M + "remove_tuple_from_expression"); r.fn(f)
    X = adt_id(F, "Expression")
    tup = lambda *xs: ADT(X, "Tuple", (("meta", PARAM("tm")), ("values", mk("array", *xs))))
    num = lambda n: ADT(X, "Number", (("0", PARAM("nm")), ("1", PARAM("n%d" % n))))
    fld = lambda t, n: next((x for k, x in t.a[2] if k == n), None)
    a = [num(i) for i in range(5)]
    for node, want in ((tup(a[0], tup(a[1], a[2]), a[3]), a[:4]), (tup(tup(a[0], tup(a[1], a[2])), a[3]), a[:4]), (tup(), []), (tup(tup()), []), (tup(a[0]), a[:1])):
        ps, E = explore(F, f, [node], intr={**maps.intrinsics(), **META}, loop_visits=8, rec=6); r.paths(len(ps))
        ok = bool(ps) and all(p.v.a[1] == "Tuple" and fld(p.v, "values") is mk("array", *want) for p in ps)
        r.check("flattening", show_tuple(node), ok, r.where(f), "%s is not flattened in order" % show_tuple(node))
    for v in EXPR:
        if v in ("AnonymousComp", "Tuple"): continue
        node, _ = children(F, "Expression", v)
        ps, E = explore(F, f, [node], intr={**maps.intrinsics(), **META}); r.paths(len(ps))
        r.check("flattening", v, bool(ps) and all(p.v is node for p in ps), r.where(f), "a %s is changed by the removal of tuples" % v)


def show_tuple(t): return "(%s)" % ",".join(show_tuple(x) for x in dict(t.a[2])["values"].a) if t.a[1] == "Tuple" else "e"


def logs(F, r):
    r.rule("logs", "a tuple in a log is printed as its elements between parentheses, in order; the other arguments are kept")
    f = F.find(M + "remove_tuples_from_statement")
    X, L, S = adt_id(F, "Expression"), adt_id(F, "LogArgument"), adt_id(F, "Statement")
    tup = lambda *xs: ADT(X, "Tuple", (("meta", PARAM("tm")), ("values", mk("array", *xs))))
    num = lambda n: ADT(X, "Number", (("0", PARAM("nm")), ("1", PARAM("n%d" % n))))
    e = lambda x: ADT(L, "LogExp", (("0", x),)); s = lambda x: ADT(L, "LogStr", (("0", STR(x)),))
    fld = lambda t, n: next((x for k, x in t.a[2] if k == n), None)
    for args, want in (((e(num(0)), s("t"), e(num(1))), (num(0), "t", num(1))), ((e(tup(num(0), tup(num(1), num(2)))), s("t")), (num(0), num(1), num(2), "t")), ((), ())):
        node = ADT(S, "LogCall", (("meta", PARAM("c.meta")), ("args", mk("array", *args))))
        ps, E = explore(F, f, [node], intr={**maps.intrinsics(), **META, r"build_log_call$": lambda E, st, n, a, fn, line: [(st, ADT(S, "LogCall", (("meta", E.deref(st, a[0])), ("args", E.deref(st, a[1])))))]}, loop_visits=12, rec=6); r.paths(len(ps)); ok = bool(ps)
        for p in ps:
            if p.variant() != "Ok": ok = False; continue
            o = p.v.a[2][0][1]; a = fld(o, "args") if o.op == "adt" and o.a[1] == "LogCall" else None
            if a is None or a.op != "array": raise Anchor("log call")
            got = [x.a[2][0][1].a[0] if x.a[1] == "LogStr" and isinstance(x.a[2][0][1].a[0], str) else x.a[2][0][1] for x in a.a]
            ok = ok and [g for g in got if g not in ("(", ")", ", ", ",")] == list(want)
        r.check("logs", "%d arguments, %d values" % (len(args), len(want)), ok, r.where(f), "the arguments of a log are not kept in order")
