"""C03: `<==` and `===` constrain every element or fail; `<--`, `=` and `_ <==` never constrain."""
from ..exec_model import *

ADD = r"ExecutedTemplate::add_constraint$"
BASE = (("signal", "arith", 0), ("component", "arith", 1), ("component", "arith", 2), ("component", "bus", 1), ("component", "bus", 2),
        ("bus", "arith", 1), ("bus", "arith", 2), ("bus", "bus", 0), ("bus", "bus", 1), ("bus", "bus", 2))


def run(F, r):
    r.do(F, substitution, equality, underscore, pairs, names, sequences, export)


def statement(F, st, kind="signal", node=True, intr=None, stop=STOP, **rt):
    I = {**TREAT, **ASSIGN, **UNWRAP, **env(kind), **slices_of(), r"execute::execute_expression$": fold_expr,
         r"execute::treat_accessing": fallible(PARAM("acc"), UNIT)}
    I.update(intr or {})
    run_ = build(F, "RuntimeInformation", None, "rt", **rt) if rt else PARAM("rt")
    return explore(F, "execute::execute_statement", [st, PARAM("pa"), run_, SOME(PARAM("node")) if node else NONE, PARAM("flags")], stop=stop, intr=I, loop_visits=8)


def difference(t):
    """the two operands of the difference a constraint expression is made of, in any order"""
    for x in subterms(t):
        if x.op == "call" and re.search(r"ArithmeticExpression::<C>::sub$", x.a[0]): return frozenset((x.a[1], x.a[2]))
    return None


def nonquadratic(p, pair):
    """was some expression made of (one or both of) the pair found non-quadratic on this path"""
    return any(v and any(contains(t, c) for c in pair) for t, v in p.bools(lambda t: t.op == "call" and t.a[0].endswith("is_nonquadratic")))


def judged(r, rule, what, f, p, want):
    """a successful path adds exactly the constraints of the wanted pairs, in any order"""
    got = [difference(e[1][-1]) for e in p.events(ADD)]
    ok = all(any(g == w for g in got) for w in want)
    r.check(rule, "%s: every element constrained" % what, ok, r.where(f),
            "%s succeeds constraining only %d of %d elements (path: %s)" % (what, sum(w in got for w in want), len(want), p.show()[-160:]))
    r.check(rule, "%s: only its own elements constrained" % what, all(g in want for g in got), r.where(f), "%s adds a constraint that does not equate corresponding elements of its sides" % what)
    r.check(rule, "%s: none accepted as non-quadratic" % what, not any(nonquadratic(p, w) for w in want), r.where(f), "%s succeeds with a non-quadratic element" % what)
    for e in p.events(ADD):
        r.check(rule, "%s: constraint form" % what, contains(e[1][-1], lambda x: x.op == "call" and x.a[0].endswith("transform_expression_to_constraint_form")) and
                contains(e[1][0], PARAM("node")), r.where(f), "%s: constraint added to another node or not in constraint form" % what)


def substitution(F, r):
    r.rule("assign", "`<==`: on every successful path each pair (left[i], right[i]) returned by the assignment is constrained equal, none is non-quadratic, and the block is known; "
                     "`<--` and `=`: no path adds a constraint")
    f = F.find("execute::execute_statement"); r.fn(f)
    con = PARAM("constrained")
    PA = {r"execute::perform_assign$": oracle([OK(NONE), OK(SOME(con)), UNITERR])}
    want = [frozenset((mk("cell", getf(con, "left"), INT(i)), mk("cell", getf(con, "right"), INT(i)))) for i in range(N)]
    for kind in ("signal", "component", "bus", "variable"):
        for op in ("AssignConstraintSignal", "AssignSignal", "AssignVar"):
            st = build(F, "Statement", "Substitution", op=unit_variant(F, "AssignOp", op))
            ps, E = statement(F, st, kind, intr=PA)
            r.paths(len(ps))
            good = [p for p in ps if p.variant() == "Ok"]
            r.check("assign", "%s %s can succeed" % (kind, op), bool(good), r.where(f), "assignment %s to a %s never succeeds" % (op, kind))
            for p in ps:
                if p.variant() == "Ok" and failed_steps(p):
                    r.check("assign", "%s %s: failed step" % (kind, op), False, r.where(f), "%s succeeds although %s failed" % (op, failed_steps(p)))
                if op != "AssignConstraintSignal":
                    r.check("assign", "%s %s never constrains" % (kind, op), not p.events(ADD), r.where(f), "%s on a %s adds a constraint (path: %s)" % (op, kind, p.show()[-160:]))
            if op == "AssignConstraintSignal":
                for p in good:
                    judged(r, "assign", "%s <==" % kind, f, p, want)
                    pa = p.events(r"execute::perform_assign$")
                    r.check("assign", "%s <== performs the assignment once" % kind, len(pa) == 1, r.where(f), "`<==` performs %d assignments" % len(pa))
                    for e in pa:
                        r.check("assign", "%s assigned value and target" % kind, e[1][1] is getf(st, "var") and e[1][2] is getf(st, "op") and e[1][4] is mk("fold", getf(st, "rhe")),
                                r.where(f), "the assignment is not performed with the statement's variable, operator and right-hand side")
                good = [p for p in ps if p.variant() == "Ok" and p.is_(getf(PARAM("rt"), "block_type"), "Unknown")]
                r.check("assign", "%s <== under an unknown condition" % kind, not good, r.where(f), "`<==` succeeds inside a block under an unknown condition")
            else:
                for p in good:
                    pa = p.events(r"execute::perform_assign$")
                    r.check("assign", "%s %s performs the assignment once" % (kind, op), len(pa) == 1 and pa[0][1][2] is getf(st, "op") and pa[0][1][4] is mk("fold", getf(st, "rhe")), r.where(f), "`%s` performs %d assignments" % (op, len(pa)))


def equality(F, r):
    r.rule("equality", "`===`: on every successful path each pair of corresponding elements (or of the signals of two buses of the same type) is constrained equal; dimensions and bus types were compared first")
    f = F.find("execute::execute_statement")
    st = build(F, "Statement", "ConstraintEquality")
    L, Rr = mk("fold", getf(st, "lhe")), mk("fold", getf(st, "rhe"))
    for shape in ("arith", "bus"):
        I = {r"FoldedValue::valid_arithmetic_slice$": pure(lambda v: TRUE if shape == "arith" else FALSE), r"FoldedValue::valid_bus_slice$": pure(lambda v: TRUE if shape == "bus" else FALSE),
             r"safe_unwrap_to_arithmetic_slice$": pure(lambda v, l: mk("slice", v)), r"safe_unwrap_to_bus_slice$": pure(lambda v, l: mk("tuple", mk("bname", v), mk("slice", v))),
             }
        ps, E = statement(F, st, intr=I)
        r.paths(len(ps))
        good = [p for p in ps if p.variant() == "Ok"]
        r.check("equality", "%s can succeed" % shape, bool(good), r.where(f), "=== never succeeds")
        sl, sr = mk("slice", L), mk("slice", Rr)
        if shape == "arith": want = [frozenset((mk("cell", sl, INT(i)), mk("cell", sr, INT(i)))) for i in range(N)]
        else:
            A = adt_id(F, "ArithmeticExpression")
            want = []
            for i in range(N):
                for j in range(2):
                    want.append((mk("unfold_name", mk("bname", L), INT(i)), mk("unfold_name", mk("bname", Rr), INT(i)), mk("inner", INT(j))))
        for p in good:
            if shape == "arith": judged(r, "equality", "=== on arrays", f, p, want)
            else:
                got = [difference(e[1][-1]) for e in p.events(ADD)]
                got = [tuple(sorted(show(getf(x, "symbol")) for x in g)) if g else None for g in got]
                ref = [tuple(sorted("cat[%s,%s]" % (show(w[k]), show(w[2])) for k in (0, 1))) for w in want]
                if all(g and all(x.startswith("cat[") for x in g) for g in got):
                    r.check("equality", "=== on buses", sorted(got) == sorted(ref), r.where(f), "=== on buses constrains %s, expected %s" % (got[:2], ref[:2]))
                else: r.notes.append("=== on buses: element names not in a recognised form")
                ptr = [t for t, v in p.bools(lambda t: t.op == "Eq" or t.op == "call" and t.a[0].endswith("::eq") or t.op == "Ne") if contains(t, lambda x: x.op == "field" and x.a[1] == "node_pointer")]
                eqs = p.bools(lambda t: contains(t, lambda x: x.op == "field" and x.a[1] == "node_pointer"))
                r.check("equality", "=== on buses compares their types", bool(eqs), r.where(f), "=== accepts two buses without comparing their types")
            dims = p.events(r"check_correct_dims$")
            r.check("equality", "%s dimensions compared" % shape, any({e[1][0], e[1][2]} == {sl, sr} and e[1][3] is TRUE for e in dims), r.where(f), "=== on %s does not compare the dimensions of its two sides strictly" % shape)
            r.check("equality", "%s failed step" % shape, not failed_steps(p), r.where(f), "=== succeeds although %s failed" % failed_steps(p))
            r.check("equality", "%s in an unknown block" % shape, p.is_(getf(PARAM("rt"), "block_type"), "Unknown") is not True, r.where(f), "=== succeeds under an unknown condition")
        # mismatching bus types are an error
        if shape == "bus":
            r.check("equality", "=== on different bus types", any("MismatchedInstances" in codes(p) for p in ps), r.where(f), "=== on buses of different types is not reported")


def underscore(F, r):
    r.rule("none", "statements other than `<==` and `===` never add a constraint themselves")
    f = F.find("execute::execute_statement")
    V = [v[0] for v in F.adts[adt_id(F, "Statement")]["variants"]]
    SUB = {r"execute::execute_conditional_statement$": oracle([OK(mk("tuple", NONE, PARAM("simp"), NONE)), OK(mk("tuple", NONE, PARAM("simp"), SOME(FALSE))), UNITERR]),
           r"execute::execute_sequence_of_statements$": oracle([OK(mk("tuple", NONE, PARAM("simp"))), UNITERR]),
           r"execute::execute_\w+_declaration$": fallible(UNIT, UNIT)}
    n = 0
    for v in V:
        if v in ("Substitution", "ConstraintEquality", "MultSubstitution"): continue
        ops = ("AssignConstraintSignal", "AssignSignal") if v == "UnderscoreSubstitution" else (None,)
        for op in ops:
            st = build(F, "Statement", v, **({"op": unit_variant(F, "AssignOp", op)} if op else {}))
            ps, E = statement(F, st, intr={**SUB, r"FoldedValue::valid_arithmetic_slice$": pure(lambda v: mk("valid_arith", v))})
            n += len(ps)
            r.check("none", "%s" % v, not any(p.events(ADD) for p in ps), r.where(f), "executing %s adds a constraint" % v)
    r.paths(n)
    # every caller of add_constraint is one of the places examined here
    allowed = F.reach([f.id]) | {f.id}
    for s in F.call_sites(lambda c: re.search(ADD, c["r"] or c["p"])):
        r.check("none", "caller of add_constraint", s[0].id in allowed, r.where(s[0]), "constraints are added outside statement execution, in %s" % s[0].id)


def pairs(F, r):
    r.rule("pairs", "the assignment of a signal, component input or bus (whole or field) returns the pair (elements assigned, elements of the value) of equal shape, in the same element order; "
                    "variables, tags and instantiations return none; every failed step fails the assignment")
    f = F.find("execute::perform_assign"); r.fn(f)
    for op in ("AssignConstraintSignal", "AssignSignal"):
        for kind, rhs, depth in BASE:
            (ps, E), acc = assign_paths(F, op, kind, rhs, depth)
            r.paths(len(ps))
            what = "%s := %s (%d fields, %s)" % (kind, rhs, depth, op)
            good = [p for p in ps if p.variant() == "Ok"]
            r.check("pairs", "%s succeeds" % what, bool(good), r.where(f), "%s never succeeds" % what)
            for p in good:
                r.check("pairs", "%s failed step" % what, not failed_steps(p), r.where(f), "%s succeeds although %s failed" % (what, failed_steps(p)))
                v = getf(downcast(p.v, "Ok"), "0")
                if p.E.variant(p.st, v) == "None":
                    r.check("pairs", "%s yields its elements" % what, False, r.where(f), "%s succeeds without returning the elements to constrain (path: %s)" % (what, p.show()[-160:])); continue
                c = getf(downcast(v, "Some"), "0")
                left, right = getf(c, "left"), getf(c, "right")
                full = mk("name", PARAM("symbol"), acc)
                if rhs == "arith":
                    ref = [mk("unfolded", full, mk("route", R), INT(i)) for i in range(N)]
                    got = [getf(cell_of(left, INT(i)), "symbol") for i in range(N)]
                    ok = right is R and left.op == "slice_of" and left.a[1].op == "array" and len(left.a[1].a) == N and got == ref and left.a[0] is mk("route", R)
                    r.check("pairs", what, ok, r.where(f), "%s returns left %s / right %s" % (what, show(left)[:160], show(right)[:80]))
                else:
                    okl = left.op == "slice_of" and right.op == "slice_of" and left.a[1].op == "array" and right.a[1].op == "array"
                    if not okl: r.notes.append("%s: pair not in a recognised form" % what); continue
                    ls = [show(getf(x, "symbol")) for x in left.a[1].a]; rs = [show(getf(x, "symbol")) for x in right.a[1].a]
                    refl = ["cat[%s,%s,%s]" % (show(full), show(mk("appendix", mk("access_index", mk("route", R), INT(i)))), show(mk("inner", INT(j)))) for i in range(N) for j in range(2)]
                    refr = ["cat[%s,%s]" % (show(mk("unfold_name", PARAM("r_name"), INT(i))), show(mk("inner", INT(j)))) for i in range(N) for j in range(2)]
                    if not all(x.startswith("cat[") for x in ls + rs): r.notes.append("%s: names not in a recognised form" % what); continue
                    r.check("pairs", what, sorted(zip(ls, rs)) == sorted(zip(refl, refr)), r.where(f), "%s pairs %s with %s" % (what, ls[:2], rs[:2]))
    for kind, rhs, tag in (("variable", "arith", False), ("signal", "arith", True), ("component", "node", False), ("bus", "busnode", False)):
        (ps, E), acc = assign_paths(F, "AssignVar", kind, rhs, 0, tag=tag)
        r.paths(len(ps))
        for p in ps:
            if p.variant() != "Ok": continue
            r.check("pairs", "%s := %s failed step" % (kind, rhs), not failed_steps(p), r.where(f), "assignment of a %s succeeds although %s failed" % (kind, failed_steps(p)))
            v = getf(downcast(p.v, "Ok"), "0")
            r.check("pairs", "%s := %s none" % (kind, rhs), p.E.variant(p.st, v) == "None", r.where(f), "assigning a %s yields elements to constrain" % kind)


def names(F, r):
    r.rule("names", "element names: symbol, indices in order, '.field', recursively; an array unfolds to one name per element in row-major order; a bus to the names of all its fields")
    A = lambda *x: mk("array", *x)
    flat = lambda t: [x for x in (t.a if t.op == "cat" else (t,)) if not (x.op == "str" and x.a[0] == "")]

    def text(t):
        o = []
        def go(x):
            if x.op == "cat":
                for y in x.a: go(y)
            elif x.op == "str": o.append(x.a[0])
            elif x.op == "int": o.append(str(x.a[0]))
            else: o.append("<%s>" % show(x))
        go(t); return "".join(o)

    def one(fn, args, want, what, out=None, intr=None):
        g = F.find(fn); r.fn(g)
        ps, E = explore(F, g, args, intr=intr, rec=4, loop_visits=6)
        r.paths(len(ps))
        for p in ps:
            v = p.v if out is None else p.E.deref(p.st, out)
            if out is not None: v = p.st.mem.get(("T", out), v)
            got = text(v) if v.op != "array" else [text(x) for x in v.a]
            if "(" in str(got): r.notes.append("%s: result not evaluated (%s)" % (what, str(got)[:80])); continue
            r.check("names", what, got == want, r.where(g), "%s yields %s, expected %s" % (what, got, want))
    i, j, k = PARAM("i"), PARAM("j"), PARAM("k")
    one("execute::create_index_appendix", [A(i, j)], "[<$i>][<$j>]", "index appendix")
    one("execute::create_index_appendix", [A()], "", "empty index appendix")
    acc = lambda arr, fld=NONE, rem=NONE: build(F, "AccessingInformationBus", None, "b", array_access=arr, field_access=fld, remaining_access=rem)
    one("execute::create_symbol_bus", [PARAM("x"), acc(A(i))], "<$x>[<$i>]", "name of an indexed symbol")
    one("execute::create_symbol_bus", [PARAM("x"), acc(A(i), SOME(PARAM("f")), SOME(acc(A(j), SOME(PARAM("g")), SOME(acc(A(k))))))], "<$x>[<$i>].<$f>[<$j>].<$g>[<$k>]", "name of a nested access")
    one("execute::create_symbol", [PARAM("x"), build(F, "AccessingInformation", None, "b", before_signal=A(i), signal_access=NONE, after_signal=A())], "<$x>[<$i>]", "name of an indexed signal")
    one("execute::create_symbol", [PARAM("x"), build(F, "AccessingInformation", None, "b", before_signal=A(i), signal_access=SOME(PARAM("f")), after_signal=A(j))], "<$x>[<$i>].<$f>[<$j>]", "name of an accessed signal")
    out = PARAM("out")
    for dims in ((), (2,), (2, 2), (1, 3)):
        import itertools
        ref = ["<$x>" + "".join("[%d]" % z for z in t) for t in itertools.product(*[range(d) for d in dims])]
        for fn in [x for x in F.fns if re.search(r"(execute|get_accesses_bus)::unfold_signals$", x)]:
            g = F.fns[fn]; r.fn(g)
            st0 = St(); st0.mem[("T", out)] = A()
            ps, E = explore(F, g, [PARAM("x"), INT(0), A(*[INT(d) for d in dims]), mk("ref", ("T", out), ())], st=st0, rec=4, loop_visits=6)
            r.paths(len(ps))
            for p in ps:
                v = p.st.mem.get(("T", out))
                if v is None or v.op != "array": r.notes.append("unfold_signals not evaluated"); continue
                got = [text(x) for x in v.a]
                r.check("names", "unfolding dimensions %s" % (dims,), got == ref, r.where(g), "an array of dimensions %s unfolds to %s" % (dims, got[:4]))


def sequences(F, r):
    r.rule("sequence", "a sequence executes its statements in order up to the first that returns or fails; blocks and initialisations execute their whole sequence; "
                       "a known condition executes exactly the chosen branch, an unknown one both; a loop executes its body while its condition holds")
    g = F.find("execute::execute_sequence_of_statements"); r.fn(g)
    s1, s2, s3 = PARAM("s1"), PARAM("s2"), PARAM("s3")
    none = OK(mk("tuple", NONE, PARAM("simp"))); ret = OK(mk("tuple", SOME(PARAM("ret")), PARAM("simp")))
    X = {r"execute::execute_statement$": oracle([none, ret, UNITERR]), r"execute::execute_delayed_declarations$": fallible(UNIT, UNIT)}
    for whole in (TRUE, FALSE):
        ps, E = explore(F, g, [mk("array", s1, s2, s3), PARAM("pa"), PARAM("rt"), PARAM("node"), PARAM("flags"), whole], stop=STOP, intr=X)
        r.paths(len(ps))
        for p in ps:
            done = [e[1][0] for e in p.events(r"execute_statement$")]
            ok = done == [s1, s2, s3][:len(done)]
            r.check("sequence", "order", ok, r.where(g), "statements executed out of order: %s" % [show(x) for x in done])
            if p.variant() == "Ok":
                v = getf(getf(downcast(p.v, "Ok"), "0"), "0")
                if p.E.variant(p.st, v) == "None":
                    r.check("sequence", "all executed", done == [s1, s2, s3] and not failed_steps(p), r.where(g), "a sequence ends normally after %d of 3 statements" % len(done))
                    if whole is TRUE: r.check("sequence", "anonymous components declared", bool(p.events(r"delayed_declarations$")), r.where(g), "the delayed declarations of a template are not executed")
                else: r.check("sequence", "returned value", v is SOME(PARAM("ret")) or contains(v, PARAM("ret")), r.where(g), "a sequence returns another value")
            else: r.check("sequence", "failure", bool(failed_steps(p)), r.where(g), "a sequence fails although no statement did")
    f = F.find("execute::execute_statement")
    for v, fld in (("Block", "stmts"), ("InitializationBlock", "initializations")):
        st = build(F, "Statement", v)
        ps, E = statement(F, st, intr={r"execute::execute_sequence_of_statements$": oracle([none, ret, UNITERR])})
        for p in ps:
            seq = p.events(r"execute_sequence_of_statements$")
            r.check("sequence", "%s runs its statements" % v, len(seq) == 1 and seq[0][1][0] is getf(st, fld), r.where(f), "%s does not execute its statements exactly once" % v)
            r.check("sequence", "%s failure" % v, p.variant() == "Err" or not failed_steps(p), r.where(f), "%s succeeds although a statement failed" % v)
    c = F.find("execute::execute_conditional_statement"); r.fn(c)
    T_, E_ = PARAM("then"), PARAM("else")
    for known in (True, False, None):
        for els in (True, False):
            I = {**TREAT, **ASSIGN, **UNWRAP, **slices_of(), r"execute::execute_expression$": fold_expr, r"execute::execute_statement$": oracle([none, ret, UNITERR]),
                 r"get_boolean_equivalence$": pure(lambda a, p: NONE if known is None else SOME(TRUE if known else FALSE))}
            ps, E = explore(F, c, [PARAM("cond"), T_, SOME(E_) if els else NONE, PARAM("pa"), PARAM("rt"), PARAM("node"), PARAM("flags")], stop=STOP, intr=I)
            r.paths(len(ps))
            want = ([T_] if known else [E_] if els else []) if known is not None else [T_] + ([E_] if els else [])
            for p in ps:
                done = [e[1][0] for e in p.events(r"execute_statement$")]
                if p.variant() == "Ok":
                    r.check("sequence", "conditional known=%s else=%s" % (known, els), done == want and not failed_steps(p), r.where(c),
                            "a conditional with condition %s executes %s, expected %s" % (known, [show(x) for x in done], [show(x) for x in want]))
                    v = getf(getf(downcast(p.v, "Ok"), "0"), "2")
                    kv = p.E.variant(p.st, v)
                    r.check("sequence", "conditional result known=%s" % known, (kv == "None") == (known is None) and (known is None or getf(downcast(v, "Some"), "0") is (TRUE if known else FALSE)),
                            r.where(c), "a conditional reports its condition as %s when it is %s" % (show(v), known))
                else: r.check("sequence", "conditional failure", bool(failed_steps(p)), r.where(c), "a conditional fails although no step did")
    # if / while pass their own parts on
    st = build(F, "Statement", "IfThenElse", else_case=SOME(PARAM("else_case")))
    cond = lambda k: OK(mk("tuple", NONE, PARAM("simp"), k))
    I = {r"execute::execute_conditional_statement$": oracle([cond(NONE), cond(SOME(TRUE)), UNITERR])}
    ps, E = statement(F, st, intr=I)
    for p in ps:
        ev = p.events(r"conditional_statement$")
        ok = len(ev) == 1 and ev[0][1][0] is getf(st, "cond") and ev[0][1][1] is getf(st, "if_case") and contains(ev[0][1][2], PARAM("else_case"))
        r.check("sequence", "if passes its condition and branches", ok, r.where(f), "an if statement does not execute its own condition and branches")
        r.check("sequence", "if failure", p.variant() == "Err" or not failed_steps(p), r.where(f), "an if statement succeeds although its execution failed")
    st = build(F, "Statement", "While")
    I = {r"execute::execute_conditional_statement$": oracle([cond(NONE), cond(SOME(TRUE)), cond(SOME(FALSE)), OK(mk("tuple", SOME(PARAM("ret")), PARAM("simp"), SOME(TRUE))), UNITERR], most=3)}
    ps, E = statement(F, st, intr=I)
    r.paths(len(ps))
    n = 0
    for p in ps:
        ev = p.events(r"conditional_statement$")
        r.check("sequence", "while executes its condition and body", bool(ev) and all(e[1][0] is getf(st, "cond") and e[1][1] is getf(st, "stmt") and p.E.variant(p.st, e[1][2]) == "None" for e in ev), r.where(f),
                "a loop does not execute its own condition and body")
        n = max(n, len(ev))
        r.check("sequence", "while failure", p.variant() == "Err" or not failed_steps(p), r.where(f), "a loop succeeds although its execution failed")
    r.check("sequence", "while repeats", n >= 2, r.where(f), "a loop with a known true condition is not repeated")


def export(F, r):
    r.rule("export", "every constraint added to a template is kept and passed, renamed by the signal correspondence, to the constraint graph node of that template")
    g = F.find("ExecutedTemplate::add_constraint"); r.fn(g)
    node = PARAM("node")
    ps, E = explore(F, g, [node, PARAM("c")])
    for p in ps:
        v = p.mem(node, "constraints")
        r.check("export", "add_constraint keeps the constraint", contains(v, PARAM("c")), r.where(g), "add_constraint does not store the constraint")
    g = F.find("ExecutedTemplate::build_constraints"); r.fn(g)
    t = build(F, "ExecutedTemplate", None, "t", constraints=mk("array", PARAM("c1"), PARAM("c2")), underscored_signals=mk("array"))
    ps, E = explore(F, g, [t, PARAM("dag")], stop=(r"^dag::DAG::add_constraint$", r"apply_correspondence$", r"dag::DAG::get_main$", r"Node::correspondence$"))
    r.paths(len(ps))
    for p in ps:
        ev = [e[1][-1] for e in p.events(r"DAG::add_constraint$")]
        ok = len(ev) == 2 and all(contains(ev[i], PARAM("c%d" % (i + 1))) and contains(ev[i], lambda x: x.op == "call" and x.a[0].endswith("apply_correspondence")) for i in range(2))
        r.check("export", "build_constraints", ok, r.where(g), "the constraints of a template are not all exported (%d of 2)" % len(ev))
    g = F.find("dag::DAG::add_constraint"); r.fn(g)
    ps, E = explore(F, g, [PARAM("dag"), PARAM("c")], stop=(r"dag::Node::add_constraint$",))
    hit = [p for p in ps if p.events(r"Node::add_constraint$")]
    r.check("export", "DAG::add_constraint", bool(hit) and all(p.events(r"Node::add_constraint$")[0][1][-1] is PARAM("c") for p in hit), r.where(g), "DAG::add_constraint drops the constraint")
    for p in ps:
        if p in hit: continue
        r.check("export", "DAG::add_constraint without node", any(c[0] == "is" and c[2] == "None" for c in p.conds) or not p.conds, r.where(g), "DAG::add_constraint drops a constraint although there is a node")
    g = F.find("dag::Node::add_constraint"); r.fn(g)
    ps, E = explore(F, g, [node, PARAM("c")])
    for p in ps: r.check("export", "Node::add_constraint", contains(p.mem(node, "constraints"), PARAM("c")), r.where(g), "a graph node does not store its constraint")
    # insert_in_dag builds the constraints
    g = F.find("ExecutedTemplate::insert_in_dag"); r.fn(g)
    ps, E = explore(F, g, [PARAM("t"), PARAM("dag"), PARAM("bi")], stop=(r"ExecutedTemplate::build_", r"dag::DAG::"))
    for p in ps: r.check("export", "insert_in_dag", len(p.events(r"build_constraints$")) == 1, r.where(g), "a template enters the constraint graph without its constraints")
