"""C04: nothing that shapes the circuit depends on values unknown at compile time."""
from ..exec_model import *
from .c03 import statement, ADD

CS = PARAM("rt")


def run(F, r):
    r.do(F, declarations, dimensions, arguments, constraints, instantiation, conditionals, values, accesses, static_tags, static_statements)


def rt_of(F, block=None): return build(F, "RuntimeInformation", None, "rt", **({"block_type": unit_variant(F, "BlockType", block)} if block else {}))


TYPES = ("AnonymousComponent", "Component", "Signal", "Bus", "Var")
MAKE = r"(execute::execute_(\w+_declaration|declaration_bus)$)|environment_shortcut_add|ExecutedTemplate::add_(input|output|intermediate|component)|anonymous_components"


def declarations(F, r):
    r.rule("declare", "a signal, component or bus declaration under an unknown condition is an error; array sizes of every declaration are known numbers that fit, or an error")
    f = F.find("execute::execute_statement"); r.fn(f)
    VT = adt_id(F, "VariableType")
    for block in ("Unknown", "Known"):
        for t in TYPES:
            v = next((x for x in F.adts[VT]["variants"] if x[0] == t), None)
            if v is None: raise Anchor("declaration type %s" % t)
            ty = ADT(VT, t, tuple((x[0], PARAM("xt." + x[0])) for x in v[2]))
            d1, d2 = PARAM("d1"), PARAM("d2")
            st = build(F, "Statement", "Declaration", xtype=ty, dimensions=mk("array", d1, d2))
            I = {r"execute::valid_array_declaration$": fallible(UNIT), r"execute::cast_indexing$": oracle([SOME(PARAM("dims")), NONE], bad=lambda x: x.a[1] == "None"),
                 r"execute::execute_(\w+_declaration|declaration_bus)$": pure(lambda *a: UNIT, event=True), r"environment_shortcut_add_variable$": pure(lambda *a: UNIT, event=True)}
            rt = rt_of(F, block)
            ps, E = statement(F, st, intr=I, block_type=unit_variant(F, "BlockType", block))
            r.paths(len(ps))
            good = [p for p in ps if p.variant() == "Ok"]
            if block == "Unknown" and t != "Var":
                r.check("declare", "%s under an unknown condition" % t, not good, r.where(f), "a %s declaration succeeds under an unknown condition" % t)
                r.check("declare", "%s under an unknown condition is reported" % t, any("DeclarationInUnknown" in codes(p) for p in ps), r.where(f), "a %s declaration under an unknown condition is not reported" % t)
                for p in ps: r.check("declare", "%s under an unknown condition declares nothing" % t, not p.events(MAKE), r.where(f), "a %s is declared before the unknown condition is reported" % t)
                continue
            r.check("declare", "%s declared" % t, bool(good) and all(p.events(MAKE) for p in good), r.where(f), "a %s declaration succeeds without declaring" % t)
            for p in good:
                r.check("declare", "%s failed step" % t, not failed_steps(p), r.where(f), "a %s declaration succeeds although %s failed" % (t, failed_steps(p)))
                if t == "AnonymousComponent": continue
                va = p.events(r"valid_array_declaration$"); ca = p.events(r"cast_indexing$")
                dims = mk("array", mk("single", mk("fold", d1)), mk("single", mk("fold", d2)))
                r.check("declare", "%s sizes checked" % t, any(e[1][0] is dims for e in va) and any(e[1][0] is dims for e in ca), r.where(f), "a %s is declared without checking that all its sizes are known" % t)
                r.check("declare", "%s sizes used" % t, any(any(contains(a, PARAM("dims")) for a in e[1]) for e in p.events(MAKE)), r.where(f), "a %s is declared with other sizes" % t)
    g = F.find("execute::execute_bus_statement"); r.fn(g)
    for t in ("Signal", "Bus"):
        v = next(x for x in F.adts[VT]["variants"] if x[0] == t)
        ty = ADT(VT, t, tuple((x[0], PARAM("xt." + x[0])) for x in v[2]))
        st = build(F, "Statement", "Declaration", xtype=ty, dimensions=mk("array", PARAM("d1"), PARAM("d2")))
        I = {**TREAT, **ASSIGN, **UNWRAP, **slices_of(), r"execute::execute_expression$": fold_expr, r"execute::valid_array_declaration$": fallible(UNIT),
             r"execute::cast_indexing$": oracle([SOME(PARAM("dims")), NONE], bad=lambda x: x.a[1] == "None"), r"execute::execute_declaration_bus$": pure(lambda *a: UNIT, event=True)}
        ps, E = explore(F, g, [st, PARAM("pa"), PARAM("rt"), PARAM("node"), PARAM("flags")], stop=STOP, intr=I, loop_visits=6)
        for p in ps:
            if p.variant() == "Ok":
                r.check("declare", "bus field %s" % t, not failed_steps(p) and p.events(r"execute_declaration_bus$") and p.events(r"valid_array_declaration$"), r.where(g),
                        "a bus field is declared although its size is unknown (%s)" % failed_steps(p))


def dimensions(F, r):
    r.rule("sizes", "a list of sizes or indices is usable exactly when every entry is a number that fits; a size that is not a number is an error")
    a, b = PARAM("x"), PARAM("y")
    I = {r"AExpr::is_number$|ArithmeticExpression::<C>::is_number$": pure(lambda x: mk("num", x)), r"ArithmeticExpression::<C>::get_usize$": pure(lambda x: mk("usize", x))}

    def facts(p, x):
        n = dict(p.bools(lambda t: t is mk("num", x))).get(mk("num", x))
        u = p.is_(mk("usize", x), "Some"); u2 = p.is_(mk("usize", x), "None")
        return n, (u if u is not None else (None if u2 is None else not u2))
    for fn, form in (("execute::valid_array_declaration", "Ok"), ("execute::cast_indexing", "Some"), ("execute::valid_indexing", "Ok"), ("execute::cast_index", "Some")):
        g = F.find(fn); r.fn(g)
        arg = a if fn.endswith("cast_index") else mk("array", a, b)
        ps, E = explore(F, g, [arg], intr=I, loop_visits=6)
        r.paths(len(ps))
        elems = [a] if fn.endswith("cast_index") else [a, b]
        seen = set()
        for p in ps:
            v = p.variant(); st = [facts(p, x) for x in elems]
            if v is None: r.notes.append("%s: result not decided" % fn); continue
            seen.add(v)
            if fn.endswith("valid_array_declaration"):
                r.check("sizes", fn + " accepts", v != "Ok" or all(n is True for n, u in st), r.where(g), "an array size that is not known is accepted")
            elif fn.endswith("valid_indexing"):
                r.check("sizes", fn + " accepts", v != "Ok" or all(not (n is True and u is False) for n, u in st), r.where(g), "an index that does not fit is accepted")
                r.check("sizes", fn + " rejects", v == "Ok" or any(n is True and u is False for n, u in st), r.where(g), "an acceptable index is rejected")
            else:
                r.check("sizes", fn + " accepts", v != "Some" or all(n is not False and u is True for n, u in st), r.where(g), "an index that is unknown or does not fit is used as known")
                if v == "Some":
                    got = getf(downcast(p.v, "Some"), "0"); us = [getf(downcast(mk("usize", x), "Some"), "0") for x in elems]
                    r.check("sizes", fn + " value", got is (us[0] if fn.endswith("cast_index") else mk("array", *us)), r.where(g), "indices are changed: %s" % show(got))
                else: r.check("sizes", fn + " rejects", any(n is False or u is False for n, u in st), r.where(g), "known indices are treated as unknown")
        r.check("sizes", fn + " both", len(seen) == 2 or None in seen, r.where(g), "%s never answers %s" % (fn, "the other way"))


def refvals(E, st, name, args, fn, line): return [(st, cells(E.deref(st, args[0])))]


def arguments(F, r):
    r.rule("arguments", "every value of every argument of a template or bus is a known number, or the call is reported and fails")
    for fn, kind in (("execute::execute_call", "template"), ("execute::execute_bus_call_complete", "bus")):
        g = F.find(fn); r.fn(g)
        e1, e2 = PARAM("e1"), PARAM("e2")
        I = {**TREAT, **UNWRAP, **{k: v for k, v in slices_of().items()}, r"MemorySlice::<C>::get_reference_values$": refvals, r"execute::execute_expression$": fold_expr,
             r"ArithmeticExpression::<C>::is_number$": pure(lambda x: mk("num", x)), r"ProgramArchive::contains_(template|bus)$": pure(lambda *a: TRUE), r"ProgramArchive::contains_function$": pure(lambda *a: FALSE),
             r"execute::(preexecute_template_call|execute_bus_call)$": fallible(PARAM("inst"), UNIT), r"execute::prepare_environment_for_call$": pure(lambda *a: PARAM("newenv"))}
        args = call_args(F, g, {"Vec<": mk("array", e1, e2), "RuntimeInformation": rt_of(F, "Known")})
        ps, E = explore(F, g, args, stop=STOP, intr=I, loop_visits=8)
        r.paths(len(ps))
        good = [p for p in ps if p.variant() == "Ok"]
        r.check("arguments", "%s call can succeed" % kind, bool(good), r.where(g), "a %s call never succeeds" % kind)
        want = [mk("num", mk("cell", mk("slice", mk("fold", e)), INT(i))) for e in (e1, e2) for i in range(N)]
        for p in good:
            kn = dict(p.bools(lambda t: t.op == "num"))
            r.check("arguments", "%s arguments known" % kind, all(kn.get(w) is True for w in want), r.where(g), "a %s is instantiated although a value of its arguments is not known to be a number (%d of %d values checked)" % (kind, sum(kn.get(w) is True for w in want), len(want)))
            r.check("arguments", "%s failed step" % kind, not failed_steps(p), r.where(g), "a %s call succeeds although %s failed" % (kind, failed_steps(p)))
        for p in ps:
            if any(v is False for t, v in p.bools(lambda t: t.op == "num")):
                r.check("arguments", "%s unknown argument reported" % kind, bool(codes(p)) and not p.events(r"preexecute_template_call$|execute_bus_call$"), r.where(g), "an unknown argument of a %s is not reported before it is instantiated" % kind)


def call_args(F, f, by_type):
    """arguments of f: the given term for the parameter whose type mentions the key, an opaque parameter otherwise"""
    out = []
    for i in range(1, f.nargs + 1):
        ty = f.locals[i][0]
        t = next((v for k, v in by_type.items() if (k.search(ty) if hasattr(k, "search") else k in ty)), None)
        out.append(t if t is not None else PARAM("arg%d" % i))
    return out


def constraints(F, r):
    r.rule("constrain", "a constraint under an unknown condition, or on a left-hand side with an unknown index, is an error; so is the assignment of a tag under an unknown condition or from an unknown value")
    f = F.find("execute::execute_statement")
    st = build(F, "Statement", "Substitution", op=unit_variant(F, "AssignOp", "AssignConstraintSignal"))
    for kind in ("signal", "component", "bus"):
        PA = {r"execute::perform_assign$": oracle([OK(SOME(PARAM("constrained"))), UNITERR])}
        ps, E = statement(F, st, kind, intr=PA, block_type=unit_variant(F, "BlockType", "Unknown"))
        r.paths(len(ps))
        r.check("constrain", "%s <== under an unknown condition" % kind, not any(p.variant() == "Ok" for p in ps) and not any(p.events(ADD) for p in ps), r.where(f), "`<==` on a %s succeeds under an unknown condition" % kind)
        und = bus_access(F, 1, TRUE) if kind != "signal" else build(F, "AccessingInformation", None, "oacc", undefined=TRUE)
        ps, E = statement(F, st, kind, intr={**PA, r"execute::treat_accessing": fallible(und, UNIT)}, block_type=unit_variant(F, "BlockType", "Known"))
        r.check("constrain", "%s <== with an unknown index" % kind, not any(p.variant() == "Ok" for p in ps) and any(codes(p) for p in ps), r.where(f), "`<==` on a %s with an unknown index is accepted" % kind)
    st = build(F, "Statement", "ConstraintEquality")
    ps, E = statement(F, st, intr={r"FoldedValue::valid_arithmetic_slice$": pure(lambda v: TRUE)}, block_type=unit_variant(F, "BlockType", "Unknown"))
    r.check("constrain", "=== under an unknown condition", not any(p.variant() == "Ok" for p in ps) and not any(p.events(ADD) for p in ps), r.where(f), "`===` succeeds under an unknown condition")
    g = F.find("execute::perform_assign"); r.fn(g)
    for kind, depth in (("signal", 0), ("bus", 2), ("bus", 1)):
        (ps, E), acc = assign_paths(F, "AssignVar", kind, "arith", depth, tag=True, block="Unknown", inp=False)
        r.paths(len(ps))
        r.check("constrain", "tag of a %s (%d) under an unknown condition" % (kind, depth), not any(p.variant() == "Ok" for p in ps), r.where(g), "a tag of a %s is assigned under an unknown condition" % kind)
        (ps, E), acc = assign_paths(F, "AssignVar", kind, "arith", depth, tag=True, block="Known", inp=False)
        val = mk("cell", R, INT(0))
        for p in ps:
            if p.variant() == "Ok":
                r.check("constrain", "tag of a %s (%d) from a known value" % (kind, depth), p.is_(val, "Number") is True, r.where(g), "a tag of a %s is assigned from a value that is not known" % kind)


def instantiation(F, r):
    r.rule("instantiate", "no component is instantiated under an unknown condition or at an unknown index")
    g = F.find("execute::execute_call")
    I = {**TREAT, **UNWRAP, **slices_of(), r"MemorySlice::<C>::get_reference_values$": refvals, r"execute::execute_expression$": fold_expr, r"ProgramArchive::contains_template$": pure(lambda *a: TRUE),
         r"ProgramArchive::contains_function$": pure(lambda *a: FALSE), r"execute::preexecute_template_call$": fallible(PARAM("inst"), UNIT)}
    ps, E = explore(F, g, call_args(F, g, {"Vec<": mk("array", PARAM("e1")), "RuntimeInformation": rt_of(F, "Unknown")}), stop=STOP, intr=I, loop_visits=6)
    r.check("instantiate", "under an unknown condition", not any(p.variant() == "Ok" or p.events(r"preexecute_template_call$") for p in ps), r.where(g), "a template is instantiated under an unknown condition")
    g = F.find("execute::perform_assign")
    (ps, E), acc = assign_paths(F, "AssignVar", "component", "node", 0, undefined=TRUE, block="Known")
    for p in ps:
        if p.variant() == "Ok":
            anon = [v for t, v in p.bools(lambda t: contains(t, lambda x: x is PARAM("rt.anonymous_components") or x.op == "field" and x.a[1] == "anonymous_components"))]
            r.check("instantiate", "at an unknown index", True in anon, r.where(g), "a component at an unknown index is instantiated or silently skipped")


def conditionals(F, r):
    r.rule("unknown", "both branches of a conditional with an unknown condition run in an unknown context, which is the caller's again afterwards; a known condition leaves the context alone; "
                      "a call runs in a known context and restores the caller's")
    c = F.find("execute::execute_conditional_statement"); r.fn(c)
    none = OK(mk("tuple", NONE, PARAM("simp")))
    bt = lambda v: getf(v, "block_type")
    for known in (True, None):
        for els in (True, False):
            for block in ("Known", "Unknown"):
                I = {**TREAT, **ASSIGN, **UNWRAP, **slices_of(), r"execute::execute_expression$": fold_expr, r"execute::execute_statement$": oracle([none, OK(mk("tuple", SOME(PARAM("ret")), PARAM("simp"))), UNITERR]),
                     r"get_boolean_equivalence$": pure(lambda a, p: NONE if known is None else SOME(TRUE))}
                root = PARAM("rtobj"); st0 = St(); st0.mem[("T", root)] = rt_of(F, block)
                ps, E = explore(F, c, [PARAM("cond"), PARAM("then"), SOME(PARAM("else")) if els else NONE, PARAM("pa"), mk("ref", ("T", root), ()), PARAM("node"), PARAM("flags")], stop=STOP, intr=I, st=st0)
                r.paths(len(ps))
                want = block if known else "Unknown"
                for p in ps:
                    for e in p.events(r"execute_statement$"):
                        b = bt(e[1][2])
                        r.check("unknown", "branch context known=%s" % known, b.op == "adt" and b.a[1] == want, r.where(c), "a branch of a conditional with %s condition runs in a %s context" % ("a known" if known else "an unknown", show(b)))
                    if p.variant() == "Ok":
                        b = bt(p.st.mem[("T", root)])
                        r.check("unknown", "context restored known=%s" % known, b.op == "adt" and b.a[1] == block, r.where(c), "after a conditional the context is %s, it was %s" % (show(b), block))
    # loops and blocks do not touch the context themselves
    f = F.find("execute::execute_statement")
    for v in ("While", "Block", "InitializationBlock", "IfThenElse"):
        st = build(F, "Statement", v)
        root = PARAM("rtobj"); st0 = St(); st0.mem[("T", root)] = rt_of(F, "Unknown")
        co = lambda k: OK(mk("tuple", NONE, PARAM("simp"), k))
        I = {**TREAT, **ASSIGN, **UNWRAP, r"execute::execute_conditional_statement$": oracle([co(NONE), co(SOME(TRUE)), co(SOME(FALSE)), UNITERR], most=3), r"execute::execute_sequence_of_statements$": oracle([none, UNITERR])}
        ps, E = explore(F, f, [st, PARAM("pa"), mk("ref", ("T", root), ()), SOME(PARAM("node")), PARAM("flags")], stop=STOP, intr=I, st=st0, loop_visits=8)
        for p in ps:
            for e in p.events(r"execute_(conditional_statement|sequence_of_statements)$"):
                rt = next((a for a in e[1] if a.op == "adt" and a.a[0].endswith("RuntimeInformation")), None)
                if rt is not None: r.check("unknown", "%s keeps the context" % v, bt(rt).op == "adt" and bt(rt).a[1] == "Unknown", r.where(f), "%s runs its body in another context" % v)
            if p.variant() == "Ok": r.check("unknown", "%s leaves the context" % v, bt(p.st.mem[("T", root)]).op == "adt" and bt(p.st.mem[("T", root)]).a[1] == "Unknown", r.where(f), "%s changes the context" % v)
    # a loop with an unknown condition ends
    st = build(F, "Statement", "While")
    # an unknown condition on a loop body is executed as a conditional: the branch rule above applies


def values(F, r):
    r.rule("values", "a variable assigned or a value returned under an unknown condition, an element at an unknown index and a choice on an unknown condition are unknown")
    g = F.find("execute::perform_assign")
    nq = lambda t: contains(t, lambda x: x.op == "adt" and x.a[1] == "NonQuadratic")
    for block, und in (("Unknown", FALSE), ("Known", TRUE), ("Unknown", TRUE), ("Known", FALSE)):
        (ps, E), acc = assign_paths(F, "AssignVar", "variable", "arith", block=block, undefined=und)
        for p in ps:
            if p.variant() != "Ok": continue
            ins = p.events(r"insert_values$")
            r.check("values", "variable assigned (%s,%s)" % (block, show(und)), len(ins) >= 1, r.where(g), "a variable assignment stores nothing")
            for e in ins:
                unk = nq(e[1][2]) and not contains(e[1][2], mk("cell", R, INT(0)))
                r.check("values", "variable in %s block, index undefined=%s" % (block, show(und)), unk == (block == "Unknown" or und is TRUE), r.where(g), "a variable assigned in %s context (unknown index: %s) becomes %s" % (block, show(und), show(e[1][2])[:120]))
                if und is TRUE:
                    r.check("values", "whole variable becomes unknown", e[1][1] is mk("array") and contains(e[1][2], lambda x: x.op == "route" and contains(x, lambda y: y.op == "content")), r.where(g), "an assignment at an unknown index leaves elements of the variable known")
                elif block == "Known":
                    r.check("values", "variable value", e[1][2] is R and e[1][1] is getf(acc, "before_signal"), r.where(g), "a variable assignment stores %s at %s" % (show(e[1][2])[:60], show(e[1][1])[:60]))
    f = F.find("execute::execute_statement")
    for block in ("Unknown", "Known"):
        st = build(F, "Statement", "Return")
        ps, E = statement(F, st, block_type=unit_variant(F, "BlockType", block), intr={r"execute::execute_expression$": fallible(folded(F, "arith"), UNIT)})
        for p in ps:
            if p.variant() != "Ok": continue
            v = getf(getf(downcast(p.v, "Ok"), "0"), "0")
            r.check("values", "return in %s block" % block, p.E.variant(p.st, v) == "Some" and nq(v) == (block == "Unknown"), r.where(f), "a return in %s context yields %s" % (block, show(v)[:120]))
    x = F.find("execute::execute_expression"); r.fn(x)
    ex = build(F, "Expression", "InlineSwitchOp")
    sub = lambda E, st, name, args, fn, line: fold_expr(E, st, name, args, fn, line)
    for known in (True, False, None):
        I = {**TREAT, **UNWRAP, **slices_of(), r"MemorySlice::<C>::new$": pure(lambda v: mk("one", v)), r"MemorySlice::<C>::is_single$": pure(lambda v: FALSE),
             r"get_boolean_equivalence$": pure(lambda a, p: NONE if known is None else SOME(TRUE if known else FALSE)), r"execute::execute_expression$": sub}
        ps, E = explore(F, x, [ex, PARAM("pa"), PARAM("rt"), PARAM("flags")], stop=STOP, intr=I)
        for p in ps:
            if p.variant() != "Ok": continue
            v = getf(downcast(p.v, "Ok"), "0")
            if known is None: ok = nq(v)
            else: ok = contains(v, mk("fold", getf(ex, "if_true" if known else "if_false"))) or any(e[1][0] is getf(ex, "if_true" if known else "if_false") for e in p.events(r"execute_expression$"))
            r.check("values", "conditional expression known=%s" % known, ok, r.where(x), "a conditional expression with condition %s yields %s" % (known, show(v)[:120]))
    for fn, kind in (("execute::execute_variable", "variable"), ("execute::execute_signal", "signal"), ("execute::execute_bus", "bus"), ("execute::execute_component", "component")):
        q = F.find(fn); r.fn(q)
        und = build(F, "AccessingInformation", None, "oacc", undefined=TRUE) if kind in ("variable", "signal") else bus_access(F, 1, TRUE)
        I = {**TREAT, **ASSIGN, **UNWRAP, **env(kind), **slices_of(), r"MemorySlice::<C>::new$": pure(lambda v: mk("one", v)), r"execute::treat_accessing": fallible(und, UNIT)}
        ps, E = explore(F, q, [PARAM("meta"), PARAM("symbol"), PARAM("access"), PARAM("pa"), PARAM("rt"), PARAM("flags")], stop=STOP, intr=I)
        r.paths(len(ps))
        good = [p for p in ps if p.variant() == "Ok"]
        for p in good:
            v = getf(downcast(p.v, "Ok"), "0")
            r.check("values", "%s at an unknown index" % kind, nq(v), r.where(q), "reading a %s at an unknown index yields a known value: %s" % (kind, show(v)[:120]))


def accesses(F, r):
    r.rule("access", "an access is unknown exactly when one of its indices is; indices are evaluated in order and keep their place around field names")
    A = adt_id(F, "Access")
    ix = lambda t: ADT(A, "ArrayAccess", (("0", t),))
    fld = lambda t: ADT(A, "ComponentAccess", (("0", t),))
    i, j, n = PARAM("i"), PARAM("j"), PARAM("n")
    acc = mk("array", ix(i), fld(n), ix(j))
    sing = lambda e: mk("single", mk("fold", e))
    I = {**TREAT, **UNWRAP, r"execute::execute_expression$": fold_expr, r"execute::valid_indexing$": fallible(UNIT),
         r"execute::cast_indexing$": oracle(lambda v: [SOME(mk("cast", v[0])), NONE], bad=lambda x: False)}
    for fn in ("execute::treat_accessing", "execute::treat_accessing_bus"):
        g = F.find(fn); r.fn(g)
        ps, E = explore(F, g, [PARAM("meta"), acc, PARAM("pa"), PARAM("rt"), PARAM("flags")], intr=I, rec=4, loop_visits=8)
        r.paths(len(ps))
        good = [p for p in ps if p.variant() == "Ok"]
        r.check("access", fn + " succeeds", bool(good), r.where(g), "%s never succeeds" % fn)
        for p in good:
            v = getf(downcast(p.v, "Ok"), "0")
            lists = [e[1][0] for e in p.events(r"cast_indexing$")]
            ci, cj = mk("array", sing(i)), mk("array", sing(j))
            val = p.events(r"valid_indexing$")
            r.check("access", fn + " indices validated", {e[1][0] for e in val} >= {ci, cj} and not failed_steps(p), r.where(g), "indices are used without checking that they fit")
            und = getf(v, "undefined")
            if fn.endswith("bus"):
                rem = getf(v, "remaining_access"); a0 = getf(v, "array_access")
                if und is FALSE:
                    a1 = getf(getf(downcast(rem, "Some"), "0"), "array_access")
                    r.check("access", fn + " places", a0 is mk("cast", ci) and a1 is mk("cast", cj) and getf(v, "field_access") is SOME(n), r.where(g), "an access is decomposed into %s and %s" % (show(a0)[:60], show(a1)[:60]))
                elif und.op != "bool": r.notes.append("%s: undefined flag not decided" % fn)
            else:
                if und is FALSE:
                    r.check("access", fn + " places", getf(v, "before_signal") is mk("cast", ci) and getf(v, "after_signal") is mk("cast", cj) and getf(v, "signal_access") is SOME(n), r.where(g), "an access is decomposed into %s" % show(v)[:160])
        known = [p for p in good if getf(getf(downcast(p.v, "Ok"), "0"), "undefined") is FALSE]
        r.check("access", fn + " unknown index", len(known) == 1 and len(good) >= 3, r.where(g), "an access with an unknown index is treated as known (%d of %d outcomes are known)" % (len(known), len(good)))


# ------------------------------------------------------------------ the static analysis
def _tagmax(E, st, name, args, fn, line):
    a, b = E.deref(st, args[0]), E.deref(st, args[1])
    if a.op == "adt" and b.op == "adt" and a.a[1] in ("Known", "Unknown") and b.a[1] in ("Known", "Unknown"):
        return [(st, a if a.a[1] == "Unknown" else b)]
    if a.op == "tuple" and b.op == "tuple" and a is b: return [(st, a)]
    return NotImplemented


def static_tags(F, r):
    r.rule("static", "the static knowledge analysis: an expression with an unknown part is unknown, signals and buses are unknown; an index is unknown if any of its parts is")
    T_ = [i for i in F.adts if i.endswith("unknown_known_analysis::Tag")]
    if not T_: raise Anchor("Tag")
    tag = lambda v: ADT(T_[0], v, ())
    g = F.find("unknown_known_analysis::tag"); r.fn(g)
    parts = {"InfixOp": ("lhe", "rhe"), "PrefixOp": ("rhe",), "ParallelOp": ("rhe",), "InlineSwitchOp": ("cond", "if_true", "if_false"), "UniformArray": ("value", "dimension"),
             "ArrayInLine": ("values",), "Call": ("args",), "BusCall": ("args",)}
    X = adt_id(F, "Expression")
    names = [v[0] for v in F.adts[X]["variants"]]

    def tagor(E, st, name, args, fn, line):
        e = E.deref(st, args[0]); out = []
        s2 = st.fork()
        E.event(st, "tag", (e, tag("Known")), line, fn); E.event(s2, "tag", (e, tag("Unknown")), line, fn)
        return [(st, tag("Known")), (s2, tag("Unknown"))]
    I = {r"unknown_known_analysis::tag$": tagor, r"core::cmp::(max|Ord::max)$": _tagmax}
    for v, fields in parts.items():
        if v not in names: raise Anchor("expression %s" % v)
        over = {}
        kids = []
        for x in fields:
            if x in ("values", "args"):
                over[x] = mk("array", PARAM("k1"), PARAM("k2")); kids += [PARAM("k1"), PARAM("k2")]
            else: kids.append(PARAM("e." + x)); over[x] = PARAM("e." + x)
        ps, E = explore(F, g, [build(F, "Expression", v, "e", **over), PARAM("env")], intr=I, loop_visits=6)
        r.paths(len(ps))
        for p in ps:
            res = p.variant(); got = {e[1][0]: e[1][1].a[1] for e in p.events("^tag$")}
            if res not in ("Known", "Unknown"): r.notes.append("tag(%s) not decided" % v); continue
            if res == "Known": r.check("static", "tag of %s" % v, all(got.get(k) == "Known" for k in kids), r.where(g), "%s with an unknown part is considered known" % v)
            else: r.check("static", "tag of %s precise" % v, any(x == "Unknown" for x in got.values()), r.where(g), "%s with known parts is considered unknown" % v)
    TR = adt_id(F, "TypeReduction")
    for tv in [v[0] for v in F.adts[TR]["variants"]]:
        vv = next(x for x in F.adts[TR]["variants"] if x[0] == tv)
        red = ADT(TR, tv, tuple((x[0], PARAM("tr." + x[0])) for x in vv[2]))
        for vt in (tag("Known"), tag("Unknown")):
            I2 = dict(I); I2[r"get_reduces_to$"] = pure(lambda *a: red)
            I2[r"RawEnvironment::<T, CC, SC, VC, BC>::get_variable_or_break$"] = pure(lambda *a: mk("tuple", vt, FALSE))
            I2[r"RawEnvironment::<T, CC, SC, VC, BC>::get_component_or_break$"] = pure(lambda *a: vt)
            ps, E = explore(F, g, [build(F, "Expression", "Variable", "e"), PARAM("env")], intr=I2)
            for p in ps:
                res = p.variant()
                want = {"Signal": "Unknown", "Bus": "Unknown", "Variable": vt.a[1], "Component": vt.a[1], "Tag": "Known"}.get(tv)
                if want and res in ("Known", "Unknown"):
                    r.check("static", "tag of a %s" % tv, res == want, r.where(g), "a %s is considered %s" % (tv, res))
    # unknown index anywhere
    h = F.find("unknown_known_analysis::unknown_index"); r.fn(h)

    def uor(E, st, name, args, fn, line):
        e = E.deref(st, args[0]); s2 = st.fork()
        E.event(st, "ui", (e, FALSE), line, fn); E.event(s2, "ui", (e, TRUE), line, fn)
        return [(st, FALSE), (s2, TRUE)]
    A = adt_id(F, "Access")
    ix = lambda t: ADT(A, "ArrayAccess", (("0", t),))
    fl = lambda t: ADT(A, "ComponentAccess", (("0", t),))
    for v, fields in list(parts.items()) + [("Variable", ("access",))]:
        over = {}; kids = []
        for x in fields:
            if x in ("values", "args"): over[x] = mk("array", PARAM("k1"), PARAM("k2")); kids += [PARAM("k1"), PARAM("k2")]
            elif x == "access": over[x] = mk("array", ix(PARAM("k1")), fl(PARAM("f")), ix(PARAM("k2"))); kids += [PARAM("k1"), PARAM("k2")]
            else: kids.append(PARAM("e." + x)); over[x] = PARAM("e." + x)
        ps, E = explore(F, h, [build(F, "Expression", v, "e", **over), PARAM("env")], intr={**I, r"unknown_known_analysis::unknown_index$": uor}, loop_visits=8)
        for p in ps:
            got = {e[1][0]: e[1][1] for e in p.evs if e[0] in ("ui", "tag")}
            if p.v.op != "bool": r.notes.append("unknown_index(%s) not decided" % v); continue
            clean = all(k in got and (got[k] is FALSE or got[k].op == "adt" and got[k].a[1] == "Known") for k in kids)
            if p.v is FALSE: r.check("static", "unknown index in %s" % v, clean, r.where(h), "an unknown index inside %s is not noticed" % v)
            else: r.check("static", "unknown index in %s precise" % v, any(x is TRUE or x.op == "adt" and x.a[1] == "Unknown" for x in got.values()), r.where(h), "%s is said to have an unknown index although it has none" % v)


def static_statements(F, r):
    r.rule("static-stmt", "the static analysis reports constraints, tag assignments and declarations under an unknown condition, unknown sizes, unknown parameters and unknown indices in constraints, "
                          "for every statement form, and combines the reports and effects of all parts")
    T_ = [i for i in F.adts if i.endswith("unknown_known_analysis::Tag")][0]
    tag = lambda v: ADT(T_, v, ())
    g = F.find("unknown_known_analysis::analyze"); r.fn(g)
    X = adt_id(F, "unknown_known_analysis::ExitInformation")
    fields = [x[0] for x in F.adts[X]["variants"][0][2]]

    def tagor(E, st, name, args, fn, line):
        e = E.deref(st, args[0]); s2 = st.fork()
        E.event(st, "tag", (e, tag("Known")), line, fn); E.event(s2, "tag", (e, tag("Unknown")), line, fn)
        return [(st, tag("Known")), (s2, tag("Unknown"))]

    def exits(E, st, name, args, fn, line):
        e = E.deref(st, args[0]); out = []
        for c, t, s in ((0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)):
            s2 = st.fork(); E.event(s2, "sub", (e, INT(c), INT(t), INT(s)), line, fn)
            b = lambda x: TRUE if x else FALSE
            d = {"constraints_declared": b(c), "tags_modified": b(t), "signals_declared": b(s), "reports": mk("array", mk("rep", e)), "modified_variables": mk("array", mk("mv", e)), "environment": mk("envof", e)}
            out.append((s2, ADT(X, "ExitInformation", tuple((f, d.get(f, PARAM("exit." + f))) for f in fields))))
        return out

    def rep(E, st, name, args, fn, line):
        E.event(st, "rep", tuple(E.deref(st, a) for a in args[:2]), line, fn); return [(st, UNIT)]
    def extend(E, st, name, args, fn, line):
        a, b = E.deref(st, args[0]), E.deref(st, args[1])
        if a.op != "array" or b.op != "array": return NotImplemented
        E.store_through(st, args[0], mk("array", *(a.a + b.a))); return [(st, UNIT)]

    def slot(E, st, name, args, fn, line):
        root = ("T", mk("slot", E.deref(st, args[1]))); st.mem.setdefault(root, mk("tuple", tag("Known"), mk("isarray", root[1])))
        return [(st, mk("ref", root, ()))]
    I = {r"unknown_known_analysis::tag$": tagor, r"core::cmp::(max|Ord::max)$": _tagmax, r"unknown_known_analysis::analyze$": exits, r"unknown_known_analysis::add_report$": rep,
         r"unknown_known_analysis::check_modified$": pure(lambda *a: FALSE), r"RawEnvironment::<T, CC, SC, VC, BC>::(merge|clone)$": pure(lambda *a: PARAM("merged")),
         r"HashSet::.*extend$|Extend.*::extend$": extend, r"HashSet.*::new$": pure(lambda: mk("array")), r"RawEnvironment::<T, CC, SC, VC, BC>::has_variable$": pure(lambda *a: TRUE),
         r"unknown_known_analysis::is_non_quadratic$": pure(lambda e, v: mk("nonquad", e)), r"RawEnvironment::<T, CC, SC, VC, BC>::get_mut_variable_or_break$": slot,
         r"RawEnvironment::<T, CC, SC, VC, BC>::has_component$": pure(lambda *a: mk("hascomp"))}
    stop = (r"RawEnvironment::<T, CC, SC, VC, BC>::(add_|remove_)",)
    entry = build(F, "EntryInformation", None, "entry")

    def reps(p): return [e[1][0].a[1] for e in p.events("^rep$") if e[1][0].op == "adt"]
    # conditionals and loops
    for v, body in (("IfThenElse", ("if_case", "else_case")), ("While", ("stmt",))):
        st = build(F, "Statement", v, **({"else_case": SOME(PARAM("ifthenelse.else"))} if v == "IfThenElse" else {}))
        bodies = [getf(st, "if_case"), PARAM("ifthenelse.else")] if v == "IfThenElse" else [getf(st, "stmt")]
        ps, E = explore(F, g, [st, entry], intr=I, stop=stop, loop_visits=4)
        r.paths(len(ps))
        for p in ps:
            ct = [e[1][1].a[1] for e in p.events("^tag$") if e[1][0] is getf(st, "cond")]
            subs = {e[1][0]: [x.a[0] for x in e[1][1:]] for e in p.events("^sub$")}
            r.check("static-stmt", "%s analyses its parts" % v, all(b in subs for b in bodies), r.where(g), "%s does not analyse all its parts" % v)
            r.check("static-stmt", "%s evaluates its condition" % v, bool(ct), r.where(g), "%s ignores its condition" % v)
            if not ct: continue
            c, t, s = [any(x[i] for x in subs.values()) for i in range(3)]
            got = set(reps(p))
            want = set()
            if ct[-1] == "Unknown": want = {n for n, x in (("UnreachableConstraints", c), ("UnreachableTags", t), ("UnreachableSignals", s)) if x}
            r.check("static-stmt", "%s reports" % v, got == want, r.where(g), "%s with %s condition and effects %s reports %s" % (v, ct[-1], subs and list(subs.values()), sorted(got)))
            for b in bodies:
                sl = p.st.mem.get(("T", mk("slot", mk("mv", b))))
                if ct[-1] == "Unknown": r.check("static-stmt", "%s makes modified variables unknown" % v, sl is not None and getf(sl, "0") is tag("Unknown"), r.where(g), "a variable modified in %s with an unknown condition is still considered known" % v)
            out = p.v
            for fld, x in (("constraints_declared", c), ("tags_modified", t), ("signals_declared", s)):
                q = getf(out, fld)
                if q.op == "bool": r.check("static-stmt", "%s passes on %s" % (v, fld), q.a[0] == x, r.where(g), "%s says %s = %s, its parts %s" % (v, fld, q.a[0], x))
            rp = getf(out, "reports")
            r.check("static-stmt", "%s keeps reports" % v, all(contains(rp, mk("rep", b)) for b in bodies), r.where(g), "%s drops the reports of a part" % v)
    for v, fld in (("Block", "stmts"), ("InitializationBlock", "initializations")):
        s1, s2 = PARAM("s1"), PARAM("s2")
        st = build(F, "Statement", v, **{fld: mk("array", s1, s2)})
        ps, E = explore(F, g, [st, entry], intr=I, stop=stop, loop_visits=6)
        r.paths(len(ps))
        for p in ps:
            subs = {e[1][0]: [x.a[0] for x in e[1][1:]] for e in p.events("^sub$")}
            r.check("static-stmt", "%s analyses its statements" % v, set(subs) == {s1, s2}, r.where(g), "%s does not analyse all its statements" % v)
            c, t, s = [any(x[i] for x in subs.values()) for i in range(3)]
            for f2, x in (("constraints_declared", c), ("tags_modified", t), ("signals_declared", s)):
                q = getf(p.v, f2)
                if q.op == "bool": r.check("static-stmt", "%s passes on %s" % (v, f2), q.a[0] == x, r.where(g), "%s says %s = %s, its statements %s" % (v, f2, q.a[0], x))
                else: r.notes.append("%s: %s not decided" % (v, f2))
            r.check("static-stmt", "%s keeps reports" % v, all(contains(getf(p.v, "reports"), mk("rep", b)) for b in (s1, s2)), r.where(g), "%s drops the reports of a statement" % v)
    # simple statements
    TR = adt_id(F, "TypeReduction"); A = adt_id(F, "Access")
    ix = lambda t: ADT(A, "ArrayAccess", (("0", t),))
    for tv in ("Signal", "Component", "Bus", "Tag", "Variable"):
        vv = next(x for x in F.adts[TR]["variants"] if x[0] == tv)
        red = ADT(TR, tv, tuple((x[0], PARAM("tr." + x[0])) for x in vv[2]))
        for op in ("AssignConstraintSignal", "AssignSignal", "AssignVar"):
            st = build(F, "Statement", "Substitution", op=unit_variant(F, "AssignOp", op), access=mk("array", ix(PARAM("i1")), ix(PARAM("i2"))))
            ps, E = explore(F, g, [st, entry], intr={**I, r"get_reduces_to$": pure(lambda *a: red)}, stop=stop, loop_visits=6)
            for p in ps:
                tags = {e[1][0]: e[1][1].a[1] for e in p.events("^tag$")}
                got = set(reps(p)); out = getf(p.v, "constraints_declared")
                iu = "Unknown" in (tags.get(PARAM("i1")), tags.get(PARAM("i2"))); ru = tags.get(getf(st, "rhe")) == "Unknown"
                seen_i = tags.get(PARAM("i1")) == "Unknown" or PARAM("i2") in tags
                r.check("static-stmt", "indices of %s" % tv, seen_i, r.where(g), "an index of an assigned %s is not examined" % tv)
                nqv = dict(p.bools(lambda t: t.op == "nonquad")).get(mk("nonquad", getf(st, "rhe")))
                if op == "AssignConstraintSignal" and tv in ("Signal", "Bus"):
                    r.check("static-stmt", "%s <== counts as a constraint" % tv, out is TRUE, r.where(g), "`<==` on a %s is not counted as a constraint" % tv)
                    r.check("static-stmt", "%s <== unknown index" % tv, ("NonQuadratic" in got) == bool(iu or nqv), r.where(g), "`<==` on a %s with%s unknown index is%s reported" % (tv, "" if iu or nqv else "out", "" if "NonQuadratic" in got else " not"))
                if tv == "Component":
                    r.check("static-stmt", "instantiation counts as a constraint", out is TRUE, r.where(g), "a component instantiation is not counted")
                    r.check("static-stmt", "instantiation from unknown values", ("UnknownTemplate" in got) == (iu or ru), r.where(g), "a component instantiation with unknown values is not reported")
                if tv == "Tag":
                    r.check("static-stmt", "tag assignment counts", getf(p.v, "tags_modified") is TRUE, r.where(g), "a tag assignment is not counted")
                    r.check("static-stmt", "tag assignment from unknown values", ("NonValidTagAssignment" in got) == (iu or ru), r.where(g), "a tag assignment from an unknown value is not reported")
                if tv == "Bus" and op == "AssignVar":
                    r.check("static-stmt", "bus parameters", ("UnknownBus" in got) == ru, r.where(g), "a bus with unknown parameters is not reported")
                if tv == "Signal" and op != "AssignConstraintSignal":
                    hc = dict(p.bools(lambda t: t.op == "hascomp")).get(mk("hascomp"))
                    if hc and iu: r.check("static-stmt", "component input at an unknown index", "UnknownTemplateAssignment" in got, r.where(g), "an assignment to an input of a component at an unknown index is not reported")
    VT = adt_id(F, "VariableType")
    for t in TYPES:
        v = next(x for x in F.adts[VT]["variants"] if x[0] == t)
        st = build(F, "Statement", "Declaration", xtype=ADT(VT, t, tuple((x[0], PARAM("xt." + x[0])) for x in v[2])), dimensions=mk("array", PARAM("d1"), PARAM("d2")))
        ps, E = explore(F, g, [st, entry], intr=I, stop=stop, loop_visits=6)
        for p in ps:
            q = getf(p.v, "signals_declared")
            r.check("static-stmt", "%s declaration counts" % t, q is (FALSE if t == "Var" else TRUE), r.where(g), "the declaration of a %s is%s counted" % (t, "" if q is TRUE else " not"))
            if t == "AnonymousComponent": continue
            tags = {e[1][0]: e[1][1].a[1] for e in p.events("^tag$")}
            r.check("static-stmt", "%s sizes examined" % t, {PARAM("d1"), PARAM("d2")} <= set(tags), r.where(g), "a size of a %s is not examined" % t)
            r.check("static-stmt", "%s unknown size" % t, ("UnknownDimension" in reps(p)) == ("Unknown" in tags.values()), r.where(g), "an unknown size of a %s is not reported" % t)
    st = build(F, "Statement", "ConstraintEquality")
    ps, E = explore(F, g, [st, entry], intr=I, stop=stop)
    for p in ps:
        nqs = dict(p.bools(lambda t: t.op == "nonquad"))
        r.check("static-stmt", "=== counts as a constraint", getf(p.v, "constraints_declared") is TRUE, r.where(g), "=== is not counted as a constraint")
        r.check("static-stmt", "=== unknown index", len(nqs) == 2 and ("NonQuadratic" in reps(p)) == (True in nqs.values()), r.where(g), "an unknown index in a side of === is not reported")
    # entry point: errors are returned
    u = F.find("unknown_known_analysis::unknown_known_analysis"); r.fn(u)
    ps, E = explore(F, u, [PARAM("name"), PARAM("pa")], intr={r"unknown_known_analysis::analyze$": pure(lambda s, e: PARAM("res"))}, stop=(r"RawEnvironment", r"ProgramArchive::", r"(Template|Bus)Data::"))
    for p in ps:
        em = dict(p.bools(lambda t: contains(t, PARAM("res"))))
        vals = list(em.values())
        if p.variant() == "Ok": r.check("static-stmt", "result", vals == [True], r.where(u), "the analysis succeeds with reports")
        elif p.variant() == "Err": r.check("static-stmt", "result", vals == [False] and contains(p.v, getf(PARAM("res"), "reports")), r.where(u), "the analysis fails without reports")
