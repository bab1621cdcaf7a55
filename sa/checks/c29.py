"""C29: the constraint algebra preserves meaning."""
from ..ev import *
from ..util import *
from .. import lin
from ..lin import Val, Infeasible, Q

FIELD = PARAM("field")
SEEDS = (11, 29)


def AE(F):
    r = [i for i in F.adts if i.endswith("algebra::ArithmeticExpression")]
    if len(r) != 1: raise Anchor("ArithmeticExpression")
    return r[0]


def operand(F, kind, n):
    a = AE(F)
    if kind == "Number": return ADT(a, kind, (("value", PARAM("v%d" % n)),))
    if kind == "Signal": return ADT(a, kind, (("symbol", PARAM("k_%d" % n)),))
    if kind == "Linear": return ADT(a, kind, (("coefficients", PARAM("m%d" % n)),))
    if kind == "Quadratic": return ADT(a, kind, tuple((x, PARAM("m%d%s" % (n, x))) for x in "abc"))
    return ADT(a, "NonQuadratic")


KINDS = ("Number", "Signal", "Linear", "Quadratic", "NonQuadratic")
LINEAR = ("Number", "Signal", "Linear")


def algebra(F, name):
    r = [g for g in F.find(name, "circom_algebra", unique=False) if "ArithmeticExpression" in (g.self_ty or "") and not g.trait]
    if len(r) != 1: raise Anchor("ArithmeticExpression::%s" % name)
    return r[0]


def decide(R, rid, what, f, E, paths, spec, consts, prep=None, need=True):
    """on every feasible path spec(V, st, ret) must be (left, right) equal; None means the path must not exist"""
    n = 0; bad = None; undec = None
    for st, r in paths:
        for seed in SEEDS:
            try:
                V = Val(st, seed, consts, field=FIELD, fixed=prep)
                for a, b, msg in spec(V, st, r):
                    n += 1
                    if a is True and b is True: continue
                    if a is False or b is False: bad = bad or msg; continue
                    if (a - b) % Q:
                        if V.ignored: undec = undec or msg
                        else: bad = bad or "%s (path %s)" % (msg, brief(st))
            except Infeasible: continue
            except ZeroDivisionError: continue
            except ValueError: continue
            except Unk as u:
                undec = undec or str(u)
    if bad: R.bad(rid, what, R.where(f), "%s: %s" % (what, bad))
    elif undec: R.notes.append("%s not decided for %s: %s" % (rid, what, undec))
    elif n == 0:
        if need: R.bad(rid, what, R.where(f), "%s: no feasible outcome" % what)
    else: R.ok(rid, what)


def brief(st):
    o = []
    for c in st.conds()[-6:]:
        o.append("%s %s %s" % (c[0], show(c[1])[:50], c[2]))
    return "; ".join(o)


def args_by(f, **kw):
    """arguments in declaration order with parameters looked up by position-independent names, falling back to order"""
    return [kw.get(f.name(i + 1), PARAM(f.name(i + 1))) for i in range(f.nargs)]


def run(F, R):
    cc = lin.const_key(F)
    consts = [cc, INT(0)]
    R.rule("C29.op", "the result of combining two expressions denotes the operator applied to their denotations, for every pair of expression shapes (numbers, signals, linear, quadratic)")
    R.rule("C29.precise", "an expression the constraint language accepts (constants folded, linear closed under addition and scaling, one product of linears) is not degraded to non-quadratic, and anything else is non-quadratic")
    R.rule("C29.form", "the constraint A*B-C built from an expression vanishes exactly when the expression does")
    R.rule("C29.subst", "substituting x:=e in a map, an expression, a constraint or a substitution replaces coefficient*x by coefficient*e and nothing else")
    R.rule("C29.clear", "isolating a signal of a linear constraint yields an equivalent substitution")
    R.rule("C29.fix", "normalising a constraint (removing zeros, folding a constant factor) preserves A*B-C")
    R.rule("C29.rename", "renumbering signals maps every entry to its image and keeps the constant entry")
    R.rule("C29.eq", "a constraint is treated as an equality of two signals, or with a constant, only when it has that shape")

    def ev():
        E = lin.evaluator(F)
        return E

    def fin(E, f):
        R.fn(f)
        for i in E.inlined: R.fn(i)

    # ---- binary operators
    OPS = {"add": lambda a, b: (a + b) % Q, "sub": lambda a, b: (a - b) % Q, "mul": lambda a, b: a * b % Q,
           "div": lambda a, b: a * pow(b, -1, Q) % Q, "pow": lambda a, b: pow(a, b, Q)}

    def precise(op, k1, k2):
        if "NonQuadratic" in (k1, k2): return False
        if op in ("add", "sub"): return not (k1 == k2 == "Quadratic")
        if op == "mul":
            if k1 == "Number" or k2 == "Number": return True
            return k1 in LINEAR and k2 in LINEAR
        if op == "div": return k2 == "Number"
        return None
    for op, sem in OPS.items():
        f = algebra(F, op)
        for k1 in KINDS:
            for k2 in KINDS:
                if op in ("pow", "div") and k1 == k2 == "Number": continue   # constants: decided by C01/C02
                E = ev()
                A, B = operand(F, k1, 1), operand(F, k2, 2)
                paths = E.call_fn(f, [A, B, FIELD])
                fin(E, f)
                pr = precise(op, k1, k2)

                def spec(V, st, r):
                    r = unres(r)
                    if r is None: return
                    da, db = V.expr(A), V.expr(B)
                    d = V.expr(r)
                    if d is None:
                        if pr: yield False, False, "the result is non-quadratic although it is expressible"
                        else: yield True, True, ""
                        return
                    if da is None or db is None:
                        yield False, False, "a non-quadratic operand gives %s" % show(r)[:80]
                        return
                    if op == "pow":
                        e = V.val(PARAM("v2")) % Q if k2 == "Number" else None
                        if e is None or e > 1000:
                            yield False, False, "the result is %s for an unknown exponent" % show(r)[:80]
                            return
                    yield d, sem(da, db), "the result %s does not denote left %s right" % (show(r)[:160], op)
                decide(R, "C29.op" if not pr else "C29.precise", "%s %s %s" % (k1, op, k2), f, E, paths, spec, consts)
    # other operators: never quadratic unless both are constants
    for op in ("idiv", "mod_op", "shift_l", "shift_r", "bit_or", "bit_and", "bit_xor", "bool_or", "bool_and", "eq", "not_eq", "lesser", "lesser_eq", "greater", "greater_eq"):
        f = algebra(F, op)
        for k1 in KINDS:
            for k2 in KINDS:
                if k1 == k2 == "Number": continue
                E = ev()
                rs = E.call_fn(f, [operand(F, k1, 1), operand(F, k2, 2), FIELD])
                fin(E, f)
                ok = rs and all(unres(r) is not None and unres(r).op == "adt" and unres(r).a[1] == "NonQuadratic" for _, r in rs)
                R.check("C29.op", "%s %s %s" % (k1, op, k2), ok, R.where(f), "operator %s on %s and %s gives %s" % (op, k1, k2, [show(r)[:60] for _, r in rs]))
    for op, sem in (("prefix_sub", lambda a: -a % Q), ("not", None), ("complement", None)):
        f = algebra(F, op)
        for k in KINDS:
            if k == "Number" and sem is None: continue
            E = ev(); A = operand(F, k, 1)
            paths = E.call_fn(f, [A, FIELD]); fin(E, f)

            def spec(V, st, r):
                d = V.expr(r)
                if sem is None or k == "NonQuadratic":
                    yield d is None, d is None, "operator %s on a non-constant gives %s" % (op, show(r)[:80]); return
                if d is None: yield False, False, "negation is degraded to non-quadratic"; return
                yield d, sem(V.expr(A)), "negation of %s gives %s" % (k, show(r)[:120])
            decide(R, "C29.op", "%s %s" % (op, k), f, E, paths, spec, consts)
    # get_usize, predicates
    f = algebra(F, "get_boolean_equivalence")
    for k in KINDS[1:]:
        E = ev(); rs = E.call_fn(f, [operand(F, k, 1), FIELD]); fin(E, f)
        R.check("C29.op", "get_boolean_equivalence %s" % k, rs and all(r is NONE for _, r in rs), R.where(f), "a non-constant condition is given a truth value")
    regs = [{PARAM("v1"): x, FIELD: p} for p in (7, 13) for x in range(p)]
    E = with_regions(ev(), regs); ok = True; seen = set()
    for st, r in E.call_fn(f, [operand(F, "Number", 1), FIELD]):
        for i in (st.reg if st.reg is not None else range(len(regs))):
            try:
                seen.add(i)
                if r.op != "adt" or r.a[1] != "Some" or bool(val(getf(r, "0"), regs[i])) != (regs[i][PARAM("v1")] != 0): ok = False
            except Unk: R.notes.append("C29.op not decided for get_boolean_equivalence Number")
    fin(E, f)
    R.check("C29.op", "get_boolean_equivalence Number", ok and len(seen) == len(regs), R.where(f), "the truth value of a constant is not 'differs from zero'")
    f = algebra(F, "get_usize")
    for k in KINDS[1:]:
        E = ev(); rs = E.call_fn(f, [operand(F, k, 1)]); fin(E, f)
        R.check("C29.op", "get_usize %s" % k, rs and all(r is NONE for _, r in rs), R.where(f), "a non-constant is given a numeric value")
    for nm, want in (("is_number", {"Number"}), ("is_nonquadratic", {"NonQuadratic"}), ("is_quadratic", {"Quadratic"}), ("is_linear", {"Linear"})):
        for f in [g for g in F.find(nm, "circom_algebra", unique=False) if "ArithmeticExpression" in (g.self_ty or "")]:
            for k in KINDS:
                E = ev(); rs = E.call_fn(f, [operand(F, k, 1)]); fin(E, f)
                R.check("C29.op", "%s %s" % (nm, k), rs and all(r is BOOL(k in want) for _, r in rs), R.where(f), "%s of %s is %s" % (nm, k, [show(r) for _, r in rs]))
    # ---- constraint form
    f = algebra(F, "transform_expression_to_constraint_form")
    for k in KINDS:
        E = ev(); A = operand(F, k, 1)
        paths = E.call_fn(f, [A, FIELD]); fin(E, f)

        def spec(V, st, r):
            if k == "NonQuadratic":
                yield r is NONE, r is NONE, "a non-quadratic expression becomes a constraint"; return
            if not (r.op == "adt" and r.a[1] == "Some"): yield False, False, "the expression gives no constraint"; return
            d = constraint(V, getf(r, "0"))
            e = V.expr(A)
            yield (True, True, "") if (d - e) % Q == 0 else (d, -e % Q, "the constraint of a %s expression is not equivalent to it" % k)
        decide(R, "C29.form", k, f, E, paths, spec, consts)
    # ---- substitution
    S = F.adt("algebra::Substitution")["id"]; C = F.adt("algebra::Constraint")["id"]
    sub = ADT(S, "Substitution", (("from", PARAM("from")), ("to", PARAM("to"))))
    con = ADT(C, "Constraint", tuple((x, PARAM("c" + x)) for x in "abc"))

    def replaced(V, m):
        """den(m) with from := den(to), from the map as passed in"""
        return (V.den(m) + V.coef(m, PARAM("from")) * (V.den(PARAM("to")) - V.sym(PARAM("from")))) % Q

    def noself(V):
        """a substitution's replacement does not mention the substituted signal"""
        if V.find(PARAM("from")) in V.const_keys: raise Infeasible()
        V.fixed[mk("cf", PARAM("to"), V.find(PARAM("from")))] = 0
        for x in set(V.rep) | set(V.rep.values()):
            if x.op == "field" and x.a[0].op == "item" and V.base(x.a[0].a[0].a[0]) is PARAM("to") and V.find(x) is V.find(PARAM("from")): raise Infeasible()
    f = F.find("algebra::raw_substitution", "circom_algebra")
    E = ev(); st0 = St(); ref = cellref(st0, "chg", PARAM("m"))
    paths = E.call_fn(f, [ref, sub, FIELD], st0); fin(E, f)

    def spec(V, st, r):
        noself(V)
        out = st.mem[("G", "chg")]
        yield V.den(out), replaced(V, PARAM("m")), "the substituted map is %s" % show(out)[:160]
        yield V.coef(out, PARAM("from")), 0, "the substituted signal is still in the map"
    decide(R, "C29.subst", "raw_substitution", f, E, paths, spec, consts)
    for ty, nm, cell in (("Constraint", "apply_substitution", con), ("Substitution", "apply_substitution", None)):
        for f in [g for g in F.find(nm, "circom_algebra", unique=False) if ty in (g.self_ty or "").split("::")[-1]]:
            E = ev(); st0 = St()
            x = con if ty == "Constraint" else ADT(S, "Substitution", (("from", PARAM("k_other")), ("to", PARAM("m"))))
            ref = cellref(st0, "chg", x)
            E.stop = lambda n: n.endswith("algebra::raw_substitution") or "raw_substitution::<" in n
            E.track = E.stop
            paths = E.call_fn(f, [ref, sub, FIELD], st0); fin(E, f)
            want = {("G", "chg", c) for c in (("a", "b", "c") if ty == "Constraint" else ("to",))}
            ok = bool(paths)
            for st, r in paths:
                got = [e for e in st.events() if "raw_substitution" in e[0]]
                vals = {show(e[1][0]) for e in got}
                exp = {show(PARAM("c" + x)) for x in "abc"} if ty == "Constraint" else {show(PARAM("m"))}
                if vals != exp or any(e[1][1] is not sub for e in got): ok = False
            R.check("C29.subst", "%s::apply_substitution" % ty, ok, R.where(f), "the substitution is not applied to every linear part")
    f = algebra(F, "apply_substitutions")
    for k in KINDS:
        E = lin.evaluator(F, extra=lin.summaries(F), max_paths=60000); st0 = St(); A = operand(F, k, 1)
        E.map_hint = lambda v: True
        ref = cellref(st0, "chg", A)
        paths = E.call_fn(f, [ref, sub, FIELD], st0); fin(E, f)

        def spec(V, st, r):
            noself(V)
            out = st.mem[("G", "chg")]
            d = V.expr(out)
            if k == "NonQuadratic": yield d is None, d is None, "a non-quadratic expression becomes quadratic"; return
            if d is None: yield False, False, "the expression is degraded"; return
            if k == "Number": e = V.expr(A)
            elif k == "Signal": e = V.den(PARAM("to")) if V.find(PARAM("k_1")) is V.find(PARAM("from")) else V.sym(PARAM("k_1"))
            elif k == "Linear": e = replaced(V, PARAM("m1"))
            else: e = (replaced(V, PARAM("m1a")) * replaced(V, PARAM("m1b")) + replaced(V, PARAM("m1c"))) % Q
            yield d, e, "substituting in a %s expression gives %s" % (k, show(out)[:160])
        decide(R, "C29.subst", "apply_substitutions %s" % k, f, E, paths, spec, consts)
    f = [g for g in F.find("new", "circom_algebra", unique=False) if "Substitution" in (g.self_ty or "")][0]
    for k in KINDS:
        E = ev(); A = operand(F, k, 1)
        paths = E.call_fn(f, [PARAM("from"), A]); fin(E, f)

        def spec(V, st, r):
            if r is NONE: yield (k in ("Quadratic", "NonQuadratic", "Linear"),) * 2 + ("a linear right side gives no substitution",); return
            x = getf(r, "0")
            if x.op != "adt" or k in ("Quadratic", "NonQuadratic"): yield False, False, "a %s right side gives a substitution" % k; return
            yield (getf(x, "from") is PARAM("from"),) * 2 + ("the substituted signal is not the one given",)
            yield V.den(getf(x, "to")), V.expr(A), "the substitution does not denote its right side"
            if k == "Linear": yield V.coef(getf(x, "to"), PARAM("from")), 0, "the substituted signal occurs in its own replacement"
        decide(R, "C29.subst", "Substitution::new %s" % k, f, E, paths, spec, consts)
    f = F.find("substitution_into_constraint", "circom_algebra")
    E = ev(); paths = E.call_fn(f, [sub, FIELD]); fin(E, f)

    def spec(V, st, r):
        noself(V)
        d = constraint(V, r); e = (V.den(PARAM("to")) - V.sym(PARAM("from"))) % Q
        yield (True, True, "") if (d - e) % Q == 0 else (d, -e % Q, "the constraint of x = e is not equivalent to e - x = 0")
    decide(R, "C29.form", "substitution_into_constraint", f, E, paths, spec, consts)
    f = F.find("map_into_arith_expr", "circom_algebra")
    E = ev(); paths = E.call_fn(f, [sub, FIELD]); fin(E, f)

    def spec(V, st, r):
        noself(V)
        d = V.expr(r)
        if d is None: yield False, False, "non-quadratic"; return
        e = (V.den(PARAM("to")) - V.sym(PARAM("from"))) % Q
        yield (True, True, "") if (d - e) % Q == 0 else (d, -e % Q, "the expression of x = e is not equivalent to e - x")
    decide(R, "C29.form", "map_into_arith_expr", f, E, paths, spec, consts, need=False)
    # ---- isolating
    for nm in ("clear_signal", "clear_signal_not_normalized"):
        f = F.find("::" + nm, "circom_algebra")
        E = ev(); paths = E.call_fn(f, [PARAM("m"), PARAM("key"), FIELD]); fin(E, f)

        def spec(V, st, r):
            k = V.coef(PARAM("m"), PARAM("key")); sym = V.sym(PARAM("key"))
            rest = (V.den(PARAM("m")) - k * sym) % Q
            if nm == "clear_signal":
                yield V.den(r) * (-k) % Q, rest, "coefficient*signal + rest = 0 is not equivalent to signal = %s" % show(r)[:120]
                yield V.coef(r, PARAM("key")), 0, "the isolated signal is still in its replacement"
            else:
                kv = V.val(getf(r, "0")); d = V.den(getf(r, "1"))
                yield kv * sym * (-k) % Q * 1, (-k) * sym % Q * kv % Q, ""
                # coefficient * signal = rest' must be equivalent to k*signal + rest = 0
                yield (kv * rest + k * d) % Q, 0, "coefficient*signal = rest is not equivalent to the constraint"
                yield V.coef(getf(r, "1"), PARAM("key")), 0, "the isolated signal is still in its replacement"
        decide(R, "C29.clear", nm, f, E, paths, spec, consts)
    lc = ADT(C, "Constraint", (("a", mk("mnew")), ("b", mk("mnew")), ("c", PARAM("m"))))
    for nm in ("clear_signal_from_linear", "clear_signal_from_linear_not_normalized"):
        f = F.find(nm, "circom_algebra")
        E = ev(); paths = E.call_fn(f, [lc, PARAM("key"), FIELD]); fin(E, f)

        def spec(V, st, r):
            s = r if nm == "clear_signal_from_linear" else getf(r, "1")
            yield (getf(s, "from") is PARAM("key"),) * 2 + ("the substituted signal is not the isolated one",)
            k = V.coef(PARAM("m"), PARAM("key")); rest = (V.den(PARAM("m")) - k * V.sym(PARAM("key"))) % Q
            kv = 1 if nm == "clear_signal_from_linear" else V.val(getf(r, "0"))
            yield (kv * rest + k * V.den(getf(s, "to"))) % Q, 0, "the substitution is not equivalent to the constraint"
        decide(R, "C29.clear", nm, f, E, paths, spec, consts)
    # ---- normalisation
    f = F.find("::remove_zero_value_coefficients", "circom_algebra", unique=False)
    f = [g for g in f if not g.self_ty][0]
    E = ev(); paths = E.call_fn(f, [PARAM("m")]); fin(E, f)
    decide(R, "C29.fix", "remove_zero_value_coefficients", f, E, paths, lambda V, st, r: [(V.den(r), V.den(PARAM("m")), "the cleaned map is %s" % show(r)[:80])], consts)
    f = F.find("fix_constraint", "circom_algebra")
    E = ev(); E.map_hint = lambda v: True
    st0 = St(); ref = cellref(st0, "chg", con)
    paths = E.call_fn(f, [ref, FIELD], st0); fin(E, f)

    def spec(V, st, r):
        out = st.mem[("G", "chg")]
        d = constraint(V, out); e = constraint(V, con)
        yield (True, True, "") if (d - e) % Q == 0 else (d, -e % Q, "A*B-C changes when the constraint is normalised to %s" % show(out)[:200])
    decide(R, "C29.fix", "fix_constraint", f, E, paths, spec, consts)
    # ---- renaming
    for nm, keymap in (("apply_raw_offset", lambda k: mk("Add", k, PARAM("offset"))), ("apply_vectored_correspondence", None), ("apply_raw_correspondence", None)):
        f = F.find(nm, "circom_algebra")
        E = ev()
        paths = E.call_fn(f, [PARAM("m"), PARAM("offset" if keymap else "map")]); fin(E, f)
        it = mk("item", mk("iter", PARAM("m")))
        k, v = getf(it, "0"), getf(it, "1")
        ok = False; bad = None
        for st, r in paths:
            ce = lin.concrete_entries(r, st)
            if ce is None: R.notes.append("C29.rename not decided for %s: %s" % (nm, show(r)[:80])); ok = True; continue
            entered = any(c[0] == "loop" and c[2] for c in st.conds())
            if not entered:
                if ce: bad = "an empty map becomes %s" % show(r)[:80]
                continue
            isc = [c for c in st.conds() if c[0] == "bool" and c[1].op == "Eq" and k in c[1].a and (cc in c[1].a or INT(0) in c[1].a)]
            if len(ce) != 1 or ce[0][1] is not v: bad = "an entry becomes %s" % show(r)[:80]; continue
            nk = ce[0][0]
            if nm == "apply_vectored_correspondence":
                if nk is not mk("idx", PARAM("map"), k): bad = "signal k becomes %s" % show(nk)[:60]
                else: ok = True
            else:
                if not isc: bad = "the constant entry is not kept apart"
                elif isc[0][2]:
                    if nk is not cc and nk is not k and nk is not INT(0): bad = "the constant entry becomes %s" % show(nk)[:60]
                else:
                    ok = True
                    if keymap:
                        if not (nk.op == "Add" and set(nk.a) == {k, PARAM("offset")}): bad = "signal k becomes %s" % show(nk)[:60]
                    elif not (nk is mk("coef", PARAM("map"), k)): bad = "signal k becomes %s" % show(nk)[:60]
        R.check("C29.rename", nm, ok and not bad, R.where(f), "renumbering: %s" % bad)
    stopn = ("apply_raw_offset", "apply_vectored_correspondence", "apply_raw_correspondence")
    for ty, nm, raw in (("Constraint", "apply_offset", stopn[0]), ("Substitution", "apply_offset", stopn[0]), ("Constraint", "apply_witness", stopn[1]),
                        ("Constraint", "apply_correspondence", stopn[2]), ("Substitution", "apply_correspondence", stopn[2])):
        for f in [g for g in F.find(nm, "circom_algebra", unique=False) if (g.self_ty or "").split("<")[0].endswith(ty)]:
            E = ev(); E.stop = lambda n: any(s in n for s in stopn)
            x = con if ty == "Constraint" else sub
            paths = E.call_fn(f, [x, PARAM("by")]); fin(E, f)
            ok = bool(paths); why = ""
            for st, r in paths:
                fs = ("a", "b", "c") if ty == "Constraint" else ("to",)
                for fl in fs:
                    y = getf(r, fl)
                    if not (y.op == "call" and raw in y.a[0] and y.a[1] is getf(x, fl) and y.a[2] is PARAM("by")): ok = False; why = "%s becomes %s" % (fl, show(y)[:80])
                if ty == "Substitution":
                    y = getf(r, "from")
                    good = y is mk("Add", PARAM("from"), PARAM("by")) or y is mk("Add", PARAM("by"), PARAM("from")) if nm == "apply_offset" else y is mk("coef", PARAM("by"), PARAM("from"))
                    if not good: ok = False; why = "from becomes %s" % show(y)[:80]
            R.check("C29.rename", "%s::%s" % (ty, nm), ok, R.where(f), why)
    # ---- equality shapes
    for nm in ("is_equality", "is_constant_equality"):
        f = F.find(nm, "circom_algebra"); E = ev()
        paths = E.call_fn(f, [con, FIELD][:f.nargs]); fin(E, f)
        bad = None; n = 0
        for st, r in paths:
            if r is FALSE: continue
            n += 1
            cs = st.conds()
            loops = {show(c[1].a[0]) for c in cs if c[0] == "loop" and not c[2]}
            has = [c for c in cs if c[0] == "is" and c[1] is mk("mget", PARAM("cc"), cc)]
            ln = None
            for c in cs:
                t = c[1]
                if c[0] == "bool" and t.op == "Eq" and mk("len", PARAM("cc")) in t.a and c[2]:
                    ln = [x.a[0] for x in t.a if x.op == "int"][0]
                if c[0] == "eq" and t is mk("len", PARAM("cc")): ln = c[2]
            if r.op != "bool" and r.op == "Eq" and mk("len", PARAM("cc")) in r.a: ln = [x.a[0] for x in r.a if x.op == "int"][0]
            if {"$ca", "$cb"} - loops: bad = "the product part is not required to be empty"
            elif not has: bad = "the constant entry is not looked at"
            elif nm == "is_equality":
                if has[0][2] != "None" or ln != 2: bad = "it accepts constant entry %s, %s entries" % (has[0][2], ln)
                elif r is TRUE and not any(c[0] == "bool" and c[2] and "Rem" in show(c[1]) for c in cs): bad = "the coefficients are not compared"
                elif r is not TRUE and not eq_opposite(r): bad = "coefficients compared as %s" % show(r)[:120]
            elif (has[0][2], ln) not in (("Some", 2), ("None", 1)): bad = "it accepts constant entry %s, %s entries" % (has[0][2], ln)
        R.check("C29.eq", nm, n and not bad, R.where(f), "%s" % bad)


def eq_opposite(r):
    s = show(r)
    return r.op == "Eq" and "-1" in s


def cellref(st, name, v):
    st.mem[("G", name)] = v
    return mk("ref", ("G", name), ())


def constraint(V, c):
    return (V.den(getf(c, "a")) * V.den(getf(c, "b")) - V.den(getf(c, "c"))) % Q


def unres(r):
    if r.op == "adt" and r.a[1] == "Ok": return getf(r, "0")
    if r.op == "adt" and r.a[1] == "Err": return None
    return r
