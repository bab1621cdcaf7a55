"""C02: compile-time field arithmetic is total and canonical."""
from ..ev import *
from ..util import *
from . import c01
from .c01 import L, Rr, P, fold_infix, aexpr, get_p

BIGP = 2 ** 127 - 1


def regs2():
    r = [{L: l, Rr: x, P: p} for p in (7, 13) for l in range(p) for x in range(p)]
    for l in (0, 1, 5, BIGP // 2, BIGP // 2 + 1, BIGP - 1):
        for x in (0, 1, 3, 126, 127, 128, 2 ** 40, 2 ** 70, BIGP // 2, BIGP // 2 + 1, BIGP - 2 ** 70, BIGP - 2 ** 40, BIGP - 5, BIGP - 1):
            r.append({L: l, Rr: x, P: BIGP})
    return r


def outcome(R, rid, what, f, out, regs, allow_err=True):
    seen = set(); bad = None
    for st, o in out:
        while o.op == "adt" and o.a[1] == "Ok" and getf(o, "0").op == "adt" and getf(o, "0").a[1] in ("Ok", "Err"): o = getf(o, "0")
        for i in (st.reg if st.reg is not None else range(len(regs))):
            e = regs[i]; seen.add(i)
            if bad: continue
            if o.op == "adt" and o.a[1] == "Err":
                if not allow_err: bad = "an error for an operator that is total"
                continue
            v = getf(o, "0") if o.op == "adt" and o.a[1] == "Ok" else o
            if not (v.op == "adt" and v.a[1] == "Number"):
                bad = "constant operands give %s" % show(v)[:80]; continue
            try: x = val(getf(v, "value"), e)
            except Unk as u:
                bad = "%s for left=%d right=%d p=%d (term %s)" % (u, e[L], e[Rr], e[P], show(v)[:120]); continue
            x = int(x)
            if not 0 <= x < e[P]: bad = "value %d is not in [0,p) for left=%d right=%d p=%d (term %s)" % (x, e[L], e[Rr], e[P], show(v)[:120])
    if bad is None and len(seen) != len(regs):
        m = [i for i in range(len(regs)) if i not in seen][0]
        bad = "no outcome at all for left=%d right=%d p=%d" % (regs[m][L], regs[m][Rr], regs[m][P])
    R.check(rid, what, bad is None, R.where(f), "operator %s on constants: %s" % (what, bad))


def run(F, R):
    R.rule("C02.total", "for every operator and every region of (left, right, p) the inlined summary ends in a value within [0,p) or an arithmetic error; divisors are non-zero and exponents bounded on every path that uses them")
    R.rule("C02.report", "an arithmetic error is turned into an error report and an Err result")
    R.rule("C02.literal", "number literals are reduced modulo p when the AST node is built")
    R.rule("C02.use", "fallible arithmetic is consumed through the reporting path only")
    rg = regs2()
    for V in F.variants[F.adt("ExpressionInfixOpcode")["id"]]:
        f, E, out = fold_infix(F, V, rg)
        R.fn(f)
        for i in E.inlined: R.fn(i)
        outcome(R, "C02.total", V, f, out, rg)
    # report
    f = F.find("treat_result_with_arithmetic_error"); R.fn(f)
    AEr = F.adt("ArithmeticError")
    for v, _, _ in AEr["variants"]:
        E = Ev(F, track=lambda n: n.endswith("add_report_to_runtime") or "ReportCollection" in n, stop=lambda n: n.endswith("add_report_to_runtime"))
        outs = E.call_fn(f, [ERR(ADT(AEr["id"], v))] + [PARAM(f.name(i)) for i in range(2, f.nargs + 1)])
        ok = bool(outs); why = "no outcome"
        for st, r in outs:
            if not (r.op == "adt" and r.a[1] == "Err"): ok = False; why = "it returns %s" % show(r)[:60]
            rep = [e for e in st.events() if e[0].endswith("add_report_to_runtime") or e[0].endswith("push")]
            if not rep: ok = False; why = "nothing is reported"
            elif "MessageCategory::Error" not in show(rep[0][1][0]) and "Report" in show(rep[0][1][0]): ok = False; why = "the report is not an error: %s" % show(rep[0][1][0])[:120]
        R.check("C02.report", v, ok, R.where(f), "arithmetic error %s: %s" % (v, why))
    outs = Ev(F).call_fn(f, [OK(PARAM("v"))] + [PARAM(f.name(i)) for i in range(2, f.nargs + 1)])
    R.check("C02.report", "Ok", all(r is OK(PARAM("v")) for _, r in outs) and outs, R.where(f), "a successful operation is not passed through unchanged")
    # the result of the fold reaches the report function
    for V in ("Div", "IntDiv", "Mod"):
        g, E, out = fold_infix(F, V, rg)
        errs = [o for st, o in out if "Err" in show(o)[:40] and "DivisionByZero" in show(o)]
        R.check("C02.report", "zero divisor of " + V, bool(errs), R.where(g), "operator %s has no path reporting a zero divisor" % V)
    # literals
    f = F.find("expression_builders::build_number"); R.fn(f)
    regs = [{PARAM(f.name(1)): x, PARAM(f.name(2)): p, PARAM(f.name(3)): p} for p in (7, 13) for x in range(3 * p)]
    ok = True; why = ""; n = 0
    E = with_regions(Ev(F), regs)
    for st, r in E.call_fn(f, [PARAM(f.name(i + 1)) for i in range(f.nargs)]):
        for i in (st.reg if st.reg is not None else range(len(regs))):
            n += 1
            # which parameter is the literal: the one that is not the field is decided by type order (meta, value, field)
            env = {PARAM(f.name(2)): regs[i][PARAM(f.name(2))], PARAM(f.name(3)): 7 if i < 21 else 13}
            try: x = val(getf(r, "1"), env)
            except Unk as u: ok = False; why = str(u); break
            if not 0 <= x < env[PARAM(f.name(3))] or (x - env[PARAM(f.name(2))]) % env[PARAM(f.name(3))]: ok = False; why = "literal %d becomes %d modulo %d" % (env[PARAM(f.name(2))], x, env[PARAM(f.name(3))])
    R.check("C02.literal", "build_number", ok and n, R.where(f), "number literals: %s" % why)
    wo = [x for x in F.by_last["build_number_without_field"]]
    from .. import grammar
    g = grammar.load()
    R.check("C02.literal", "grammar", "build_number_without_field" not in g.text, g.path, "the grammar builds a literal without reducing it")
    # consumers
    rid = "C02.use"; n = 0
    for fn, bb, c, a, d, line in F.call_sites(lambda c: True):
        ty = fn.locals[d[0]][0] if len(d) == 1 else ""
        if "ArithmeticError" in ty and ty.startswith("core::result::Result") and fn.crate in ("constraint_generation", "type_analysis", "program_structure", "compiler", "circom") :
            n += 1
            R.fn(fn)
            # every use of the destination: moved into a call of the reporting function, a `?`, a phi copy, or the discriminant
            bad = unwrapped(F, fn, d[0])
            R.check(rid, "%s in %s" % (c["p"].rsplit("::", 1)[-1], fn.id), not bad, R.where(fn, line), "the outcome of %s is consumed by %s without reporting" % (c["p"], bad))
    R.floor(rid, n, 5, "consumers of fallible arithmetic")


def unwrapped(F, fn, l):
    """panicking consumer of local l (through plain copies)"""
    s = {l}; ch = True
    while ch:
        ch = False
        for x, ds in fn.defs().items():
            for d in ds:
                if d[2] == "rv" and d[3][0] == "use" and d[3][1][0] != "c" and len(d[3][1][1]) == 1 and d[3][1][1][0] in s and x not in s:
                    s.add(x); ch = True
    for bb, c, a, d, line in fn.calls():
        if c and c["k"] == "fn" and c["p"].rsplit("::", 1)[-1] in ("unwrap", "expect", "ok", "unwrap_or", "unwrap_or_default", "unwrap_or_else"):
            for o in a:
                if o[0] != "c" and o[1][0] in s and len(o[1]) == 1: return c["p"].rsplit("::", 1)[-1]
    return None
