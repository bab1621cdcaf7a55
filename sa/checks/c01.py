"""C01: one meaning per operator: grammar token -> AST opcode -> folded value / IR operator -> C and WASM routine."""
import re
from .. import grammar
from ..ev import *
from ..util import *

TABLE = {"Mul": ("*", "Fr_mul"), "Div": ("/", "Fr_div"), "Add": ("+", "Fr_add"), "Sub": ("-", "Fr_sub"), "Pow": ("**", "Fr_pow"),
         "IntDiv": ("\\", "Fr_idiv"), "Mod": ("%", "Fr_mod"), "ShiftL": ("<<", "Fr_shl"), "ShiftR": (">>", "Fr_shr"),
         "LesserEq": ("<=", "Fr_leq"), "GreaterEq": (">=", "Fr_geq"), "Lesser": ("<", "Fr_lt"), "Greater": (">", "Fr_gt"),
         "Eq": ("==", "Fr_eq"), "NotEq": ("!=", "Fr_neq"), "BoolOr": ("||", "Fr_lor"), "BoolAnd": ("&&", "Fr_land"),
         "BitOr": ("|", "Fr_bor"), "BitAnd": ("&", "Fr_band"), "BitXor": ("^", "Fr_bxor")}
PREFIX = {"Sub": ("-", "PrefixSub", "Fr_neg"), "BoolNot": ("!", "BoolNot", "Fr_lnot"), "Complement": ("~", "Complement", "Fr_bnot")}

L, Rr, P = PARAM("L"), PARAM("R"), PARAM("p")
PRIMES = (7, 11, 13, 17)


def signed(x, p): return x - p if x > p // 2 else x


def shl(l, k, p):
    if k <= p // 2: return ((l * 2 ** k) & (2 ** p.bit_length() - 1)) % p
    return shr(l, p - k, p)


def shr(l, k, p):
    if k <= p // 2: return l // 2 ** k
    return shl(l, p - k, p)


DIV0 = "DivisionByZero"
REF = {"Mul": lambda l, r, p: l * r % p,
       "Div": lambda l, r, p: DIV0 if r == 0 else l * pow(r, -1, p) % p,
       "Add": lambda l, r, p: (l + r) % p, "Sub": lambda l, r, p: (l - r) % p, "Pow": lambda l, r, p: pow(l, r, p),
       "IntDiv": lambda l, r, p: DIV0 if r == 0 else l // r, "Mod": lambda l, r, p: DIV0 if r == 0 else l % r,
       "ShiftL": shl, "ShiftR": shr,
       "LesserEq": lambda l, r, p: int(signed(l, p) <= signed(r, p)), "GreaterEq": lambda l, r, p: int(signed(l, p) >= signed(r, p)),
       "Lesser": lambda l, r, p: int(signed(l, p) < signed(r, p)), "Greater": lambda l, r, p: int(signed(l, p) > signed(r, p)),
       "Eq": lambda l, r, p: int(l == r), "NotEq": lambda l, r, p: int(l != r),
       "BoolOr": lambda l, r, p: int(l != 0 or r != 0), "BoolAnd": lambda l, r, p: int(l != 0 and r != 0),
       "BitOr": lambda l, r, p: (l | r) % p, "BitAnd": lambda l, r, p: (l & r) % p, "BitXor": lambda l, r, p: (l ^ r) % p}
PREF = {"Sub": lambda l, r, p: -l % p, "BoolNot": lambda l, r, p: int(l == 0)}


def get_p(e, st, name, args, fn, line): return [(st, P)]


def aexpr(F):
    r = [i for i in F.adts if i.endswith("algebra::ArithmeticExpression")]
    if len(r) != 1: raise Anchor("ArithmeticExpression")
    return r[0]


def regions(second=True):
    return [{L: l, Rr: r, P: p} for p in PRIMES for l in range(p) for r in (range(p) if second else [0])]


def fold_infix(F, V, regs):
    """summaries of execute_infix_op for operator V on two constants: list of (regions, outcome term)"""
    AE = aexpr(F)
    IO = F.adt("ExpressionInfixOpcode")["id"]
    f = F.find("execute_infix_op")
    num = lambda x: ADT(AE, "Number", (("value", x),))
    E = with_regions(Ev(F, intrinsics={r"UsefulConstants::get_p$": get_p}, stop=lambda n: n.endswith("treat_result_with_arithmetic_error")), regs)
    args = {"infix": ADT(IO, V), "l_value": num(L), "r_value": num(Rr)}
    av = [args.get(f.name(i + 1), PARAM(f.name(i + 1))) for i in range(f.nargs)]
    out = []
    for st, ret in E.call_fn(f, av):
        evs = [e for e in st.events() if e[0].endswith("treat_result_with_arithmetic_error")]
        out.append((st, evs[0][1][0] if evs else ret))
    return f, E, out


def compare(R, rid, what, f, out, regs, ref):
    """every region is covered by exactly the paths whose outcome equals the reference"""
    seen = {}
    bad = None
    for st, o in out:
        while o.op == "adt" and o.a[1] == "Ok" and getf(o, "0").op == "adt" and getf(o, "0").a[1] in ("Ok", "Err"): o = getf(o, "0")
        for i in (st.reg if st.reg is not None else range(len(regs))):
            e = regs[i]
            want = ref(e[L], e[Rr], e[P])
            if o.op == "adt" and o.a[1] == "Err":
                x = getf(o, "0")
                got = x.a[1] if x.op == "adt" else show(x)
            elif o.op == "adt" and o.a[1] == "Ok" or (o.op == "adt" and o.a[1] == "Number"):
                v = getf(o, "0") if o.a[1] == "Ok" else o
                try: got = val(getf(v, "value"), e) if v.op == "adt" and v.a[1] == "Number" else "non-constant " + show(v)[:60]
                except Unk as u:
                    got = "undecidable term (%s)" % u
            else: got = "not a value: " + show(o)[:60]
            seen[i] = 1
            if got != want and bad is None:
                bad = "in the region left=%d right=%d p=%d the summary of the code is %s, the language defines %s (outcome term %s)" % (
                    e[L], e[Rr], e[P], got, want, show(o)[:160])
    if bad is None and len(seen) != len(regs):
        miss = [i for i in range(len(regs)) if i not in seen][0]
        bad = "no normal path for the region left=%d right=%d p=%d (the compiler would stop there)" % (regs[miss][L], regs[miss][Rr], regs[miss][P])
    R.check(rid, what, bad is None, R.where(f), "%s: %s" % (what, bad))


def complement_rule(F, R, rid):
    AE = aexpr(F); f = F.find("execute_prefix_op")
    PO = F.adt("ExpressionPrefixOpcode")["id"]
    args = {"prefix_op": ADT(PO, "Complement"), "value": ADT(AE, "Number", (("value", L),))}
    regs = regions(False)
    E = with_regions(Ev(F, intrinsics={r"UsefulConstants::get_p$": get_p}), regs)
    flips = set(); full = False; good = True; msg = ""
    n = 0
    for st, ret in E.call_fn(f, [args.get(f.name(i + 1), PARAM(f.name(i + 1))) for i in range(f.nargs)]):
        n += 1
        s = show(ret)
        if "from_radix_le" not in s:
            R.notes.append("complement is no longer computed from the bit representation; not decided"); return
        if not re.search(r"Rem\(Add\(Rem\(.*,\$p\),\$p\),\$p\)", s) and "M(" not in s:
            good = False; msg = "the complement is not reduced modulo p: " + s[:120]
        for c in st.conds():
            if c[0] == "loop" and c[2] and "Range{start:len(" in show(c[1]) and "end:BigInt::bits($p)" in show(c[1]): full = True
            if c[0] == "bool" and c[1].op == "Eq" and "item(" in show(c[1]):
                vals = {v.a[0] for k, v in st.mem.items() if k[0] == "T" and v.op == "int"}
                flips.add((c[2], tuple(sorted(vals))))
    R.check(rid, "complement:reduced", good, R.where(f), msg)
    f2 = F.find("modular_arithmetic::complement")
    if flips:
        R.check(rid, "complement:flips-every-bit", flips == {(True, (1,)), (False, (0,))}, R.where(f2),
                "complement does not exchange 0 and 1 bits (bit is 0? -> stored: %s)" % sorted(flips))
        R.check(rid, "complement:pads-to-field-bits", full, R.where(f2), "complement does not extend the operand with zeros to the bits of the field before flipping")
    else: R.notes.append("complement: bit flip not in the recognised form; not decided")


def ir_operator(F, V, prefix=False):
    f = F.find("translate_prefix_operator" if prefix else "translate_infix_operator")
    en = F.adt("ExpressionPrefixOpcode" if prefix else "ExpressionInfixOpcode")["id"]
    rs = Ev(F).call_fn(f, [ADT(en, V)])
    return f, [r for _, r in rs]


def translate_order(F, R, rid):
    """translate_infix pushes lhe then rhe; execute_expression passes lhe as left"""
    for fnname, var, fields in (("translate_infix", "InfixOp", ("lhe", "rhe")), ("translate_prefix", "PrefixOp", ("rhe",))):
        f = F.find(fnname)
        fs = {n: PARAM("E." + n) for n in fields}
        E = Ev(F, stop=lambda n: n.endswith("translate::translate_expression") or n.endswith("_operator"))
        ex = variant(F, "ast::Expression", var)
        ex = ADT(ex.a[0], var, [(n, PARAM("E." + n)) for n, _ in ex.a[2]])
        outs = E.call_fn(f, [ex, PARAM("state"), PARAM("context")])
        ok = bool(outs)
        d = ""
        for st, r in outs:
            s = show(getf(r, "0")) if r.op == "adt" and r.a[1] == "Compute" else show(r)
            b = getf(r, "0") if r.op == "adt" and r.a[1] == "Compute" else r
            stack = getf(b, "stack")
            want = list(fields)
            got = [re.findall(r"translate_expression\(\$E\.(\w+)", show(x)) for x in stack.a] if stack.op == "array" else None
            if got != [[w] for w in want]: ok = False; d = "operand stack is %s" % show(stack)[:200]
            op = show(getf(b, "op"))
            if "_operator($E." not in op and "_operator" not in op: ok = False; d = "operator is " + op[:80]
        R.fn(f)
        R.check(rid, fnname + ":operand-order", ok, R.where(f), "%s does not translate its operands in source order: %s" % (fnname, d))


def exec_order(F, R, rid):
    f = F.find("execute::execute_expression")
    for var, target, fields in (("InfixOp", "execute_infix_op", [("l_value", "lhe"), ("r_value", "rhe")]), ("PrefixOp", "execute_prefix_op", [("value", "rhe")])):
        ex = variant(F, "ast::Expression", var)
        ex = ADT(ex.a[0], var, [(n, PARAM("E." + n)) for n, _ in ex.a[2]])
        E = Ev(F, stop=lambda n: n.endswith("execute::execute_expression") or n.endswith("execute::" + target))
        outs = E.call_fn(f, [ex] + [PARAM(f.name(i)) for i in range(2, f.nargs + 1)])
        t = F.find("execute::" + target)
        pos = {t.name(i + 1): i for i in range(t.nargs)}
        seen = 0; bad = None
        for st, r in outs:
            for e in st.events():
                if e[0].endswith(target):
                    seen += 1
                    for pn, fn_ in fields:
                        if pn not in pos: raise Anchor("%s has no parameter %s" % (target, pn))
                        a = show(e[1][pos[pn]])
                        if re.findall(r"execute_expression\(\$E\.(\w+)", a) != [fn_]: bad = "%s receives %s" % (pn, a[:150])
                    o = [show(x) for x in e[1] if "_op" in show(x) and show(x).startswith("$E.")]
                    if not o: bad = "the operator passed is not the one of the expression"
        R.fn(f)
        R.check(rid, "execute_expression:%s" % var, seen and not bad, R.where(f), "evaluating %s: %s" % (var, bad or "the operator is never applied"))


def exec_ternary(F, R, rid):
    f = F.find("execute::execute_expression")
    ex = variant(F, "ast::Expression", "InlineSwitchOp")
    ex = ADT(ex.a[0], "InlineSwitchOp", [(n, PARAM("E." + n)) for n, _ in ex.a[2]])
    E = Ev(F, stop=lambda n: n.endswith("execute::execute_expression") or n.endswith("get_boolean_equivalence"))
    bad = None; seen = set()
    for st, r in E.call_fn(f, [ex] + [PARAM(f.name(i)) for i in range(2, f.nargs + 1)]):
        b = None
        for c in st.conds():
            if c[0] == "bool" and "get_boolean_equivalence" in show(c[1]): b = c[2]
        evs = [re.findall(r"\$E\.(\w+)", show(e[1][0])) for e in st.events() if e[0].endswith("execute_expression")]
        evs = [x[0] for x in evs if x]
        if b is None: continue
        if r.op == "adt" and r.a[1] == "Err": continue
        if len(evs) < 2: continue
        seen.add(b)
        other = "if_false" if b else "if_true"
        if other in evs: bad = "with the condition %s the branch %s is executed" % (b, other)
    R.check(rid, "execute_expression:InlineSwitchOp", seen == {True, False} and not bad, R.where(f), "conditional expression: %s" % (bad or "branch selection not found"))


def backends(F, R):
    OT = F.adt("OperatorType")["id"]; SO = F.adt("SizeOption")["id"]
    fw, fc = method(F, "ComputeBucket", "produce_wasm"), method(F, "ComputeBucket", "produce_c")
    R.fn(fw); R.fn(fc)
    rows = [(v, t[1], 2) for v, t in TABLE.items()] + [(t[1], t[2], 1) for t in PREFIX.values()]
    a, b = PARAM("a"), PARAM("b")
    for V, fr, n in rows + [("ToAddress", "Fr_toInt", 1), ("AddAddress", "+", 2), ("MulAddress", "*", 2)]:
        fs = (("0", ADT(SO, "Single", (("0", INT(1)),))),) if V == "Eq" else ()
        ops = [a, b][:n]
        bk = struct(F, "ComputeBucket", op=ADT(OT, V, fs), stack=mk("array", *ops))
        # --- C
        E = Ev(F, intrinsics=SUBGEN)
        outs = E.call_fn(fc, [bk, PARAM("producer"), PARAM("parallel")])
        ok = len(outs) >= 2; why = "%d code forms" % len(outs); gl = set()
        for st, r in outs:
            gold = [c[2] for c in st.conds() if c[0] == "bool" and "goldilocks" in show(c[1])]
            code, res = getf(r, "0"), getf(r, "1")
            lines = strip_comments([x for x in flatten(code)])
            res = text(res)
            body = lines + [res]
            vals = ",".join("<VAL($%s)>" % x for x in ("a", "b")[:n])
            for i, x in enumerate(("a", "b")[:n]):
                if not any(("CODE($%s)" % x) in l for l in body): ok = False; why = "the code of operand %s is not emitted" % x
            g = gold and gold[-1]
            gl.add(bool(g))
            if V in ("AddAddress", "MulAddress"):
                if res != "(<VAL($a)> %s <VAL($b)>)" % fr: ok = False; why = res
            elif V == "ToAddress":
                want = "Fr_toInt(%s)" % vals
                if not (res == want or g and res == vals or g and res == "Fr_toInt(%s)" % vals): ok = False; why = res
            elif g:
                if "%s(%s)" % (fr, vals) != res: ok = False; why = res
            else:
                w = [l for l in body if re.match(re.escape(fr) + r"\((&[^,]+),%s\);" % re.escape(vals), l)]
                calls = [l for l in body if re.match(r"\s*Fr_\w+\(", l)]
                if len(w) != 1 or len(calls) != 1: ok = False; why = "; ".join(body)
                else:
                    m = re.match(re.escape(fr) + r"\((&[^,]+),", w[0])
                    if res != m.group(1): ok = False; why = "result is %s but the routine writes %s" % (res, m.group(1))
        if gl != {True, False}: ok = False; why = "prime families generated: %s" % gl
        R.check("C01.c", V, ok, R.where(fc), "C code of operator %s is not %s with its operands in order: %s" % (V, fr, why))
        # --- WASM
        E = Ev(F, intrinsics=SUBGEN)
        outs = E.call_fn(fw, [bk, PARAM("producer")])
        ok = bool(outs); why = ""
        for st, r in outs:
            lines = strip_comments(flatten(r), wasm=True)
            ia = [i for i, l in enumerate(lines) if "WASM($a)" in l]; ib = [i for i, l in enumerate(lines) if "WASM($b)" in l]
            calls = [l for l in lines if l.startswith("call ")]
            if len(ia) != 1 or (n == 2 and (len(ib) != 1 or ib[0] != ia[0] + 1)): ok = False; why = "operands: %s" % lines
            last = (ib or ia or [0])[-1]
            want = {"AddAddress": "i32.add", "MulAddress": "i32.mul"}.get(V, "call $" + fr)
            if last + 1 >= len(lines) or lines[last + 1] != want: ok = False; why = "after the operands comes %s" % lines[last + 1:last + 2]
            if V in ("AddAddress", "MulAddress", "ToAddress"):
                if lines[0:1] != ["<WASM($a)>"] or len(lines) != n + 1: ok = False; why = str(lines)
            else:
                if calls != ["call $" + fr]: ok = False; why = "calls %s" % calls
                pre, post = lines[:ia[0]] if ia else [], lines[last + 2:]
                if pre != post or not pre: ok = False; why = "result address pushed before (%s) and after (%s) differ" % (pre, post)
        R.check("C01.wasm", V, ok, R.where(fw), "WASM code of operator %s is not %s with its operands in order: %s" % (V, fr, why))


def run(F, R):
    R.rule("C01.fold", "the summary of execute_infix_op/execute_prefix_op (inlined through AExpr and modular_arithmetic) equals the language definition in every order region of (left, right, p)")
    R.rule("C01.ir", "each AST opcode is translated to the IR operator of the same name, operands in source order")
    R.rule("C01.c", "C generator: routine and operand order of each IR operator, for both prime families")
    R.rule("C01.wasm", "WASM generator: routine, operand order and result address of each IR operator")
    R.rule("C01.token", "each operator token of the grammar builds the opcode it denotes")
    R.rule("C01.order", "execution and translation take the operands of an expression in source order")
    regs = regions()
    vs = F.variants[F.adt("ExpressionInfixOpcode")["id"]]
    R.check("C01.fold", "opcode-set", set(vs) == set(REF), "ExpressionInfixOpcode", "infix opcodes %s have no reference meaning" % sorted(set(vs) ^ set(REF)))
    for V in vs:
        if V not in REF: continue
        f, E, out = fold_infix(F, V, regs)
        R.fn(f)
        for i in E.inlined: R.fn(i)
        compare(R, "C01.fold", V, f, out, regs, REF[V])
    AE = aexpr(F); f = F.find("execute_prefix_op"); PO = F.adt("ExpressionPrefixOpcode")["id"]
    for V in F.variants[PO]:
        if V not in PREF: continue
        args = {"prefix_op": ADT(PO, V), "value": ADT(AE, "Number", (("value", L),))}
        r1 = regions(False)
        E = with_regions(Ev(F, intrinsics={r"UsefulConstants::get_p$": get_p}), r1)
        out = E.call_fn(f, [args.get(f.name(i + 1), PARAM(f.name(i + 1))) for i in range(f.nargs)])
        for i in E.inlined: R.fn(i)
        compare(R, "C01.fold", "prefix " + V, f, out, r1, PREF[V])
    complement_rule(F, R, "C01.fold")
    for V in vs:
        f, rs = ir_operator(F, V)
        ok = len(rs) == 1 and rs[0].op == "adt" and rs[0].a[1] == V and (V != "Eq" or show(rs[0]).replace(" ", "") .endswith("Single{0:1}}"))
        R.check("C01.ir", V, ok, R.where(f), "opcode %s is translated to %s" % (V, rs))
    for V, (tok, ir, fr) in PREFIX.items():
        f, rs = ir_operator(F, V, True)
        R.check("C01.ir", "prefix " + V, len(rs) == 1 and rs[0].op == "adt" and rs[0].a[1] == ir, R.where(f), "prefix opcode %s is translated to %s" % (V, rs))
    translate_order(F, R, "C01.order"); exec_order(F, R, "C01.order"); exec_ternary(F, R, "C01.order")
    backends(F, R)
    g = grammar.load()
    tok = g.token_table()
    R.check("C01.token", "grammar", bool(tok), g.path, "no operator token productions found in the grammar")
    for V, (t, _) in TABLE.items():
        R.check("C01.token", t, tok.get(("ExpressionInfixOpcode", t)) == V, g.path, "token %s builds %s, not %s" % (t, tok.get(("ExpressionInfixOpcode", t)), V))
    for V, (t, _, _) in PREFIX.items():
        R.check("C01.token", "prefix " + t, tok.get(("ExpressionPrefixOpcode", t)) == V, g.path, "prefix token %s builds %s" % (t, tok.get(("ExpressionPrefixOpcode", t))))
