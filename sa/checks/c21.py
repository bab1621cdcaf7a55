"""C21: the grammar.  Derivations of token strings are computed from the productions of the generated parser, and their
semantic actions are abstractly interpreted; the resulting tree is compared with the language reference."""
import re
from .. import bnf
from ..ev import *
from ..exec_model import STR

KW = set("var signal input output component main if else for while return assert log template function bus parallel custom "
         "extern_c public include pragma circom custom_templates".split())

TIERS = [  # loosest to tightest (Rust precedence, as the reference prescribes)
    [("||", "BoolOr")], [("&&", "BoolAnd")],
    [("==", "Eq"), ("!=", "NotEq"), ("<", "Lesser"), (">", "Greater"), ("<=", "LesserEq"), (">=", "GreaterEq")],
    [("|", "BitOr")], [("^", "BitXor")], [("&", "BitAnd")], [("<<", "ShiftL"), (">>", "ShiftR")],
    [("+", "Add"), ("-", "Sub")], [("*", "Mul"), ("/", "Div"), ("\\", "IntDiv"), ("%", "Mod")], [("**", "Pow")]]
PREFIX = [("!", "BoolNot"), ("~", "Complement"), ("-", "Sub")]
DROP = {"is_constant", "is_anonymous"}


def norm(t):
    if not isinstance(t, T): return t
    if t.op == "adt":
        n = t.a[0].rsplit("::", 1)[-1]
        if n in ("Meta", "Range"): return None
        if not t.a[2]: return t.a[1]
        return (t.a[1],) + tuple((f, norm(x)) for f, x in t.a[2] if f not in DROP and norm(x) is not None)
    if t.op == "array": return [norm(x) for x in t.a]
    if t.op == "tuple": return tuple(norm(x) for x in t.a)
    if t.op in ("int", "str", "bool", "param"): return t.a[0]
    return show(t)


# reference constructors -------------------------------------------------------------------------------------
def V(n, *acc): return ("Variable", ("name", n), ("access", list(acc)))
def AA(e): return ("ArrayAccess", ("0", e))
def CA(n): return ("ComponentAccess", ("0", n))
def IN(l, o, r): return ("InfixOp", ("lhe", l), ("infix_op", o), ("rhe", r))
def PRE(o, e): return ("PrefixOp", ("prefix_op", o), ("rhe", e))
def CALL(n, *a): return ("Call", ("id", n), ("args", list(a)))
def TUP(*a): return ("Tuple", ("values", list(a)))
def ARR(*a): return ("ArrayInLine", ("values", list(a)))
def TERN(c, a, b): return ("InlineSwitchOp", ("cond", c), ("if_true", a), ("if_false", b))
def PAR(e): return ("ParallelOp", ("rhe", e))
def UNI(v, d): return ("UniformArray", ("value", v), ("dimension", d))
def ANON(n, par, params, sig, names):
    return ("AnonymousComp", ("id", n), ("is_parallel", par), ("params", params), ("signals", sig),
            ("names", "None" if names is None else ("Some", ("0", names))))
def SUB(v, acc, op, e): return ("Substitution", ("var", v), ("access", acc), ("op", op), ("rhe", e))
def MSUB(l, op, e): return ("MultSubstitution", ("lhe", l), ("op", op), ("rhe", e))
def BLK(*s): return ("Block", ("stmts", list(s)))
def INIT(t, *s): return ("InitializationBlock", ("xtype", t), ("initializations", list(s)))
def DECL(t, n, *d): return ("Declaration", ("xtype", t), ("name", n), ("dimensions", list(d)))
def SIG(k, *tags): return ("Signal", ("0", k), ("1", list(tags)))
def BUS(n, k, *tags): return ("Bus", ("0", n), ("1", k), ("2", list(tags)))
def BCALL(n, *a): return ("BusCall", ("id", n), ("args", list(a)))
def IF(c, a, b=None): return ("IfThenElse", ("cond", c), ("if_case", a), ("else_case", "None" if b is None else ("Some", ("0", b))))
def WH(c, s): return ("While", ("cond", c), ("stmt", s))
def NUM(n): return ("Number", ("1", n))
AV, AS, AC = "AssignVar", "AssignSignal", "AssignConstraintSignal"


class G:
    def __init__(self, F, r):
        self.F, self.r = F, r
        self.B = bnf.load(F)
        pats = self.B.patterns()
        def one(what, ok, no):
            c = [p for p in pats if all(_m(p, x) for x in ok) and not any(_m(p, x) for x in no)]
            if len(c) != 1: raise bnf.Anchor("terminal for %s among %s" % (what, pats))
            return c[0]
        self.ID = one("identifiers", ["a", "$a", "_a1", "aB_$9"], ["0x1", "7", '"a"'])
        self.DEC = one("decimal numbers", ["7", "123"], ["a", "0x1"])
        self.HEX = one("hexadecimal numbers", ["0x1F", "0xab09"], ["a"])
        self.STR = one("strings", ['"a b"', '""'], ["a", "7"])

    def toks(self, s):
        out = []
        for w in s.split():
            if w.startswith('"'): out.append((self.STR, STR(w)))
            elif w.isdigit(): out.append((self.DEC, PARAM("dec")))
            elif w.startswith("0x"): out.append((self.HEX, PARAM("hex")))
            elif re.match(r"^[A-Za-z]\w*$", w) and w not in KW: out.append((self.ID, PARAM(w)))
            else: out.append(w)
        return out

    def trees(self, nt, s, flag_no_init=False):
        out = []
        for v, e in self.B.parse(nt, self.toks(s)):
            x = (norm(v), bool(e))
            if x not in out: out.append(x)
        return out

    def expect(self, rule, nt, s, want, err=False):
        r = self.r
        try: got = self.trees(nt, s)
        except Budget as e:
            r.notes.append("`%s`: undecided (%s)" % (s, str(e)[:80])); return
        where = "grammar (%s)" % nt
        if not got:
            r.bad(rule, s, where, "`%s` has no derivation" % s); return
        vals = [g[0] for g in got]
        if want is not None and any(v != want for v in vals):
            r.bad(rule, s, where, "`%s` builds %s, expected %s" % (s, brief([v for v in vals if v != want][0]), brief(want))); return
        if any(g[1] != err for g in got):
            r.bad(rule, s, where, "`%s` %s" % (s, "is accepted without an error" if err else "is reported as an error")); return
        r.ok(rule, s)


def _m(p, s):
    try: return re.fullmatch(p[3:].replace('\\"', '"').replace("[^\"\\\\n]", "[^\"\\n]"), s) is not None
    except re.error: return False


def brief(t):
    if isinstance(t, tuple) and t:
        if t[0] == "Variable" and len(t) == 3 and not t[2][1]: return t[1][1]
        if isinstance(t[0], str) and all(isinstance(x, tuple) and len(x) == 2 for x in t[1:]):
            return "%s(%s)" % (t[0], ", ".join(brief(x[1]) for x in t[1:]))
        return "(%s)" % ", ".join(brief(x) for x in t)
    if isinstance(t, list): return "[%s]" % ", ".join(brief(x) for x in t)
    return str(t)


def run(F, r):
    g = G(F, r)
    x, y, z, n, m, i, a, b, c = [V(q) for q in "xyznmiabc"]
    pe, ps, pd = "ParseExpression", "ParseStatement", "ParseStatement3"

    r.rule("precedence", "x op1 y op2 z groups by the precedence and left associativity of the reference, for every ordered pair of infix operators")
    ops = [(t, o, lv) for lv, tier in enumerate(TIERS) for t, o in tier]
    for t1, o1, l1 in ops:
        g.expect("precedence", pe, "x %s y" % t1, IN(x, o1, y))
        for t2, o2, l2 in ops:
            want = IN(IN(x, o1, y), o2, z) if l1 >= l2 else IN(x, o1, IN(y, o2, z))
            g.expect("precedence", pe, "x %s y %s z" % (t1, t2), want)
        g.expect("precedence", pe, "( x %s y ) * z" % t1, IN(IN(x, o1, y), "Mul", z))
        g.expect("precedence", pe, "x ** ( y %s z )" % t1, IN(x, "Pow", IN(y, o1, z)))
        for tp, op in PREFIX:
            g.expect("precedence", pe, "%s x %s y" % (tp, t1), IN(PRE(op, x), o1, y))
            g.expect("precedence", pe, "x %s %s y" % (t1, tp), IN(x, o1, PRE(op, y)))
        g.expect("precedence", pe, "x %s y ? z : a" % t1, TERN(IN(x, o1, y), z, a))
        g.expect("precedence", pe, "x ? y : z %s a" % t1, TERN(x, y, IN(z, o1, a)))
        g.expect("precedence", pe, "x ? y %s a : z" % t1, TERN(x, IN(y, o1, a), z))
        g.expect("precedence", pe, "x [ i ] %s y . z" % t1, IN(V("x", AA(i)), o1, V("y", CA("z"))))
    g.expect("precedence", pe, "x + y * z ** a", IN(x, "Add", IN(y, "Mul", IN(z, "Pow", a))))
    for tp, op in PREFIX:
        g.expect("precedence", pe, "%s x" % tp, PRE(op, x))
        g.expect("precedence", pe, "%s x ? y : z" % tp, TERN(PRE(op, x), y, z))
        g.expect("precedence", pe, "%s x [ i ]" % tp, PRE(op, V("x", AA(i))))
        g.expect("precedence", pe, "%s f ( x )" % tp, PRE(op, CALL("f", x)))

    r.rule("atoms", "literals, variables, accesses, calls, arrays, tuples, anonymous components and parallel calls build the node they denote")
    e = lambda s, w, err=False: g.expect("atoms", pe, s, w, err)
    e("x", x); e("_", V("_")); e("( x )", x)
    e("x [ i ] . y [ n ] [ m ]", V("x", AA(i), CA("y"), AA(n), AA(m)))
    e("x . y . z", V("x", CA("y"), CA("z")))
    e("f ( )", CALL("f")); e("f ( x , y , z )", CALL("f", x, y, z)); e("f ( x ) + y", IN(CALL("f", x), "Add", y))
    e("[ x ]", ARR(x)); e("[ x , y + z , a ]", ARR(x, IN(y, "Add", z), a)); e("[ [ x ] , [ y ] ]", ARR(ARR(x), ARR(y)))
    e("( x , y )", TUP(x, y)); e("( x , _ , y , z )", TUP(x, V("_"), y, z))
    e("parallel f ( x )", PAR(CALL("f", x)))
    e("parallel T ( n ) ( a )", None)
    e("T ( ) ( )", ANON("T", False, [], [], None))
    e("T ( n , m ) ( a , b , c )", ANON("T", False, [n, m], [a, b, c], None))
    e("T ( n ) ( )", ANON("T", False, [n], [], None)); e("T ( ) ( a )", ANON("T", False, [], [a], None))
    e("T ( n ) ( x <== a , y <-- b , z = c )", ANON("T", False, [n], [a, b, c], [(AC, "x"), (AS, "y"), (AV, "z")]))
    e("T ( ) ( x <-- a )", ANON("T", False, [], [a], [(AS, "x")]))
    numeral(g, r)

    r.rule("assignment", "assignments, reversed arrows, compound assignments and increments expand to the operator they name on the assigned variable")
    s = lambda t, w, err=False: g.expect("assignment", ps, t, w, err)
    for t, o in (("=", AV), ("<--", AS), ("<==", AC)):
        s("x %s y ;" % t, SUB("x", [], o, y))
        s("x . a [ i ] %s y + z ;" % t, SUB("x", [CA("a"), AA(i)], o, IN(y, "Add", z)))
        s("( x , y ) %s z ;" % t, MSUB(TUP(x, y), o, z))
        s("_ %s z ;" % t, SUB("_", [], o, z))
    for t, o in (("-->", AS), ("==>", AC)):
        s("y %s x ;" % t, SUB("x", [], o, y))
        s("y + z %s x . a [ i ] ;" % t, SUB("x", [CA("a"), AA(i)], o, IN(y, "Add", z)))
        s("z %s ( x , y ) ;" % t, MSUB(TUP(x, y), o, z))
        s("( a , b ) %s ( x , y ) ;" % t, MSUB(TUP(x, y), o, TUP(a, b)))
        s("T ( ) ( a ) %s x ;" % t, SUB("x", [], o, ANON("T", False, [], [a], None)))
    for t, o in (("+", "Add"), ("-", "Sub"), ("*", "Mul"), ("/", "Div"), ("\\", "IntDiv"), ("%", "Mod"), ("**", "Pow"), ("<<", "ShiftL"),
                 (">>", "ShiftR"), ("&", "BitAnd"), ("|", "BitOr"), ("^", "BitXor")):
        s("x %s= y ;" % t, SUB("x", [], AV, IN(x, o, y)))
        s("x [ i ] . a %s= y * z ;" % t, SUB("x", [AA(i), CA("a")], AV, IN(V("x", AA(i), CA("a")), o, IN(y, "Mul", z))))
        s("x %s= y + z ;" % t, SUB("x", [], AV, IN(x, o, IN(y, "Add", z))))
    for t, o in (("++", "Add"), ("--", "Sub")):
        one = g.trees(ps, "x %s ;" % t)
        ok = False
        for v, err in one:
            try:
                rhe = dict(v[1:])["rhe"]; num = dict(dict(rhe[1:])["rhe"][1:])["1"]
                ok = v == SUB("x", [], AV, IN(x, o, NUM(num))) and is_one(num) and not err
            except Exception: ok = False
            if not ok: break
        r.check("assignment", "x %s" % t, ok, "grammar (%s)" % ps, "`x %s` builds %s, expected x = x %s 1" % (t, brief([v for v, _ in one]), o))
        acc = g.trees(ps, "x [ i ] %s ;" % t)
        ok = bool(acc)
        for v, err in acc:
            ok = ok and isinstance(v, tuple) and v[:4] == SUB("x", [AA(i)], AV, None)[:4] and \
                isinstance(v[4][1], tuple) and v[4][1][:3] == IN(V("x", AA(i)), o, None)[:3]
        r.check("assignment", "x [ i ] %s" % t, ok, "grammar (%s)" % ps, "`x[i] %s` builds %s" % (t, brief([v for v, _ in acc])))
        s("%s x ;" % t, None, True)

    r.rule("statement", "each statement form builds the statement it names, with its parts in place")
    s = lambda t, w, err=False: g.expect("statement", ps, t, w, err)
    s("x === y ;", ("ConstraintEquality", ("lhe", x), ("rhe", y)))
    s("x + y === z * a ;", ("ConstraintEquality", ("lhe", IN(x, "Add", y)), ("rhe", IN(z, "Mul", a))))
    s("return x ;", ("Return", ("value", x)))
    s("assert ( x == y ) ;", ("Assert", ("arg", IN(x, "Eq", y))))
    s("log ( ) ;", ("LogCall", ("args", [])))
    s("log ( x ) ;", ("LogCall", ("args", [("LogExp", ("0", x))])))
    strings(g, r)
    A, B, C = SUB("a", [], AV, x), SUB("b", [], AV, y), SUB("c", [], AV, z)
    s("{ }", BLK()); s("{ a = x ; b = y ; }", BLK(A, B)); s("{ { a = x ; } c = z ; }", BLK(BLK(A), C))
    s("if ( n ) a = x ;", IF(n, A)); s("if ( n ) { a = x ; }", IF(n, BLK(A)))
    s("if ( n ) a = x ; else b = y ;", IF(n, A, B))
    s("if ( n ) { a = x ; } else { b = y ; }", IF(n, BLK(A), BLK(B)))
    s("if ( n ) a = x ; else if ( m ) b = y ; else c = z ;", IF(n, A, IF(m, B, C)))
    s("if ( n ) a = x ; else if ( m ) b = y ;", IF(n, A, IF(m, B)))
    s("if ( n ) if ( m ) a = x ; else b = y ;", IF(n, IF(m, A, B)))
    s("while ( n ) a = x ;", WH(n, A)); s("while ( n ) { a = x ; b = y ; }", WH(n, BLK(A, B)))
    s("for ( a = x ; n ; b = y ) c = z ;", BLK(A, WH(n, BLK(C, B))))
    s("for ( a = x ; n ; b = y ) { c = z ; }", BLK(A, WH(n, BLK(BLK(C), B))))
    s("for ( var i = x ; i < n ; b = y ) { c = z ; }", BLK(INIT("Var", DECL("Var", "i"), SUB("i", [], AV, x)), WH(IN(i, "Lesser", n), BLK(BLK(C), B))))
    s("for ( a = x ; n ; i += m ) c = z ;", BLK(A, WH(n, BLK(C, SUB("i", [], AV, IN(i, "Add", m))))))
    s("x ;", None, True); s("f ( x ) ;", None, True); s("x + y ;", None, True)
    s("T ( n ) ( a , b ) ;", MSUB(TUP(), AC, ANON("T", False, [n], [a, b], None)))
    s("T ( ) ( x <-- a ) ;", MSUB(TUP(), AC, ANON("T", False, [], [a], [(AS, "x")])))

    r.rule("declaration", "declarations build one declaration per symbol with its type, tags and dimensions, then its initialisation with the operator written")
    d = lambda t, w, err=False: g.expect("declaration", pd, t, w, err)
    d("var x = y ;", INIT("Var", DECL("Var", "x"), SUB("x", [], AV, y)))
    d("var x = y , a = z ;", INIT("Var", DECL("Var", "x"), SUB("x", [], AV, y), DECL("Var", "a"), SUB("a", [], AV, z)))
    decl_var(g, r)
    d("component x ;", INIT("Component", DECL("Component", "x")))
    d("component x = T ( n ) ;", INIT("Component", DECL("Component", "x"), SUB("x", [], AV, CALL("T", n))))
    d("component x [ n ] , y ;", INIT("Component", DECL("Component", "x", n), DECL("Component", "y")))
    d("component x = parallel T ( n ) ;", INIT("Component", DECL("Component", "x"), SUB("x", [], AV, PAR(CALL("T", n)))))
    d("component ( x , y ) ;", INIT("Component", DECL("Component", "x"), DECL("Component", "y")))
    d("component ( x , y [ n ] ) = z ;", INIT("Component", DECL("Component", "x"), DECL("Component", "y", n), MSUB(TUP(x, y), AV, z)))
    d("component ( x ) = T ( n ) ;", INIT("Component", DECL("Component", "x"), SUB("x", [], AV, CALL("T", n))))
    for hd, k in (("signal", "Intermediate"), ("signal input", "Input"), ("signal output", "Output"), ("input signal", "Input"), ("output signal", "Output")):
        for tg, tags in (("", ()), ("{ t }", ("t",)), ("{ t , u }", ("t", "u"))):
            h = hd + " " + tg; S = SIG(k, *tags)
            d("%s x ;" % h, INIT(S, DECL(S, "x")))
            d("%s x [ n ] [ m ] , y ;" % h, INIT(S, DECL(S, "x", n, m), DECL(S, "y")))
            d("%s x <== y ;" % h, INIT(S, DECL(S, "x"), SUB("x", [], AC, y)))
            d("%s x <-- y ;" % h, INIT(S, DECL(S, "x"), SUB("x", [], AS, y)))
            d("%s x [ n ] <== y , a <== z ;" % h, INIT(S, DECL(S, "x", n), SUB("x", [], AC, y), DECL(S, "a"), SUB("a", [], AC, z)))
            d("%s x <-- y , a <-- z ;" % h, INIT(S, DECL(S, "x"), SUB("x", [], AS, y), DECL(S, "a"), SUB("a", [], AS, z)))
            for t, o in (("<==", AC), ("<--", AS), ("=", AV)):
                d("%s ( x , y [ n ] ) %s z ;" % (h, t), INIT(S, DECL(S, "x"), DECL(S, "y", n), MSUB(TUP(x, y), o, z)))
                d("%s ( x [ n ] ) %s z ;" % (h, t), INIT(S, DECL(S, "x", n), SUB("x", [], o, z)))
                d("%s ( x , y , a ) %s z ;" % (h, t), INIT(S, DECL(S, "x"), DECL(S, "y"), DECL(S, "a"), MSUB(TUP(x, y, a), o, z)))
            d("%s ( x , y ) ;" % h, INIT(S, DECL(S, "x"), DECL(S, "y")))
            d("%s ( x ) ;" % h, INIT(S, DECL(S, "x")))
    for hd, k, pre in (("P", "Intermediate", 0), ("P input", "Input", 0), ("P output", "Output", 0), ("input P", "Input", 1), ("output P", "Output", 1)):
        for ar, args in (("", ()), ("( )", ()), ("( n , m )", (n, m))):
            for tg, tags in (("", ()), ("{ t , u }", ("t", "u"))):
                h = " ".join(hd.replace("P", "P " + ar).split()) + " " + tg
                S = BUS("P", k, *tags); bc = SUB("x", [], AV, BCALL("P", *args))
                bt = SUB("x", [], AV, UNI(UNI(BCALL("P", *args), m), n))
                d("%s x ;" % h, INIT(S, DECL(S, "x"), bc))
                d("%s x [ n ] [ m ] ;" % h, INIT(S, DECL(S, "x", n, m), bt))
                d("%s x <== y ;" % h, INIT(S, DECL(S, "x"), bc, SUB("x", [], AC, y)))
                d("%s x [ n ] [ m ] <== y ;" % h, INIT(S, DECL(S, "x", n, m), bt, SUB("x", [], AC, y)))
                d("%s x [ n ] [ m ] <-- y , y <-- z ;" % h, INIT(S, DECL(S, "x", n, m), bt, SUB("x", [], AS, y), DECL(S, "y"), SUB("y", [], AV, BCALL("P", *args)), SUB("y", [], AS, z)))
                d("%s x <-- y ;" % h, INIT(S, DECL(S, "x"), bc, SUB("x", [], AS, y)))
                d("%s x , y ;" % h, INIT(S, DECL(S, "x"), bc, DECL(S, "y"), SUB("y", [], AV, BCALL("P", *args))))

    r.rule("definition", "definition keywords and modifiers set the flag they name; the main component keeps its public list and call")
    body = BLK(("Return", ("value", a)))
    df = lambda t, w: g.expect("definition", "ParseDefinition", t, w)
    for cu in ("", "custom "):
        for ex in ("", "extern_c "):
            for pa in ("", "parallel "):
                for ar, args in (("", []), ("( )", []), ("( a , b )", ["a", "b"])):
                    df("template %s%s%sT %s { return a ; }" % (cu, ex, pa, ar),
                       ("Template", ("name", "T"), ("args", args), ("body", body), ("parallel", bool(pa)), ("is_custom_gate", bool(cu)), ("is_extern_c", bool(ex))))
    df("function f ( ) { return a ; }", ("Function", ("name", "f"), ("args", []), ("body", body)))
    df("function f ( a , b ) { return a ; }", ("Function", ("name", "f"), ("args", ["a", "b"]), ("body", body)))
    df("bus P { return a ; }", ("Bus", ("name", "P"), ("args", []), ("body", body)))
    df("bus P ( a , b ) { return a ; }", ("Bus", ("name", "P"), ("args", ["a", "b"]), ("body", body)))
    mn = lambda t, w: g.expect("definition", "ParseMainComponent", t, w)
    mn("component main = T ( n ) ;", ([], CALL("T", n)))
    mn("component main { public [ a ] } = T ( ) ;", (["a"], CALL("T")))
    mn("component main { public [ a , b ] } = T ( ) ;", (["a", "b"], CALL("T")))
    for f in F.fns.values():
        if re.search(r"::lang::__action\d+$", f.id) or f.id.startswith("program_structure::abstract_syntax_tree::ast_shortcuts"): r.fn(f)
    r.floor("precedence", sum(1 for o in r.obl if o[0] == "precedence"), 400, "operator pairs")


def is_one(num):
    """the increment's literal: 1, or 1 reduced into the field"""
    return num == 1 or re.match(r"^Rem\((BigInt::from|<BigInt as From.*>::from|.*from)?\(?1\)?,", str(num)) is not None


def numeral(g, r):
    for s, kind, base, off in (("7", "dec", 10, 0), ("0x7", "hex", 16, 2)):
        got = g.trees("ParseExpression", s)
        ok = bool(got)
        for v, err in got:
            t = str(v)
            ok = ok and v[0] == "Number" and not err and "parse_bytes" in t and re.search(r",%d\)" % base, t) is not None
            if off: ok = ok and re.search(r"\$hex", t) is not None and re.search(r"\b2\b", t) is not None
            else: ok = ok and "parse_bytes($dec,10)" in t
        r.check("atoms", "%s literal" % kind, ok, "grammar", "a %s literal builds %s" % (kind, brief([v for v, _ in got])))
    r.check("atoms", "hex literal needs digits", not _m(g.HEX, "0x"), "grammar terminal " + g.HEX, "the terminal for hexadecimal numbers matches 0x without digits, which has no value")


def strings(g, r):
    """a string argument of log is kept, cut or not, in its place among the others"""
    for what, t in (("short", "s"), ("empty", ""), ("long", "0123456789" * 70), ("two bytes a character", "\u00e9" * 300), ("odd offset", "x" + "\u00e9" * 300), ("four bytes a character", "ab" + "\U0001d11e" * 200), ("cut", "y" * 230),
                    ("just cut", "y" * 231)):
        try: lt = g.trees("ParseStatement", 'log ( x , "%s" , y ) ;' % t)
        except (Budget, bnf.Anchor) as e: r.notes.append("log string (%s): undecided" % what); continue
        ok = bool(lt)
        for v, err in lt:
            w = dict(v[1:]).get("args") if isinstance(v, tuple) and v[0] == "LogCall" else None
            ok = ok and not err and w is not None and len(w) >= 2 and w[0] == ("LogExp", ("0", V("x"))) and w[-1] == ("LogExp", ("0", V("y")))
            ok = ok and all(isinstance(q, tuple) and q[0] == "LogStr" and isinstance(q[1][1], str) for q in w[1:-1]) and "".join(q[1][1] for q in w[1:-1]) == t
        r.check("statement", "log arguments (%s)" % what, ok, "grammar", 'log(x, "%s..", y) builds %s' % (t[:3], brief([v for v, _ in lt])[:200]))


def decl_var(g, r):
    """variables without an initialiser, and arrays, start at zero (unless the no-init flag asks otherwise)"""
    n, m, y = V("n"), V("m"), V("y")
    Z = NUM(0)
    AR = UNI(UNI(Z, m), n)
    cases = [("var x ;", [DECL("Var", "x"), SUB("x", [], AV, Z)], [DECL("Var", "x")]),
             ("var x [ n ] [ m ] ;", [DECL("Var", "x", n, m), SUB("x", [], AV, AR)], [DECL("Var", "x", n, m)]),
             ("var x [ n ] [ m ] = y ;", [DECL("Var", "x", n, m), SUB("x", [], AV, AR), SUB("x", [], AV, y)], [DECL("Var", "x", n, m), SUB("x", [], AV, y)]),
             ("var x , y = n ;", [DECL("Var", "x"), SUB("x", [], AV, Z), DECL("Var", "y"), SUB("y", [], AV, n)], [DECL("Var", "x"), DECL("Var", "y"), SUB("y", [], AV, n)]),
             ("var ( x , y ) ;", [DECL("Var", "x"), SUB("x", [], AV, Z), DECL("Var", "y"), SUB("y", [], AV, Z)], [DECL("Var", "x"), DECL("Var", "y")]),
             ("var ( x ) ;", [DECL("Var", "x"), SUB("x", [], AV, Z)], [DECL("Var", "x")]),
             ("var ( x ) = n ;", [DECL("Var", "x"), SUB("x", [], AV, n)], None),
             ("var ( x [ n ] [ m ] , a ) = y ;", [DECL("Var", "x", n, m), SUB("x", [], AV, AR), DECL("Var", "a"), MSUB(TUP(V("x"), V("a")), AV, y)],
              [DECL("Var", "x", n, m), DECL("Var", "a"), MSUB(TUP(V("x"), V("a")), AV, y)]),
             ("var ( x , y ) = n ;", [DECL("Var", "x"), DECL("Var", "y"), MSUB(TUP(V("x"), V("y")), AV, n)], None)]
    for s, init, no in cases:
        got = [v for v, err in g.trees("ParseStatement3", s)]
        want = [INIT("Var", *init)] + ([INIT("Var", *no)] if no else [])
        ok = bool(got) and all(v in want for v in got) and all(w in got for w in want)
        r.check("declaration", s, ok, "grammar", "`%s` builds %s, expected %s" % (s, " or ".join(brief(v) for v in got if v not in want) or "only " + brief(got), brief(want)))
