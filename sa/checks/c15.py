"""C15: simplification keeps the public signals and the meaning of the constraints."""
import itertools, random
from .. import export, simplifier
from ..ev import mk, St
from ..exec_model import Anchor, INT, PARAM, STR, OK, TRUE, FALSE, UNIT, build
from ..simplifier import lin, maps_of, sub_of, solutions, as_constraint, holds
from .c14 import through, node, names_of
from .c13 import plain


def run(F, r):
    r.do(F, forbidden, classes, collected, equalities, constants, linear, frequent, rounds, systems)


def arr(xs): return mk("array", *[INT(x) for x in xs])


def ints(p, v):
    v = p.E.deref(p.st, v)
    if v.op != "array": raise Anchor("set")
    xs = [p.E.deref(p.st, x) for x in v.a]
    if any(x.op != "int" for x in xs): raise Anchor("set")
    return [x.a[0] for x in xs]


def forbidden(F, r):
    r.rule("forbidden", "the constant, the outputs and the public inputs of the main component and the signals of every custom gate are forbidden to the simplification")
    for seq in (["add_output", "add_output", "add_input!", "add_input", "add_intermediate"], ["add_input", "add_input!", "add_intermediate"], ["add_output", "add_intermediate"]):
        f = F.find("dag::DAG::add_node"); r.fn(f); dag = build(F, "dag::DAG", None, "dag", one_signal=INT(0), nodes=mk("array"), adjacency=mk("array"), prime=STR("bn128"))
        dag, _ = through(F, r, "dag::DAG::add_node", dag, [STR("T(1)"), mk("array"), FALSE, FALSE])
        for i, s in enumerate(seq): dag, _ = through(F, r, "dag::DAG::" + s.rstrip("!"), dag, [STR("s%d" % i)] + ([TRUE if s.endswith("!") else FALSE] if s.startswith("add_input") else []))
        n = node(dag, 0); names = names_of(n); got = {x.a[0] for x in n["forbidden_if_main"].a}
        want = {0} | {names["s%d" % i] for i, s in enumerate(seq) if s == "add_output" or s.endswith("!")}
        r.check("forbidden", "declared:" + ",".join(x[4:7] + x[-1:] for x in seq), want <= got, r.where(f), "signals %s may be substituted" % sorted(want - got))
    for name, c in export.samples():
        f, out = mapped(F, r, c, 7); bad = []
        m = c.nodes[c.main]; want = set(range(1 + m.outputs + m.public)) | {i + off for n, off, path in c.walk() if c.nodes[n].custom for i in c.nodes[n].signals.values()}
        for p, d in out:
            miss = want - set(ints(p, d["forbidden"]))
            if miss: bad.append("the simplification may remove %s" % sorted("%s" % (c.labels()[x][0] if x else "the constant") for x in miss))
        r.check("forbidden", "circuit:" + name, bool(out) and not bad, r.where(f), "; ".join(sorted(set(bad))))


def mapped(F, r, c, p):
    """what the simplifier is given for the circuit c over the field of p elements"""
    def run(E, st, name, args, fn, line):
        E.event(st, "simplifier", (E.deref(st, args[0]),), line, fn); return [(st, PARAM("list"))]
    time = lambda E, st, name, args, fn, line: [(st, PARAM("time"))] if "unwrap" not in name or E.deref(st, args[0]) is PARAM("time") else NotImplemented
    flags = build(F, "dag::SimplificationFlags", None, "fl", prime=STR("bn128"))
    I = {r"Simplifier::simplify_constraints$": run, r"UsefulConstants::get_p$": lambda E, st, name, args, fn, line: [(st, INT(p))], r"SystemTime::now$|SystemTime::elapsed$|Duration::as_millis$|Result::<.*>::unwrap$": time}
    f, ps = export.evaluate(F, r, "dag::map_to_constraint_list::map", [export.as_dag(F, c), flags], c, (), None, {**I, **simplifier.intrinsics()}); out = []
    for q in ps:
        e = q.events(r"^simplifier$")
        if len(e) != 1 or e[0][1][0].op != "adt": raise Anchor("Simplifier")
        out.append((q, {k: q.E.deref(q.st, v) for k, v in e[0][1][0].a[2]}))
    return f, out


def shapes(p):
    """constraints over the signals 1 and 2"""
    for k0, k1, k2 in itertools.product(range(p), repeat=3):
        m = {i: k for i, k in enumerate((k0, k1, k2)) if k}
        if m: yield lin(m)
    for a, b, c in (({1: 1}, {2: 1}, {}), ({0: 1}, {1: 1}, {2: 1}), ({1: 2}, {0: 3}, {1: 1, 2: 4}), ({1: 1}, {}, {1: 1, 2: p - 1}), ({1: 1}, {1: 1}, {1: 1}), ({1: 1, 0: 1}, {1: 1}, {1: p - 1, 2: 1}), ({1: 1}, {2: 1}, {0: 1}), ({}, {}, {1: 1, 2: p - 1, 3: 1}), ({}, {}, {1: 1, 2: 1, 3: p - 1}), ({2: 1}, {2: 2}, {1: 3, 0: 1})):
        yield a, b, c


def classes(F, r):
    p = 5
    r.rule("classes", "what is treated as an equality, a constant equality or a linear constraint is one: over the field of %d elements, all coefficients of two signals" % p)
    for fn, says in (("is_equality", "an equality of two signals"), ("is_constant_equality", "a constant for one signal"), ("is_linear", "linear")):
        f = F.find("algebra::Constraint::<C>::" + fn); bad = []; n = 0
        for t in shapes(p):
            f, ps = simplifier.run(F, r, "algebra::Constraint::<C>::" + fn, [simplifier.cons(F, t)] + ([INT(p)] if fn == "is_equality" else []))
            vs = {q.v for q in ps}
            if len(vs) != 1 or next(iter(vs)) not in (TRUE, FALSE): raise Anchor(fn)
            n += 1
            if next(iter(vs)) is FALSE: continue
            sig = sorted({k for m in t for k in m if k})
            if fn == "is_linear": ok = not (t[0] and t[1])
            elif fn == "is_constant_equality": ok = not (t[0] and t[1]) and len(sig) == 1 and set(t[2]) - {0} == set(sig)
            else: ok = not (t[0] and t[1]) and len(sig) == 2 and solutions([t], sig, p) == {(x, x) for x in range(p)}
            if not ok: bad.append("%s * %s = %s is taken for %s" % (t[0], t[1], t[2], says))
        r.check("classes", fn, n > 100 and not bad, r.where(f), "; ".join(bad)[:400])


def collected(F, r):
    r.rule("collected", "every constraint of the circuit, at every depth, reaches the simplifier once: as a linear constraint, an equality, a constant equality or a constraint of its template")
    N = export.Node; p = 7; k = lambda x: INT(x)
    def cs(*ts): return [tuple({i: k(v) for i, v in m.items()} for m in t) for t in ts]
    sub = N("Sub(1)", {"o": 1, "a": 2, "t": 3}, inputs=1, outputs=1, constraints=cs(({2: 1}, {3: 1}, {1: 1}), lin({3: 1, 2: 6}), lin({0: 2, 3: 1, 1: 1})))
    mid = N("Mid(1)", {"o": 1, "i": 2, "u": 3}, inputs=1, outputs=1, constraints=cs(lin({3: 1, 0: 4}), ({3: 1}, {3: 2}, {1: 1, 0: 1}), lin({4: 1, 1: 6})))
    top = N("Top(1)", {"o": 1, "p": 2, "q": 3, "m": 4}, inputs=2, outputs=1, public=1, constraints=cs(lin({4: 1, 2: 6}), lin({3: 1}), ({2: 1}, {3: 1, 0: 1}, {4: 1}), lin({4: 2, 3: 3, 1: 1}), lin({6: 1, 4: 6})))
    for name, c in (("flat", export.Circuit([top], {})), ("nested", export.Circuit([sub, mid, top], {1: [(0, "s", 3)], 2: [(1, "m0", 4), (1, "m1", 10), (0, "z", 16)]}))):
        f, out = mapped(F, r, c, p); bad = []
        want = sorted(str([sorted((i, v.a[0]) for i, v in m.items()) for m in t]) for t in c.constraints())
        for q, d in out:
            got = [maps_of(q.E, q.st, x) for kk in ("linear", "equalities", "cons_equalities") for x in q.E.deref(q.st, d[kk]).a]
            en = {a: q.E.deref(q.st, v) for a, v in d["dag_encoding"].a[2]}; nl = {}
            for i, nd in enumerate(en["nodes"].a): nl[i] = [maps_of(q.E, q.st, x) for x in q.E.deref(q.st, dict(nd.a[2])["non_linear"]).a]
            for n, off, path in c.walk(): got += [tuple({(i + off if i else 0): v for i, v in m.items()} for m in t) for t in nl[n]]
            g = sorted(str([sorted(m.items()) for m in t]) for t in got)
            lost = [x for x in want if x not in g]; new = [x for x in g if x not in want]
            if lost: bad.append("the constraint %s is lost" % lost[0])
            elif new: bad.append("the constraint %s appears" % new[0])
            elif g != want: bad.append("constraints are repeated")
        r.check("collected", name, bool(out) and not bad, r.where(f), "; ".join(sorted(set(bad))))


def cons_of(p, v):
    v = p.E.deref(p.st, v)
    if v.op not in ("array", "storage"): raise Anchor("constraints")
    return [maps_of(p.E, p.st, x) for x in v.a]


def subs_of(p, v):
    v = p.E.deref(p.st, v)
    if v.op != "array": raise Anchor("substitutions")
    out = []
    for x in v.a: out.append(sub_of(p.E, p.st, x))
    return out


def judge(orig, subs, cons, forb, sig, p):
    """is the system {subs, cons} the same as orig, with the substituted signals defined by the others?"""
    froms = [f for f, to in subs]
    if len(set(froms)) != len(froms): return "signal %s is substituted twice" % next(f for f in froms if froms.count(f) > 1)
    b = [f for f in froms if f in forb]
    if b: return "the forbidden signal %d is substituted away" % b[0]
    u = [f for f, to in subs if set(to) & set(froms)]
    if u: return "the substitution of %d mentions a substituted signal" % u[0]
    u = [c for c in cons if any(set(m) & set(froms) for m in c)]
    if u: return "the remaining constraint %s mentions a substituted signal" % (u[0],)
    if solutions(orig, sig, p) != solutions([as_constraint(f, to, p) for f, to in subs] + cons, sig, p): return "%s become %s and %s, which have other solutions" % ([c[2] for c in orig], subs, [c[2] for c in cons])


def eqc(a, b, p, s=1): return lin({a: s, b: p - s})


def equalities(F, r):
    p = 5
    r.rule("equalities", "a cluster of equalities keeps its forbidden signals connected and defines the others by one of them: every set of forbidden signals of clusters of two to five signals, over the field of %d elements" % p)
    fn = "constraint_simplification::eq_cluster_simplification"
    for name, es in (("pair", [(1, 2)]), ("reversed", [(2, 1)]), ("chain3", [(1, 2), (2, 3)]), ("star", [(4, 1), (4, 2), (4, 3)]), ("cycle", [(1, 2), (2, 3), (3, 1)]), ("chain5", [(5, 3), (3, 1), (1, 4), (4, 2)])):
        sig = sorted({x for e in es for x in e}); bad = []; n = 0; orig = [eqc(a, b, p) for a, b in es]
        for k in range(len(sig) + 1):
            for forb in itertools.combinations(sig, k):
                cl = build(F, "constraint_simplification::Cluster", None, "cl", constraints=mk("array", *[simplifier.cons(F, t) for t in orig]), num_signals=INT(len(sig)))
                f, ps = simplifier.run(F, r, fn, [cl, arr((0,) + forb), INT(p)])
                for q in ps:
                    v = q.E.deref(q.st, q.v)
                    if v.op != "tuple": raise Anchor(fn)
                    n += 1; e = judge(orig, subs_of(q, v.a[0]), cons_of(q, v.a[1]), forb, sig, p)
                    if e: bad.append("forbidden %s: %s" % (forb, e))
        r.check("equalities", name, n >= 2 ** len(sig) and not bad, r.where(F.find(fn)), "; ".join(bad)[:400])


def constants(F, r):
    p = 7
    r.rule("constants", "constants given to signals are kept as substitutions, or as constraints of forbidden signals; a second value for a signal is not lost")
    fn = "constraint_simplification::constant_eq_simplification"
    for name, es, forb in (("one", [{3: 1, 0: 2}], ()), ("scaled", [{3: 2, 0: 5}], ()), ("zero", [{3: 1}], ()), ("forbidden", [{3: 1, 0: 2}], (3,)), ("two", [{3: 1, 0: 2}, {2: 3, 0: 1}], ()), ("repeated", [{3: 1, 0: 2}, {3: 3, 0: 6}], ()), ("contradiction", [{3: 1, 0: 2}, {3: 1, 0: 3}], ()), ("zero then one", [{3: 1}, {3: 1, 0: 6}], ()),
                           ("three values", [{3: 1, 0: 2}, {2: 1, 0: 3}, {3: 1, 0: 2}, {3: 1, 0: 1}], ()), ("forbidden twice", [{1: 1, 0: 2}, {1: 1, 0: 3}, {2: 1, 0: 1}], (1,))):
        orig = [lin(m) for m in es]; bad = []; sig = sorted({k for m in es for k in m if k})
        f, ps = simplifier.run(F, r, fn, [mk("array", *[simplifier.cons(F, t) for t in orig]), arr((0,) + forb), INT(p), mk("ref", ("G", "log"), ())], log())
        for q in ps:
            v = q.E.deref(q.st, q.v)
            if v.op != "tuple": raise Anchor(fn)
            e = judge(orig, subs_of(q, v.a[0]), cons_of(q, v.a[1]), forb, sig, p)
            if e: bad.append(e)
        r.check("constants", name, bool(ps) and not bad, r.where(f), "; ".join(bad)[:400])


def log():
    st = St(); st.mem[("G", "log")] = mk("adt", "core::option::Option", "None", ()); return st


def linears(p, seed, count, n=5):
    """linear systems with dependent, repeated and contradictory constraints"""
    g = random.Random(seed)
    for i in range(count):
        cs = []
        for _ in range(g.randint(2, 5)):
            m = {k: g.randrange(1, p) for k in g.sample(range(1, n + 1), g.randint(1, 3))}
            if g.random() < .6: m[0] = g.randrange(1, p)
            cs.append(m)
        if g.random() < .5: cs.append({k: v * 2 % p for k, v in cs[0].items()})
        if g.random() < .4:
            s = {}
            for m in cs[:2]:
                for k, v in m.items(): s[k] = (s.get(k, 0) + v) % p
            s = {k: v for k, v in s.items() if v}
            if g.random() < .3: s[0] = (s.get(0, 0) + 1) % p
            s = {k: v for k, v in s.items() if v}
            if set(s) - {0}: cs.append(s)
        yield [lin(m) for m in cs], tuple(sorted(g.sample(range(1, n + 1), g.randint(0, 3))))


def linear(F, r):
    p = 5
    r.rule("linear", "the Gaussian elimination of a cluster gives substitutions and remaining constraints with the solutions of the cluster: systems over five signals and the field of %d elements" % p)
    fn = "simplification_utils::full_simplification"
    for i, (orig, forb) in enumerate(linears(p, 15, 40)):
        conf = build(F, "simplification_utils::Config", None, "cf", field=INT(p), constraints=mk("array", *[simplifier.cons(F, t) for t in orig]), forbidden=arr((0,) + forb), num_signals=INT(5), use_old_heuristics=FALSE)
        f, ps = simplifier.run(F, r, fn, [conf]); bad = []
        for q in ps:
            v = q.E.deref(q.st, q.v)
            if v.op != "adt": raise Anchor(fn)
            d = dict(v.a[2]); e = judge(orig, subs_of(q, d["substitutions"]), cons_of(q, d["constraints"]), forb, [1, 2, 3, 4, 5], p)
            if e: bad.append("forbidden %s: %s" % (forb, e))
        r.check("linear", "system%d" % i, bool(ps) and not bad, r.where(f), "; ".join(bad)[:400])


def frequent(F, r):
    p = 5
    r.rule("frequent", "the elimination that prefers rare signals (large clusters) has the solutions of the cluster too")
    fn = "simplification_utils::substitution_process_4"
    for i, (orig, forb) in enumerate(linears(p, 16, 40)):
        st = St(); st.mem[("G", "sig")] = build(F, "simplification_utils::SignalDefinition4", None, "sd", deleted_symbols=mk("array"), forbidden=arr((0,) + forb), order_signals=mk("array"))
        st.mem[("G", "cs")] = mk("array", *[simplifier.cons(F, t) for t in orig]); st.mem[("G", "h")] = mk("array"); bad = []
        R = lambda x: mk("ref", ("G", x), ())
        f, ps = simplifier.run(F, r, fn, [R("sig"), R("cs"), R("h"), INT(5), INT(p)], st)
        for q in ps:
            g, qs = simplifier.run(F, r, "simplification_utils::normalize_substitutions", [q.E.deref(q.st, q.st.mem[("G", "h")]), INT(p)])
            for q2 in qs:
                h, zs = simplifier.run(F, r, "simplification_utils::create_nonoverlapping_substitutions_4", [q2.E.deref(q2.st, q2.v), q.E.deref(q.st, q.st.mem[("G", "sig")]), INT(p)])
                for z in zs:
                    m = z.E.deref(z.st, z.v)
                    if m.op != "array": raise Anchor(fn)
                    subs = [sub_of(z.E, z.st, z.E.deref(z.st, e).a[1]) for e in m.a]
                    e = judge(orig, subs, cons_of(q, q.st.mem[("G", "cs")]), forb, [1, 2, 3, 4, 5], p)
                    if e: bad.append("forbidden %s: %s" % (forb, e))
        r.check("frequent", "system%d" % i, bool(ps) and not bad, r.where(f), "; ".join(bad)[:400])


def rounds(F, r):
    p = 5
    r.rule("rounds", "substitutions found in a later round are applied to every constraint about their signal, and constraints that become linear are handed on, not dropped")
    fn = "constraint_simplification::apply_substitution_to_map"; g = random.Random(17)
    for i in range(20):
        n = 5; cs = []
        for _ in range(g.randint(2, 4)):
            cs.append(tuple({k: g.randrange(1, p) for k in g.sample(range(0, n + 1), g.randint(1, 2))} for _ in range(3)))
        froms = g.sample(range(1, n + 1), g.randint(1, 2)); rest = [x for x in range(0, n + 1) if x not in froms]
        subs = [(f, {k: g.randrange(1, p) for k in g.sample(rest, g.randint(1, 2))}) for f in froms]
        st = St(); st.mem[("G", "s")] = mk("storage", *[simplifier.cons(F, t) for t in cs])
        m = {}
        for j, t in enumerate(cs):
            for k in sorted({k for x in t for k in x}): m.setdefault(k, []).append(j)
        st.mem[("G", "m")] = mk("array", *[mk("tuple", INT(k), arr(v)) for k, v in m.items()])
        S = mk("array", *[build(F, "algebra::Substitution", None, "s", **{"from": INT(f), "to": mk("array", *[mk("tuple", INT(k), INT(v)) for k, v in to.items()])}) for f, to in subs])
        f, ps = simplifier.run(F, r, fn, [mk("ref", ("G", "s"), ()), mk("ref", ("G", "m"), ()), S, INT(p)], st); bad = []
        for q in ps:
            after = cons_of(q, q.st.mem[("G", "s")]); lins = cons_of(q, q.v)
            e = judge([as_constraint(a, to, p) for a, to in subs] + cs, subs, after + lins, (), [1, 2, 3, 4, 5], p)
            if e: bad.append(e)
            if any(t[0] and t[1] for t in lins): bad.append("a quadratic constraint is handed on as linear")
            mp = {q.E.deref(q.st, x.a[0]).a[0]: set(ints(q, x.a[1])) for x in q.E.deref(q.st, q.st.mem[("G", "m")]).a}
            for j, t in enumerate(after):
                miss = [k for x in t for k in x if k and j not in mp.get(k, ())]
                if miss: bad.append("constraint %d mentions signal %d, and the index does not say so" % (j, miss[0]))
        r.check("rounds", "case%d" % i, bool(ps) and not bad, r.where(f), "; ".join(bad)[:400])


def circuits(p, seed, count, n=6):
    """what the simplifier may be given: equalities, constants, linear and quadratic constraints of the main template and of two subcomponents"""
    g = random.Random(seed); nz = lambda: g.randrange(1, p)
    for i in range(count):
        S = range(1, n + 1)
        eq = [eqc(*g.sample(S, 2), p, g.choice((1, p - 1))) for _ in range(g.randint(0, 3))]
        ce = [lin({g.choice(S): nz(), **({0: nz()} if g.random() < .8 else {})}) for _ in range(g.randint(0, 2))]
        li = []
        for _ in range(g.randint(0, 3)):
            m = {k: nz() for k in g.sample(S, g.randint(2, 3))}
            if len(m) == 2 or g.random() < .5: m[0] = nz()
            li.append(lin(m))
        quad = lambda lo, hi: tuple({k: nz() for k in g.sample([0] + list(range(lo, hi + 1)), g.randint(1, 2))} for _ in range(2)) + ({k: nz() for k in g.sample(range(lo, hi + 1), g.randint(1, 2))},)
        nl = [quad(1, n) for _ in range(g.randint(0, 2))]
        ch = [([quad(1, 2) for _ in range(g.randint(1, 2))], off) for off in ([n - 2] if g.random() < .5 else [n - 4, n - 2] if g.random() < .5 else [])]
        outs, pub = g.randint(0, 2), g.randint(0, 1); priv = g.randint(0, 2)
        forb = {0} | set(range(1, outs + pub + 1)) | (set(g.sample(S, 1)) if g.random() < .3 else set())
        yield eq, ce, li, nl, ch, forb, (outs, pub, priv), g.choice((0, 1, 2, 3)), g.random() < .3


def cascades(p, seed, count, n=6):
    """systems whose quadratic constraints become linear one round after the other"""
    g = random.Random(seed); nz = lambda: g.randrange(1, p)
    for i in range(count):
        o = g.sample(range(1, n + 1), n); a = [g.randrange(p) for _ in range(4)]
        nl = [({o[0]: 1}, {o[1]: nz()}, {o[1]: nz(), 0: nz()}), ({o[1]: 1}, {o[2]: nz()}, {o[3]: nz()}), ({o[1]: nz(), 0: nz()}, {o[4]: nz()}, {o[3]: nz(), 0: nz()})]
        if g.random() < .6: nl.append(({o[4]: 1}, {o[5]: nz()}, {o[g.choice((2, 5))]: nz(), 0: nz()}))
        forb = {0} | set(g.sample(o[2:], g.randint(1, 3)))
        yield [], [lin({o[0]: nz(), 0: nz()})], [], nl, [], forb, (0, 0, n), g.choice((2, 3, 4, 4)), False


def renamed(p, seed, count, n=6):
    """systems in which the signal an equal one is replaced by is itself eliminated, and occurs nowhere else"""
    g = random.Random(seed); nz = lambda: g.randrange(1, p)
    for i in range(count):
        o = g.sample(range(1, n + 1), n); hi, lo = max(o[:2]), min(o[:2])
        li = [lin({lo: nz(), o[2]: nz(), **({o[3]: nz()} if g.random() < .5 else {0: nz()})})]
        nl = [({hi: nz(), **({0: nz()} if g.random() < .5 else {})}, {o[4]: nz()}, {o[5]: nz(), 0: nz()})]
        ch = [([({1: nz()}, {2: nz()}, {2: nz(), 0: nz()})], hi - 1)] if hi < n and g.random() < .5 else []
        yield [eqc(hi, lo, p, g.choice((1, p - 1)))], [], li, nl, ch, {0} | set(o[2:4]), (0, 0, n), g.choice((0, 1, 3)), False


def zeros(p, seed, count, n=6):
    """systems whose linear constraints leave a signal only the value zero, or another constant"""
    g = random.Random(seed); nz = lambda: g.randrange(1, p)
    for i in range(count):
        o = g.sample(range(1, n + 1), n); a, b = nz(), nz(); z = {0: nz()} if g.random() < .3 else {}
        li = [lin({o[0]: a, o[1]: b, **z}), lin({o[0]: a, o[1]: p - b, **z})]
        nl = [({o[0]: nz(), **({0: nz()} if g.random() < .5 else {})}, {o[2]: nz()}, {o[3]: nz(), 0: nz()}), ({o[1]: nz(), 0: nz()}, {o[4]: nz(), 0: nz()}, {o[2]: nz(), o[5]: nz()})]
        yield [], [], li, nl, [], {0} | set(g.sample(o[2:], g.randint(1, 3))), (0, 0, n), g.choice((1, 2, 3)), False


def systems(F, r):
    p = 3
    r.rule("systems", "the whole simplification of a constraint system keeps the forbidden signals; the assignments of the remaining signals that satisfy the result are those that could be completed before: systems over six signals and the field of %d elements, all kinds of constraints, up to three rounds, the clusters finishing in either order" % p)
    fn = "constraint_simplification::simplification"; n = 6; sig = list(range(1, n + 1))
    for i, (eq, ce, li, nl, ch, forb, main, rnd, s) in enumerate(itertools.chain(circuits(p, 18, 60), cascades(p, 23, 16), zeros(p, 31, 8), renamed(p, 37, 8))):
        st = St(); st.mem[("G", "smp")] = simplifier.system(F, p, n, forb, ce, eq, li, nl, rnd, s, False, ch, main)
        orig = eq + ce + li + nl + [tuple({(k + off if k else 0): v for k, v in m.items()} for m in t) for cs, off in ch for t in cs]
        f, ps = simplifier.run(F, r, fn, [mk("ref", ("G", "smp"), ())], st, i % 2 == 1); bad = []
        for q in ps:
            v = q.E.deref(q.st, q.v)
            if v.op != "tuple" or len(v.a) != 3: raise Anchor(fn)
            after = cons_of(q, v.a[0]); m = q.E.deref(q.st, v.a[1])
            if m.op != "array": raise Anchor("the map")
            kept = {q.E.deref(q.st, e.a[0]).a[0] for e in m.a}
            if set(forb) - kept: bad.append("the signals %s that must survive are removed" % sorted(set(forb) - kept))
            gone = [k for t in after for x in t for k in x if k not in kept]
            if gone: bad.append("the remaining constraints mention the removed signal %d" % gone[0]); continue
            ks = [k for k in sig if k in kept]; pos = [sig.index(k) for k in ks]
            before = {tuple(w[j] for j in pos) for w in solutions(orig, sig, p)}; now = solutions(after, ks, p)
            if before != now: bad.append("%s is %s by the simplification: %s becomes %s" % (dict(zip(ks, sorted(before ^ now)[0])), "lost" if before - now else "allowed", orig, after))
            w = sum(k in kept for k in range(main[0] + main[1] + 1, sum(main) + 1)); x = q.E.deref(q.st, v.a[2])
            if x.op == "int" and x.a[0] != w: bad.append("%s private inputs are counted, of %d" % (x.a[0], w))
        r.check("systems", "system%d" % i, bool(ps) and not bad, r.where(f), "; ".join(bad)[:500])
