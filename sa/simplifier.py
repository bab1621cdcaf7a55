"""The simplifier evaluated on small constraint systems over a small field; threads and channels run in order, the storage is a list."""
import itertools
from . import export, maps
from .ev import mk, St
from .exec_model import INT, PARAM, STR, SOME, NONE, OK, ERR, TRUE, FALSE, UNIT, Anchor, build
from .paths import explore


def cons(F, t): return build(F, "algebra::Constraint", None, "c", **{k: mk("array", *[mk("tuple", INT(i), INT(v)) for i, v in m.items()]) for k, m in zip("abc", t)})


def lin(m): return ({}, {}, m)


def intrinsics(last=False):
    Q = ("G", "chan")
    one = lambda v: (lambda E, st, name, args, fn, line: [(st, v)])

    def channel(E, st, name, args, fn, line):
        st.mem[Q] = mk("array"); return [(st, mk("tuple", mk("tx"), mk("rx")))]

    def send(E, st, name, args, fn, line):
        st.mem[Q] = mk("array", *(st.mem[Q].a + (E.deref(st, args[1]),))); return [(st, OK(UNIT))]

    def recv(E, st, name, args, fn, line):
        q = st.mem[Q].a
        if not q: return []
        st.mem[Q] = mk("array", *(q[:-1] if last else q[1:])); return [(st, OK(q[-1 if last else 0]))]

    def execute(E, st, name, args, fn, line): return [(s, UNIT) for s, _ in E.call_value(fn, st, args[1], [], line, 4, ())]

    def store(E, st, name, args):
        v = E.deref(st, args[0])
        if v.op != "storage": raise Anchor("ConstraintStorage")
        return v

    def add(E, st, name, args, fn, line):
        v = store(E, st, name, args); E.store_through(st, args[0], mk("storage", *(v.a + (E.deref(st, args[1]),)))); return [(st, INT(len(v.a)))]

    def read(E, st, name, args, fn, line):
        v = store(E, st, name, args); i = E.deref(st, args[1]).a[0]
        return [(st, SOME(v.a[i]) if i < len(v.a) else NONE)]

    def replace(E, st, name, args, fn, line):
        v = store(E, st, name, args); i = E.deref(st, args[1]).a[0]
        E.store_through(st, args[0], mk("storage", *(v.a[:i] + (E.deref(st, args[2]),) + v.a[i + 1:]))); return [(st, UNIT)]

    def ids(E, st, name, args, fn, line): return [(st, mk("array", *[INT(i) for i in range(len(store(E, st, name, args).a))]))]

    def extract(E, st, name, args, fn, line):
        v = store(E, st, name, args); out = []; keep = []
        for c in v.a:
            rs = E.call_value(fn, st, args[1], [c], line, 4, ())
            if len(rs) != 1: raise Anchor("extract_with")
            b = E.deref(rs[0][0], rs[0][1])
            if b.op != "bool": raise Anchor("extract_with")
            (out if b.a[0] else keep).append(c)
        E.store_through(st, args[0], mk("storage", *keep)); return [(st, mk("array", *out))]

    def minmax(E, st, name, args, fn, line):
        a, b = E.deref(st, args[0]), E.deref(st, args[1])
        return [(st, INT((min if name.split("::<")[0].endswith("min") else max)(a.a[0], b.a[0])))] if a.op == b.op == "int" else NotImplemented

    def length(E, st, name, args, fn, line):
        v = E.deref(st, args[0])
        return [(st, INT(len(v.a)))] if v.op == "array" else NotImplemented

    def empty(E, st, name, args, fn, line):
        v = E.deref(st, args[0])
        return [(st, FALSE if v.a else TRUE)] if v.op == "array" else NotImplemented

    def entry(E, st, name, args, fn, line): return [(st, mk("entry", mk("ref", *maps.loc(E, st, args[0])), E.deref(st, args[1])))]

    def or_insert(E, st, name, args, fn, line):
        e = args[0]
        if e.op != "entry": return NotImplemented
        m = E.deref(st, e.a[0]); k = e.a[1]
        if m.op != "array": return NotImplemented
        out = []
        if maps.pos(m, k) is not None: vs = [(st, None)]
        else: vs = [(st, args[1])] if name.split("::<")[0].endswith("or_insert") else [(st, INT(0))] if "or_default" in name else E.call_value(fn, st, args[1], [], line, 4, ())
        for s, v in vs:
            i = maps.pos(m, k)
            if i is None: i = len(m.a); E.store_through(s, e.a[0], mk("array", *(m.a + (mk("tuple", k, E.deref(s, v)),))))
            out.append((s, mk("ref", e.a[0].a[0], e.a[0].a[1] + (("i", INT(i)), ("f", "1")))))
        return out

    def ints(f):
        def h(E, st, name, args, fn, line):
            v = [E.deref(st, a) for a in args]
            return [(st, f(*[x.a[0] for x in v]))] if all(x.op == "int" for x in v) else NotImplemented
        return h

    def inv(a, m):
        try: return SOME(INT(pow(a, -1, m)))
        except ValueError: return NONE

    def same(E, st, name, args, fn, line): return [(st, args[0])]

    def clone(E, st, name, args, fn, line): return [(st, E.deref(st, args[0]))]

    def pair(E, st, name, args, fn, line):
        a, b = E.deref(st, args[0]), E.deref(st, args[1])
        if a.op != "array" or b.op != "array": return NotImplemented
        return [(st, mk("iter", mk("array", *[mk("tuple", x, y) for x, y in zip(a.a, b.a)])))]

    def popb(E, st, name, args, fn, line):
        v = E.deref(st, args[0])
        if v.op != "array": return NotImplemented
        if v.a: E.store_through(st, args[0], mk("array", *v.a[:-1]))
        return [(st, SOME(v.a[-1]) if v.a else NONE)]

    def pushb(E, st, name, args, fn, line):
        v = E.deref(st, args[0])
        if v.op != "array": return NotImplemented
        E.store_through(st, args[0], mk("array", *(v.a + (args[1],)))); return [(st, UNIT)]
    def collect(E, st, name, args, fn, line):
        v = E.deref(st, args[0])
        if v.op != "iter" or v.a[0].op != "array" or "linked_list::LinkedList<" not in getattr(E, "dest_ty", ""): return NotImplemented
        return [(st, mk("array", *[E.deref(st, x) for x in v.a[0].a]))]
    L = r"LinkedList::<.*>::"

    def clear(E, st, name, args, fn, line):
        if E.deref(st, args[0]).op != "array": return NotImplemented
        E.store_through(st, args[0], mk("array")); return [(st, UNIT)]
    return {r"Iterator::collect(?:::<.*>)?$": collect, L + r"pop_back$": popb, L + r"push_back$": pushb, L + r"clear$": clear, r"Arc::<T>::new$": same, r"Arc<.*> as core::(ops::deref::Deref>::deref|convert::AsRef<T>>::as_ref)$|core::convert::AsRef::as_ref$": same, r"Arc<.*> as core::clone::Clone>::clone$": clone, r"ModInverse<.*>::mod_inverse$": ints(inv),
            r"usize as .*ToPrimitive>::to_i32$": ints(lambda a: SOME(INT(a))), r"Zero>::is_zero$": ints(lambda a: TRUE if a == 0 else FALSE), r"(HashMap|BTreeMap).*::entry$": entry, r"Entry.*::or_(insert|default|insert_with)$": or_insert, r"LinkedList::<.*>::len$": length, r"LinkedList::<.*>::is_empty$": empty, r"mpsc::channel(::<.*>)?$": channel, r"mpsc::Sender::<.*>::send$": send, r"mpsc::Receiver::<.*>::recv$": recv, r"ThreadPool::execute(::<.*>)?$": execute, r"ThreadPool::(new|join)$": one(UNIT), r"num_cpus::get$": one(INT(1)),
            r"ConstraintStorage::new$": one(mk("storage")), r"ConstraintStorage::add_constraint$": add, r"ConstraintStorage::read_constraint$": read, r"ConstraintStorage::replace$": replace, r"ConstraintStorage::get_ids$": ids,
            r"ConstraintStorage::extract_with(::<.*>)?$": extract, r"SystemTime::now$|SystemTime::elapsed$|Duration::as_millis$": one(OK(PARAM("time"))), r"core::cmp::(min|max)(::<.*>)?$": minmax}


def merged(last=False):
    I = intrinsics(last); I.update((k, v) for k, v in export.intrinsics().items() if k not in I)
    return I


def maps_of(E, st, c):
    c = E.deref(st, c); out = []
    if c.op != "adt": raise Anchor("constraint")
    for k in "abc":
        m = E.deref(st, dict(c.a[2])[k]); d = {}
        if m.op != "array": raise Anchor("the terms of a constraint")
        for e in m.a:
            i, v = E.deref(st, e.a[0]), E.deref(st, e.a[1])
            if i.op != "int" or v.op != "int": raise Anchor("the terms of a constraint")
            d[i.a[0]] = v.a[0]
        out.append(d)
    return tuple(out)


def sub_of(E, st, s):
    s = dict(E.deref(st, s).a[2]); m = E.deref(st, s["to"]); f = E.deref(st, s["from"])
    if m.op != "array" or f.op != "int": raise Anchor("substitution")
    return f.a[0], {E.deref(st, e.a[0]).a[0]: E.deref(st, e.a[1]).a[0] for e in m.a}


def holds(c, w, p):
    v = [sum(k * (1 if i == 0 else w[i]) for i, k in m.items()) for m in c]
    return (v[0] * v[1] - v[2]) % p == 0


def solutions(cs, signals, p):
    """the assignments of the signals that satisfy the constraints"""
    out = set()
    for vs in itertools.product(range(p), repeat=len(signals)):
        w = dict(zip(signals, vs))
        if all(holds(c, w, p) for c in cs): out.add(vs)
    return out


def as_constraint(f, to, p):
    m = dict(to); m[f] = (m.get(f, 0) - 1) % p
    return ({}, {}, m)


def system(F, p, n, forbidden, ceq, eq, linear, nonlinear, rounds=1, flag_s=False, old=False, children=(), main=(1, 0, 1)):
    """a Simplifier: n signals beside the constant; nonlinear are those of the main template"""
    node = lambda i, nl: build(F, "constraint_list::EncodingNode", None, "n%d" % i, id=INT(i), name=STR("T%d" % i), parameters=mk("array"), is_custom_gate=FALSE, signals=mk("array"), ordered_signals=mk("array"), non_linear=mk("array", *[cons(F, c) for c in nl]))
    nodes = [node(i, nl) for i, (nl, off) in enumerate(children)] + [node(len(children), nonlinear)]
    edges = [build(F, "constraint_list::EncodingEdge", None, "e", goes_to=INT(i), path=STR("c%d" % i), offset=INT(off)) for i, (nl, off) in enumerate(children)]
    enc = build(F, "constraint_list::DAGEncoding", None, "d", init=INT(len(children)), no_constraints=INT(0), nodes=mk("array", *nodes), adjacency=mk("array", *([mk("array")] * len(children) + [mk("array", *edges)])))
    L = lambda xs: mk("array", *[cons(F, c) for c in xs])
    return build(F, "constraint_list::Simplifier", None, "smp", field=INT(p), dag_encoding=enc, no_public_outputs=INT(main[0]), no_public_inputs=INT(main[1]), no_private_inputs=INT(main[2]), forbidden=mk("array", *[INT(x) for x in forbidden]),
                 cons_equalities=L(ceq), equalities=L(eq), linear=L(linear), max_signal=INT(n + 1), no_rounds=INT(rounds), parallel_flag=FALSE, flag_s=TRUE if flag_s else FALSE, flag_old_heuristics=TRUE if old else FALSE,
                 port_substitution=FALSE, json_substitutions=STR("s.json"))


def run(F, r, fn, args, st=None, last=False):
    """the paths of fn; last: the channels deliver what arrived last first"""
    f = F.find(fn); r.fn(f)
    ps, E = explore(F, f, args, intr=merged(last), st=st, loop_visits=400, max_paths=200000, max_steps=6000000, rec=12, max_depth=40); r.paths(len(ps))
    if E.blind: raise Anchor("what is done by a closure given to %s" % sorted(E.blind)[0])
    if not ps: raise Anchor("no path of %s" % fn)
    return f, ps
