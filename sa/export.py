"""Abstract circuits given to the exporters: the constraint list after simplification, the DAG without it, and what they must be written as."""
import re
from . import big, bytesio, maps, strs
from .ev import mk
from .exec_model import INT, PARAM, STR, SOME, NONE, OK, ERR, TRUE, FALSE, UNIT, Anchor, build
from .paths import explore, path_intrinsics

K = [PARAM("k%d" % i) for i in range(24)]
FIELD = PARAM("modulus")


def hmap(d): return mk("array", *[mk("tuple", INT(k) if isinstance(k, int) else STR(k), v) for k, v in d.items()])


class Node:
    def __init__(self, name, signals, inputs=0, outputs=0, public=0, custom=False, params=(), order=None, constraints=()):
        self.name, self.signals, self.inputs, self.outputs, self.public, self.custom, self.params, self.constraints = name, signals, inputs, outputs, public, custom, params, constraints
        self.order = order if order is not None else list(signals)


class Circuit:
    """nodes; edges: node -> [(child, label, offset)]; main: its index (the last one)"""

    def __init__(self, nodes, edges, bits=254, removed=()):
        self.nodes, self.edges, self.bits, self.main, self.removed = nodes, edges, bits, len(nodes) - 1, set(removed)

    def walk(self, n=None, off=0, path="main"):
        n = self.main if n is None else n
        yield n, off, path
        for c, label, o in self.edges.get(n, ()): yield from self.walk(c, off + o, path + "." + label)

    def labels(self):
        """label -> (qualified name, node)"""
        out = {}
        for n, off, path in self.walk():
            for s, i in self.nodes[n].signals.items(): out[i + off] = (path + "." + s, n)
        return out

    def total(self): return len(self.labels()) + 1

    def constraints(self):
        out = []
        for n, off, path in self.walk():
            for abc in self.nodes[n].constraints:
                out.append([{(k + off if k else 0): v for k, v in m.items()} for m in abc])
        return out

    def kept(self):
        """the constraints after simplification: those about signals that were not removed"""
        return [x for x in self.constraints() if not any(k in self.removed for m in x for k in m)]

    def witness(self):
        """wire -> label, after simplification"""
        return [0] + [l for l in sorted(self.labels()) if l not in self.removed]

    def field_size(self): return -(-self.bits // 64) * 8

    def gates(self):
        """the custom gates, in the order of the nodes, and their applications in the order of the tree (labels)"""
        used = [(n.name.split("(")[0], n.params) for n in self.nodes if n.custom]
        idx = [i for i, n in enumerate(self.nodes) if n.custom]
        app = [(idx.index(n), [self.nodes[n].signals[s] + off for s in self.nodes[n].order]) for n, off, path in self.walk() if self.nodes[n].custom]
        return used, app


def constraint(F, abc): return build(F, "algebra::Constraint", None, "c", **{k: hmap(m) for k, m in zip("abc", abc)})


def as_list(F, c):
    """the ConstraintList of the circuit, and its constraints"""
    nodes = [build(F, "constraint_list::EncodingNode", None, "n%d" % i, id=INT(i), name=STR(n.name), parameters=mk("array", *n.params), is_custom_gate=TRUE if n.custom else FALSE, non_linear=mk("array"),
                   signals=mk("array", *[build(F, "constraint_list::SignalInfo", None, "s", name=STR(s), id=INT(x)) for s, x in n.signals.items()]), ordered_signals=mk("array", *[INT(n.signals[s]) for s in n.order])) for i, n in enumerate(c.nodes)]
    adj = [mk("array", *[build(F, "constraint_list::EncodingEdge", None, "e", goes_to=INT(t), path=STR(p), offset=INT(o)) for t, p, o in c.edges.get(i, ())]) for i in range(len(nodes))]
    enc = build(F, "constraint_list::DAGEncoding", None, "d", init=INT(c.main), no_constraints=INT(len(c.kept())), nodes=mk("array", *nodes), adjacency=mk("array", *adj))
    m = c.nodes[c.main]
    lst = build(F, "constraint_list::ConstraintList", None, "l", field=FIELD, dag_encoding=enc, no_public_inputs=INT(m.public), no_public_outputs=INT(m.outputs), no_private_inputs=INT(m.inputs - m.public), no_private_inputs_witness=INT(m.inputs - m.public),
                no_labels=INT(c.total()), constraints=PARAM("storage"), signal_map=mk("array", *[mk("tuple", INT(l), INT(w)) for w, l in sorted(enumerate(c.witness()), key=lambda x: (x[1] * 7919) % 101)]))
    return lst, [constraint(F, x) for x in c.kept()]


def as_dag(F, c, prime="bn128"):
    edge = lambda t, p, o: build(F, "dag::Edge", None, "e", label=STR(p), goes_to=INT(t), in_number=INT(o), out_number=INT(o + len(c.nodes[t].signals)), in_component_number=INT(0), out_component_number=INT(0))
    nodes = []
    for i, n in enumerate(c.nodes):
        ids = sorted(n.signals.values())
        nodes.append(build(F, "dag::Node", None, "n%d" % i, entry=edge(i, "main", 0), template_name=STR(n.name), parameters=mk("array", *n.params), number_of_signals=INT(len(ids)), number_of_components=INT(1), public_inputs_length=INT(n.public), inputs_length=INT(n.inputs),
                           outputs_length=INT(n.outputs), intermediates_length=INT(len(ids) - n.inputs - n.outputs), signal_correspondence=mk("array", *[mk("tuple", STR(s), INT(x)) for s, x in sorted(list(n.signals.items()) + [(l + "." + k, o + v) for t, l, o in c.edges.get(i, ()) for k, v in c.nodes[t].signals.items()], key=lambda q: q[1] * 7919 % 101)]), ordered_signals=mk("array", *[STR(s) for s in n.order]),
                           locals=mk("array", *[INT(x) for x in ids]), reachables=mk("array", *[INT(x) for x in ids]), forbidden_if_main=mk("array", INT(0), *[INT(x) for x in ids[:n.outputs + n.public]]), io_signals=mk("array", *[INT(x) for x in ids[:n.inputs + n.outputs]]),
                           constraints=mk("array", *[constraint(F, x) for x in n.constraints]), is_custom_gate=TRUE if n.custom else FALSE, is_parallel=FALSE, has_parallel_sub_cmp=FALSE))
    adj = [mk("array", *[edge(t, p, o) for t, p, o in c.edges.get(i, ())]) for i in range(len(nodes))]
    return build(F, "dag::DAG", None, "dag", one_signal=INT(0), nodes=mk("array", *nodes), adjacency=mk("array", *adj), prime=STR(prime))


def intrinsics(c=None, cons=(), read=None):
    one = lambda v: (lambda E, st, name, args, fn, line: [(st, v)])

    def generic(E, st, name, args, fn, line): return [(st, INT(0))] if re.match(r"(core::default::Default::default|<[A-Z]\w* as .*)$", name) else NotImplemented

    def popf(E, st, name, args, fn, line):
        v = E.deref(st, args[0])
        if v.op != "array": return NotImplemented
        if v.a: E.store_through(st, args[0], mk("array", *v.a[1:]))
        return [(st, SOME(v.a[0]) if v.a else NONE)]

    def pushf(E, st, name, args, fn, line):
        v = E.deref(st, args[0])
        if v.op != "array": return NotImplemented
        E.store_through(st, args[0], mk("array", E.deref(st, args[1]), *v.a)); return [(st, UNIT)]

    def sortby(E, st, name, args, fn, line):
        import functools
        v = E.deref(st, args[0])
        if v.op != "array": return NotImplemented

        def one(xs):
            rs = E.call_value(fn, st, args[1], xs, line, 4, ())
            if len(rs) != 1: raise Anchor("sort")
            return E.deref(rs[0][0], rs[0][1])

        def cmp(a, b):
            o = one([a, b])
            if o.op != "adt": raise Anchor("sort")
            return {"Less": -1, "Equal": 0, "Greater": 1}[o.a[1]]

        def key(a):
            k = one([a])
            if k.op not in ("int", "str"): raise Anchor("sort")
            return k.a[0]
        E.store_through(st, args[0], mk("array", *sorted(v.a, key=key if "by_key" in name else functools.cmp_to_key(cmp)))); return [(st, UNIT)]

    def ordering(E, st, name, args, fn, line):
        a, b = E.deref(st, args[0]), E.deref(st, args[1])
        if a.op != b.op or a.op not in ("int", "str"): return NotImplemented
        x, y = a.a[0], b.a[0]
        return [(st, mk("adt", "core::cmp::Ordering", "Less" if x < y else "Greater" if x > y else "Equal", ()))]

    def toset(E, st, name, args, fn, line):
        if not re.match(r"std::collections::hash::set::HashSet<", getattr(E, "dest_ty", "")): return NotImplemented
        v = E.deref(st, args[0])
        if v.op != "iter" or v.a[0].op != "array": return NotImplemented
        return [(st, mk("array", *dict.fromkeys(E.deref(st, x) for x in v.a[0].a)))]
    I = {**bytesio.intrinsics(read), r"BigInt::bits$": lambda E, st, name, args, fn, line: [(st, INT(c.bits))] if E.deref(st, args[0]).op != "int" else NotImplemented,
         r"UsefulConstants::new$": one(mk("consts")), r"UsefulConstants::get_p$": one(FIELD), r"BigInt::to_str_radix$": lambda E, st, name, args, fn, line: [(st, mk("decimal", E.deref(st, args[0])))],
         r"ConstraintStorage::get_ids$": one(mk("array", *[INT(i) for i in range(len(cons))])), r"ConstraintStorage::read_constraint$": lambda E, st, name, args, fn, line: [(st, SOME(cons[E.deref(st, args[1]).a[0]]))],
         r"ConstraintStorage::is_empty$": one(FALSE if cons else TRUE), r"ConstraintStorage::get_no_constraints$": one(INT(len(cons))), r"Log::print$": one(UNIT), r"^(core::default::Default::default|<[A-Z] as core::default::Default>::default)$": generic, r"slice::<impl \[T\]>::sort_(unstable_)?by(_key)?(::<.*>)?$": sortby, r"cmp::(Ord|impls|PartialOrd).*::cmp$": ordering, r"LinkedList::<.*>::push_front$|LinkedList::push_front$": pushf, r"LinkedList::<.*>::pop_front$|LinkedList::pop_front$": popf, r"Iterator(>)?::collect(::<.*>)?$": toset, r"shrink_to_fit$": one(UNIT)}
    return {**I, **big.intrinsics(), **maps.intrinsics(), **strs.intrinsics(), **path_intrinsics()}


def evaluate(F, r, fn, args, c=None, cons=(), read=None, extra=None):
    f = F.find(fn); r.fn(f)
    ps, E = explore(F, f, args, intr={**(extra or {}), **intrinsics(c, cons, read)}, loop_visits=700, max_paths=100000, max_steps=20000000, rec=8); r.paths(len(ps))
    if E.blind: raise Anchor("what is done by a closure given to %s" % sorted(E.blind)[0])
    return f, ps


def written(p):
    if p.events(r"^io:lost$"): raise Anchor("bytes that are not known")
    return bytesio.content(p.st.events())


class Bad(Exception): pass


def parse(flat):
    """an r1cs file -> its contents; raises Bad when it is not what its header and section table say"""
    R = bytesio.Reader(flat)

    def num(n, what):
        v = R.num(n)
        if v is None: raise Bad("%s is not written in %d bytes" % (what, n))
        return v

    def known(n, what):
        v = num(n, what)
        if not isinstance(v, int): raise Anchor(what)
        return v
    if R.num(4) != int.from_bytes(b"r1cs", "little"): raise Bad("the file does not begin with r1cs")
    if num(4, "the version") != 1: raise Bad("the version is not 1")
    n = known(4, "the number of sections"); secs = {}; order = []
    for _ in range(n):
        if R.done(): raise Bad("the file announces %d sections and has %d" % (n, len(order)))
        t = known(4, "the type of a section"); s = known(8, "the size of a section")
        at = (R.i, R.pos); x = R.take(s)
        if x is None: raise Bad("the size of section %d (%d) is not the number of bytes written" % (t, s))
        if t in secs: raise Bad("section %d is written twice" % t)
        secs[t] = x; order.append(t)
    if not R.done(): raise Bad("bytes after the last section: %s" % ("a section not counted in the header" if len(order) < 5 else "the size of section %d is not the number of bytes written" % order[-1]))
    if sorted(order) != list(range(1, n + 1)) or n not in (3, 5): raise Bad("the sections are %s" % order)
    out = {"order": order}
    R = bytesio.Reader(secs[1]); fs = known(4, "the field size"); out["field_size"] = fs; out["field"] = num(fs, "the modulus")
    for k, w in (("wires", 4), ("outputs", 4), ("public", 4), ("private", 4), ("labels", 8), ("constraints", 4)): out[k] = num(w, "the number of " + k)
    if not R.done(): raise Bad("the header is longer than its fields")
    R = bytesio.Reader(secs[2]); cs = []
    while not R.done():
        c = []
        for m in "ABC":
            d = {}
            for _ in range(known(4, "the number of terms of " + m)):
                w = known(4, "a wire"); v = num(fs, "a coefficient")
                if w in d: raise Bad("a wire appears twice in one combination")
                d[w] = v
            c.append(d)
        cs.append(c)
    out["cs"] = cs
    R = bytesio.Reader(secs[3]); ls = []
    while not R.done(): ls.append(num(8, "a label"))
    out["map"] = ls
    if n == 5:
        R = bytesio.Reader(secs[4]); used = []
        for _ in range(known(4, "the number of custom gates")):
            s = b""
            while True:
                b = known(1, "the name of a custom gate")
                if b == 0: break
                s += bytes([b])
            used.append((s.decode(), [num(fs, "a parameter of a custom gate") for _ in range(known(4, "the number of parameters"))]))
        if not R.done(): raise Bad("section 4 is longer than the custom gates it announces")
        R = bytesio.Reader(secs[5]); app = []
        for _ in range(known(4, "the number of applications")):
            i = known(4, "the index of a custom gate"); app.append((i, [num(8, "a signal of a custom gate") for _ in range(known(4, "the number of signals"))]))
        if not R.done(): raise Bad("section 5 is longer than the applications it announces")
        out["used"], out["applied"] = used, app
    return out


def samples():
    gate = lambda: Node("Gate(3,5)", {"b": 1, "a": 2}, inputs=1, outputs=1, custom=True, params=(K[20], K[21]), order=["a", "b"])
    gate2 = lambda: Node("Gate(3,6)", {"o": 1, "x[0]": 2, "x[1]": 3}, inputs=2, outputs=1, custom=True, order=["o", "x[1]", "x[0]"])
    sub = lambda: Node("Sub(7)", {"out": 1, "in": 2, "t": 3}, inputs=1, outputs=1, constraints=[[{1: K[0]}, {2: K[1], 0: K[2]}, {3: K[3]}], [{}, {}, {1: K[4], 3: K[5]}]])
    top = lambda **kw: Node("Top(1)", {"o1": 1, "o2": 2, "pub": 3, "p1": 4, "p2": 5, "mid": 6}, inputs=3, outputs=2, public=1, **kw)
    yield "plain", Circuit([sub(), top(constraints=[[{6: K[6]}, {3: K[7]}, {0: K[8], 4: K[9], 8: K[10]}], [{3: K[12]}, {7: K[13]}, {0: K[14], 8: K[15], 4: K[16]}]])], {1: [(0, "s[0]", 6), (0, "s[1]", 9)]}, 254, {6, 9, 12})
    mid = Node("Mid(2)", {"o": 1, "i": 2}, inputs=1, outputs=1, constraints=[[{2: K[17]}, {5: K[18]}, {1: K[19]}]])
    yield "deep", Circuit([sub(), mid, top(constraints=[[{6: K[6]}, {3: K[7]}, {0: K[8], 7: K[9]}]])], {1: [(0, "a", 2), (0, "b", 5)], 2: [(1, "m[0]", 6), (0, "k", 14), (1, "m[1]", 17)]}, 254, {8, 16, 20})
    yield "empty", Circuit([Node("Top(1)", {"a": 1}, inputs=1)], {}, 64)
    yield "gates", Circuit([gate(), sub(), gate2(), top(constraints=[[{}, {}, {1: K[11], 7: K[12]}]])], {3: [(2, "q", 6), (1, "s", 9), (0, "g[0]", 12), (0, "g[1]", 14)], 1: []}, 256, {11})
    wide = Node("Wide(1)", {"w%d" % i: i for i in range(1, 301)}, inputs=2, outputs=1, public=2, constraints=[[{300: K[13], 1: K[14]}, {257: K[15]}, {256: K[16]}]])
    yield "wide", Circuit([wide], {}, 253, {255, 299})
    yield "odd", Circuit([Node("Odd(1)", {"o": 1, "i": 2}, inputs=1, outputs=1, constraints=[[{2: K[17]}, {2: K[18]}, {1: K[19]}]])], {}, 200)
    yield "tight", Circuit([Node("Tight(1)", {"o": 1, "i": 2, "j": 3}, inputs=2, outputs=1, public=2, constraints=[[{2: K[17]}, {3: K[18]}, {1: K[19]}]])], {}, 65)


def expected(tag, c):
    """the constraints, by wire, and the label of each wire"""
    if tag == "dag": return c.constraints(), list(range(c.total()))
    w = c.witness(); at = {l: i for i, l in enumerate(w)}
    return [[{at[k]: v for k, v in m.items()} for m in abc] for abc in c.kept()], w


def same_constraints(got, want):
    """constraints with literal coefficients compare by value, the others by term"""
    norm = lambda cs: sorted((repr([sorted((k, str(v)) for k, v in m.items()) for m in x]) for x in cs))
    return norm(got) == norm(want)
