"""Denotations of coefficient maps (HashMap<signal, field element>) and of arithmetic expressions and constraints.

Map operations are modelled by terms during abstract interpretation; a finished path denotes a polynomial
identity over the field, decided by comparing the polynomials' values at fixed points of a large prime field
(values that satisfy the path's equalities).  A loop over a map stands for its additive action on one entry."""
import random, re
from .ev import *
from .util import Unk

Q = 2 ** 127 - 1
HM = re.compile(r"hash::map::HashMap::?<|hash::map::HashMap<")
ZERO = re.compile(r"is_zero$")


class Infeasible(Exception):
    pass


def dm(E, st, x):
    """the map behind x, with pending entry cells settled"""
    return settle(st, E.deref(st, x))


def is_map_call(name):
    return "hash::map::HashMap" in name


def _ins(E, st, name, args, fn, line):
    k = E.deref(st, args[1]); v = E.deref(st, args[2])
    m = dm(E, st, args[0])
    E.store_through(st, args[0], mk("mins", m, k, v))
    return [(st, mk("mget", m, k))]


def same_key(st, a, b):
    """True / False / None"""
    if a is b: return True
    if a.op in ("int", "str") and b.op == a.op: return False
    t = mk("Eq", *ev_sorted(a, b))
    r = st.ref.get(t)
    if r is not None and not isinstance(r, str) and r.op == "bool": return r.a[0]
    rep = {}

    def fd(x):
        while x in rep: x = rep[x]
        return x
    ne = []
    e = st.cond
    while e:
        c = e[1]; e = e[0]
        if c[0] == "bool" and c[1].op == "Eq":
            if c[2]:
                x, y = fd(c[1].a[0]), fd(c[1].a[1])
                if x is not y: rep[x] = y
            else: ne.append(c[1].a)
    x, y = fd(a), fd(b)
    if x is y: return True
    for p, q in ne:
        if {fd(p), fd(q)} == {x, y}: return False
    return None


def ev_sorted(a, b):
    return (a, b) if repr(a) <= repr(b) else (b, a)


def lookup(E, st, m, k):
    """[(state, value or None)]; value may be a mget payload of an opaque map"""
    if m.op in ("mnew", "default") or (m.op == "array" and not m.a): return [(st, None)]
    if m.op == "mmap":
        out = []
        for s2, v in lookup(E, st, m.a[0], k):
            out.append((s2, None if v is None else mk("mscaled", m, v)))
        return out
    if m.op in ("mins", "mtouch", "mrem"):
        s = same_key(st, m.a[1], k)
        out = []
        if s is not False:
            s2 = st.fork() if s is None else st
            if s is None: E.assume(s2, mk("Eq", *ev_sorted(m.a[1], k)), True)
            if m.op == "mins": out.append((s2, m.a[2]))
            elif m.op == "mrem": out.append((s2, None))
            else: out.append((s2, mk("coef", m.a[0], k)))
        if s is not True:
            s3 = st
            if s is None:
                s3 = st.fork(); E.assume(s3, mk("Eq", *ev_sorted(m.a[1], k)), False)
            out += lookup(E, s3, m.a[0], k)
        return out
    g = mk("mget", m, k)
    out = []
    for s2, v in E.fork_variant(st, g, None, ("Some", "None")):
        out.append((s2, mk("coef", m, k) if v == "Some" else None))
    return out


def _get(E, st, name, args, fn, line):
    m = dm(E, st, args[0]); k = E.deref(st, args[1])
    return [(s2, NONE if v is None else SOME(v)) for s2, v in lookup(E, st, m, k)]


def _contains(E, st, name, args, fn, line):
    m = dm(E, st, args[0]); k = E.deref(st, args[1])
    return [(s2, BOOL(v is not None)) for s2, v in lookup(E, st, m, k)]


def _index(E, st, name, args, fn, line):
    m = dm(E, st, args[0]); k = E.deref(st, args[1])
    return [(s2, v) for s2, v in lookup(E, st, m, k) if v is not None]


def _remove(E, st, name, args, fn, line):
    m = dm(E, st, args[0]); k = E.deref(st, args[1])
    out = []
    for s2, v in lookup(E, st, m, k):
        if v is not None: E.store_through(s2, args[0], mk("mrem", m, k))
        if name.endswith("remove_entry"): out.append((s2, NONE if v is None else SOME(mk("tuple", k, v))))
        else: out.append((s2, NONE if v is None else SOME(v)))
    return out


def _new(E, st, name, args, fn, line): return [(st, mk("mnew"))]


def _clear(E, st, name, args, fn, line):
    E.store_through(st, args[0], mk("mnew")); return [(st, UNIT)]


def _entry(E, st, name, args, fn, line):
    return [(st, mk("mentry", args[0], E.deref(st, args[1])))]


def _or_insert(E, st, name, args, fn, line):
    e = args[0]
    if e.op != "mentry": return NotImplemented
    ref, k = e.a
    out = []
    for s2, v in [(st, args[1])] if name.endswith("or_insert") else ([(st, INT(0))] if name.endswith("or_default") else E.call_value(fn, st, args[1], [], line, 1, ())):
        m = dm(E, s2, ref)
        v = E.deref(s2, v)
        E.frames += 1
        cell = ("ME", E.frames)
        if v.op == "int" and v.a[0] == 0 and concrete_entries(m, s2) is None:
            s2.mem[cell] = mk("coef", m, k)
            base = m
            E.store_through(s2, ref, mk("mcell", base, k, mk("ref", cell, ())))
            out.append((s2, mk("ref", cell, ())))
        else:
            for s3, w in lookup(E, s2, m, k):
                s3.mem[cell] = v if w is None else w
                E.store_through(s3, ref, mk("mcell", m, k, mk("ref", cell, ())))
                out.append((s3, mk("ref", cell, ())))
    return out


def settle(st, m):
    """entry cells written through become plain inserts"""
    if not isinstance(m, T): return m
    if m.op == "mcell":
        b = settle(st, m.a[0])
        v = getp(st.mem.get(m.a[2].a[0], UNDEF), m.a[2].a[1])
        if v is mk("coef", m.a[0], m.a[1]): return mk("mtouch", b, m.a[1])
        return mk("mins", b, m.a[1], v)
    return m


def _valuesmut(E, st, name, args, fn, line):
    E.frames += 1
    return [(st, mk("vmut", args[0], name.endswith("iter_mut"), E.frames))]


def _into_iter(E, st, name, args, fn, line):
    x = args[0]
    if x.op in ("vmut", "iter"): return [(st, x)]
    if "HashMap" in name and x.op == "ref" and "&mut" in name: return _valuesmut(E, st, "iter_mut", [x], fn, line)
    y = settle(st, E.deref(st, x))
    if "HashMap" in name: return [(st, mk("iter", y))]
    return NotImplemented


def _iter(E, st, name, args, fn, line):
    m = dm(E, st, args[0])
    last = name.rsplit("::", 1)[-1]
    if "keys" in last: m = mk("mkeys", m)
    elif "values" in last: m = mk("mvals", m)
    return [(st, mk("iter", m))]


def _pop(E, st, name, args, fn, line):
    """the only entry of a one-entry map taken out of its collected keys or values"""
    v = E.deref(st, args[0])
    if v.op == "call" and v.a[0].endswith("collect") and len(v.a) == 2 and v.a[1].op == "iter" and v.a[1].a[0].op in ("mkeys", "mvals"):
        kind, m = v.a[1].a[0].op, v.a[1].a[0].a[0]
        if is_true(st, mk("Eq", INT(1), mk("len", m))):
            st.cond = (st.cond, ("loop", mk("iter", m), True))
            return [(st, SOME(getf(mk("item", mk("iter", m)), "0" if kind == "mkeys" else "1")))]
    return NotImplemented


def is_true(st, t):
    r = st.ref.get(t)
    return r is TRUE


def _next(E, st, name, args, fn, line):
    it = E.deref(st, args[0])
    if it.op == "vmut":
        m = settle(st, E.deref(st, it.a[0]))
        key = ("next", it, fn.id, line)
        if st.vis.get(key, 0) >= 1: return [(st, NONE)]
        s2 = st.fork(); s2.cond = (s2.cond, ("loop", mk("iter", m), False))
        s2.vis[key] = 1
        if concrete_entries(m, st) == []: return [(s2, NONE)]
        st.vis[key] = 1
        st.cond = (st.cond, ("loop", mk("iter", m), True))
        E.frames += 1
        cell = ("MV", E.frames)
        st.mem[cell] = mk("mval", m)
        E.store_through(st, it.a[0], mk("mmap", m, mk("ref", cell, ())))
        item = mk("ref", cell, ())
        if it.a[1]: item = mk("tuple", getf(mk("item", mk("iter", m)), "0"), item)
        r = [(st, SOME(item))]
        if not concrete_entries(m, st): r.append((s2, NONE))
        return r
    if it.op == "iter":
        m, kind = it.a[0], "entries"
        if m.op in ("mkeys", "mvals"): m, kind = m.a[0], "keys" if m.op == "mkeys" else "values"
        it = mk("iter", m)
        ce = concrete_entries(m, st)
        if ce is not None:
            n = st.vis.get(("pos", args[0]), 0)
            if n < len(ce):
                st.vis[("pos", args[0])] = n + 1
                k, v = ce[n]
                return [(st, SOME(v if kind == "values" else k if kind == "keys" else mk("tuple", k, v)))]
            return [(st, NONE)]
        if kind != "entries":
            key = ("next", it, fn.id, line)
            s2 = st.fork(); s2.cond = (s2.cond, ("loop", it, False))
            if st.vis.get(key, 0) >= 1: return [(s2, NONE)]
            st.vis[key] = 1
            st.cond = (st.cond, ("loop", it, True))
            return [(st, SOME(getf(mk("item", it), "0" if kind == "keys" else "1"))), (s2, NONE)]
    return NotImplemented


def concrete_entries(m, st):
    """entries of a map built from nothing, None when it has an opaque base"""
    if m.op in ("mnew", "default"): return []
    if m.op in ("mins", "mtouch"):
        b = concrete_entries(m.a[0], st)
        if b is None: return None
        v = m.a[2] if m.op == "mins" else None
        for i, (k, _) in enumerate(b):
            if same_key(st, k, m.a[1]):
                if v is not None: b[i] = (k, v)
                return b
        return b + [(m.a[1], v if v is not None else INT(0))]
    if m.op == "mmap":
        b = concrete_entries(m.a[0], st)
        return None if b is None else [(k, mk("mscaled", m, v)) for k, v in b]
    if m.op == "mrem":
        b = concrete_entries(m.a[0], st)
        if b is None: return None
        return [x for x in b if same_key(st, x[0], m.a[1]) is not True]
    return None


def _isempty(E, st, name, args, fn, line):
    m = settle(st, E.deref(st, args[0]))
    ce = concrete_entries(m, st)
    if ce is not None: return [(st, BOOL(not ce))]
    if m.op in ("mins", "mtouch"): return [(st, FALSE)]
    it = mk("iter", m if m.op != "mmap" else m.a[0])
    s2 = st.fork()
    s2.cond = (s2.cond, ("loop", it, False))
    return [(st, FALSE), (s2, TRUE)]


def _len(E, st, name, args, fn, line):
    m = settle(st, E.deref(st, args[0]))
    ce = concrete_entries(m, st)
    if ce is not None: return [(st, INT(len(ce)))]
    return [(st, mk("len", m))]


def _retain(E, st, name, args, fn, line):
    m = settle(st, E.deref(st, args[0]))
    s0 = st.fork(); s0.cond = (s0.cond, ("loop", mk("iter", m), False))
    st.cond = (st.cond, ("loop", mk("iter", m), True))
    E.frames += 1
    cell = ("MV", E.frames)
    st.mem[cell] = mk("mval", m)
    out = [(s0, UNIT)]
    key = getf(mk("item", mk("iter", m)), "0")
    for s2, r in E.call_value(fn, st, args[1], [key, mk("ref", cell, ())], line, 1, ()):
        if r.op == "bool": cases = [(s2, r.a[0])]
        else:
            s3 = s2.fork(); E.assume(s3, r.a[0] if r.op == "not" else r, r.op == "not")
            E.assume(s2, r.a[0] if r.op == "not" else r, r.op != "not")
            cases = [(s2, True), (s3, False)]
        for s, keep in cases:
            E.store_through(s, args[0], mk("mmap", m, mk("ref", cell, ())) if keep else mk("mnew"))
            out.append((s, UNIT))
    return out


def _foreach(E, st, name, args, fn, line):
    it = args[0]
    if it.op not in ("vmut", "iter"): return NotImplemented
    E.frames += 1
    root = ("FE", E.frames)
    st.mem[root] = it
    out = []
    for s2, o in _next(E, st, name, [mk("ref", root, ())], fn, line) if it.op == "vmut" else _generic_next(E, st, it, fn, line):
        if o is NONE: out.append((s2, UNIT)); continue
        x = getf(o, "0")
        out += [(s3, UNIT) for s3, _ in E.call_value(fn, s2, args[1], [x], line, 1, ())]
    return out


def _generic_next(E, st, it, fn, line):
    s2 = st.fork(); s2.cond = (s2.cond, ("loop", it, False))
    st.cond = (st.cond, ("loop", it, True))
    return [(st, SOME(mk("item", it))), (s2, NONE)]


def _take(E, st, name, args, fn, line):
    v = E.deref(st, args[0])
    if v.op in ("mnew", "mins", "mtouch", "mrem", "mmap", "mcell") or getattr(E, "map_hint", lambda v: False)(v):
        E.store_through(st, args[0], mk("mnew"))
        return [(st, settle(st, v))]
    return NotImplemented


def _clone(E, st, name, args, fn, line):
    return [(st, settle(st, E.deref(st, args[0])))]


MAPS = {
    r"hash::map::HashMap.*::insert$": _ins, r"hash::map::HashMap.*::get$": _get, r"hash::map::HashMap.*::contains_key$": _contains,
    r"HashMap<.*core::ops::index::Index.*::index$": _index,
    r"hash::map::HashMap.*::(remove|remove_entry)$": _remove, r"hash::map::HashMap.*::(new|with_capacity|default)$": _new,
    r"hash::map::HashMap.*::clear$": _clear, r"hash::map::HashMap.*::entry$": _entry,
    r"Entry<.*::(or_insert|or_insert_with|or_default)$": _or_insert, r"Entry::<.*::(or_insert|or_insert_with|or_default)$": _or_insert,
    r"hash::map::HashMap.*::(values_mut|iter_mut)$": _valuesmut, r"hash::map::HashMap.*::retain$": _retain,
    r"hash::map::HashMap.*::(iter|keys|values|drain|into_keys|into_values)$": _iter,
    r"hash::map::HashMap.*::is_empty$": _isempty, r"hash::map::HashMap.*::len$": _len,
    r"IntoIterator>?::into_iter$": _into_iter, r"Iterator>?::next$": _next, r"Iterator>?::for_each$": _foreach,
    r"core::mem::take$": _take, r"alloc::vec::Vec<.*::pop$": _pop, r"alloc::vec::Vec::<.*::pop$": _pop, r"HashMap<.*Clone>::clone$": _clone,
}


def summaries(F):
    """calls of map functions whose own obligations are decided separately"""
    def subst(E, st, name, args, fn, line):
        E.store_through(st, args[0], mk("msubst", dm(E, st, args[0]), E.deref(st, args[1])))
        return [(st, UNIT)]

    def same(E, st, name, args, fn, line):
        return [(st, dm(E, st, args[0]))]
    return {r"algebra::raw_substitution(::<.*>)?$": subst, r"algebra::remove_zero_value_coefficients(::<.*>)?$": same}


# ------------------------------------------------------------------------------------------------ valuation
class Val:
    def __init__(self, st, seed, const_keys, fixed=None, field=None):
        self.st = st
        self.rnd = random.Random(seed)
        self.v = {}
        self.fixed = dict(fixed or {})
        self.const_keys = set(const_keys)
        self.rep = {}
        self.ignored = []
        self.field = field
        self.over = {}          # mval override
        self.setup()

    # ---- symbols
    def find(self, k):
        while k in self.rep: k = self.rep[k]
        return k

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a is b: return
        if a in self.const_keys: a, b = b, a
        if a in self.const_keys: raise Infeasible()
        self.rep[a] = b

    def sym(self, k):
        k = self.find(k)
        if k in self.const_keys: return 1
        return self.atom(mk("sym", k))

    def atom(self, t):
        if t in self.fixed: return self.fixed[t]
        if t not in self.v: self.v[t] = self.rnd.randrange(1, Q)
        return self.v[t]

    # ---- path equalities
    def setup(self):
        conds = self.st.conds()
        for c in conds:
            if c[0] == "bool" and c[1].op == "Eq" and c[2] and self.keyish(c[1]): self.union(*c[1].a)
        for c in conds:
            if c[0] == "bool" and c[1].op == "Eq" and not c[2] and self.keyish(c[1]) and self.find(c[1].a[0]) is self.find(c[1].a[1]): raise Infeasible()
        entered = set()
        for c in conds:
            if c[0] == "loop" and c[2]: entered.add(c[1])
            if c[0] == "loop" and not c[2] and c[1] not in entered: self.zero_map(c[1].a[0])
            if c[0] == "is" and c[2] == "None" and c[1].op == "mget": self.set_coef(c[1].a[0], c[1].a[1], 0)
            if c[0] == "eq": self.solve(mk("Sub", c[1], INT(c[2])))
            if c[0] == "bool" and c[2]:
                if c[1].op == "call" and ZERO.search(c[1].a[0]): self.solve(c[1].a[1])
                elif c[1].op == "call" and c[1].a[0].endswith("is_one"): self.solve(mk("Sub", c[1].a[1], INT(1)))
                elif c[1].op == "Eq" and any(x.op == "len" for x in c[1].a): self.one_entry(c[1], conds)
                elif c[1].op == "Eq" and not self.keyish(c[1]): self.solve(mk("Sub", c[1].a[0], c[1].a[1]))
                elif c[1].op not in ("Eq",): self.ignored.append(c)

        for c in conds:
            if c[0] == "bool" and not c[2]:
                t = None
                if c[1].op == "call" and ZERO.search(c[1].a[0]): t = c[1].a[1]
                elif c[1].op == "Eq" and not self.keyish(c[1]): t = mk("Sub", *c[1].a)
                if t is None: continue
                try:
                    if self.val(t) % Q == 0: raise Infeasible()
                except (Unk, ZeroDivisionError): pass

    def one_entry(self, eq, conds):
        """a map known to have exactly one entry, and which key it holds"""
        m = [x.a[0] for x in eq.a if x.op == "len"][0]
        if INT(1) not in eq.a: return
        for c in conds:
            if c[0] == "is" and c[2] == "Some" and c[1].op == "mget" and c[1].a[0] is m:
                self.fixed[mk("LF", m)] = self.coef(m, c[1].a[1]) * self.sym(c[1].a[1]) % Q

    def keyish(self, eq):
        return any(x in self.const_keys or self.iskey(x) for x in eq.a)

    def iskey(self, x):
        if x.op == "field" and x.a[0].op == "item" and x.a[1] == "0": return True
        if x.op == "param" and (x.a[0].startswith("k_") or "symbol" in x.a[0] or x.a[0] in ("from", "key", "signal")): return True
        if x.op == "field" and x.a[1] in ("symbol", "from"): return True
        return False

    def zero_map(self, m):
        if m.op in ("mnew", "default"): return
        if m.op in ("mins", "mtouch"): raise Infeasible()
        if m.op == "mmap": return self.zero_map(m.a[0])
        if m.op == "mrem":
            self.fixed[mk("LF", m.a[0])] = self.coef(m.a[0], m.a[1]) * self.sym(m.a[1]) % Q
            return
        self.fixed[mk("LF", m)] = 0
        self.v[mk("LF0", m)] = 1

    def set_coef(self, m, k, x):
        if m.op in ("mins", "mtouch", "mrem"):
            if self.find(m.a[1]) is self.find(k):
                if m.op == "mrem": return
                raise Infeasible()
            return self.set_coef(m.a[0], k, x)
        if m.op == "mmap": return self.set_coef(m.a[0], k, x)
        if m.op in ("mnew", "default"): return
        self.fixed[mk("cf", m, self.find(k))] = x

    def atoms_of(self, t, acc):
        o = t.op
        if o == "coef":
            acc.append(mk("cf", t.a[0], self.find(t.a[1])))
        elif o in ("mval",): acc.append(mk("LF", self.base(t.a[0])))
        elif o == "field" and t.a[0].op == "item" and t.a[1] == "1":
            acc.append(mk("LF", self.base(t.a[0].a[0].a[0])))
        elif o in ("param",): acc.append(t)
        elif o in ("adt",):
            for _, x in t.a[2]: self.atoms_of(x, acc)
        else:
            if o == "field": acc.append(t)
            for x in t.a:
                if isinstance(x, T): self.atoms_of(x, acc)
        return acc

    def base(self, m):
        while m.op in ("mins", "mtouch", "mrem", "mmap"): m = m.a[0]
        return m

    def solve(self, t):
        """choose an atom so that t evaluates to zero"""
        try:
            if self.val(t) % Q == 0: return
        except (Unk, ZeroDivisionError):
            self.ignored.append(t); return
        for a in self.atoms_of(t, []):
            if a in self.fixed: continue
            try:
                old = self.atom(a)
                self.fixed[a] = 0; v0 = self.val(t)
                self.fixed[a] = 1; v1 = self.val(t)
                self.fixed[a] = 2; v2 = self.val(t)
            except (Unk, ZeroDivisionError):
                self.fixed.pop(a, None); continue
            b = (v1 - v0) % Q
            if b and (v2 - v1 - b) % Q == 0:
                self.fixed[a] = -v0 * pow(b, -1, Q) % Q
                return
            del self.fixed[a]
        self.ignored.append(t)

    # ---- denotations
    def LF(self, m):
        return self.atom(mk("LF", m))

    def scale(self, m):
        cell = m.a[1]
        out = []
        for x in (1, 7):
            self.over[m.a[0]] = x
            try: out.append(self.val(getp(self.st.mem.get(cell.a[0], UNDEF), cell.a[1])))
            finally: del self.over[m.a[0]]
        if (out[1] - 7 * out[0]) % Q: raise Unk("entries are not scaled by one factor")
        return out[0] % Q

    def den(self, m):
        m = settle(self.st, m)
        o = m.op
        if o in ("mnew", "default"): return 0
        if o == "call" and m.a[0].endswith("Default>::default"): return 0
        if o == "mins":
            return (self.den(m.a[0]) + (self.val(m.a[2]) - self.coef(m.a[0], m.a[1])) * self.sym(m.a[1])) % Q
        if o == "mtouch": return self.den(m.a[0])
        if o == "msubst":
            b, sb = m.a
            return (self.den(b) + self.coef(b, getf(sb, "from")) * (self.den(getf(sb, "to")) - self.sym(getf(sb, "from")))) % Q
        if o == "mrem": return (self.den(m.a[0]) - self.coef(m.a[0], m.a[1]) * self.sym(m.a[1])) % Q
        if o == "mmap": return self.scale(m) * self.den(m.a[0]) % Q
        if o in ("call", "undef", "mut", "upd", "store"): raise Unk("map %s" % show(m)[:80])
        return self.LF(m)

    def coef(self, m, k):
        m = settle(self.st, m)
        o = m.op
        if o in ("mnew", "default"): return 0
        if o in ("mins", "mtouch", "mrem"):
            if self.find(m.a[1]) is self.find(k):
                if o == "mins": return self.val(m.a[2])
                if o == "mrem": return 0
            return self.coef(m.a[0], k)
        if o == "mmap": return self.scale(m) * self.coef(m.a[0], k) % Q
        if o == "msubst":
            b, sb = m.a
            if self.find(k) is self.find(getf(sb, "from")): return 0
            return (self.coef(b, k) + self.coef(b, getf(sb, "from")) * self.coef(getf(sb, "to"), k)) % Q
        if mk("LF0", m) in self.v: return 0
        return self.atom(mk("cf", m, self.find(k)))

    def val(self, t):
        if t in self.fixed: return self.fixed[t]
        o = t.op
        if o == "int": return t.a[0]
        if o == "bool": return int(t.a[0])
        if o == "coef": return self.coef(t.a[0], t.a[1])
        if o == "mscaled": return self.scale(t.a[0]) * self.val(t.a[1])
        if o == "mval":
            if t.a[0] in self.over: return self.over[t.a[0]]
            return self.den(t.a[0]) * pow(self.sym(getf(mk("item", mk("iter", t.a[0])), "0")), -1, Q) % Q
        if o == "field" and t.a[1] == "0" and t.a[0].op == "as" and t.a[0].a[0].op == "mget":
            return self.coef(t.a[0].a[0].a[0], t.a[0].a[0].a[1])
        if o == "field" and t.a[0].op == "item" and t.a[1] == "1":
            m = t.a[0].a[0].a[0]
            return self.den(m) * pow(self.sym(getf(t.a[0], "0")), -1, Q) % Q
        if o in ("M", "Rem") or (o == "call" and re.search(r"(mod_floor|rem_euclid)$", t.a[0])):
            a, b = (t.a[0], t.a[1]) if o != "call" else (t.a[1], t.a[2])
            if self.field is not None and b is self.field: return self.val(a) % Q
            raise Unk("remainder by %s" % show(b)[:40])
        if o == "Neg": return -self.val(t.a[0]) % Q
        if o in ("Add", "Sub", "Mul"):
            if o == "Add" and t.a[1] is self.field: return self.val(t.a[0])
            if o == "Sub" and t.a[0] is self.field: return -self.val(t.a[1]) % Q
            if o == "Sub" and t.a[1] is self.field: return self.val(t.a[0])
            a, b = self.val(t.a[0]), self.val(t.a[1])
            return (a + b if o == "Add" else a - b if o == "Sub" else a * b) % Q
        if o == "call":
            n = t.a[0]
            if n.endswith("::modpow") and t.a[3] is self.field: return pow(self.val(t.a[1]), self.val(t.a[2]), Q)
            if n.endswith("::zero"): return 0
            if n.endswith("::one"): return 1
            raise Unk("value of %s" % show(t)[:80])
        if o == "field" and t.a[1] == "0" and t.a[0].op == "as" and t.a[0].a[0].op == "call" and t.a[0].a[0].a[0].endswith("mod_inverse"):
            x = self.val(t.a[0].a[0].a[1]) % Q
            if x == 0: raise Infeasible()
            return pow(x, -1, Q)
        if o == "poly": raise Unk("poly")
        if o in ("param", "field"): return self.atom(t)
        raise Unk("value of %s" % show(t)[:80])

    def expr(self, e):
        """denotation of an ArithmeticExpression value; None for NonQuadratic"""
        if e.op != "adt": raise Unk("expression %s" % show(e)[:80])
        v = e.a[1]
        if v == "Number": return self.val(getf(e, "value")) % Q
        if v == "Signal": return self.sym(getf(e, "symbol"))
        if v == "Linear": return self.den(getf(e, "coefficients"))
        if v == "Quadratic": return (self.den(getf(e, "a")) * self.den(getf(e, "b")) + self.den(getf(e, "c"))) % Q
        return None


def evaluator(F, panics=False, extra=None, **kw):
    ins = dict(MAPS)
    if extra: ins.update(extra)
    return Ev(F, intrinsics=ins, panics=panics, **kw)


CONST = None


def const_key(F):
    """the term the code uses for the constant coefficient (C::default())"""
    global CONST
    f = [g for g in F.find("constant_coefficient", "circom_algebra", unique=False) if "ArithmeticExpression" in (g.self_ty or "")]
    E = evaluator(F)
    r = E.call_fn(f[0], [])
    return r[0][1]
