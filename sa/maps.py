"""Keyed collections (HashMap, BTreeMap, HashSet, BTreeSet) with known, pairwise different keys: a map is an array of (key, value)
pairs, a set an array of keys.  Different key terms denote different keys.  A map that is not such an array is unknown: membership is a
decision on the term has(map,key) and the value is at(map,key)."""
from .ev import *

MAPS = r"(hash::map::HashMap|btree::map::BTreeMap|hash_map::HashMap|btree_map::BTreeMap)"
SETS = r"(hash::set::HashSet|btree::set::BTreeSet)"


def known(m): return m.op == "array"


def pos(m, k, pair=True):
    for i, e in enumerate(m.a):
        if (e.a[0] if pair else e) is k: return i
    return None


def has(st, m, k):
    """[(state, bool)]"""
    t = mk("has", m, k)
    for c in st.conds():
        if c[0] == "bool" and c[1] is t: return [(st, c[2])]
    s2 = st.fork()
    st.cond = (st.cond, ("bool", t, True)); s2.cond = (s2.cond, ("bool", t, False))
    return [(st, True), (s2, False)]


def _contains(pair):
    def h(E, st, name, args, fn, line):
        m, k = E.deref(st, args[0]), E.deref(st, args[1])
        if known(m): return [(st, TRUE if pos(m, k, pair) is not None else FALSE)]
        return [(s, TRUE if b else FALSE) for s, b in has(st, m, k)]
    return h


def _get(E, st, name, args, fn, line):
    m, k = E.deref(st, args[0]), E.deref(st, args[1])
    if known(m):
        i = pos(m, k)
        if i is None: return [(st, NONE)]
        if args[0].op == "ref" and name.endswith("get_mut"): return [(st, SOME(mk("ref", loc(E, st, args[0])[0], loc(E, st, args[0])[1] + (("i", INT(i)), ("f", "1")))))]
        return [(st, SOME(m.a[i].a[1]))]
    v = mk("at", m, k)
    return [(s, SOME(v) if b else NONE) for s, b in has(st, m, k)]


def loc(E, st, r):
    """location finally referred to by a (possibly nested) reference"""
    while True:
        v = getp(E.load_root(st, r.a[0]), r.a[1])
        if isinstance(v, T) and v.op == "ref": r = v
        else: return r.a[0], r.a[1]


def _index(E, st, name, args, fn, line):
    m, k = E.deref(st, args[0]), E.deref(st, args[1])
    if known(m):
        i = pos(m, k)
        return [] if i is None else [(st, m.a[i].a[1])]
    return [(st, mk("at", m, k))]


def in_order(name, es, key):
    """the entries of a BTreeMap or BTreeSet are ordered by their keys"""
    ops = {key(e).op for e in es}
    return es if "BTree" not in name or ops not in ({"int"}, {"str"}) else sorted(es, key=lambda e: key(e).a[0])


def _insert(E, st, name, args, fn, line):
    m, k = E.deref(st, args[0]), E.deref(st, args[1])
    if not known(m): return NotImplemented
    v = E.deref(st, args[2]) if args[2].op == "ref" and args[2].a[0][0] == "L" and False else args[2]
    i = pos(m, k)
    if i is None: new, old = m.a + (mk("tuple", k, v),), NONE
    else: new, old = m.a[:i] + (mk("tuple", k, v),) + m.a[i + 1:], SOME(m.a[i].a[1])
    E.store_through(st, args[0], mk("array", *in_order(name, new, lambda e: e.a[0]))); return [(st, old)]


def _sinsert(E, st, name, args, fn, line):
    m, k = E.deref(st, args[0]), E.deref(st, args[1])
    if not known(m): return NotImplemented
    if pos(m, k, False) is not None: return [(st, FALSE)]
    E.store_through(st, args[0], mk("array", *in_order(name, m.a + (k,), lambda e: e))); return [(st, TRUE)]


def _remove(E, st, name, args, fn, line):
    m, k = E.deref(st, args[0]), E.deref(st, args[1])
    if not known(m): return NotImplemented
    i = pos(m, k)
    if i is None: return [(st, NONE)]
    E.store_through(st, args[0], mk("array", *(m.a[:i] + m.a[i + 1:]))); return [(st, SOME(m.a[i].a[1]))]


def _sremove(E, st, name, args, fn, line):
    m, k = E.deref(st, args[0]), E.deref(st, args[1])
    if not known(m): return NotImplemented
    i = pos(m, k, False)
    if i is None: return [(st, FALSE)]
    E.store_through(st, args[0], mk("array", *(m.a[:i] + m.a[i + 1:]))); return [(st, TRUE)]


def _new(E, st, name, args, fn, line): return [(st, mk("array"))]


def _empty(E, st, name, args, fn, line):
    m = E.deref(st, args[0])
    return [(st, (FALSE if m.a else TRUE))] if known(m) else NotImplemented


def _len(E, st, name, args, fn, line):
    m = E.deref(st, args[0])
    return [(st, INT(len(m.a)))] if known(m) else NotImplemented


def _iter(E, st, name, args, fn, line):
    m = E.deref(st, args[0])
    if not known(m): return [(st, mk("iter", m))]
    last = name.rsplit("::", 1)[-1]
    mut = last in ("iter_mut", "values_mut") or last == "into_iter" and "&'a mut" in name or "&mut" in name
    if mut and args[0].op == "ref":
        root, path = loc(E, st, args[0])
        es = [mk("tuple", e.a[0], mk("ref", root, path + (("i", INT(i)), ("f", "1")))) for i, e in enumerate(m.a)]
    else: es = list(m.a)
    if "keys" in last: es = [e.a[0] for e in es]
    elif "values" in last: es = [e.a[1] for e in es]
    return [(st, mk("iter", mk("array", *es)))]


def _clear(E, st, name, args, fn, line):
    E.store_through(st, args[0], mk("array")); return [(st, UNIT)]


def intrinsics():
    M, S = MAPS + r".*::", SETS + r".*::"
    return {M + r"contains_key$": _contains(True), M + r"get(_mut)?$": _get, MAPS + r".*Index.*::index$": _index, M + r"insert$": _insert, M + r"remove$": _remove,
            M + r"(new|with_capacity|default)$": _new, M + r"is_empty$": _empty, M + r"len$": _len, M + r"(iter|iter_mut|keys|values|values_mut|into_iter|drain)$": _iter, M + r"clear$": _clear,
            S + r"contains$": _contains(False), S + r"insert$": _sinsert, S + r"remove$": _sremove, S + r"(new|with_capacity|default)$": _new, S + r"is_empty$": _empty, S + r"len$": _len, S + r"clear$": _clear}
