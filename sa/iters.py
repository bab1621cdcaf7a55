"""Iterator adapters and consumers as intrinsics of the abstract interpreter.  Concrete arrays are iterated element by
element; an unknown collection yields one generic element (as a `for` loop over it does).  With these, a loop and the
iterator chain it can be rewritten to have the same summary."""
import re
from .ev import *

ADAPT1 = ("map", "filter", "filter_map", "take_while", "skip_while", "inspect", "map_while", "flat_map")


def as_iter(E, st, x):
    x = E.deref(st, x)
    if x.op in ("iter", "adapt"): return x
    if x.op == "adt" and x.a[0].rsplit("::", 1)[-1] in ("Range", "RangeInclusive") and len(x.a[2]) >= 2: return mk("iter", x)
    return mk("iter", x)


def nxt(E, st, it, fn, line, depth, stack, bound=40):
    """[(state, iterator afterwards, Option term)]"""
    if it.op == "iter":
        x = it.a[0]
        if x.op == "array":
            if x.a: return [(st, mk("iter", mk("array", *x.a[1:])), SOME(x.a[0]))]
            return [(st, it, NONE)]
        if x.op == "adt" and x.a[0].endswith("Range"):
            lo, hi = getf(x, "start"), getf(x, "end")
            if lo.op == "int" and hi.op == "int":
                if lo.a[0] < hi.a[0]:
                    return [(st, mk("iter", ADT(x.a[0], x.a[1], (("start", INT(lo.a[0] + 1)), ("end", hi)))), SOME(lo))]
                return [(st, it, NONE)]
        key = ("next", it, fn.id if fn is not None else "", line)
        s2 = st.fork(); s2.cond = (s2.cond, ("loop", it, False))
        if st.vis.get(key, 0) >= 1: return [(s2, it, NONE)]
        s1 = st.fork()
        s1.vis[key] = 1
        s1.cond = (s1.cond, ("loop", it, True))
        return [(s1, it, SOME(mk("item", it))), (s2, it, NONE)]
    kind, inner = it.a[0], it.a[1]
    out = []
    if kind == "chain":
        for s, i2, o in nxt(E, st, inner, fn, line, depth, stack):
            if o.a[1] == "Some": out.append((s, mk("adapt", kind, i2, it.a[2]), o))
            else:
                for s3, i3, o3 in nxt(E, s, it.a[2], fn, ("c", line), depth, stack):
                    out.append((s3, mk("adapt", kind, i2, i3), o3))
        return out
    if kind == "zip":
        for s, i2, o in nxt(E, st, inner, fn, line, depth, stack):
            if o.a[1] == "None": out.append((s, mk("adapt", kind, i2, it.a[2]), o)); continue
            for s3, i3, o3 in nxt(E, s, it.a[2], fn, ("z", line), depth, stack):
                v = NONE if o3.a[1] == "None" else SOME(mk("tuple", getf(o, "0"), getf(o3, "0")))
                out.append((s3, mk("adapt", kind, i2, i3), v))
        return out
    if kind == "enumerate":
        n = it.a[2]
        for s, i2, o in nxt(E, st, inner, fn, line, depth, stack):
            if o.a[1] == "None": out.append((s, mk("adapt", kind, i2, n), o)); continue
            conc = base(inner)
            ix = n if conc else mk("index", inner)
            out.append((s, mk("adapt", kind, i2, INT(n.a[0] + 1)), SOME(mk("tuple", ix, getf(o, "0")))))
        return out
    if kind == "take":
        n = it.a[2]
        if n.op == "int" and n.a[0] <= 0: return [(st, it, NONE)]
        for s, i2, o in nxt(E, st, inner, fn, line, depth, stack):
            out.append((s, mk("adapt", kind, i2, INT(n.a[0] - 1) if n.op == "int" else n), o))
        return out
    f = it.a[2]
    for s, i2, o in nxt(E, st, inner, fn, line, depth, stack):
        me = mk("adapt", kind, i2, f)
        if o.a[1] == "None": out.append((s, me, o)); continue
        v = getf(o, "0")
        if kind in ("map", "map_while", "inspect"):
            for s3, r in E.call_value(fn, s, f, [v], line, depth, stack):
                if kind == "map": out.append((s3, me, SOME(r)))
                elif kind == "inspect": out.append((s3, me, SOME(v)))
                else: out.append((s3, me, E.deref(s3, r)))
        elif kind in ("filter", "take_while"):
            for s3, r in E.call_value(fn, s, f, [v], line, depth, stack):
                for s4, b in fork_bool(E, s3, r):
                    if b: out.append((s4, me, SOME(v)))
                    elif kind == "take_while": out.append((s4, mk("adapt", kind, mk("iter", mk("array")), f), NONE))
                    elif bound > 0: out += nxt(E, s4, me, fn, line, depth, stack, bound - 1)
        elif kind == "filter_map":
            for s3, r in E.call_value(fn, s, f, [v], line, depth, stack):
                r = E.deref(s3, r)
                for s4, k in E.fork_variant(s3, r, None, ("Some", "None")):
                    if k == "Some": out.append((s4, me, SOME(E.refined(s4, getf(downcast(r, "Some"), "0")))))
                    elif bound > 0: out += nxt(E, s4, me, fn, line, depth, stack, bound - 1)
        else:
            out.append((s, me, SOME(mk("call", "iter::" + kind, v))))
    return out


def base(it):
    while it.op == "adapt": it = it.a[1]
    return it.op == "iter" and (it.a[0].op == "array" or it.a[0].op == "adt")


def fork_bool(E, st, r):
    r = E.deref(st, r)
    if r.op == "bool": return [(st, r.a[0])]
    p, b = (True, r) if r.op != "not" else (False, r.a[0])
    k = st.ref.get(b)
    if k is not None and not isinstance(k, str) and k.op == "bool": return [(st, k.a[0] == p)]
    out = []
    for v in (True, False):
        s = st.fork(); E.assume(s, b, v == p); out.append((s, v))
    return E.alive(out)


def drain(E, st, it, fn, line, step, acc, limit=64):
    """run `step(state, acc, value) -> [(state, acc, stop?)]` on every element; returns [(state, acc)]"""
    work = [(st, it, acc, 0)]; out = []
    while work:
        s, i, a, n = work.pop()
        if n > limit: E.cut += 1; continue
        for s2, i2, o in nxt(E, s, i, fn, line, 4, ()):
            if o.a[1] == "None": out.append((s2, a)); continue
            for s3, a3, stop in step(s2, a, getf(o, "0")):
                if stop: out.append((s3, a3))
                else: work.append((s3, i2, a3, n + 1))
    return out


def intrinsics():
    def guard(h):
        def g(E, st, name, args, fn, line):
            if name in E.F.fns or not args: return NotImplemented
            return h(E, st, name, args, fn, line)
        return g

    def last(name): return re.sub(r"::<.*$", "", name).rsplit("::", 1)[-1] if not name.startswith("<") else name.rsplit("::", 1)[-1]

    def adapt(E, st, name, args, fn, line):
        k = re.search(r"::(\w+)(::<.*>)?$", name).group(1)
        it = as_iter(E, st, args[0])
        if k in ("by_ref",): return [(st, args[0])]
        if k in ("cloned", "copied", "fuse", "into_iter", "peekable", "drain"): return [(st, it)]
        if k == "rev":
            if it.op == "iter" and it.a[0].op == "array": return [(st, mk("iter", mk("array", *reversed(it.a[0].a))))]
            return NotImplemented
        if k == "enumerate": return [(st, mk("adapt", k, it, INT(0)))]
        if k in ("zip", "chain"): return [(st, mk("adapt", k, it, as_iter(E, st, args[1])))]
        if k == "take": return [(st, mk("adapt", k, it, E.deref(st, args[1])))]
        if k == "skip":
            n = E.deref(st, args[1])
            if it.op == "iter" and it.a[0].op == "array" and n.op == "int": return [(st, mk("iter", mk("array", *it.a[0].a[n.a[0]:])))]
            return [(st, mk("iter", mk("skip", it, n)))]
        return [(st, mk("adapt", k, it, args[1]))]

    def next_(E, st, name, args, fn, line):
        it = E.deref(st, args[0])
        if it.op not in ("adapt", "iter"):
            if it.op == "adt" and it.a[0].endswith("Range") and all(x.op == "int" for _, x in it.a[2]): it = mk("iter", it)
            else: return NotImplemented
        out = []
        for s, i, o in nxt(E, st, it, fn, line, 4, ()):
            E.store_through(s, args[0], i)
            out.append((s, o))
        return out

    def consume(E, st, name, args, fn, line):
        k = re.search(r"::(\w+)(::<.*>)?$", name).group(1)
        it = as_iter(E, st, args[0])
        if k == "for_each":
            return [(s, UNIT) for s, _ in drain(E, st, it, fn, line, lambda s, a, v: [(s2, a, False) for s2, _ in E.call_value(fn, s, args[1], [v], line, 4, ())], UNIT, 512)]
        if k == "try_for_each":
            ty = getattr(E, "dest_ty", "")
            good, bad = ("Ok", "Err") if "result::Result" in ty[:24] else ("Some", "None")

            def each(s, a, v):
                return [(s3, a if kk == good else E.deref(s3, r2), kk != good) for s2, r2 in E.call_value(fn, s, args[1], [v], line, 4, ()) for s3, kk in E.fork_variant(s2, E.deref(s2, r2), None, (good, bad))]
            return drain(E, st, it, fn, line, each, (OK if good == "Ok" else SOME)(UNIT), 512)
        if k in ("any", "all", "find", "position"):
            def step(s, a, v):
                o = []
                for s2, r in E.call_value(fn, s, args[1], [v], line, 4, ()):
                    for s3, b in fork_bool(E, s2, r):
                        hit = b if k != "all" else not b
                        o.append((s3, {"any": TRUE, "all": FALSE, "find": SOME(v), "position": SOME(a if a.op == "int" else mk("index", it))}[k] if hit else
                                  (INT(a.a[0] + 1) if k == "position" and a.op == "int" else a), hit))
                return o
            z = {"any": FALSE, "all": TRUE, "find": NONE, "position": INT(0)}[k]
            res = drain(E, st, it, fn, line, step, z)
            if k == "position": res = [(s, a if a.op == "adt" else NONE) for s, a in res]
            return res
        if k == "count":
            if not base(it): return NotImplemented
            return drain(E, st, it, fn, line, lambda s, a, v: [(s, INT(a.a[0] + 1), False)], INT(0))
        if k == "fold":
            return drain(E, st, it, fn, line, lambda s, a, v: [(s2, r, False) for s2, r in E.call_value(fn, s, args[2], [a, v], line, 4, ())], args[1])
        if k == "collect":
            ty = getattr(E, "dest_ty", "")
            if re.match(r"(core::result::Result|core::option::Option)<alloc::vec::Vec<", ty):
                good, bad = ("Ok", "Err") if "result" in ty[:14] else ("Some", "None")

                def step(s, a, v):
                    v = E.deref(s, v)
                    return [(s2, mk("array", *(a.a + (E.refined(s2, getf(downcast(v, good), "0")),))) if k == good else
                             (v if v.op == "adt" else ERR(getf(downcast(v, "Err"), "0")) if good == "Ok" else NONE), k != good)
                            for s2, k in E.fork_variant(s, v, None, (good, bad))]
                return [(s, a if a.op == "adt" else (OK if good == "Ok" else SOME)(a)) for s, a in drain(E, st, it, fn, line, step, mk("array"))]
            if not ty.startswith("alloc::vec::Vec<"): return NotImplemented
            return drain(E, st, it, fn, line, lambda s, a, v: [(s, mk("array", *(a.a + (v,))), False)], mk("array"))
        return NotImplemented

    def extend(E, st, name, args, fn, line):
        if "alloc::vec::Vec" not in name or len(args) < 2: return NotImplemented
        cur, src = E.deref(st, args[0]), E.deref(st, args[1])
        if cur.op != "array" or src.op not in ("iter", "adapt") or not base(src): return NotImplemented
        out = drain(E, st, src, fn, line, lambda s, a, v: [(s, mk("array", *(a.a + (v,))), False)], cur)
        for s, a in out: E.store_through(s, args[0], a)
        return [(s, UNIT) for s, a in out]

    A = "|".join(ADAPT1 + ("cloned", "copied", "rev", "enumerate", "zip", "chain", "take", "skip", "by_ref", "fuse", "peekable"))
    I = r"core::iter::traits::(iterator::Iterator|double_ended::DoubleEndedIterator|collect::IntoIterator)"
    return {r"core::iter::traits::collect::Extend(<.*>)?>::extend(::<.*>)?$": guard(extend), r"(%s>?|Iterator>)::(%s)(::<.*>)?$" % (I, A): guard(adapt),
            r"(%s>?|Iterator>)::next$" % I: guard(next_),
            r"(%s>?|Iterator>)::(for_each|try_for_each|any|all|find|position|fold|collect|count)(::<.*>)?$" % I: guard(consume)}
