"""Error flow: which results of fallible calls reach the caller.  Every fallible callee is an oracle with two outcomes; on a path where
one failed the function must fail too (return an error, stop the process, or panic)."""
from .exec_model import *
from . import maps

RES = re.compile(r"^core::result::Result<(.*), (core::io::error::Error|\(\)|program_structure::program_library::error_definition::Report|"
                 r"alloc::vec::Vec<program_structure::program_library::error_definition::Report>|wast::.*Error)>$")
PASS = re.compile(r"from_residual$|::branch$|Result::<T, E>::|Option::<T>::|Result<T, F>")


def fallible_calls(F, f):
    """{callee name: [lines]} of the calls of f (and its closures) whose result may be an error"""
    out = {}
    for g in [f] + [F.fns[c] for c in closures(F, f)]:
        for bb, c, args, dest, line in g.calls():
            if c is None or len(dest) != 1: continue
            n = c.get("r") or c["p"]
            if PASS.search(n) or PASS.search(c["p"]): continue
            if RES.match(g.locals[dest[0]][0]): out.setdefault(n, []).append(line)
    return out


def closures(F, f):
    out = []
    for c in F.children.get(f.id, []):
        if "{closure" in c: out.append(c); out += closures(F, F.fns[c])
    return out


def lost(F, f, extra=None, most=2, keep=(), max_paths=6000, track=(), names=None):
    """(paths, [(callee, how)]) failed calls after which f still returns normally; E.diverged paths end the program"""
    names = names if names is not None else fallible_calls(F, f)
    fam = set([f.id] + closures(F, f))
    rets_result = lambda t: "core::result::Result<" in t

    def h(E, st, name, args, fn, line):
        vals = tuple(E.deref(st, a) for a in args)
        n = st.mem.get(("G", "calls", name, line), INT(0)).a[0]
        st.mem[("G", "calls", name, line)] = INT(n + 1)
        if n >= most: return [(st, OK(mk("res", name)))]
        s2 = st.fork()
        g = s2.mem.get(("G", "failed"), mk("array")); s2.mem[("G", "failed")] = mk("array", *(g.a + (mk("failure", STR(name), INT(line)),)))
        E.event(s2, "failed:" + name, vals, line, fn); E.event(st, name, vals, line, fn)
        return [(st, OK(mk("res", name))), (s2, ERR(mk("error", name)))]
    def pr(E, st, name, args, fn, line):
        E.event(st, "eprint" if "_eprint" in name else "print", tuple(E.deref(st, a) for a in args), line, fn); return [(st, UNIT)]
    I = {**maps.intrinsics(), r"stdio::_e?print$": pr, **{("^" + re.escape(n) + "$"): h for n in names}, **(extra or {})}
    takes = lambda i: any(rets_result(l[0]) for l in F.fns[i].locals[1:F.fns[i].nargs + 1])
    inl = lambda i, depth: i in fam or "{closure" in i and F.fns[i].parent in fam or (takes(i) and i not in names) or any(re.search(k, i) for k in keep)
    ps, E = explore(F, f, [PARAM(l[1] or "a%d" % i) for i, l in enumerate(f.locals[1:f.nargs + 1])], intr=I, inline=inl, loop_visits=3, max_paths=max_paths, track=track, max_steps=25000)
    return ps, names, E


CONSUME = re.compile(r"(Result|Option)::<[^>]*>::(unwrap|expect|unwrap_or_else|expect_err|unwrap_err|is_ok|is_err|is_ok_and|is_err_and|map_or|map_or_else|into_ok)$|::branch$")
THROUGH = re.compile(r"(Result|Option)::<[^>]*>::(map_err|map|and|and_then|as_ref|as_mut|inspect_err|inspect|or_else|copied|cloned|transpose|flatten|ok)$")


def consumed(f, dest):
    """is the result in local `dest` looked at (unwrapped, propagated, matched, returned) by some use"""
    seen = set(); w = [dest]
    while w:
        d = w.pop()
        if d in seen: continue
        seen.add(d)
        if d == 0: return True
        for b in f.bbs:
            if b.get("cl"): continue
            for pl, rv, *_ in b["s"]:
                if rv[0] == "disc" and rv[1][0] == d: return True
                def uses(x): return isinstance(x, list) and ((len(x) == 2 and x[0] in ("cp", "mv") and isinstance(x[1], list) and x[1] and x[1][0] == d)
                                                              or (x and isinstance(x[0], int) and x[0] == d) or any(uses(y) for y in x if isinstance(y, list)))
                if rv[0] in ("use", "ref", "cast", "agg") and any(uses(x) for x in rv[1:]): w.append(pl[0])
            t = b["t"]
            if t[0] == "call" and any(a[0] in ("cp", "mv") and a[1][0] == d for a in t[2]):
                n = ((t[1][1].get("r") or t[1][1]["p"]) if t[1][0] == "c" else "")
                p = t[1][1]["p"] if t[1][0] == "c" else ""
                if CONSUME.search(n) or CONSUME.search(p): return True
                if THROUGH.search(n) or THROUGH.search(p): w.append(t[3][0])
                elif not re.search(r"mem::drop$|::unwrap_or$|::unwrap_or_default$|::err$|::is_none|::is_some", n): return True
    return False


def unconsumed(F, f):
    """fallible calls of f whose result nobody looks at"""
    out = []
    for g in [f] + [F.fns[c] for c in closures(F, f)]:
        for bb, c, args, dest, line in g.calls():
            if c is None or len(dest) != 1: continue
            n = c.get("r") or c["p"]
            if PASS.search(n) or PASS.search(c["p"]): continue
            if RES.match(g.locals[dest[0]][0]) and not consumed(g, dest[0]): out.append((n, line))
    return out
