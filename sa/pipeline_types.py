"""The static checks as a pipeline: type_analysis::check_types explored with every analyser as an oracle that finds an error or does not."""
from .exec_model import *
from . import maps, errflow

KINDS = {"template": 2, "function": 2, "bus": 2}


def explore_check(F, defs=1, max_paths=6000, fail=None):
    """(paths, analysers {id: line}) of check_types on a program with `defs` definitions of every kind.
    Every analyser call is an event (name, args); a failing one is an event "failed:<name>" """
    f = F.find("check_types::check_types")
    mod = {g.id for g in F.fns.values() if g.crate == "type_analysis" and g.id.startswith("type_analysis::check_types::")}
    an = {}
    for i in sorted(mod):
        g = F.fns[i]
        for bb, c, args, dest, line in g.calls():
            if c is None: continue
            n = c.get("r") or c["p"]
            h = F.fns.get(n)
            if h is None or n in mod or h.crate != "type_analysis": continue
            an[n] = line

    def kind(ty):
        if ty.startswith("core::result::Result<"):
            return "resv" if re.search(r", alloc::vec::Vec<[^<>]*Report>>$", ty) else "resr" if re.search(r", [^<>]*Report>$", ty) else None
        return "vec" if re.search(r"^alloc::vec::Vec<[^<>]*Report>$", ty) else "none"

    def h(E, st, name, args, fn, line):
        g = F.fns[name]; k = kind(g.locals[0][0])
        vals = tuple(E.deref(st, a) for a in args)
        e = mk("found", STR(name), *vals)
        if k == "none":
            E.event(st, name, vals, line, fn); return [(st, UNIT)]
        s2 = st.fork() if fail is None or fail(name) else None
        E.event(st, name, vals, line, fn)
        if s2 is not None: E.event(s2, "failed:" + name, vals, line, fn)
        m = re.match(r"core::result::Result<alloc::vec::Vec<[^<>]*Report>", g.locals[0][0])
        good = OK(mk("array", mk("warned", STR(name), *vals)) if m else mk("res", STR(name))) if k != "vec" else mk("array")
        bad = {"resv": ERR(mk("array", e)), "resr": ERR(e), "vec": mk("array", e)}.get(k)
        return [(st, good)] + ([(s2, bad)] if s2 is not None else [])
    st = St()
    A = PARAM("program")

    def coll(kind, pair):
        def g(E, st, name, args, fn, line):
            k = ("H", "defs", kind)
            if pair:
                if k not in st.mem: st.mem[k] = mk("array", *[mk("tup", PARAM("%s%d" % (kind, i)), PARAM("%s%d.data" % (kind, i))) for i in range(defs)])
                return [(st, mk("ref", k, ()))]
            return [(st, mk("array", *[PARAM("%s%d" % (kind, i)) for i in range(defs)]))]
        return g

    def data(kind):
        def g(E, st, name, args, fn, line):
            x = E.deref(st, args[1])
            return [(st, PARAM(x.a[0] + ".data") if x.op == "param" else mk("data", x))]
        return g

    def gone(E, st, name, args, fn, line):
        E.event(st, "removed", tuple(E.deref(st, a) for a in args), line, fn); return [(st, UNIT)]
    I = {**maps.intrinsics()}
    for k, pl in (("template", "templates"), ("function", "functions"), ("bus", "buses")):
        I[r"ProgramArchive::get_(mut_)?%s$" % pl] = coll(k, True)
        I[r"ProgramArchive::get_%s_names$" % k] = coll(k, False)
        I[r"ProgramArchive::get_(mut_)?%s_data$" % k] = data(k)
        I[r"ProgramArchive::remove_%s$" % k] = gone
    I[r"ProgramArchive as core::clone::Clone>::clone$"] = pure(lambda x: x)
    I[r"Report::(error|warning)$"] = pure(lambda m, c: mk("found", STR("check_types"), c))
    I[r"Report::add_\w+$"] = lambda E, st, name, args, fn, line: [(st, UNIT)]
    for n in an: I["^" + re.escape(n) + "$"] = h
    ps, E = explore(F, f, [A], intr=I, inline=lambda i, d: i in mod or "{closure" in i and F.fns[i].parent in mod, loop_visits=defs + 2, max_paths=max_paths)
    return f, ps, an, E
