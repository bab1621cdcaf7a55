"""Passes over the syntax tree, one node at a time: the function that handles a node is explored on every form of node, its children
being parameters; handing a child (or a term holding it) to a function that takes syntax is a visit, an event with the function called."""
from .exec_model import *
from . import maps

class Syntax:
    """types of syntax: nodes, and references, boxes, options, slices and vectors of them (not tables that hold nodes)"""
    rx = re.compile(r"ast::(Statement|Expression|Access|LogArgument)\b")

    def search(self, ty): return None if re.search(r"environment::|collections::|[mM]ap<", ty) else self.rx.search(ty)


AST = Syntax()


def children(F, kind, variant, n=2, prefix=None, els=True, access=None, **over):
    """(term, {name: child}) of a Statement or Expression of the given form: children are parameters c.<field>"""
    i = adt_id(F, kind); v = next((x for x in F.adts[i]["variants"] if x[0] == variant), None)
    if v is None: raise Anchor("%s::%s" % (kind, variant))
    p = (prefix + "." if prefix else "") + "c."
    kids, vals = {}, {}

    def child(name): t = PARAM(p + name); kids[name] = t; return t
    for f in v[2]:
        name, ty = f[0], f[1]
        if name in over: vals[name] = over[name]; continue
        core = re.sub(r"[\w]+::", "", ty)
        if core in ("Expression", "Statement", "Box<Expression>", "Box<Statement>"): vals[name] = child(name)
        elif core == "Option<Box<Statement>>": vals[name] = SOME(child(name)) if els else NONE
        elif core in ("Vec<Expression>", "Vec<Statement>"): vals[name] = mk("array", *[child("%s%d" % (name, k)) for k in range(n)])
        elif core == "Vec<Access>":
            A = adt_id(F, "Access")
            acc = access if access is not None else "A.A"
            vals[name] = mk("array", *[ADT(A, "ArrayAccess", (("0", child("%s%d" % (name, k))),)) if c == "A" else ADT(A, "ComponentAccess", (("0", STR("field")),)) for k, c in enumerate(acc)])
        elif core == "Vec<LogArgument>":
            A = adt_id(F, "LogArgument")
            vals[name] = mk("array", ADT(A, "LogExp", (("0", child(name + "0")),)), ADT(A, "LogStr", (("0", STR("text")),)), ADT(A, "LogExp", (("0", child(name + "1")),)))
        else: vals[name] = PARAM(p + name)
    return ADT(i, variant, tuple((f[0], vals[f[0]]) for f in v[2])), kids


def syntax_fns(F, rx):
    """functions of the modules matching rx that take syntax"""
    return [g for g in F.fns.values() if re.search(rx, g.id) and "{closure" not in g.id and any(AST.search(g.locals[i + 1][0]) for i in range(g.nargs))]


class Visits:
    def __init__(self, F, rx, intr=None, stop=(), result=None, loop_visits=5, max_paths=4000, inline=None):
        self.F, self.rx, self.stop, self.lv, self.mp = F, rx, stop, loop_visits, max_paths
        self.fns = {g.id: g for g in syntax_fns(F, rx)}
        self.result = result
        self.inline = inline
        self.I = {**maps.intrinsics(), r"Report::(error|warning)$": self._report, r"Report::add_\w+$": lambda E, st, name, args, fn, line: [(st, UNIT)],
                  r"Meta::get_\w+$|file_definition::generate_file_location$|ast::\w+::get_meta$": pure(lambda *a: mk("meta", *a))}
        for n, g in self.fns.items(): self.I["^" + re.escape(n) + "$"] = self._visit
        self.I.update(intr or {})

    def _report(self, E, st, name, args, fn, line):
        c = E.deref(st, args[1]); k = "error" if name.endswith("error") else "warning"
        E.event(st, k, (c,), line, fn); return [(st, mk("report", STR(k), c, E.deref(st, args[0])))]

    def kids_in(self, t): return [x for x in self.kids.values() if contains(t, x)]

    def _visit(self, E, st, name, args, fn, line):
        g = self.fns[name]
        vals = tuple(E.deref(st, a) for a in args)
        hit = [v for i, v in enumerate(vals) if AST.search(g.locals[i + 1][0])]
        hit = [v for v in hit if v is self.root or self.kids_in(v)]             # syntax that is not of this node is context
        full = [v for v in hit if v is self.root]
        if full or not any(self.kids_in(v) for v in hit): return NotImplemented
        if any(AST.search(g.locals[i + 1][0]) and not re.search(r"ast::(Statement|Expression)\b", g.locals[i + 1][0]) for i in range(g.nargs)): return NotImplemented
        # a helper given several parts of this node, or a list of them, is part of the handling of this node; a single child is visited
        if not (len(hit) == 1 and hit[0] in self.kids.values()): return NotImplemented
        if self.inline is not None and self.inline(name, hit[0]): return NotImplemented
        ret = g.locals[0][0]
        if self.result is not None:
            x = self.result(E, st, name, hit[0], vals, ret)
            if x is not None:
                out = []
                for s, v in x: E.event(s, "visit", (hit[0], STR(name)) + vals, line, fn); out.append((s, v))
                return out
        E.event(st, "visit", (hit[0], STR(name)) + vals, line, fn)
        for i, a in enumerate(args):
            if a.op == "ref" and g.locals[i + 1][0].startswith("&mut ") and AST.search(g.locals[i + 1][0]):
                E.write_loc(st, a.a[0], a.a[1], mk("after", STR(name), hit[0]))
        if ret == "()": return [(st, UNIT)]
        if ret == "bool":
            s2 = st.fork(); st.cond = (st.cond, ("child", hit[0], True)); s2.cond = (s2.cond, ("child", hit[0], False))
            return [(st, TRUE), (s2, FALSE)]
        m = re.match(r"core::result::Result<(.*)>$", ret)
        if m:
            s2 = st.fork(); E.event(s2, "failed", (hit[0], STR(name)), line, fn)
            return [(st, OK(UNIT if m.group(1).startswith("(),") else mk("res", STR(name), hit[0]))), (s2, ERR(mk("err", STR(name), hit[0])))]
        return [(st, mk("res", STR(name), hit[0]))]

    def run(self, fn, kind, variant, args=None, **over):
        """[P] of fn on a node; args: {parameter name: term} for the other parameters (default: parameters p.<name>)"""
        F = self.F; f = F.find(fn) if isinstance(fn, str) else fn
        kw = {k: over.pop(k) for k in ("n", "els", "access") if k in over}
        self.root, self.kids = children(F, kind, variant, **kw, **over)
        vals = []; done = False
        st = St()
        for i in range(f.nargs):
            ty, nm = f.locals[i + 1][0], f.locals[i + 1][1]
            if not done and re.search(r"^(&(mut )?)?[\w:]*\b%s$" % kind, ty):
                done = True; v = self.root
            else: v = (args or {}).get(nm, PARAM("p.%s" % nm))
            if ty.startswith("&mut "):
                root = ("H", "arg", i); st.mem[root] = v; v = mk("ref", root, ())
            vals.append(v)
        if not done: raise Anchor("%s does not take a %s" % (f.id, kind))
        ps, E = explore(F, f, vals, intr=self.I, stop=self.stop, st=st, loop_visits=self.lv, max_paths=self.mp, rec=2)
        self.E = E
        return ps, self.kids

    def arg(self, p, i): return p.st.mem.get(("H", "arg", i))


def visited(p, names=None): return [e[1][0] for e in p.events("^visit$") if names is None or re.search(names, e[1][1].a[0])]
