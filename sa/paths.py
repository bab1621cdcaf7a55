"""Path summaries: one abstract path of a function, its decisions, effects and result."""
import re
from .ev import *
from . import iters


class P:
    def __init__(self, E, st, v):
        self.E, self.st, self.v = E, st, E.deref(st, v) if isinstance(v, T) and v.op == "ref" else v
        self.conds = st.conds(); self.evs = st.events()

    def events(self, rx): return [e for e in self.evs if re.search(rx, e[0])]

    def variant(self):
        return self.E.variant(self.st, self.v) if isinstance(self.v, T) else None

    def is_(self, term, var):
        """was `term` decided to be (True) / not to be (False) the variant; None when not decided on this path"""
        for c in self.conds:
            if c[0] == "is" and c[1] is term: return c[2] == var
        return None

    def bools(self, pred):
        """[(term, value)] of boolean decisions whose term satisfies pred"""
        out = []
        for c in self.conds:
            if c[0] == "bool":
                t, v = c[1], c[2]
                if t.op == "not": t, v = t.a[0], not v
                if pred(t): out.append((t, v))
        return out

    def mem(self, root_param, field):
        """final value of field `field` of the object behind parameter root_param"""
        v = self.st.mem.get(("T", root_param))
        if v is None: v = root_param
        return getf(v, field)

    def show(self):
        o = []
        for c in self.conds:
            if c[0] == "loop": continue
            o.append(" ".join(show(x)[:60] if isinstance(x, T) else str(x) for x in c))
        return "; ".join(o)[:400]


def contains(t, sub):
    """does the term contain sub (a term, or a predicate)"""
    p = sub if callable(sub) else (lambda x: x is sub)
    seen = set(); w = [t]
    while w:
        x = w.pop()
        if isinstance(x, T):
            if id(x) in seen: continue
            seen.add(id(x))
            if p(x): return True
            w.extend(x.a)
        elif isinstance(x, tuple): w.extend(x)
    return False


def subterms(t):
    seen = set(); w = [t]
    while w:
        x = w.pop()
        if isinstance(x, T):
            if id(x) in seen: continue
            seen.add(id(x)); yield x
            w.extend(x.a)
        elif isinstance(x, tuple): w.extend(x)


def explore(F, fn, args, stop=(), track=(), intr=None, st=None, **kw):
    """[P] for every abstract path; stop/track: regexes on callee names"""
    f = F.find(fn) if isinstance(fn, str) else fn
    I = dict(intr or {}); I.update(iters.intrinsics())
    sr = re.compile("|".join(stop)) if stop else None
    tr = re.compile("|".join(track)) if track else None
    E = Ev(F, stop=(lambda n: sr.search(n) is not None) if sr else None, track=(lambda n: tr.search(n) is not None) if tr else None, intrinsics=I, **kw)
    out = [P(E, s, v) for s, v in E.call_fn(f, args, st)]
    return out, E


def oracle(outcomes, bad=lambda r: r.op == "adt" and r.a[1] == "Err", most=0):
    """intrinsic replacing a call by a choice of outcomes; the call is recorded as an event.
    outcomes: list of terms, or callable(args) -> list of terms; an outcome satisfying `bad` is remembered as a failed step"""
    def h(E, st, name, args, fn, line):
        vals = tuple(E.deref(st, a) for a in args)
        res = outcomes(vals) if callable(outcomes) else outcomes
        if most:                                    # at most `most` calls are followed on one path (longer paths are dropped)
            n = st.mem.get(("G", "calls", name), INT(0)).a[0]
            if n >= most: return []
            st.mem[("G", "calls", name)] = INT(n + 1)
        out = []
        for r in res:
            s = st.fork() if len(res) > 1 else st
            E.event(s, name, vals, line, fn)
            if bad(r):
                g = s.mem.get(("G", "failed"), mk("array"))
                s.mem[("G", "failed")] = mk("array", *(g.a + (PARAM(name.rsplit("::", 1)[-1]),)))
            out.append((s, r))
        return out
    return h


def failed_steps(p):
    """names of the oracle steps that answered with a failure on this path"""
    g = p.st.mem.get(("G", "failed"))
    return [t.a[0] for t in g.a] if g is not None else []


def report_code(t):
    """ReportCode of a Report term"""
    c = getf(t, "error_code")
    return c.a[1] if c.op == "adt" else None


def path_intrinsics():
    """file names: PathBuf as a list of components"""
    def new(E, st, name, args, fn, line): return [(st, mk("path"))]

    def push(E, st, name, args, fn, line):
        a, b = E.deref(st, args[0]), E.deref(st, args[1])
        E.store_through(st, args[0], join(a, b)); return [(st, UNIT)]

    def join(a, b):
        if a.op == "path" and not a.a: return b
        return mk("path", *((a.a if a.op == "path" else (a,)) + (b,)))

    def jn(E, st, name, args, fn, line): return [(st, join(E.deref(st, args[0]), E.deref(st, args[1])))]

    def pop(E, st, name, args, fn, line):
        a = E.deref(st, args[0])
        E.store_through(st, args[0], mk("parent", a)); return [(st, TRUE)]

    def parent(E, st, name, args, fn, line): return [(st, SOME(mk("parent", E.deref(st, args[0]))))]

    def canon(E, st, name, args, fn, line):
        a = E.deref(st, args[0])
        s2 = st.fork()
        t = mk("canon", a)
        st.cond = (st.cond, ("is", t, "Ok")); s2.cond = (s2.cond, ("is", t, "Err"))
        E.event(st, "canonicalize", (a,), line, fn); E.event(s2, "canonicalize", (a,), line, fn)
        return [(st, OK(t)), (s2, ERR(mk("ioerr", a)))]
    return {r"PathBuf::new$": new, r"PathBuf::push$": push, r"Path::join$": jn, r"PathBuf::pop$": pop, r"Path::parent$": parent,
            r"(fs|Path)::canonicalize$": canon}
