"""Diagnostics as linear values: over MIR, an error report that was created has to be returned as an error, or stored where the caller
finds it, or printed before failing; it is never dropped on a path that goes on normally nor handed on as a warning.
Path-sensitive typestate with small states (per object: variant, level 0 no report / 1 at most warnings / 2 an error) and summaries."""
import re
from .mir import cname

REP = r"program_structure::program_library::error_definition::Report(?![\w])"
TWO = {"Option": {0: "None", 1: "Some"}, "Result": {0: "Ok", 1: "Err"}, "ControlFlow": {0: "Continue", 1: "Break"}}
PAIR = {"None": "Some", "Some": "None", "Ok": "Err", "Err": "Ok", "Continue": "Break", "Break": "Continue"}


def base(ty): return re.split(r"[<]", ty)[0].rsplit("::", 1)[-1]


class Diag:
    LIMIT = 400           # states per block; beyond it they are joined

    def __init__(self, F):
        self.F = F
        self.hold = set()
        ch = True
        while ch:
            ch = False
            rx = self._mk()
            for i, a in F.adts.items():
                if i not in self.hold and not i.endswith("error_definition::Report") and any(rx.search(x[1]) for v in a["variants"] for x in v[2]):
                    self.hold.add(i); ch = True
        self._rx = self._mk()
        self._ho = {}; self._clos = None
        self.ids = {f.id for f in F.fns.values() if not f.derived and f.kind in ("fn", "closure") and any(self._rx.search(l[0]) for l in f.locals)}
        ch = True
        while ch:                                   # closures that capture reports through references have no such local themselves
            ch = False
            for f in F.fns.values():
                if f.id in self.ids or f.kind != "closure": continue
                if any(self._rx.search(str(u)) for u in (f.upvars or [])): self.ids.add(f.id); ch = True
        cg = F.callgraph()                          # who calls a function that prints or returns reports
        for f in F.fns.values():
            if f.kind == "fn" and not f.derived and f.crate == "circom" and "core::result::Result<" in f.locals[0][0] and cg[f.id] & self.ids: self.ids.add(f.id)
        for f in F.fns.values():
            if f.kind == "fn" and not f.derived and f.crate == "circom" and cg[f.id] & self.ids: self.ids.add(f.id)
        self.crates = {f.crate for f in F.fns.values()}
        self._refs = {}; self._res = {}; self._live = {}
        self.memo = {}       # (id, args) -> set of exits
        self.deps = {}       # key -> keys that used it
        self.queue = []
        self.flags = {}      # (id) -> set of flags at creation (messages)
        self.over = set()

    def _mk(self): return re.compile("|".join([REP] + [r"(?<![\w:])" + re.escape(h) + r"(?![\w])" for h in sorted(self.hold)]))

    def has(self, ty):
        v = self._ho.get(ty)
        if v is None: v = self._ho[ty] = self._rx.search(ty) is not None or self.lazy(ty)
        return v

    def lazy(self, ty):
        """an iterator adaptor whose closure makes reports"""
        if "{closure@" not in ty or ty.startswith(("&", "{closure")): return False
        if self._clos is None:
            self._clos = {}
            for f in self.F.fns.values():
                for b in f.bbs:
                    for s in b["s"]:
                        if s[1][0] == "agg" and s[1][1] == "closure" and len(s[0]) == 1: self._clos[f.locals[s[0][0]][0]] = s[1][2]
        return any(t in ty and i in self.F.fns and self._rx.search(self.F.fns[i].locals[0][0]) for t, i in self._clos.items())

    def own(self, f, l):
        t = f.locals[l][0]
        return not t.startswith(("&", "*", "core::option::Option<&", "{closure")) and self.has(t)

    def isres(self, f, l):
        r = self._res.get(f.id)
        if r is None: r = self._res[f.id] = self.resset(f)
        return l in r

    def resset(self, f):
        """Result/Option locals whose variant matters: those that hold reports, and those that reach the returned value"""
        def two(l): return base(f.locals[l][0]) in TWO and not f.locals[l][0].startswith("&")
        r = {l for l in range(len(f.locals)) if two(l) and (self.has(f.locals[l][0]) or l == 0)}
        for b in f.bbs:
            t = b["t"]
            if t[0] == "call" and len(t[3]) == 1 and two(t[3][0]) and t[1][0] == "c" and any(x in self.ids for x in self.F.callee_ids(t[1][1])) \
               and any(a[0] in ("cp", "mv") and f.locals[a[1][0]][0].startswith("&mut") and self.has(f.locals[a[1][0]][0]) for a in t[2]): r.add(t[3][0])
        tups = set()
        ch = True
        while ch:
            ch = False
            def add(x):
                nonlocal ch
                if x not in r and two(x): r.add(x); ch = True
            for b in f.bbs:
                for pl, rv, *_ in b["s"]:
                    if len(pl) == 1 and pl[0] in r and rv[0] == "use" and rv[1][0] in ("cp", "mv"):
                        add(rv[1][1][0])
                        if f.locals[rv[1][1][0]][0].startswith("(") and rv[1][1][0] not in tups: tups.add(rv[1][1][0]); ch = True
                    if len(pl) == 1 and pl[0] in tups and rv[0] == "agg" and rv[1] == "tuple":
                        for o in ops(rv): add(o[1][0])
                    if len(pl) == 1 and pl[0] in tups and rv[0] == "use" and rv[1][0] in ("cp", "mv") and rv[1][1][0] not in tups and len(rv[1][1]) == 1: tups.add(rv[1][1][0]); ch = True
                    if len(pl) == 1 and rv[0] == "use" and rv[1][0] in ("cp", "mv") and rv[1][1][0] in r: add(pl[0])
                t = b["t"]
                if t[0] == "call" and t[3][0] in r and (cname(t[1][1] if t[1][0] == "c" else None) or "").rsplit("::", 1)[-1] in ("branch", "from_residual", "map", "map_err", "and_then", "ok_or", "or_else"):
                    for a in t[2]:
                        if a[0] in ("cp", "mv"): add(a[1][0])
        return r

    # ------------------------------------------------------------------ references
    def refs(self, f):
        r = self._refs.get(f.id)
        if r is not None: return r
        refs = {}
        for i in range(1, f.nargs + 1):
            t = f.locals[i][0]
            if (t.startswith(("&", "core::option::Option<&")) and self.has(t)) or (f.kind == "closure" and i == 1): refs[i] = i
        capt = {}
        ch = True
        while ch:
            ch = False
            for b in f.bbs:
                if b.get("cl"): continue
                for pl, rv, *_ in b["s"]:
                    if len(pl) != 1: continue
                    if rv[0] == "agg" and rv[1] == "closure":
                        rs = {refs[o[1][0]] for o in ops(rv) if o[1][0] in refs}
                        if rs - capt.get(pl[0], set()): capt.setdefault(pl[0], set()).update(rs); ch = True
                        continue
                    if pl[0] in refs: continue
                    src = None
                    if rv[0] in ("ref", "rawptr", "addr"): src = next((x for x in rv[1:] if isinstance(x, list) and x and isinstance(x[0], int)), None)
                    elif rv[0] in ("use", "cast") and isinstance(rv[1], list) and rv[1][0] in ("cp", "mv"): src = rv[1][1]
                    if src is None: continue
                    if src[0] in capt and pl[0] not in capt: capt[pl[0]] = capt[src[0]]; ch = True
                    if not f.locals[pl[0]][0].startswith(("&", "*", "core::option::Option<&")): continue
                    t = None
                    if self.trackable(f, src[0]):
                        if rv[0] not in ("use", "cast") and self.touches(f, src): t = src[0]
                    else: t = refs.get(src[0]) if self.touches(f, src) else None
                    if t is not None: refs[pl[0]] = t; ch = True
                t = b["t"]
                if t[0] == "call" and len(t[3]) == 1 and t[3][0] not in refs and re.match(r"&|core::option::Option<&|\(&", f.locals[t[3][0]][0]) and self.has(f.locals[t[3][0]][0]):
                    for a in t[2]:
                        if a[0] in ("cp", "mv") and a[1][0] in refs: refs[t[3][0]] = refs[a[1][0]]; ch = True; break
        self._refs[f.id] = (refs, capt)
        return refs, capt

    def trackable(self, f, l): return self.own(f, l) or self.isres(f, l)

    def touches(self, f, place):
        last = place[-1]
        if len(place) > 1 and isinstance(last, list) and last[0] == "f" and last[3] in self.hold:
            a = self.F.adts.get(last[3])
            return any(self.has(x[1]) for v in a["variants"] for x in v[2] if x[0] == last[2])
        return True

    # ------------------------------------------------------------------ summaries
    def entry(self, f, args): return (f.id, tuple(args))

    def need(self, key, by):
        if by is not None: self.deps.setdefault(key, set()).add(by)
        if key not in self.memo:
            self.memo[key] = frozenset(); self.queue.append(key)
        return self.memo[key]

    def solve(self, roots):
        for k in roots: self.need(k, None)
        n = 0
        while self.queue:
            k = self.queue.pop(); n += 1
            if n > 60000: break
            new = self.analyse(k)
            if new != self.memo[k]:
                self.memo[k] = new
                for d in self.deps.get(k, ()):
                    if d not in self.queue: self.queue.append(d)
        self.steps = n

    def default(self, f):
        return self.entry(f, [(None, 0)] * f.nargs)

    def analyse(self, key):
        """set of (ret variant, ret level, exit levels of the reference parameters, flags)"""
        fid, args = key
        f = self.F.fns[fid]
        refs, capt = self.refs(f)
        st = {}
        for i in range(1, f.nargs + 1):
            if refs.get(i) == i or self.trackable(f, i): st[i] = args[i - 1]
        start = frozenset(st.items()), frozenset()
        live = self.live(f, refs, capt)
        seen = {0: {start}}; work = [(0, start)]; out = set()
        while work:
            bb, s = work.pop()
            for j, s2 in self.block(f, key, bb, dict(s[0]), set(s[1]), refs, capt):
                if j == "ret":
                    d, fl = s2
                    out.add((d.get(0, (None, 0)), tuple((d.get(i, (None, 0))[1] if refs.get(i) == i else 0) for i in range(1, f.nargs + 1)), frozenset(fl)))
                    continue
                if j is None: continue
                lv = live[j]
                fr = (frozenset((k, v) for k, v in s2[0].items() if v != (None, 0) and (k in lv or v[1] == 2 or refs.get(k) == k or k == 0)), frozenset(s2[1]))
                S = seen.setdefault(j, set())
                if fr in S: continue
                if len(S) > self.LIMIT:
                    self.over.add(fid)
                    a = {}
                    for d, _ in S | {fr}:
                        for k, v in d:
                            if k not in a: a[k] = v
                            else: a[k] = (a[k][0] if a[k][0] == v[0] else None, max(a[k][1], v[1]) if isinstance(v[1], int) and isinstance(a[k][1], int) else a[k][1])
                    fr = (frozenset(a.items()), frozenset().union(*[x for _, x in S | {fr}]))
                    if fr in S: continue
                S.add(fr); work.append((j, fr))
        return frozenset(out)

    def live(self, f, refs, capt):
        r = self._live.get(f.id)
        if r is None:
            r = []
            for s in f.live_in():
                x = set(s)
                for l in s:
                    if l in refs: x.add(refs[l])
                    x |= set(capt.get(l, ()))
                r.append(x)
            self._live[f.id] = r
        return r

    def block(self, f, key, bb, st, fl, refs, capt):
        b = f.bbs[bb]
        for s in b["s"]: self.stmt(f, s, st, refs)
        t = b["t"]; k = t[0]
        if k == "ret": yield "ret", (st, fl); return
        if k == "goto": yield t[1], (st, fl); return
        if k == "assert": yield t[3], (st, fl); return
        if k == "drop":
            l = t[1][0]
            if self.own(f, l) and st.get(l, (None, 0))[1] == 2 and len(t[1]) == 1:
                fl.add(("dropped", f.id, f.locals[l][1] or base(f.locals[l][0]))); st[l] = (st[l][0], 0)
            yield t[2], (st, fl); return
        if k == "sw": yield from self.switch(f, t, st, fl, refs); return
        if k == "call": yield from self.call(f, key, t, st, fl, refs, capt)

    def root(self, f, place, refs):
        l = place[0]
        if self.trackable(f, l): return l
        return refs.get(l)

    def switch(self, f, t, st, fl, refs):
        d = t[1][1][0] if t[1][0] in ("cp", "mv") and len(t[1][1]) == 1 else None
        v = st.get(d)
        cases = [(int(x[0]), x[1]) for x in t[2]] + [(None, t[3])]
        if v is not None and v[0] == "b":
            for val, j in cases:
                if val is not None and bool(val) == v[1] or val is None and all(bool(x) != v[1] for x, _ in cases[:-1]): yield j, (dict(st), set(fl)); return
            return
        if v is not None and v[0] == "disc":
            r, nm = v[1], TWO.get(v[2])
            cur = st.get(r, (None, 0))
            for val, j in cases:
                if nm is None: yield j, (dict(st), set(fl)); continue
                if val is not None: vs = [nm.get(val)]
                else: vs = [n for i, n in nm.items() if i not in [x for x, _ in cases[:-1]]]
                for n in vs:
                    if cur[0] is not None and n != cur[0]: continue
                    s2 = dict(st); s2[r] = (n, 0 if n == "None" else cur[1])
                    yield j, (s2, set(fl))
            return
        for val, j in cases: yield j, (dict(st), set(fl))

    def stmt(self, f, s, st, refs):
        pl, rv = s[0], s[1]
        l0 = pl[0]
        if rv[0] == "disc":
            r = self.root(f, rv[1], refs)
            if r is not None and base(f.locals[r][0].lstrip("&").replace("mut ", "")) in TWO and (len(rv[1]) == 1 or self.deref(rv[1]) and len(rv[1]) == 2):
                st[l0] = ("disc", r, base(rv[2]) if len(rv) > 2 else base(f.locals[r][0]))
            else: st.pop(l0, None)
            return
        if rv[0] in ("ref", "rawptr", "addr"): return
        if rv[0] == "agg" and rv[1] == "closure": return
        os_ = list(ops(rv))
        names = [x for x in rv[1:] if isinstance(x, str)]
        if f.locals[l0][0] == "bool" and len(pl) == 1:
            st.pop(l0, None)
            if rv[0] == "use" and rv[1][0] == "c" and rv[1][1].get("k") == "int": st[l0] = ("b", bool(int(rv[1][1]["v"]))) if self.interesting(f, l0) else None
            elif len(os_) == 1 and rv[0] == "use" and os_[0][1][0] in st and len(os_[0][1]) == 1: st[l0] = st[os_[0][1][0]]
            elif len(os_) == 1 and "Not" in names + [rv[0]]:
                v = st.get(os_[0][1][0])
                if v and v[0] == "b": st[l0] = ("b", not v[1])
            elif names and names[0] in ("Eq", "Ne", "Gt", "Lt", "Ge", "Le"):
                sides = [x for x in rv[1:] if isinstance(x, list)]
                if len(sides) == 2:
                    v = [self.num(x, st) for x in sides]
                    if None not in v:
                        lo, hi = v
                        r = self.cmp(names[0], lo, hi)
                        if r is not None: st[l0] = ("b", r)
            if st.get(l0, 0) is None: st.pop(l0)
            return
        if f.locals[l0][0] == "usize" and rv[0] == "use" and os_ and len(pl) == 1:
            v = st.get(os_[0][1][0]); st.pop(l0, None)
            if v is not None and len(os_[0][1]) == 1: st[l0] = v
            return
        lev = 0; var = None; known = False
        for o in os_:
            l = o[1][0]
            if self.trackable(f, l):
                v = st.get(l, (None, 0))
                if not isinstance(v[1], int): continue
                if self.touches(f, o[1]):
                    lev = max(lev, v[1])
                    if len(o[1]) == 1 and rv[0] == "use": var = v[0]; known = True
                    if o[0] == "mv" and not self.deref(o[1]): st[l] = (v[0], 0)
            elif refs.get(l) is not None and self.deref(o[1]) and self.touches(f, o[1]):
                v = st.get(refs[l], (None, 0)); lev = max(lev, v[1])
        if rv[0] == "agg" and rv[1] == "tuple":                       # (reports, Err(())): the variant travels with the tuple
            vs = {st[o[1][0]][0] for o in os_ if self.isres(f, o[1][0]) and o[1][0] in st and len(o[1]) == 1}
            if len(vs) == 1: var = vs.pop()
        if rv[0] == "use" and os_ and len(os_[0][1]) > 1 and self.isres(f, l0) and f.locals[os_[0][1][0]][0].startswith("(") and os_[0][1][0] in st: var = st[os_[0][1][0]][0]
        if rv[0] == "agg" and rv[1] == "adt":
            if base(rv[2]) in TWO: var = rv[3]
            if rv[2].endswith("error_definition::Report"): lev = max(lev, 1)
        self.assign(f, st, pl, (var, lev), refs)

    _int = None

    def interesting(self, f, l): return True

    def num(self, x, st):
        """(low, high or None) of an operand"""
        if x[0] == "c" and x[1].get("k") == "int": return (int(x[1]["v"]),) * 2
        if x[0] in ("cp", "mv") and len(x[1]) == 1:
            v = st.get(x[1][0])
            if v is not None and v[0] == "n": return (0, 0) if v[1] == 0 else (1, None)
        return None

    @staticmethod
    def cmp(op, a, b):
        (al, ah), (bl, bh) = a, b
        inf = 1 << 64
        ah = inf if ah is None else ah; bh = inf if bh is None else bh
        if op == "Ne":
            r = Diag.cmp("Eq", a, b); return None if r is None else not r
        if op == "Eq": return True if al == ah == bl == bh else False if ah < bl or bh < al else None
        if op == "Lt": return True if ah < bl else False if al >= bh else None
        if op == "Ge":
            r = Diag.cmp("Lt", a, b); return None if r is None else not r
        if op == "Gt": return Diag.cmp("Lt", b, a)
        if op == "Le":
            r = Diag.cmp("Lt", b, a); return None if r is None else not r

    @staticmethod
    def deref(place): return "*" in place[1:]

    def assign(self, f, st, pl, val, refs):
        l = pl[0]
        if self.trackable(f, l):
            if len(pl) == 1: st[l] = val if self.own(f, l) else (val[0], val[1] if self.own(f, l) else 0)
            elif self.touches(f, pl):
                o = st.get(l, (None, 0)); st[l] = (o[0], max(o[1], val[1]))
        elif refs.get(l) is not None and self.deref(pl) and self.touches(f, pl):
            r = refs[l]; o = st.get(r, (None, 0)); st[r] = (o[0], max(o[1], val[1]))

    # ------------------------------------------------------------------ calls
    def call(self, f, key, t, st, fl, refs, capt):
        c = t[1][1] if t[1][0] == "c" else None
        n = cname(c) or ""; p = (c or {}).get("p", "") or ""
        last = p.rsplit("::", 1)[-1]
        dest, nxt = t[3], t[4]
        if nxt is None: return
        d = dest[0]
        A = []
        for a in t[2]:
            if a[0] not in ("cp", "mv"): A.append(("c", None, (None, 0), a)); continue
            l = a[1][0]
            if self.trackable(f, l):
                v = st.get(l, (None, 0))
                if not isinstance(v[1], int): v = (None, 0)
                if len(a[1]) > 1: v = (None, v[1] if self.touches(f, a[1]) else 0)
                A.append(("own", l, v, a))
            elif refs.get(l) is not None and not (l in capt): A.append(("ref", refs[l], st.get(refs[l], (None, 0)), a))
            else: A.append(("x", l, (None, 0), a))

        def consume(s):
            for kind, l, v, a in A:
                if kind == "own" and a[0] == "mv" and not self.deref(a[1]) and self.touches(f, a[1]):
                    o = s.get(l, (None, 0)); s[l] = (o[0], 0)

        def setlev(s, r, lev):
            o = s.get(r, (None, 0)); s[r] = (o[0], lev)

        def go(s, val, flags=()):
            s = dict(s); g = set(fl) | set(flags)
            if val is not None:
                if f.locals[d][0] == "bool" and len(dest) == 1:
                    s.pop(d, None)
                    if val[0] == "b": s[d] = val
                elif val[0] == "n": s[d] = val
                else: self.assign(f, s, dest, val, refs)
            return nxt, (s, g)
        consume(st)
        isr = len(dest) == 1 and self.isres(f, d)
        if len(dest) == 1: st.pop(d, None) if not self.trackable(f, d) else None
        # --- constructors and printing
        if re.search(r"Report::error$", n): yield go(st, (None, 2)); return
        if re.search(r"Report::warning$", n): yield go(st, (None, 1)); return
        if re.search(r"Report::print_reports$", n):
            lev = max([v[1] for k, l, v, a in A] or [0])
            for k, l, v, a in A:
                if k == "ref": setlev(st, l, 0)
            yield go(st, (None, 0), [("printed", f.id, "")] if lev == 2 else []); return
        if last == "exit" and "process" in p: return
        ids = [x for x in self.F.callee_ids(c) if x in self.ids]
        if ids:
            for x in ids:
                g = self.F.fns[x]
                if g.kind == "closure": args = [(None, 0)] * g.nargs
                else: args = [A[i][2] if i < len(A) and (self.trackable(g, i + 1) or self.refs(g)[0].get(i + 1) == i + 1) else (None, 0) for i in range(g.nargs)]
                args = [(v[0] if self.isres(g, i + 1) else None, v[1]) for i, v in enumerate(args)]
                for ret, exits, flags in self.need(self.entry(g, args), key):
                    s = dict(st)
                    for i, (k, l, v, a) in enumerate(A):
                        if k == "ref" and i < g.nargs and self.refs(g)[0].get(i + 1) == i + 1: setlev(s, l, exits[i])
                    yield go(s, ret, flags)
            return
        if not [x for x in self.F.callee_ids(c) if x in self.F.fns] and re.match(r"<?(%s)::" % "|".join(sorted(self.crates)), n):
            for k, l, v, a in A:                    # a function of the repository without a body here (the generated parser): it may report errors
                if k == "ref" and f.locals[a[1][0]][0].startswith("&mut") and self.has(f.locals[a[1][0]][0]): setlev(st, l, 2)
        # --- library code
        recv = A[0] if A else None
        if last in ("is_empty", "is_none", "is_some", "is_ok", "is_err", "len") and recv and recv[0] in ("own", "ref"):
            r = recv[1]; var, lev = st.get(r, (None, 0))
            if last in ("is_ok", "is_err", "is_none", "is_some"):
                good = {"is_ok": "Ok", "is_err": "Err", "is_none": "None", "is_some": "Some"}[last]
                for vv in ([var] if var is not None else [good, PAIR[good]]):
                    s = dict(st); s[r] = (vv, 0 if vv == "None" else lev)
                    yield go(s, ("b", vv == good))
                return
            s = dict(st); s[r] = (var, 0)
            yield go(s, ("b", True) if last == "is_empty" else ("n", 0))
            # not empty: may hold anything if unknown
            yield go(dict(st), ("b", False) if last == "is_empty" else ("n", 1)) if lev or not self.certain(f, r) else go(dict(st), ("b", False) if last == "is_empty" else ("n", 1))
            return
        if last == "append" and len(A) == 2 and A[1][0] == "ref":
            if A[0][0] == "ref": setlev(st, A[0][1], max(A[0][2][1], A[1][2][1]))
            setlev(st, A[1][1], 0)
            yield go(st, (None, 0)); return
        if re.search(r"mem::(take|replace)$", n) and A and A[0][0] == "ref":
            setlev(st, A[0][1], A[1][2][1] if len(A) > 1 else 0)
            yield go(st, A[0][2]); return
        if re.search(r"mem::swap$", n) and len(A) == 2:
            for x, y in ((0, 1), (1, 0)):
                if A[x][0] == "ref": setlev(st, A[x][1], A[y][2][1])
            yield go(st, (None, 0)); return
        if re.search(r"mem::drop$", n):
            yield go(st, (None, 0), [("dropped", f.id, f.locals[A[0][3][1][0]][1] or base(f.locals[A[0][3][1][0]][0]))] if A and A[0][0] == "own" and A[0][2][1] == 2 else []); return
        if last in ("clear", "truncate") and recv and recv[0] == "ref":
            lev = recv[2][1]; setlev(st, recv[1], 0)
            yield go(st, (None, 0), [("cleared", f.id, "")] if lev == 2 else []); return
        # closures handed over
        clev, cflags, called = 0, set(), False
        before, strong = dict(st), {}
        cret = None
        for k, l, v, a in A:
            cid = None; envs = ()
            if k == "c" and a[1].get("k") in ("closure", "fn"):
                x = [y for y in self.F.callee_ids(a[1])]
                cid = x[0] if x and x[0] in self.ids else None
            elif k == "x":
                ty = f.locals[l][0]
                if "closure" in ty:
                    cid = self.closure_of(f, l); envs = capt.get(l, ())
            if cid is None or cid not in self.ids: continue
            called = True
            g = self.F.fns[cid]
            lv = max([x[2][1] for x in A if x[0] in ("own", "ref")] or [0])
            el = max([st.get(r, (None, 0))[1] for r in envs] or [0])
            args = [(None, el if g.kind == "closure" and i == 0 else lv if self.has(g.locals[i + 1][0]) else 0) for i in range(g.nargs)]
            for ret, exits, flags in self.need(self.entry(g, args), key):
                clev = max(clev, ret[1] if isinstance(ret[1], int) else 0)
                if not (last in ("map_err", "unwrap_or_else", "or_else") and all(x[0] == "printed" for x in flags)): cflags |= flags
                if g.kind == "closure":
                    if len(envs) == 1: strong[next(iter(envs))] = max(strong.get(next(iter(envs)), 0), exits[0])
                    for r in envs: setlev(st, r, max(st.get(r, (None, 0))[1], exits[0]))
        got = max([v[1] for k, l, v, a in A if k == "own"] or [0])
        allv = max([v[1] for k, l, v, a in A if k in ("own", "ref")] or [0])
        rv = recv[2] if recv else (None, 0)
        def ok_level(x): return x
        var = rv[0] if recv and recv[0] == "own" else None
        vs = [var] if var is not None else None
        if recv and recv[0] == "own" and base(f.locals[recv[3][1][0]][0]) in TWO and len(recv[3][1]) == 1:
            dom = list(TWO[base(f.locals[recv[3][1][0]][0])].values())
            vs = [var] if var is not None else dom
        lv = rv[1]
        if vs and last in ("map_err", "map", "branch", "unwrap", "expect", "ok", "err", "unwrap_or_default", "unwrap_or", "unwrap_or_else", "unwrap_err", "and_then", "from_residual",
                           "ok_or", "ok_or_else", "or_else", "and", "or", "transpose", "expect_err"):
            fname = (lambda l: [("dropped", f.id, "the error of a %s" % last)] if l == 2 else [])
            for v0 in vs:
                bad = v0 in ("Err", "None", "Break")
                l0 = 0 if v0 == "None" else lv
                s = dict(st)
                if last == "branch": yield go(s, ("Break" if bad else "Continue", l0))
                elif last == "from_residual": yield go(s, (v0 if v0 in ("Err", "None") else "Err", l0))
                elif last in ("unwrap", "expect"):
                    if not bad: yield go(s, (None, l0))
                elif last in ("unwrap_err", "expect_err"):
                    if bad: yield go(s, (None, l0))
                elif last == "map_err":
                    if not bad: yield go(dict(before), ("Ok", l0))
                    else:
                        for r, x in strong.items(): setlev(s, r, x)
                        yield go(s, ("Err", clev if called else 0 if not self.passes(f, A) else l0), cflags)
                elif last == "map": yield go(s, (v0, l0 if bad else clev if called else (l0 if self.has(f.locals[d][0]) else 0)), () if bad else cflags)
                elif last == "ok": yield go(s, ("None", 0) if bad else ("Some", l0), fname(l0) if bad else ())
                elif last == "err": yield go(s, ("Some", l0) if bad else ("None", 0))
                elif last in ("unwrap_or_default", "unwrap_or", "unwrap_or_else"):
                    yield go(s, (None, max(clev, max([x[2][1] for x in A[1:]] or [0]))) if bad else (None, l0), list(cflags) + fname(l0 if not called else 0) if bad else ())
                elif last in ("ok_or", "ok_or_else"): yield go(s, ("Err", max(clev, max([x[2][1] for x in A[1:]] or [0]))) if bad else ("Ok", l0))
                elif last == "and_then":
                    if bad: yield go(s, (v0, l0))
                    else:
                        yield go(s, (v0, clev), cflags); yield go(s, (PAIR[v0], clev), cflags)
                elif last in ("or_else", "or"):
                    if not bad: yield go(s, (v0, l0))
                    else:
                        yield go(s, ("Ok" if v0 == "Err" else "Some", clev), cflags); yield go(s, (v0, clev), cflags)
                else: yield go(s, (None, max(l0, clev)), cflags)
            return
        if recv and recv[0] == "ref" and last in ("pop", "remove", "swap_remove", "pop_front", "pop_back", "take", "drain", "next"):
            lev = recv[2][1]
            if last == "take": setlev(st, recv[1], 0)
        for k, l, v, a in A:
            if k == "ref" and last in ("push", "insert", "extend", "push_back", "push_front", "extend_from_slice", "append", "replace", "get_or_insert"):
                setlev(st, l, max(st.get(l, (None, 0))[1], got, clev, allv if last == "extend_from_slice" or last == "extend" else 0))
        lev = max(allv, clev) if re.search(r"clone|cloned|iter|vec|collect|next|from|into|pop|remove|drain|take|unzip|chain|filter|map|flat|sort|fold|concat|partition|first|last", last) else max(got, clev)
        if not self.has(f.locals[d][0]): lev = 0
        if isr and len(dest) == 1:
            nm = TWO[base(f.locals[d][0])]
            for v in nm.values():
                s = dict(st)
                if v == "None" and last in ("next", "pop", "pop_front", "pop_back") and recv and recv[0] == "ref": setlev(s, recv[1], 0)      # exhausted
                yield go(s, (v, 0 if v == "None" else lev), cflags)
            return
        yield go(st, (None, lev), cflags)

    def certain(self, f, r): return False

    def passes(self, f, A): return False

    def closure_of(self, f, l):
        seen = set()
        while l not in seen:
            seen.add(l)
            for b in f.bbs:
                for s in b["s"]:
                    if s[0] == [l]:
                        if s[1][0] == "agg" and s[1][1] == "closure": return s[1][2]
                        o = list(ops(s[1]))
                        if s[1][0] in ("use",) and o: l = o[0][1][0]
                        elif s[1][0] == "ref": l = next(x for x in s[1][1:] if isinstance(x, list))[0]
        return None


def ops(rv):
    for x in rv[1:]:
        if isinstance(x, list):
            if x and x[0] in ("cp", "mv") and len(x) == 2 and isinstance(x[1], list): yield x
            else:
                for y in x:
                    if isinstance(y, list) and len(y) == 2 and y[0] in ("cp", "mv") and isinstance(y[1], list): yield y
