"""Fact base: MIR of every workspace function, with CFG queries (dominance,
control conditions, must/may reachability) and call-graph queries."""
import json, os, pickle, re, sys
from collections import defaultdict
from . import extract

sys.setrecursionlimit(20000)


class Fn:
    __slots__ = ("id", "kind", "file", "line", "nargs", "locals", "upvars", "bbs", "derived", "vis",
                 "self_ty", "trait", "parent", "crate", "_succ", "_pred", "_dom", "_defs", "_reach")

    def __init__(self, r, crate):
        self.id = r["id"]; self.kind = r["kind"]; self.file = r["file"]; self.line = r["line"]
        self.nargs = r["nargs"]; self.locals = r["locals"]; self.upvars = r["upvars"]; self.bbs = r["bbs"]
        self.derived = r.get("derived", False); self.vis = r.get("vis"); self.self_ty = r.get("self")
        self.trait = r.get("trait"); self.parent = r.get("parent"); self.crate = crate
        self._succ = self._pred = self._dom = self._defs = self._reach = None

    # ---- CFG (unwind edges excluded; edges into cleanup blocks do not exist in the facts)
    def succ(self):
        if self._succ is None:
            s = []
            for b in self.bbs:
                t = b["t"]; k = t[0]
                if k == "goto": o = [t[1]]
                elif k == "sw": o = [x[1] for x in t[2]] + [t[3]]
                elif k == "call": o = [t[4]] if t[4] is not None else []
                elif k == "drop": o = [t[2]]
                elif k == "assert": o = [t[3]]
                else: o = []
                s.append(list(dict.fromkeys(o)))
            self._succ = s
        return self._succ

    def pred(self):
        if self._pred is None:
            p = [[] for _ in self.bbs]
            for i, o in enumerate(self.succ()):
                for j in o:
                    p[j].append(i)
            self._pred = p
        return self._pred

    def reachable(self):
        if self._reach is None:
            self._reach = self.reach_from([0])
        return self._reach

    def reach_from(self, starts, avoid=(), avoid_edges=()):
        avoid = set(avoid); avoid_edges = set(avoid_edges)
        seen = set(x for x in starts if x not in avoid); st = list(seen)
        while st:
            b = st.pop()
            for n in self.succ()[b]:
                if n not in seen and n not in avoid and (b, n) not in avoid_edges:
                    seen.add(n); st.append(n)
        return seen

    def returns(self):
        return [i for i in self.reachable() if self.bbs[i]["t"][0] == "ret"]

    def calls(self):
        """(bb, callee-const or None, args, dest, line) for reachable blocks"""
        for i in sorted(self.reachable()):
            t = self.bbs[i]["t"]
            if t[0] == "call":
                yield i, (t[1][1] if t[1][0] == "c" else None), t[2], t[3], t[5]

    def defs(self):
        """local -> list of (bb, idx, kind, payload) of whole-local definitions"""
        if self._defs is None:
            d = defaultdict(list)
            for i, b in enumerate(self.bbs):
                if b.get("cl"): continue
                for j, s in enumerate(b["s"]):
                    if len(s[0]) == 1:
                        d[s[0][0]].append((i, j, "rv", s[1]))
                t = b["t"]
                if t[0] == "call" and len(t[3]) == 1:
                    d[t[3][0]].append((i, -1, "call", t))
            self._defs = d
        return self._defs

    def name(self, l):
        return self.locals[l][1]

    def local_named(self, n):
        return [i for i, x in enumerate(self.locals) if x[1] == n]

    # edge-dominance: edges (b,s) every entry->target path crosses
    def control_edges(self, target):
        """switch edges that every path from entry to `target` must take (last-decision form):
        returns list of (switch_bb, set(succ taken))  where removing those succ edges makes target unreachable
        and at least one other succ of the switch avoids the target."""
        out = []
        for b in sorted(self.reachable()):
            t = self.bbs[b]["t"]
            if t[0] != "sw": continue
            ss = self.succ()[b]
            if len(ss) < 2: continue
            if target not in self.reach_from([0], avoid_edges=[(b, s) for s in ss]) or b == target:
                good = [s for s in ss if target in self.reach_from([s], avoid_edges=[(b, x) for x in ss])]
                if good and len(good) < len(ss):
                    out.append((b, tuple(good)))
        return out

    def live_in(self):
        """block -> locals that may be read before being overwritten (taking a reference counts as a read)"""
        use, dfs = [], []
        for b in self.bbs:
            u, d = set(), set()

            def rd(o):
                if isinstance(o, list) and o and o[0] in ("cp", "mv"): place(o[1], True)

            def place(p, read):
                for e in p[1:]:
                    if isinstance(e, list) and e[0] == "i" and e[1] not in d: u.add(e[1])
                if (read or len(p) > 1) and p[0] not in d: u.add(p[0])

            def rv(x):
                k = x[0]
                if k in ("ref", "len", "disc", "addr", "rawptr"):
                    for y in x[1:]:
                        if isinstance(y, list) and y and isinstance(y[0], int): place(y, True)
                for y in x[1:]:
                    if isinstance(y, list):
                        if y and y[0] in ("cp", "mv"): rd(y)
                        elif y and isinstance(y[0], int) and k not in ("ref", "len", "disc", "addr", "rawptr"): place(y, True)
                        else:
                            for z in y: rd(z)
            for s in b["s"]:
                rv(s[1])
                place(s[0], False)
                if len(s[0]) == 1: d.add(s[0][0])
            t = b["t"]
            if t[0] == "sw": rd(t[1])
            elif t[0] == "assert": rd(t[1])
            elif t[0] == "call":
                rd(t[1])
                for a in t[2]: rd(a)
                place(t[3], False)
                if len(t[3]) == 1: d.add(t[3][0])
            elif t[0] == "ret": u.add(0)
            use.append(u); dfs.append(d)
        live = [set() for _ in self.bbs]
        ch = True
        while ch:
            ch = False
            for i in range(len(self.bbs) - 1, -1, -1):
                o = set()
                for j in self.succ()[i]: o |= live[j]
                n = use[i] | (o - dfs[i])
                if n != live[i]: live[i] = n; ch = True
        return live

    def dominates(self, a, b):
        if a == b: return True
        return b not in self.reach_from([0], avoid=[a])


CLOSURE_RE = re.compile(r"::\{closure#\d+\}$")


class Facts:
    def __init__(self, d, key):
        self.key = key
        self.fns = {}
        self.adts = {}
        self.crates = {}
        for c in extract.CRATES:
            with open(os.path.join(d, c + ".jsonl")) as f:
                for l in f:
                    r = json.loads(l)
                    if r["rec"] == "fn":
                        fn = Fn(r, c)
                        self.fns[fn.id] = fn
                    elif r["rec"] == "adt":
                        self.adts[r["id"]] = r
                    else:
                        self.crates[r["id"]] = r["fns"]
        self.disc = {}
        self.variants = {}
        for a, r in self.adts.items():
            self.disc[a] = {int(v[1]): v[0] for v in r["variants"]}
            self.variants[a] = [v[0] for v in r["variants"]]
        self.children = defaultdict(list)
        for f in self.fns.values():
            if f.parent: self.children[f.parent].append(f.id)
        self.by_last = defaultdict(list)
        for f in self.fns.values():
            if f.kind in ("fn",):
                self.by_last[f.id.rsplit("::", 1)[1]].append(f.id)
        # trait method -> impls
        self.impls = defaultdict(list)
        for f in self.fns.values():
            if f.trait:
                self.impls[f.trait + "::" + f.id.rsplit("::", 1)[1]].append(f.id)
        self._cg = None
        self._trans = None

    # --- lookup, fail closed
    def find(self, suffix, crate=None, unique=True):
        r = [i for i in self.by_last[suffix.rsplit("::", 1)[-1]]
             if (i == suffix or i.endswith("::" + suffix) or i.endswith(suffix)) and (crate is None or self.fns[i].crate == crate)]
        if unique:
            if len(r) != 1:
                raise Anchor("expected exactly one function %s%s, found %s" % (suffix, " in " + crate if crate else "", r))
            return self.fns[r[0]]
        return [self.fns[i] for i in r]

    def adt(self, suffix):
        r = [i for i in self.adts if i == suffix or i.endswith("::" + suffix)]
        if len(r) != 1:
            raise Anchor("expected exactly one type %s, found %s" % (suffix, r))
        return self.adts[r[0]]

    def callee_ids(self, c):
        """workspace functions a callee constant may run"""
        if c is None: return []
        if c["k"] == "closure": return [c["p"]]
        if c["k"] != "fn": return []
        if c["r"] and c["r"] in self.fns: return [c["r"]]
        if c["p"] in self.fns and not (c["p"] in self.impls): return [c["p"]]
        if not c["r"]:
            im = list(self.impls.get(c["p"], []))
            if c["p"] in self.fns: im.append(c["p"])
            return im
        # `<T as ToString>::to_string` and friends dispatch on the generic argument
        if c["p"] in ("alloc::string::ToString::to_string", "core::fmt::rt::Argument::<'_>::new_display"):
            pass
        return []

    def callgraph(self):
        if self._cg is None:
            cg = {}
            for f in self.fns.values():
                o = set()
                for i in f.reachable():
                    b = f.bbs[i]
                    t = b["t"]
                    if t[0] == "call":
                        if t[1][0] == "c":
                            o.update(self.callee_ids(t[1][1]))
                            self._disp(t[1][1], o)
                        for a in t[2]:
                            if a[0] == "c": o.update(self.callee_ids(a[1]))
                    for s in b["s"]:
                        rv = s[1]
                        if rv[0] == "agg" and rv[1] == "closure": o.add(rv[2])
                        for op in rv[1:]:
                            if isinstance(op, list) and len(op) == 2 and op[0] == "c" and isinstance(op[1], dict):
                                o.update(self.callee_ids(op[1]))
                cg[f.id] = {x for x in o if x in self.fns}
            self._cg = cg
        return self._cg

    def _disp(self, c, o):
        if c.get("k") == "fn" and c["p"] in ("core::fmt::rt::Argument::<'_>::new_display", "core::fmt::rt::Argument::<'_>::new_debug"):
            tr = "core::fmt::Display" if c["p"].endswith("display") else "core::fmt::Debug"
            for g in c["g"]:
                g = g.lstrip("&")
                for i in self.impls.get(tr + "::fmt", []):
                    if self.fns[i].self_ty == g: o.add(i)
        if c.get("k") == "fn" and c["p"] == "alloc::string::ToString::to_string":
            for g in c["g"]:
                g = g.lstrip("&")
                for i in self.impls.get("core::fmt::Display::fmt", []):
                    if self.fns[i].self_ty == g: o.add(i)

    def reach(self, roots, stop=()):
        cg = self.callgraph(); seen = set(); st = list(roots)
        while st:
            f = st.pop()
            if f in seen or f in stop: continue
            seen.add(f)
            st.extend(cg.get(f, ()))
        return seen

    def callers(self):
        r = defaultdict(set)
        for f, o in self.callgraph().items():
            for x in o: r[x].add(f)
        return r

    def call_sites(self, pred):
        """all (fn, bb, const, args, dest, line) with pred(callee const)"""
        for f in self.fns.values():
            if f.kind == "promoted": continue
            for bb, c, args, dest, line in f.calls():
                if c is not None and c["k"] == "fn" and pred(c):
                    yield f, bb, c, args, dest, line

    def promoted(self, c):
        return self.fns.get("%s::promoted[%d]" % (c["of"], c["i"]))


class Anchor(Exception):
    """A construct the rule is about is missing: fail closed."""


def cname(c):
    """resolved callee name"""
    if c is None: return None
    if c["k"] == "fn": return c["r"] or c["p"]
    return c.get("p")


_F = None


def load():
    global _F
    if _F is None:
        d, key = extract.facts()
        pk = os.path.join(d, "facts.pickle")
        _F = Facts(d, key)
    return _F
