"""Typestate of buffered writers over MIR: what is written must be flushed, returned or handed over before a normal return."""
import re
from .mir import cname

BW = re.compile(r"\b(BufWriter|LineWriter)<")
CLEANS = re.compile(r"(as core::io::(write::Write>::flush|seek::Seek>::)|as std::io::(Write>::flush|Seek>::)|Write::flush$|Seek::(seek|rewind|stream_position|seek_relative)$|BufWriter::<W>::(flush_buf|into_inner)$)")
PURE = re.compile(r"(get_ref|capacity|buffer|get_mut)$")
NEWCLEAN = re.compile(r"(BufWriter|LineWriter)::<W>::(new|with_capacity)$")
ERRMAKE = re.compile(r"FromResidual.*::from_residual$|Err$")


class Writers:
    def __init__(self, F):
        self.F = F
        self.hold = set()
        ch = True
        while ch:
            ch = False
            for i, a in F.adts.items():
                if i not in self.hold and any(self.holds(x[1]) for v in a["variants"] for x in v[2]):
                    self.hold.add(i); ch = True
        self.rx = re.compile("|".join([BW.pattern] + [r"(?<![\w:])" + re.escape(h) + r"(?![\w])" for h in sorted(self.hold)]))
        self.sums = {}

    def holds(self, ty):
        if ty.startswith("&") or ty.startswith("*"): return False
        if BW.search(ty): return True
        return any(re.search(r"(?<![\w:])" + re.escape(h) + r"(?![\w])", ty) for h in self.hold)

    def holder(self, ty): return not ty.startswith(("&", "*")) and not ty.startswith("{closure") and self.rx.search(ty) is not None

    def byref(self, ty):
        """a reference through which a writer can be written"""
        return ty.startswith("&mut ") and (self.rx.search(ty) is not None or re.match(r"&mut (dyn |impl )?(\w+::)*\w*(Write\b|[A-Z]\b)", ty) is not None)

    # ------------------------------------------------------------------ dataflow
    def flow(self, f, entry=None):
        """state at the normal returns: {local: 'dirty'|...}; entry: {local: state} for parameters given by reference"""
        own = {i for i, l in enumerate(f.locals) if self.holder(l[0])}
        start = dict(entry or {})
        for i in range(1, f.nargs + 1):
            if i in own: start.setdefault(i, "dirty")
        tracked = own | set(start)
        refs = {}
        ch = True
        while ch:                                  # which locals are references to a tracked object (flow-insensitive)
            ch = False
            for b in f.bbs:
                if b.get("cl"): continue
                for pl, rv, *_ in b["s"]:
                    if len(pl) != 1: continue
                    src = None
                    if rv[0] in ("ref", "rawptr") : src = next((x for x in rv[1:] if isinstance(x, list) and x and isinstance(x[0], int)), None)
                    elif rv[0] in ("use", "cast") and isinstance(rv[1], list) and rv[1][0] in ("cp", "mv"): src = rv[1][1]
                    if src is None or pl[0] in own: continue
                    t = src[0] if src[0] in tracked and (rv[0] != "use" or src[0] not in own) else refs.get(src[0])
                    if rv[0] in ("use", "cast") and src[0] in own: continue
                    if t is not None and refs.get(pl[0]) is None and pl[0] not in start:
                        refs[pl[0]] = t; ch = True
        for p in start:
            if p not in own: refs[p] = p
        blocks = {0: dict(start)}; work = [0]; rets = {}
        while work:
            i = work.pop()
            st = dict(blocks[i]); b = f.bbs[i]
            discs = {}
            for s in b["s"]: self.stmt(f, s, st, own, refs, discs)
            outs = self.term(f, b["t"], st, own, refs, discs)
            if b["t"][0] == "ret":
                rets[i] = st; continue
            for j, s2 in outs:
                if j is None: continue
                old = blocks.get(j)
                new = s2 if old is None else self.join(old, s2)
                if new != old: blocks[j] = new; work.append(j)
        return rets

    ORD = {"error": 0, "moved": 0, "clean": 1, "dirty": 2}

    def join(self, a, b):
        """a path that already answered with an error puts no obligation"""
        if a.get("err") and not b.get("err"): return dict(b)
        if b.get("err") and not a.get("err"): return dict(a)
        o = dict(a)
        for k, v in b.items():
            if k not in o or self.ORD.get(v, 0) > self.ORD.get(o[k], 0): o[k] = v
        return o

    def moves(self, op, st, own):
        """state of the holder an operand moves out, if any"""
        if isinstance(op, list) and op and op[0] == "mv" and op[1][0] in own and "*" not in op[1][1:]:
            return op[1][0]
        return None

    def stmt(self, f, s, st, own, refs, discs):
        pl, rv = s[0], s[1]
        if rv[0] == "disc":
            discs[pl[0]] = (rv[1], rv[2] if len(rv) > 2 else ""); return
        if pl == [0] and rv[0] == "agg" and rv[1] == "adt" and rv[3] in ("Err", "None"): st["err"] = "error"
        elif pl == [0] and rv[0] == "agg": st.pop("err", None)
        got = None
        ops = []
        for x in rv[1:]:
            if isinstance(x, list):
                if x and x[0] in ("cp", "mv"): ops.append(x)
                else: ops += [y for y in x if isinstance(y, list) and y and y[0] in ("cp", "mv")]
        for o in ops:
            m = self.moves(o, st, own)
            if m is not None and m in st and st[m] != "moved":
                if self.moved_ty(f, o[1]): got = max(got or "clean", st[m], key=lambda v: self.ORD[v]); st[m] = "moved"
            elif o[1][0] in refs and rv[0] == "agg":                # captured by a closure or stored: may be written
                st[refs[o[1][0]]] = "dirty"
        if got is not None and pl[0] in own and pl[0] != 0: st[pl[0]] = got

    def moved_ty(self, f, place):
        """is what leaves through this place itself a holder (and not, say, a number stored beside the writer)"""
        if len(place) == 1: return True
        last = place[-1]
        if isinstance(last, list) and last[0] == "f":
            adt = self.F.adts.get(last[3])
            if adt is not None and last[3] in self.hold:
                tys = [x[1] for v in adt["variants"] for x in v[2] if x[0] == last[2]]
                return any(self.holds(t) for t in tys)
        return True

    def term(self, f, t, st, own, refs, discs):
        k = t[0]
        if k == "goto": return [(t[1], st)]
        if k == "drop": return [(t[2], st)]
        if k == "assert": return [(t[3], st)]
        if k == "sw":
            out = []
            d = discs.get(t[1][1][0]) if t[1][0] in ("cp", "mv") else None
            for val, j in list(t[2]) + [[None, t[3]]]:
                s2 = dict(st)
                if d is not None and d[0][0] in own and len(d[0]) == 1:
                    if val is None and len(t[2]) == 1: val = 1 - int(t[2][0][0])
                    v = self.variant(d[1], val) if val is not None else None
                    if v in ("None", "Err", "Break"): s2[d[0][0]] = "moved"
                out.append((j, s2))
            return out
        if k != "call": return []
        c = t[1][1] if t[1][0] == "c" else None
        n = cname(c) or ""
        dest = t[3]
        got = None
        for ai, a in enumerate(t[2]):
            if not (isinstance(a, list) and a and a[0] in ("cp", "mv")): continue
            m = self.moves(a, st, own)
            if m is not None and m in st and re.search(r"mem::(drop|forget)$", n): continue     # dropped here: still in its last state
            if m is not None and m in st:
                if self.moved_ty(f, a[1]): got = "dirty" if self.ORD[st[m]] == 2 else got or st[m]; st[m] = "moved"
                continue
            r = refs.get(a[1][0])
            if r is None or r not in st: continue
            if st[r] == "moved": continue
            if CLEANS.search(n): st[r] = "clean"
            elif PURE.search(n) or not f.locals[a[1][0]][0].startswith("&mut"): pass
            else: st[r] = self.summary(c, ai, st[r])
        if dest == [0] and ERRMAKE.search(n): st["err"] = "error"
        elif dest == [0]: st.pop("err", None)
        if len(dest) == 1 and dest[0] in own and dest[0] != 0:
            if NEWCLEAN.search(n): st[dest[0]] = "clean"
            elif re.search(r"Result::<T, E>::|Option::<T>::|::branch$", n): st[dest[0]] = got or "clean"
            else: st[dest[0]] = "dirty"
        return [(t[4], st)]

    def variant(self, ty, val):
        base = ty.rsplit("::", 1)[-1].split("<")[0]
        return {"Option": {0: "None", 1: "Some"}, "Result": {0: "Ok", 1: "Err"}, "ControlFlow": {0: "Continue", 1: "Break"}}.get(base, {}).get(int(val))

    def summary(self, c, ai, state):
        """state of the object behind argument ai after the call"""
        ids = self.F.callee_ids(c)
        if not ids: return "dirty"
        out = "clean"
        for i in ids:
            key = (i, ai, state)
            if key not in self.sums:
                self.sums[key] = "dirty"
                g = self.F.fns[i]
                rets = self.flow(g, {ai + 1: state})
                ss = [s.get(ai + 1, "dirty") for s in rets.values() if not s.get("err")]
                self.sums[key] = "dirty" if "dirty" in ss or not ss else "clean"
            if self.sums[key] == "dirty": out = "dirty"
        return out
