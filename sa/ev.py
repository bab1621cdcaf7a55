"""Abstract interpreter over the MIR facts: conditional constant propagation with
call inlining and trace partitioning on discriminants.  Values are interned terms
(constants, enum variants, aggregates, opaque applications).  Nothing is executed and
no path is handed to a solver: a branch whose discriminant is not a known constant
splits the abstract state and records the refinement.  Loop bodies are taken at most
once per path (events inside a loop stand for every iteration)."""
import re
from .mir import cname

_tab = {}


class T:
    __slots__ = ("op", "a", "_s")

    def __repr__(self):
        return show(self)


def mk(op, *a):
    k = (op,) + tuple(("$" + str(x)) if isinstance(x, bool) else x for x in a)
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.a = a; t._s = None
        _tab[k] = t
    return t


def show(t, d=0):
    if not isinstance(t, T): return str(t)
    if t.op == "int" or t.op == "bool": return str(t.a[0])
    if t.op == "str": return repr(t.a[0])
    if t.op == "param": return "$%s" % t.a[0]
    if t.op == "field": return "%s.%s" % (show(t.a[0], d + 1), t.a[1])
    if t.op == "as": return "%s@%s" % (show(t.a[0], d + 1), t.a[1])
    if t.op == "adt":
        n = t.a[0].rsplit("::", 1)[-1]
        v = t.a[1]
        fs = ",".join("%s:%s" % (f, show(x, d + 1)) for f, x in t.a[2])
        return ("%s::%s" % (n, v) if n != v else n) + ("{%s}" % fs if fs else "")
    if d > 12: return "…"
    if t.op == "call": return "%s(%s)" % (short(t.a[0]), ",".join(show(x, d + 1) for x in t.a[1:]))
    if t.op == "cat": return "cat[%s]" % ",".join(show(x, d + 1) for x in t.a)
    return "%s(%s)" % (t.op, ",".join(show(x, d + 1) for x in t.a))


def short(n):
    m = re.match(r"<(.+?) as (.+?)>::(\w+)$", n)
    if m: return m.group(1).rsplit("::", 1)[-1] + "." + m.group(3)
    return "::".join(n.split("::")[-2:])


TRUE = mk("bool", True)
FALSE = mk("bool", False)
UNIT = mk("tuple")
UNDEF = mk("undef")


def INT(n): return mk("int", n)
def STR(s): return mk("str", s)
def BOOL(b): return TRUE if b else FALSE
def PARAM(n): return mk("param", n)
def ADT(adt, var, fields=()): return mk("adt", adt, var, tuple(fields))


RES = "core::result::Result"
OPT = "core::option::Option"
def OK(x): return ADT(RES, "Ok", (("0", x),))
def ERR(x): return ADT(RES, "Err", (("0", x),))
def SOME(x): return ADT(OPT, "Some", (("0", x),))
NONE = ADT(OPT, "None")


def getf(t, name):
    if t.op == "adt":
        for f, x in t.a[2]:
            if f == name: return x
        return mk("field", t, name)
    if t.op in ("tuple", "closure", "array"):
        off = 1 if t.op == "closure" else 0
        try:
            i = int(name)
        except ValueError:
            return mk("field", t, name)
        if i + off < len(t.a): return t.a[i + off]
        return UNDEF
    if t.op == "with":
        for f, x in t.a[1]:
            if f == name: return x
        return getf(t.a[0], name)
    if t.op == "as" and t.a[0].op == "with":
        for f, x in t.a[0].a[1]:
            if f == name: return x
    return mk("field", t, name)


def downcast(t, v):
    if t.op == "adt": return t
    if t.op == "as" and t.a[1] == v: return t
    return mk("as", t, v)


def setf(t, path, v):
    if not path: return v
    e, rest = path[0], path[1:]
    if e[0] == "v":
        return setf(t, rest, v)
    if e[0] == "f":
        name = e[1]
        nv = setf(getf(t, name), rest, v)
        if t.op == "adt":
            fs = tuple((f, nv if f == name else x) for f, x in t.a[2])
            if not any(f == name for f, _ in t.a[2]): fs = fs + ((name, nv),)
            return ADT(t.a[0], t.a[1], fs)
        if t.op in ("tuple",):
            a = list(t.a); i = int(name)
            while len(a) <= i: a.append(UNDEF)
            a[i] = nv
            return mk("tuple", *a)
        if t.op == "undef" and name.isdigit():
            a = [UNDEF] * int(name) + [nv]
            return mk("tuple", *a)
        if t.op == "with":
            m = tuple(sorted([(f, x) for f, x in t.a[1] if f != name] + [(name, nv)], key=lambda p: p[0]))
            return mk("with", t.a[0], m)
        return mk("with", t, ((name, nv),))
    if e[0] == "i":
        if t.op == "array" and e[1].op == "int" and 0 <= e[1].a[0] < len(t.a):
            i = e[1].a[0]
            return mk("array", *(t.a[:i] + (setf(t.a[i], rest, v),) + t.a[i + 1:]))
        return mk("store", t, e[1], setf(mk("idx", t, e[1]), rest, v))
    return mk("upd", t, str(e), v)


def getp(t, path):
    for e in path:
        if e[0] == "v": t = downcast(t, e[1])
        elif e[0] == "f": t = getf(t, e[1])
        elif e[0] == "i":
            if t.op == "array" and e[1].op == "int" and 0 <= e[1].a[0] < len(t.a): t = t.a[e[1].a[0]]
            else: t = mk("idx", t, e[1])
        else: t = mk("sub", t, str(e))
    return t


def cat(*parts):
    out = []
    for p in parts:
        if p.op == "cat": ps = p.a
        else: ps = (p,)
        for q in ps:
            if q.op == "str":
                if q.a[0] == "": continue
                if out and out[-1].op == "str":
                    out[-1] = STR(out[-1].a[0] + q.a[0]); continue
            out.append(q)
    if not out: return STR("")
    if len(out) == 1: return out[0]
    return mk("cat", *out)


class St:
    __slots__ = ("mem", "ref", "excl", "ev", "cond", "vis", "reg")

    def __init__(self):
        self.mem = {}; self.ref = {}; self.excl = {}; self.ev = (); self.cond = (); self.vis = {}
        self.reg = None

    def fork(self):
        s = St()
        s.mem = dict(self.mem); s.ref = dict(self.ref); s.excl = dict(self.excl)
        s.ev = self.ev; s.cond = self.cond; s.vis = dict(self.vis); s.reg = self.reg
        return s

    def events(self):
        o = []; e = self.ev
        while e:
            o.append(e[1]); e = e[0]
        o.reverse()
        return o

    def conds(self):
        o = []; e = self.cond
        while e:
            o.append(e[1]); e = e[0]
        o.reverse()
        return o


class Budget(Exception):
    pass


def decode_fmt(b):
    """fmt::Arguments template bytes -> list of str | ("arg", index, flags)"""
    out = []; i = 0; nxt = 0
    while i < len(b):
        n = b[i]; i += 1
        if n == 0: break
        if n < 0x80:
            out.append(bytes(b[i:i + n]).decode("utf8", "replace")); i += n
        elif n == 0x80:
            l = b[i] | b[i + 1] << 8; i += 2
            out.append(bytes(b[i:i + l]).decode("utf8", "replace")); i += l
        else:
            fl = n; spec = []
            if n & 1: spec.append(tuple(b[i:i + 4])); i += 4
            if n & 2: spec.append(("w", b[i] | b[i + 1] << 8)); i += 2
            if n & 4: spec.append(("p", b[i] | b[i + 1] << 8)); i += 2
            if n & 8:
                idx = b[i] | b[i + 1] << 8; i += 2
            else: idx = nxt
            nxt = idx + 1
            out.append(("arg", idx, tuple(spec)))
    return out


IDENT = re.compile(r"(::clone|::to_owned|Deref>::deref|Deref::deref|::as_ref|::borrow|::as_str|hint::must_use|::as_slice|::to_vec"
                   r"|::into_boxed_slice|::into_boxed_str|Borrow<T>>::borrow|::as_path|::to_path_buf|::to_str|::into_string|::as_bytes"
                   r"|Option::<&T>::cloned|Option::<&T>::copied|::into_vec|PathBuf as core::convert::From<.*>>::from|::as_deref"
                   r"|::to_string_lossy|::as_mut_slice|slice_from_ref|::into_owned|::cloned|::copied)$")
BINOPS = {"core::ops::arith::Add::add": "Add", "core::ops::arith::Sub::sub": "Sub", "core::ops::arith::Mul::mul": "Mul",
          "core::ops::arith::Div::div": "Div", "core::ops::arith::Rem::rem": "Rem", "core::ops::bit::Shl::shl": "Shl",
          "core::ops::bit::Shr::shr": "Shr", "core::ops::bit::BitAnd::bitand": "BitAnd", "core::ops::bit::BitOr::bitor": "BitOr",
          "core::ops::bit::BitXor::bitxor": "BitXor",
          "core::cmp::PartialOrd::lt": "Lt", "core::cmp::PartialOrd::le": "Le", "core::cmp::PartialOrd::gt": "Gt",
          "core::cmp::PartialOrd::ge": "Ge"}
ASSIGNOPS = {"core::ops::arith::AddAssign::add_assign": "Add", "core::ops::arith::SubAssign::sub_assign": "Sub",
             "core::ops::arith::MulAssign::mul_assign": "Mul", "core::ops::arith::RemAssign::rem_assign": "Rem",
             "core::ops::arith::DivAssign::div_assign": "Div", "core::ops::bit::ShlAssign::shl_assign": "Shl",
             "core::ops::bit::ShrAssign::shr_assign": "Shr"}


BOXLIKE = {"alloc::boxed::Box", "core::ptr::unique::Unique", "core::ptr::non_null::NonNull",
           "core::mem::maybe_uninit::MaybeUninit", "core::mem::manually_drop::ManuallyDrop",
           "core::mem::maybe_dangling::MaybeDangling"}
SIMP = None  # optional rewriting of freshly built operator terms (installed by a check)


def binop(op, a, b):
    t = binop0(op, a, b)
    if SIMP is not None and isinstance(t, T) and t.op not in ("tuple", "not"): return SIMP(t)
    if SIMP is not None and t.op == "not":
        return neg(SIMP(t.a[0]))
    return t


def binop0(op, a, b):
    base = op
    if op.endswith("WithOverflow"):
        return mk("tuple", binop(op[:-12], a, b), FALSE)
    if op.endswith("Unchecked"): op = base = op[:-9]
    if a.op == "int" and b.op == "int":
        x, y = a.a[0], b.a[0]
        try:
            r = {"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Eq": lambda: x == y, "Ne": lambda: x != y,
                 "Lt": lambda: x < y, "Le": lambda: x <= y, "Gt": lambda: x > y, "Ge": lambda: x >= y,
                 "Div": lambda: x // y, "Rem": lambda: x % y, "BitAnd": lambda: x & y, "BitOr": lambda: x | y,
                 "BitXor": lambda: x ^ y, "Shl": lambda: x << y, "Shr": lambda: x >> y}[op]()
            return BOOL(r) if isinstance(r, bool) else INT(r)
        except (KeyError, ZeroDivisionError):
            pass
    if a.op == "bool" and b.op == "bool" and op in ("Eq", "Ne", "BitAnd", "BitOr", "BitXor"):
        x, y = a.a[0], b.a[0]
        return BOOL({"Eq": x == y, "Ne": x != y, "BitAnd": x and y, "BitOr": x or y, "BitXor": x != y}[op])
    if op == "Ne": return neg(mk("Eq", *sorted2(a, b)))
    if op == "Eq": return mk("Eq", *sorted2(a, b))
    if op in ("Gt", "Ge"):
        return mk({"Gt": "Lt", "Ge": "Le"}[op], b, a)
    return mk(op, a, b)


def sorted2(a, b):
    return (a, b) if repr(a) <= repr(b) else (b, a)


def neg(t):
    if t.op == "bool": return BOOL(not t.a[0])
    if t.op == "not": return t.a[0]
    return mk("not", t)


def ground(t):
    return t.op in ("int", "bool", "str") or t.op in ("tuple", "array") and all(ground(x) for x in t.a)


class Ev:
    def __init__(self, F, inline=None, stop=None, track=None, max_depth=12, keep_refs=False, max_paths=4000, intrinsics=None, loop_visits=2,
                 panics=False, rec=1, max_steps=2000000):
        self.rec = rec
        self.F = F
        self.inline = inline or (lambda fid, depth: True)
        self.stop = stop or (lambda n: False)
        self.track = track or (lambda n: False)
        self.max_depth = max_depth
        self.max_paths = max_paths
        self.keep_refs = keep_refs
        self.npaths = 0
        self.cut = 0
        self.frames = 0
        self.extra = intrinsics or {}
        self.loop_visits = loop_visits
        self.steps = 0
        self.max_steps = max_steps
        self.opaque = set()
        self.inlined = set()
        self.panics = panics
        self.diverged = []
        self.regions = None
        self.region_holds = None
        self.region_unknown = Exception
        self.blind = set()

    # ------------------------------------------------ memory
    def load_root(self, st, root):
        v = st.mem.get(root)
        if v is None:
            return root[1] if root[0] == "T" else UNDEF
        return v

    def locate(self, st, fr, place):
        root = ("L", fr, place[0]); path = ()
        for e in place[1:]:
            if e == "*":
                v = getp(self.load_root(st, root), path)
                v = self.refined(st, v)
                if v.op == "ref":
                    root, path = v.a[0], v.a[1]
                elif v.op == "box":
                    path = path + (("f", "0"),)
                else:
                    root, path = ("T", v), ()
            elif e[0] == "f":
                if e[3] in BOXLIKE: continue
                path = path + (("f", e[2]),)
            elif e[0] == "v": path = path + (("v", e[1]),)
            elif e[0] == "i":
                path = path + (("i", self.load_root(st, ("L", fr, e[1]))),)
            elif e[0] == "ci": path = path + ((("i", INT(e[1]))) if not e[2] else ("o", "last%s" % e[1]),)
            else: path = path + (("o", str(e)),)
        return root, path

    def read(self, st, fr, place):
        root, path = self.locate(st, fr, place)
        return self.refined(st, getp(self.load_root(st, root), path))

    def write(self, st, fr, place, v):
        root, path = self.locate(st, fr, place)
        self.write_loc(st, root, path, v)

    def write_loc(self, st, root, path, v):
        if path:
            v = setf(self.load_root(st, root), path, v)
        st.mem[root] = v

    def deref(self, st, v):
        while v.op == "ref":
            v = getp(self.load_root(st, v.a[0]), v.a[1])
        return self.refined(st, v)

    def store_through(self, st, ref, v):
        if ref.op == "ref": self.write_loc(st, ref.a[0], ref.a[1], v)
        else: st.mem[("T", ref)] = v

    def refined(self, st, v):
        r = st.ref.get(v)
        if r is not None and not isinstance(r, str): return r
        return v

    def variant(self, st, t):
        if t.op == "adt": return t.a[1]
        r = st.ref.get(t)
        if isinstance(r, str): return r
        if t.op == "with": return self.variant(st, t.a[0])
        return None

    # ------------------------------------------------ operands
    def const(self, st, fr, c):
        k = c["k"]
        if k == "int":
            if c.get("ty") == "bool": return BOOL(c["v"] != 0)
            return INT(c["v"])
        if k == "str": return STR(c["v"])
        if k == "big": return mk("big", c["len"], c["fnv"], c.get("named", ""))
        if k == "bytes": return mk("bytes", tuple(c["v"]))
        if k == "fn": return mk("fn", c["r"] or c["p"], c["p"])
        if k == "closure": return mk("closure", c["p"])
        if k == "zst":
            if c.get("ty") == "()": return UNIT
            return mk("zst", c.get("ty"))
        if k == "prom":
            f = self.F.promoted(c)
            if f is not None:
                rs = list(self.run(f, [], St(), 0))
                if len(rs) == 1:
                    return self.deref(rs[0][0], rs[0][1])
            return mk("prom", c["of"], c["i"])
        if c.get("named"):
            nm = c["named"]
            f = self.F.fns.get(nm)
            if f is not None and f.kind == "const":
                rs = list(self.run(f, [], St(), 0))
                if len(rs) == 1: return self.deref(rs[0][0], rs[0][1])
            return mk("constitem", nm)
        if k == "static": return mk("static", c["p"])
        return mk("const", c.get("ty", "?"))

    def op(self, st, fr, o):
        if o[0] == "c": return self.const(st, fr, o[1])
        return self.read(st, fr, o[1])

    # ------------------------------------------------ rvalues
    def rvalue(self, st, fr, rv):
        k = rv[0]
        if k == "use": return self.op(st, fr, rv[1])
        if k == "ref":
            root, path = self.locate(st, fr, rv[2])
            if rv[1]:
                return mk("ref", root, path)
            return self.refined(st, getp(self.load_root(st, root), path))
        if k == "agg":
            ops = [self.op(st, fr, x) for x in rv[5]]
            if rv[1] == "adt":
                return ADT(rv[2], rv[3], tuple(zip(rv[4], ops)))
            if rv[1] == "tuple": return mk("tuple", *ops)
            if rv[1] == "array": return mk("array", *ops)
            if rv[1] == "closure": return mk("closure", rv[2], *ops)
            return mk("agg", *ops)
        if k == "disc":
            v = self.read(st, fr, rv[1])
            if v.op == "ref": v = self.deref(st, v)
            return self.disc(st, v, rv[2])
        if k == "bin":
            return binop(rv[1], self.op(st, fr, rv[2]), self.op(st, fr, rv[3]))
        if k == "un":
            a = self.op(st, fr, rv[2])
            if rv[1] == "Not": return neg(a)
            if rv[1] == "Neg": return INT(-a.a[0]) if a.op == "int" else mk("Neg", a)
            if rv[1] == "PtrMetadata": return mk("len", self.deref(st, a))
            return mk(rv[1], a)
        if k == "cast": return self.op(st, fr, rv[1])
        if k == "repeat": return mk("repeat", self.op(st, fr, rv[1]), rv[2])
        return mk("rv", str(rv)[:80])

    def disc(self, st, v, adt):
        var = self.variant(st, v)
        if var is not None and adt in self.F.disc:
            for d, n in self.F.disc[adt].items():
                if n == var: return INT(d)
        if var is not None and adt == "":
            pass
        return mk("disc", v, adt)

    # ------------------------------------------------ running
    def call_fn(self, fn, args, st=None):
        """entry: yields (state, ret) for every abstract path"""
        if isinstance(fn, str): fn = self.F.fns[fn]
        return list(self.run(fn, args, st or St(), 0, ()))

    def segment(self, fn, st, bb, locs, cut):
        """run the body of fn from block bb with the given locals up to a block of `cut` or a return:
        [(state, block or None, locals | return value)]"""
        self.frames += 1
        fr = self.frames
        for l, v in locs.items(): st.mem[("L", fr, l)] = v
        out = []
        for s, v in self.run(fn, (), st, 0, (), (fr, bb, cut)):
            if v.op == "cutpoint":
                out.append((s, v.a[0], {k[2]: x for k, x in s.mem.items() if k[0] == "L" and k[1] == fr}))
                for k in [k for k in s.mem if k[0] == "L" and k[1] == fr]: del s.mem[k]
            else: out.append((s, None, v))
        return out

    def run(self, fn, args, st, depth, stack=(), seg=None):
        if seg is None:
            self.frames += 1
            fr = self.frames
            for i in range(fn.nargs):
                st.mem[("L", fr, i + 1)] = args[i] if i < len(args) else mk("arg", fn.id, i)
            work = [(st, 0)]; cuts = ()
        else:
            fr = seg[0]; work = [(st, seg[1])]; cuts = seg[2]
        first = True
        while work:
            st, bb = work.pop()
            while True:
                if cuts and bb in cuts and not first:
                    yield st, mk("cutpoint", bb)
                    break
                first = False
                self.steps += 1
                if self.steps > self.max_steps: raise Budget(fn.id)
                b = fn.bbs[bb]
                for s in b["s"]:
                    if s[1][0] == "setdisc": continue
                    v = self.rvalue(st, fr, s[1])
                    self.write(st, fr, s[0], v)
                t = b["t"]; k = t[0]
                if k == "goto": bb = t[1]; continue
                if k == "drop": bb = t[2]; continue
                if k == "assert": bb = t[3]; continue
                if k == "ret":
                    self.npaths += 1
                    if self.npaths > self.max_paths: raise Budget(fn.id)
                    ret = self.load_root(st, ("L", fr, 0))
                    # a returned reference to a local of this frame never happens (borrowck)
                    for key in [x for x in st.mem if x[0] == "L" and x[1] == fr]:
                        del st.mem[key]
                    yield st, ret
                    break
                if k == "sw":
                    outs = self.switch(st, fr, t)
                    if not outs: break
                    if len(outs) > 1:
                        n = st.vis.get((fr, bb), 0)
                        if n >= self.loop_visits:
                            self.cut += 1
                            break
                        for s2, _ in outs: s2.vis[(fr, bb)] = n + 1
                    for s2, b2 in outs[1:]: work.append((s2, b2))
                    st, bb = outs[0]
                    continue
                if k == "call":
                    res = self.do_call(fn, st, fr, t, depth, stack)
                    nxt = []
                    for s2, v in res:
                        if t[4] is None or v is None: continue
                        self.write(s2, fr, t[3], v)
                        nxt.append((s2, t[4]))
                    if not nxt: break
                    for x in nxt[1:]: work.append(x)
                    st, bb = nxt[0]
                    continue
                break

    def switch(self, st, fr, t):
        v = self.op(st, fr, t[1])
        if v.op == "ref": v = self.deref(st, v)
        tg, other = t[2], t[3]
        if v.op == "int" or v.op == "bool":
            n = int(v.a[0])
            for val, b in tg:
                if val == n: return [(st, b)]
            return [(st, other)]
        out = []
        if v.op == "disc":
            x, adt = v.a
            names = self.F.disc.get(adt)
            if names:
                ex = st.excl.get(x, frozenset())
                used = set()
                for val, b in tg:
                    n = names.get(val)
                    used.add(n)
                    if n in ex: continue
                    s2 = st.fork(); s2.ref[x] = n
                    s2.cond = (s2.cond, ("is", x, n))
                    out.append((s2, b))
                rest = [n for n in names.values() if n not in used and n not in ex]
                if rest:
                    s2 = st.fork()
                    if len(rest) == 1:
                        s2.ref[x] = rest[0]
                        s2.cond = (s2.cond, ("is", x, rest[0]))
                    else:
                        s2.excl[x] = ex | used
                        s2.cond = (s2.cond, ("notin", x, tuple(sorted(ex | used, key=str))))
                    out.append((s2, other))
                return self.alive(out)
            for val, b in tg + [[None, other]]:
                s2 = st.fork(); s2.cond = (s2.cond, ("sw", v, val)); out.append((s2, b))
            return out
        if len(tg) == 1 and tg[0][0] == 0 and v.op not in ("field_int",):
            # boolean-like
            pos, base = True, v
            if v.op == "not": pos, base = False, v.a[0]
            r = st.ref.get(base)
            if r is not None and not isinstance(r, str) and r.op == "bool":
                val = r.a[0] if pos else not r.a[0]
                return [(st, other if val else tg[0][1])]
            s1 = st.fork(); self.assume(s1, base, not pos); out.append((s1, tg[0][1]))
            s2 = st.fork(); self.assume(s2, base, pos); out.append((s2, other))
            return self.alive(out)
        for val, b in tg:
            s2 = st.fork(); s2.ref[v] = INT(val); s2.cond = (s2.cond, ("eq", v, val)); out.append((s2, b))
        s2 = st.fork(); s2.cond = (s2.cond, ("noteq", v, tuple(x for x, _ in tg))); out.append((s2, other))
        return self.alive(out)

    # region sets: a state may carry the finite set of regions (assignments of representatives to the
    # symbolic operands) it stands for; a branch keeps the regions in which its condition holds
    def alive(self, outs):
        if self.regions is None: return outs
        r = []
        for x in outs:
            st = x[0]
            if st.reg is None: st.reg = frozenset(range(len(self.regions)))
            c = st.cond[1]
            keep = set()
            for i in st.reg:
                try:
                    if self.region_holds(c, self.regions[i]): keep.add(i)
                except self.region_unknown:
                    keep.add(i)
            st.reg = frozenset(keep)
            if keep: r.append(x)
        return r

    def assume(self, st, t, val):
        st.ref[t] = BOOL(val)
        st.cond = (st.cond, ("bool", t, val))
        if t.op == "Eq" and val:
            a, b = t.a
            if b.op in ("str", "int", "bool"): st.ref[a] = b
            elif a.op in ("str", "int", "bool"): st.ref[b] = a

    # ------------------------------------------------ calls
    def event(self, st, name, args, line, fn):
        st.ev = (st.ev, (name, args, fn.id, line))

    def do_call(self, fn, st, fr, t, depth, stack):
        f, argo, line = t[1], t[2], t[5]
        args = [self.op(st, fr, a) for a in argo]
        if f[0] == "c":
            c = f[1]
            if c["k"] == "fn": name, path = c["r"] or c["p"], c["p"]
            else: name = path = c.get("p", "?")
        else:
            fv = self.deref(st, self.op(st, fr, f))
            if fv.op == "fn": name, path, c = fv.a[0], fv.a[1], {"k": "fn", "p": fv.a[1], "r": fv.a[0], "g": []}
            else: name = path = "indirect"; c = None; args = [fv] + args
        self.dest_ty = fn.locals[t[3][0]][0] if t[3] and len(t[3]) == 1 else ""
        return self.apply(fn, st, name, path, args, line, depth, stack, c)

    def apply(self, fn, st, name, path, args, line, depth, stack, c=None):
        for rx, h in self.extra.items():
            if re.search(rx, name) or re.search(rx, path):
                r = h(self, st, name, args, fn, line)
                if r is not NotImplemented: return r
        if self.track(name) or self.stop(name):
            self.event(st, name, tuple(self.deref(st, a) for a in args), line, fn)
        if not self.stop(name):
            r = self.intrinsic(fn, st, name, path, args, line, depth, stack, c)
            if r is not None: return r
            # closures / fn pointers through Fn* traits
            if re.search(r"core::ops::function::(Fn|FnMut|FnOnce)::call", path) and args:
                cl = self.deref(st, args[0])
                ar = args[1].a if len(args) > 1 and args[1].op == "tuple" else ()
                if cl.op == "closure" and cl.a[0] in self.F.fns:
                    return list(self.run(self.F.fns[cl.a[0]], [args[0] if args[0].op == "ref" else cl] + list(ar), st, depth + 1, stack))
                if cl.op == "fn":
                    return self.apply(fn, st, cl.a[0], cl.a[1], list(ar), line, depth, stack, None)
            ids = self.F.callee_ids(c) if c is not None else ([name] if name in self.F.fns else [])
            if len(ids) == 1 and depth < self.max_depth and stack.count(ids[0]) < self.rec and self.inline(ids[0], depth):
                self.inlined.add(ids[0])
                return list(self.run(self.F.fns[ids[0]], args, st, depth + 1, stack + (ids[0],)))
        self.opaque.add(name)
        if path.startswith("core::panicking::") or path.startswith("std::panicking") or path == "std::process::exit" or name.endswith("unwrap_failed"):
            if self.panics: self.diverged.append((st, name, line, fn.id))
            return []
        vals = [self.deref(st, a) for a in args]
        if any(v.op == "closure" for v in vals): self.blind.add(name)      # what the closure does there is not known
        r = mk("call", name, *vals)
        for i, a in enumerate(args):
            if a.op == "ref":
                self.write_loc(st, a.a[0], a.a[1], mk("mut", name, i, *vals))
        return [(st, r)]

    def fork_variant(self, st, x, adt, names):
        """split on the variant of x"""
        v = self.variant(st, x)
        if v is not None: return [(st, v)]
        out = []
        ex = st.excl.get(x, frozenset())
        for n in names:
            if n in ex: continue
            s2 = st.fork(); s2.ref[x] = n; s2.cond = (s2.cond, ("is", x, n)); out.append((s2, n))
        return self.alive(out)

    def intrinsic(self, fn, st, name, path, args, line, depth, stack, c):
        d = self.deref
        last = name.rsplit("::", 1)[-1]
        if IDENT.search(name) or IDENT.search(path):
            if name in self.F.fns and not self.F.fns[name].derived: return None
            return [(st, d(st, args[0]))]
        if last in ("deref_mut", "as_mut", "borrow_mut", "as_deref_mut") and name not in self.F.fns:
            return [(st, args[0])]
        if path in ("alloc::string::ToString::to_string",) and name not in self.F.fns:
            x = d(st, args[0])
            g = (c or {}).get("g", [""])[0].lstrip("&") if c else ""
            if g in ("str", "alloc::string::String", "std::string::String"): return [(st, x)]
            if x.op == "int": return [(st, STR(str(x.a[0])))]
            return [(st, mk("disp", x))] if not self.disp_impl(g) else self.run_display(g, x, st, depth, stack)
        if path in ("core::convert::From::from", "core::convert::Into::into"):
            if name in self.F.fns: return None
            return [(st, d(st, args[0]))]
        if name.startswith("alloc::boxed::Box::<") and last == "new": return [(st, args[0])]
        if last == "new_uninit" and "Box" in name: self.frames += 1; return [(st, mk("uninit", self.frames))]
        if "box_assume_init_into_vec_unsafe" in name or "box_uninit_array_into_vec" in name:
            return [(st, self.unwrap_uninit(args[0], st))]
        if "IntoIterator" in path and last == "into_iter" or last in ("iter", "iter_mut") and not name in self.F.fns:
            x = args[0]
            x2 = d(st, x)
            if x2.op in ("iter", "adapt"): return [(st, x2)]
            if x2.op == "array" and x.op == "ref" and (last == "iter_mut" or "&'a mut" in name or "&mut" in name):
                while True:
                    v = getp(self.load_root(st, x.a[0]), x.a[1])
                    if v.op == "ref": x = v
                    else: break
                return [(st, mk("iter", mk("array", *[mk("ref", x.a[0], x.a[1] + (("i", INT(i)),)) for i in range(len(x2.a))])))]
            return [(st, mk("iter", x2))]
        if last == "next" and "Iterator" in path and name not in self.F.fns:
            it = d(st, args[0])
            if it.op == "iter" and it.a[0].op == "array":
                arr = it.a[0].a
                if arr:
                    self.store_through(st, args[0], mk("iter", mk("array", *arr[1:])))
                    return [(st, SOME(arr[0]))]
                return [(st, NONE)]
            key = ("next", it, fn.id, line)
            s2 = st.fork(); s2.cond = (s2.cond, ("loop", it, False))
            if st.vis.get(key, 0) >= 1: return [(s2, NONE)]
            st.vis[key] = 1
            st.cond = (st.cond, ("loop", it, True))
            return [(st, SOME(mk("item", it))), (s2, NONE)]
        r = self.concrete_slices(st, name, path, last, args)
        if r is not None: return r
        if path == "core::ops::index::Index::index":
            return [(st, getp(d(st, args[0]), (("i", d(st, args[1])),)))]
        if path == "core::ops::index::IndexMut::index_mut":
            a = args[0]
            if a.op == "ref": return [(st, mk("ref", a.a[0], a.a[1] + (("i", d(st, args[1])),)))]
            return [(st, mk("ref", ("T", a), (("i", d(st, args[1])),)))]
        # --- Try
        if path == "core::ops::try_trait::Try::branch":
            x = d(st, args[0]); out = []
            opt = "Option" in name
            CF = "core::ops::control_flow::ControlFlow"
            for s2, v in self.fork_variant(st, x, None, ("Some", "None") if opt else ("Ok", "Err")):
                if v in ("Some", "Ok"):
                    out.append((s2, ADT(CF, "Continue", (("0", self.refined(s2, getf(downcast(x, v), "0"))),))))
                else:
                    out.append((s2, ADT(CF, "Break", (("0", x if opt or x.op == "adt" else ERR(getf(downcast(x, v), "0"))),))))
            return out
        if path == "core::ops::try_trait::FromResidual::from_residual":
            return [(st, d(st, args[0]))]
        if re.search(r"(option::Option|result::Result)::<.*>::(\w+)$", name) and args:
            r = self.optres(fn, st, name, last, args, line, depth, stack)
            if r is not None: return r
        # --- comparisons
        if path in ("core::cmp::PartialEq::eq", "core::cmp::PartialEq::ne") and (name not in self.F.fns or self.F.fns[name].derived):
            a, b = d(st, args[0]), d(st, args[1])
            return self.equality(st, a, b, path.endswith("ne"))
        if len(args) == 2 and (last == "saturating_sub" and "usize" in name or path in ("core::cmp::min", "core::cmp::max", "core::cmp::Ord::min", "core::cmp::Ord::max")) and name not in self.F.fns:
            a, b = d(st, args[0]), d(st, args[1])
            if a.op == "int" and b.op == "int":
                return [(st, INT(max(0, a.a[0] - b.a[0]) if last == "saturating_sub" else min(a.a[0], b.a[0]) if last == "min" else max(a.a[0], b.a[0])))]
        if path in BINOPS and name not in self.F.fns:
            return [(st, binop(BINOPS[path], d(st, args[0]), d(st, args[1])))]
        if path in ASSIGNOPS and name not in self.F.fns:
            self.store_through(st, args[0], binop(ASSIGNOPS[path], d(st, args[0]), d(st, args[1])))
            return [(st, UNIT)]
        if path == "core::ops::bit::Not::not" and name not in self.F.fns: return [(st, neg(d(st, args[0])))]
        if path == "core::ops::arith::Neg::neg" and name not in self.F.fns: return [(st, mk("Neg", d(st, args[0])))]
        # --- formatting
        if path.startswith("core::fmt::rt::Argument::<'_>::new_"):
            x = d(st, args[0])
            kind = last[4:]
            g = (c or {}).get("g", [""])
            g = g[0].lstrip("&") if g else ""
            if kind == "display":
                if x.op in ("str", "cat"): return [(st, x)]
                if x.op == "int": return [(st, STR(str(x.a[0])))]
                if self.disp_impl(g): return self.run_display(g, x, st, depth, stack)
                return [(st, mk("disp", x))]
            return [(st, mk("fmt_" + kind, x))]
        if path.startswith("core::fmt::Arguments::<'a>::") or path.startswith("core::fmt::rt::<impl"):
            if last in ("from_str", "from_str_nonconst", "new_const"): return [(st, d(st, args[0]))]
            if last == "new":
                tpl, ar = d(st, args[0]), d(st, args[1])
                if tpl.op == "bytes" and ar.op == "array":
                    parts = []
                    for p in decode_fmt(list(tpl.a[0])):
                        if isinstance(p, str): parts.append(STR(p))
                        else:
                            v = ar.a[p[1]] if p[1] < len(ar.a) else UNDEF
                            parts.append(mk("spec", v, str(p[2])) if p[2] else (v.a[0] if v.op == "disp" else v))
                    return [(st, cat(*parts))]
                return [(st, mk("fmt", tpl, ar))]
        if path == "alloc::fmt::format": return [(st, d(st, args[0]))]
        # --- vec / string building
        if "alloc::vec::Vec" in name or "alloc::string::String" in name or "linked_list" in name or last == "reverse" and "[T]" in name:
            r = self.collections(st, name, last, args)
            if r is not None: return r
        if path == "core::default::Default::default" and name not in self.F.fns:
            m = re.match(r"<(\w+) as", name)
            if m and m.group(1) in ("usize", "u32", "u64", "isize", "i32"): return [(st, INT(0))]
            if m and m.group(1) == "bool": return [(st, FALSE)]
            if "String" in name: return [(st, STR(""))]
            if re.search(r"Vec<|LinkedList<|Hash(Map|Set)<|BTree(Map|Set)<", name): return [(st, mk("array"))]
            if "Option<" in name: return [(st, NONE)]
            return [(st, mk("call", name))]
        if path in ("core::mem::replace", "core::mem::take"):
            old = d(st, args[0])
            self.store_through(st, args[0], args[1] if last == "replace" else mk("default"))
            return [(st, old)]
        if path == "core::mem::swap":
            a, b = d(st, args[0]), d(st, args[1])
            self.store_through(st, args[0], b); self.store_through(st, args[1], a)
            return [(st, UNIT)]
        if path == "core::mem::drop": return [(st, UNIT)]
        if path == "core::slice::<impl [T]>::len" or name.endswith("Vec::<T, A>::len") or name.endswith("str>::len"):
            x = d(st, args[0])
            if x.op == "array": return [(st, INT(len(x.a)))]
            return [(st, mk("len", x))]
        if path == "core::slice::<impl [T]>::is_empty" or name.endswith("Vec::<T, A>::is_empty"):
            x = d(st, args[0])
            if x.op == "array": return [(st, FALSE if x.a else TRUE)]
        if path == "core::str::traits::FromStr::from_str" and name not in self.F.fns:
            return None
        return None

    def loc(self, st, r):
        """location finally referred to by a (possibly nested) reference"""
        while True:
            v = getp(self.load_root(st, r.a[0]), r.a[1])
            if isinstance(v, T) and v.op == "ref": r = v
            else: return r.a[0], r.a[1]

    def concrete_slices(self, st, name, path, last, args):
        """slice operations on arrays of known length at known positions"""
        d = self.deref
        if path in ("core::cmp::min", "core::cmp::max", "core::cmp::Ord::min", "core::cmp::Ord::max") and len(args) == 2:
            a, b = d(st, args[0]), d(st, args[1])
            if a.op == "int" and b.op == "int": return [(st, INT((min if last == "min" else max)(a.a[0], b.a[0])))]
            return None
        if not args or name in self.F.fns: return None
        if path in ("core::ops::index::Index::index", "core::ops::index::IndexMut::index_mut"):
            x, i = d(st, args[0]), d(st, args[1])
            if x.op == "array" and i.op == "adt" and "ops::range::Range" in i.a[0] and last == "index":
                lo, hi = getf(i, "start"), getf(i, "end")
                n = i.a[0].rsplit("::", 1)[-1]
                lo = 0 if n in ("RangeTo", "RangeFull", "RangeToInclusive") else lo.a[0] if lo.op == "int" else None
                hi = len(x.a) if n in ("RangeFrom", "RangeFull") else hi.a[0] if hi.op == "int" else None
                if lo is None or hi is None: return None
                if n == "RangeToInclusive": hi += 1
                if not (0 <= lo <= hi <= len(x.a)): return []
                return [(st, mk("array", *x.a[lo:hi]))]
            if x.op == "array" and i.op == "int" and not 0 <= i.a[0] < len(x.a): return []
            return None
        if path.startswith("core::slice::<impl [T]>::") and last in ("get", "get_mut", "first", "last", "first_mut", "last_mut", "split_last", "split_first"):
            x = d(st, args[0])
            if x.op != "array": return None
            if last in ("get", "get_mut"):
                i = d(st, args[1])
                if i.op != "int": return None
                i = i.a[0]
            else: i = 0 if "first" in last else len(x.a) - 1
            if not 0 <= i < len(x.a): return [(st, NONE)]
            if last == "split_last": return [(st, SOME(mk("tuple", x.a[-1], mk("array", *x.a[:-1]))))]
            if last == "split_first": return [(st, SOME(mk("tuple", x.a[0], mk("array", *x.a[1:]))))]
            if last.endswith("_mut") and args[0].op == "ref":
                root, pth = self.loc(st, args[0])
                return [(st, SOME(mk("ref", root, pth + (("i", INT(i)),))))]
            return [(st, SOME(x.a[i]))]
        return None

    def unwrap_uninit(self, x, st):
        x = self.deref(st, x)
        x = st.mem.get(("T", x), x)
        # Box<MaybeUninit<[T;N]>> initialised in place: value stored under nested fields
        for _ in range(8):
            if x.op == "with" and x.a[1]:
                x = x.a[1][-1][1]
            elif x.op == "adt" and len(x.a[2]) >= 1:
                x = x.a[2][-1][1]
            else: break
        return x

    def disp_impl(self, g):
        for i in self.F.impls.get("core::fmt::Display::fmt", []):
            if self.F.fns[i].self_ty == g: return i
        return None

    def run_display(self, g, x, st, depth, stack):
        i = self.disp_impl(g)
        if i in stack or depth >= self.max_depth: return [(st, mk("disp", x))]
        out = []
        w = mk("fmtr", i, x)
        for s2, r in self.run(self.F.fns[i], [x, mk("ref", ("W", w), ())], st, depth + 1, stack + (i,)):
            v = s2.mem.get(("W", w))
            out.append((s2, v if v is not None else mk("disp", x)))
        return out

    def equality(self, st, a, b, ne):
        if a is b and a.op in ("str", "int", "bool"): return [(st, BOOL(not ne))]
        if a.op in ("str", "int", "bool") and b.op == a.op:
            return [(st, BOOL((a.a[0] == b.a[0]) != ne))]
        if a.op == b.op and a.op in ("tuple", "array") and ground(a) and ground(b): return [(st, BOOL((a is b) != ne))]
        va, vb = self.variant(st, a), self.variant(st, b)
        if va is not None and vb is not None:
            if va != vb: return [(st, BOOL(ne))]
            if a.op == "adt" and b.op == "adt" and not a.a[2] and not b.a[2]: return [(st, BOOL(not ne))]
            if a.op == "adt" and b.op == "adt" and len(a.a[2]) == len(b.a[2]) == 1:
                return self.equality(st, a.a[2][0][1], b.a[2][0][1], ne)
            if (a.op == "adt" and not a.a[2]) or (b.op == "adt" and not b.a[2]): return [(st, BOOL(not ne))]
        for x, y in ((a, b), (b, a)):
            if x.op == "adt" and not x.a[2] and y.op != "adt" and x.a[0] in self.F.variants and len(self.F.variants[x.a[0]]) > 1:
                out = []
                ex = st.excl.get(y, frozenset())
                if x.a[1] not in ex:
                    s2 = st.fork(); s2.ref[y] = x.a[1]; s2.cond = (s2.cond, ("is", y, x.a[1]))
                    out.append((s2, BOOL(not ne)))
                s3 = st.fork(); e = ex | {x.a[1]}
                rest = [v for v in self.F.variants[x.a[0]] if v not in e]
                if len(rest) == 1:
                    s3.ref[y] = rest[0]; s3.cond = (s3.cond, ("is", y, rest[0]))
                else:
                    s3.excl[y] = e; s3.cond = (s3.cond, ("notin", y, tuple(sorted(e))))
                if rest: out.append((s3, BOOL(ne)))
                return out
        t = mk("Eq", *sorted2(a, b))
        if SIMP is not None: t = SIMP(t)
        if t.op == "bool": return [(st, BOOL(t.a[0] != ne))]
        r = st.ref.get(t)
        if r is not None and not isinstance(r, str): t = r
        return [(st, neg(t) if ne else t)]

    def optres(self, fn, st, name, last, args, line, depth, stack):
        x = self.deref(st, args[0])
        opt = "option::Option" in name
        good, bad = ("Some", "None") if opt else ("Ok", "Err")
        if last in ("is_some", "is_ok", "is_none", "is_err"):
            want = good if last in ("is_some", "is_ok") else bad
            return [(s2, BOOL(v == want)) for s2, v in self.fork_variant(st, x, None, (good, bad))]
        if last in ("unwrap", "expect", "unwrap_unchecked"):
            v = self.variant(st, x)
            if v == bad:
                if self.panics: self.diverged.append((st, name, line, fn.id))
                return []
            if self.panics and v is None:
                self.diverged.append((st, name, line, fn.id))
            if args[0].op == "ref" and x.op == "adt":            # through as_mut: a reference to the value inside
                rr = args[0]
                while getp(self.load_root(st, rr.a[0]), rr.a[1]).op == "ref": rr = getp(self.load_root(st, rr.a[0]), rr.a[1])
                return [(st, mk("ref", rr.a[0], rr.a[1] + (("v", good), ("f", "0"))))]
            return [(st, self.refined(st, getf(downcast(x, good), "0")))]
        if last in ("as_ref", "as_mut", "cloned", "copied", "as_deref", "as_deref_mut"):
            return [(st, x)]
        if last in ("unwrap_or", "unwrap_or_default", "unwrap_or_else"):
            out = []
            for s2, v in self.fork_variant(st, x, None, (good, bad)):
                if v == good: out.append((s2, getf(downcast(x, good), "0")))
                elif last == "unwrap_or": out.append((s2, args[1]))
                elif last == "unwrap_or_else":
                    out += self.call_value(fn, s2, args[1], [] if opt else [getf(downcast(x, bad), "0")], line, depth, stack)
                else:
                    d = "<%s as core::default::Default>::default" % getattr(self, "dest_ty", "")
                    out += self.apply(fn, s2, d, d, [], line, depth, stack) if d in self.F.fns else [(s2, mk("default"))]
            return out
        if last in ("map_err", "map", "ok_or", "ok_or_else", "and_then", "or_else", "ok", "err", "map_or"):
            out = []
            for s2, v in self.fork_variant(st, x, None, (good, bad)):
                pay = self.refined(s2, getf(downcast(x, v), "0")) if v != "None" else None
                if last == "map_err":
                    if v == good: out.append((s2, x if x.op == "adt" else OK(pay)))
                    else: out += [(s3, ERR(r)) for s3, r in self.call_value(fn, s2, args[1], [pay], line, depth, stack)]
                elif last == "map":
                    if v == good: out += [(s3, SOME(r) if opt else OK(r)) for s3, r in self.call_value(fn, s2, args[1], [pay], line, depth, stack)]
                    else: out.append((s2, NONE if opt else ERR(pay)))
                elif last == "ok_or": out.append((s2, OK(pay) if v == good else ERR(args[1])))
                elif last == "ok_or_else":
                    if v == good: out.append((s2, OK(pay)))
                    else: out += [(s3, ERR(r)) for s3, r in self.call_value(fn, s2, args[1], [], line, depth, stack)]
                elif last == "and_then":
                    if v == good: out += self.call_value(fn, s2, args[1], [pay], line, depth, stack)
                    else: out.append((s2, NONE if opt else ERR(pay)))
                elif last == "or_else":
                    if v == good: out.append((s2, x))
                    else: out += self.call_value(fn, s2, args[1], [] if opt else [pay], line, depth, stack)
                elif last == "ok": out.append((s2, SOME(pay) if v == good else NONE))
                elif last == "err": out.append((s2, SOME(pay) if v == bad else NONE))
                elif last == "map_or":
                    if v == good: out += self.call_value(fn, s2, args[2], [pay], line, depth, stack)
                    else: out.append((s2, args[1]))
            return out
        if last == "take":
            self.store_through(st, args[0], NONE)
            return [(st, x)]
        return None

    def call_value(self, fn, st, cl, args, line, depth, stack):
        c = self.deref(st, cl)
        if c.op == "closure" and c.a[0] in self.F.fns:
            return list(self.run(self.F.fns[c.a[0]], [cl] + list(args), st, depth + 1, stack))
        if c.op == "fn":
            return self.apply(fn, st, c.a[0], c.a[1], list(args), line, depth, stack,
                              {"k": "fn", "p": c.a[1], "r": c.a[0], "g": []})
        return [(st, mk("call", "indirect", c, *args))]

    def collections(self, st, name, last, args):
        d = self.deref
        isstr = "alloc::string::String" in name and "Vec" not in name.split(">::")[-1]
        if last in ("new", "with_capacity") and ("Vec::<" in name or "LinkedList::<" in name):
            return [(st, mk("array"))]
        if last in ("new", "with_capacity") and "String::" in name: return [(st, STR(""))]
        if last in ("push", "push_back") and not "String::push" in name:
            v = d(st, args[0]); x = args[1]
            x = d(st, x) if x.op == "ref" and not (self.keep_refs and x.a[0][0] == "T") else x
            self.store_through(st, args[0], mk("array", *(v.a + (x,))) if v.op == "array" else self.vcat(v, mk("array", x)))
            return [(st, UNIT)]
        if last == "pop" and "Vec::<" in name:
            v = d(st, args[0])
            if v.op == "array":
                if not v.a: return [(st, NONE)]
                self.store_through(st, args[0], mk("array", *v.a[:-1]))
                return [(st, SOME(v.a[-1]))]
            return None
        if last in ("remove", "swap_remove", "insert", "truncate", "split_off") and "Vec::<" in name and len(args) > 1:
            v, i = d(st, args[0]), d(st, args[1])
            if v.op != "array" or i.op != "int": return None
            i = i.a[0]; w = v.a
            if last == "truncate": self.store_through(st, args[0], mk("array", *w[:i])); return [(st, UNIT)]
            if i > len(w) or i == len(w) and last in ("remove", "swap_remove"): return []  # panics
            if last == "insert":
                x = args[2]; x = d(st, x) if x.op == "ref" and not (self.keep_refs and x.a[0][0] == "T") else x
                self.store_through(st, args[0], mk("array", *(w[:i] + (x,) + w[i:]))); return [(st, UNIT)]
            if last == "split_off": self.store_through(st, args[0], mk("array", *w[:i])); return [(st, mk("array", *w[i:]))]
            rest = w[:i] + w[i + 1:] if last == "remove" else w[:i] + ((w[-1],) if i + 1 < len(w) else ()) + w[i + 1:-1]
            self.store_through(st, args[0], mk("array", *rest)); return [(st, w[i])]
        if last == "reverse" and "[T]" in name and d(st, args[0]).op == "array":
            self.store_through(st, args[0], mk("array", *d(st, args[0]).a[::-1])); return [(st, UNIT)]
        if last == "clear" and "Vec::<" in name and d(st, args[0]).op == "array":
            self.store_through(st, args[0], mk("array")); return [(st, UNIT)]
        if last in ("append", "extend_from_slice") or (last == "extend"):
            v, x = d(st, args[0]), d(st, args[1])
            if x.op == "iter": x = x.a[0]
            if last == "append" and args[1].op == "ref": self.store_through(st, args[1], mk("array"))
            self.store_through(st, args[0], self.vcat(v, x))
            return [(st, UNIT)]
        if last == "push_str" or name.endswith("String::push"):
            v, x = d(st, args[0]), d(st, args[1])
            self.store_through(st, args[0], cat(v, x))
            return [(st, UNIT)]
        if last in ("add",) and "String" in name:
            return [(st, cat(d(st, args[0]), d(st, args[1])))]
        if last == "add_assign" and "String" in name:
            self.store_through(st, args[0], cat(d(st, args[0]), d(st, args[1])))
            return [(st, UNIT)]
        if name.endswith("String::pop"):
            v = d(st, args[0])
            l = v.a[-1] if v.op == "cat" else v
            if l.op == "str" and l.a[0]:
                h = STR(l.a[0][:-1])
                self.store_through(st, args[0], cat(*(v.a[:-1] + (h,))) if v.op == "cat" else h)
                return [(st, SOME(mk("int", ord(l.a[0][-1]))))]
            if v.op == "str": return [(st, NONE)]
        if last == "is_empty":
            v = d(st, args[0])
            if v.op == "array": return [(st, BOOL(len(v.a) == 0))]
            if v.op == "str": return [(st, BOOL(v.a[0] == ""))]
            return [(st, mk("Eq", INT(0), mk("len", v)))]
        return None

    def vcat(self, a, b):
        la = a.a if a.op == "vcat" else ((a,) if not (a.op == "array" and not a.a) else ())
        lb = b.a if b.op == "vcat" else ((b,) if not (b.op == "array" and not b.a) else ())
        out = []
        for x in la + lb:
            if x.op == "array" and out and out[-1].op == "array": out[-1] = mk("array", *(out[-1].a + x.a))
            else: out.append(x)
        if not out: return mk("array")
        if len(out) == 1: return out[0]
        return mk("vcat", *out)
