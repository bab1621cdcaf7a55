"""A character-processing function as a finite transducer: its loops are cut at the calls that fetch the next character,
each loop-free segment is abstractly interpreted over the finite alphabet of character classes the function distinguishes,
and the resulting transition system is compared with a reference transducer by exploring their product (pending output is
bounded), so the comparison covers inputs of every length."""
from .ev import *
from . import iters

REP = {1: 0x61, 2: 0xE9, 3: 0x20AC, 4: 0x1F600}   # one representative of the other characters per UTF-8 length


class Undecided(Exception): pass


def alphabet(F, f, extra=""):
    """character constants the function (and what it calls locally) distinguishes"""
    out = set(map(ord, extra))
    ids = [f.id] + [x for x in F.reach([f.id]) if x in F.fns and x.startswith(f.id.rsplit("::", 1)[0])]

    def walk(o):
        if isinstance(o, dict):
            if o.get("k") == "int" and o.get("ty") == "char": out.add(o["v"])
            if o.get("k") == "str": out.update(ord(c) for c in str(o.get("v", "")) if len(str(o.get("v", ""))) <= 3)
            return
        if isinstance(o, (list, tuple)):
            for x in o: walk(x)
    for i in ids:
        g = F.fns[i]
        for b in g.bbs:
            walk(b["s"])
            t = b["t"]
            walk(t)
            if t[0] == "sw":
                for v, _ in t[2]:
                    if isinstance(v, int) and 9 <= v < 0x110000: out.add(v)
    return sorted(out) + [r for r in REP.values() if r not in out]


def chars_of(E, st, v):
    v = E.deref(st, v)
    if v.op == "str": return tuple(ord(c) for c in v.a[0])
    if v.op == "array" and all(x.op == "int" for x in v.a): return tuple(x.a[0] for x in v.a)
    if v.op == "int": return (v.a[0],)
    return None


def engine(F, alpha):
    def nx(E, st, name, args, fn, line):
        out = []
        ended = st.mem.get(("G", "end")) is TRUE or NONE in st.mem[("G", "in")].a
        for c in ([] if ended else alpha) + [None]:
            s = st.fork()
            s.mem[("G", "in")] = mk("array", *(s.mem[("G", "in")].a + ((INT(c) if c is not None else NONE),)))
            out.append((s, SOME(INT(c)) if c is not None else NONE))
        return out

    def new(E, st, name, args, fn, line): return [(st, mk("array"))]

    def push(E, st, name, args, fn, line):
        a, b = chars_of(E, st, args[0]), chars_of(E, st, args[1])
        if a is None or b is None: raise Undecided("string operation on %s" % show(args[1])[:60])
        E.store_through(st, args[0], mk("array", *[INT(c) for c in a + b]))
        return [(st, UNIT)]

    def utf8(E, st, name, args, fn, line):
        c = E.deref(st, args[0])
        if c.op == "int": return [(st, INT(len(chr(c.a[0]).encode("utf8"))))]
        return NotImplemented

    def rep(E, st, name, args, fn, line):
        c, n = chars_of(E, st, args[0]), E.deref(st, args[1])
        if c is None or n.op != "int": return NotImplemented
        return [(st, mk("array", *[INT(x) for x in c * n.a[0]]))]

    def isws(E, st, name, args, fn, line):
        c = E.deref(st, args[0])
        if c.op == "int": return [(st, BOOL(chr(c.a[0]).isspace()))]
        return NotImplemented
    I = {r"core::str::iter::Chars<'a> as core::iter::traits::iterator::Iterator>::next$": nx,
         r"string::String::(new|with_capacity)$": new, r"string::String::push(_str)?$": push,
         r"String as core::ops::arith::AddAssign.*add_assign$": push,
         r"char>::len_utf8$": utf8, r"str>::repeat$": rep, r"char>::is_whitespace$": isws}
    I.update(iters.intrinsics())
    return Ev(F, intrinsics=I, loop_visits=12)


def compare(F, f, ref0, step, finish, extra="", wild=None):
    """ref: step(state, char) -> (state, output tuple); finish(state) -> (output, ok).  -> (violation or None, configurations, transitions)
    `wild(c_out, ref_out)` says whether a produced character is acceptable where the reference has another."""
    alpha = alphabet(F, f, extra)
    E = engine(F, alpha)
    cuts = set()
    for i, b in enumerate(f.bbs):
        t = b["t"]
        if t[0] == "call" and t[1][0] == "c" and "Chars<'a> as core::iter::traits::iterator::Iterator>::next" in (t[1][1].get("r") or ""):
            cuts.add(i)
    if not cuts: raise Undecided("%s does not fetch characters one by one" % f.id)
    live = f.live_in()
    seen = {}; work = []
    ntr = 0

    def emit(locs):
        """take the text produced so far out of the string local"""
        out = ()
        for l in list(locs):
            v = locs[l]
            if v.op == "array" and v.a and all(x.op == "int" for x in v.a):
                out += tuple(x.a[0] for x in v.a); locs[l] = mk("array")
            if v.op in ("mut", "call") and "String" in show(v): raise Undecided("text built by %s" % show(v)[:60])
        return out

    def widen(bb, locs):
        d = {}
        for l, v in locs.items():
            ty = f.locals[l][0]
            if l in live[bb] or l == 0:
                if v.op == "int" and ty == "usize": v = PARAM("n%d" % l)      # positions are not compared
                if any_arith(v): v = PARAM("n%d" % l)
                d[l] = v
        return d

    def any_arith(v): return isinstance(v, T) and v.op in ("Add", "Sub", "Mul")

    def feed(rs, pend, inp):
        """advance the reference on the consumed input"""
        fin = None
        for x in inp:
            if x is NONE:
                if fin is None: o, ok = finish(rs); fin = ok; pend = pend + o
            elif fin is None:
                rs, o = step(rs, x.a[0]); pend = pend + o
        return rs, pend, fin

    def match(pend, out):
        k = min(len(pend), len(out))
        for a, b in zip(pend, out):
            if a != b and not (wild and wild(b, a)): return None
        return pend[k:], out[k:]

    def start(bb, locs, rs, pend, trace, fin=None):
        key = (fin, bb, tuple(sorted((l, v) for l, v in ((l, repr(v)) for l, v in locs.items()))), rs, pend)
        if key not in seen:
            seen[key] = True
            if len(seen) > 4000: raise Undecided("too many configurations in %s" % f.id)
            work.append((bb, locs, rs, pend, trace, fin))

    st = St(); st.mem[("G", "in")] = mk("array")
    init = {i + 1: PARAM(f.name(i + 1) or "a%d" % i) for i in range(f.nargs)}

    def run(bb, locs, rs, pend, trace, fin0=None):
        nonlocal ntr
        s0 = St(); s0.mem[("G", "in")] = mk("array"); s0.mem[("G", "end")] = BOOL(fin0 is not None)
        for s, b2, x in E.segment(f, s0, bb, locs, cuts):
            ntr += 1
            inp = s.mem[("G", "in")].a
            tr = trace + [("<end>" if c is NONE else chr(c.a[0])) for c in inp]
            r2, p2, fin = feed(rs, pend, inp) if fin0 is None else (rs, pend, fin0)
            word = "".join(tr)
            if b2 is None:
                v = E.deref(s, x)
                if v.op != "adt" or v.a[1] not in ("Ok", "Err"): raise Undecided("result of %s" % f.id)
                if fin is None: return "returns before the end of the input after reading %r" % word
                if (v.a[1] == "Ok") != fin: return "%s after reading %r" % ("accepts the text" if v.a[1] == "Ok" else "rejects the text", word)
                if v.a[1] == "Ok":
                    out = chars_of(E, s, getf(v, "0"))
                    if out is None: raise Undecided("text returned by %s" % f.id)
                    m = match(p2, out)
                    if m is None or m[0] or m[1]: return "after reading %r the text ends with %r instead of %r" % (word, "".join(map(chr, out)), "".join(map(chr, p2)))
                continue
            locs2 = widen(b2, x)
            out = emit(locs2)
            m = match(p2, out)
            if m is None or m[1]: return "after reading %r it writes %r where %r is due" % (word, "".join(map(chr, out)), "".join(map(chr, p2)))
            if len(m[0]) > 24: return "after reading %r nothing is written for %d characters" % (word, len(m[0]))
            start(b2, locs2, r2, m[0], tr[-24:], fin)
        return None

    bad = run(0, init, ref0, (), [])
    while work and bad is None:
        bad = run(*work.pop())
    return bad, len(seen), ntr, E
