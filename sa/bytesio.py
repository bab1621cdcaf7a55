"""Files written and read through a cursor: an abstract file is a list of byte strings at known offsets.
A byte string is an array of known bytes or bstr(part...) whose parts are known bytes or le(x,n), the n little-endian bytes of a number x."""
import re
from .ev import mk, INT, UNIT, TRUE, FALSE
from .exec_model import STR, SOME, NONE, OK, ERR


def plen(p): return p.a[1].a[0] if p.op == "le" else 1


def parts(t):
    """the parts of a byte string, or None"""
    if t.op == "array": return None if any(x.op not in ("int", "le") for x in t.a) else list(t.a)
    if t.op == "bstr": return list(t.a)
    if t.op == "bytes": return [INT(b) for b in t.a[0]]
    if t.op == "str": return [INT(b) for b in t.a[0].encode()]
    return None


def size(t):
    p = parts(t)
    return None if p is None else sum(map(plen, p))


def make(ps): return mk("array", *ps) if all(p.op == "int" for p in ps) else mk("bstr", *ps)


def rep(n):
    """length of [x; n]"""
    if isinstance(n, str): return int(n) if n.isdigit() else None
    return n.a[0] if n.op == "int" else None


def cursor(st):
    pos = 0
    for n, a, *_ in st.events():
        if n in ("io:write", "io:read"): pos = a[0].a[0] + a[1].a[0]
        elif n == "io:seek": pos = a[0].a[0]
    return pos


def end(st): return max([a[0].a[0] + a[1].a[0] for n, a, *_ in st.events() if n == "io:write"] or [0])


def content(events):
    """{offset: (length, parts)} of the file after the events; an overwrite replaces what starts at the same offset with the same length; None when they overlap otherwise"""
    out = {}
    for n, a, *_ in events:
        if n != "io:write": continue
        o = a[0].a[0]
        for p in parts(a[2]):
            out[o] = p; o += plen(p)
    # flatten and check overlaps
    pos = 0; flat = []
    for o in sorted(out):
        if o != pos: return None
        flat.append(out[o]); pos = o + plen(out[o])
    return flat


class Reader:
    """walks the parts of a file"""

    def __init__(self, ps): self.p = ps; self.i = 0; self.pos = 0

    def done(self): return self.i >= len(self.p)

    def take(self, n):
        """the next n bytes: a list of parts, None when a number is cut or the file ends"""
        out = []; k = 0
        while k < n:
            if self.i >= len(self.p): return None
            x = self.p[self.i]; self.i += 1; k += plen(x); out.append(x)
        if k != n: return None
        self.pos += n
        return out

    def num(self, n):
        """an n-byte number: an int, or a term"""
        x = self.take(n)
        if x is None: return None
        if len(x) == 1 and x[0].op == "le": return x[0].a[0]
        if any(y.op != "int" for y in x): return None
        return int.from_bytes(bytes(y.a[0] for y in x), "little")


def at(ps, o, n):
    """parts of the n bytes at offset o of a file"""
    r = Reader(ps)
    if o and r.take(o) is None: return None
    return r.take(n)


def intrinsics(read=None):
    """read: the parts of the file that is read"""
    def write(E, st, name, args, fn, line):
        v = E.deref(st, args[1]); n = size(v)
        if n is None: E.event(st, "io:lost", (v,), line, fn); return NotImplemented
        E.event(st, "io:write", (INT(cursor(st)), INT(n), v), line, fn)
        return [(st, OK(INT(n) if name.endswith("write") else UNIT))]

    def seek(E, st, name, args, fn, line):
        v = E.deref(st, args[1])
        if v.op != "adt": return NotImplemented
        k = v.a[1]; x = E.deref(st, dict(v.a[2])["0"])
        if x.op != "int": return NotImplemented
        p = {"Start": 0, "Current": cursor(st), "End": end(st) if read is None else sum(map(plen, read))}[k] + x.a[0]
        if p < 0: return [(st, ERR(mk("ioerr", STR("seek"))))]
        E.event(st, "io:seek", (INT(p),), line, fn); return [(st, OK(INT(p)))]

    def rd(E, st, name, args, fn, line):
        buf = E.deref(st, args[1])
        n = len(buf.a) if buf.op == "array" else rep(buf.a[1]) if buf.op == "repeat" else size(buf)
        if n is None: return NotImplemented
        o = cursor(st); x = at(read, o, n) if n else []
        if x is None: return [(st, ERR(mk("ioerr", STR("read"))))]
        E.store_through(st, args[1], make(x)); E.event(st, "io:read", (INT(o), INT(n)), line, fn)
        return [(st, OK(UNIT))]

    def extend(E, st, name, args, fn, line):
        a, b = E.deref(st, args[0]), E.deref(st, args[1])
        pa, pb = parts(a), parts(b)
        if pa is None or pb is None: return NotImplemented
        E.store_through(st, args[0], make(pa + pb)); return [(st, UNIT)]

    def fmt(E, st, name, args, fn, line):
        b, n = E.deref(st, args[0]), E.deref(st, args[1])
        if b.op == "lebytes" and n.op == "int": return [(st, mk("tuple", mk("bstr", mk("le", b.a[0], n)), n))]
        return NotImplemented

    def tole(E, st, name, args, fn, line):
        x = E.deref(st, args[0])
        if x.op == "int": return NotImplemented
        return [(st, mk("tuple", mk("sign", x), mk("lebytes", x)))]

    def fromle(E, st, name, args, fn, line):
        x = E.deref(st, args[1]); p = parts(x)
        if p is None: return NotImplemented
        if len(p) == 1 and p[0].op == "le": return [(st, p[0].a[0])]
        if any(y.op != "int" for y in p): return NotImplemented
        return [(st, INT(int.from_bytes(bytes(y.a[0] for y in p), "little")))]

    def ln(E, st, name, args, fn, line):
        x = E.deref(st, args[0])
        if x.op in ("bstr", "bytes"): return [(st, INT(size(x)))]
        return NotImplemented

    def key(E, st, x):
        x = E.deref(st, x)
        if x.op in ("int", "str"): return x.a[0]
        if x.op == "array":
            k = [key(E, st, y) for y in x.a]
            return None if None in k else tuple(k)
        if x.op == "tuple":
            k = [key(E, st, y) for y in x.a]
            return None if None in k else tuple(k)
        return None

    def sort(E, st, name, args, fn, line):
        v = E.deref(st, args[0])
        if v.op != "array": return NotImplemented
        ks = [key(E, st, y) for y in v.a]
        if None in ks: return NotImplemented
        E.store_through(st, args[0], mk("array", *[y for _, _, y in sorted(zip(ks, range(len(ks)), v.a), key=lambda q: q[:2])])); return [(st, UNIT)]

    def gkv(E, st, name, args, fn, line):
        m, k = E.deref(st, args[0]), E.deref(st, args[1])
        if m.op != "array": return NotImplemented
        for e in m.a:
            if e.a[0] is k: return [(st, SOME(e))]
        return [(st, NONE)]

    def asb(E, st, name, args, fn, line):
        x = E.deref(st, args[0])
        return [(st, mk("array", *[INT(b) for b in x.a[0].encode()]))] if x.op == "str" else NotImplemented

    def utf8(E, st, name, args, fn, line):
        x = E.deref(st, args[0])
        if x.op != "array" or any(y.op != "int" for y in x.a): return NotImplemented
        return [(st, OK(STR(bytes(y.a[0] for y in x.a).decode())))]

    def repeat(E, st, name, args, fn, line):
        x, n = E.deref(st, args[0]), E.deref(st, args[1])
        return [(st, mk("array", *([x] * n.a[0])))] if n.op == "int" and n.a[0] < 4096 else NotImplemented

    def same(neg):
        def h(E, st, name, args, fn, line):
            a, b = E.deref(st, args[0]), E.deref(st, args[1])
            if not {"bytes", "bstr", "array"} & {a.op, b.op}: return NotImplemented
            pa, pb = parts(a), parts(b)
            if pa is None or pb is None: return NotImplemented
            if pa != pb and any(x.op == "le" for x in pa + pb): return NotImplemented
            return [(st, TRUE if (pa == pb) != neg else FALSE)]
        return h

    def resize(E, st, name, args, fn, line):
        a, n, x = E.deref(st, args[0]), E.deref(st, args[1]), E.deref(st, args[2])
        pa = parts(a)
        if pa is None or n.op != "int" or n.a[0] > 4096: return NotImplemented
        k = sum(map(plen, pa))
        if k > n.a[0]: return NotImplemented
        E.store_through(st, args[0], make(pa + [x] * (n.a[0] - k))); return [(st, UNIT)]

    def resv(E, st, name, args, fn, line): return [(st, UNIT)]
    W = r"(std::io::Write|io::Write|BufWriter<W>|BufWriter|File|W as [\w:]*Write).*::"
    return {r"cmp::PartialEq<.*>>::eq$": same(False), r"cmp::PartialEq<.*>>::ne$": same(True), r"::(write_all|write)$": write, r"::flush$": lambda E, st, name, args, fn, line: [(st, OK(UNIT))], r"::seek$": seek, r"::read_exact$": rd,
            r"File::(create|open)(::<.*>)?$": lambda E, st, name, args, fn, line: [(st, OK(mk("file")))], r"Buf(Writer|Reader)::<.*>::new$|Buf(Writer|Reader)::new$": lambda E, st, name, args, fn, line: [(st, mk("stream"))],
            r"extend_from_slice(::<.*>)?$": extend, r"r1cs_writer::into_format$": fmt, r"to_bytes_le$": tole, r"::from_bytes_le$": fromle, r"(Vec::<.*>|slice::<impl \[T\]>|Vec<.*>)::len$": ln,
            r"slice::<impl \[T\]>::sort(_unstable)?$": sort, r"HashMap::<.*>::get_key_value(::<.*>)?$": gkv, r"(str>|String)::as_bytes$": asb, r"String::from_utf8$": utf8, r"vec::from_elem(::<.*>)?$": repeat,
            r"Vec::<.*>::resize$|Vec<.*>::resize$": resize, r"::reserve$": resv, r"ToPrimitive>?::to_(usize|u64|i64|u8|u32)$|AsPrimitive<.*>>::as_$": lambda E, st, name, args, fn, line: [(st, E.deref(st, args[0]) if "as_" in name else SOME(E.deref(st, args[0])))],
            r"BigInt as core::convert::From<.*>>::from$": lambda E, st, name, args, fn, line: [(st, E.deref(st, args[0]))]}
