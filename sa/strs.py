"""Operations on known strings (lengths and offsets are bytes of their UTF-8 form, as in Rust)."""
from .ev import mk, INT, UNIT, TRUE, FALSE
from .exec_model import STR, SOME, NONE


def _b(t): return t.a[0].encode()


def _cut(x, lo, hi):
    b = _b(x)
    if not 0 <= lo <= hi <= len(b): return None
    try: return STR(b[lo:hi].decode())
    except UnicodeDecodeError: return None                       # slicing inside a character panics


def _d(E, st, args):
    out = []
    for a in args:
        v = E.deref(st, a)
        out.append(v)
    return out


def _on(n, f):
    """f on deref'd arguments when the first is a known string and the others known; a result of None means the call panics"""
    def h(E, st, name, args, fn, line):
        v = _d(E, st, args)
        if not v or v[0].op != "str" or any(x.op not in ("str", "int") for x in v[1:n]): return NotImplemented
        r = f(*v[:n])
        return [] if r is None else [(st, r)]
    return h


def _index(E, st, name, args, fn, line):
    v = _d(E, st, args)
    if v[0].op != "str" or v[1].op != "adt": return NotImplemented
    f = dict(v[1].a[2]); g = lambda k: E.deref(st, f[k]) if k in f else None
    lo, hi = g("start"), g("end")
    if (lo is not None and lo.op != "int") or (hi is not None and hi.op != "int"): return NotImplemented
    ty = v[1].a[0]
    r = _cut(v[0], lo.a[0] if lo is not None else 0, (hi.a[0] + ("Inclusive" in ty)) if hi is not None else len(_b(v[0])))
    return [] if r is None else [(st, r)]


def _boundary(x, i):
    b = _b(x); k = i.a[0]
    return TRUE if k == 0 or k == len(b) or (0 < k < len(b) and (b[k] & 0xC0) != 0x80) else FALSE


def _split_at(x, i):
    a, b = _cut(x, 0, i.a[0]), _cut(x, i.a[0], len(_b(x)))
    return None if a is None or b is None else mk("tuple", a, b)


def _text(t): return t.a[0] if t.op == "str" else chr(t.a[0]) if t.op == "int" else None      # a char is its code point


def _append(E, st, name, args, fn, line):
    x, y = E.deref(st, args[0]), E.deref(st, args[1])
    if x.op != "str" or _text(y) is None: return NotImplemented
    E.store_through(st, args[0], STR(_text(x) + _text(y))); return [(st, UNIT)]


def _join(E, st, name, args, fn, line):
    x, sep = E.deref(st, args[0]), E.deref(st, args[1])
    if x.op != "array" or _text(sep) is None: return NotImplemented
    ts = [_text(E.deref(st, y)) for y in x.a]
    return NotImplemented if None in ts else [(st, STR(sep.a[0].join(ts)))]


def intrinsics():
    S = r"(core::str::<impl str>|alloc::str::<impl str>|alloc::string::String|<alloc::string::String as .*>|<impl str>)::"
    return {S + r"len$": _on(1, lambda x: INT(len(_b(x)))), S + r"is_empty$": _on(1, lambda x: FALSE if x.a[0] else TRUE),
            S + r"is_char_boundary$": _on(2, _boundary), S + r"split_at$": _on(2, _split_at), r"Index<.*> for str>::index$|<alloc::string::String as core::ops::index::Index<.*>>::index$": _index,
            S + r"(push_str|push)$": _append, r"slice::<impl \[T\]>::(join|concat)(::<.*>)?$": lambda E, st, name, args, fn, line: _join(E, st, name, list(args) + [STR("")], fn, line),
            S + r"chars$": _on(1, lambda x: mk("iter", mk("array", *[INT(ord(c)) for c in x.a[0]]))), r"core::char::methods::<impl char>::len_utf8$": lambda E, st, name, args, fn, line:
                [(st, INT(len(chr(E.deref(st, args[0]).a[0]).encode())))] if E.deref(st, args[0]).op == "int" else NotImplemented}
