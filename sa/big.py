"""Arithmetic on known big integers (num_bigint), byte arrays and JSON objects."""
from .ev import mk, INT, UNIT, TRUE, FALSE
from .exec_model import STR, SOME, NONE, OK, ERR

B = r"num_bigint\w*::(bigint|biguint)::\w+"


def _op(n, f):
    def h(E, st, name, args, fn, line):
        v = [E.deref(st, a) for a in args[:n]]
        if len(v) < n or any(x.op not in ("int", "str", "bytes") for x in v): return NotImplemented
        r = f(*[x.a[0] for x in v])
        return [] if r is None else [(st, r if not isinstance(r, int) or isinstance(r, bool) else INT(r))]
    return h


def _div(a, b): return None if b == 0 else (abs(a) // abs(b)) * (1 if (a < 0) == (b < 0) else -1)
def _rem(a, b): return None if b == 0 else a - b * _div(a, b)


def _inv(a, m):
    try: return SOME(INT(pow(a, -1, m)))
    except ValueError: return NONE


def _digits(s, r):
    t = bytes(s).decode() if not isinstance(s, str) else s
    try: return SOME(INT(int(t, r)))
    except ValueError: return NONE


def _parse(E, st, name, args, fn, line):
    v = E.deref(st, args[0])
    if v.op != "str": return NotImplemented
    try: return [(st, OK(INT(int(v.a[0]))))]
    except ValueError: return [(st, ERR(mk("err", STR("parse"))))]


def _bytes(order):
    def f(a):
        b = abs(a).to_bytes(max(1, (abs(a).bit_length() + 7) // 8), order)
        return mk("tuple", mk("sign", INT((a > 0) - (a < 0))), mk("array", *[INT(x) for x in b]))
    return f


def _frombytes(order):
    def h(E, st, name, args, fn, line):
        v = E.deref(st, args[0])
        if v.op != "array": return NotImplemented
        x = [E.deref(st, y) for y in v.a]
        if any(y.op != "int" for y in x): return NotImplemented
        return [(st, INT(int.from_bytes(bytes(y.a[0] for y in x), order)))]
    return h


def _slice(E, st, name, args, fn, line):
    v, r = E.deref(st, args[0]), E.deref(st, args[1])
    if v.op != "array" or r.op != "adt" or "range" not in r.a[0].lower(): return NotImplemented
    f = dict(r.a[2]); g = lambda k: E.deref(st, f[k]) if k in f else None
    lo, hi = g("start"), g("end")
    if any(x is not None and x.op != "int" for x in (lo, hi)): return NotImplemented
    lo = lo.a[0] if lo is not None else 0; hi = hi.a[0] + ("Inclusive" in r.a[0]) if hi is not None else len(v.a)
    return [(st, mk("array", *v.a[lo:hi]))] if 0 <= lo <= hi <= len(v.a) else []


def _copy(E, st, name, args, fn, line):
    x, y = E.deref(st, args[0]), E.deref(st, args[1])
    if y.op != "array" or x.op == "array" and len(x.a) != len(y.a): return NotImplemented
    E.store_through(st, args[0], y); return [(st, UNIT)]


def _put(E, st, name, args, fn, line):
    m, k, v = [E.deref(st, a) for a in args[:3]]
    if m.op != "array": return NotImplemented
    E.store_through(st, args[0], mk("array", *([x for x in m.a if x.a[0] is not k] + [mk("tuple", k, v)]))); return [(st, NONE)]


def intrinsics():
    arith = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "div": _div, "rem": _rem, "shl": lambda a, b: a << b, "shr": lambda a, b: a >> b}
    out = {r"^<&?(\S*)" + B + r" as core::ops::\w+::\w+(<.*>)?>::%s$" % k: _op(2, f) for k, f in arith.items()}
    out.update({r"^<" + B + r" as core::convert::From<.*>>::from$": _op(1, lambda a: a), r"^" + B + r"::bits$": _op(1, lambda a: abs(a).bit_length()), r"^<" + B + r" as .*ModInverse<.*>>::mod_inverse$": _op(2, _inv),
                r"^<" + B + r" as .*ToPrimitive>::to_(u64|usize|u32|i64)$": _op(1, lambda a: SOME(INT(a)) if 0 <= a < 1 << 64 else NONE), r"^" + B + r"::parse_bytes$": _op(2, _digits), r"^" + B + r"::to_str_radix$": _op(2, lambda a, r: STR(str(a)) if r == 10 else NotImplemented),
                r"^" + B + r"::to_bytes_be$": _op(1, _bytes("big")), r"^" + B + r"::to_bytes_le$": _op(1, _bytes("little")), r"core::str::<impl str>::parse(::<.*>)?$": _parse,
                r"::from_be_bytes$": _frombytes("big"), r"::from_le_bytes$": _frombytes("little"), r"Vec<T, A> as core::ops::index::Index<I>>::index$": _slice, r"slice::<impl \[T\]>::copy_from_slice$": _copy,
                r"serde_json::map::Map::<.*>::new$": lambda E, st, name, args, fn, line: [(st, mk("array"))], r"serde_json::map::Map::<.*>::insert$": _put,
                r"serde_json::value::to_value(::<.*>)?$": lambda E, st, name, args, fn, line: [(st, OK(E.deref(st, args[0])))]})
    return out
