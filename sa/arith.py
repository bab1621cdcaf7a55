"""Normal forms for integer / modular terms: polynomials modulo p, with the residue
operator M(x) recognised whatever way it is spelled."""
from . import ev
from .ev import mk, INT, BOOL, T, TRUE, FALSE


def nonneg(t):
    if t.op == "int": return t.a[0] >= 0
    if t.op in ("M", "len", "bits", "nat"): return True
    if t.op in ("Add", "Mul", "Div", "Rem", "BitAnd", "BitOr", "BitXor", "Shl", "Shr"): return nonneg(t.a[0]) and nonneg(t.a[1])
    if t.op == "call" and t.a[0].endswith("::bits"): return True
    if is_field(t): return True
    return False


def is_field(t):
    return t.op == "param" and str(t.a[0]) in ("field", "p")


def poly(t, p):
    """dict monomial(sorted tuple of atoms by repr) -> coeff ; residues modulo p are transparent when p given"""
    if t.op == "int": return {(): t.a[0]} if t.a[0] else {}
    if p is not None and t is p: return {}
    if t.op == "M" and t.a[1] is p: return poly(t.a[0], p)
    if t.op == "poly": return dict(t.a[0])
    if t.op in ("Add", "Sub"):
        a, b = poly(t.a[0], p), poly(t.a[1], p)
        r = dict(a)
        for m, c in b.items():
            r[m] = r.get(m, 0) + (c if t.op == "Add" else -c)
            if r[m] == 0: del r[m]
        return r
    if t.op == "Neg":
        return {m: -c for m, c in poly(t.a[0], p).items()}
    if t.op == "Mul":
        r = {}
        a, b = poly(t.a[0], p), poly(t.a[1], p)
        if len(a) * len(b) <= 64:
            for m1, c1 in a.items():
                for m2, c2 in b.items():
                    m = tuple(sorted(m1 + m2, key=repr))
                    r[m] = r.get(m, 0) + c1 * c2
                    if r[m] == 0: del r[m]
            return r
    return {(t,): 1}


def unpoly(d):
    t = None
    for m, c in sorted(d.items(), key=lambda x: (len(x[0]), repr(x[0]))):
        x = None
        for a in m: x = a if x is None else mk("Mul", x, a)
        if x is None: x = INT(c)
        elif c != 1: x = mk("Mul", INT(c), x)
        t = x if t is None else mk("Add", t, x)
    return t if t is not None else INT(0)


def M(x, p):
    d = poly(x, p)
    t = unpoly(d)
    if t.op == "int" and 0 <= t.a[0] < 1000 and is_field(p): return t
    return mk("M", t, p)


def simp(t):
    o = t.op
    if o == "Rem":
        x, p = t.a
        if x.op == "M" and x.a[1] is p: return x
        if x.op == "Add":
            for u, v in ((x.a[0], x.a[1]), (x.a[1], x.a[0])):
                if v is p:
                    if u.op == "Rem" and u.a[1] is p: return M(u.a[0], p)
                    if u.op == "M" and u.a[1] is p: return u
                    if u.op == "int" and abs(u.a[0]) < 1000 and is_field(p): return M(u, p)
        if nonneg(x): return M(x, p)
        return t
    if o in ("Lt", "Le"):
        a, b = t.a
        if o == "Le" and a.op == "Add" and INT(1) in a.a:
            o2 = a.a[1] if a.a[0] is INT(1) else a.a[0]
            return simp(mk("Lt", o2, b))
        if o == "Le" and b.op == "Sub" and b.a[1] is INT(1):
            return simp(mk("Lt", a, b.a[0]))
        if a.op == "M" and a.a[1] is b: return TRUE
        if b.op == "M" and b.a[1] is a: return FALSE
        if b is INT(0) and nonneg(a): return FALSE if o == "Lt" else t
        if a is INT(0) and o == "Le" and nonneg(b): return TRUE
        if b.op == "int" and a.op == "Div" and is_field(a.a[0]) and b.a[0] < 1000: return FALSE
        if a.op == "int" and is_field(b): return TRUE
        if a.op == "int" and b.op == "int":
            return BOOL(a.a[0] < b.a[0] if o == "Lt" else a.a[0] <= b.a[0])
        return t
    if o == "Eq":
        a, b = t.a
        if a is b: return TRUE
        if a.op == "int" and b.op == "int": return BOOL(a.a[0] == b.a[0])
        return t
    if o in ("Add", "Sub"):
        if t.a[1] is INT(0): return t.a[0]
        if o == "Add" and t.a[0] is INT(0): return t.a[1]
    return t


class installed:
    def __enter__(self): ev.SIMP = simp
    def __exit__(self, *a): ev.SIMP = None
