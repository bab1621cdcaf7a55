"""Helpers shared by the checks: emitted-code summaries and finite-region evaluation of terms."""
import re
from . import ev
from .ev import mk, ADT, PARAM, STR, INT, BOOL, T, Ev, show
from .mir import Anchor


def method(F, ty_suffix, name, crate=None):
    """the unique method `name` whose self type ends with ty_suffix"""
    r = [f for f in F.find(name, crate, unique=False) if f.self_ty and re.sub(r"<.*", "", f.self_ty.replace("&", "").split(" ")[-1]).endswith(ty_suffix)]
    if len(r) != 1: raise Anchor("expected exactly one method %s::%s, found %s" % (ty_suffix, name, [f.id for f in r]))
    return r[0]


def _wasm_sub(e, st, name, args, fn, line):
    return [(st, mk("array", mk("WASM", e.deref(st, args[0]))))]


def _c_sub(e, st, name, args, fn, line):
    x = e.deref(st, args[0])
    return [(st, mk("tuple", mk("array", mk("CODE", x)), mk("VAL", x)))]


SUBGEN = {r"ir_interface::Instruction as .*WriteWasm>::produce_wasm$": _wasm_sub,
          r"ir_interface::Instruction as .*WriteC>::produce_c$": _c_sub}


def struct(F, suffix, **fields):
    a = F.adt(suffix)
    fs = a["variants"][0][2]
    out = []
    for n, ty in fs:
        out.append((n, fields.pop(n, PARAM(n))))
    if fields: raise Anchor("%s has no field(s) %s" % (suffix, sorted(fields)))
    return ADT(a["id"], a["variants"][0][0], out)


def variant(F, suffix, var, *vals):
    a = F.adt(suffix)
    for n, d, fs in a["variants"]:
        if n == var:
            vals = list(vals)
            return ADT(a["id"], var, [(f[0], vals.pop(0) if vals else PARAM(var + "." + f[0])) for f in fs])
    raise Anchor("type %s has no variant %s" % (suffix, var))


def text(t):
    """code term -> text with <...> placeholders; emitted comment text dropped by `code_lines`"""
    if t.op == "str": return t.a[0]
    if t.op == "cat": return "".join(text(x) for x in t.a)
    if t.op == "disp": return "<%s>" % show(t.a[0])
    return "<%s>" % show(t)


def flatten(t):
    """vec of code pieces -> list of str"""
    if t.op == "array": return [text(x) for x in t.a]
    if t.op == "vcat":
        o = []
        for x in t.a: o += flatten(x)
        return o
    return ["<%s>" % show(t)]


def strip_comments(lines, wasm=False):
    out = []
    for l in lines:
        l = re.sub(r";;.*", "", l) if wasm else re.sub(r"//.*", "", l)
        l = re.sub(r"\s+", " ", l).strip()
        if l: out.append(l)
    return out


# ---------------------------------------------------------------- finite-region evaluation of extracted terms
class Unk(Exception):
    pass


def tdiv(a, b):
    if b == 0: raise Unk("division by zero")
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def val(t, env):
    """value of an extracted arithmetic term in one region (env: term -> int)"""
    if t in env: return env[t]
    o = t.op
    if o in ("int", "bool"): return t.a[0]
    if o == "adt": return t
    if o == "not": return not val(t.a[0], env)
    if o == "Neg": return -val(t.a[0], env)
    if o in ("Add", "Sub", "Mul", "Div", "Rem", "Lt", "Le", "Eq", "BitAnd", "BitOr", "BitXor", "Shl", "Shr"):
        a, b = val(t.a[0], env), val(t.a[1], env)
        if o == "Add": return a + b
        if o == "Sub": return a - b
        if o == "Mul": return a * b
        if o == "Div": return tdiv(a, b)
        if o == "Rem": return a - b * tdiv(a, b)
        if o == "Lt": return a < b
        if o == "Le": return a <= b
        if o == "Eq": return a == b
        if o == "BitAnd": return a & b
        if o == "BitOr": return a | b
        if o == "BitXor": return a ^ b
        if o == "Shl": return a << b
        if o == "Shr": return a >> b
    if o == "M": return val(t.a[0], env) % val(t.a[1], env)
    if o == "poly": raise Unk("poly")
    if o == "call":
        n = t.a[0]; a = [val(x, env) for x in t.a[1:]]
        if n.endswith("::modpow"): return pow(a[0], a[1], a[2])
        if re.search(r"\bpow$", n) or n.endswith("pow::pow"):
            if a[1] > 4096: raise Unk("unbounded power")
            return a[0] ** a[1]
        if n.endswith("::mod_inverse"):
            try: return ("Some", pow(a[0], -1, a[1]))
            except ValueError: return ("None",)
        if n.endswith("to_usize") or n.endswith("to_u64") or n.endswith("to_u32"):
            return ("Some", a[0]) if 0 <= a[0] < 2 ** 64 else ("None",)
        if n.endswith("::bits"): return a[0].bit_length()
        if n.endswith("to_radix_le"): return ("tup", ("sign", a[0] > 0, a[0] == 0), ("bits", max(1, a[0].bit_length())))
        if n.endswith("is_zero"): return a[0] == 0
        if n.endswith("is_negative"): return a[0] < 0
        if n.endswith("is_one"): return a[0] == 1
        if n.endswith("::zero"): return 0
        if n.endswith("::one"): return 1
        if n.endswith("mod_floor") or n.endswith("rem_euclid"): return a[0] % abs(a[1])
        if n.endswith("::len"): return len_of(a[0])
    if o == "len": return len_of(val(t.a[0], env))
    if o == "field":
        x = val(t.a[0], env)
        if isinstance(x, tuple):
            if x[0] == "Some" and t.a[1] == "0": return x[1]
            if x[0] == "tup": return x[1 + int(t.a[1])]
    if o == "as": return val(t.a[0], env)
    raise Unk(show(t)[:80])


def len_of(x):
    if isinstance(x, tuple) and x[0] == "bits": return x[1]
    raise Unk("len")


def with_regions(E, regions):
    E.regions = regions
    E.region_unknown = Unk
    E.region_holds = lambda c, env: holds([c], env)
    return E


def holds(conds, env):
    """do the path conditions hold in this region?"""
    for c in conds:
        if c[0] == "bool":
            if bool(val(c[1], env)) != c[2]: return False
        elif c[0] == "is":
            x = val(c[1], env)
            if isinstance(x, tuple) and x[0] in ("Some", "None"):
                if x[0] != c[2]: return False
            else: raise Unk("variant of %s" % show(c[1])[:60])
        elif c[0] == "eq":
            if val(c[1], env) != c[2]: return False
        elif c[0] == "noteq":
            if val(c[1], env) in c[2]: return False
        else: raise Unk(str(c)[:80])
    return True
