"""C12: every table keyed by a prime name agrees on the modulus, for every prime."""
import os, re
from .. import big, maps, strs
from ..ev import mk
from ..exec_model import Anchor, INT, PARAM, STR, SOME, NONE, OK, ERR, TRUE, FALSE, UNIT, adt_id, pure
from ..mir import cname
from ..paths import contains, explore, path_intrinsics, subterms

REPO = os.environ.get("SA_REPO", "/repo")
SRC = os.path.join(REPO, "code_producers", "src")
P = {"bn128": 21888242871839275222246405745257275088548364400416034343698204186575808495617,
     "bls12381": 52435875175126190479447740508185965837690552500527637822603658699938581184513,
     "goldilocks": 18446744069414584321,
     "grumpkin": 21888242871839275222246405745257275088696311157297823662689037894645226208583,
     "pallas": 28948022309329048855892746252171976963363056481941560715954676764349967630337,
     "vesta": 28948022309329048855892746252171976963363056481941647379679742748393362948097,
     "secq256r1": 115792089210356248762697446949407573530086143415290314195533631308867097853951,
     "bls12377": 8444461749428370424248824938781546531375899335154063827935233455917409239041}
OTHERS = ("", "bn254", "BN128", "bn128 ", "bls12-381", "bls12", "secq256k1", "bls12378", "vest", "0", "Goldilocks") + tuple(n + "x" for n in P) + tuple(n[:-1] for n in P) + tuple(n.upper() for n in P)
C_GENS = ("main_cpp", "circom_hpp", "fr_hpp", "calcwit_hpp", "fr_cpp", "calcwit_cpp", "fr_asm", "make", "json2bin64")


def run(F, r):
    r.do(F, names, flow, producers, files, limbs, selected, wasm, wasm_code, assembly)


def record(tag, result=UNIT):
    def h(E, st, name, args, fn, line):
        E.event(st, tag, tuple(E.deref(st, a) for a in args), line, fn); return [(st, result)]
    return h


def base():
    def member(E, st, name, args, fn, line):
        v, x = E.deref(st, args[0]), E.deref(st, args[1])
        if v.op != "array": return NotImplemented
        xs = [E.deref(st, y) for y in v.a]
        if x.op not in ("str", "int") or any(y.op not in ("str", "int") for y in xs): return NotImplemented
        return [(st, TRUE if x in xs else FALSE)]
    bool2 = lambda f: (lambda E, st, name, args, fn, line: [(st, TRUE if f(a.a[0], b.a[0]) else FALSE)] if (a := E.deref(st, args[0])).op == "str" and (b := E.deref(st, args[1])).op == "str" else NotImplemented)
    def rev(E, st, name, args, fn, line):
        v = E.deref(st, args[0])
        if v.op == "adt" and "Range" in v.a[0]:
            f = {k: E.deref(st, x) for k, x in v.a[2]}
            if all(f.get(k) is not None and f[k].op == "int" for k in ("start", "end")): return [(st, mk("iter", mk("array", *[INT(i) for i in reversed(range(f["start"].a[0], f["end"].a[0] + ("Inclusive" in v.a[0])))])))]
        if v.op == "iter" and v.a[0].op == "array" and not any(x.op == "whole" for x in v.a[0].a): return [(st, mk("iter", mk("array", *reversed(v.a[0].a))))]
        return NotImplemented
    lines = lambda E, st, name, args, fn, line: [(st, mk("iter", mk("array", mk("whole", E.deref(st, args[0])))))]
    return {**maps.intrinsics(), **strs.intrinsics(), **big.intrinsics(), **path_intrinsics(), r"Iterator>?::rev$": rev, r"<impl \[T\]>::contains$": member, r"str>::starts_with(::<.*>)?$": bool2(lambda a, b: a.startswith(b)), r"str>::ends_with(::<.*>)?$": bool2(lambda a, b: a.endswith(b)), r"str>::contains(::<.*>)?$": bool2(lambda a, b: b in a),
            r"str>::eq_ignore_ascii_case$": bool2(lambda a, b: a.lower() == b.lower()), r"str>::lines$": lines}


def hexa(t):
    """'0x' followed by a number in hexadecimal"""
    if t.op == "str" and t.a[0].startswith("0x"): return int(t.a[0], 16)
    if t.op == "cat" and len(t.a) == 2 and t.a[0] is STR("0x") and t.a[1].op.startswith("fmt_lower_hex") and t.a[1].a[0].op == "int": return t.a[1].a[0].a[0]
    if t.op == "cat" and len(t.a) == 1 and t.a[0].op.startswith("fmt_alt_lower_hex") and t.a[0].a[0].op == "int": return t.a[0].a[0].a[0]
    return None


def names(F, r):
    r.rule("names", "--prime accepts the eight names with a field library and nothing else; bn128 is the default; each name stands for the modulus of its field in the arithmetic of the compiler")
    g = F.find("input_processing::get_prime"); r.fn(g)
    for n in tuple(P) + OTHERS + (None,):
        I = {**base(), r"ArgMatches::<.*>::is_present(::<.*>)?$|ArgMatches::is_present": lambda E, st, name, args, fn, line, n=n: [(st, TRUE if n is not None else FALSE)], r"ArgMatches.*::occurrences_of": lambda E, st, name, args, fn, line, n=n: [(st, INT(n is not None))],
             r"ArgMatches.*::value_of(::<.*>)?$": lambda E, st, name, args, fn, line, n=n: [(st, SOME(STR(n)) if n is not None else NONE)], r"_?print$": record("print")}
        ps, E = explore(F, g, [PARAM("matches")], intr=I, loop_visits=40); r.paths(len(ps)); want = "bn128" if n is None else n if n in P else None
        if not ps or any(p.v.op != "adt" or p.v.a[1] == "Ok" and dict(p.v.a[2])["0"].op != "str" for p in ps): r.notes.append("names: not decided for %r" % n); continue
        got = {dict(p.v.a[2])["0"].a[0] if p.v.a[1] == "Ok" else None for p in ps}
        if len(got) > 1: r.notes.append("names: not decided for %r" % n); continue       # a test this machinery does not evaluate
        r.check("names", "accepts:%s" % ("(absent)" if n is None else n), got == {want}, r.where(g), "--prime %s gives %s" % ("absent" if n is None else repr(n), " / ".join("an error" if x is None else x for x in got)))
    f = F.find("UsefulConstants::new"); r.fn(f)
    for n in P:
        ps, E = explore(F, f, [STR(n)], intr=base(), loop_visits=40); r.paths(len(ps))
        got = [dict(p.v.a[2]).get("p") if p.v.op == "adt" else None for p in ps]
        if any(x is None or x.op != "int" for x in got): r.notes.append("names: modulus of %s not decided" % n); continue
        r.check("names", "modulus:%s" % n, bool(got) and all(x.a[0] == P[n] for x in got), r.where(f), "the modulus of %s is %s" % (n, got[0].a[0] if got else "not known: the name is not accepted"))


def flow(F, r):
    r.rule("flow", "the arithmetic of every stage uses the prime of the circuit, not one named in the code")
    n = 0
    for f in F.fns.values():
        for bb, c, a, d, l in f.calls():
            if not c or not re.search(r"UsefulConstants::new$", cname(c)): continue
            n += 1; r.fn(f)
            consts = set()

            def chase(o, seen):
                if o[0] == "c":
                    if isinstance(o[1], str) or True: consts.add(str(o[1]))
                    return
                x = o[1][0]
                if x in seen: return
                seen.add(x)
                for w in f.defs().get(x, []):
                    if w[2] == "rv" and w[3][0] in ("use", "ref"):
                        q = w[3][1] if w[3][0] == "use" else ("cp", w[3][2])
                        chase(q, seen)
                    elif w[2] == "call" and w[3][1][0] == "c" and re.search(r"[Ss]tring|str\b|[Cc]lone|[Dd]eref|[Bb]orrow|as_ref|From|Into|to_owned", cname(w[3][1][1])):
                        for o2 in w[3][2]: chase(o2, seen)
            chase(a[0], set())
            # a string built here from a literal
            lit = [x for x in consts if any(re.search(r"\b%s\b" % p, x) for p in P)]
            r.check("flow", f.id, not lit, r.where(f, l), "%s computes with a fixed prime, not the one of the circuit" % f.id)
    r.floor("flow", n, 4, "uses of the table of primes")


def mk_producer(prime, no_asm): return mk("with", PARAM("producer"), (("no_asm", no_asm), ("prime_str", STR(prime)), ("prime", STR(str(P[prime])))))


def generated(F, r, fn, prime, no_asm):
    f = F.find(fn); r.fn(f); args = []
    for i in range(f.nargs):
        t, n = f.locals[i + 1]
        args.append(mk_producer(prime, no_asm) if "Producer" in t else STR(prime) if n == "prime" or "String" in t and "prime" in (n or "") else PARAM(n or "a%d" % i))
    I = {r"write_all$": record("write", OK(UNIT)), r"flush$": lambda E, st, name, args, fn, line: [(st, OK(UNIT))], r"as_bytes$": pure(lambda x: x),
         r"Path(Buf)?::push(::<.*>)?$": lambda E, st, name, args, fn, line: (E.event(st, "push", tuple(E.deref(st, a) for a in args), line, fn), [(st, UNIT)])[1],
         r"Path(Buf)?::set_extension(::<.*>)?$": lambda E, st, name, args, fn, line: (E.event(st, "ext", tuple(E.deref(st, a) for a in args), line, fn), [(st, UNIT)])[1],
         r"Path(Buf)?::to_str$": lambda E, st, name, args, fn, line: [(st, SOME(PARAM("path")))],
         r"File::create(::<.*>)?$": pure(lambda *a: OK(mk("file"))), r"BufWriter::<.*>::new$": pure(lambda x: mk("buf", x)),
         r"render_template(::<.*>)?$": lambda E, st, name, args, fn, line: [(st, OK(mk("rendered", *[E.deref(st, a) for a in args[1:]])))],
         r"Handlebars::<.*>::new$|Registry::<.*>::new$": lambda E, st, name, args, fn, line: [(st, mk("hb"))], r"Registry::<.*>::register_\w+$|Handlebars::<.*>::register_\w+$": lambda E, st, name, args, fn, line: [(st, UNIT)], **base()}
    ps, E = explore(F, f, args, intr=I, loop_visits=80, max_paths=400); r.paths(len(ps))
    return f, ps


def fnv(b):
    h = 0xcbf29ce484222325
    for x in b: h = ((h ^ x) * 0x100000001b3) & 0xffffffffffffffff
    return h


_files = {}


def catalogue():
    if not _files:
        for d, _, fs in os.walk(SRC):
            for x in fs:
                if x.endswith(".rs"): continue
                b = open(os.path.join(d, x), "rb").read(); _files[(len(b), fnv(b))] = (os.path.relpath(os.path.join(d, x), SRC), b)
    return _files


def identify(t):
    """the file of the repository whose content a term is: (path, text)"""
    if t.op == "str":
        b = t.a[0].encode(); return catalogue().get((len(b), fnv(b)), (None, b))
    if t.op == "big":
        return catalogue().get((t.a[0], int(t.a[1], 16) if isinstance(t.a[1], str) else t.a[1]))
    return None


def content(p):
    """what is written: ('text', path, text) or ('rendered', path, text, values)"""
    ev = p.events("^write$")
    if len(ev) != 1: return None if ev else ("none",)
    t = ev[0][1][-1]
    while t.op in ("ref", "copy"): t = t.a[0]
    if t.op == "rendered":
        x = identify(t.a[0]); v = t.a[1]
        vals = {}
        for s in subterms(v):
            if s.op == "tuple" and len(s.a) == 2 and s.a[0].op == "str": vals[s.a[0].a[0]] = s.a[1]
        return ("rendered",) + x + (vals,) if x else None
    while t.op == "whole": t = t.a[0]
    if t.op == "cat":
        a = [x for x in t.a if x is not STR("") and x is not STR("\n")]
        t = a[0] if len(a) == 1 else t
    while t.op == "whole": t = t.a[0]
    if t.op == "mut" or t.op == "array" and len(t.a) == 1 and t.a[0].op == "whole": t = t.a[0].a[0] if t.op == "array" else t
    x = identify(t)
    return ("text",) + x if x else None


def nums(t): return [hexa(x) for x in t.a] if t is not None and t.op == "array" else None


def limbs_of(v, n): return [(v >> (64 * i)) & (2 ** 64 - 1) for i in range(n)]


def c_define(text, name):
    m = re.search(rb"#define\s+%s\s+(\S+)" % name.encode(), text) or re.search(rb"\b%s\s*=\s*(\w+)" % name.encode(), text)
    return m and m.group(1).decode()


def number(s):
    m = re.fullmatch(r"(0[xX][0-9a-fA-F]+|\d+)[uUlL]*", s or "")
    return int(m.group(1), 0) if m else None


def files(F, r):
    r.rule("files", "the C++ code of every prime gets the field library of that prime: its number of limbs, its modulus and the constants derived from it")
    got = {}
    for g in C_GENS:
        try: F.find("c_code_generator::generate_%s_file" % g) if g != "json2bin64" else F.find("c_code_generator::generate_json2bin64")
        except Exception: r.notes.append("files: generate_%s not found" % g); continue
        fn = "c_code_generator::generate_%s_file" % g if g != "json2bin64" else "c_code_generator::generate_json2bin64"
        for p in P:
            if g == "json2bin64" and p != "goldilocks": continue        # only for fields of one limb (rule selected)
            for na in (TRUE, FALSE):
                f, ps = generated(F, r, fn, p, na); cs = [content(q) for q in ps if q.v.op == "adt" and q.v.a[1] == "Ok"]
                key = "%s:%s:%s" % (g, p, "no_asm" if na is TRUE else "asm")
                if ps and (None in cs or not cs): r.notes.append("files: %s not decided" % key); continue
                if not ps: r.check("files", key, False, r.where(f), "no %s can be generated for %s%s" % (g, p, " without assembly" if na is TRUE else "")); continue
                if len(set(map(repr, cs))) > 1: r.notes.append("files: %s not decided" % key); continue
                got[(g, p, na)] = (f, cs[0])
    for (g, p, na), (f, c) in got.items():
        n64 = (P[p].bit_length() + 63) // 64; bad = []; key = "%s:%s:%s" % (g, p, "no_asm" if na is TRUE else "asm"); gold = p == "goldilocks"
        if g in ("fr_cpp", "fr_asm") and gold:
            if c[0] != "none" and not (g == "fr_asm" and na is TRUE): bad.append("goldilocks gets %s, a file of another field" % c[1])
        elif g == "fr_asm" and na is TRUE: continue
        elif c[0] == "none":
            if not (g == "json2bin64" and not gold): bad.append("nothing is written")
        elif g in ("main_cpp", "circom_hpp", "calcwit_hpp", "calcwit_cpp", "json2bin64", "make"):
            ref = got.get((g, "goldilocks" if gold else "bn128", na))
            if g == "make":
                asm = b".asm" in c[2] or b"nasm" in c[2]
                if asm != (not gold and na is FALSE): bad.append("the makefile %s" % ("assembles a field library that is not generated" if asm else "does not assemble the field library"))
            elif ref and ref[1][:2] != c[:2]: bad.append("%s is written from %s, unlike the other primes' (%s)" % (g, c[1], ref[1][1]))
            two = got.get((g, "bn128" if gold else "goldilocks", na))
            if two and g in ("circom_hpp", "calcwit_hpp", "calcwit_cpp") and two[1][:2] == c[:2] and os.path.isdir(os.path.join(SRC, "c_elements/common64")): bad.append("the run-time of one-limb and multi-limb fields is the same file, %s" % c[1])
        elif g == "fr_hpp":
            if c[0] == "rendered":
                v = c[3].get("fr_n64"); lit = c_define(c[2], "Fr_N64")
                if v is None or v.op != "int": r.notes.append("files: %s limbs not decided" % key); continue
                if v.a[0] != n64: bad.append("Fr_N64 is %s for a field of %d limbs" % (v.a[0], n64))
                if lit != "{{fr_n64}}" and number(lit) != n64: bad.append("Fr_N64 is %s for a field of %d limbs" % (lit, n64))
            else:
                if number(c_define(c[2], "Fr_N64")) != n64: bad.append("Fr_N64 is %s for a field of %d limbs (%s)" % (c_define(c[2], "Fr_N64"), n64, c[1]))
                mb = re.search(rb"MaxBits\s*=\s*(\d+)", c[2])
                if mb and int(mb.group(1)) != P[p].bit_length(): bad.append("MaxBits is %s for a field of %d bits (%s)" % (mb.group(1).decode(), P[p].bit_length(), c[1]))
                if gold:
                    for d, want in (("Fr_prime", P[p]), ("Fr_half", P[p] >> 1)):
                        x = number(c_define(c[2], d))
                        if x != want: bad.append("%s is %s, not %s" % (d, x, want))
                    if c_define(c[2], "Fr_prime_str") not in (None, '"%d"' % P[p]): bad.append("Fr_prime_str is %s" % c_define(c[2], "Fr_prime_str"))
                elif b"Fr_prime " in c[2]: bad.append("the header %s fixes another modulus" % c[1])
        elif g == "fr_cpp":
            if c[0] == "rendered":
                v = c[3]; R = 1 << (64 * n64); bits = P[p].bit_length(); q = P[p]
                want = {"n64": n64, "qbits": bits}
                for k, w in want.items():
                    if v.get(k) is None or v[k].op != "int": r.notes.append("files: %s %s not decided" % (key, k))
                    elif v[k].a[0] != w: bad.append("%s is %d, not %d" % (k, v[k].a[0], w))
                for k, w in (("lboMask", (1 << (bits - 64 * (n64 - 1))) - 1), ("fr_np", pow(-q, -1, 1 << 64))):
                    x = hexa(v[k]) if k in v else None
                    if x is None: r.notes.append("files: %s %s not decided" % (key, k))
                    elif x != w: bad.append("%s is %#x, not %#x" % (k, x, w))
                for k, w in (("fr_q_list", q), ("fr_r2_list", R * R % q), ("fr_r3_list", R ** 3 % q), ("half_list", q >> 1)):
                    x = nums(v.get(k))
                    if x is None or None in x: r.notes.append("files: %s %s not decided" % (key, k))
                    elif x != limbs_of(w, n64): bad.append("%s is [%s], not the limbs of %d" % (k, ", ".join("%#x" % y for y in x), w))
                for k, lo, hi in (("list0n64", 0, n64), ("list0n64_1", 0, n64 - 1), ("list1n64", 1, n64)):
                    x = v.get(k)
                    if x is None or x.op != "array" or any(y.op != "int" for y in x.a): r.notes.append("files: %s %s not decided" % (key, k))
                    elif [y.a[0] for y in x.a] != list(range(lo, hi)): bad.append("%s is %s" % (k, [y.a[0] for y in x.a]))
                co = v.get("cannotOptimize"); top = q >> (64 * (n64 - 1))
                # the carry-free Montgomery multiplication is right below 2^63 only
                if co is None or co not in (TRUE, FALSE) and co.op != "int": r.notes.append("files: %s cannotOptimize not decided" % key)
                elif (co is FALSE or co is INT(0)) and top >= 1 << 63: bad.append("the multiplication without carries is used for a modulus of %d bits" % bits)
            elif b"{{" in c[2]: bad.append("the template %s is written as it is" % c[1])
        elif g == "fr_asm":
            asm_data(p, c, bad)
        r.check("files", key, not bad, r.where(f), "; ".join(bad))
    r.floor("files", len(got), 40, "generated files")


def asm_numbers(text):
    out = {}; sec = text.find(b"section .data"); cur = None
    for ln in text[sec:].decode().split("\n"):
        ln = ln.split(";")[0]; m = re.match(r"\s*(\w+):?\s+dq\s+(.*)", ln)
        if m: out[m.group(1)] = [int(x, 0) for x in m.group(2).replace(" ", "").split(",")]
    return out


def asm_data(p, c, bad):
    q = P[p]; n64 = (q.bit_length() + 63) // 64; R = 1 << (64 * n64); bits = q.bit_length(); d = asm_numbers(c[2])
    for k, w in (("q", q), ("half", q >> 1), ("R2", R * R % q), ("R3", R ** 3 % q)):
        if d.get(k) != limbs_of(w, n64): bad.append("%s of %s is not that of %s" % (k, c[1], p))
    for k, w in (("lboMask", (1 << (bits - 64 * (n64 - 1))) - 1), ("np", pow(-q, -1, 1 << 64))):
        if d.get(k) != [w]: bad.append("%s of %s is %s, not %#x" % (k, c[1], d.get(k) and hex(d[k][0]), w))


def asm_code(text):
    sec = text.find(b"section .data")
    return [" ".join(l.split(";")[0].split()) for l in text[:sec].decode().split("\n") if l.split(";")[0].strip()]


def assembly(F, r):
    r.rule("assembly", "the assembly of the primes below 2^255 is the same code; only its number of bits and its data depend on the prime")
    texts = {}
    for p in P:
        if p == "goldilocks": continue
        f, ps = generated(F, r, "c_code_generator::generate_fr_asm_file", p, FALSE); cs = [content(q) for q in ps if q.v.op == "adt" and q.v.a[1] == "Ok"]
        if cs and None not in cs and cs[0][0] == "text": texts[p] = (f, cs[0])
    if "bn128" not in texts: raise Anchor("assembly")
    ref = asm_code(texts["bn128"][1][2])
    for p, (f, c) in texts.items():
        t = asm_code(c[2])
        if len(t) != len(ref):
            if p == "secq256r1": continue       # 256 bits: other code, not compared
            r.notes.append("assembly: %s has another code" % p); continue
        bad = [(i, a, b) for i, (a, b) in enumerate(zip(ref, t)) if a != b and not (re.sub(r"\b254\b", "#", a) == re.sub(r"\b%d\b" % P[p].bit_length(), "#", b) and re.search(r"\b254\b", a))]
        bits = [b for a, b in zip(ref, t) if re.search(r"\bcmp\b.*, ?254\b", a) and not re.search(r"\b%d\b" % P[p].bit_length(), b)]
        if len(bad) > 40: r.notes.append("assembly: %s has another code" % p); continue
        r.check("assembly", p, not bad and not bits, r.where(f), "%s: %s" % (c[1], "; ".join(["`%s` where the other primes have `%s`" % (b, a) for i, a, b in bad[:3]] + ["`%s` for a field of %d bits" % (b, P[p].bit_length()) for b in bits[:2]])))


def limbs(F, r):
    r.rule("limbs", "the limbs of a constant are written least significant first")
    try: f = F.find("c_code_generator::get_vector_of_u64")
    except Exception: raise Anchor("get_vector_of_u64")
    r.fn(f)
    for v, n in ((P["bn128"], 4), (1, 4), (P["goldilocks"], 1), (0x0102030405060708090a0b0c0d0e0f10, 2), (0x1122334455667788, 4), (0, 4)):
        bs = v.to_bytes(max(1, (v.bit_length() + 7) // 8), "big")
        ps, E = explore(F, f, [mk("array", *[INT(x) for x in bs]), INT(n)], intr=base(), loop_visits=80); r.paths(len(ps))
        xs = [nums(p.v) for p in ps]
        if not ps or any(x is None or None in x for x in xs): r.notes.append("limbs: not decided for %d" % v); continue
        r.check("limbs", "%d:%d" % (v, n), all(x == limbs_of(v, n) for x in xs), r.where(f), "the limbs of %#x are written as %s" % (v, [hex(y) for y in xs[0]]))


def wat_toks(t):
    t = re.sub(r";;.*", "", t); t = re.sub(r"\(;.*?;\)", "", t, flags=re.S)
    return re.findall(r'"(?:[^"\\]|\\.)*"|[()]|[^\s()"]+', t)


def wat_bytes(s):
    out = bytearray(); i = 0; s = s[1:-1]
    while i < len(s):
        if s[i] == "\\":
            if re.match("[0-9a-fA-F]{2}", s[i + 1:i + 3]): out.append(int(s[i + 1:i + 3], 16)); i += 3
            else: out += {"n": b"\n", "t": b"\t", "r": b"\r", '"': b'"', "'": b"'", "\\": b"\\"}[s[i + 1]]; i += 2
        else: out += s[i].encode(); i += 1
    return bytes(out)


def wat_data(text):
    """{address: bytes} of the data segments"""
    out = {}; t = wat_toks(text)
    for i in range(len(t) - 5):
        if t[i:i + 4] == ["(", "data", "(", "i32.const"]: out[int(t[i + 4])] = b"".join(wat_bytes(x) for x in [t[i + 6]] if x.startswith('"'))
    return out


LONG = {"bits": 88, "one": 128, "p": 608, "R": (672, 2), "R1": (640, 736), "R2": 672, "R3": 704, "zero": (768,), "half": (800, 1920), "half1": 832, "nqr": 864, "t": 896, "nqrt": 928, "t1": 960}
SHORT = {"bits": 40, "one": 56, "p": 176, "R1": (184, 208), "R2": 192, "R3": 200, "zero": (216,), "half": (224, 408), "half1": 232, "nqr": 240, "t": 248, "nqrt": 256, "t1": 264}


def library(F, r, what, p):
    f, ps = generated(F, r, "wasm_code_generator::%s" % what, None, FALSE) if False else (F.find("wasm_code_generator::%s" % what), None)
    r.fn(f)
    ps, E = explore(F, f, [STR(p)], intr=base(), loop_visits=80); r.paths(len(ps))
    if not ps: return f, None
    xs = []
    for q in ps:
        ts = [s for s in subterms(q.v) if s.op == "big" or s.op == "str" and len(s.a[0]) > 100]
        xs.append(identify(ts[0]) if len(ts) == 1 else None)
    if None in xs or len({x[0] for x in xs}) > 1: raise Anchor("%s(%s)" % (what, p))
    return f, xs[0]


def wasm(F, r):
    r.rule("wasm", "the WASM code of every prime gets the modulus of that prime and the constants derived from it, and the memory it reserves for them ends where they end")
    types = {}
    for p in P:
        q = P[p]; n64 = (q.bit_length() + 63) // 64; n = 8 * n64; R = 1 << (64 * n64); bad = []
        f, lib = library(F, r, "fr_data", p)
        if lib is None: r.check("wasm", "data:%s" % p, False, r.where(f), "no library for %s" % p); continue
        d = wat_data(lib[1].decode()); L = SHORT if p == "goldilocks" else LONG
        val = lambda a: int.from_bytes(d[a], "little") if a in d else None
        t = q - 1
        while t % 2 == 0: t //= 2
        want = {"one": 1, "p": q, "R1": R % q, "R2": R * R % q, "R3": R ** 3 % q, "zero": 0, "half": q >> 1, "half1": (q >> 1) + 1, "t": t, "t1": (t + 1) // 2}
        if not d: r.notes.append("wasm: data of %s not decided" % p); continue
        for k, w in want.items():
            for a in (L[k] if isinstance(L[k], tuple) else (L[k],)):
                if a not in d: bad.append("%s has nothing at %d (%s)" % (lib[0], a, k))
                elif val(a) != w or len(d[a]) != n: bad.append("%s at %d is not the %s of %s" % (lib[0], a, {"p": "modulus", "one": "number 1", "R1": "2^%d" % (64 * n64), "R2": "square of the Montgomery factor", "R3": "cube of the Montgomery factor", "half": "half", "half1": "half + 1", "zero": "number 0", "t": "odd part of p - 1", "t1": "exponent (t+1)/2"}[k], p))
        nq = val(L["nqr"]); 
        if nq is not None:
            x = nq * pow(R, -1, q) % q
            if pow(x, (q - 1) // 2, q) != q - 1: bad.append("%s at %d is a square modulo %s" % (lib[0], L["nqr"], p))
            elif val(L["nqrt"]) != pow(x, t, q) * R % q: bad.append("%s at %d is not the power of the non-residue" % (lib[0], L["nqrt"]))
        if val(L["bits"]) is not None and abs(val(L["bits"]) - q.bit_length()) > 1 and p != "goldilocks" or val(L["bits"]) is not None and p == "goldilocks" and val(L["bits"]) != 64: bad.append("%s at %d gives %d bits to a field of %d" % (lib[0], L["bits"], val(L["bits"]), q.bit_length()))
        r.check("wasm", "data:%s" % p, not bad, r.where(f), "; ".join(bad[:4]))
        types[p] = max(a + len(b) for a, b in d.items())
    r.floor("wasm", len(types), 4, "libraries")
    ends(F, r, types)


def ends(F, r, end):
    g = F.find("build::initialize_wasm_producer")
    for p, e in end.items():
        v = produced(F, r, "wasm", p).get("fr_memory_size")
        if v is None or v.op != "int": r.notes.append("wasm: fr_memory_size of %s not decided" % p); continue
        # the template writes its first own constant four bytes after fr_memory_size
        r.check("wasm", "memory:%s" % p, v.a[0] + 4 == e, r.where(g), "the library of %s ends at %d; the code starts its own data at %d" % (p, e, v.a[0] + 4))


def wasm_code(F, r):
    r.rule("wasm_code", "the WASM library code of the primes of four limbs is the same but for -1/p mod 2^32, the 2-adicity of p-1 and the mask of the top limb, which are those of the prime")
    code = {}; ty = {}
    for p in P:
        for what, tab in (("fr_code", code), ("fr_types", ty)):
            f, lib = library(F, r, what, p)
            if lib is None: r.check("wasm_code", "%s:%s" % (what, p), False, r.where(f), "no library for %s" % p)
            else: tab[p] = (f, lib, wat_toks(lib[1].decode()))
    two = lambda q: ((q - 1) & -(q - 1)).bit_length() - 1
    top = lambda q: (1 << (q.bit_length() % 64 or 64)) - 1
    spec = lambda q: (str(pow(-q, -1, 1 << 32)), str(two(q)), str(top(q)))
    if "bn128" not in code: raise Anchor("fr_code")
    ref = code["bn128"][2]; sb = spec(P["bn128"])
    same = {p: c for p, c in code.items() if p != "goldilocks" and len(c[2]) == len(ref)}
    diff = sorted({i for p, c in same.items() for i, (a, b) in enumerate(zip(ref, c[2])) if a != b})
    # a position is keyed by the prime when most libraries have there the value of their prime
    keyed = {}
    for i in diff:
        for k in range(3):
            hits = [p for p, c in same.items() if c[2][i] == spec(P[p])[k]]
            if 2 * len(hits) > len(same) and len({c[2][i] for p, c in same.items() if p in hits}) > 1: keyed[i] = k
    what = ("-1/p mod 2^32", "the 2-adicity of p-1", "the mask of the top limb")
    for p, (f, lib, t) in code.items():
        if p == "goldilocks": continue
        if len(t) != len(ref): r.notes.append("wasm_code: %s has another code" % p); continue
        bad = ["%s has %s for %s, not %s" % (lib[0], t[i], what[k], spec(P[p])[k]) for i, k in keyed.items() if t[i] != spec(P[p])[k]]
        votes = lambda i: max(set(x), key=x.count) if (x := [c[2][i] for c in same.values()]) else None
        bad += ["%s has `%s` where the other primes have `%s`" % (lib[0], t[i], votes(i)) for i in diff if i not in keyed and t[i] != votes(i)]
        r.check("wasm_code", "code:%s" % p, not bad, r.where(f), "; ".join(bad[:3]))
    for p, (f, lib, t) in ty.items():
        r.check("wasm_code", "types:%s" % p, t == ty["bn128"][2] or "bn128" not in ty, r.where(f), "%s declares other types than the library of bn128" % lib[0])
    if "goldilocks" in code:
        f, lib, t = code["goldilocks"]
        r.check("wasm_code", "code:goldilocks", any(t[i] == "i64.const" and t[i + 1] == spec(P["goldilocks"])[0] for i in range(len(t) - 1)) and not any(x in t for p in P for x in (spec(P[p])[0],) if p != "goldilocks" and len(x) > 6 and x != spec(P["goldilocks"])[0]), r.where(f), "%s is the library of another field" % lib[0])


def produced(F, r, tag, p):
    g = F.find("build::initialize_%s_producer" % tag); r.fn(g); args = []
    for i in range(g.nargs):
        t, n = g.locals[i + 1]
        args.append(FALSE if t == "bool" else INT(0) if t == "usize" else STR("2.0.0") if "str" in t else mk("with", PARAM("vcp"), (("prime", STR(p)),)) if "VCP" in t else PARAM(n or "a%d" % i))
    opq = lambda E, st, name, args, fn, line: [(st, mk("made", STR(name.rsplit("::", 1)[-1])))]
    I = {**base(), r"Producer as .*Default>::default$|::default$": lambda E, st, name, args, fn, line: [(st, PARAM("producer"))], r"VCP::\w+$|build::(?!initialize)\w+$|get_number_version$": opq}
    ps, E = explore(F, g, args, intr=I, loop_visits=40, max_paths=2000); r.paths(len(ps))
    if not ps: return {}
    out = None
    for q in ps:
        m = {}
        if q.v.op == "with": m = dict(q.v.a[1])
        elif q.v.op == "adt": m = dict(q.v.a[2])
        out = m if out is None else {k: x for k, x in out.items() if m.get(k) is x}
    return out


def producers(F, r):
    r.rule("producers", "the code generators get the modulus, the name and the number of 32-bit words of the prime of the circuit")
    for tag in ("c", "wasm"):
        g = F.find("build::initialize_%s_producer" % tag)
        for p, q in P.items():
            m = produced(F, r, tag, p); w = (q.bit_length() + 31) // 32; sh = (w - 1).bit_length() + 2
            for k, want in (("prime", STR(str(q))), ("prime_str", STR(p)), ("size_32_bit", INT(w)), ("size_32_shift", INT(sh))):
                x = m.get(k)
                if m and k not in m: r.check("producers", "%s:%s:%s" % (tag, p, k), False, r.where(g), "the %s generator does not get %s" % (tag, k)); continue
                if not m or x.op not in ("str", "int"): r.notes.append("producers: %s of %s for %s not decided" % (k, p, tag)); continue
                r.check("producers", "%s:%s:%s" % (tag, p, k), x is want, r.where(g), "%s of the %s generator is %s for %s, not %s" % (k, tag, x.a[0], p, want.a[0]))


def selected(F, r):
    r.rule("selected", "every prime gets all the files its C++ code is made of, generated for that prime; the WASM code gets its types, data and code")
    f = F.find("Circuit::produce_c"); r.fn(f); n = 0
    for p in P:
        for na in (TRUE, FALSE):
            prod = mk_producer(p, na); key = "%s:%s" % (p, "no_asm" if na is TRUE else "asm")
            I = {r"c_code_generator::generate_\w+$": lambda E, st, name, args, fn, line: (E.event(st, "gen:" + re.sub(r"^generate_|_file$", "", name.rsplit("::", 1)[-1]), tuple(E.deref(st, a) for a in args), line, fn), [(st, OK(UNIT))])[1],
                 r"::write_c$": record("write_c", OK(UNIT)), r"Path(Buf)?::\w+(::<.*>)?$": lambda E, st, name, args, fn, line: [(st, mk("path", E.deref(st, args[0])))], **base()}
            args = [mk("with", PARAM("circuit"), (("c_producer", prod),))] + [PARAM(f.locals[i + 1][1] or "a%d" % i) for i in range(1, f.nargs)]
            ps, E = explore(F, f, args, intr=I, loop_visits=8); r.paths(len(ps)); n += len(ps)
            ok = [q for q in ps if q.v.op == "adt" and q.v.a[1] == "Ok" or q.v.op != "adt"]
            if not ok: r.notes.append("selected: %s not decided" % key); continue
            bad = []
            for q in ok:
                gens = [e[0][4:] for e in q.events("^gen:")]
                want = set(C_GENS) - (set() if p == "goldilocks" else {"json2bin64"}) | {"dat"}
                for w in sorted(want - set(gens)):
                    if w == "fr_asm" and (p == "goldilocks" or na is TRUE) or w == "fr_cpp" and p == "goldilocks": continue
                    bad.append("%s is not generated" % w)
                if p != "goldilocks" and "json2bin64" in gens: bad.append("json2bin64 is generated for a field of several limbs, which it refuses")
                for e in q.events("^gen:"):
                    ss = [x for x in e[1] if x.op == "str"]
                    if any(x.a[0] in P and x.a[0] != p for x in ss): bad.append("%s is generated for %s" % (e[0][4:], [x.a[0] for x in ss][0]))
                    if not any(x is prod for x in e[1]) and not any(contains(x, prod) for x in e[1]): r.notes.append("selected: producer of %s not decided" % e[0][4:])
            r.check("selected", key, not bad, r.where(f), "; ".join(sorted(set(bad))))
    r.floor("selected", n, 8, "ways to generate C++ code")
    NAMES = {"main_cpp": None, "circom_hpp": ("circom", "hpp"), "fr_hpp": ("fr", "hpp"), "calcwit_hpp": ("calcwit", "hpp"), "fr_cpp": ("fr", "cpp"), "calcwit_cpp": ("calcwit", "cpp"), "fr_asm": ("fr", "asm"), "make": ("Makefile", None)}
    for g, want in NAMES.items():
        if not want: continue
        try: fn = F.find("c_code_generator::generate_%s_file" % g)
        except Exception: continue
        f, ps = generated(F, r, fn.id, "bn128", FALSE); bad = []
        for q in ps:
            a = [e[1][-1].a[0] if e[1][-1].op == "str" else None for e in q.events("^(push|ext)$")]
            if not a or None in a: r.notes.append("selected: name of %s not decided" % g); continue
            name = a[0] + ("." + a[1] if len(a) > 1 else "")
            if name != want[0] + ("." + want[1] if want[1] else ""): bad.append("the file is called %s" % name)
        r.check("selected", "name:" + g, not bad, r.where(f), "; ".join(sorted(set(bad))))
    h = [g for g in F.fns.values() if any(c and re.search(r"wasm_code_generator::fr_(types|data|code)$", cname(c)) for _, c, _, _, _ in g.calls())]
    for g in h:
        r.fn(g); have = {cname(c).rsplit("::", 1)[-1] for _, c, _, _, _ in g.calls() if c and re.search(r"wasm_code_generator::fr_(types|data|code)$", cname(c))}
        r.check("selected", g.id, have == {"fr_types", "fr_data", "fr_code"}, r.where(g), "%s does not write %s" % (g.id, ", ".join(sorted({"fr_types", "fr_data", "fr_code"} - have))))
