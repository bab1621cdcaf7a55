"""C13: an r1cs file is what its header and section table say, and the companion reader reads back what was written."""
import re
from .. import bytesio, export
from ..ev import mk
from ..exec_model import Anchor, INT, PARAM, STR, SOME, NONE, OK, ERR, TRUE, FALSE, UNIT
from ..export import Bad
from ..paths import explore

EXPORTERS = (("list", "constraint_list::r1cs_porting::port_r1cs"), ("dag", "dag::r1cs_porting::write"))


def run(F, r):
    r.do(F, primitives, exported, reader)


def primitives(F, r):
    r.rule("numbers", "a number is written as its bytes, the least significant first, filled with zeros up to the width of its field; the number of bytes returned is that of the bytes written")
    f = F.find("r1cs_writer::into_format"); r.fn(f)
    for k, n in ((1, 4), (3, 4), (4, 4), (1, 8), (8, 8), (31, 32), (1, 40)):
        b = [mk("le", PARAM("b%d" % i), INT(1)) for i in range(k)]
        I = export.intrinsics(); I.pop(r"r1cs_writer::into_format$", None)
        ps, E = explore(F, f, [mk("array", *b), INT(n)], intr=I, loop_visits=60); r.paths(len(ps)); bad = []
        for p in ps:
            if p.v.op != "tuple": raise Anchor("into_format")
            v, s = E.deref(p.st, p.v.a[0]), p.v.a[1]; q = bytesio.parts(v)
            if q is None or s.op != "int": r.notes.append("numbers: not decided for %d bytes in %d" % (k, n)); continue
            if q != b + [INT(0)] * (n - k): bad.append("%d bytes are written in a field of %d as %d bytes%s" % (k, n, len(q), "" if len(q) != n else ", not in order and filled with zeros"))
            elif s.a[0] != len(q): bad.append("%d bytes are written, %d are counted" % (len(q), s.a[0]))
        r.check("numbers", "into_format:%d:%d" % (k, n), bool(ps) and not bad, r.where(f), "; ".join(bad))
    g = F.find("r1cs_writer::bigint_as_bytes"); r.fn(g)
    for x, n in ((0, 4), (5, 4), (0x01020304, 4), (0x0102, 8), (2 ** 63 + 5, 8), (2 ** 200 + 77, 32)):
        I = export.intrinsics(); I.pop(r"r1cs_writer::into_format$", None)
        ps, E = explore(F, g, [INT(x), INT(n)], intr=I, loop_visits=60); r.paths(len(ps)); bad = []
        for p in ps:
            q = bytesio.parts(E.deref(p.st, p.v.a[0])) if p.v.op == "tuple" else None
            if q is None or any(y.op != "int" for y in q): r.notes.append("numbers: not decided for %d" % x); continue
            if bytes(y.a[0] for y in q) != x.to_bytes(n, "little"): bad.append("%#x is written as %s" % (x, [y.a[0] for y in q][:8]))
            elif p.v.a[1] is not INT(n): bad.append("%d bytes are written, %s are counted" % (n, p.v.a[1].a[0] if p.v.a[1].op == "int" else "?"))
        r.check("numbers", "bigint:%d:%d" % (x, n), bool(ps) and not bad, r.where(g), "; ".join(bad))


def file_of(F, r, tag, fn, c, custom, name):
    """[(path, content or error)]"""
    if tag == "list": lst, cons = export.as_list(F, c)
    else: lst, cons = export.as_dag(F, c), ()
    f, ps = export.evaluate(F, r, fn, [lst, STR("out.r1cs"), TRUE if custom else FALSE], c, cons)
    ok = [p for p in ps if p.v.op == "adt" and p.v.a[1] == "Ok"]
    out = []
    for p in ok:
        x = export.written(p)
        if x is None: out.append((p, "bytes are left out, or written twice"))
        else:
            try: out.append((p, export.parse(x)))
            except Bad as e: out.append((p, str(e)))
    return f, ps, out


def exported(F, r):
    r.rule("exported", "the file has the sections its header announces, each of the size written before it, and the numbers of the header are those of the content and of the circuit")
    n = 0
    for name, c in export.samples():
        for tag, fn in EXPORTERS:
            for custom in (False, True):
                f, ps, out = file_of(F, r, tag, fn, c, custom, name); key = "%s:%s:%s" % (tag, name, "custom" if custom else "plain"); bad = []
                if ps and not out or not ps: r.notes.append("exported: %s not decided" % key); continue
                n += 1; m = c.nodes[c.main]; wit = c.witness() if tag == "list" else list(range(c.total()))
                for p, x in out:
                    if isinstance(x, str): bad.append(x); continue
                    for k, want, what in (("field_size", c.field_size(), "the size of the field elements"), ("field", export.FIELD, "the modulus"), ("wires", len(wit), "the number of wires"), ("outputs", m.outputs, "the number of public outputs"), ("public", m.public, "the number of public inputs"),
                                          ("private", m.inputs - m.public, "the number of private inputs"), ("labels", c.total(), "the number of labels"), ("constraints", len(x["cs"]), "the number of constraints")):
                        if x[k] is not want and x[k] != want: bad.append("%s is %s where the content has %s" % (what, x[k], want))
                    if not export.same_constraints(x["cs"], export.expected(tag, c)[0]): bad.append("the linear combinations of a constraint are not written in the order A, B, C with their terms")
                    if len(x["map"]) != len(wit): bad.append("%d wires have a label, of %d" % (len(x["map"]), len(wit)))
                    if custom and "used" not in x or not custom and "used" in x: bad.append("the custom-gate sections are %s" % ("missing" if custom else "written without being asked for"))
                r.check("exported", key, not bad, r.where(f), "; ".join(sorted(set(bad))[:4]))
    r.floor("exported", n, 8, "exported circuits")


def plain(E, st, t):
    t = E.deref(st, t)
    if t.op == "int": return t.a[0]
    if t.op == "str": return t.a[0]
    if t.op == "array":
        xs = [plain(E, st, x) for x in t.a]
        return xs
    if t.op == "tuple": return tuple(plain(E, st, x) for x in t.a)
    if t.op == "adt" and t.a[1] == "Some": return plain(E, st, dict(t.a[2])["0"])
    return t


def reader(F, r):
    r.rule("reader", "read_r1cs gives back the header, constraints, labels and custom gates that were written")
    f = F.find("r1cs_reader::read_r1cs"); r.fn(f); n = 0
    for name, c in export.samples():
        for tag, fn in EXPORTERS:
            for custom in (False, True):
                key = "%s:%s:%s" % (tag, name, "custom" if custom else "plain")
                if name == "wide" and (custom or tag == "dag"): continue
                g, ps, out = file_of(F, r, tag, fn, c, custom, name)
                if not out or isinstance(out[0][1], str): continue          # rule exported
                flat, want = export.written(out[0][0]), out[0][1]; bad = []
                h, qs = export.evaluate(F, r, "r1cs_reader::read_r1cs", [STR("out.r1cs")], c, (), flat)
                if not qs: r.notes.append("reader: %s not decided" % key); continue
                n += 1
                for q in qs:
                    if q.v.op != "adt" or q.v.a[1] != "Ok":
                        bad.append("the file is refused"); continue
                    d = dict(q.E.deref(q.st, dict(q.v.a[2])["0"]).a[2]); hd = q.E.deref(q.st, d["header_data"])
                    if hd.op != "adt": raise Anchor("R1CSData")
                    hd = dict(hd.a[2])
                    for k, w in (("field", "field"), ("field_size", "field_size"), ("total_wires", "wires"), ("public_outputs", "outputs"), ("public_inputs", "public"), ("private_inputs", "private"), ("number_of_labels", "labels"), ("number_of_constraints", "constraints")):
                        x = plain(q.E, q.st, hd[k])
                        if x is not want[w] and x != want[w]: bad.append("%s is read as %s, written as %s" % (k, x, want[w]))
                    cs = plain(q.E, q.st, d["constraints"])
                    got = [[dict(m) for m in x] for x in cs] if isinstance(cs, list) else None
                    if got is None: r.notes.append("reader: constraints of %s not decided" % key)
                    elif got != want["cs"]: bad.append("the constraints read are not those written")
                    sg = plain(q.E, q.st, d["signals"])
                    if sg != want["map"]: bad.append("the labels read are not those written")
                    if custom:
                        u = plain(q.E, q.st, d["custom_gates_used_data"]); a = plain(q.E, q.st, d["custom_gates_applied_data"])
                        if [tuple(x) for x in u] != [tuple(x) for x in want["used"]] if isinstance(u, list) else True: bad.append("the custom gates read are not those written")
                        if [tuple(x) for x in a] != [tuple(x) for x in want["applied"]] if isinstance(a, list) else True: bad.append("the custom-gate applications read are not those written")
                r.check("reader", key, not bad, r.where(f), "; ".join(sorted(set(bad))[:4]))
    r.floor("reader", n, 4, "files read back")
