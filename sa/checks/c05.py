"""C05: a signal or component is assigned at most once and never read unassigned."""
import itertools
from ..exec_model import *
from .. import maps, num
from .c03 import statement
from .c04 import rt_of, call_args, oracle, failed_steps

M = r"MemorySlice::<C>::"
KW = dict(loop_visits=14, rec=4, keep_refs=True)


def run(F, r):
    r.do(F, cells_of, dims, writes, states, bus_slices, bus_whole, bus_field, bus_init, comp_assign, comp_read, comp_init, ends, starts, inputs, reads, stack, condition)


def arr(*a): return mk("array", *[x if isinstance(x, T) else INT(x) for x in a])


def ms(F, route, values): return build(F, "MemorySlice", None, "m", route=arr(*route), values=mk("array", *values))


def obj(st, name, v):
    st.mem[("T", PARAM(name))] = v
    return mk("ref", ("T", PARAM(name)), ())


def after(p, name): return p.st.mem[("T", PARAM(name))]


def err(p):
    """the error kinds of an Err result, innermost last"""
    if p.variant() != "Err": return None
    t = getf(downcast(p.v, "Err"), "0"); o = []
    while isinstance(t, T) and t.op == "adt":
        o.append(t.a[1])
        t = t.a[2][0][1] if t.a[2] else None
    return o


def vals(route):
    n = 1
    for x in route: n *= x
    return [PARAM("v%d" % i) for i in range(n)]


def block(route, access):
    """cells of the sub-array at access, row-major"""
    n, off = 1, 0
    for k, d in enumerate(route):
        off = off * d + (access[k] if k < len(access) else 0)
        if k >= len(access): n *= d
    return list(range(off, off + n))


ROUTES = ((), (3,), (2, 3), (3, 2), (2, 2, 2))


def cells_of(F, r):
    r.rule("cell", "reading an array element gives the row-major cell of its indices, and an index outside the dimensions or too many indices is an error")
    fs = {k: F.find("MemorySlice::<C>::" + k) for k in ("access_values", "access_values_by_reference", "access_values_by_mut_reference", "new_with_route", "get_access_index")}
    for f in fs.values(): r.fn(f)
    for route in ROUTES:
        V = vals(route)
        for acc in itertools.chain.from_iterable(itertools.product(*[range(d + 1) for d in (route + (1,))[:k]]) for k in range(len(route) + 2)):
            inside = len(acc) <= len(route) and all(a < d for a, d in zip(acc, route))
            for k in ("access_values", "access_values_by_reference", "access_values_by_mut_reference"):
                st = St(); a0 = obj(st, "ms", ms(F, route, V))
                ps, E = explore(F, fs[k], [a0 if "mut" in k else ms(F, route, V), arr(*acc)], st=st, intr=maps.intrinsics(), **KW)
                r.paths(len(ps))
                what = "%s %s at %s" % (k, route, acc)
                if not inside:
                    r.check("cell", what, ps and all(err(p) == ["OutOfBoundsError"] for p in ps), r.where(fs[k]), "%s%s of an array of dimensions %s is not an out of bounds error" % (k, list(acc), list(route)))
                    continue
                want = [V[i] for i in block(route, acc)]
                for p in ps:
                    v = getf(downcast(p.v, "Ok"), "0") if p.variant() == "Ok" else None
                    if v is not None and k == "access_values": ok = getf(v, "values") is mk("array", *want) and getf(v, "route") is arr(*route[len(acc):])
                    else: ok = v is not None and v.op == "array" and [p.E.deref(p.st, x) for x in v.a] == want
                    r.check("cell", what, ok, r.where(fs[k]), "element %s of an array of dimensions %s reads %s" % (list(acc), list(route), show(v if v is not None else p.v)[:120]))
                r.check("cell", what + " answered", bool(ps), r.where(fs[k]), "%s%s of dimensions %s has no outcome" % (k, acc, route))
        ps, E = explore(F, fs["new_with_route"], [arr(*route), PARAM("x")], **KW)
        for p in ps: r.check("cell", "new array %s" % (route,), getf(p.v, "values") is mk("array", *[PARAM("x")] * len(V)) and getf(p.v, "route") is arr(*route), r.where(fs["new_with_route"]), "a new array of dimensions %s has %s" % (route, show(p.v)[:100]))
        for i in range(len(V)):
            ps, E = explore(F, fs["get_access_index"], [ms(F, route, V), INT(i)], **KW)
            for p in ps:
                v = getf(downcast(p.v, "Ok"), "0")
                r.check("cell", "position %d of %s" % (i, route), p.variant() == "Ok" and v.op == "array" and all(x.op == "int" for x in v.a) and block(route, [x.a[0] for x in v.a]) == [i], r.where(fs["get_access_index"]), "cell %d of %s is named %s" % (i, route, show(v)))


def dims(F, r):
    r.rule("dims", "an assigned array must have the dimensions of what it is assigned to: strictly for signals and buses, with a warning for variables; more dimensions or a bad index are errors")
    f = F.find("MemorySlice::<C>::check_correct_dims"); r.fn(f)
    for route in ((), (2,), (2, 3)):
        for new in ((), (1,), (2,), (3,), (2, 3), (2, 2), (3, 3)):
            for acc in ((), (0,), (1,), (2,)):
                for strict in (True, False):
                    ps, E = explore(F, f, [ms(F, route, vals(route)), arr(*acc), ms(F, new, vals(new)), BOOL(strict)], **KW)
                    if len(acc) + len(new) > len(route) or any(a >= d for a, d in zip(acc, route)): want = ["OutOfBoundsError"]
                    elif list(new) == list(route[len(acc):len(acc) + len(new)]): want = None
                    else: want = ["MismatchedDimensions" if strict else "MismatchedDimensionsWeak"]
                    for p in ps:
                        got = err(p)
                        r.check("dims", "%s[%s] := %s strict=%s" % (route, acc, new, strict), (got[:1] if got else got) == want and (want is not None or p.variant() == "Ok"), r.where(f),
                                "assigning dimensions %s to index %s of dimensions %s (strict: %s) gives %s" % (new, acc, route, strict, got or p.variant()))
                    r.check("dims", "%s[%s] := %s strict=%s answered" % (route, acc, new, strict), len(ps) == 1, r.where(f), "no outcome")


def writes(F, r):
    r.rule("write", "an array assignment stores each element in its own cell and leaves the other cells alone; on mismatched variables the common part is stored")
    f = F.find("MemorySlice::<C>::insert_values"); r.fn(f)
    for route, acc, new, strict in (((2, 3), (1,), (3,), True), ((2, 3), (0, 2), (), True), ((2, 3), (), (2, 3), True), ((3,), (), (3,), False), ((3,), (), (2,), False), ((2, 3), (), (2, 2), False), ((2, 3), (2,), (3,), True), ((3,), (), (2,), True), ((3,), (), (4,), False)):
        st = St(); a0 = obj(st, "ms", ms(F, route, vals(route)))
        N_ = [PARAM("n%d" % i) for i in range(len(vals(new)))]
        ps, E = explore(F, f, [a0, arr(*acc), ms(F, new, N_), BOOL(strict)], st=st, **KW)
        what = "%s[%s] := %s strict=%s" % (route, acc, new, strict)
        r.check("write", what + " answered", len(ps) == 1, r.where(f), "no outcome")
        exp = vals(route)
        bad = any(a >= d for a, d in zip(acc, route)); fits = list(new) == list(route[len(acc):])
        if not bad and fits:
            for i, c in enumerate(block(route, acc)): exp[c] = N_[i]
        elif not bad and not strict:
            for ix in itertools.product(*[range(min(a, b)) for a, b in zip(new, route[len(acc):])]): exp[block(route, acc + ix)[0]] = N_[block(new, ix)[0]]
        for p in ps:
            got = getf(after(p, "ms"), "values")
            r.check("write", what, got is mk("array", *exp), r.where(f), "the array becomes %s" % show(got)[:160])
            r.check("write", what + " result", (p.variant() == "Ok") == (not bad and fits), r.where(f), "the assignment yields %s" % show(p.v)[:80])


# ------------------------------------------------------------------ assignment states
def AS(F, v, *f): return ADT(adt_id(F, "AssignmentState"), v, tuple((str(i), x) for i, x in enumerate(f)))


def might(F, conds, m): return AS(F, "MightAssigned", mk("array", *[mk("tuple", INT(i), BOOL(b)) for i, b in conds]), SOME(PARAM(m)))


def state_of(F, s, m):
    if s is None: return AS(F, "NoAssigned")
    if s == (): return AS(F, "Assigned", SOME(PARAM(m)))
    return might(F, s, m)


def decode(t):
    if t.op != "adt": return "?"
    if t.a[1] == "NoAssigned": return None
    if t.a[1] == "Assigned": return ()
    c = t.a[2][0][1]
    return tuple((x.a[0].a[0], x.a[1].a[0]) for x in c.a) if c.op == "array" and all(x.op == "tuple" for x in c.a) else "?"


PATHS = [(), ((1, True),), ((1, False),), ((1, True), (2, True)), ((1, True), (2, False)), ((1, False), (3, True)), ((4, True),), ((1, True), (2, True), (5, True)), ((1, True), (2, True), (5, False)), ((1, True), (6, True)), ((4, True), (7, False))]


def exclusive(a, b):
    """two assignments that cannot both happen: their conditions first differ in the branch taken of the same conditional"""
    for x, y in zip(a, b):
        if x != y: return x[0] == y[0]
    return False


def allowed(old, new):
    """states that describe the signal after both branches assigned it"""
    k = 0
    while k < min(len(old), len(new)) and old[k] == new[k]: k += 1
    if k == len(old) - 1 == len(new) - 1: return {old[:k]}
    return {tuple(new), old[:k] + ("?",)}


def states(F, r):
    r.rule("once", "assigning a signal element that is or may already be assigned is an error unless the two assignments are in different branches of the same conditional; every element of the target is checked and marked")
    f = F.find("assignment_utils::perform_signal_assignment"); r.fn(f)
    for old in [None] + PATHS:
        for new in PATHS:
            for pos in (0, 1):
                cells_ = [state_of(F, None, "o"), state_of(F, None, "o")]; cells_[pos] = state_of(F, old, "o")
                st = St(); a0 = obj(st, "ms", ms(F, (2,), cells_))
                ps, E = explore(F, f, [a0, arr(), arr(2), state_of(F, new, "n")], st=st, intr=maps.intrinsics(), **KW)
                r.paths(len(ps))
                what = "old %s new %s element %d" % (old, new, pos)
                ok = old is None or exclusive(old, new)
                r.check("once", what + " answered", len(ps) == 1, r.where(f), "an assignment under %s of a signal in state %s has no single outcome" % (new, old))
                for p in ps:
                    if not ok:
                        r.check("once", what, (err(p) or [])[:2] == ["AssignmentError", "MultipleAssignments"], r.where(f), "a signal assigned under conditions %s is assigned again under %s without error" % (list(old), list(new)))
                        continue
                    if not r.check("once", what, p.variant() == "Ok", r.where(f), "a signal %s is not accepted under %s" % ("without assignment" if old is None else "assigned under %s" % list(old), list(new))): continue
                    got = [decode(x) for x in getf(after(p, "ms"), "values").a]
                    want = {new} if old is None else allowed(old, new)
                    r.check("once", what + " state", got[pos] in want and got[1 - pos] == new, r.where(f), "after an assignment under %s of a signal in state %s the states are %s" % (list(new), old, got))
    # the addressed elements, and only they
    for route, acc, new in (((2, 2), (1,), (2,)), ((2, 2), (0, 1), ()), ((3,), (), (3,)), ((3,), (3,), ()), ((3,), (), (2,)), ((2,), (), (3,))):
        n = len(vals(route))
        st = St(); a0 = obj(st, "ms", ms(F, route, [state_of(F, None, "o")] * n))
        ps, E = explore(F, f, [a0, arr(*acc), arr(*new), state_of(F, (), "n")], st=st, intr=maps.intrinsics(), **KW)
        bad = any(a >= d for a, d in zip(acc, route)) or list(new) != list(route[len(acc):])
        for p in ps:
            got = [decode(x) for x in getf(after(p, "ms"), "values").a]
            exp = [None] * n
            if not bad:
                for c in block(route, acc): exp[c] = ()
            r.check("once", "elements %s[%s] := %s" % (route, acc, new), (p.variant() == "Err") == bad and (not bad or err(p)[:1] in (["OutOfBoundsError"], ["MismatchedDimensions"])) and got == exp, r.where(f), "assigning dimensions %s to index %s of a signal of dimensions %s marks %s (%s)" % (new, acc, route, got, p.variant()))


def bus_slices(F, r):
    r.rule("busarray", "a bus array assignment assigns each element from the element at the same place, needs equal dimensions, and fails when one of them fails")
    f = F.find("assignment_utils::perform_bus_assignment"); r.fn(f)
    for route, acc, new in (((2,), (), (2,)), ((2, 2), (1,), (2,)), ((2,), (1,), ()), ((2,), (), (3,)), ((3,), (), (2,)), ((2,), (2,), ())):
        st = St(); a0 = obj(st, "ms", ms(F, route, vals(route)))
        N_ = [PARAM("n%d" % i) for i in range(len(vals(new)))]
        ps, E = explore(F, f, [a0, arr(*acc), ms(F, new, N_), PARAM("inp"), PARAM("cond")], st=st, intr={**maps.intrinsics(), r"BusRepresentation::completely_assign_bus$": fallible(UNIT)}, **KW)
        bad = any(a >= d for a, d in zip(acc, route)) or list(new) != list(route[len(acc):])
        what = "%s[%s] := %s" % (route, acc, new)
        if bad: r.check("busarray", what, ps and all(p.variant() == "Err" and err(p) != [] and err(p)[0] in ("OutOfBoundsError", "MismatchedDimensions") for p in ps), r.where(f), "assigning buses %s to index %s of %s is accepted" % (new, acc, route)); continue
        good = [p for p in ps if p.variant() == "Ok"]
        r.check("busarray", what + " accepted", bool(good), r.where(f), "never accepted")
        for p in good:
            es = [(e[1][0], e[1][1]) for e in p.events("completely_assign_bus$")]
            r.check("busarray", what, es == [(PARAM("v%d" % c), N_[i]) for i, c in enumerate(block(route, acc))], r.where(f), "elements are assigned as %s" % [(show(a), show(b)) for a, b in es])
            r.check("busarray", what + " errors", not failed_steps(p), r.where(f), "a failed assignment of a bus element is ignored")
            r.check("busarray", what + " condition", all(e[1][-1] is PARAM("cond") for e in p.events("completely_assign_bus$")), r.where(f), "elements are assigned under another condition")


# ------------------------------------------------------------------ buses
def bus(F, **o): return build(F, "BusRepresentation", None, "b", **o)


def pairs_(*kv): return mk("array", *[mk("tuple", k, v) for k, v in kv])


FT = lambda F, v, x: ADT(adt_id(F, "FieldTypes"), v, (("0", x),))
SUB = {r"assignment_utils::perform_(signal|bus)_assignment": fallible(UNIT), r"FieldTypes::number_of_unassigned$": pure(lambda f: PARAM("left"), event=True)}


def bus_whole(F, r):
    r.rule("bus", "assigning a whole bus is an error when part of it is surely assigned or it is another bus type; otherwise every field is assigned from the field of the same name, and nothing stays marked unassigned")
    f = F.find("BusRepresentation::completely_assign_bus"); r.fn(f)
    s1, b1 = STR("s1"), STR("b1")
    node = lambda n: SOME(INT(n))
    for has in (True, False):
        for other in (7, 8):
            for cond in ((), ((1, True),)):
                st = St()
                a0 = obj(st, "bus", bus(F, node_pointer=node(7), has_assignment=BOOL(has), unassigned_fields=pairs_((s1, INT(1)), (b1, INT(1))),
                                        fields=pairs_((b1, FT(F, "Bus", PARAM("bs"))), (s1, FT(F, "Signal", PARAM("ss"))))))
                src = bus(F, node_pointer=node(other), fields=pairs_((b1, FT(F, "Bus", PARAM("bs2"))), (s1, FT(F, "Signal", PARAM("ss2")))))
                ps, E = explore(F, f, [a0, src, PARAM("inp"), state_of(F, cond, "n")], st=st, intr={**maps.intrinsics(), **SUB, **slices_of()}, **KW)
                r.paths(len(ps))
                what = "has_assignment=%s same type=%s under %s" % (has, other == 7, cond)
                if has or other != 7:
                    r.check("bus", what, ps and all(p.variant() == "Err" for p in ps), r.where(f), "a bus %s is assigned without error" % ("already assigned" if has else "of another type"))
                    continue
                good = [p for p in ps if p.variant() == "Ok"]
                r.check("bus", what + " accepted", bool(good), r.where(f), "never accepted")
                for p in good:
                    b = after(p, "bus")
                    es = p.events("perform_(signal|bus)_assignment")
                    tg = {(e[0].rsplit("::", 1)[-1], e[1][0]) for e in es}
                    r.check("bus", what + " fields", tg == {("perform_signal_assignment", PARAM("ss")), ("perform_bus_assignment", PARAM("bs"))}, r.where(f), "assigning a bus assigns only %s" % [(a, show(t)) for a, t in tg])
                    r.check("bus", what + " source", all(contains(mk("x", *e[1]), PARAM("bs2")) for e in es if "bus" in e[0].rsplit("::", 1)[-1]), r.where(f), "a bus field is not assigned from the field of the same name")
                    r.check("bus", what + " conditions", all(e[1][-1] is state_of(F, cond, "n") for e in es), r.where(f), "fields are assigned under another condition")
                    r.check("bus", what + " errors", not failed_steps(p), r.where(f), "a failed field assignment is ignored")
                    r.check("bus", what + " complete", getf(b, "unassigned_fields") is mk("array"), r.where(f), "after assigning the whole bus fields %s are still unassigned" % show(getf(b, "unassigned_fields"))[:80])
                    if not cond: r.check("bus", what + " marked", getf(b, "has_assignment") is TRUE, r.where(f), "after assigning the whole bus it can be assigned again")
    g = F.find("BusRepresentation::has_unassigned_fields"); r.fn(g)
    for n, u in ((NONE, mk("array")), (node(1), mk("array")), (node(1), pairs_((s1, INT(1))))):
        ps, E = explore(F, g, [bus(F, node_pointer=n, unassigned_fields=u)], intr=maps.intrinsics())
        for p in ps: r.check("bus", "unassigned %s %s" % (show(n), len(u.a)), p.v is BOOL(n is NONE or len(u.a) > 0), r.where(g), "a bus with %d unassigned fields (type %s) has unassigned fields: %s" % (len(u.a), show(n), show(p.v)))


def bus_field(F, r):
    r.rule("field", "assigning a bus field assigns that field of that element (through nested buses), fails when that fails, marks the bus as partly assigned, and updates what is left unassigned")
    f = F.find("BusRepresentation::assign_value_to_field"); r.fn(f)
    s1, b1, in1 = STR("s1"), STR("b1"), STR("in1")
    FA = adt_id(F, "FoldedArgument")
    sig = ADT(FA, "Signal", (("0", arr(2)),)); bsa = ADT(FA, "Bus", (("0", ms(F, (1,), [PARAM("nb")])),))
    last = build(F, "AccessingInformationBus", None, "l", undefined=FALSE, field_access=NONE, remaining_access=NONE, array_access=PARAM("ix"))
    deep = build(F, "AccessingInformationBus", None, "d", undefined=FALSE, field_access=SOME(in1), remaining_access=SOME(last), array_access=arr(1))
    for which, arg, access in ((s1, sig, last), (b1, bsa, last), (b1, sig, deep)):
        for left in (0, 1):
            for cond in ((), ((1, True),)):
                st = St()
                inner = [bus(F), PARAM("inner1")]
                a0 = obj(st, "bus", bus(F, has_assignment=FALSE, unassigned_fields=pairs_((s1, INT(2)), (b1, INT(2))),
                                        fields=pairs_((b1, FT(F, "Bus", ms(F, (2,), [PARAM("e0"), PARAM("e1")]))), (s1, FT(F, "Signal", PARAM("ss"))))))
                calls = []
                rec = fallible(UNIT)
                I = {**maps.intrinsics(), **SUB, r"FieldTypes::number_of_unassigned$": pure(lambda x: INT(left), event=True), r"BusRepresentation::assign_value_to_field$": rec}
                ps, E = explore(F, f, [a0, which, access, arg, FALSE, state_of(F, cond, "n")], st=st, intr=I, **KW)
                what = "%s %s left=%d under %s" % (which.a[0], "nested" if access is deep else "last", left, cond)
                good = [p for p in ps if p.variant() == "Ok"]
                r.check("field", what + " accepted", bool(good), r.where(f), "never accepted")
                for p in good:
                    b = after(p, "bus")
                    if access is deep:
                        es = p.events("assign_value_to_field$")
                        ok = len(es) == 1 and es[0][1][0] is PARAM("e1") and es[0][1][1] is in1 and es[0][1][2] is last and es[0][1][-1] is state_of(F, cond, "n")
                    else:
                        es = p.events("perform_(signal|bus)_assignment")
                        ok = len(es) == 1 and (es[0][1][0] is PARAM("ss") if which is s1 else getf(es[0][1][0], "values") is mk("array", PARAM("e0"), PARAM("e1"))) and es[0][1][1] is PARAM("ix") and es[0][1][-1] is state_of(F, cond, "n")
                    r.check("field", what, ok, r.where(f), "assigning field %s performs %s" % (which.a[0], [show(mk("x", *e[1]))[:80] for e in es]))
                    r.check("field", what + " errors", not failed_steps(p), r.where(f), "a failed assignment is ignored")
                    if not cond: r.check("field", what + " marked", getf(b, "has_assignment") is TRUE, r.where(f), "a bus with an assigned field can still be assigned as a whole")
                    u = getf(b, "unassigned_fields")
                    o = b1 if which is s1 else s1
                    want = {(o, INT(2))} | ({(which, INT(left))} if left else set())
                    r.check("field", what + " left", {(x.a[0], x.a[1]) for x in u.a} == want, r.where(f), "with %d elements left of field %s the unassigned fields are %s" % (left, which.a[0], show(u)[:120]))
    # what is left counts the unassigned elements
    g = F.find("FieldTypes::number_of_unassigned"); r.fn(g)
    for cs in itertools.product((None, (), ((1, True),)), repeat=2):
        ps, E = explore(F, g, [FT(F, "Signal", ms(F, (2,), [state_of(F, c, "o") for c in cs]))], intr=maps.intrinsics(), **KW)
        for p in ps: r.check("field", "count %s" % (cs,), p.v is INT(sum(c is None for c in cs)), r.where(g), "%s unassigned signals in states %s" % (show(p.v), cs))
    for bs in itertools.product((True, False), repeat=2):
        ps, E = explore(F, g, [FT(F, "Bus", ms(F, (2,), [mk("busval", BOOL(x)) for x in bs]))], intr={**maps.intrinsics(), r"BusRepresentation::has_unassigned_fields$": pure(lambda b: b.a[0])}, **KW)
        for p in ps: r.check("field", "count buses %s" % (bs,), p.v is INT(sum(bs)), r.where(g), "%s unassigned buses of %s" % (show(p.v), bs))


def bus_init(F, r):
    r.rule("businit", "a declared bus starts with every field unassigned, an input bus (or output of a component) with every field assigned")
    f = F.find("BusRepresentation::initialize_bus"); r.fn(f)
    for init in (True, False):
        for isbus in (False, True):
            st = St(); a0 = obj(st, "bus", bus(F, node_pointer=NONE, fields=pairs_(), unassigned_fields=pairs_(), has_assignment=FALSE))
            fld = mk("array", *[build(F, "type_definitions::WireData", None, "w", name=STR(n), length=arr(2), is_bus=BOOL(isbus)) for n in ("x", "y")])
            I = {**maps.intrinsics(), r"ExecutedProgram::get_bus_node$": pure(lambda s, n: SOME(PARAM("node"))), r"ExecutedBus::fields$": pure(lambda n: fld),
                 r"BusRepresentation::initialize_bus$": fallible(UNIT), r"new_with_route$": pure(lambda rt, v: mk("fresh", rt, v)), r"get_number_of_cells$": pure(lambda s: INT(2))}
            ps, E = explore(F, f, [a0, INT(3), PARAM("scheme"), BOOL(init)], st=st, intr=I, **KW)
            for p in [p for p in ps if p.variant() == "Ok"]:
                b = after(p, "bus"); fs = getf(b, "fields"); u = getf(b, "unassigned_fields")
                what = "initialised=%s %s fields" % (init, "bus" if isbus else "signal")
                r.check("businit", what + " type", getf(b, "node_pointer") is SOME(INT(3)), r.where(f), "a bus is initialised with type %s" % show(getf(b, "node_pointer")))
                r.check("businit", what + " present", [x.a[0].a[0] for x in fs.a] == ["x", "y"], r.where(f), "fields of a new bus: %s" % show(fs)[:100])
                r.check("businit", what + " unassigned", u.op == "array" and sorted(x.a[0].a[0] for x in u.a) == ([] if init else ["x", "y"]), r.where(f), "unassigned fields of a new bus: %s" % show(u)[:100])
                if not isbus:
                    for x in fs.a:
                        c = next((y for y in subterms(x.a[1]) if y.op == "fresh"), None)
                        r.check("businit", what + " states", c is not None and decode(c.a[1]) == (() if init else None), r.where(f), "a field of a new bus starts as %s" % show(x.a[1])[:100])
                else:
                    es = p.events("initialize_bus$")
                    r.check("businit", what + " nested", len(es) == 2 and all(e[1][-1] is BOOL(init) for e in es) and not failed_steps(p), r.where(f), "nested buses are initialised with %s" % [show(e[1][-1]) for e in es])


# ------------------------------------------------------------------ components
def comp(F, **o): return build(F, "ComponentRepresentation", None, "c", **o)


def comp_assign(F, r):
    r.rule("component", "assigning a component's input is an error before the component is created and for anything but an input; each assignment is applied (or kept until the component can be built), failures are not ignored, and what is left unassigned is updated")
    HT = {r"handle_tag_assignment_(no_)?init$": fallible(UNIT)}
    s = STR("a")
    acc = bus_access(F, 1)
    FR = ADT(adt_id(F, "FoldedResult"), "Signal", (("0", ms(F, (2,), vals((2,)))),))
    for k in ("signal", "bus", "bus_field"):
        field = "inputs" if k == "signal" else "input_buses"
        f = F.find("ComponentRepresentation::assign_value_to_%s" % k); r.fn(f)
        base = {"signal": [PARAM("ix"), arr(2)], "bus": [PARAM("ix"), PARAM("val")], "bus_field": [acc, FR]}[k]
        slot = PARAM("slot") if k != "bus_field" else ms(F, (), [PARAM("thebus")])
        for init in (True, False):
            for pre in (True, False):
                for isin in (True, False):
                    for left in ((0, 1) if init and pre and isin else (0,)):
                        st = St()
                        ov = dict(node_pointer=SOME(INT(1)) if pre else NONE, is_initialized=BOOL(init), unassigned_inputs=pairs_((s, INT(2)), (STR("z"), INT(1))), unassigned_tags=mk("array"),
                                  inputs_tags=pairs_((s, PARAM("tags"))) if isin else pairs_(), outputs_tags=pairs_() if isin else pairs_((s, PARAM("tags"))), to_assign_inputs=mk("array"), to_assign_input_buses=mk("array"), to_assign_input_bus_fields=mk("array"))
                        ov[field] = pairs_((s, slot)) if isin else pairs_()
                        a0 = obj(st, "c", comp(F, **ov))
                        unas = [state_of(F, None, "o")] * left + [state_of(F, (), "o")]
                        I = {**maps.intrinsics(), **HT, r"assignment_utils::perform_(signal|bus)_assignment": fallible(UNIT), r"BusRepresentation::assign_value_to_field$": fallible(UNIT),
                             r"get_reference_values$": pure(lambda x: mk("array", *(unas if k == "signal" else [mk("busval", BOOL(i < left)) for i in range(left + 1)]))),
                             r"BusRepresentation::has_unassigned_fields$": pure(lambda b: b.a[0] if b.op == "busval" else mk("call", "huf", b)),
                             r"access_values_by_mut_reference$": fallible(lambda v: mk("array", PARAM("thebus")))}
                        if not init: del I[r"handle_tag_assignment_(no_)?init$"]; I[r"handle_tag_assignment_no_init::check_tags$"] = fallible(UNIT)
                        ps, E = explore(F, f, [a0, s] + base + [PARAM("tags2"), state_of(F, (), "n")], st=st, intr=I, **KW)
                        r.paths(len(ps))
                        what = "%s initialised=%s created=%s input=%s" % (k, init, pre, isin)
                        if not pre or not isin:
                            r.check("component", what, ps and all(p.variant() == "Err" for p in ps), r.where(f), "assigning %s of a component (created: %s, is an input: %s) is accepted" % (k, pre, isin))
                            continue
                        good = [p for p in ps if p.variant() == "Ok"]
                        r.check("component", what + " accepted", bool(good), r.where(f), "assigning an input is never accepted")
                        for p in good:
                            c = after(p, "c")
                            r.check("component", what + " errors", not failed_steps(p), r.where(f), "a failed step is ignored: %s" % failed_steps(p))
                            if init:
                                es = p.events(r"perform_(signal|bus)_assignment|BusRepresentation::assign_value_to_field")
                                r.check("component", what + " applied", len(es) == 1 and contains(mk("x", *es[0][1]), PARAM("thebus") if k == "bus_field" else slot) and es[0][1][-1] is state_of(F, (), "n"), r.where(f), "the assignment is not applied to the input")
                                r.check("component", what + " tags checked", len(p.events(r"handle_tag_assignment_init$")) == 1, r.where(f), "tags are not checked")
                                u = {(x.a[0], x.a[1]) for x in getf(c, "unassigned_inputs").a}
                                r.check("component", what + " left=%d" % left, u == {(STR("z"), INT(1))} | ({(s, INT(left))} if left else set()), r.where(f), "with %d elements of the input left the unassigned inputs are %s" % (left, show(getf(c, "unassigned_inputs"))[:100]))
                            else:
                                kept = [getf(c, x) for x in ("to_assign_inputs", "to_assign_input_buses", "to_assign_input_bus_fields")]
                                tot = [x for l in kept for x in l.a]
                                want = base + [state_of(F, (), "n")]
                                r.check("component", what + " kept", len(tot) == 1 and all(any(contains(tot[0], w) for w in ([v] if k != "bus_field" else [v])) for v in want) and contains(tot[0], s), r.where(f), "an assignment made before the component can be built is kept as %s" % [show(x)[:120] for x in tot])
                                r.check("component", what + " tags checked", len(p.events(r"check_tags$")) == 1, r.where(f), "tags are not checked")
    g = F.find("ComponentRepresentation::preinitialize_component"); r.fn(g)
    for pre in (True, False):
        for anon in (True, False):
            st = St(); a0 = obj(st, "c", comp(F, node_pointer=SOME(INT(1)) if pre else NONE))
            ps, E = explore(F, g, [a0, PARAM("par"), INT(5), PARAM("scheme"), BOOL(anon), PARAM("meta")], st=st, intr={**maps.intrinsics(), r"get_prenode$": pure(lambda *a: SOME(PARAM("node"))), r"PreExecutedTemplate::(inputs|outputs)$": pure(lambda n: pairs_())}, **KW)
            for p in ps:
                if pre and not anon: r.check("component", "created twice", p.variant() == "Err", r.where(g), "a component is created twice")
                else:
                    c = after(p, "c")
                    r.check("component", "created pre=%s anonymous=%s" % (pre, anon), p.variant() == "Ok" and getf(c, "node_pointer") is SOME(INT(5)) and getf(c, "is_initialized") is FALSE and getf(c, "is_parallel") is PARAM("par"), r.where(g), "a created component is %s" % show(c)[:160])
    h = F.find("ComponentRepresentation::has_unassigned_inputs"); r.fn(h)
    for a, b in itertools.product((0, 1), repeat=2):
        ps, E = explore(F, h, [comp(F, unassigned_inputs=pairs_((s, INT(1))) if a else pairs_(), unassigned_tags=mk("array", s) if b else mk("array"))], intr=maps.intrinsics())
        for p in ps: r.check("component", "unassigned %d %d" % (a, b), p.v is BOOL(bool(a or b)), r.where(h), "a component with %d unassigned inputs and %d unassigned tagged inputs: %s" % (a, b, show(p.v)))


def comp_read(F, r):
    r.rule("compread", "reading a component is an error before it is created and before it is built; reading an output is an error while an input is unassigned")
    s = STR("o")
    for fn in ("get_io_value", "get_tag_value"):
        f = F.find("ComponentRepresentation::" + fn); r.fn(f)
        for pre, init, un, kind in itertools.product((True, False), (True, False), (True, False), ("inputs", "outputs", "input_buses", "output_buses")):
            if fn == "get_tag_value" and "bus" in kind: continue
            ov = dict(node_pointer=SOME(INT(1)) if pre else NONE, is_initialized=BOOL(init), unassigned_inputs=pairs_((STR("i"), INT(1))) if un else pairs_(), unassigned_tags=mk("array", mk("array", STR("t"))) if not init else mk("array"))
            tag = build(F, "TagWire", None, "tw", fields=NONE, tags=pairs_((PARAM("f1"), SOME(PARAM("tv")))))
            for k in ("inputs", "outputs", "input_buses", "output_buses"): ov[k] = pairs_((s, ms(F, (2,), vals((2,))))) if k == kind else pairs_()
            ov["inputs_tags"] = pairs_((s, tag)) if kind.startswith("input") else pairs_()
            ov["outputs_tags"] = pairs_((s, tag)) if kind.startswith("output") else pairs_()
            l2 = build(F, "AccessingInformationBus", None, "l", undefined=FALSE, field_access=NONE, remaining_access=NONE, array_access=arr())
            acc = build(F, "AccessingInformationBus", None, "l", undefined=FALSE, field_access=SOME(PARAM("f1")), remaining_access=SOME(l2), array_access=arr()) if fn == "get_tag_value" else \
                build(F, "AccessingInformationBus", None, "l", undefined=FALSE, field_access=NONE, remaining_access=NONE, array_access=arr(1))
            ps, E = explore(F, f, [comp(F, **ov), s, acc], intr=maps.intrinsics(), **KW)
            r.paths(len(ps))
            bad = not pre or not init or (un and kind.startswith("output"))
            what = "%s of %s created=%s built=%s inputs missing=%s" % (fn, kind, pre, init, un)
            if bad: r.check("compread", what, ps and all((err(p) or [""])[0] == "InvalidAccess" for p in ps), r.where(f), "%s succeeds" % what)
            else:
                r.check("compread", what, bool(ps) and all(p.variant() == "Ok" for p in ps), r.where(f), "%s fails" % what)
                if fn == "get_io_value":
                    for p in ps: r.check("compread", what + " value", contains(p.v, PARAM("v1")) and not contains(p.v, PARAM("v0")), r.where(f), "element 1 reads %s" % show(p.v)[:100])
                else:
                    for p in ps: r.check("compread", what + " value", contains(p.v, PARAM("tv")), r.where(f), "the tag reads %s" % show(p.v)[:100])


def comp_init(F, r):
    r.rule("build", "building a component marks every input unassigned and every output assigned, and then applies every assignment made before, failing when one fails")
    f = F.find("ComponentRepresentation::initialize_component"); r.fn(f)
    a = [STR("a"), STR("b")]
    W = lambda n, b: build(F, "type_definitions::WireData", None, "w", name=n, length=arr(2), is_bus=BOOL(b))
    for isbus in (False, True):
        st = St()
        cond = [state_of(F, (), "n0"), state_of(F, (), "n1")]
        ov = dict(node_pointer=SOME(INT(1)), is_initialized=FALSE, unassigned_inputs=pairs_(), unassigned_tags=mk("array"), inputs=pairs_(), input_buses=pairs_(), outputs=pairs_(), output_buses=pairs_(),
                  inputs_tags=pairs_(*[(x, build(F, "TagWire", None, "tw", fields=NONE)) for x in a]), outputs_tags=pairs_(),
                  to_assign_inputs=mk("array", *[mk("tuple", a[0], PARAM("ix%d" % i), PARAM("route%d" % i), cond[i]) for i in range(2)]),
                  to_assign_input_buses=mk("array", *[mk("tuple", a[1], PARAM("bx%d" % i), PARAM("bus%d" % i), cond[i]) for i in range(2)]),
                  to_assign_input_bus_fields=mk("array", *[mk("tuple", a[1], build(F, "AccessingInformationBus", None, "fx%d" % i, field_access=NONE, remaining_access=NONE), PARAM("fv%d" % i), cond[i]) for i in range(2)]))
        a0 = obj(st, "c", comp(F, **ov))
        node = build(F, "ExecutedTemplate", None, "node", signal_to_tags=pairs_(), inputs=mk("array", W(a[0], isbus), W(a[1], isbus)), outputs=mk("array", W(STR("o"), isbus)))
        I = {**maps.intrinsics(), r"ExecutedProgram::get_node$": pure(lambda *x: SOME(node)), r"initialize_bus$": fallible(UNIT), r"new_with_route$": pure(lambda rt, v: mk("fresh", rt, v)), r"get_number_of_cells$": pure(lambda s: INT(2)),
             r"ComponentRepresentation::assign_value_to_\w+_init$": fallible(UNIT)}
        ps, E = explore(F, f, [a0, INT(9), PARAM("scheme")], st=st, intr=I, **KW)
        r.paths(len(ps))
        good = [p for p in ps if p.variant() == "Ok"]
        r.check("build", "accepted %s" % isbus, bool(good), r.where(f), "a component is never built")
        for p in good:
            es = p.events(r"assign_value_to_\w+_init$")
            c = es[0][1][0] if es else after(p, "c")
            what = "bus inputs" if isbus else "signal inputs"
            r.check("build", what + " unassigned", {(x.a[0], x.a[1]) for x in getf(c, "unassigned_inputs").a} == {(a[0], INT(2)), (a[1], INT(2))}, r.where(f), "a new component has unassigned inputs %s" % show(getf(c, "unassigned_inputs"))[:100])
            ins, outs = getf(c, "input_buses" if isbus else "inputs"), getf(c, "output_buses" if isbus else "outputs")
            r.check("build", what + " slots", [x.a[0] for x in ins.a] == a and [x.a[0] for x in outs.a] == [STR("o")], r.where(f), "a new component has inputs %s" % show(ins)[:80])
            if not isbus:
                r.check("build", what + " states", all(decode(x.a[1].a[1]) is None for x in ins.a) and all(decode(x.a[1].a[1]) == () for x in outs.a), r.where(f), "the signals of a new component start as %s, %s" % (show(ins)[:80], show(outs)[:80]))
            else:
                ib = p.events("initialize_bus$")
                r.check("build", what + " states", [e[1][-1] for e in ib] == [FALSE, FALSE, TRUE], r.where(f), "the buses of a new component are initialised as %s" % [show(e[1][-1]) for e in ib])
            r.check("build", what + " built", getf(after(p, "c"), "is_initialized") is TRUE or es and getf(es[0][1][0], "is_initialized") is TRUE, r.where(f), "the component is not marked built")
            want = {("signal", "ix%d" % i, i) for i in range(2)} | {("bus", "bx%d" % i, i) for i in range(2)} | {("bus_field", "fv%d" % i, i) for i in range(2)}
            got = {(k, n, i) for k, n, i in want for e in es if re.search(r"assign_value_to_%s_init$" % k, e[0]) and contains(mk("x", *e[1][1:]), PARAM(n)) and e[1][-1] is cond[i]}
            r.check("build", what + " replayed", got == want and len(es) == 6, r.where(f), "building a component does not apply the earlier assignments %s" % sorted(want - got))
            r.check("build", what + " errors", not failed_steps(p), r.where(f), "a failed earlier assignment is ignored")


def ends(F, r):
    r.rule("end", "a template whose execution ends with a created component that misses inputs is rejected")
    f = F.find("environment::environment_check_all_components_assigned"); r.fn(f)
    for st8 in itertools.product(((True, False), (True, True), (False, True), (False, False)), repeat=2):
        sl = ms(F, (2,), [mk("cmp", INT(i), BOOL(a), BOOL(b)) for i, (a, b) in enumerate(st8)])
        I = {**maps.intrinsics(), r"get_components_ref$": pure(lambda e: pairs_((STR("x"), ms(F, (), [mk("cmp", INT(7), TRUE, FALSE)])), (STR("c"), sl))), r"ComponentRepresentation::is_preinitialized$": pure(lambda c: c.a[1]),
             r"ComponentRepresentation::has_unassigned_inputs$": pure(lambda c: c.a[2])}
        ps, E = explore(F, f, [PARAM("env")], intr=I, **KW)
        bad = any(a and b for a, b in st8)
        r.check("end", "components %s" % (st8,), bool(ps) and all((p.variant() == "Err") == bad for p in ps), r.where(f), "components (created, missing inputs) = %s end a template: %s" % (list(st8), [p.variant() for p in ps]))
    g = next((F.fns[i] for i in [x for x in F.fns if x.endswith("execute::execute_template_call_complete") or x.endswith("execute::execute_template_call")] if any("environment_check_all_components_assigned" in str(b["t"]) for b in F.fns[i].bbs)), None)
    callers = {fn.id for fn, *_ in F.call_sites(lambda c: (c["r"] or c["p"]).endswith("environment_check_all_components_assigned"))}
    r.check("end", "every template execution checks", bool(callers), r.where(f), "no template execution checks its components at the end")
    if g is not None:
        r.fn(g)
        ca = oracle([OK(UNIT), ERR(mk("tuple", PARAM("memerr"), PARAM("m")))])
        I = {**TREAT, **UNWRAP, r"environment_check_all_components_assigned$": ca, r"execute::execute_(sequence_of_)?statements?$": oracle([OK(mk("tuple", NONE, PARAM("simp"))), UNITERR]),
             r"ExecutedProgram::identify_node$": pure(lambda *a: NONE), r"execute::(prepare_environment_for_call|generate_\w+|compute_\w+)$": pure(lambda *a: mk("aux", *a))}
        try: ps, E = explore(F, g, [PARAM("a%d" % i) for i in range(g.nargs)], stop=STOP + (r"program_archive", r"execution_data"), intr=I, loop_visits=2)
        except Budget: ps = []
        for p in ps:
            if p.variant() == "Ok": r.check("end", "failed check", not [x for x in failed_steps(p) if "environment_check" in x], r.where(g), "a template with a component missing inputs is accepted")


def starts(F, r):
    r.rule("start", "inputs of the template being executed start assigned, outputs and intermediate signals start unassigned")
    for k in ("input", "output", "intermediate"):
        f = F.find("environment::environment_shortcut_add_%s" % k); r.fn(f)
        ps, E = explore(F, f, [PARAM("env"), PARAM("name"), arr(2), pairs_()], intr={**maps.intrinsics(), r"add_(input|output|intermediate)$": pure(lambda *a: UNIT, event=True)}, **KW)
        for p in ps:
            es = p.events(r"::add_\w+$")
            ok = len(es) == 1 and es[0][0].endswith("add_" + k)
            v = es[0][1][-1] if es else UNIT
            got = [decode(x) for y in subterms(v) if y.op == "adt" and y.a[0].endswith("MemorySlice") for x in getf(y, "values").a]
            r.check("start", k, ok and got == [() if k == "input" else None] * 2, r.where(f), "a declared %s is added as %s with states %s" % (k, [e[0].rsplit("::", 1)[-1] for e in es], got))
    # buses: an input bus is initialised as assigned
    g = F.find("execute::execute_bus_declaration"); r.fn(g)
    for k in ("Input", "Output", "Intermediate"):
        I = {**TREAT, **UNWRAP, **env("bus"), r"environment_shortcut_add_bus_(\w+)$": pure(lambda *a: UNIT, event=True)}
        args = call_args(F, g, {"SignalType": unit_variant(F, "ast::SignalType", k), "Option<": SOME(PARAM("node"))})
        ps, E = explore(F, g, args, stop=STOP, intr=I)
        seen = set()
        for p in ps:
            for e in p.events(r"environment_shortcut_add_bus_\w+$"): seen.add(e[0].rsplit("_", 1)[-1])
        r.check("start", "bus " + k, seen == {k.lower()}, r.where(g), "a declared %s bus is added as %s" % (k.lower(), seen))


def inputs(F, r):
    r.rule("input", "assigning an input of the template being executed, or a tag of a signal that is an input, already assigned or already has the tag's value, is an error")
    g = F.find("execute::perform_assign"); r.fn(g)
    for op in ("AssignSignal", "AssignConstraintSignal"):
        for kind in ("signal", "bus"):
            for rhs in (("arith",) if kind == "signal" else ("bus", "arith")):
                for depth in ((0,) if kind == "signal" else (0,) if rhs == "bus" else (1,)):
                    (ps, E), a = assign_paths(F, op, kind, rhs, depth=depth, inp=True)
                    r.paths(len(ps))
                    r.check("input", "%s %s %s depth %d" % (op, kind, rhs, depth), bool(ps) and all(p.variant() != "Ok" for p in ps), r.where(g), "an input %s can be assigned with %s" % (kind, op))
                    r.check("input", "%s %s %s depth %d reported" % (op, kind, rhs, depth), any(codes(p) for p in ps), r.where(g), "assigning an input %s is not reported" % kind)
    for inp, init, vd in itertools.product((True, False), repeat=3):
        tags = build(F, "SignalTagInfo", None, "ti", is_init=BOOL(init), tags=pairs_((PARAM("tag"), SOME(PARAM("old")) if vd else NONE)), definitions=pairs_((PARAM("tag"), build(F, "TagState", None, "ts", defined=TRUE, value_defined=BOOL(vd)))))
        a = build(F, "AccessingInformation", None, "oacc", undefined=FALSE, signal_access=SOME(PARAM("tag")))
        acc = build(F, "TypesAccess", None, "acc", bus_access=NONE, other_access=SOME(a))
        node = ADT(adt_id(F, "ExecutedStructure"), "Template", (("0", PARAM("node")),))
        st = St(); st.mem[("T", PARAM("ti"))] = mk("tuple", tags, PARAM("content"))
        get = fallible(lambda v: mk("ref", ("T", PARAM("ti")), ()), PARAM("env_error"), False)
        I = {r"TypeKnowledge::is_signal$": pure(lambda t: FALSE), r"TypeKnowledge::is_tag$": pure(lambda t: TRUE), r"TypeKnowledge::get_reduces_to$": pure(lambda t: unit_variant(F, "TypeReduction", "Tag")), **TREAT, **ASSIGN, **UNWRAP,
             r"RawEnvironment::<T, CC, SC, VC, BC>::get_mut_signal(_res|_mut)?$": get, **env("signal", inp), **slices_of(), **maps.intrinsics()}
        ps, E = explore(F, g, [PARAM("meta"), PARAM("symbol"), unit_variant(F, "AssignOp", "AssignSignal"), acc, folded(F, "arith"), node, rt_of(F, "Known"), PARAM("pa"), PARAM("flags")], stop=STOP, intr=I, st=st, keep_refs=True)
        r.paths(len(ps))
        good = [p for p in ps if p.variant() == "Ok"]
        what = "tag of a signal: input=%s assigned=%s has value=%s" % (inp, init, vd)
        if inp or init or vd: r.check("input", what, bool(ps) and not good, r.where(g), "a tag value is accepted for a signal that is an input: %s, assigned: %s, has a tag value: %s" % (inp, init, vd))
        else: r.check("input", what, bool(good), r.where(g), "a tag value is never accepted")


def reads(F, r):
    r.rule("read", "reading a signal element that no path assigned, or a bus with unassigned fields, is an error; a variable or signal is read at its index, in bounds or not at all")
    f = F.find("execute::signal_to_arith"); r.fn(f)
    for cs in itertools.product((None, (), ((1, True),)), repeat=2):
        ps, E = explore(F, f, [STR("s"), ms(F, (2,), [state_of(F, c, "o") for c in cs])], **KW)
        for p in ps:
            r.check("read", "states %s" % (cs,), (p.variant() == "Err") == (None in cs), r.where(f), "reading signals in states %s gives %s" % (cs, p.variant()))
            if p.variant() == "Ok":
                v = getf(downcast(p.v, "Ok"), "0")
                names = [getf(x, "symbol") for x in getf(v, "values").a]
                r.check("read", "names %s" % (cs,), names == [STR("s[0]"), STR("s[1]")] and getf(v, "route") is arr(2), r.where(f), "reading s reads %s" % [show(x) for x in names])
        r.check("read", "states %s answered" % (cs,), bool(ps), r.where(f), "no outcome")
    for kind, fn in (("signal", "execute_signal"), ("bus", "execute_bus"), ("component", "execute_component"), ("variable", "execute_variable")):
        g = F.find("execute::" + fn); r.fn(g)
        for depth in ((0,) if kind in ("signal", "variable") else (0, 1) if kind == "bus" else (1,)):
            a = build(F, "AccessingInformation", None, "oacc", undefined=FALSE, signal_access=NONE, after_signal=mk("array")) if kind in ("signal", "variable") else bus_access(F, depth)
            FRS = adt_id(F, "FoldedResult")
            field = lambda v: [OK(x) for x in (ADT(FRS, "Signal", (("0", mk("sub", v[0])),)), ADT(FRS, "Bus", (("0", mk("subbus", v[0])),)))] + [ERR(PARAM("me"))]
            io = lambda v: [OK(mk("tuple", PARAM("tags"), getf(x, "0"))) if x.a[1] == "Ok" else x for x in field(v)]
            I = {**TREAT, **UNWRAP, **env(kind), **slices_of(), r"execute::treat_accessing": fallible(a, UNIT), r"execute::signal_to_arith$": fallible(lambda v: mk("arith", v[0], v[1])), r"execute::create_symbol": pure(lambda *x: mk("name", *x)),
                 r"BusRepresentation::get_field$": oracle(field), r"ComponentRepresentation::get_io_value$": oracle(io), r"ComponentRepresentation::get_tag_value$": fallible(PARAM("tv")),
                 r"BusRepresentation::has_unassigned_fields$": pure(lambda b: mk("huf", b)), r"compute_propagated_tags": pure(lambda *x: mk("ptags")), r"TypeKnowledge::is_tag$": pure(lambda t: FALSE),
                 r"TypeKnowledge::get_reduces_to$": pure(lambda t: unit_variant(F, "TypeReduction", "Signal")), r"execute::safe_unwrap_to_single$": pure(lambda v, l: mk("single", v)), r"MemorySlice::<C>::new$": pure(lambda v: mk("one", v))}
            ps, E = explore(F, g, [PARAM("meta"), PARAM("symbol"), PARAM("access"), PARAM("pa"), PARAM("rt"), PARAM("flags")], stop=STOP, intr=I, loop_visits=6)
            r.paths(len(ps))
            good = [p for p in ps if p.variant() == "Ok"]
            r.check("read", "%s depth %d accepted" % (kind, depth), bool(good), r.where(g), "reading a %s never succeeds" % kind)
            for p in good:
                v = getf(downcast(p.v, "Ok"), "0")
                r.check("read", "%s depth %d errors" % (kind, depth), not failed_steps(p), r.where(g), "reading a %s succeeds although %s failed" % (kind, failed_steps(p)))
                ac = p.events(r"MemorySlice::<C>::access_values$")
                ixf = "before_signal" if kind in ("signal", "variable") else "array_access"
                anon = kind == "component"
                r.check("read", "%s depth %d index" % (kind, depth), any(e[1][1] is getf(a, ixf) or anon and e[1][1] is mk("array") for e in ac), r.where(g), "a %s is not read at its index" % kind)
                ar, bs = getf(v, "arithmetic_slice"), getf(v, "bus_slice")
                if kind == "variable": continue
                if ar is not NONE:
                    r.check("read", "%s depth %d signal states" % (kind, depth), bool(p.events(r"signal_to_arith$")) and contains(ar, lambda x: x.op == "arith"), r.where(g), "reading a %s yields signals whose assignment is not checked" % kind)
                if bs is not NONE:
                    sl = getf(getf(downcast(bs, "Some"), "0"), "1")
                    want = {mk("cell", sl, INT(i)) for i in range(N)}
                    seen = {t.a[0] for t, b in p.bools(lambda t: t.op == "huf") if not b}
                    r.check("read", "%s depth %d bus states" % (kind, depth), want <= seen, r.where(g), "a bus read from a %s has elements whose assignment is not checked" % kind)
                    r.check("read", "%s depth %d bus unassigned" % (kind, depth), not any(b for t, b in p.bools(lambda t: t.op == "huf")), r.where(g), "a bus with unassigned fields is read from a %s" % kind)


def stack(F, r):
    r.rule("stack", "the branches of a conditional with an unknown condition run under one more condition, new for each conditional and opposite in the two branches; afterwards, and under known conditions, the conditions are the caller's")
    c = F.find("execute::execute_conditional_statement"); r.fn(c)
    none = OK(mk("tuple", NONE, PARAM("simp")))
    old = mk("array", mk("tuple", INT(3), TRUE))
    for known in (True, False, None):
        for els in (True, False):
            root = PARAM("rtobj"); st0 = St()
            st0.mem[("T", root)] = build(F, "RuntimeInformation", None, "rt", block_type=unit_variant(F, "BlockType", "Known"), conditions_state=old, unknown_counter=INT(7))
            I = {**TREAT, **ASSIGN, **UNWRAP, **slices_of(), r"execute::execute_expression$": fold_expr, r"execute::execute_statement$": oracle([none, OK(mk("tuple", SOME(PARAM("ret")), PARAM("simp"))), UNITERR]),
                 r"get_boolean_equivalence$": pure(lambda a, p: NONE if known is None else SOME(BOOL(known)))}
            ps, E = explore(F, c, [PARAM("cond"), PARAM("then"), SOME(PARAM("else")) if els else NONE, PARAM("pa"), mk("ref", ("T", root), ()), PARAM("node"), PARAM("flags")], stop=STOP, intr=I, st=st0)
            r.paths(len(ps))
            for p in ps:
                seen = []
                for e in p.events(r"execute_statement$"):
                    cs = getf(e[1][2], "conditions_state")
                    seen.append((e[1][0], tuple((x.a[0].a[0], x.a[1].a[0]) for x in cs.a) if cs.op == "array" and all(x.op == "tuple" for x in cs.a) else "?"))
                what = "known=%s else=%s" % (known, els)
                for who, cs in seen:
                    if known is not None: ok = cs == ((3, True),)
                    else: ok = cs != "?" and len(cs) == 2 and cs[0] == (3, True) and cs[1][0] not in (3,) and cs[1][0] == seen[0][1][1][0]
                    r.check("stack", what + " branch", ok, r.where(c), "a branch of a conditional runs under conditions %s" % (cs,))
                if known is None and len(seen) == 2 and "?" not in (seen[0][1], seen[1][1]):
                    r.check("stack", what + " opposite", seen[0][1][1][1] != seen[1][1][1][1], r.where(c), "both branches run under the same condition %s" % (seen[0][1],))
                if p.variant() == "Ok":
                    v = p.st.mem[("T", root)]
                    r.check("stack", what + " restored", getf(v, "conditions_state") is old, r.where(c), "after a conditional the conditions are %s" % show(getf(v, "conditions_state"))[:100])
                    if known is None: r.check("stack", what + " fresh", getf(v, "unknown_counter").op == "int" and getf(v, "unknown_counter").a[0] > max([x[1][1][0] for x in seen] + [6]), r.where(c), "the next unknown condition is confused with this one")
                if known is not None and p.variant() == "Ok": r.check("stack", what + " taken", [w for w, _ in seen] == ([PARAM("then")] if known else [PARAM("else")] if els else []), r.where(c), "a %s condition executes %s" % (known, [show(w) for w, _ in seen]))
    f = F.find("execute::execute_statement")
    for v in ("While", "Block", "InitializationBlock", "IfThenElse"):
        st = build(F, "Statement", v)
        root = PARAM("rtobj"); st0 = St(); st0.mem[("T", root)] = build(F, "RuntimeInformation", None, "rt", block_type=unit_variant(F, "BlockType", "Known"), conditions_state=old, unknown_counter=INT(7))
        co = lambda k: OK(mk("tuple", NONE, PARAM("simp"), k))
        I = {**TREAT, **ASSIGN, **UNWRAP, r"execute::execute_conditional_statement$": oracle([co(NONE), co(SOME(TRUE)), co(SOME(FALSE)), UNITERR], most=3), r"execute::execute_sequence_of_statements$": oracle([none, UNITERR])}
        ps, E = explore(F, f, [st, PARAM("pa"), mk("ref", ("T", root), ()), SOME(PARAM("node")), PARAM("flags")], stop=STOP, intr=I, st=st0, loop_visits=8)
        for p in ps:
            if p.variant() == "Ok": r.check("stack", "%s leaves the conditions" % v, getf(p.st.mem[("T", root)], "conditions_state") is old, r.where(f), "%s changes the conditions to %s" % (v, show(getf(p.st.mem[("T", root)], "conditions_state"))[:80]))


def condition(F, r):
    r.rule("cond", "an assignment is recorded as certain exactly when no unknown condition encloses it, and otherwise under the enclosing conditions")
    g = F.find("execute::perform_assign"); r.fn(g)
    for cs in ((), ((3, True),), ((3, True), (4, False))):
        a = build(F, "AccessingInformation", None, "oacc", undefined=FALSE, signal_access=NONE)
        acc = build(F, "TypesAccess", None, "acc", bus_access=NONE, other_access=SOME(a))
        node = ADT(adt_id(F, "ExecutedStructure"), "Template", (("0", PARAM("node")),))
        rt = build(F, "RuntimeInformation", None, "rt", block_type=unit_variant(F, "BlockType", "Unknown" if cs else "Known"), conditions_state=mk("array", *[mk("tuple", INT(i), BOOL(b)) for i, b in cs]))
        I = {r"TypeKnowledge::is_signal$": pure(lambda t: TRUE), r"TypeKnowledge::is_tag$": pure(lambda t: FALSE), **TREAT, **ASSIGN, **UNWRAP, **env("signal", False), **slices_of()}
        ps, E = explore(F, g, [PARAM("meta"), PARAM("symbol"), unit_variant(F, "AssignOp", "AssignSignal"), acc, folded(F, "arith"), node, rt, PARAM("pa"), PARAM("flags")], stop=STOP, intr=I)
        r.paths(len(ps))
        n = 0
        for p in ps:
            for e in p.events(r"perform_signal_assignment$"):
                n += 1
                r.check("cond", "under %s" % (cs,), decode(e[1][-1]) == cs, r.where(g), "an assignment under conditions %s is recorded as %s" % (list(cs), show(e[1][-1])[:100]))
        r.check("cond", "under %s assigned" % (cs,), n > 0, r.where(g), "an assignment under %s is not recorded" % (cs,))
