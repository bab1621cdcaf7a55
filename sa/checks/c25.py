"""C25: tags travel with signals only by the rules of the language."""
import itertools
from ..exec_model import *
from .. import maps
from .c04 import oracle, failed_steps, call_args, rt_of
from .c05 import obj, KW, arr, ms, err
from .c19 import pairs_, COPY

# a tag of a signal: is it declared, was its value set with s.t = v, its value
VALUES = (NONE, SOME(INT(1)), SOME(INT(2)))
ABSENT = None
MI = {**maps.intrinsics(), **COPY, r"core::mem::take$": lambda E, st, name, args, fn, line: _take(E, st, args)}


def _take(E, st, args):
    v = E.deref(st, args[0])
    if v.op != "array": return NotImplemented
    E.store_through(st, args[0], mk("array")); return [(st, v)]


def run(F, r):
    r.do(F, propagate, buses, received, joined, inputs_before, inputs_after, required, outputs, declared, signal_assign, bus_assign, component_assign, variable_assign, tag_assign, reads, tag_reads, arrays, exported, main_inputs)


def tmap(d): return pairs_(*[(STR(k), v) for k, v in d.items() if v is not ABSENT])


def dmap(F, d): return pairs_(*[(STR(k), build(F, "TagState", None, "s", defined=BOOL(a), value_defined=BOOL(b))) for k, (a, b) in d.items()])


def tagwire(F, tags, fields=NONE): return build(F, "TagWire", None, "w", tags=tmap(tags), fields=fields)


def read(m):
    """tag map term -> {tag: value}"""
    if m.op != "array": raise Anchor("tags %s" % show(m)[:80])
    return {x.a[0].a[0]: x.a[1] for x in m.a}


def sh(d): return {k: show(v) if isinstance(v, T) else v for k, v in d.items()}


# the rules of the language -------------------------------------------------
def assign(state, new, first):
    """state: {tag: (declared, valued, value)}; new: {tag: value}; first: nothing was assigned before"""
    out = {}
    for t, (decl, valued, v) in state.items():
        if decl and valued: out[t] = (decl, valued, v)
        elif decl: out[t] = (decl, valued, new.get(t, NONE) if first else v if t in new and new[t] is v else NONE)
        elif t in new and new[t] is v: out[t] = (decl, valued, v)
    if first:
        for t, v in new.items(): out.setdefault(t, (False, False, v))
    return out


def visible(state, complete):
    """tags a value read carries: those declared, and those received by every element; the value only if set or received by every element"""
    out = {}
    for t, (decl, valued, v) in state.items():
        if valued or complete: out[t] = v
        elif decl: out[t] = NONE
    return out


STATES = [{}] + [{"t": s} for s in ((True, False, NONE), (True, True, SOME(INT(1))), (True, False, SOME(INT(1))), (False, False, NONE), (False, False, SOME(INT(1))))]
STATES += [{"t": (True, False, SOME(INT(1))), "u": (False, False, SOME(INT(2)))}, {"t": (True, True, SOME(INT(1))), "u": (True, False, SOME(INT(2)))}, {"t": (False, False, SOME(INT(1))), "u": (False, False, NONE)}]
NEWS = [{}] + [{"t": v} for v in VALUES] + [{"u": VALUES[2]}, {"t": VALUES[1], "u": VALUES[2]}, {"t": NONE, "u": NONE}]


def vmap(s): return tmap({k: v[2] for k, v in s.items()})


def defs(F, s): return dmap(F, {k: (v[0], v[1]) for k, v in s.items()})


def got_state(vals, ds):
    d = {x.a[0].a[0]: x.a[1] for x in ds.a}
    out = {}
    for k, v in read(vals).items():
        s = d.get(k)
        if s is None: out[k] = ("?", "?", v); continue
        out[k] = (getf(s, "defined") is TRUE, getf(s, "value_defined") is TRUE, v)
    return out


def same(a, b): return a.keys() == b.keys() and all(x[0] == y[0] and x[1] == y[1] and x[2] is y[2] if isinstance(x, tuple) else x is y for x, y in ((a[k], b[k]) for k in a))


def propagate(F, r):
    r.rule("propagation", "an assignment gives a signal the tags it receives; a later one to another element keeps only those received again with the same value; declared tags stay, and the value set for a tag stays")
    f = F.find("assignment_utils::perform_tag_propagation"); r.fn(f)
    for s, n, init in itertools.product(STATES, NEWS, (False, True)):
        st0 = St(); a, b = obj(st0, "vals", vmap(s)), obj(st0, "defs", defs(F, s))
        ps, E = explore(F, f, [a, b, tmap(n), BOOL(init)], st=st0, intr=MI, **KW)
        r.paths(len(ps)); want = assign(s, n, not init)
        r.check("propagation", "answered", len(ps) > 0, r.where(f), "no outcome")
        for p in ps:
            g = got_state(after(p, "vals"), after(p, "defs"))
            r.check("propagation", "%s %s %s" % (sh(s), sh(n), init), same(g, want), r.where(f), "a signal with tags %s that receives %s (%s) has %s; expected %s" % (sh(s), sh(n), "again" if init else "first", {k: (v[0], v[1], show(v[2])) for k, v in g.items()}, {k: (v[0], v[1], show(v[2])) for k, v in want.items()}))


def buses(F, r):
    r.rule("bus propagation", "a bus receives the tags of the bus assigned to it, each field those of the field of the same name, and counts what is still to be assigned")
    f = F.find("assignment_utils::perform_tag_propagation_bus"); r.fn(f)
    inner = {"t": (True, False, NONE)}
    for s, n, n_in, init, fields in itertools.product((STATES[0], STATES[1], STATES[2]), ({}, {"t": VALUES[1]}), ({}, {"t": VALUES[2], "k": NONE}), (False, True), ("all", "other", "none")):
        def info(name, s, rem, size, fs): return build(F, "BusTagInfo", None, name, tags=vmap(s), definitions=defs(F, s), remaining_inserts=INT(rem), size=INT(size), is_init=BOOL(init), fields=fs)
        leaf = info("leaf", inner, 12, 3, pairs_())
        st0 = St(); a = obj(st0, "bus", info("bus", s, 4, 4, pairs_((STR("x"), leaf), (STR("y"), leaf))))
        fs = {"all": SOME(pairs_((STR("x"), tagwire(F, n_in)), (STR("y"), tagwire(F, {})))), "other": SOME(pairs_((STR("z"), tagwire(F, n_in)))), "none": NONE}[fields]
        ps, E = explore(F, f, [a, tagwire(F, n, fs), INT(2)], st=st0, intr=MI, **KW)
        r.paths(len(ps)); r.check("bus propagation", "answered", len(ps) > 0, r.where(f), "no outcome")
        for p in ps:
            v = after(p, "bus"); what = "%s %s %s %s %s" % (sh(s), sh(n), sh(n_in), init, fields)
            r.check("bus propagation", "own tags", same(got_state(getf(v, "tags"), getf(v, "definitions")), assign(s, n, not init)), r.where(f), "a bus with tags %s that receives %s has %s" % (sh(s), sh(n), show(getf(v, "tags"))[:100]))
            r.check("bus propagation", "own count", getf(v, "remaining_inserts") is INT(2) and getf(v, "is_init") is TRUE, r.where(f), "assigning 2 of 4 buses leaves %s, initialised %s" % (show(getf(v, "remaining_inserts")), show(getf(v, "is_init"))))
            for x in getf(v, "fields").a:
                k, w = x.a[0].a[0], x.a[1]
                exp = assign(inner, n_in if k == "x" and fields == "all" else {}, not init)
                r.check("bus propagation", "field tags", same(got_state(getf(w, "tags"), getf(w, "definitions")), exp), r.where(f), "field %s of a bus that receives %s for x has tags %s" % (k, sh(n_in) if fields == "all" else "nothing", show(getf(w, "tags"))[:100]))
                r.check("bus propagation", "field count", getf(w, "remaining_inserts") is INT(6) and getf(w, "is_init") is TRUE, r.where(f), "assigning 2 buses with a field of 3 signals leaves %s of 12" % show(getf(w, "remaining_inserts")))
            r.check("bus propagation", "fields kept", len(getf(v, "fields").a) == 2, r.where(f), "fields are lost")


def received(F, r):
    r.rule("carried", "a value read carries the declared tags of its signal and those every element received; the value of a tag only if it was set or every element received it")
    f, g = F.find("assignment_utils::compute_propagated_tags"), F.find("assignment_utils::compute_propagated_tags_bus"); r.fn(f); r.fn(g)
    for s, rem in itertools.product(STATES, (0, 1, 3)):
        ps, E = explore(F, f, [vmap(s), defs(F, s), INT(rem)], intr=MI, **KW); r.paths(len(ps))
        for p in ps: r.check("carried", "%s %d" % (sh(s), rem), same(read(p.v), visible(s, rem == 0)), r.where(f), "a signal with tags %s and %d elements to assign is read with tags %s" % (sh(s), rem, show(p.v)[:120]))
        r.check("carried", "answered", len(ps) > 0, r.where(f), "no outcome")
        info = lambda n, s, rem, fs: build(F, "BusTagInfo", None, n, tags=vmap(s), definitions=defs(F, s), remaining_inserts=INT(rem), fields=fs)
        for s2, rem2 in ((STATES[2], 0), (STATES[5], 1), (STATES[5], 0)):
            ps, E = explore(F, g, [info("b", s, rem, pairs_((STR("x"), info("x", s2, rem2, pairs_())), (STR("y"), info("y", {}, 0, pairs_()))))], intr=MI, **KW); r.paths(len(ps))
            for p in ps:
                r.check("carried", "bus", same(read(getf(p.v, "tags")), visible(s, rem == 0)), r.where(g), "a bus with tags %s and %d to assign is read with tags %s" % (sh(s), rem, show(getf(p.v, "tags"))[:120]))
                fs = getf(p.v, "fields")
                if fs.op != "adt" or fs.a[1] != "Some": r.check("carried", "bus fields", False, r.where(g), "a bus is read without the tags of its fields"); continue
                d = {x.a[0].a[0]: read(getf(x.a[1], "tags")) for x in getf(downcast(fs, "Some"), "0").a}
                r.check("carried", "bus fields", set(d) == {"x", "y"} and same(d["x"], visible(s2, rem2 == 0)) and d["y"] == {}, r.where(g), "field x with tags %s and %d to assign is read with tags %s" % (sh(s2), rem2, sh(d.get("x", {}))))


def joined(F, r):
    r.rule("array", "an array written in line carries the tags, with the values, common to its elements")
    f = F.find("assignment_utils::join_tags_propagation"); r.fn(f)
    for a, b in itertools.product(NEWS, NEWS):
        common = {k: v for k, v in a.items() if k in b and b[k] is v}
        for nested in (False, True):
            fx = lambda d: SOME(pairs_((STR("x"), tagwire(F, d)), (STR("y"), tagwire(F, {"k": VALUES[1]})))) if nested else NONE
            ps, E = explore(F, f, [SOME(tagwire(F, a, fx(a))), tagwire(F, b, fx(b))], intr=MI, **KW); r.paths(len(ps))
            r.check("array", "answered", len(ps) > 0, r.where(f), "no outcome")
            for p in ps:
                if p.variant() != "Some": r.check("array", "joined", False, r.where(f), "tags %s and %s join to none" % (sh(a), sh(b))); continue
                w = getf(downcast(p.v, "Some"), "0")
                r.check("array", "%s %s" % (sh(a), sh(b)), same(read(getf(w, "tags")), common), r.where(f), "elements with tags %s and %s give an array with tags %s" % (sh(a), sh(b), show(getf(w, "tags"))[:100]))
                if nested:
                    d = {x.a[0].a[0]: read(getf(x.a[1], "tags")) for x in getf(downcast(getf(w, "fields"), "Some"), "0").a}
                    r.check("array", "fields", set(d) == {"x", "y"} and same(d["x"], common) and same(d["y"], {"k": VALUES[1]}), r.where(f), "fields with tags %s and %s give %s" % (sh(a), sh(b), {k: sh(v) for k, v in d.items()}))
    ps, E = explore(F, f, [NONE, tagwire(F, {"t": NONE})], intr=MI, **KW)
    for p in ps: r.check("array", "untagged element", p.variant() == "None", r.where(f), "an array with an element without tags carries tags")


def _req(F, tags, fields=NONE): return tagwire(F, tags, fields)


def inputs_before(F, r):
    r.rule("required", "an input with required tags accepts only values carrying all of them, field by field; the first assignment gives the values, later ones must agree")
    f = F.find("ComponentRepresentation::handle_tag_assignment_no_init"); r.fn(f)
    S1 = mk("array", STR("a"))
    for first, cur, new in itertools.product((True, False), ({}, {"t": NONE}, {"t": VALUES[1]}, {"t": NONE, "u": VALUES[2]}), NEWS):
        st0 = St()
        comp = build(F, "ComponentRepresentation", None, "c", node_pointer=SOME(INT(1)), unassigned_tags=mk("array", STR("other"), *([S1] if first and cur else [])), inputs_tags=pairs_((STR("b"), tagwire(F, {"t": VALUES[2]})), (STR("a"), tagwire(F, cur))))
        a = obj(st0, "c", comp)
        ps, E = explore(F, f, [a, S1, tagwire(F, new)], st=st0, intr=MI, **KW); r.paths(len(ps))
        judge(r, f, ps, first and bool(cur), cur, new, "c")
        for p in ps:
            if p.variant() != "Ok": continue
            c = after(p, "c"); d = {x.a[0].a[0]: read(getf(x.a[1], "tags")) for x in getf(c, "inputs_tags").a}
            want = {k: new[k] for k in cur} if first else cur
            r.check("required", "values stored", same(d["a"], want) and same(d["b"], {"t": VALUES[2]}), r.where(f), "an input requiring %s that receives %s has tags %s" % (sh(cur), sh(new), sh(d["a"])))
            r.check("required", "marked", getf(c, "unassigned_tags") is mk("array", STR("other")), r.where(f), "after receiving its tags an input counts as %s" % show(getf(c, "unassigned_tags")))
    # fields of a bus input, assigned with the whole bus or one field at a time
    NX = mk("array", STR("a"), STR("x"))
    for whole, first, new in itertools.product((True, False), (True, False), ({}, {"t": NONE}, {"t": VALUES[1]}, {"t": VALUES[2]}, {"u": NONE})):
        cur = {"t": VALUES[1] if not first else NONE}
        st0 = St()
        comp = build(F, "ComponentRepresentation", None, "c", node_pointer=SOME(INT(1)), unassigned_tags=mk("array", *([NX] if first else [])), inputs_tags=pairs_((STR("a"), tagwire(F, {}, SOME(pairs_((STR("x"), tagwire(F, cur)), (STR("y"), tagwire(F, {}))))))))
        a = obj(st0, "c", comp)
        val = tagwire(F, {}, SOME(pairs_((STR("x"), tagwire(F, new)), (STR("y"), tagwire(F, {}))))) if whole else tagwire(F, new)
        ps, E = explore(F, f, [a, S1 if whole else NX, val], st=st0, intr=MI, **KW); r.paths(len(ps))
        judge(r, f, ps, first, cur, new, "c", " in a field")
        for p in ps:
            if p.variant() == "Ok":
                d = getf(next(x.a[1] for x in getf(after(p, "c"), "inputs_tags").a), "fields")
                x = next(y.a[1] for y in getf(downcast(d, "Some"), "0").a if y.a[0] is STR("x"))
                r.check("required", "field values stored", same(read(getf(x, "tags")), {"t": new["t"]} if first else cur), r.where(f), "a field requiring %s that receives %s has tags %s" % (sh(cur), sh(new), show(getf(x, "tags"))[:80]))
                r.check("required", "field marked", getf(after(p, "c"), "unassigned_tags") is mk("array"), r.where(f), "after receiving its tags a field counts as not having received them")
    ps, E = explore(F, f, [obj(st0, "c", comp), S1, tagwire(F, {}, NONE)], st=st0, intr=MI, **KW)
    for p in ps: r.check("required", "fields without tags", p.variant() == "Err", r.where(f), "a bus whose field requires a tag accepts a value without tags")


def judge(r, f, ps, first, cur, new, name, where=""):
    r.check("required", "answered", len(ps) > 0, r.where(f), "no outcome")
    miss = [k for k in cur if k not in new]
    differ = [k for k in cur if k in new and new[k] is not cur[k]] if not first else []
    for p in ps:
        e = err(p)
        if miss or differ:
            r.check("required", "%s %s %s%s" % (sh(cur), sh(new), first, where), p.variant() == "Err", r.where(f), "an input requiring tags %s%s accepts a value with tags %s" % (sh(cur), where, sh(new)))
            if not differ and e: r.check("required", "missing reported", e[-1] == "AssignmentMissingTags" or "AssignmentMissingTags" in e, r.where(f), "a missing tag is reported as %s" % e)
            if not miss and e: r.check("required", "other value reported", "AssignmentTagInputTwice" in e, r.where(f), "a tag with another value is reported as %s" % e)
        else: r.check("required", "%s %s %s accepted%s" % (sh(cur), sh(new), first, where), p.variant() == "Ok", r.where(f), "an input requiring tags %s%s rejects a value with tags %s: %s" % (sh(cur), where, sh(new), e))


def inputs_after(F, r):
    f = F.find("ComponentRepresentation::handle_tag_assignment_init"); r.fn(f)
    S1, NX = mk("array", STR("a")), mk("array", STR("a"), STR("x"))
    for cur, new in itertools.product(({}, {"t": NONE}, {"t": VALUES[1]}, {"t": NONE, "u": VALUES[2]}), NEWS):
        for shape in ("signal", "whole", "field"):
            inner = tagwire(F, cur)
            top = inner if shape == "signal" else tagwire(F, {}, SOME(pairs_((STR("x"), inner), (STR("y"), tagwire(F, {})))))
            comp = build(F, "ComponentRepresentation", None, "c", node_pointer=SOME(INT(1)), inputs_tags=pairs_((STR("b"), tagwire(F, {"t": VALUES[2]})), (STR("a"), top)))
            val = tagwire(F, {}, SOME(pairs_((STR("x"), tagwire(F, new)), (STR("y"), tagwire(F, {}))))) if shape == "whole" else tagwire(F, new)
            ps, E = explore(F, f, [comp, NX if shape == "field" else S1, val], intr=MI, **KW); r.paths(len(ps))
            judge(r, f, ps, False, cur, new, None, {"signal": "", "whole": " in a field of the bus", "field": " in a field"}[shape])


def names(F, tags, fields=NONE): return build(F, "TagNames", None, "n", tag_names=mk("array", *[STR(x) for x in tags]), fields=fields)


def required(F, r):
    r.rule("declared inputs", "the tags required from and offered by a component are those its template declares for its inputs and outputs and for the fields of their buses; inputs with tags wait for them")
    f = F.find("ComponentRepresentation::preinitialize_component"); r.fn(f)
    ins = pairs_((STR("a"), names(F, ["t", "u"])), (STR("b"), names(F, [])), (STR("c"), names(F, [], SOME(pairs_((STR("x"), names(F, ["v"])), (STR("y"), names(F, [])))))), (STR("d"), names(F, ["g"], SOME(pairs_((STR("z"), names(F, [], SOME(pairs_((STR("q"), names(F, ["h"])))))))))))
    outs = pairs_((STR("o"), names(F, ["w"])), (STR("p"), names(F, [], SOME(pairs_((STR("x"), names(F, ["v"])))))))
    st0 = St(); a = obj(st0, "c", build(F, "ComponentRepresentation", None, "c", node_pointer=NONE))
    node = build(F, "PreExecutedTemplate", None, "pre", inputs=ins, outputs=outs)
    ps, E = explore(F, f, [a, PARAM("par"), INT(5), PARAM("scheme"), FALSE, PARAM("meta")], st=st0, intr={**MI, r"get_prenode$": pure(lambda *x: SOME(node))}, **KW)
    r.paths(len(ps)); r.check("declared inputs", "answered", len(ps) > 0, r.where(f), "no outcome")
    def flat(m, pre=()):
        o = {}
        for x in m.a:
            n = pre + (x.a[0].a[0],); o[n] = sorted(read(getf(x.a[1], "tags")).items(), key=lambda z: z[0])
            if any(v is not NONE for _, v in o[n]): r.check("declared inputs", "no value", False, r.where(f), "a required tag starts with a value")
            o[n] = [k for k, _ in o[n]]
            fs = getf(x.a[1], "fields")
            if fs.op == "adt" and fs.a[1] == "Some": o.update(flat(getf(downcast(fs, "Some"), "0"), n))
        return o
    for p in ps:
        c = after(p, "c")
        got = flat(getf(c, "inputs_tags"))
        r.check("declared inputs", "inputs", got == {("a",): ["t", "u"], ("b",): [], ("c",): [], ("c", "x"): ["v"], ("c", "y"): [], ("d",): ["g"], ("d", "z"): [], ("d", "z", "q"): ["h"]}, r.where(f), "the tags required are %s" % got)
        got = flat(getf(c, "outputs_tags"))
        r.check("declared inputs", "outputs", got == {("o",): ["w"], ("p",): [], ("p", "x"): ["v"]}, r.where(f), "the tags offered are %s" % got)
        un = {tuple(y.a[0] for y in x.a) for x in getf(c, "unassigned_tags").a}
        r.check("declared inputs", "waiting", un == {("a",), ("c", "x"), ("d",), ("d", "z", "q")}, r.where(f), "the inputs waiting for tags are %s" % un)
    for q in ("is_ready_initialize", "has_unassigned_inputs"):
        g = F.find("ComponentRepresentation::" + q); r.fn(g)
        for un, ui in itertools.product((mk("array"), mk("array", mk("array", STR("a")))), (pairs_(), pairs_((STR("a"), INT(1))))):
            ps, E = explore(F, g, [build(F, "ComponentRepresentation", None, "c", unassigned_tags=un, unassigned_inputs=ui)], intr=MI)
            for p in ps:
                if q == "is_ready_initialize" and un.a: r.check("declared inputs", "waits for tags", p.v is FALSE, r.where(g), "a component with an input whose tags were not received is instantiated")
                if q == "has_unassigned_inputs" and (un.a or ui.a): r.check("declared inputs", "missing tags", p.v is TRUE, r.where(g), "a component that misses tags or inputs counts as complete")
    h = F.find("execute::preexecute_template_call"); r.fn(h)
    WT = adt_id(F, "WireType")
    sig = ADT(WT, "Signal", ()); bus = lambda n: ADT(WT, "Bus", (("0", STR(n)),))
    def wire(tags, ty): return mk("wire", mk("array", *[STR(t) for t in tags]), ty)
    I = {**MI, r"ProgramArchive::get_template_data$": pure(lambda p, i: PARAM("td")), r"TemplateData::get_inputs$": pure(lambda d: pairs_((STR("a"), wire(["t"], sig)), (STR("b"), wire(["g"], bus("B"))))), r"TemplateData::get_outputs$": pure(lambda d: pairs_((STR("o"), wire(["w"], sig)), (STR("p"), wire([], bus("C"))))),
         r"ProgramArchive::get_bus_data$": pure(lambda p, n: mk("bd", n)), r"BusData::get_fields$": pure(lambda d: {"B": pairs_((STR("x"), wire(["v"], sig)), (STR("y"), wire([], bus("C")))), "C": pairs_((STR("z"), wire(["h"], sig)))}[d.a[0].a[0]]),
         r"WireInfo::get_tags$|WireData::get_tags$|::get_tags$": pure(lambda w: w.a[0]), r"::get_type$": pure(lambda w: w.a[1]), r"ExecutedProgram::add_prenode_to_scheme$": pure(lambda s, n: PARAM("pre"), event=True)}
    ps, E = explore(F, h, call_args(F, h, {re.compile(r"\bstr$"): STR("T"), "MemorySlice": mk("array")}), intr=I, stop=[x for x in STOP if x not in (r"ExecutedTemplate::",)], **KW)
    r.paths(len(ps))
    def nm(m):
        o = {}
        for x in m.a:
            fs = getf(x.a[1], "fields")
            o[x.a[0].a[0]] = ({y.a[0] for y in getf(x.a[1], "tag_names").a}, nm(getf(downcast(fs, "Some"), "0")) if fs.a[1] == "Some" else None)
        return o
    for p in ps:
        for e in p.events("add_prenode_to_scheme$"):
            n = e[1][1]
            got = nm(getf(n, "inputs")), nm(getf(n, "outputs"))
            c = {"z": ({"h"}, None)}
            r.check("declared inputs", "from the declaration", got == ({"a": ({"t"}, None), "b": ({"g"}, {"x": ({"v"}, None), "y": (set(), c)})}, {"o": ({"w"}, None), "p": (set(), c)}), r.where(h), "the tags of inputs and outputs are %s" % (got,))


def outputs(F, r):
    r.rule("outputs", "the value a tag of an output has at the end of a template is the one its users see")
    f = F.find("environment::environment_get_value_tags_signal"); g = F.find("environment::environment_get_value_tags_bus"); r.fn(f); r.fn(g)
    Rn = r"RawEnvironment::<T, CC, SC, VC, BC>::"
    def want(s, rem, pre): return {pre + (k,): v[2] for k, v in s.items() if v[0] and v[2] is not NONE and (v[1] or rem == 0)}
    def res(v): return {tuple(y.a[0] for y in x.a[0].a): x.a[1] for x in v.a}
    for s, rem in itertools.product(STATES, (0, 2)):
        info = build(F, "SignalTagInfo", None, "i", tags=vmap(s), definitions=defs(F, s), remaining_inserts=INT(rem))
        ps, E = explore(F, f, [PARAM("env"), STR("o")], intr={**MI, Rn + r"get_signal$": pure(lambda e, n: SOME(mk("tuple", info, PARAM("slice"))))}, **KW); r.paths(len(ps))
        w = {k: getf(downcast(v, "Some"), "0") for k, v in want(s, rem, ("o",)).items()}
        for p in ps: r.check("outputs", "signal %s %d" % (sh(s), rem), same(res(p.v), w), r.where(f), "an output with tags %s and %d elements to assign offers %s" % (sh(s), rem, show(p.v)[:120]))
        bi = lambda n, s, rem, fs: build(F, "BusTagInfo", None, n, tags=vmap(s), definitions=defs(F, s), remaining_inserts=INT(rem), fields=fs)
        s2 = STATES[2]; deep = bi("x", s, rem, pairs_((STR("z"), bi("z", s2, 1, pairs_()))))
        ps, E = explore(F, g, [PARAM("env"), STR("o")], intr={**MI, Rn + r"get_bus$": pure(lambda e, n: SOME(mk("tuple", bi("o", s, rem, pairs_((STR("x"), deep))), PARAM("slice"))))}, **KW); r.paths(len(ps))
        w = {**want(s, rem, ("o",)), **want(s, rem, ("o", "x")), **want(s2, 1, ("o", "x", "z"))}
        w = {k: getf(downcast(v, "Some"), "0") for k, v in w.items()}
        for p in ps: r.check("outputs", "bus %s %d" % (sh(s), rem), same(res(p.v), w), r.where(g), "an output bus with tags %s and %d to assign offers %s" % (sh(s), rem, show(p.v)[:160]))
    h = F.find("ExecutedTemplate::add_tag_signal"); r.fn(h)
    i = F.find("ComponentRepresentation::initialize_component"); r.fn(i)
    st0 = St(); a = obj(st0, "t", build(F, "ExecutedTemplate", None, "t", signal_to_tags=mk("array")))
    ps, E = explore(F, h, [a, mk("array", STR("o"), STR("w")), INT(5)], st=st0, intr=MI, **KW)
    for p in ps: r.check("outputs", "stored", contains(getf(after(p, "t"), "signal_to_tags"), mk("tuple", mk("array", STR("o"), STR("w")), INT(5))), r.where(h), "the value of an output tag is stored as %s" % show(getf(after(p, "t"), "signal_to_tags"))[:100])
    node = build(F, "ExecutedTemplate", None, "t", inputs=mk("array"), outputs=mk("array"), signal_to_tags=mk("array", mk("tuple", mk("array", STR("o"), STR("w")), INT(5)), mk("tuple", mk("array", STR("p"), STR("x"), STR("v")), INT(6)), mk("tuple", mk("array", STR("gone"), STR("v")), INT(7))))
    st0 = St()
    c = build(F, "ComponentRepresentation", None, "c", outputs_tags=pairs_((STR("o"), tagwire(F, {"w": NONE, "k": NONE})), (STR("p"), tagwire(F, {"v": NONE}, SOME(pairs_((STR("x"), tagwire(F, {"v": NONE}))))))), inputs_tags=pairs_(), to_assign_inputs=mk("array"), to_assign_input_buses=mk("array"), to_assign_input_bus_fields=mk("array"))
    a = obj(st0, "c", c)
    ps, E = explore(F, i, [a, INT(3), PARAM("scheme")], st=st0, intr={**MI, r"ExecutedProgram::get_node$": pure(lambda *x: SOME(node)), r"ExecutedTemplate::(inputs|outputs)$": pure(lambda t: mk("array"))}, **KW)
    r.paths(len(ps)); r.check("outputs", "answered", len(ps) > 0, r.where(i), "no outcome")
    for p in ps:
        d = {x.a[0].a[0]: x.a[1] for x in getf(after(p, "c"), "outputs_tags").a}
        r.check("outputs", "visible", set(d) == {"o", "p"} and same(read(getf(d["o"], "tags")), {"w": SOME(INT(5)), "k": NONE}) and same(read(getf(d["p"], "tags")), {"v": NONE}), r.where(i), "the user of a component sees tags %s" % {k: show(getf(v, "tags"))[:60] for k, v in d.items()})
        x = getf(downcast(getf(d["p"], "fields"), "Some"), "0").a[0].a[1]
        r.check("outputs", "visible in a field", same(read(getf(x, "tags")), {"v": SOME(INT(6))}), r.where(i), "the user of a component sees tags %s of a field" % show(getf(x, "tags"))[:80])


def declared(F, r):
    r.rule("declaration", "a signal starts with the tags it is declared with, without values and unassigned; an input starts with the tags its instance was created with")
    E_ = {"input": ("environment_shortcut_add_input", True, False), "output": ("environment_shortcut_add_output", False, False), "intermediate": ("environment_shortcut_add_intermediate", False, False),
          "bus input": ("environment_shortcut_add_bus_input", True, True), "bus output": ("environment_shortcut_add_bus_output", False, True), "bus intermediate": ("environment_shortcut_add_bus_intermediate", False, True)}
    for what, (fn, isin, isbus) in E_.items():
        f = F.find("environment::" + fn); r.fn(f)
        for dims, tags in itertools.product(((), (3,), (2, 3)), ({}, {"t": NONE}, {"t": VALUES[1], "u": NONE})):
            inner = SOME(pairs_((STR("x"), tagwire(F, {"v": VALUES[2]}))))
            arg = tagwire(F, tags, inner) if isin and isbus else tmap(tags)
            I = {**MI, r"RawEnvironment::<T, CC, SC, VC, BC>::add_": pure(lambda *a: UNIT, event=True), r"MemorySlice::<C>::new_with_route$": pure(lambda d, v: mk("filled", d, v))}
            ps, E = explore(F, f, [PARAM("env"), STR("s"), arr(*dims), arg], intr=I, **KW); r.paths(len(ps))
            n = 1
            for d in dims: n *= d
            r.check("declaration", what + " answered", len(ps) > 0, r.where(f), "no outcome")
            for p in ps:
                es = p.events(r"::add_")
                r.check("declaration", what + " added", len(es) == 1 and es[0][0].endswith(("add_" + ("_".join(reversed(what.split())))) if isbus else "add_" + what) and es[0][1][1] is STR("s"), r.where(f), "a %s is declared by %s" % (what, [e[0].rsplit(":", 1)[-1] for e in es]))
                for e in es:
                    i = getf(e[1][2], "0")
                    exp = {k: (True, v is not NONE, v) for k, v in tags.items()}
                    r.check("declaration", what + " tags", same(got_state(getf(i, "tags"), getf(i, "definitions")), exp), r.where(f), "a %s declared with tags %s starts with %s" % (what, sh(tags), show(getf(i, "tags"))[:80]))
                    r.check("declaration", what + " assigned", getf(i, "is_init") is BOOL(isin), r.where(f), "a %s starts %sassigned" % (what, "" if getf(i, "is_init") is TRUE else "not "))
                    r.check("declaration", what + " to assign", getf(i, "remaining_inserts") is INT(0 if isin else n), r.where(f), "a %s of %d elements starts with %s to assign" % (what, n, show(getf(i, "remaining_inserts"))))
                    if isin and isbus:
                        x = getf(i, "fields")
                        r.check("declaration", what + " fields", x.op == "array" and len(x.a) == 1 and same(got_state(getf(x.a[0].a[1], "tags"), getf(x.a[0].a[1], "definitions")), {"v": (True, True, VALUES[2])}) and getf(x.a[0].a[1], "is_init") is TRUE and getf(x.a[0].a[1], "remaining_inserts") is INT(0), r.where(f), "the field of an input bus starts with %s" % show(x)[:120])
    st_ = adt_id(F, "ast::SignalType")
    for fn, isbus in (("execute::execute_signal_declaration", False), ("execute::execute_bus_declaration", True)):
        f = F.find(fn); r.fn(f)
        for ty in ("Input", "Output", "Intermediate"):
            for known in (True, False):
                inst = tagwire(F, {"t": VALUES[1], "u": NONE}, SOME(pairs_((STR("x"), tagwire(F, {"v": VALUES[2]})))))
                node = SOME(build(F, "ExecutedTemplate", None, "node", tag_instances=pairs_((STR("s"), inst), (STR("z"), tagwire(F, {}))) if known else pairs_((STR("z"), tagwire(F, {})))))
                A = call_args(F, f, {re.compile(r"\bstr$"): STR("s"), "SignalType": ADT(st_, ty, ()), "[usize]": arr(3), "Vec<alloc::string::String>": mk("array", STR("t"), STR("u")), "ExecutedTemplate": node})
                I = {**MI, r"environment::environment_shortcut_add_": pure(lambda *a: UNIT, event=True), r"ExecutedTemplate::add_": pure(lambda *a: UNIT, event=True)}
                ps, E = explore(F, f, A, intr=I, **KW); r.paths(len(ps))
                r.check("declaration", "%s answered" % ty, len(ps) > 0, r.where(f), "no outcome")
                for p in ps:
                    es = p.events("environment_shortcut_add_")
                    w = "environment_shortcut_add_" + ("bus_" if isbus else "") + ty.lower()
                    r.check("declaration", "%s declared" % ty, len(es) == 1 and es[0][0].endswith(w), r.where(f), "%s %s is declared by %s" % (ty, "bus" if isbus else "signal", [e[0].rsplit(":", 1)[-1] for e in es]))
                    for e in es:
                        t = e[1][3]
                        none = {"t": NONE, "u": NONE}
                        if t.op == "adt": t0 = t; t = getf(t, "tags")
                        else: t0 = None
                        exp = read(getf(inst, "tags")) if ty == "Input" and known else none
                        r.check("declaration", "%s declared tags" % ty, same(read(t), exp), r.where(f), "%s %s declared with tags t, u (instance: %s) starts with %s" % (ty, "bus" if isbus else "signal", "t=1, u" if known else "none", show(t)[:80]))
                        if isbus and ty == "Input" and known: r.check("declaration", "Input field tags", t0 is inst, r.where(f), "an input bus starts with the tags %s of its fields" % show(t0)[:80])


# ------------------------------------------------------------------ statements
def infos(F, s, rem, init, what="SignalTagInfo", **o): return build(F, what, None, "info", tags=vmap(s), definitions=defs(F, s), remaining_inserts=INT(rem), is_init=BOOL(init), **o)


def perform(F, op, kind, rhs, info, rtags, depth=0, tag=False, block="Known", inp=False, extra=None, acc_over=None, undefined=FALSE):
    """paths of perform_assign on a symbol whose tags are in the object `info`"""
    st0 = St(); ref = obj(st0, "symbol", mk("tuple", info, PARAM("contents")))
    wide = kind in ("component", "bus")
    if acc_over is not None: a = acc_over
    elif wide: a = bus_access(F, depth, undefined)
    else: a = build(F, "AccessingInformation", None, "oacc", undefined=undefined, signal_access=SOME(STR("t")) if tag else NONE, after_signal=mk("array"))
    acc = build(F, "TypesAccess", None, "acc", bus_access=SOME(a) if wide else NONE, other_access=NONE if wide else SOME(a))
    node = ADT(adt_id(F, "ExecutedStructure"), "Template", (("0", PARAM("node")),))
    rt = build(F, "RuntimeInformation", None, "rt", block_type=unit_variant(F, "BlockType", block), conditions_state=mk("array"))
    fv = folded(F, rhs); fv = ADT(fv.a[0], fv.a[1], tuple((k, (rtags if k == "tags" else v)) for k, v in fv.a[2]))
    G = r"RawEnvironment::<T, CC, SC, VC, BC>::get_(mut_)?%s(_res|_mut)?$" % kind
    get = pure(lambda *a: OK(ref))
    A = {k: v for k, v in ASSIGN.items() if "perform_tag_propagation" not in k}
    e = env(kind, inp)
    if kind != "component": e = {**{k: v for k, v in e.items() if "get_" not in k or "get_(mut_)?%s" % kind not in k}, G: get}
    I = {**{r"TypeKnowledge::is_signal$": pure(lambda t: FALSE if tag else TRUE), r"TypeKnowledge::is_tag$": pure(lambda t: TRUE if tag else FALSE)}, **TREAT, **A, **UNWRAP, **e, **slices_of(), **MI, **(extra or {})}
    stop = [x for x in STOP if x not in (r"assignment_utils::",)] + [r"assignment_utils::perform_(signal|bus)_assignment"]
    ps, E = explore(F, "execute::perform_assign", [PARAM("meta"), PARAM("symbol"), unit_variant(F, "AssignOp", op), acc, fv, node, rt, PARAM("pa"), PARAM("flags")], stop=stop, intr=I, st=st0, loop_visits=8, rec=4)
    return ps, a


OPS = ("AssignVar", "AssignSignal", "AssignConstraintSignal")


def signal_assign(F, r):
    r.rule("signal", "a signal receives the tags of the value assigned with <== and none with <--; after it, it counts as assigned")
    g = F.find("execute::perform_assign"); r.fn(g)
    for op, s, n, init, rem in itertools.product(OPS[1:], (STATES[0], STATES[1], STATES[2], STATES[5]), (None, {}, {"t": VALUES[1], "k": NONE}), (False, True), (2, 5, 1)):
        ps, a = perform(F, op, "signal", "arith", infos(F, s, rem, init), SOME(tagwire(F, n)) if n is not None else NONE)
        r.paths(len(ps)); ok = [p for p in ps if p.variant() == "Ok"]
        r.check("signal", "accepted", bool(ok), r.where(g), "assigning a signal never succeeds")
        new = n if n is not None and op == "AssignConstraintSignal" else {}
        for p in ok:
            v = after(p, "info")
            w = assign(s, new, not init)
            r.check("signal", "%s %s %s %s" % (op, sh(s), n is not None and sh(n), init), same(got_state(getf(v, "tags"), getf(v, "definitions")), w), r.where(g), "a signal with tags %s assigned (%s) a value with tags %s has tags %s" % (sh(s), op, n is not None and sh(n), show(getf(v, "tags"))[:100]))
            r.check("signal", "assigned", getf(v, "is_init") is TRUE, r.where(g), "an assigned signal does not count as assigned")
            r.check("signal", "count %d" % rem, getf(v, "remaining_inserts") is INT(max(0, rem - N)), r.where(g), "assigning %d of %d elements leaves %s" % (N, rem, show(getf(v, "remaining_inserts"))))


def after(p, name):
    v = p.st.mem[("T", PARAM("symbol" if name == "info" else name))]
    return getf(v, "0") if name == "info" else v


def bus_access_named(F, path):
    t = None
    for k in range(len(path), -1, -1):
        t = build(F, "AccessingInformationBus", None, "a%d" % k, undefined=FALSE, field_access=SOME(STR(path[k])) if k < len(path) else NONE, remaining_access=SOME(t) if t is not None else NONE)
    return t


def bus_info(F, s, sx, sq, init=False, rem=4):
    leaf = lambda n, s, size, fs: build(F, "BusTagInfo", None, n, tags=vmap(s), definitions=defs(F, s), remaining_inserts=INT(20), size=INT(size), is_init=BOOL(init), fields=fs)
    return build(F, "BusTagInfo", None, "bus", tags=vmap(s), definitions=defs(F, s), remaining_inserts=INT(rem), size=INT(4), is_init=BOOL(init),
                 fields=pairs_((STR("x"), leaf("x", sx, 3, pairs_((STR("q"), leaf("q", sq, 2, pairs_()))))), (STR("y"), leaf("y", {}, 1, pairs_()))))


def at(info, path):
    for k in path: info = next(x.a[1] for x in getf(info, "fields").a if x.a[0] is STR(k))
    return info


def tstate(i): return got_state(getf(i, "tags"), getf(i, "definitions"))


def bus_assign(F, r):
    r.rule("bus", "assigning a bus or a field with <== gives it, and the fields below, the tags of the value; with <-- none; other fields keep theirs")
    g = F.find("execute::perform_assign")
    s, sx, sq = {"t": (True, False, NONE)}, {}, {"t": (True, False, NONE)}
    for op, rhs, path, init in itertools.product(OPS[1:], ("arith", "bus"), ((), ("x",), ("x", "q"), ("y",)), (False, True)):
        if rhs == "arith" and not path: continue
        n, nx, nq = {"t": VALUES[1], "k": NONE}, {"m": NONE}, {"t": VALUES[2]}
        deep = {(): tagwire(F, n, SOME(pairs_((STR("x"), tagwire(F, nx, SOME(pairs_((STR("q"), tagwire(F, nq)))))), (STR("y"), tagwire(F, {}))))), ("x",): tagwire(F, n, SOME(pairs_((STR("q"), tagwire(F, nq)))))}.get(path, tagwire(F, n))
        ps, a = perform(F, op, "bus", rhs, bus_info(F, s, sx, sq, init), SOME(deep), acc_over=bus_access_named(F, path))
        r.paths(len(ps)); ok = [p for p in ps if p.variant() == "Ok"]
        r.check("bus", "accepted %s %s" % (rhs, path), bool(ok), r.where(g), "assigning %s of a bus never succeeds" % (path or "the whole",))
        on = op == "AssignConstraintSignal"
        for p in ok:
            v = after(p, "info")
            for where, s0, new in (((), s, n if path == () else None), (("x",), sx, {(): nx, ("x",): n}.get(path)), (("x", "q"), sq, {(): nq, ("x",): nq, ("x", "q"): n}.get(path)), (("y",), {}, {(): {}, ("y",): n}.get(path))):
                i = at(v, where)
                if new is None:
                    r.check("bus", "untouched %s" % (where,), same(tstate(i), s0) and getf(i, "is_init") is BOOL(init), r.where(g), "assigning %s of a bus changes the tags of %s" % (".".join(path), ".".join(where) or "the bus"))
                else:
                    w = assign(s0, new if on else {}, not init)
                    r.check("bus", "%s %s %s at %s" % (op, rhs, path, where), same(tstate(i), w), r.where(g), "%s of a bus assigned (%s) a value with tags gives %s tags %s" % (".".join(path) or "the whole", op, ".".join(where) or "the bus", show(getf(i, "tags"))[:100]))
                    left = {((), ()): 2, ((), ("x",)): 14, ((), ("x", "q")): 8, ((), ("y",)): 18, (("x",), ("x",)): 18, (("x",), ("x", "q")): 16}.get((path, where), 18)
                    r.check("bus", "count %s %s" % (path, where), getf(i, "remaining_inserts") is INT(left), r.where(g), "assigning 2 cells of %s of a bus leaves %s elements of %s to assign, expected %d" % (".".join(path) or "the whole", show(getf(i, "remaining_inserts")), ".".join(where) or "the bus", left))
                    r.check("bus", "assigned %s %s" % (path, where), getf(i, "is_init") is TRUE, r.where(g), "assigning %s of a bus leaves %s as not assigned" % (".".join(path) or "the whole", ".".join(where) or "it"))


def component_assign(F, r):
    r.rule("component", "an input of a component is checked against the tags of the value assigned with <==, and against none with <--")
    g = F.find("execute::perform_assign")
    for op, rhs, depth in itertools.product(OPS[1:], ("arith", "bus"), (1, 2)):
        for rt in (SOME(PARAM("r_tags")), NONE):
            ps, a = perform(F, op, "component", rhs, PARAM("none"), rt, depth=depth)
            r.paths(len(ps)); n = 0
            for p in ps:
                for e in p.events(r"ComponentRepresentation::assign_value_to_"):
                    n += 1
                    t = next((x for x in e[1] if x is PARAM("r_tags") or (x.op == "adt" and str(x.a[0]).endswith("TagWire"))), None)
                    if t is None: raise Anchor("tags given to %s" % e[0])
                    if op == "AssignConstraintSignal" and rt is not NONE: r.check("component", "tags of the value", t is PARAM("r_tags"), r.where(g), "an input assigned with <== is checked against tags %s" % show(t)[:80])
                    else: r.check("component", "no tags", t.op == "adt" and getf(t, "tags") is mk("array") and getf(t, "fields") in (NONE,) or "default" in show(t), r.where(g), "an input assigned with %s a value %s is checked against tags %s" % (op, "without tags" if rt is NONE else "with tags", show(t)[:80]))
            r.check("component", "assigned", n > 0, r.where(g), "inputs of components are never assigned")


def variable_assign(F, r):
    r.rule("variable", "a variable takes the tags of the value assigned to the whole of it, and none when only a part is assigned or the context is unknown")
    g = F.find("execute::perform_assign")
    for block, undefined, whole, n in itertools.product(("Known", "Unknown"), (FALSE, TRUE), (True, False), (None, {"t": VALUES[1]})):
        cells_ = {r"MemorySlice::<C>::get_number_of_cells$": pure(lambda x: INT(4 if not whole and contains(x, PARAM("contents")) else 2))}
        ps, a = perform(F, "AssignVar", "variable", "arith", tmap({"old": VALUES[2]}), SOME(tagwire(F, n)) if n is not None else NONE, block=block, undefined=undefined, extra=cells_)
        r.paths(len(ps)); ok = [p for p in ps if p.variant() == "Ok"]
        r.check("variable", "accepted", bool(ok), r.where(g), "assigning a variable never succeeds")
        for p in ok:
            w = n if n is not None and whole and block == "Known" and undefined is FALSE else {}
            got = read(after(p, "info"))
            r.check("variable", "%s undefined=%s whole=%s %s" % (block, undefined is TRUE, whole, n is not None), same(got, w), r.where(g), "a variable %s assigned in a %s context (index %s) a value with tags %s has tags %s" % ("wholly" if whole else "partly", block, "unknown" if undefined is TRUE else "known", n is not None and sh(n), sh(got)))


def tag_assign(F, r):
    r.rule("set", "a tag is given a value once, before its signal is assigned, never for an input, never under an unknown condition, only a known number; anything else is an error")
    g = F.find("execute::perform_assign")
    num = build(F, "ArithmeticExpression", "Number", "n", value=INT(9))
    for kind, path in (("signal", None), ("bus", ()), ("bus", ("x",)), ("bus", ("x", "q"))):
        for inp, block, init, had, val in itertools.product((False, True), ("Known", "Unknown"), (False, True), (False, True), ("number", "other")):
            s = {"t": (True, had, SOME(INT(1)) if had else NONE), "z": (True, False, NONE)}
            if kind == "signal": info = infos(F, s, 3, init)
            else:
                info = bus_info(F, s if path == () else {"t": (True, False, NONE)}, s if path == ("x",) else {"t": (True, False, NONE)}, s if path == ("x", "q") else {"t": (True, False, NONE)}, False)
                def mark(i, pth):
                    if not pth: return ADT(i.a[0], i.a[1], tuple((k, BOOL(init) if k == "is_init" else v) for k, v in i.a[2]))
                    fs = mk("array", *[mk("tuple", x.a[0], mark(x.a[1], pth[1:])) if x.a[0] is STR(pth[0]) else x for x in getf(i, "fields").a])
                    return ADT(i.a[0], i.a[1], tuple((k, fs if k == "fields" else v) for k, v in i.a[2]))
                info = mark(info, path)
            v = num if val == "number" else build(F, "ArithmeticExpression", "NonQuadratic")
            ps, a = perform(F, "AssignVar", kind, "arith", info, NONE, tag=True, block=block, inp=inp, acc_over=bus_access_named(F, path + ("t",)) if kind == "bus" else None, extra={r"MemorySlice::<C>::unwrap_to_single$": pure(lambda x: v)})
            r.paths(len(ps)); what = "%s%s input=%s %s assigned=%s set=%s %s" % (kind, "." + ".".join(path) if path else "", inp, block, init, had, val)
            bad = inp or block == "Unknown" or init or had or val == "other"
            r.check("set", what + " answered", bool(ps), r.where(g), "no outcome")
            for p in ps:
                i = after(p, "info")
                if kind == "bus": i = at(i, path)
                if bad:
                    r.check("set", what, p.variant() == "Err", r.where(g), "the tag of a %s can be set (%s)" % (kind, what))
                    if p.variant() == "Err": r.check("set", what + " unchanged", same(tstate(i), s), r.where(g), "a rejected tag assignment changes the tag")
                else:
                    if p.variant() == "Err" and failed_steps(p): continue
                    r.check("set", what, p.variant() == "Ok", r.where(g), "the tag of a %s cannot be set" % kind)
                    if p.variant() == "Ok": r.check("set", what + " value", same(tstate(i), {"t": (True, True, SOME(INT(9))), "z": (True, False, NONE)}), r.where(g), "after t = 9 the tags of a %s are %s" % (kind, show(getf(i, "tags"))[:100]))


def reads(F, r):
    r.rule("read", "a value read carries exactly the tags its signal offers: of the signal, variable, bus, field of a bus or input or output of a component")
    for kind, fn in (("signal", "execute_signal"), ("variable", "execute_variable"), ("bus", "execute_bus"), ("component", "execute_component")):
        g = F.find("execute::" + fn); r.fn(g)
        for path in ((None,) if kind in ("signal", "variable") else ((), ("x",), ("x", "q")) if kind == "bus" else (("x",),)):
            if kind in ("signal", "variable"): a = build(F, "AccessingInformation", None, "oacc", undefined=FALSE, signal_access=NONE, after_signal=mk("array"))
            else: a = bus_access_named(F, path)
            s = STATES[6]
            for rem in (0, 1):
                if kind == "signal": info = infos(F, s, rem, True)
                elif kind == "variable": info = tmap({"t": VALUES[1]})
                else: info = bus_info(F, {"t": (True, True, VALUES[1])} , {"u": (True, False, NONE)}, {"v": (False, False, VALUES[2])}, True, rem)
                FRS = adt_id(F, "FoldedResult")
                res = lambda v: [OK(x) for x in (ADT(FRS, "Signal", (("0", PARAM("sub")),)), ADT(FRS, "Bus", (("0", PARAM("subbus")),)))]
                e = {k: v for k, v in env(kind).items() if "get_(mut_)?" not in k}
                e[r"RawEnvironment::<T, CC, SC, VC, BC>::get_\w+_res$"] = pure(lambda *x: OK(mk("tuple", info, PARAM("slice"))) if kind != "component" else OK(PARAM("slice")))
                I = {**TREAT, **UNWRAP, **slices_of(), **MI, **e, r"execute::treat_accessing": pure(lambda *x: OK(a)), r"execute::signal_to_arith$": pure(lambda *v: OK(mk("arith", *v))), r"execute::create_symbol": pure(lambda *x: mk("name", *x)),
                     r"BusRepresentation::get_field$": oracle(res), r"ComponentRepresentation::get_io_value$": oracle(lambda v: [OK(mk("tuple", PARAM("iotags"), getf(x, "0"))) for x in res(v)]),
                     r"BusRepresentation::has_unassigned_fields$": pure(lambda b: FALSE), r"TypeKnowledge::is_tag$": pure(lambda t: FALSE), r"TypeKnowledge::get_reduces_to$": pure(lambda t: unit_variant(F, "TypeReduction", "Signal")),
                     r"execute::safe_unwrap_to_single$": pure(lambda v, l: mk("single", v)), r"MemorySlice::<C>::new$": pure(lambda v: mk("one", v))}
                stop = [x for x in STOP if x != r"assignment_utils::"]
                ps, E = explore(F, g, [PARAM("meta"), PARAM("symbol"), PARAM("access"), PARAM("pa"), PARAM("rt"), PARAM("flags")], stop=stop, intr=I, loop_visits=8, rec=3)
                r.paths(len(ps)); ok = [p for p in ps if p.variant() == "Ok"]
                r.check("read", "%s accepted" % kind, bool(ok), r.where(g), "reading a %s never succeeds" % kind)
                for p in ok:
                    t = getf(getf(downcast(p.v, "Ok"), "0"), "tags")
                    if t.op != "adt" or t.a[1] != "Some": r.check("read", "%s tags" % kind, False, r.where(g), "a %s is read without its tags" % kind); continue
                    w = getf(downcast(t, "Some"), "0")
                    if kind == "component": r.check("read", "component tags", w is PARAM("iotags"), r.where(g), "an output of a component is read with tags %s" % show(w)[:80]); continue
                    exp = visible(s, rem == 0) if kind == "signal" else {"t": VALUES[1]} if kind == "variable" else {(): {"t": VALUES[1]}, ("x",): {"u": NONE}, ("x", "q"): {}}[path]
                    r.check("read", "%s %s %d" % (kind, path, rem), same(read(getf(w, "tags")), exp), r.where(g), "%s %s with %d to assign is read with tags %s, expected %s" % (kind, path or "", rem, show(getf(w, "tags"))[:100], sh(exp)))
                    if kind == "bus" and path == ():
                        fs = getf(w, "fields"); d = {x.a[0].a[0]: x.a[1] for x in getf(downcast(fs, "Some"), "0").a}
                        r.check("read", "bus fields", set(d) == {"x", "y"} and same(read(getf(d["x"], "tags")), {"u": NONE}), r.where(g), "a bus is read with the tags %s of its fields" % show(fs)[:120])
    h = F.find("ComponentRepresentation::get_io_value"); r.fn(h)
    for inp, path, isbus in itertools.product((True, False), ((), ("x",)), (False, True)):
        if path and not isbus: continue
        mine, other = tagwire(F, {"t": VALUES[1]}, SOME(pairs_((STR("x"), tagwire(F, {"v": VALUES[2]}))))), tagwire(F, {"wrong": NONE})
        tabs = {k: pairs_((STR("s" if k == ("inputs" if inp else "outputs") + ("_tags") else "z"), mine), (STR("zz"), other)) for k in ("inputs_tags", "outputs_tags")}
        sl = {k: pairs_((STR("s"), PARAM("slice"))) if k == (("input_buses" if isbus else "inputs") if inp else ("output_buses" if isbus else "outputs")) else pairs_() for k in ("inputs", "outputs", "input_buses", "output_buses")}
        c = build(F, "ComponentRepresentation", None, "c", **tabs, **sl)
        I = {**MI, **slices_of(), r"check_initialized_inputs$": pure(lambda *x: OK(UNIT)), r"BusRepresentation::get_field$": pure(lambda *x: OK(PARAM("fld")))}
        ps, E = explore(F, h, [c, STR("s"), bus_access_named(F, path)], intr=I, stop=(r"MemorySlice",), **KW); r.paths(len(ps))
        ok = [p for p in ps if p.variant() == "Ok"]; r.check("read", "component value accepted", bool(ok), r.where(h), "a component's value is never read")
        for p in ok:
            w = getf(getf(downcast(p.v, "Ok"), "0"), "0")
            r.check("read", "component %s %s %s" % (inp, path, isbus), same(read(getf(w, "tags")), {"v": VALUES[2]} if path else {"t": VALUES[1]}), r.where(h), "%s %s of a component is read with tags %s" % ("input" if inp else "output", ".".join(("s",) + path), show(getf(w, "tags"))[:80]))


def tag_reads(F, r):
    r.rule("value", "reading the value of a tag gives the value it has, and is an error while it has none")
    for kind, fn in (("signal", "execute_signal"), ("bus", "execute_bus")):
        g = F.find("execute::" + fn)
        for path in ((None,) if kind == "signal" else ((), ("x",), ("x", "q"))):
            for s0, rem in itertools.product(((True, True, VALUES[1]), (True, False, VALUES[1]), (True, False, NONE), (False, False, VALUES[1])), (0, 3)):
                s = {"t": s0, "z": (True, True, VALUES[2])}
                if kind == "signal":
                    info = infos(F, s, rem, True); a = build(F, "AccessingInformation", None, "oacc", undefined=FALSE, signal_access=SOME(STR("t")), after_signal=mk("array"))
                else:
                    a = bus_access_named(F, path + ("t",)); dummy = {"t": (True, True, SOME(INT(77)))}
                    leaf = lambda n, s, rem, fs: build(F, "BusTagInfo", None, n, tags=vmap(s), definitions=defs(F, s), remaining_inserts=INT(rem), size=INT(1), is_init=TRUE, fields=fs)
                    q = leaf("q", s if path == ("x", "q") else dummy, rem if path == ("x", "q") else 5, pairs_())
                    x = leaf("x", s if path == ("x",) else dummy, rem if path == ("x",) else 5, pairs_((STR("q"), q)))
                    info = leaf("b", s if path == () else dummy, rem if path == () else 5, pairs_((STR("x"), x)))
                e = {k: v for k, v in env(kind).items() if "get_(mut_)?" not in k}
                e[r"RawEnvironment::<T, CC, SC, VC, BC>::get_\w+_res$"] = pure(lambda *x: OK(mk("tuple", info, PARAM("slice"))))
                I = {**TREAT, **UNWRAP, **slices_of(), **MI, **e, r"execute::treat_accessing": pure(lambda *x: OK(a)), r"execute::create_symbol": pure(lambda *x: mk("name", *x)), r"TypeKnowledge::is_tag$": pure(lambda t: TRUE),
                     r"TypeKnowledge::get_reduces_to$": pure(lambda t: unit_variant(F, "TypeReduction", "Tag")), r"MemorySlice::<C>::new$": pure(lambda v: mk("one", v)), r"MemorySlice::<C>::access_values$": pure(lambda s, i: OK(PARAM("sub")))}
                ps, E = explore(F, g, [PARAM("meta"), PARAM("symbol"), PARAM("access"), PARAM("pa"), PARAM("rt"), PARAM("flags")], stop=STOP, intr=I, loop_visits=8, rec=3)
                r.paths(len(ps)); has = s0[2] is not NONE and (s0[1] or rem == 0)
                what = "%s %s set=%s value=%s left=%d" % (kind, path or "", s0[1], show(s0[2]), rem)
                r.check("value", what + " answered", bool(ps), r.where(g), "no outcome")
                for p in ps:
                    if has:
                        ok = p.variant() == "Ok" and contains(getf(getf(downcast(p.v, "Ok"), "0"), "arithmetic_slice"), INT(1))
                        r.check("value", what, ok, r.where(g), "reading a tag with value 1 (%s) gives %s" % (what, show(p.v)[:80]))
                    else: r.check("value", what, p.variant() == "Err" and "TagValueNotInitializedAccess" in codes(p), r.where(g), "reading a tag without a value (%s) gives %s" % (what, p.variant()))
    h = F.find("ComponentRepresentation::get_tag_value"); r.fn(h)
    for inp, path, v in itertools.product((True, False), ((), ("x",)), VALUES):
        w = tagwire(F, {"t": v if not path else SOME(INT(77))}, SOME(pairs_((STR("x"), tagwire(F, {"t": v})))))
        c = build(F, "ComponentRepresentation", None, "c", inputs_tags=pairs_((STR("s" if inp else "z"), w)), outputs_tags=pairs_((STR("s" if not inp else "z"), w)))
        ps, E = explore(F, h, [c, STR("s"), bus_access_named(F, path + ("t",))], intr={**MI, r"check_initialized_inputs$": pure(lambda *x: OK(UNIT))}, **KW); r.paths(len(ps))
        r.check("value", "component answered", bool(ps), r.where(h), "no outcome")
        for p in ps:
            if v is NONE: r.check("value", "component none", p.variant() == "Err" and "TagValueNotInitializedAccess" in (err(p) or []), r.where(h), "reading a tag of a component that has no value gives %s" % p.variant())
            else: r.check("value", "component", p.variant() == "Ok" and getf(downcast(p.v, "Ok"), "0") is getf(downcast(v, "Some"), "0"), r.where(h), "reading a tag of a component gives %s" % show(p.v)[:60])


def arrays(F, r):
    f = F.find("execute::execute_expression"); r.fn(f)
    e1, e2, e3 = PARAM("e1"), PARAM("e2"), PARAM("e3")
    tagsets = {"t1": SOME(tagwire(F, {"t": VALUES[1], "k": NONE})), "t2": SOME(tagwire(F, {"t": VALUES[2], "k": NONE})), "none": NONE, "empty": SOME(tagwire(F, {}))}
    for combo in (("t1",), ("t1", "t1"), ("t1", "t2"), ("t1", "none"), ("none", "t1"), ("t1", "none", "t1"), ("none", "t1", "t1"), ("t1", "empty"), ("t1", "t1", "t2")):
        es = (e1, e2, e3)[:len(combo)]
        def sub(E, st, name, args, fn, line):
            e = E.deref(st, args[0])
            i = es.index(e) if e in es else None
            if i is None: return NotImplemented
            fv = build(F, "FoldedValue", None, "fv", arithmetic_slice=SOME(mk("val", e)), bus_slice=NONE, node_pointer=NONE, bus_node_pointer=NONE, is_parallel=NONE, tags=tagsets[combo[i]])
            return [(st, OK(fv))]
        expr = build(F, "Expression", "ArrayInLine", "e", values=mk("array", *es))
        stop = [x for x in STOP if x != r"assignment_utils::"]
        ps, E = explore(F, f, call_args(F, f, {"ast::Expression": expr}), stop=stop, intr={**TREAT, **UNWRAP, **slices_of(), **MI, r"execute::execute_expression$": sub}, loop_visits=8, rec=3)
        ok = [p for p in ps if p.variant() == "Ok"]; r.paths(len(ps))
        r.check("array", "in line accepted", bool(ok), r.where(f), "an array in line is never accepted")
        for p in ok:
            t = getf(getf(downcast(p.v, "Ok"), "0"), "tags")
            ds = [read(getf(getf(downcast(tagsets[c], "Some"), "0"), "tags")) if tagsets[c] is not NONE else {} for c in combo]
            w = {k: v for k, v in ds[0].items() if all(k in d and d[k] is v for d in ds[1:])}
            got = read(getf(getf(downcast(t, "Some"), "0"), "tags")) if t.op == "adt" and t.a[1] == "Some" else {}
            r.check("array", "in line %s" % (combo,), same(got, w), r.where(f), "an array of elements with tags %s carries %s" % ([sh(d) for d in ds], sh(got)))
    # operators, ternaries and uniform arrays do not make up tags
    for v in ("InfixOp", "PrefixOp"):
        fv = lambda e: build(F, "FoldedValue", None, "fv", arithmetic_slice=SOME(mk("val", e)), bus_slice=NONE, node_pointer=NONE, bus_node_pointer=NONE, is_parallel=NONE, tags=tagsets["t1"])
        seen = []
        def sub(E, st, name, args, fn, line):
            e = E.deref(st, args[0])
            return [(st, OK(fv(e)))] if e.op != "adt" else NotImplemented
        expr = build(F, "Expression", v, "e")
        I = {**TREAT, **UNWRAP, **slices_of(), **MI, r"execute::execute_expression$": sub, r"execute::execute_(infix|prefix)_op$": pure(lambda *a: OK(PARAM("opres"))), r"execute::execute_\w+_op$": pure(lambda *a: OK(PARAM("opres")))}
        ps, E = explore(F, f, call_args(F, f, {"ast::Expression": expr}), stop=STOP, intr=I, loop_visits=8, rec=3)
        for p in ps:
            if p.variant() != "Ok": continue
            t = getf(getf(downcast(p.v, "Ok"), "0"), "tags")
            r.check("array", "result of an operator", t is NONE, r.where(f), "the result of an operator carries the tags of an operand: %s" % show(t)[:80])


def exported(F, r):
    f = F.find("execute::execute_template_call"); r.fn(f)
    out = lambda n, b: build(F, "type_definitions::WireData", None, n, name=STR(n), is_bus=BOOL(b))
    def new_node(E, st, name, args, fn, line): return [(st, build(F, "ExecutedTemplate", None, "node", outputs=mk("array", out("o", False), out("p", True)), template_name=STR("T")))]
    I = {**MI, r"execute::execute_sequence_of_statements$": pure(lambda *a: OK(mk("tuple", NONE, PARAM("simp")))), r"ExecutedProgram::identify_node$": pure(lambda *a: NONE), r"ExecutedTemplate::new$": new_node, r"ExecutedTemplate::add_tag_signal$": pure(lambda *a: UNIT, event=True),
         r"environment_get_value_tags_signal$": pure(lambda e, n: mk("array", mk("tuple", mk("name1", n), INT(5)))), r"environment_get_value_tags_bus$": pure(lambda e, n: mk("array", mk("tuple", mk("name2", n), INT(6)), mk("tuple", mk("name3", n), INT(7)))),
         r"environment_check_all_components_assigned$": pure(lambda e: OK(UNIT)), r"ProgramArchive::get_template_data$": pure(lambda p, i: PARAM("td")), r"TemplateData::get_name_of_params$": pure(lambda d: mk("array")), r"TemplateData::(is_parallel|is_custom_gate|is_extern_c)$": pure(lambda d: FALSE), r"ExecutedProgram::add_node_to_scheme$": pure(lambda *a: PARAM("new"), event=True)}
    A = call_args(F, f, {re.compile(r"\bstr$"): STR("T"), "HashMap": pairs_(), "MemorySlice": mk("array"), "RuntimeInformation": build(F, "RuntimeInformation", None, "rt", public_inputs=mk("array"))})
    ps, E = explore(F, f, A, stop=STOP, intr={**TREAT, **I}, loop_visits=8, rec=3)
    r.paths(len(ps)); ok = [p for p in ps if p.variant() == "Ok"]
    r.check("outputs", "template executed", bool(ok), r.where(f), "a template is never executed")
    for p in ok:
        got = [(e[1][1], e[1][2]) for e in p.events("add_tag_signal$")]
        w = [(mk("name1", STR("o")), INT(5)), (mk("name2", STR("p")), INT(6)), (mk("name3", STR("p")), INT(7))]
        r.check("outputs", "kept with the instance", set(got) == set(w), r.where(f), "the tag values of the outputs kept with an instance are %s" % [(show(a), show(b)) for a, b in got])


def main_inputs(F, r):
    r.rule("main", "the inputs of the main component, and the fields of its input buses, have no tags; otherwise the program is rejected")
    f = F.find("type_check::type_check"); r.fn(f)
    tags = {False: mk("array"), True: mk("array", STR("t"))}
    plain = lambda t: mk("wire", tags[t], unit_variant(F, "wire_data::WireType", "Signal"))
    bus = lambda t, name: mk("wire", tags[t], ADT(adt_id(F, "wire_data::WireType"), "Bus", (("0", STR(name)),)))
    buses_ = {"B": (plain(False), plain(False)), "T": (plain(False), plain(True)), "D": (plain(False), bus(False, "T")), "E": (bus(False, "B"), plain(False))}
    cases = [((), False), ((plain(False),), False), ((plain(True),), True), ((plain(False), plain(True)), True), ((bus(False, "B"),), False), ((bus(True, "B"),), True), ((bus(False, "T"),), True), ((bus(False, "D"),), True), ((bus(False, "E"),), False),
             ((bus(False, "E"), bus(False, "D")), True), ((plain(False), bus(False, "B"), plain(False)), False)]
    main = build(F, "Expression", "Call", "main", id=STR("Main"))
    fields = lambda ws: pairs_(*[(STR("w%d" % i), w) for i, w in enumerate(ws)])
    for ws, bad in cases:
        def report(E, st, name, args, fn, line):
            E.event(st, "report", tuple(E.deref(st, a) for a in args[:1]), line, fn)
            v = E.deref(st, args[2]); E.store_through(st, args[2], mk("array", *((v.a if v.op == "array" else ()) + (PARAM("report"),)))); return [(st, UNIT)]
        I = {**MI, r"type_check::add_report$": report, r"type_check::type_expression$": pure(lambda *a: OK(PARAM("type")), event=True),
             r"ProgramArchive::get_main_expression$": pure(lambda p: main), r"ProgramArchive::contains_template$": pure(lambda *a: TRUE), r"ProgramArchive::get_template_data$": pure(lambda *a: PARAM("td")),
             r"TemplateData::get_inputs$": pure(lambda t: fields(ws)), r"ProgramArchive::get_bus_data$": pure(lambda p, n: mk("bus", n)), r"BusData::get_fields$": pure(lambda b: fields(buses_[b.a[0].a[0]])),
             r"WireData::get_tags$": pure(lambda w: w.a[0]), r"WireData::get_type$": pure(lambda w: w.a[1])}
        ps, E = explore(F, f, [PARAM("pa")], intr=I, stop=(r"ProgramArchive::", r"Meta::", r"TypingEnvironment", r"CallRegister"), **KW); r.paths(len(ps))
        r.check("main", "answered", bool(ps), r.where(f), "no outcome")
        for p in ps:
            codes_ = [e[1][0].a[1] for e in p.events("^report$") if e[1][0].op == "adt"]
            if bad: r.check("main", "rejected %s" % (cases.index((ws, bad)),), p.variant() == "Err" and codes_ == ["MainComponentWithTags"], r.where(f), "a main component with tagged inputs is %s (%s)" % ("accepted" if p.variant() == "Ok" else "rejected", codes_))
            else: r.check("main", "accepted %s" % (cases.index((ws, bad)),), p.variant() == "Ok", r.where(f), "a main component without tagged inputs is rejected")
