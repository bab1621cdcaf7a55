"""Shared abstraction of constraint_generation/src/execute.rs for path summaries: calls that are judged on their own
(expressions, assignments, environments, error reporting, algebra) become oracles with recorded calls."""
from .paths import *
from .mir import Anchor

UNITERR = ERR(UNIT)


def adt_id(F, suffix):
    r = [k for k in F.adts if k == suffix or k.endswith("::" + suffix)]
    if len(r) != 1: raise Anchor("type %s" % suffix)
    return r[0]


def build(F, ty, variant=None, prefix_=None, /, **over):
    """term of type ty (enum variant or struct) whose fields are parameters <name>.<field>, except those given"""
    i = adt_id(F, ty)
    vs = F.adts[i]["variants"]
    v = next((x for x in vs if x[0] == (variant or vs[0][0])), None)
    if v is None: raise Anchor("variant %s of %s" % (variant, ty))
    name = prefix_ or (variant or ty).lower()
    fs = tuple((f[0], over.get(f[0], PARAM("%s.%s" % (name, f[0])))) for f in v[2])
    for k in over:
        if k not in [f[0] for f in v[2]]: raise Anchor("field %s of %s" % (k, variant or ty))
    return ADT(i, v[0], fs)


def unit_variant(F, ty, v): return ADT(adt_id(F, ty), v, ())


def treat(E, st, name, args, fn, line):
    """treat_result_with_*: Ok passes the value on; Err reports it and fails (these functions are judged in C06)"""
    x = E.deref(st, args[0]); out = []
    warn = name.endswith("warning")
    for s, v in E.fork_variant(st, x, None, ("Ok", "Err")):
        pay = E.refined(s, getf(downcast(x, v), "0"))
        if v == "Ok": out.append((s, OK(pay)))
        elif warn:
            E.event(s, "warn", (pay,), line, fn); out.append((s, OK(UNIT)))
        else:
            E.event(s, "report", (pay,), line, fn); out.append((s, UNITERR))
    return out


def treat_weak(E, st, name, args, fn, line):
    """treat_result_with_memory_error_void: additionally, a weak dimension mismatch is only a warning"""
    x = E.deref(st, args[0]); out = []
    for s, v in E.fork_variant(st, x, None, ("Ok", "Err")):
        if v == "Ok": out.append((s, OK(UNIT))); continue
        pay = E.refined(s, getf(downcast(x, "Err"), "0"))
        if pay.op == "adt" and pay.a[1] == "MismatchedDimensionsWeak":
            E.event(s, "warn", (pay,), line, fn); out.append((s, OK(UNIT)))
        else:
            E.event(s, "report", (pay,), line, fn); out.append((s, UNITERR))
    return out


def fold_expr(E, st, name, args, fn, line):
    e = E.deref(st, args[0])
    E.event(st, name, (e,), line, fn)
    s2 = st.fork()
    g = s2.mem.get(("G", "failed"), mk("array")); s2.mem[("G", "failed")] = mk("array", *(g.a + (PARAM("execute_expression"),)))
    return [(st, OK(mk("fold", e))), (s2, UNITERR)]


TREAT = {r"execute::treat_result_with_memory_error_void": treat_weak, r"execute::treat_result_with_": treat}


def codes(p): return [e[1][0].a[1] if e[1][0].op == "adt" else show(e[1][0]) for e in p.events("^report$")]


def single(fold):
    """the arithmetic expression of a folded value holding a single one"""
    return mk("single", fold)


def unwrap_single(E, st, name, args, fn, line):
    return [(st, mk("single", E.deref(st, args[0])))]


def slices(E, st, name, args, fn, line):
    return [(st, mk("slice", E.deref(st, args[0])))]


UNWRAP = {r"execute::safe_unwrap_to_single_arithmetic_expression$": unwrap_single, r"execute::safe_unwrap_to_arithmetic_slice$": slices}
STOP = (r"MemorySlice::<", r"ArithmeticExpression::<", r"ExecutionEnvironment::", r"environment::environment_", r"ExecutedTemplate::", r"ExecutedBus::", r"ExecutedProgram::",
        r"ComponentRepresentation::", r"BusRepresentation::", r"Analysis::", r"UsefulConstants::", r"ProgramArchive::", r"(Template|Function|Bus)Data::",
        r"assignment_utils::", r"execute::valid_", r"execute::cast_index", r"execute::create_", r"execute::unfold_", r"Meta::", r"GetMeta")


# ------------------------------------------------------------------ memory slices with N cells
N = 2


def _fail(st, name):
    g = st.mem.get(("G", "failed"), mk("array"))
    st.mem[("G", "failed")] = mk("array", *(g.a + (PARAM(name),)))


def fallible(good, err=PARAM("memory_error"), record=True):
    """call that may fail: Ok(good(args)) or Err(err), recorded as an event and, when failed, as a failed step"""
    def h(E, st, name, args, fn, line):
        vals = tuple(E.deref(st, a) for a in args)
        s2 = st.fork()
        if record:
            E.event(st, name, vals, line, fn); E.event(s2, name, vals, line, fn)
        _fail(s2, name.rsplit("::", 1)[-1])
        return [(st, OK(good(vals) if callable(good) else good)), (s2, ERR(err))]
    return h


def pure(f, event=False):
    def h(E, st, name, args, fn, line):
        vals = tuple(E.deref(st, a) for a in args)
        if event: E.event(st, name, vals, line, fn)
        return [(st, f(*vals))]
    return h


def cells(x): return mk("array", *[mk("cell", x, INT(i)) for i in range(N)])


def slices_of(n=N):
    M = r"MemorySlice::<C>::"
    return {M + r"get_number_of_cells$": pure(lambda x: INT(n) if x.op != "slice_of" else INT(len(x.a[1].a)) if x.a[1].op == "array" else mk("cells", x)),
            M + r"(access_value_by_index|get_reference_to_single_value_by_index)$": fallible(lambda v: cell_of(v[0], v[1])),
            M + r"destruct$": pure(lambda x: mk("tuple", mk("route", x), x.a[1] if x.op == "slice_of" else cells(x))),
            M + r"route(_value)?$": pure(lambda x: x.a[0] if x.op == "slice_of" else mk("route", x)),
            M + r"get_access_index$": fallible(lambda v: mk("access_index", mk("route", v[0]), v[1]), record=False),
            M + r"new_array$": pure(lambda r, v: mk("slice_of", r, v)),
            M + r"new_with_route$": pure(lambda r, v: mk("filled", r, v)),
            M + r"(check_correct_dims|insert_values)$": fallible(UNIT),
            M + r"unwrap_to_single$": pure(lambda x: mk("cell", x, INT(0))),
            M + r"(get_mut_reference_to_single_value|get_reference_to_single_value)$": fallible(lambda v: mk("elem", v[0], v[1])),
            M + r"(get_mut_reference_to_single_value_by_index|access_values_by_index_mut_reference)$": fallible(lambda v: mk("celem", v[0], v[1])),
            M + r"(access_values_by_mut_reference|access_values_by_reference)$": fallible(lambda v: mk("array", mk("elem", v[0], v[1]))),
            M + r"access_values$": fallible(lambda v: mk("subslice", v[0], v[1]))}


def cell_of(x, i):
    if x.op == "slice_of" and x.a[1].op == "array" and i.op == "int" and i.a[0] < len(x.a[1].a): return x.a[1].a[i.a[0]]
    return mk("cell", x, i)


def env(kind, inp=None):
    """environment in which the accessed symbol is of `kind` (Variable/Signal/Component/Bus); inp: is it an input"""
    R = r"RawEnvironment::<T, CC, SC, VC, BC>::"
    d = {}
    for k in ("variable", "signal", "component", "bus"):
        d[R + r"has_%s$" % k] = pure(lambda e, s, v=(k == kind): TRUE if v else FALSE)
        d[R + r"get_(mut_)?%s(_res|_mut)?$" % k] = fallible(lambda v, k=k: mk("tuple", mk("info", v[1]), mk("content", v[1])) if k != "component" else mk("content", v[1]), PARAM("env_error"), False)
    for k in ("input", "output", "intermediate", "input_bus", "output_bus", "intermediate_bus"):
        if inp is not None and k.startswith("input") and kind == ("bus" if "bus" in k else "signal"):
            d[R + r"has_%s$" % k] = pure(lambda e, s: TRUE if inp else FALSE)
        else: d[R + r"has_%s$" % k] = pure(lambda e, s, k=k: mk("has", PARAM(k), s))
    return d


# ------------------------------------------------------------------ perform_assign
R = PARAM("r")


def folded(F, kind):
    """a folded right-hand side: arith(metic slice), bus (slice), node (component instance) or busnode (bus type)"""
    d = dict(arithmetic_slice=NONE, bus_slice=NONE, node_pointer=NONE, bus_node_pointer=NONE, is_parallel=NONE, tags=SOME(PARAM("r_tags")))
    if kind == "arith": d["arithmetic_slice"] = SOME(R)
    if kind == "bus": d["bus_slice"] = SOME(mk("tuple", PARAM("r_name"), R))
    if kind == "node": d["node_pointer"] = SOME(PARAM("ptr")); d["is_parallel"] = SOME(PARAM("par"))
    if kind == "busnode": d["bus_node_pointer"] = SOME(PARAM("bptr"))
    return build(F, "FoldedValue", None, "fv", **d)


def bus_access(F, depth, undefined=FALSE):
    """x[i] (depth 0), x[i].f0[i] (depth 1), x[i].f0[i].f1[i] (depth 2)"""
    t = None
    for k in range(depth, -1, -1):
        t = build(F, "AccessingInformationBus", None, "a%d" % k, undefined=undefined,
                  field_access=SOME(PARAM("f%d" % k)) if k < depth else NONE, remaining_access=SOME(t) if t is not None else NONE)
    return t


def unfold_two(E, st, name, args, fn, line):
    cur, dim, lens = [E.deref(st, a) for a in args[:3]]
    old = E.deref(st, args[3])
    new = tuple(mk("unfolded", cur, lens, INT(i)) for i in range(N))
    E.store_through(st, args[3], mk("array", *((old.a if old.op == "array" else (old,)) + new)))
    return [(st, UNIT)]


ASSIGN = {r"execute::execute_template_call_complete$": fallible(PARAM("tres"), UNIT),
          r"execute::unfold_name$": fallible(lambda v: mk("unfold_name", v[0], v[1])),
          r"execute::create_(symbol|symbol_bus|component_symbol|array_accessed_symbol)$": pure(lambda *a: mk("name", *a)),
          r"execute::create_index_appendix$": pure(lambda a: mk("appendix", a)),
          r"get_accesses_bus$": pure(lambda s, p: mk("array", mk("inner", INT(0)), mk("inner", INT(1)))),
          r"execute::unfold_signals$": unfold_two,
          r"(Component|Bus)Representation::(assign_|preinit|initialize|init)": fallible(UNIT),
          r"assignment_utils::perform_(signal|bus)_assignment": fallible(UNIT),
          r"is_ready_initialize$": pure(lambda c: mk("ready", c)),
          r"safe_unwrap_to_valid_node_pointer$": pure(lambda f, l: mk("tuple", mk("ptr", f), mk("par", f))),
          r"safe_unwrap_to_arithmetic_slice$": pure(lambda f, l: getf(downcast(getf(f, "arithmetic_slice"), "Some"), "0")),
          r"safe_unwrap_to_bus_slice$": pure(lambda f, l: getf(downcast(getf(f, "bus_slice"), "Some"), "0")),
          r"perform_tag_propagation": pure(lambda *a: UNIT, event=True)}


def assign_paths(F, op, kind, rhs, depth=0, inp=None, tag=False, block=None, undefined=FALSE, known=None):
    """paths of perform_assign for a symbol of `kind`, right-hand side form `rhs`, `depth` field accesses"""
    wide = kind in ("component", "bus")
    if wide: a = bus_access(F, depth, undefined)
    else: a = build(F, "AccessingInformation", None, "oacc", undefined=undefined, signal_access=SOME(PARAM("tag")) if tag else NONE)
    acc = build(F, "TypesAccess", None, "acc", bus_access=SOME(a) if wide else NONE, other_access=NONE if wide else SOME(a))
    node = ADT(adt_id(F, "ExecutedStructure"), "Template", (("0", PARAM("node")),))
    rt = build(F, "RuntimeInformation", None, "rt", block_type=unit_variant(F, "BlockType", block)) if block else PARAM("rt")
    I = {**{r"TypeKnowledge::is_signal$": pure(lambda t: FALSE if tag else TRUE), r"TypeKnowledge::is_tag$": pure(lambda t: TRUE if tag else FALSE)},
         **TREAT, **ASSIGN, **UNWRAP, **env(kind, inp), **slices_of()}
    return explore(F, "execute::perform_assign", [PARAM("meta"), PARAM("symbol"), unit_variant(F, "AssignOp", op), acc, folded(F, rhs), node, rt, PARAM("pa"), PARAM("flags")],
                   stop=STOP, intr=I), a
