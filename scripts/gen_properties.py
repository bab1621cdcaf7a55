#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit; run to regenerate)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state: d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append(d)

p("C01", "Every operator has one meaning: source, constant folding, C and WASM code",
  "Each circom operator token denotes one field operation: the value the compiler folds for constant operands is that operation applied to the left and right operand in source order, and the generated C++ and WASM witness programs call the runtime routine of the same operation with the operands in the same order. Compile-time addition, subtraction, multiplication, negation, comparisons (signed around p/2), boolean, bitwise, shift, division and power follow the language definition.",
  ["programs", "inputs"], "for every expression, every operator and all operand values",
  "The tests exercise four modular-arithmetic functions on a handful of numbers; no test crosses the parser, the folding evaluator and both code generators, so a swapped table entry or operand is invisible.",
  ["parser/src/lang.lalrpop", "constraint_generation/src/execute.rs", "circom_algebra/src/algebra.rs", "circom_algebra/src/modular_arithmetic.rs", "compiler/src/intermediate_representation/translate.rs", "compiler/src/intermediate_representation/compute_bucket.rs"],
  [("token to opcode", "parser/src/lang.lalrpop"), ("constant folding dispatch", "execute_infix_op, execute_prefix_op"), ("opcode to IR operator", "translate_infix_operator, translate_prefix_operator"), ("IR operator to runtime routine", "ComputeBucket::produce_c / produce_wasm")],
  observe=["folded constants in r1cs", "generated .cpp and .wat"])

p("C02", "Compile-time field arithmetic is total and canonical",
  "Every arithmetic operation the compiler evaluates on constants either yields a value in [0, p) or yields an arithmetic error that is reported as a diagnostic; in particular a zero divisor or a non-invertible element is never divided by, for any operator that divides. No constant operand makes the compiler crash.",
  ["inputs", "programs"], "for every pair of constant operands, including 0, p-1 and values above p",
  "The tests sample a few operand pairs; the zero divisor, the huge shift amount and the unreduced intermediate need particular operands on particular operators.",
  ["circom_algebra/src/modular_arithmetic.rs", "circom_algebra/src/algebra.rs", "constraint_generation/src/execute.rs"],
  [("zero-divisor guards", "modular_arithmetic.rs"), ("reduction", "modular_arithmetic::modulus"), ("error to report", "treat_result_with_arithmetic_error")])

p("C03", "Constraint statements always constrain; plain signal assignments never do",
  "Executing `<==` or `===` on signals adds a constraint for each scalar element involved, or reports an error (non-quadratic, mismatched dimensions); it never succeeds without constraining. Executing `<--` or a variable assignment never adds a constraint.",
  ["programs"], "for every template, statement form (signals, arrays, buses, components) and template arguments",
  "No test compiles a circuit; the guarantee quantifies over all statement forms and execution contexts.",
  ["constraint_generation/src/execute.rs", "constraint_generation/src/execution_data/executed_template.rs", "constraint_generation/src/execution_data/executed_bus.rs"],
  [("substitution and constraint-equality execution", "execute_statement"), ("constraint store", "ExecutedTemplate::add_constraint"), ("quadratic-form check", "ArithmeticExpression::transform_expression_to_constraint_form")])

p("C04", "Nothing that shapes the circuit depends on values unknown at compile time",
  "While the compiler executes code under a condition it cannot evaluate, generating a constraint, declaring a signal, component or bus, instantiating a component or assigning a tag is reported as an error; so are, anywhere, template or bus parameters and array sizes whose value is unknown, and unknown indices in a constraint or in the instantiation of a component. The state of being under an unknown condition covers the whole body of every such conditional or loop and ends with it.",
  ["programs"], "for every program and nesting of conditionals, loops and calls",
  "The check is a dynamic context that must be set, inherited and restored on every path of the evaluator; no unit test runs the evaluator.",
  ["constraint_generation/src/execute.rs", "type_analysis/src/analyzers/unknown_known_analysis.rs"],
  [("block knowledge", "RuntimeInformation.block_type, ExecutedProgram"), ("static analysis", "unknown_known_analysis")],
  state=[("block_type", "whether the code executed is under an unknown condition", "constraint_generation/src/execute.rs")])

p("C05", "A signal or component is assigned at most once and never read unassigned",
  "Assigning an already assigned signal, component, bus or tag, assigning an input of the template being executed, or reading a signal, component output or variable slot outside its dimensions is always reported as an error. A template whose execution ends with a subcomponent lacking some input is reported as an error.",
  ["programs", "histories"], "for every sequence of declarations, assignments and accesses",
  "Depends on the history of assignments to each memory cell; the memory-slice tests cover three fixed insertions.",
  ["constraint_generation/src/assignment_utils.rs", "constraint_generation/src/environment_utils", "program_structure/src/utils/memory_slice.rs", "constraint_generation/src/execute.rs"],
  [("assignment state machine", "perform_signal_assignment"), ("dimension and bounds checks", "MemorySlice"), ("component completeness", "environment_check_all_components_assigned")])

p("C06", "A compilation that reports an error fails: non-zero exit and no success message",
  "Whenever any phase (parsing, desugaring, type checking, execution, constraint generation, code generation) produces an error diagnostic, that diagnostic is printed, no later phase runs on the broken program, and the process exits with a non-zero status. \"Everything went okay\" is printed only when every phase succeeded.",
  ["programs", "configurations", "fault_sequences"], "for every program, option set and failing phase",
  "No test runs the command line; each phase has its own error type and hand-over, and one dropped Result breaks the chain for the inputs that reach it.",
  ["circom/src/main.rs", "circom/src/execution_user.rs", "circom/src/compilation_user.rs", "circom/src/parser_user.rs", "circom/src/type_analysis_user.rs", "constraint_generation/src/lib.rs"],
  [("phase results", "circom/src/main.rs"), ("report printing", "program_structure Report::print_reports")],
  observe=["process exit status", "stdout/stderr"])

p("C07", "No I/O error on an output or input file is silently dropped",
  "Every failure to create, write, seek or flush an output file (r1cs, sym, json, dat, wat, wasm, cpp, js, substitution log) is reported and makes the compilation fail, and the buffered data is flushed before success is announced. \"Written successfully\" for a file is printed only after that file was written.",
  ["fault_sequences", "configurations"], "for every output kind and every failing write, seek or flush",
  "Tests run on healthy disks; each of about a hundred write sites would need a fault at exactly that call.",
  ["constraint_writers/src", "compiler/src/circuit_design", "compiler/src/compiler_interface.rs", "code_producers/src", "constraint_generation/src/lib.rs", "circom/src/compilation_user.rs", "circom/src/execution_user.rs"],
  [("Result propagation", "all functions returning io::Result or Result<_, ()>"), ("flush", "BufWriter users")])

p("C08", "Every static check runs on every template, function and bus",
  "The semantic analyses (symbol use, type checking, signal/component declaration placement, known/unknown rules, return completeness, custom-gate and tag rules, templates without returns, functions free of template statements) are applied to every template, function, bus and main-component expression of the program, and an error from any of them stops the compilation. No definition reaches execution unchecked.",
  ["programs"], "for every program and every definition in it",
  "A check skipped for one kind of definition only shows on a program whose only defect is of that kind; there are no type-analysis tests.",
  ["type_analysis/src/check_types.rs", "type_analysis/src/analyzers"],
  [("analysis pipeline", "check_types::check_types"), ("per-definition passes", "template_level_analyses, function_level_analyses, bus_level_analyses")])

p("C09", "Every pass over the syntax tree visits every nested statement and expression",
  "Each analysis or transformation over programs (desugaring, metadata propagation, dead-code elimination, constant and type annotation, knownness, symbol checks) inspects all children of every statement and expression form it can meet: no nested block, branch, index, argument, initialisation or access is skipped. A construct nested anywhere is treated as it would be at top level.",
  ["programs"], "for every syntax tree shape",
  "A missed child matters only for programs that nest the relevant construct in exactly that position.",
  ["program_structure/src/abstract_syntax_tree", "parser/src/syntax_sugar_remover.rs", "type_analysis/src/analyzers", "type_analysis/src/decorators", "constraint_generation/src/compute_constants.rs"],
  [("recursive visitors", "functions that match on Statement, Expression or Access")])

p("C10", "Compilation is deterministic",
  "Compiling the same source with the same options yields byte-identical outputs and diagnostics: nothing that depends on hash iteration order, thread arrival order, addresses, time or the environment flows into an output file, a diagnostic or a numbering.",
  ["schedules", "programs"], "for every program, thread schedule and hash seed",
  "A test run sees one hash seed and one schedule; equality of two runs does not cover the others.",
  ["constraint_list/src", "circom_algebra/src/simplification_utils.rs", "dag/src", "constraint_generation/src", "type_analysis/src", "compiler/src", "constraint_writers/src"],
  [("ordered containers at output boundaries", "BTreeMap, sorted vectors, LinkedList"), ("channel collection", "simplification threads")])

p("C11", "Every command-line option reaches the behaviour it names",
  "Each documented option is parsed, stored and passed to exactly the phase that implements it (output selection, simplification level and rounds, prime, inspection, parallel simplification, sanity-check level, constraint-assert, no-asm, link paths, output directory), with the documented default when absent, and invalid values or combinations are rejected. An option never switches another option's behaviour.",
  ["configurations"], "for every combination of options",
  "The CLI has no tests and the option space is a product of more than twenty flags.",
  ["circom/src/input_user.rs", "circom/src/main.rs", "circom/src/execution_user.rs", "circom/src/compilation_user.rs", "constraint_generation/src/lib.rs"],
  [("argument processing", "input_processing"), ("Input getters", "input_user::Input"), ("configs", "ExecutionConfig, CompilerConfig, BuildConfig, VCP flags")])

p("C12", "All tables keyed by prime agree",
  "The set of accepted prime names is the same wherever primes are listed; for each name the modulus used in compile-time arithmetic, the modulus in the generated C++/WASM field library and the modulus embedded in outputs are the same number, and each prime selects its own library files. An unknown prime is rejected up front.",
  ["configurations"], "for every prime",
  "Only the default prime is ever touched by tests.",
  ["circom/src/input_user.rs", "program_structure/src/utils/constants.rs", "code_producers/src/c_elements", "code_producers/src/wasm_elements"],
  [("prime tables", "UsefulConstants::new, c_code_generator, wasm_code_generator, input_processing::get_prime")])

p("C13", "The R1CS file is structurally what its header and section table say",
  "The writer emits magic, version and section count; each section is preceded by its type and the byte length actually written, every multi-byte value is little-endian of the width the format prescribes, field elements take exactly the declared field size, and header counts (wires, public outputs, inputs, private inputs, labels, constraints) are those of the content written. Sections are written in an order and with identifiers the companion reader accepts.",
  ["programs", "configurations"], "for every circuit and prime",
  "No test writes an r1cs file; the counts and lengths depend on the circuit.",
  ["constraint_writers/src/r1cs_writer.rs", "constraint_writers/src/r1cs_reader.rs", "constraint_list/src/r1cs_porting.rs", "dag/src/r1cs_porting.rs"],
  [("section bracketing", "initialize_section / end_section"), ("typestate writers", "R1CSWriter, HeaderSection, ConstraintSection, SignalSection, CustomGates*Section")])

p("C14", "Every output numbers signals by the same witness map",
  "The r1cs constraints, the wire-to-label section, the sym file, the JSON constraints and the generated witness program all use the same signal-to-witness numbering, with the constant one as entry 0, then outputs, public inputs, private inputs and the remaining signals; signals removed by simplification are marked as absent consistently. The non-simplified and simplified exporters apply the same layout.",
  ["programs", "configurations"], "for every circuit and simplification level",
  "Requires comparing several outputs of a whole compilation; no such test exists.",
  ["dag/src/lib.rs", "dag/src/r1cs_porting.rs", "dag/src/sym_porting.rs", "dag/src/json_porting.rs", "dag/src/witness_producer.rs", "constraint_list/src/lib.rs", "constraint_list/src/r1cs_porting.rs", "constraint_list/src/sym_porting.rs", "constraint_list/src/json_porting.rs", "constraint_list/src/constraint_simplification.rs"],
  [("witness map", "signal_map, get_witness_as_vec, produce_witness"), ("ordering", "DAG node signal counters")])

p("C15", "Simplification never removes public signals or loses a constraint's variables",
  "Signals that must survive (the constant one, the main component's inputs and outputs, custom-gate signals) are never substituted away at any simplification level, every substitution found is applied to every remaining constraint before output, and constraints are dropped only when trivially satisfied or replaced by a recorded substitution.",
  ["programs", "schedules", "configurations"], "for every circuit, simplification level and round count",
  "Simplification has two failing tests at baseline and none over whole circuits.",
  ["constraint_list/src/constraint_simplification.rs", "constraint_list/src/non_linear_utils.rs", "dag/src/map_to_constraint_list.rs", "circom_algebra/src/simplification_utils.rs", "dag/src/constraint_correctness_analysis.rs"],
  [("forbidden set", "Simplifier.forbidden, signal ranges in DAG::get_forbidden"), ("substitution application", "apply_substitution_to_map, fix_constraint")])

p("C16", "Every intermediate instruction is implemented alike by the C and WASM generators",
  "Each instruction kind of the intermediate representation is dispatched to its own code generation in both back ends; run-time checks (assertions, constraint checks when enabled) and branch and loop conditions are emitted by both, with the same sub-instructions in the same order. Reads, stores and calls denote the same elements and copy the same number of them in both, whatever the kind of location (variable, signal, signal or bus field of a subcomponent, also in an array of different instances), and create subcomponents, count their inputs and run them alike. No instruction is generated as another one or silently skipped.",
  ["programs", "configurations"], "for every program and sanity-check setting",
  "Tests render fixed snippets of the runtime; no test generates code for a circuit.",
  ["compiler/src/intermediate_representation", "compiler/src/circuit_design/circuit.rs"],
  [("instruction dispatch", "ir_interface.rs"), ("bucket generators", "*_bucket.rs")])

p("C17", "Contexts are restored: calls, blocks and conditionals do not leak state",
  "Executing a template, function or bus call, a block, a loop body or a conditional leaves the caller's environment, known/unknown context, anonymous-component table, current file and call trace as they were, apart from the intended effects; names declared inside a block are not visible after it and shadow only inside it. Translation to the intermediate representation keeps the same scoping.",
  ["programs", "histories"], "for every nesting and sequence of calls, blocks and conditionals",
  "Leaks surface only in particular call/conditional nestings; no test runs nested calls.",
  ["constraint_generation/src/execute.rs", "program_structure/src/utils/environment.rs", "compiler/src/intermediate_representation/translate.rs"],
  [("save/restore", "execute_call, execute_template_call_complete, execute_function_call_complete, execute_conditional_statement"), ("block scoping", "add_variable_block / remove_variable_block")])

p("C18", "Tuples and anonymous components are expanded or rejected, never ignored",
  "Every tuple and anonymous component in a template is rewritten into ordinary declarations and assignments or rejected with an error; assignment tuples must match in length, anonymous component inputs must match the template's inputs in number and name, and the assignment operator given for each named input is kept. Functions, conditions, indices and other places where they are not allowed are rejected.",
  ["programs"], "for every placement of tuples and anonymous components",
  "The desugaring has no tests, and a wrong case needs that nesting of constructs.",
  ["parser/src/syntax_sugar_remover.rs"],
  [("rejection", "check_anonymous_components_*, check_tuples_*"), ("rewriting", "remove_anonymous_*, remove_tuples_*")])

p("C19", "Template and bus instances are shared only when truly identical",
  "Two component or bus instances share one compiled instance only when template name, all parameter values, and all tags with their values (including those inside bus inputs) are equal; otherwise each gets its own constraints and code. Parameters are bound to the values passed in declaration order.",
  ["programs"], "for all pairs of instantiations in a program",
  "Needs two instantiations differing in just one component of the identity.",
  ["constraint_generation/src/execution_data/executed_program.rs", "constraint_generation/src/execution_data/executed_template.rs", "constraint_generation/src/execution_data/executed_bus.rs", "constraint_generation/src/execute.rs"],
  [("identity", "ExecutedTemplate::is_equal, ExecutedBus::is_equal"), ("node reuse", "ExecutedProgram::identify_node, identify_bus_node, add_node_to_scheme")])

p("C20", "Every diagnostic code is distinct and errors are labelled as errors",
  "Each diagnostic kind has its own identifier, so no two different problems are shown under the same code, and a diagnostic raised as an error is rendered as an error, a warning as a warning.",
  ["programs"], "for every diagnostic kind",
  "No test renders diagnostics.",
  ["program_structure/src/program_library/error_code.rs", "program_structure/src/program_library/error_definition.rs"],
  [("code table", "impl Display for ReportCode"), ("rendering", "Report::to_diagnostic")])

p("C21", "The grammar gives operators their documented precedence and shortcuts meaning",
  "Operators bind with the precedence and left associativity of the language reference, compound assignments and increments expand to the operator they name applied to the assigned variable, reversed arrows assign to the right-hand side with the same operator kind as their left-pointing form, and each statement keyword builds the statement it names.",
  ["programs"], "for every source text",
  "The grammar has no tests; every production would need several programs.",
  ["parser/src/lang.lalrpop", "program_structure/src/abstract_syntax_tree/ast_shortcuts.rs"],
  [("expression ladder", "lang.lalrpop"), ("shortcuts", "ast_shortcuts.rs")])

p("C22", "Source files are resolved, read and versioned safely",
  "Every included file is found relative to the including file or a link library, parsed exactly once, and a missing or unreadable one is an error; comments are removed without changing positions and an unterminated comment is an error; a file requiring another compiler version is rejected and one without a version is warned about; duplicate pragmas, duplicate definitions and a number of main components other than one are errors.",
  ["programs", "configurations"], "for every set of source files and include graph",
  "No test parses multiple files.",
  ["parser/src/lib.rs", "parser/src/include_logic.rs", "parser/src/parser_logic.rs", "program_structure/src/program_library/program_merger.rs", "program_structure/src/program_library/program_archive.rs"],
  [("include stack", "IncludesGraph / FileStack"), ("preprocess", "parser_logic::preprocess"), ("version checks", "check_number_version")])

p("C23", "Custom templates obey their restrictions and reach the custom-gate sections",
  "A custom template contains no subcomponents, constraints or `<==`/`===` statements and its use requires the custom-templates pragma and an export mode that supports it; every instantiated custom gate is listed in the r1cs custom-gate sections with its name, parameters and signals, and its signals are kept by simplification.",
  ["programs", "configurations"], "for every program with custom templates",
  "No test uses custom templates.",
  ["type_analysis/src/analyzers/custom_gate_analysis.rs", "parser/src/lib.rs", "constraint_list/src/r1cs_porting.rs", "dag/src/r1cs_porting.rs", "constraint_writers/src/r1cs_writer.rs", "constraint_generation/src/execute.rs"],
  [("static restriction", "custom_gate_analysis"), ("pragma check", "parser"), ("export", "CustomGatesUsedSection, CustomGatesAppliedSection")])

p("C24", "The witness program's data file and code agree on layout and sizes",
  "The data file, the C++ loader and the WASM module agree on the order, width and count of their tables: input hash map, witness-to-signal list, constants, io map and bus-field map; sizes declared in the generated code equal the lengths of the tables written. Input-signal hashes written by the compiler are those the run-time computes.",
  ["programs", "configurations"], "for every circuit and prime",
  "The table tests produce output without checking a loader.",
  ["code_producers/src/c_elements/c_code_generator.rs", "code_producers/src/c_elements/common/main.cpp", "code_producers/src/wasm_elements/wasm_code_generator.rs", "compiler/src/circuit_design/circuit.rs"],
  [("dat writer", "generate_dat_file"), ("C loader", "common/main.cpp loadCircuit"), ("WASM data", "generate_data_*")])

p("C25", "Tags travel with signals only by the rules of the language",
  "A signal with required tags accepts only values carrying those tags, an assignment gives the assigned signal the tags common to what it receives, a tag with a value keeps that value, output tags set inside a template are visible to its user, and tags cannot be changed once the signal is assigned or inside unknown blocks; violations are reported.",
  ["programs", "histories"], "for every sequence of tag declarations, assignments and connections",
  "No test executes tags.",
  ["constraint_generation/src/assignment_utils.rs", "constraint_generation/src/execute.rs", "constraint_generation/src/environment_utils", "type_analysis/src/analyzers/tag_analysis.rs"],
  [("tag propagation", "perform_tag_propagation / compute_propagated_tags"), ("static analysis", "tag_analysis")])

p("C26", "No user program makes the compiler panic",
  "For every source text and option set the compiler ends with output or with diagnostics: it never aborts through an unwrap, an out-of-range index, an arithmetic overflow or an unreachable marker. Internal invariants asserted by such markers are established by earlier phases.",
  ["programs", "configurations"], "for every program and option set",
  "The panic sites are only reached by programs that violate an invariant no test probes.",
  ["constraint_generation/src", "type_analysis/src", "compiler/src", "parser/src", "circom/src"],
  [("diagnostics instead of panics", "whole compiler")])

p("C27", "Simplified constraints have exactly the original solutions",
  "For every circuit the constraint system written after any simplification level has, restricted to the surviving signals, exactly the solutions of the system before simplification.",
  ["programs", "configurations", "schedules"], "for every circuit and simplification level",
  "Equality of solution sets over a large prime field cannot be sampled.",
  ["constraint_list/src", "circom_algebra/src"],
  [("linear and quadratic elimination", "constraint_list, simplification_utils")])

p("C28", "The generated witness satisfies the generated constraints",
  "For every circuit without user-declared hints and every input accepted by the witness program, the witness it computes satisfies all constraints in the r1cs file.",
  ["programs", "inputs"], "for every circuit and input",
  "Requires running generated programs for all inputs.",
  ["compiler/src", "constraint_generation/src"],
  [("shared semantics of executor and code generator", "execute.rs, translate.rs")])

p("C29", "The constraint algebra preserves the meaning of expressions",
  "Combining symbolic expressions (numbers, signals, linear, quadratic) yields an expression denoting the operator applied to what the operands denote, or the non-quadratic marker; expressions the language accepts are not degraded. Turning an expression into a constraint, substituting a signal by a linear expression, isolating a signal, normalising a constraint and renumbering signals all preserve what is denoted.",
  ["programs", "inputs"], "for every expression shape, every set of signals and coefficients, and every aliasing between signals (including the constant entry)",
  "The tests use three hand-made constraints modulo 257; coincidences such as a shared signal, a cancelling coefficient or a purely constant part are not sampled.",
  ["circom_algebra/src/algebra.rs"],
  [("expression operators", "ArithmeticExpression::add/sub/mul/div/pow/prefix_sub"), ("constraint form", "transform_expression_to_constraint_form, substitution_into_constraint"), ("substitution", "raw_substitution, apply_substitutions"), ("isolation", "clear_signal"), ("normalisation", "fix_raw_constraint"), ("renumbering", "apply_raw_offset, apply_vectored_correspondence, apply_raw_correspondence")])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P))
