BASE = "Assumes rustc's MIR is the program, library containers behave as documented, and loop bodies are represented by one abstract iteration; constructs outside the listed anchors are not judged."
TECH = {
 "C01": ("abstract interpretation of MIR (region domain) + grammar/code-template table agreement",
         "Folding summaries are compared with the reference on every order region of (left,right,p) for four small moduli; code generation is compared as emitted text per operator. The field library routines themselves are trusted. " + BASE),
 "C29": ("abstract interpretation of MIR with a coefficient-map domain; polynomial identity per abstract path",
         "Every path of every algebra operation denotes a polynomial identity over the map entries; identities are decided by normal-form evaluation at fixed points of a 127-bit prime field (error below 2^-100). Maps are represented by one generic entry plus the entries the code names. " + BASE),
 "C21": ("symbolic evaluation of the generated parser's grammar actions over MIR + precedence analysis of the productions",
         "Operator chains over all pairs of operators and every shortcut/statement form are parsed with all derivations and the AST built compared with the reference. LALRPOP's tables are trusted to accept the productions listed in the generated file. " + BASE),
 "C22": ("abstract interpretation of MIR (path summaries) + product automaton of the comment remover with a reference transducer",
         "The comment remover is compared for inputs of every length; include search, queue, version check, pragma collection, parse_file, driver and definition merging are compared per abstract path with at most two files, libraries and pragmas. File-system calls are oracles. " + BASE),
 "C02": ("abstract interpretation of MIR (region domain), guarded-divisor and error-propagation rules",
         "Each operator's summary is total and canonical on every region, including regions with shift amounts and exponents beyond the machine word. " + BASE),
}
TECH["C03"] = ("abstract interpretation of MIR: path summaries of statement execution with oracles for sub-expressions, constraint-store effect rule",
         "Every path of execute_statement and perform_assign for each statement form, operator, symbol kind, right-hand side form and access depth up to 2; slices are represented by two cells. " + BASE)
TECH["C04"] = ("abstract interpretation of MIR: path summaries of the executor and of the static knowledge analysis, typestate rule for the known/unknown context",
         "Every path of declarations, calls, conditionals, assignments and accesses under known and unknown contexts; lists are represented by two elements. " + BASE)
NA = {
 "C10": "Many places of the tree let the iteration order of a hash container or the arrival order of a thread reach a list; whether that reaches an output byte depends on later sorting and on run-time values, so a sound order analysis would report mostly places without an observable effect.",
 "C26": "Absence of panics quantifies over run-time values (sizes, indices, arithmetic) and over several hundred unwrap/index sites whose safety rests on data invariants; no sound static argument in reach bounds them without reporting code that is right.",
 "C27": "Equality of solution sets before and after simplification is a statement about the polynomials of each circuit; C15 and C29 decide the structural parts (elimination steps and the whole pass on bounded systems, algebra of constraints); that it holds for every circuit is not a static fact in reach.",
 "C28": "Relates values computed by generated programs with constraint systems of arbitrary circuits: both sides exist only at run time; C01, C14, C16 and C24 decide the tables and emission rules it rests on.",
}
TECH["C05"] = ("abstract interpretation of MIR: typestate of signals, buses and components, path summaries of slices, assignments and reads",
         "Every path of slice access, signal/component/bus assignment and read under each known/unknown condition path; arrays up to 3 dimensions and 8 cells, components with up to two inputs of each kind. " + BASE)
TECH["C19"] = ("abstract interpretation of MIR: decision summaries of instance equality, lookup, insertion, parameter binding, instantiation and export, over symbolic and sample instances",
        "Equality is judged on symbolic instances (each comparison an open outcome) and on known ones differing in one respect; lookup over up to four instances; calls with up to three parameters; every path of instantiation. " + BASE)
TECH["C17"] = ("abstract interpretation of MIR: traces of environment operations, save/restore typestate of the runtime context, scope-balance effect over every statement pass",
         "Environments are judged by traces of up to five operations over two names; every path of calls, bodies, blocks, conditionals and sequences of three statements; every listed pass over block, initialisation, loop and conditional. " + BASE)
TECH["C25"] = ("abstract interpretation of MIR: transfer functions of tag states compared with the reference on every state, path summaries of assignments, reads and declarations",
        "Tag states are enumerated (declared, value set, value) over up to two tag names; buses with two fields and two levels; every path of assignment and read of signals, variables, buses and components. " + BASE)
TECH["C07"] = ("error-flow analysis: each fallible call an oracle over MIR paths; flow-sensitive typestate of buffered writers over MIR with function summaries",
        "Every function with a fallible operation in the output-side crates; each path follows at most two calls per site. Where paths are too many (constraint_simplification::simplification) the rule is that the result is looked at. A panic counts as a failure. " + BASE)
TECH["C06"] = ("linear-value typestate of diagnostics over MIR with function summaries; path summaries of the command-line pipeline, error reporting and check stages",
        "Diagnostics are tracked per owner at three levels (none, warnings, error) through moves, collections, closures and references; states per block are bounded (joined functions are left undecided); a panic counts as a failure. " + BASE)
TECH["C08"] = ("abstract interpretation of MIR: pipeline traces with every analysis an oracle, and transfer functions of each analysis on every form of statement and expression against the reference rules",
        "The pipeline is followed for programs with two definitions of every kind; each analysis handler is explored on every form of node with symbolic children (induction over the syntax tree), lists being represented by two elements; type-checker rules are compared on scalar, array, bus and template operands. apply_access_to_symbol's field walk is not judged. " + BASE)
TECH["C09"] = ("abstract interpretation of MIR: structural induction over the syntax tree, each pass explored on every form of node with its children as parameters; a child no handler of the pass is given is the violation",
        "One obligation per pass, form of node and child: on every path that neither fails nor reports, the child is handed to the pass (and, in passes that rewrite, its new form, declarations and statements are in the result). Lists are represented by two elements and accesses by index-field-index. Passes that need not look at some child (dimensions already computed, `_ <==`, conditions without types) are exempt child by child as listed in sa/checks/c09.py. " + BASE)
TECH["C18"] = ("abstract interpretation of MIR: the desugaring passes explored on every form of node; the emitted declarations, assignments and values are compared with the reference expansion; the whole pipeline with every pass an oracle",
        "Anonymous components are expanded for 0-3 inputs, by position and by name, 0-2 outputs, inside and outside loops; tuples up to three elements and three levels; checks are decided on every form of node with symbolic children (structural induction). " + BASE)
TECH["C20"] = ("abstract interpretation of MIR: the code table and the rendering of reports evaluated on every kind; def-use resolution of the code given at every construction of a report",
        "Every variant of ReportCode; every call of Report::error and Report::warning whose code resolves to a variant (through constants, results and parameters); the few kinds that describe the same problem on another kind of operand may share a code. " + BASE)
TECH["C11"] = ("abstract interpretation of MIR: circom::start evaluated on command lines, the entry points of the phases being the observed events; def-use and path summaries where options are consumed",
        "No option, every option with every value, every pair, and combinations of all (about 680 command lines); what the phases do with a flag is decided down to the simplifier's fields and the producers' fields. clap itself and the file system are trusted. " + BASE)
TECH["C12"] = ("abstract interpretation of MIR: each generator evaluated for every prime and choice of assembly; the embedded library texts it writes are compared with constants computed from the modulus",
        "All eight primes, with and without assembly, and names that are not primes; data segments, assembly data, template values, producer fields and library code (by difference with the other primes). Goldilocks code and the 256-bit assembly are only checked for their constants; that the library code computes field arithmetic is trusted. " + BASE)
TECH["C13"] = ("abstract interpretation of MIR: the exporters evaluated on abstract circuits, writing to an abstract file whose bytes, offsets and section sizes are then parsed; the reader evaluated on the files written",
        "Eight circuits (subcomponents three deep, removed signals, custom gates, no constraints, 300 wires, fields of 64 to 256 bits) for both exporters with and without custom-gate sections; coefficients and parameters are symbolic. The bytes of a number are an opaque little-endian string of the width it is written in. std::fs and BufWriter are trusted. " + BASE)
TECH["C14"] = ("abstract interpretation of MIR: the exporters, witness lists and numbering functions evaluated on the same abstract circuits, their outputs compared wire by wire",
        "The circuits of C13, three orders of declaration, six removal patterns; coefficients symbolic. That the generated program computes the witness at the indices it is given is C24's and the run time's. " + BASE)
TECH["C23"] = ("abstract interpretation of MIR: the custom-template analysis, the include graph and the flag's way from definition to node evaluated on enumerated statements, graphs and marks; the written sections parsed and compared with the circuit", "Every kind of statement in ten positions; include graphs of up to four files with every placement of pragma and custom template; sample circuits of two to four templates through both exporters. The order of a gate's parameters (alphabetical by name) is not judged: the format does not fix it. " + BASE)
TECH["C15"] = ("abstract interpretation of MIR: the constraint classifier, the elimination steps and the whole simplification pass evaluated on small constraint systems over a small field, threads replaced by their possible completion orders; the results are compared with the systems by their sets of solutions",
        "All sets of forbidden signals of equality clusters of up to five signals; all linear constraints over two signals and the field of 5 elements for the classification; 40 linear systems per elimination strategy; 60 systems of every kind of constraint with two subcomponents, zero to three rounds, both completion orders. Hash containers are iterated in insertion order. The disk-backed constraint storage is a list. " + BASE)
TECH["C16"] = ("abstract interpretation of MIR: the generator of each instruction evaluated for both back ends on enumerated instructions with symbolic children; the emitted C and WASM text is parsed and its control flow, addresses, copies and calls interpreted against the meaning of the instruction",
        "All kinds of instruction for the dispatch; branches of up to three instructions a side, loops of up to three instructions and rounds, assertions under three settings, seven logs, returns of three sizes, fifteen kinds of location with up to four accesses for reads, stores (sizes 0 to 4, sizes depending on the instance, every state of the inputs, three kinds of parallelism) and calls (six argument lists), the creation of components for six patterns of positions; fields other than goldilocks. The creation of components for six patterns of positions. The mutexes of parallel outputs are not covered. " + BASE)
