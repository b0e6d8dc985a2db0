NOT_APPLICABLE = []
TRUST = "Search, not proof: a violation outside the generated inputs stays unseen. Trusted: the reference procedures of harness/src/oracle.rs (DPLL, RUP/RAT and LRAT checkers) and the generators' reading of the documented preconditions."
PROPS = []
def prop(**k): PROPS.append(k)

prop(id="S01", title="One-shot verdicts are correct",
 statement="For a formula loaded into a fresh solver through any of the loading functions (single clauses, a whole formula, DIMACS text), solve() returns true exactly when the formula is satisfiable and false exactly when it is unsatisfiable, whatever mixture of empty, unit, binary, long, duplicated and tautological clauses it has. Asking again without changes gives the same answer. solve() does not panic and does not report an error when no proof output is configured.",
 over=["inputs","configurations"], quant="all CNF formulas (generated: up to some hundred variables, 8 structured and random families), all loading paths, all valid solver configurations",
 why="The tests run a handful of generated families (sgen, planted k-SAT, pigeonhole) whose status is known by construction; verdicts on arbitrary formulas, messy clauses and small satisfiable/unsatisfiable boundary cases are never compared with a reference.",
 files=["varisat/src/solver.rs","varisat/src/load.rs","varisat/src/cdcl.rs","varisat/src/prop","varisat/src/analyze_conflict.rs","varisat/src/clause","varisat/src/unit_simplify.rs","varisat/src/binary.rs"],
 mech=[("CDCL search","varisat/src/cdcl.rs: conflict_step"),("clause loading","varisat/src/load.rs: load_clause"),("propagation","varisat/src/prop"),("conflict analysis","varisat/src/analyze_conflict.rs")],
 observe=["Solver::solve","Solver::model"],
 technique="property-based testing: generated formulas against an independent DPLL; larger formulas certified by model evaluation or by an own DRAT check of the solver's proof",
 note=TRUST)

prop(id="S03", title="Incremental solving agrees with solving from scratch",
 statement="After any history of adding clauses, replacing assumptions, creating variables, changing the configuration and solving, each solve() returns whether all clauses added so far together with the current assumptions are satisfiable. A model reported at any point satisfies all clauses and assumptions; a failed core reported at any point consists of assumptions and is contradictory together with the clauses. Earlier calls leave no other trace.",
 over=["histories","inputs","configurations"], quant="all interleavings of add_clause/add_formula/add_dimacs_cnf, assume (with duplicates and contradictory literals), new_var, config and solve",
 why="Tests use a few fixed incremental patterns (conditional pigeonhole, selector chains); arbitrary interleavings, repeated solving after failures and stale solver state between calls are not reached.",
 files=["varisat/src/solver.rs","varisat/src/assumptions.rs","varisat/src/load.rs","varisat/src/unit_simplify.rs","varisat/src/variables.rs","varisat/src/model.rs"],
 mech=[("assumption handling","varisat/src/assumptions.rs: set_assumptions, enqueue_assumption"),("unit clauses that come back","varisat/src/unit_simplify.rs: resurrect_unit"),("solver variable recycling","varisat/src/variables.rs: solver_from_global, remove_solver_var")],
 observe=["Solver::solve","Solver::model","Solver::failed_core"],
 technique="model-based testing: generated call histories against a reference state and DPLL",
 note=TRUST)

prop(id="S06", title="Sampling modes, hidden and new variables",
 statement="Marking variables as witness or sample variables, hiding them, observing internal variables and creating variables never changes which clauses and assumptions are in force: verdicts stay those of the accumulated clauses with hidden variables existentially quantified. A model never lists a hidden variable, assigns every sample variable and every visible variable that occurs in a clause or assumption, and extends to the hidden variables. A hidden index that is used again denotes a new unconstrained variable, and new_var and observe_internal_vars never return a variable that is in use; a variable that is not currently assumed can always be hidden or change its mode; constraining or assuming a visible variable that is not a sample variable panics.",
 over=["histories"], quant="all interleavings of solver calls including witness_var, sample_var, hide_var, observe_internal_vars, new_var and reuse of hidden indices",
 why="Tests cover one hide-everything pattern; interactions of hiding with unit clauses, recycled variable names, assumptions and later solves depend on the whole history.",
 files=["varisat/src/variables.rs","varisat/src/solver.rs","varisat/src/model.rs","varisat/src/unit_simplify.rs"],
 mech=[("variable maps","varisat/src/variables.rs"),("model reconstruction","varisat/src/model.rs")],
 observe=["Solver::model","Solver::new_var","Solver::observe_internal_vars","Solver::hide_var"],
 technique="model-based testing: generated call histories against a reference with one entity per generation of a variable",
 note=TRUST)

prop(id="S02", title="Models are exactly the satisfying assignments",
 statement="After solve() returned true, model() assigns every variable that occurs in a clause once, satisfies every clause and stays available unchanged until the next call that changes the problem; after false there is no model. Blocking each model in turn and solving again enumerates every satisfying assignment of the formula once and then reports unsatisfiability.",
 over=["inputs","histories"], quant="all satisfiable formulas; all blocking-clause enumerations",
 why="Tests check models of large planted instances only; completeness of enumeration and totality of models with unused, eliminated or unit-fixed variables are not compared with a reference count.",
 files=["varisat/src/model.rs","varisat/src/solver.rs","varisat/src/variables.rs","varisat/src/unit_simplify.rs"],
 mech=[("model reconstruction","varisat/src/model.rs: reconstruct_global_model"),("unit handling","varisat/src/unit_simplify.rs")],
 observe=["Solver::model","Solver::solve"],
 technique="property-based testing: generated formulas, evaluation of models, model count by enumeration against brute force",
 note=TRUST)

prop(id="S05", title="Configuration never changes answers",
 statement="Any valid configuration, set before or between solves, leaves verdicts, model validity and core validity as they are with the defaults, and solving terminates. Clause database reductions, restarts and renaming of variables are invisible to the caller.",
 over=["configurations","inputs"], quant="all valid values of all solver options on formulas hard enough to trigger restarts and reductions",
 why="Tests solve with the default configuration (restarts and reductions at their default intervals); small and extreme intervals, decay factors and limits put the same machinery under very different schedules.",
 files=["varisat/src/config.rs","varisat/src/solver.rs","varisat/src/schedule.rs","varisat/src/clause/reduce.rs","varisat/src/clause/gc.rs","varisat/src/decision"],
 mech=[("scheduling","varisat/src/schedule.rs: schedule_step"),("reduction","varisat/src/clause/reduce.rs"),("garbage collection","varisat/src/clause/gc.rs")],
 observe=["Solver::config","Solver::solve"],
 technique="property-based testing: differential between configurations, certified verdicts",
 note=TRUST)

prop(id="S07", title="Verdicts are invariant under renaming and reordering",
 statement="Permuting clauses and literals, renaming variables (also to sparse indices), flipping polarities, duplicating clauses, adding tautologies or implied clauses, splitting the loading over several calls and solving in between never changes whether a formula is satisfiable.",
 over=["inputs"], quant="all formulas and all satisfiability-preserving transformations of the listed kinds",
 why="A metamorphic relation over pairs of inputs; no test compares two runs, and it reaches formulas too large for a reference solver.",
 files=["varisat/src/load.rs","varisat/src/cdcl.rs","varisat/src/prop","varisat/src/variables.rs"],
 mech=[("loading","varisat/src/load.rs: load_clause"),("variable maps","varisat/src/variables.rs")],
 observe=["Solver::solve"],
 technique="property-based testing: metamorphic relation between a formula and its transformations",
 note=TRUST)

prop(id="S08", title="Proof generation and self checking do not disturb solving",
 statement="With self checking, a proof processor, proof output in any format or a combination switched on, every verdict, model and failed core is as correct as without, solve() neither panics nor reports an error, and the self check accepts every answer. close_proof() succeeds, after which the solver stays usable. Proofs and checks asked for after clauses were added or variables were used are refused by the documented panic, so that none is accepted that later fails.",
 over=["histories","configurations"], quant="all call histories within the documented limits of each proof format",
 why="Proof generation takes different code paths through loading, conflict analysis, minimisation and simplification; tests exercise it on a few one-shot instances.",
 files=["varisat/src/proof.rs","varisat/src/proof","varisat/src/solver.rs","varisat-checker/src"],
 mech=[("proof step translation","varisat/src/proof.rs: add_step"),("self check","varisat/src/proof.rs: self_check_delayed_steps")],
 observe=["Solver::enable_self_checking","Solver::write_proof","Solver::add_proof_processor","Solver::close_proof"],
 technique="model-based testing: generated histories with generated observers",
 note=TRUST)

prop(id="K04", title="Proof processors see a correct, well-numbered derivation",
 statement="Every step handed to a proof processor keeps the documented promises: clause ids increase and initial clauses are numbered from 0, literal lists are sorted and unique, input clauses arrive in order, the propagations of a derived or deleted clause are live clauses that propagate to a conflict in the given order, deletions name the right clause with its right redundancy and keep satisfiability, models satisfy all irredundant clauses and assumptions, and failed cores follow from the listed propagations. The outcome steps agree with what the caller of solve() sees.",
 over=["histories"], quant="all derivations produced for all call histories, and all proofs a checker accepts",
 why="The only consumer in the tests is the LRAT writer on one-shot unsatisfiable instances; incremental outcomes, deletions and ids after duplicates or conflicts are not looked at.",
 files=["varisat-checker/src","varisat/src/proof.rs","varisat/src/proof/map_step.rs","varisat/src/analyze_conflict.rs","varisat/src/unit_simplify.rs"],
 mech=[("hint generation","varisat-checker/src/rup.rs: check_clause_with_hashes"),("id assignment","varisat-checker/src/state.rs"),("clause storage","varisat-checker/src/clauses.rs")],
 observe=["ProofProcessor::process_step"],
 technique="property-based testing: generated histories, each step audited by an independent strict propagation",
 note=TRUST)

prop(id="P01", title="Native proofs are accepted by the checker and tell the whole story",
 statement="Every native proof written by the solver, for one-shot or incremental use with assumptions, sampling modes and hidden variables, is accepted by a checker that is given the clauses added before the first solve. The checker's transcript lists the calls in their order and supports each answer the solver gave: models, failed cores and unsatisfiability.",
 over=["histories","inputs"], quant="all call histories within the documented domain; formulas large enough for clause hash growth, variable renaming and reductions",
 why="Tests check proofs of a few generated families without hiding or configuration changes; acceptance depends on the whole history of hashes, hints and deletions.",
 files=["varisat/src/proof.rs","varisat/src/proof/map_step.rs","varisat-internal-proof/src","varisat-checker/src"],
 mech=[("proof writing","varisat/src/proof.rs"),("binary format","varisat-internal-proof/src/binary_format.rs"),("transcript","varisat-checker/src/transcript.rs")],
 observe=["Solver::write_proof","Checker::check_proof","ProofTranscriptProcessor::process_step"],
 technique="model-based testing: generated histories; the transcript is matched against the calls",
 note=TRUST)

prop(id="P02", title="DRAT proofs are valid",
 statement="The DRAT output, textual or binary, is well formed, and an independent checker accepts every added clause as a RUP (or RAT) consequence of the clauses present at that point. For an unsatisfiable formula the proof derives the empty clause. Deletions only name clauses that are present, so that no checker is misled. What the format cannot express (assumptions, clauses added after solving) is refused by a panic and not left out silently.",
 over=["inputs","configurations"], quant="all formulas, including duplicated and tautological clauses and conflicting units, in both encodings",
 why="Tests run external checkers, where installed, on a few unsatisfiable instances; small messy formulas and non-default configurations are not covered.",
 files=["varisat/src/proof.rs","varisat/src/proof/drat.rs","varisat/src/load.rs","varisat/src/analyze_conflict.rs","varisat/src/unit_simplify.rs"],
 mech=[("DRAT writing","varisat/src/proof/drat.rs"),("conflict clause minimisation","varisat/src/analyze_conflict.rs")],
 observe=["Solver::write_proof"],
 technique="property-based testing: every proof of a generated formula checked by an own forward DRAT checker",
 note=TRUST)

prop(id="P03", title="LRAT proofs are valid",
 statement="The LRAT output of WriteLrat, textual or compressed, written while solving or while checking any native proof, is well formed and accepted step by step by an independent LRAT checker that numbers the clauses of the formula from 1. It ends in the empty clause exactly when the solver found, or the native proof shows, that the formula is unsatisfiable; after flush() it is complete.",
 over=["inputs","configurations"], quant="all formulas, including duplicated and tautological clauses, both encodings and both routes, and all proofs a checker accepts",
 why="Tests run an external LRAT checker, where installed, on a few instances; numbering after duplicates, tautologies and conflicting units is not covered.",
 files=["varisat-lrat/src/lib.rs","varisat-checker/src","varisat/src/proof.rs"],
 mech=[("LRAT writing","varisat-lrat/src/lib.rs"),("hint generation","varisat-checker/src/rup.rs")],
 observe=["WriteLrat"],
 technique="property-based testing: every proof of a generated formula checked by an own LRAT checker",
 note=TRUST)

prop(id="S04", title="Failed assumption cores are correct",
 statement="After solve() returned false, failed_core() gives a set of current assumptions, without repetition, that together with all clauses added so far is unsatisfiable; it is empty only if the clauses alone are unsatisfiable, and it is unavailable after true. The same core is reported until the problem changes, assuming just the core fails again, and dropping the assumptions restores the answer for the clauses alone.",
 over=["inputs","histories"], quant="all formulas and assumption lists (implied, contradictory, repeated, unit-conflicting, many); formulas too hard for the reference by certificates",
 why="Tests check cores on selector chains with a known minimal core; assumptions that are implied, contradict each other or clash with unit clauses take separate paths in the core analysis.",
 files=["varisat/src/assumptions.rs","varisat/src/solver.rs","varisat/src/cdcl.rs"],
 mech=[("core extraction","varisat/src/assumptions.rs: analyze_assumption_conflict"),("assumption decisions","varisat/src/assumptions.rs: enqueue_assumption")],
 observe=["Solver::failed_core","Solver::assume"],
 technique="property-based testing: generated formulas and assumptions against DPLL; harder ones by the solver's LRAT or DRAT refutation of the clauses with the core added, checked by an own checker",
 note=TRUST)

prop(id="K01", title="The proof checker accepts nothing unsound",
 statement="Whatever proof the checker accepts, also up to the first refused step, each reported step is justified and each confirmed outcome is right for the clauses loaded and added: unsatisfiability, failed assumptions and models. No combination of steps (derivations with arbitrary hints, deletions with any stated reason, hidden, renamed, deleted and reused variables, narrow hashes) can make it confirm anything else, and no split of the steps over several check_proof() calls, with refused proofs in between.",
 over=["inputs"], quant="all proofs for all formulas; proofs are grown step by step against the checker itself or altered from real ones",
 why="Tests feed a handful of hand-written bad steps; an unsound acceptance needs a particular combination of individually accepted steps.",
 files=["varisat-checker/src/state.rs","varisat-checker/src/rup.rs","varisat-checker/src/clauses.rs","varisat-checker/src/variables.rs","varisat-checker/src/transcript.rs","varisat-checker/src/hash.rs"],
 mech=[("step checking","varisat-checker/src/state.rs: check_step"),("propagation by hashes","varisat-checker/src/rup.rs: check_clause_with_hashes")],
 observe=["Checker::check_proof","ProofProcessor::process_step","ProofTranscriptProcessor::process_step"],
 technique="property-based testing: stateful generation of forged proofs and mutation of real ones; audit of each accepted step and DPLL replay of the transcript", note=TRUST)

prop(id="K02", title="The proof checker survives arbitrary input",
 statement="For every byte string given as a proof, for any formula and with any processors attached, check_proof returns Ok or an error and never panics. The result and everything reported before do not depend on how the reader splits the data.",
 over=["inputs"], quant="all byte strings (variable numbers that are in range but would only cost gigabytes of memory are left out)",
 why="Tests only feed proofs from the solver's own writer; malformed numbers, lengths and steps are never parsed.",
 files=["varisat-internal-proof/src/binary_format.rs","varisat-internal-proof/src/vli_enc.rs","varisat-checker/src/state.rs","varisat-checker/src/clauses.rs","varisat-checker/src/transcript.rs"],
 mech=[("step parsing","varisat-internal-proof/src/binary_format.rs: Parser::parse_step"),("step checking","varisat-checker/src/state.rs: check_step")],
 observe=["Checker::check_proof"],
 technique="fuzzing: random bytes, structured steps with extreme numbers, damaged real proofs, varying chunks", note=TRUST)

prop(id="K03", title="Incomplete proofs and proofs of other formulas are refused",
 statement="A native proof cut off anywhere before its end is refused as incomplete, a read error is reported as such with its cause, and neither is ever taken for a complete proof. A proof checked against a formula with a needed clause missing is refused or confirms only what holds for that formula.",
 over=["inputs","fault_sequences"], quant="all cut and failure positions in proofs of all call histories",
 why="Tests cut no proofs; whether every prefix is recognised depends on where the cut falls within a step.",
 files=["varisat-checker/src/state.rs","varisat-internal-proof/src/binary_format.rs","varisat-internal-proof/src/vli_enc.rs"],
 mech=[("end of proof","varisat-checker/src/state.rs: check_proof")],
 observe=["Checker::check_proof"],
 technique="fault injection: every or many cut points and read errors of generated proofs", note=TRUST)

prop(id="P04", title="The native proof encoding is lossless",
 statement="Every sequence of proof steps, with any variables, hashes and list lengths, is read back exactly as written, whatever the buffering of the reader. Data that ends in the middle of a step yields the complete steps and then an unexpected-end error. Numbers are encoded with their documented variable-length format.",
 over=["inputs"], quant="all sequences of all step kinds",
 why="Unit tests sample single steps through small strategies and one buffer layout; steps across buffer boundaries, extreme variables and long lists are not covered.",
 files=["varisat-internal-proof/src/binary_format.rs","varisat-internal-proof/src/vli_enc.rs","varisat-internal-proof/src/lib.rs"],
 mech=[("writing","varisat-internal-proof/src/binary_format.rs: write_step"),("reading","varisat-internal-proof/src/binary_format.rs: Parser::parse_step"),("numbers","varisat-internal-proof/src/vli_enc.rs")],
 observe=["write_step","Parser::parse_step"],
 technique="property-based testing: round trip, prefix behaviour, own implementation of the number format", note=TRUST)

prop(id="N01", title="Results are reproducible",
 statement="The same calls in the same order on fresh solvers give the same results: verdicts, models, failed cores, variables returned by new_var and observe_internal_vars, the bytes of the proof in each format and the steps shown to proof processors. That holds whatever other solvers the process has used before or in between, and in other threads.",
 over=["histories","inputs","configurations"], quant="all call histories and formulas, run twice with unrelated solvers before and in between",
 why="No test compares two runs; iteration order of randomly seeded hash tables, process-wide state or addresses would only show as irreproducible answers and proofs.",
 files=["varisat/src/solver.rs","varisat/src/variables.rs","varisat/src/schedule.rs","varisat/src/decision","varisat/src/proof.rs","varisat-checker/src/state.rs"],
 mech=[("search","varisat/src/cdcl.rs"),("free variable names","varisat/src/variables.rs: next_unmapped_global, next_unmapped_solver, next_unmapped_user"),("clause ids and hashes","varisat-checker/src/clauses.rs")],
 observe=["Solver::solve","Solver::model","Solver::failed_core","Solver::write_proof","ProofProcessor::process_step"],
 technique="property-based testing: differential between repeated runs of generated histories",
 note=TRUST)

prop(id="S09", title="Output faults are reported and lose nothing silently",
 statement="When the target of a proof or a proof processor fails at any point, the next call of solve() or close_proof() reports exactly that error (with its cause), later calls of solve() panic with the documented message and nothing else panics; a failed processor gets no further steps. A target that only accepts small pieces or is interrupted is no fault. When solve(), close_proof() or WriteLrat::flush() succeed, every byte of the proof so far has arrived.",
 over=["fault_sequences","histories"], quant="all points of failure (byte, call, flush, step) in all call histories, all proof formats, solver and stand-alone checker",
 why="Tests use one four-byte buffer and one processor that fails at its first step; faults late in a proof, at a buffer boundary, at a flush or when closing are not reached.",
 files=["varisat/src/proof.rs","varisat/src/solver.rs","varisat/src/schedule.rs","varisat/src/state.rs","varisat-checker/src/processing.rs","varisat-lrat/src/lib.rs"],
 mech=[("error capture","varisat/src/proof.rs: handle_io_errors, handle_self_check_result"),("error report","varisat/src/solver.rs: check_for_solver_error"),("LRAT writer","varisat-lrat/src/lib.rs: flush")],
 observe=["Solver::solve","Solver::close_proof","WriteLrat::flush","Checker::check_proof"],
 technique="fault injection into generated histories, compared with the same history without the fault", note=TRUST)

prop(id="D01", title="DIMACS texts are read exactly or refused with the right error",
 statement="Reading any byte string as DIMACS CNF gives exactly the clauses, variable count and header it states, or the first error in it with its kind and line: unexpected characters, numbers beyond the supported range, malformed or contradicted headers, unterminated clauses. It never panics, and neither chunk boundaries nor taking the formula in between change the result; after an error nothing more is parsed.",
 over=["inputs"], quant="all byte strings and all ways to cut them into chunks (headers after clauses, signed zeros and unusual white space in headers: only consistency is required)",
 why="Tests parse about twenty fixed texts and round-trip well-formed output; states of the hand-written byte machine at chunk boundaries, odd line ends, comments inside clauses and limits of numbers are combinations no test has.",
 files=["varisat-dimacs/src/lib.rs"],
 mech=[("byte machine","varisat-dimacs/src/lib.rs: parse_chunk"),("header","varisat-dimacs/src/lib.rs: parse_header_line, check_header"),("end of input","varisat-dimacs/src/lib.rs: eof")],
 observe=["DimacsParser::parse","DimacsParser::parse_chunk","DimacsParser::take_formula"],
 technique="property-based testing and fuzzing: generated and damaged texts against a line-oriented reference reader, chunk by chunk", note=TRUST)

prop(id="D02", title="DIMACS output and loading are lossless and report I/O faults",
 statement="Writing a formula, whole or in parts, gives its canonical DIMACS text, and reading that back gives an equal formula including the variable count. Loading a solver or a checker from DIMACS text is the same as adding its clauses one by one. A failing reader or writer is reported with its error, and success means everything arrived; after a failed load the solver remains usable and holds only clauses from the text.",
 over=["inputs","fault_sequences"], quant="all formulas, all read and write failures, all splits of the input",
 why="One test round-trips small random formulas in memory; extreme variables, extra declared variables, partial writes, failing readers and the state of a solver after a failed load are not tested.",
 files=["varisat-dimacs/src/lib.rs","varisat/src/solver.rs","varisat-checker/src/lib.rs"],
 mech=[("writing","varisat-dimacs/src/lib.rs: write_dimacs, write_dimacs_clauses"),("incremental loading","varisat/src/solver.rs: add_dimacs_cnf")],
 observe=["write_dimacs","Solver::add_dimacs_cnf","Checker::add_dimacs_cnf"],
 technique="property-based testing: exact text, round trip, differential between loading paths, fault injection into readers and writers", note=TRUST)

prop(id="F01", title="Literals, variables and formulas follow their model",
 statement="Conversions and operations on variables and literals (indices, codes, DIMACS numbers, negation, conditional negation, mapping, order, hashing, text) agree with integers for all supported indices. A formula behaves as a list of clauses with a variable count under every sequence of operations; equality depends on nothing else. New variables, single, iterated or in tuples, are exactly the next unused ones.",
 over=["inputs","histories"], quant="all indices up to Var::max_var() and all operation sequences on formulas",
 why="Tests convert formulas from clause lists only; equality of formulas with different histories, partly used iterators, tuples of all sizes and the extreme indices are not tested.",
 files=["varisat-formula/src/lit.rs","varisat-formula/src/cnf.rs"],
 mech=[("literal encoding","varisat-formula/src/lit.rs"),("clause storage","varisat-formula/src/cnf.rs: add_clause, eq"),("new variables","varisat-formula/src/cnf.rs: NewVarIter, UniformTuple")],
 observe=["Lit","Var","CnfFormula","ExtendFormula"],
 technique="model-based testing against integers and lists", note=TRUST)

prop(id="G01", title="Configuration updates are validated, atomic and composable",
 statement="Applying an update sets exactly the given options if all are in their documented ranges and otherwise changes nothing and names an offending option; unset options keep their values and defaults are as documented. Merging updates is applying them in turn, and TOML texts denote exactly the options they list, everything unknown or of the wrong type being refused. Every option has an effect on the search, and a solver runs identically however the same settings were given, refused updates included.",
 over=["configurations","histories"], quant="all option values including boundaries, infinities and NaN, all sequences of updates",
 why="No test applies, merges or refuses a configuration update.",
 files=["varisat/src/config.rs","varisat-internal-macros/src/lib.rs","varisat/src/solver.rs","varisat/src/context.rs"],
 mech=[("range checks and update","varisat-internal-macros/src/lib.rs: derive_config_update"),("effect","varisat/src/context.rs: config_changed")],
 observe=["SolverConfigUpdate::apply","SolverConfigUpdate::merge","Solver::config"],
 technique="model-based testing of updates; differential runs compared by their proofs", note=TRUST)

prop(id="L01", title="The command line solver reports what is true",
 statement="For any input text and options, the tool prints exactly one solution line with the matching exit code (10 with a satisfying assignment, 20, or UNKNOWN with 0), or refuses invalid input and options with an error message and exit code 1. A requested proof file is complete and valid for the formula whenever a verdict is printed; if the proof cannot be written completely no verdict is printed.",
 over=["inputs","configurations","fault_sequences"], quant="all DIMACS texts from files and standard input, all combinations of options, all points at which the proof file stops accepting data",
 why="The command line tool has no tests at all.",
 files=["varisat-cli/src/main.rs","varisat-dimacs/src/lib.rs","varisat-lrat/src/lib.rs","varisat/src/proof.rs"],
 mech=[("main program","varisat-cli/src/main.rs: main_with_err")],
 observe=["exit code","standard output","proof file"],
 technique="property-based testing of the built program: reference reader and DPLL, proof checkers, limited file sizes as injected faults", note=TRUST)

prop(id="L02", title="The command line checker verifies and converts faithfully",
 statement="varisat --check prints VERIFIED with exit code 0 exactly if the checker library accepts the proof for the formula, and NOT VERIFIED with 1 otherwise. It lists the outcomes the proof establishes in order, and the LRAT files it writes are those of the library; if they cannot be written completely it does not report success.",
 over=["inputs","fault_sequences"], quant="proofs of all call histories, damaged and cut proofs, changed formulas, all points of failure of the written files",
 why="The command line tool has no tests at all.",
 files=["varisat-cli/src/check.rs","varisat-cli/src/check/transcript.rs","varisat-cli/src/main.rs","varisat-lrat/src/lib.rs"],
 mech=[("check program","varisat-cli/src/check.rs: check_main"),("transcript","varisat-cli/src/check/transcript.rs: Transcript")],
 observe=["exit code","standard output","LRAT files"],
 technique="property-based testing of the built program: differential with the library, own LRAT checker, limited file sizes as injected faults", note=TRUST)

prop(id="R01", title="Long sessions do not leak memory or variables",
 statement="A session that takes back in every round what it added (clauses over new variables, solved under assumptions, made true by fixing all these variables, which are then hidden) can go on forever: verdicts stay right, the memory in use stays at the level of the first rounds, with or without self checking and proof output, and new variables take indices that are free again.",
 over=["histories","configurations"], quant="all rounds of bounded size, repeated hundreds to tens of thousands of times",
 why="The longest test makes a handful of calls on one solver.",
 files=["varisat/src/unit_simplify.rs","varisat/src/variables.rs","varisat/src/clause/gc.rs","varisat/src/clause/db.rs","varisat-checker/src","varisat/src/proof.rs"],
 mech=[("removal of satisfied clauses and fixed variables","varisat/src/unit_simplify.rs"),("recycling of variables","varisat/src/variables.rs"),("garbage collection","varisat/src/clause/gc.rs"),("buffered names","varisat-checker/src/hash.rs")],
 observe=["Solver::new_var","Solver::solve","bytes allocated"],
 technique="property-based testing: generated rounds, repeated; a counting allocator as oracle, suspicions followed for 8 times as many rounds",
 note=TRUST)

prop(id="M01", title="Memory safety",
 statement="No sequence of calls of the public interfaces and no input (formulas, DIMACS text, proofs, configurations, failing readers and writers) makes the solver, the proof checker or the parsers access memory outside of live allocations, read uninitialised memory or create invalid values, in builds with and without debug assertions. Neither clause database reduction, garbage collection and renaming of variables while references to clauses are held, nor errors in the middle of a call leave dangling references behind.",
 over=["histories","inputs"], quant="all call histories and inputs covered by the generators of the other properties, except that the experimental aliasing models are not part of the claim",
 why="Out of bounds accesses through the unchecked pointers of propagation and clause arena need not change any result that a test compares; the tests run with debug assertions and without any tool that notices.",
 files=["varisat/src/clause/alloc.rs","varisat/src/clause.rs","varisat/src/prop/long.rs","varisat/src/prop/assignment.rs","varisat/src/clause/db.rs","varisat/src/clause/gc.rs","varisat-checker/src/clauses.rs","varisat-internal-proof/src/vli_enc.rs"],
 mech=[("clause arena","varisat/src/clause/alloc.rs"),("propagation through raw pointers","varisat/src/prop/long.rs: propagate_long"),("inline literals","varisat-checker/src/clauses.rs: LitData"),("number encoding","varisat-internal-proof/src/vli_enc.rs")],
 observe=["memory accesses of any public call"],
 technique="property-based testing: the generated cases of the other properties with AddressSanitizer (no debug assertions) and Miri as oracles",
 note="Search, not proof. The Stacked and Tree Borrows models are switched off: the raw pointer held across propagation breaks these experimental rules. Text output is interpreted by AddressSanitizer only, since the itoa 0.4 dependency is not accepted by Miri.")
