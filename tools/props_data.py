RM = 'runtime monitoring: '
prop('C01', 'Only theorems are proved (problems without equality)',
     'On a first-order problem without equality, goeland answers VALID (SZS Theorem or Unsatisfiable) only if the conjecture follows from the axioms '
     '(or, without a conjecture, the axioms are unsatisfiable), in every search and skolemization mode, within any reintroduction limit and under any schedule.',
     ['inputs', 'configurations', 'schedules'], 'all FOF problems without equality x {default, -inner, -preinner, -completeness, -flatten, -noeq, -vec, -eagereq, -proof} x -l N',
     'the tests run a few dozen hand-written problems, nearly all theorems; soundness speaks about every non-theorem and every interleaving of the concurrent branches',
     ['src/Search/destructive.go', 'src/Search/child_management.go', 'src/Search/rules.go', 'src/Core/skolemisation.go', 'src/Unif'],
     [('free-variable tableau search, one goroutine per branch', 'src/Search/destructive.go'), ('closure rules', 'src/Search'), ('skolemization', 'src/Core/Sko'), ('code trees and unification', 'src/Unif')],
     RM + 'verdict monitor against planted finite countermodels', 'the verdict of every run is compared with a countermodel known from the construction of the problem; thousands of (problem, mode) pairs per run',
     observe=['% RES and % SZS status lines on stdout'])
prop('C02', 'Only theorems are proved (equality reasoning)',
     'On a first-order problem with equality, goeland answers VALID only if the conjecture follows from the axioms in all normal models (equality interpreted as identity), in every search mode using the default equality engine.',
     ['inputs', 'configurations', 'schedules'], 'all FOF problems with equality x {default, -inner, -preinner, -eagereq, -increq, -completeness, -flatten, -proof} x -l N',
     'tests only contain equational theorems and a handful of refuted goals; a wrong superposition, ordering or substitution only shows on non-theorems that no test contains',
     ['src/Mods/equality/bse', 'src/Mods/equality/eqStruct', 'src/Search/destructive.go'],
     [('rigid basic superposition with LPO constraints', 'src/Mods/equality/bse'), ('equality problems built from the literals of a branch', 'src/Mods/equality/bse/equality_problem.go')],
     RM + 'verdict monitor against planted finite countermodels', 'as C01 with random finite models interpreting function symbols, so every axiom is an arbitrary true (dis)equation',
     observe=['% RES and % SZS status lines on stdout'])
prop('C03', 'Only theorems are proved with the SAT-based equality engine',
     'With -sateq, goeland answers VALID only if the conjecture follows from the axioms in all normal models, whatever substitution the SAT solver happens to return.',
     ['inputs', 'configurations', 'schedules'], 'all FOF problems with equality x {-sateq with default, -inner, -preinner, -completeness, -eagereq}',
     'no end-to-end test uses -sateq on a non-theorem; the encoding is only exercised on a few solvable goals',
     ['src/Mods/equality/sateq'],
     [('congruence closure over classes', 'src/Mods/equality/sateq/problem.go'), ('SAT encoding of rigid E-unification', 'src/Mods/equality/sateq/satbuilder.go'), ('solution read back', 'src/Mods/equality/sateq/subsgatherer.go')],
     RM + 'verdict monitor against planted finite countermodels', 'same oracle as C02; the engine is the SAT-based one',
     observe=['% RES and % SZS status lines on stdout'])
prop('C04', 'Ground problems are decided',
     'On a problem without quantifiers and with a small number of literals, a run with -one_step and enough reintroductions answers VALID exactly when the problem is a theorem (or unsatisfiable) and NOT VALID exactly when it is not, '
     'with and without equality and with either equality engine; the SZS status is the matching one of Theorem / Unsatisfiable / CounterSatisfiable / Satisfiable.',
     ['inputs', 'configurations', 'schedules'], 'ground FOF problems (propositional, with predicates and functions, with equality) x search modes',
     'tests contain no exhaustive decision; deciding means both answers are right for every boolean combination',
     ['src/Search/destructive.go', 'src/Search/rules.go', 'src/AST/formsDef.go', 'src/Core/form_list.go', 'src/Mods/equality'],
     [('expansion rules for every connective and its negation', 'src/Search/rules.go'), ('closure rules', 'src/Search/destructive.go')],
     RM + 'verdict monitor against an independent decision procedure', 'every answer is compared with a truth-table / congruence-closure decision of the same problem',
     observe=['% RES and % SZS status lines on stdout'])
prop('C05', 'Reachable theorems are proved',
     'A theorem for which the fair search finds a proof quickly is answered VALID, whatever the schedule, in each of the search modes: proving power is not lost. '
     '(Bounded reading: a corpus of 1027 theorems, each with the modes that prove it in milliseconds in repeated runs under several schedules.)',
     ['inputs', 'configurations', 'schedules'], 'corpus/theorems.json: 13 families (classical, equivalences, Horn chains, clause sets, ground, equational, mutants of theorems) x 13 modes',
     'the suite proves about 60 fixed problems in one mode each; an incompleteness shows on shapes and modes not among them',
     ['src/Search', 'src/Core', 'src/Unif', 'src/Mods/equality', 'src/Mods/dmt'],
     [('iterative deepening and reintroduction', 'src/Search/destructive.go'), ('substitution exchange between branches', 'src/Search/child_management.go'), ('unification', 'src/Unif')],
     RM + 'verdict monitor on calibrated theorems', 'a failure counts only when it repeats twice with 30 s and an idle machine, and the theorem was calibrated as proved in under 0.5 s',
     observe=['% RES lines on stdout'])
prop('C08', 'No data race, deadlock or runtime failure',
     'Under every schedule of the concurrent branches (one goroutine per branch), a run has no data race, never ends in a deadlock report of the Go runtime, a concurrent map access or another panic, in search, equality, DMT and proof output.',
     ['schedules', 'inputs', 'configurations'], 'branching problems x 22 option sets x GOMAXPROCS 2/4/8, race-instrumented build',
     'the tests are not run with the race detector and never look at interleavings',
     ['src/Search', 'src/Glob', 'src/AST/maker.go', 'src/Core/Sko', 'src/Mods'],
     [('goroutine per beta branch, channels between father and children', 'src/Search/children.go'), ('shared counters and tables under mutexes', 'src/AST/maker.go'), ('equality problems solved concurrently', 'src/Mods/equality/bse')],
     'compiler sanitizer: Go race detector and runtime checks on stress workloads', 'happens-before race detection on the real search; deduplicated by the pair of functions involved',
     state=['Glob counters', 'AST identifier and metavariable tables', 'node counters', 'the shared printer'], observe=['race reports and panics on stderr'])
prop('C17', 'Rocq proofs are accepted by the Rocq kernel and prove the problem',
     'Whenever goeland answers VALID with -orocq -context on an untyped first-order problem, it prints a Rocq file that the Rocq kernel accepts, which assumes nothing but the symbols of the problem, and whose theorem states the given axioms and conjecture.',
     ['inputs', 'configurations', 'schedules'], 'theorems (corpus and random) x {default, -completeness, -sateq, -eagereq, -increq, -noeq, -inner, -preinner, -dmt}',
     'no test runs Rocq; printed proofs are compared with golden files at best',
     ['src/Mods/rocq', 'src/Mods/gs3', 'src/Core/global_unifier.go', 'src/Search/proof-struct.go'],
     [('tableau to GS3 sequent proof, deskolemization', 'src/Mods/gs3/proof.go'), ('Rocq printer', 'src/Mods/rocq'), ('final substitution of the proof', 'src/Core/global_unifier.go')],
     RM + 'proof checking of the output by coqc, plus a statement comparison', 'an accepted kernel proof of the right statement is a certificate that the run was right; every printed proof is judged',
     observe=['the text between the SZS output markers'])
prop('C18', 'TPTP and SC-TPTP proofs are correct derivations of the problem',
     'Whenever goeland answers VALID with -otptp or -osctptp on an untyped first-order problem, it prints a sequence of TPTP sequents in which every step follows from its premises by the named rule, '
     'eigenvariables are fresh, no step uses an unknown or later step, the root is the conjecture, and the axioms and the conjecture are those of the problem.',
     ['inputs', 'configurations', 'schedules'], 'theorems (corpus and random) x {-otptp, -osctptp} x {default, -inner, -preinner, -completeness, -sateq, -eagereq, -increq}',
     'no test reads a TPTP proof',
     ['src/Mods/tptp', 'src/Mods/gs3', 'src/Core/global_unifier.go', 'src/AST/quantifiers.go'],
     [('tableau to GS3 sequent proof', 'src/Mods/gs3'), ('SC-TPTP printer', 'src/Mods/tptp')],
     RM + 'offline proof checker over the printed derivation', 'an independent checker (parser, rule by rule, congruence closure for the leaves) verifies every step of every printed proof',
     observe=['the text between the SZS output markers'])
prop('C07', 'Only theorems are proved when axioms become rewrite rules',
     'With -dmt (and -polarized, -presko), turning axioms into rewrite rules never proves more than the axioms say: goeland answers VALID only if the conjecture follows from the axioms of the problem.',
     ['inputs', 'configurations', 'schedules'], 'FOF problems with definitional axioms (equivalences, implications, atoms, negations, with argument patterns and quantified bodies) x 10 DMT modes',
     'the tests hold a few rewriting theorems and no non-theorem with a rewritable axiom; a wrong polarity or an unguarded instantiation only shows on non-theorems',
     ['src/Mods/dmt', 'src/Search/rules.go'],
     [('axioms registered as rewrite rules', 'src/Mods/dmt/axiom_registration.go'), ('rewriting of atoms during the search', 'src/Mods/dmt/rewrite.go')],
     RM + 'verdict monitor against planted finite countermodels', 'each problem is built from definitional axioms true in a random finite model that refutes the conjecture; any VALID is wrong',
     observe=['% RES and % SZS status lines on stdout'])
prop('C12', 'A problem is understood as its concrete syntax says',
     'For every well-formed FOF or monomorphic TFF problem, the formulas that are searched are the formulas of the file: each connective, quantifier, precedence, quoted name, number, comment, annotation and role '
     'is read as the TPTP language defines it, and no axiom or conjecture is dropped, altered or invented.',
     ['inputs'], 'random annotated formulas printed with as few parentheses as the grammar allows, FOF and TFF',
     'tests parse a fixed list of files; a misread connective, a swallowed comment or a lost axiom changes the meaning of files that no test contains',
     ['src/Parser/tptp_lex.go', 'src/Parser/tptp_parse.y', 'src/Engine', 'src/main.go'],
     [('lexer', 'src/Parser/tptp_lex.go'), ('grammar', 'src/Parser/tptp_parse.y'), ('elaboration to the internal syntax', 'src/Engine')],
     RM + 'offline comparison of the dumped problem with the generated formulas', 'the formulas printed by a proof run are compared with the intended formulas up to variable names and propositional equivalence',
     observe=['the axioms and the conjecture printed with the proof'])
prop('C13', 'Include directives stand for the formulas they name',
     'A problem spread over included files is searched as the same problem in one piece: an include directive stands for the statements of the file (all of them, or those of its selection), the file being looked for '
     'from the working directory, beside the including file and under $TPTP, also when files are nested or included twice; a missing, cyclic or malformed file is refused with an error.',
     ['inputs'], 'random FOF/TFF problems over trees of up to 15 files in three roots, and the theorems of the corpus',
     'the suite includes one or two fixed files; selections, nested directories, precedence and files that bring the first equation or type are not sampled',
     ['src/main.go', 'src/Parser/tptp_parse.y', 'src/Parser/psyntax.go'],
     [('recursive inclusion and file lookup', 'src/main.go'), ('selection of statements', 'src/Parser/psyntax.go')],
     RM + 'offline comparison of the dumped problem with the intended one, and verdict comparison with the problem in one piece', 'the formulas printed by a proof run of the tree of files are compared with those the tree was made from, decoys included',
     observe=['the axioms and the conjecture printed with the proof', '% RES lines'])
prop('C14', 'What is not a TPTP problem gets no verdict',
     'A text that the TPTP grammar does not generate, or a formula with a variable that no quantifier binds, is refused: a message that says error, a non-zero exit status, no RES or SZS line, no crash and no endless loop, whatever the bytes. '
     'A text that is still well-formed is not a syntax error.',
     ['inputs'], 'well-formed FOF problems altered by one or two edits of tokens, characters (control characters, non-ASCII bytes), comments or variables',
     'the tests parse valid files and a handful of errors; a malformed text silently read as another problem gives a verdict about a problem nobody wrote',
     ['src/Parser/tptp_lex.go', 'src/Parser/tptp_parse.y', 'src/Engine/syntax-translation.go'],
     [('lexer', 'src/Parser/tptp_lex.go'), ('grammar', 'src/Parser/tptp_parse.y'), ('scoping', 'src/Engine/syntax-translation.go')],
     RM + 'verdict monitor against an independent recognizer of the TPTP grammar', 'the altered text is judged by a separate recognizer written from the TPTP BNF; contradictory axioms make any accepted text answer VALID at once',
     observe=['exit status, RES/SZS lines and messages'])
prop('C23', 'Unification is sound, complete and most general',
     'Querying a code tree with an atom returns every stored atom that unifies with it and no other, each with a most general unifier in solved form; unifying two terms and merging two substitutions '
     'succeed exactly when a unifier exists and give a most general one; a query leaves the tree as it was, and concurrent queries do not disturb each other.',
     ['inputs', 'histories', 'schedules'], 'sets of up to 8 atoms and 4 queries x 2 passes, with metavariables shared between tree and query, nested terms of depth 3',
     'tests unify a few dozen pairs; the abstract machine has states (locked blocks, pushed positions, compared occurrences) that only special shapes of atoms reach',
     ['src/Unif'],
     [('code tree of instructions', 'src/Unif/code-trees.go'), ('abstract machine', 'src/Unif/machine.go'), ('substitutions in solved form', 'src/Unif/substitutions_type.go'), ('merging', 'src/Unif/substitutions_tree.go')],
     RM + 'online monitor of the exported unification functions against a reference algorithm', 'every answer is compared with a textbook unification; the same binary is run under the race detector',
     observe=['Node.Unify, UnifyTerms/AddUnification, MergeSubstitutions, Eliminate'])
prop('C06', 'Only theorems are proved in many-sorted and polymorphic logic',
     'On a well-typed TFF problem with several sorts, type constructors and polymorphic symbols and axioms, goeland answers VALID only if the conjecture holds in every typed model of the axioms: '
     'an instance is only taken at the type of the variable, and a polymorphic symbol at distinct types is distinct symbols.',
     ['inputs', 'configurations', 'schedules'], 'random typed problems (up to 3 sorts, a type constructor, polymorphic functions and predicates, axioms quantified over types, equality) x 10 modes',
     'the typed tests are a dozen theorems and type errors; none is a typed non-theorem, on which only a mixed-up type would give a proof',
     ['src/Typing', 'src/Engine', 'src/Core', 'src/Unif', 'src/Mods/equality', 'src/AST/ty-syntax.go'],
     [('type arguments elaborated and unified', 'src/Engine/syntax-translation.go'), ('typed metavariables and Skolem symbols', 'src/Core'), ('equalities with their types', 'src/Mods/equality/bse')],
     RM + 'verdict monitor against planted finite typed models', 'each problem is refuted by a random finite model over a finite universe of types; any VALID is wrong',
     observe=['% RES and % SZS status lines on stdout'])
prop('C10', 'Reporting options do not change the verdict',
     'Asking for a proof (in any output format), pretty printing, logs, traces, profiles, debug output or quiet output does not change the answer to a problem: the status is the one of the run without these options.',
     ['inputs', 'configurations'], 'theorems and ground non-theorems x random combinations of 18 reporting options x 9 search modes',
     'the tests use one fixed combination per file; printing shares state with the search (printers, identifiers, logs) and a proof is only built when asked for',
     ['src/options.go', 'src/main.go', 'src/Search/search.go', 'src/Search/print_proof.go', 'src/Glob', 'src/Mods/gs3', 'src/Mods/tptp', 'src/Mods/rocq'],
     [('options', 'src/options.go'), ('proof building and printing', 'src/Search/print_proof.go')],
     RM + 'comparison of the verdict with the known status', 'the status of every run is known (theorem corpus, ground problems decided by z3); a difference is confirmed by two bare and two repeated runs',
     observe=['% SZS status lines on stdout'])
prop('C22', 'Results are reported as SZS requires',
     'A finished run prints exactly one SZS status line, for the right problem name and of the kind that fits the problem (Theorem or CounterSatisfiable with a conjecture, Unsatisfiable or Satisfiable without), '
     'consistent with its RES line and exit code 0; proof text appears exactly once between matching start and end markers, exactly when a proof was requested and found.',
     ['inputs', 'configurations'], 'theorems and ground non-theorems, with conjecture, negated conjecture or none, x file names x reporting and proof options',
     'the tests compare the RES line of fixed problems; the status kind, the problem name and the markers depend on options, role and path',
     ['src/Search/search.go', 'src/Search/print_proof.go', 'src/main.go', 'src/Glob/printer.go'],
     [('result printing', 'src/Search/search.go'), ('proof markers', 'src/Search/print_proof.go')],
     RM + 'offline checker of the lines printed', 'an automaton over the output lines of every run, with the status known from the construction of the problem',
     observe=['stdout and the exit code'])
prop('C24', 'A proof asked for in several formats is printed and written in each of them',
     'When several proof formats are asked for in one run, every one of them is printed between the proof markers and nothing else is; with -wlogs each one is also written to the file named by -proof_file with the extension of its format, '
     'with exactly the printed text, and no other proof file is written; each of these proofs is as good as if it had been asked for alone: the TPTP or SC-TPTP one is a correct proof of the problem and the Rocq one is accepted by the Rocq kernel.',
     ['inputs', 'configurations'], 'theorems (corpus and random) x combinations of -proof, -otptp or -osctptp, -orocq -context x search modes x -proof_file',
     'no test asks for two formats or reads the proof files; the printers are global state that one format changes for the next',
     ['src/Search/print_proof.go', 'src/options.go', 'src/Mods/rocq/output.go', 'src/Mods/tptp/output.go', 'src/AST/modular-printing.go'],
     [('list of proof outputs', 'src/Search/print_proof.go'), ('global printer', 'src/AST/modular-printing.go'), ('proof file options', 'src/options.go')],
     RM + 'comparison of the files with the text printed, and proof checking of each of them', 'the monitors of C17 and C18 judge every output of the same run',
     state=['the shared printer', 'the proof tree given to each output'], observe=['stdout and the proof files'])
prop('C16', 'Exactly the well-typed problems are accepted',
     'A typed problem that is well-typed is searched, and one that is not - a term of another type, a wrong number of arguments or type arguments, an equality between two types, an unbound variable or type variable, '
     'an unknown type or symbol, a misapplied type constructor, a predicate as a term or a function as a formula - is rejected with an error and no verdict, wherever in the problem the error is and whatever the schedule of the concurrent type checker.',
     ['inputs', 'schedules'], 'random TFF and TF1 problems, as generated or after one of 14 kinds of mutation at a random place, x GOMAXPROCS 1/2/8',
     'the tests hold about twenty ill-typed files; the checker runs one goroutine per sub-formula and a lost answer only shows on some positions and schedules',
     ['src/Typing', 'src/Engine', 'src/AST/ty-syntax.go', 'src/Lib/par.go'],
     [('typing rules', 'src/Typing/rules.go'), ('typing context', 'src/Typing/env-and-context.go'), ('elaboration of type arguments', 'src/Engine/pretyper.go')],
     RM + 'accept/reject monitor against the typing status known by construction', 'well-typed by construction, or made ill-typed by one mutation; the contradiction in the problem makes acceptance visible as a verdict',
     observe=['verdict lines and exit code'])
prop('C15', 'Well-formed problems never crash goeland',
     'On a well-formed, well-typed problem, every combination of the documented search, proof and reporting options ends with a verdict or keeps searching: never with a panic, a runtime error, an internal error ("anomaly"), an error message or a non-zero exit status.',
     ['inputs', 'configurations', 'schedules'], 'FOF, TFF and TF1 problems (theorems, non-theorems, degenerate formulas) x random combinations of 16 search, 8 proof and 18 reporting options',
     'the tests run one or two options per file; internal errors appear on combinations of a shape, an option and a schedule',
     ['src/options.go', 'src/main.go', 'src/Search', 'src/Mods', 'src/Core', 'src/AST'],
     [('option handling', 'src/options.go'), ('internal assertions of the search', 'src/Search'), ('proof translation', 'src/Mods/gs3')],
     RM + 'crash monitor on random problems and option combinations', 'the Go runtime checks and the assertions of the program itself (Anomaly, Fatal) are the sanitizers; any of their reports on a well-formed problem is a violation',
     observe=['exit status, stdout and stderr'])
prop('C19', 'Without -one_step a theorem is never given up',
     'Without -one_step, a run on a theorem never answers NOT VALID: the reintroduction limit, whatever its initial value (the number of quantifiers of the whole problem, included files and quantifiers over types counted, or -l), grows until a proof is found, '
     'and a theorem that needs few instances of few quantifiers is found.',
     ['inputs', 'configurations', 'schedules'], 'theorems (FOF, TFF, TF1; one file or spread over includes) x {default, -inner, -preinner, -completeness, -sateq, -eagereq, -flatten, -vec} x {no -l, -l 1..3}',
     'the tests only hold theorems that the first round proves; a limit that stops growing, or a round that is not started, shows on theorems with one quantifier and many instances',
     ['src/Search/destructive.go', 'src/main.go', 'src/Parser/tptp_lex.go', 'src/Core/form_and_terms_list.go'],
     [('iterative deepening', 'src/Search/destructive.go'), ('initial limit', 'src/main.go'), ('counting of quantifiers', 'src/Parser/tptp_lex.go')],
     RM + 'verdict monitor on theorems by construction', 'the status is known from the construction of the problem; NOT VALID is a violation at once, a missing proof of a small theorem after two longer runs',
     observe=['% RES and % SZS status lines on stdout'])
prop('C11', 'Names do not matter',
     'Renaming the symbols and variables of a problem by other legal names (names that goeland uses for Skolem symbols, metavariables, proof steps, lemmas or output keywords, words reserved by Rocq, quoted names that look like variables, numbers, '
     'formulas or comments, any name of the problem file) changes neither the verdict nor the validity of the proofs printed with -otptp, -osctptp and -orocq.',
     ['inputs', 'configurations', 'schedules'], 'FOF theorems and problems with a countermodel x injective renamings from pools of hostile names x 6 search modes x 3 proof formats',
     'the tests use p, q, a, b; a collision needs the very name that the program generates or reserves',
     ['src/Parser/tptp_lex.go', 'src/Engine', 'src/Core/Sko', 'src/AST/maker.go', 'src/Mods/tptp', 'src/Mods/rocq', 'src/Mods/gs3'],
     [('names of symbols', 'src/Parser/tptp_lex.go'), ('names of Skolem symbols', 'src/Core/Sko/interface.go'), ('identifiers of the printed proofs', 'src/Mods/rocq/output.go')],
     RM + 'metamorphic verdict monitor and proof checkers on renamed problems', 'the status of the original problem is known by construction and renaming preserves it; proofs go through the checkers of C17 (coqc) and C18',
     observe=['verdict lines', 'printed proofs'])
