"""The table of properties: statement, slice (which functions decide it), anchors.

`slice` entries are  FILE  or  FILE::REGEX  (regex searched in the printed path of the function);
FILE is relative to crates/ and may end in '/' for a directory.
"""
S = 'cryptovampire/src/'
F = S + 'formula/'
PB = S + 'problem/'
PA = S + 'parser/'

PROPS = []


def prop(id, title, statement, over, qtext, why, slice, mech, observe, rules=(), floor=1):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, slice=slice, mech=mech,
                      observe=observe, rules=list(rules), floor=floor))


prop('P01', 'A query is reported proven only when a solver answered unsat',
     'A run reports a query as proven only if some enabled solver terminated normally on the file generated for that query and its answer was unsatisfiable. '
     'A satisfiable answer is reported as a disproof, a timeout or any other answer never counts as a proof, and any solver failure, an exhausted number of tries, or having no solver at all ends in an error; '
     'with several solvers running in parallel the first conclusive answer decides.',
     ['solver outputs', 'solver exit codes', 'interleavings of the solver threads', 'numbers of retries'],
     'for every solver output, exit code, order in which the solvers finish and number of tries',
     'tests run one installed solver on queries it proves; wrong answers, crashes, kill signals and races between solvers never occur in them',
     [S + 'runner/runners.rs', S + 'runner/z3.rs', S + 'runner/vampire.rs::Runner>::', S + 'runner/runner.rs', S + 'runner/runner_helper.rs', S + 'lib.rs::auto_run', S + 'lib.rs::run_from_ast'],
     [('answer of z3 to outcome', S + 'runner/z3.rs'), ('answer of vampire to outcome', S + 'runner/vampire.rs'), ('race of the solvers', S + 'runner/runners.rs')],
     'result of a run on a protocol file', ['verdict'], 60)

prop('P02', 'The exit status and the report tell the truth about the run',
     'Whatever the output format, a failed run is visible: with standard or quiet output the process exits non-zero, and in both JSON formats the printed value is the error. '
     'A successful run prints every result in order, one per query or per proof side, and a run that produced no result is an error.',
     ['output formats', 'results of a run', 'input formats'], 'for every output format, input format and outcome of the run',
     'the tests run one output format and look at one successful outcome',
     [S + 'main.rs', S + 'lib.rs', S + 'return_value.rs', S + 'runner/runners.rs::RunnerResult', S + 'runner/error.rs'],
     [('output match', S + 'main.rs'), ('result rendering', S + 'return_value.rs')], 'exit status, stdout and stderr', ['report'], 20)

prop('P03', 'Lemmas are proven, in order, before they are assumed',
     'With lemmas enabled, every lemma is submitted for proof in the order of the file, each one only together with the lemmas proven before it as hypotheses, and the query is submitted last with all of them. '
     'With lemmas disabled exactly the query is submitted, and in neither case is a formula assumed that was neither asserted by the user nor proven earlier.',
     ['lists of lemmas', 'lemma settings'], 'for every list of lemmas and every setting of the lemma options',
     'tests have at most a couple of lemmas and only look at the final verdict',
     [PB + 'problem/pbl_iterator.rs', PB + 'problem/mod.rs::(Problem>::generate|query|lemmas|assertions|ProblemBuilder)', S + 'lib.rs::(auto_run|run_to_dir|run_to_file|run_from_ast)', PA + 'parser/parse_step_cell_asserts/asserts.rs', PA + 'parser/declare.rs'],
     [('queue of problems', PB + 'problem/pbl_iterator.rs'), ('emission of the query', PB + 'problem/mod.rs')], 'sequence of generated problems', ['lemmas'], 20)

prop('P04', 'Formulas are rendered to SMT with the meaning they have internally',
     'Every formula, declaration and axiom of a generated problem is written to the SMT file as the SMT construct of the same meaning: same connective, same argument order, quantifiers with all their variables and sorts, '
     'negated goal for the query, and symbols and variables spelled identically at each occurrence and at their declaration. Nothing is dropped, duplicated or merged.',
     ['formulas', 'declarations', 'signatures', 'solver dialects'], 'for every formula and every list of declarations and axioms',
     'tests only look at whether a solver proves a few files; a wrong rendering can still be provable',
     [S + 'smt/smt.rs', S + 'smt/smt/display.rs', S + 'smt/mod.rs', F + 'file_descriptior/'],
     [('formula to SMT tree', S + 'smt/smt.rs'), ('SMT tree to text', S + 'smt/smt/display.rs')], 'the generated SMT file', ['smt_ops'], 90)

prop('P05', 'A generated problem contains every declaration and every axiom family',
     'The problem handed to a solver declares each sort and function in use exactly once, as a datatype or as a free function according to its kind and the chosen realm, and contains the ordering axioms, the evaluation axioms, '
     'the axioms of every cryptographic assumption, every user assertion and exactly one query. No user assertion, assumption or declaration is lost.',
     ['problems', 'option settings'], 'for every problem and every combination of options',
     'a missing axiom makes proofs fail only sometimes, and a spurious one makes false queries provable; tests sample a few true queries',
     [PB + 'problem/mod.rs', F + 'file_descriptior/', PB + 'protocol.rs', PB + 'crypto_assumptions/mod.rs::Generator'],
     [('assembly', PB + 'problem/mod.rs'), ('axioms and declarations', F + 'file_descriptior/')], 'the generated SMT file', ['assembly'], 70)

prop('P06', 'The ordering axioms describe a tree of happening steps',
     'The ordering axioms emitted for a protocol are exactly the ones of a discrete partial order on steps: strict order is non-strict order without equality, greater-than is the converse of less-than, the order is transitive and antisymmetric, total on steps that happen, with the initial step below everything and predecessors immediately below. '
     'Distinct step constructors never collide, happening steps are instances of declared steps, and each user ordering constraint is emitted under its guard and quantifier, with its two sides in the written order.',
     ['protocols', 'sets of steps', 'ordering constraints'], 'for every protocol, with any steps, parameters and user ordering constraints',
     'an unsound ordering axiom only makes more things provable, which tests on true queries cannot see',
     [PB + 'general_assertions/order.rs', PB + 'protocol/ordering.rs', PB + 'protocol.rs', PB + 'step.rs'],
     [('axioms', PB + 'general_assertions/order.rs')], 'ordering section of the generated file', ['order'], 60)

prop('P07', 'The evaluation axioms give each construct its semantics',
     'The axioms relating terms to their values interpret each connective, quantifier, conditional, equality and name of the term language as the logical construct of the same meaning, with variables and arguments in the same positions, and state congruence for every user function between equal argument tuples. '
     'Rewriting an assertion through evaluation preserves its meaning, in every realm and evaluation mode.',
     ['formulas', 'functions', 'realms'], 'for every formula, every declared function and every evaluation mode',
     'a wrong interpretation of one connective or quantifier shows only on formulas using it under specific options',
     [PB + 'general_assertions/evaluate.rs', PB + 'general_assertions/assertion_preprocessor.rs', F + 'function/inner/term_algebra/connective.rs', F + 'function/inner/term_algebra/quantifier.rs', F + 'function/inner/term_algebra/if_then_else.rs',
      F + 'function/inner/term_algebra/mod.rs', F + 'function/inner/evaluate.rs', F + 'function/inner/evaluated_fun.rs', S + 'environement/traits/realm.rs', F + 'function/inner/term_algebra/name_caster.rs', F + 'function/name_caster_collection.rs', F + 'function/inner/term_algebra/base_function.rs'],
     [('congruence and interpretation', PB + 'general_assertions/evaluate.rs'), ('propagation', PB + 'general_assertions/assertion_preprocessor.rs'), ('connectives', F + 'function/inner/term_algebra/connective.rs')], 'evaluation section of the generated file', ['evaluate'], 180)

prop('P08', 'Inputs, outputs, conditions, execution and cells unfold to their definition',
     'For every step that happens, its output, condition and execution macros are equated with the body written in the protocol, instantiated with the parameters of that very step: execution holds exactly when the conditions of all steps up to it hold. '
     'A memory cell has, at a step that assigns it, the assigned content and otherwise its value at the previous step.',
     ['protocols', 'steps', 'unfolding options'], 'for every protocol, step, cell and unfolding option',
     'the unfolding axioms differ per option and per protocol shape; tests exercise one or two combinations on provable queries',
     [PB + 'crypto_assumptions/unfolding.rs', PB + 'crypto_assumptions/cell.rs', PB + 'step.rs', PB + 'cell/', F + 'function/inner/term_algebra/step_macro.rs', F + 'function/inner/term_algebra/cell.rs', F + 'function/inner/step.rs'],
     [('unfolding axioms', PB + 'crypto_assumptions/unfolding.rs'), ('cell axioms', PB + 'crypto_assumptions/cell.rs')], 'unfolding section of the generated file', ['unfold'], 120)

prop('P09', 'A name equals a message only where the message can contain it',
     'The no-guessing axiom lets a name equal a message only under the condition that the name occurs as a subterm of that message, looking through every step, cell and definition the message can depend on, and distinct names have distinct values.',
     ['names', 'messages', 'protocols'], 'for every name, every message and every protocol',
     'an occurrence missed in some rare position makes false statements provable',
     [PB + 'crypto_assumptions/nonce.rs', PB + 'crypto_assumptions/mod.rs', F + 'function/inner/name.rs', F + 'function/inner/term_algebra/name_caster.rs'],
     [('no guessing', PB + 'crypto_assumptions/nonce.rs')], 'nonce section of the generated file', ['nonce'], 20)

prop('P10', 'Unforgeability axioms only exclude forgeries that the games exclude',
     'For hashes, MACs and signatures, the emitted axioms conclude from a valid tag or signature that an honest one on an equal message and key occurs among the terms it depends on, and only for keys that are used nowhere except as keys of the scheme. '
     'Every candidate occurrence, in every step, cell, quantified term or query, is a disjunct of the conclusion, and every key misuse disables the axiom for that key.',
     ['protocols', 'keys', 'messages', 'instances'], 'for every protocol, key, message and set of instances',
     'a missed occurrence or a weakened side condition makes the axiom unsound without making any true query fail',
     [PB + 'crypto_assumptions/uf_cma.rs', PB + 'crypto_assumptions/euf_cma.rs', PB + 'crypto_assumptions/uf_cma/', PB + 'crypto_assumptions/mod.rs'],
     [('hash and MAC', PB + 'crypto_assumptions/uf_cma.rs'), ('signatures', PB + 'crypto_assumptions/euf_cma.rs')], 'crypto section of the generated file', ['ufcma'], 100)

prop('P11', 'Ciphertext-integrity axioms only exclude forgeries that the game excludes',
     'For authenticated encryption, the emitted axioms conclude from a successful decryption that the ciphertext equals an honest encryption under the same key occurring among the terms it depends on, and only when the key is used solely as a key of the scheme and no two different encryptions share their randomness. '
     'Every candidate encryption, in every step, cell, quantified term or query, is a disjunct of the conclusion.',
     ['protocols', 'keys', 'ciphertexts', 'instances'], 'for every protocol, key, ciphertext and set of instances',
     'a missed encryption or side condition makes the axiom unsound without making any true query fail',
     [PB + 'crypto_assumptions/int_ctxt.rs', PB + 'crypto_assumptions/mod.rs'],
     [('integrity of ciphertexts', PB + 'crypto_assumptions/int_ctxt.rs')], 'crypto section of the generated file', ['intctxt'], 60)

prop('P12', 'Subterm axioms and searches see every occurrence',
     'The subterm predicates and the static search for occurrences agree with the syntactic subterm relation: they look at every argument of every function, under quantifiers and find-such-that with the bound variables and guards that apply there, and through every macro that the step order allows. '
     'Nothing is reported a non-subterm when some instance of the term contains it, for each of the subterm back ends.',
     ['formulas', 'protocols', 'subterm kinds'], 'for every formula, protocol and subterm back end',
     'completeness of a search over all formulas is not observable from a few provable queries',
     [S + 'subterm/', F + 'utils/formula_expander.rs', F + 'function/inner/subterm.rs', PB + 'crypto_assumptions/uf_cma/subterm.rs', F + 'formula/expanding_formula.rs'],
     [('subterm axioms', S + 'subterm/mod.rs'), ('expansion through macros', F + 'utils/formula_expander.rs')], 'subterm section of the generated file', ['subterm'], 150)

prop('P13', 'The dependency closure includes everything a term can depend on',
     'The set of steps and memory cells computed as dependencies of a step, cell, input or execution macro is closed: it contains every one reachable through the inputs, cells, macros and ordering used by it, transitively, and cyclic dependencies terminate.',
     ['protocols', 'dependency graphs', 'cycles'], 'for every protocol and every term over it, cyclic dependencies included',
     'a missing transitive edge is visible only on protocols with a specific chain of cells',
     [PB + 'cell_dependancies/'],
     [('graph', PB + 'cell_dependancies/graph.rs'), ('closure', PB + 'cell_dependancies/preprocessed_graph.rs')], 'subterm and crypto sections of the generated file', ['graph'], 80)

prop('P14', 'Substitution and unification respect binding and yield true unifiers',
     'Substituting terms for variables replaces exactly the free occurrences, never captures a bound variable, and fresh variables never collide with variables already in use. '
     'When two terms are reported unifiable, the returned substitution makes them equal; when they are reported not unifiable, no substitution does.',
     ['formulas', 'substitutions', 'variables'], 'for every pair of formulas and every substitution',
     'capture and collision need specific variable identifiers; unification failures need specific sharing of variables',
     [F + 'manipulation/', F + 'variable.rs', F + 'quantifier.rs', F + 'formula/arc.rs', F + 'formula/formula.rs::(apply_sub|apply|expand|translate|max_var|free|substitut)', S + 'runner/tptp.rs'],
     [('unifier', F + 'manipulation/unifier.rs'), ('substitutions', F + 'manipulation/substitution/')], 'emitted axioms', ['subst'], 100)

prop('P15', 'Each operator of the input language means what it is written as',
     'Every infix operator, connective, conditional, quantifier and lookup of the input language is parsed into the construct of the same meaning, with operands in the written order, at the logical or the term level according to where it appears. '
     'An application with the wrong number or sorts of arguments is rejected.',
     ['input files', 'terms', 'operators'], 'for every term of the input language',
     'the operator table is larger than the set of operators used in the tests, and each behaves differently per realm',
     [PA + 'parser/parsable_trait.rs', PA + 'parser/parsable_trait/', PA + 'ast/infix.rs', PA + 'ast/term.rs', PA + 'ast/application.rs', PA + 'ast/if_then_else.rs', PA + 'ast/find_such_that.rs', PA + 'ast/quantifier.rs', PA + 'ast/let_in.rs'],
     [('term parsing', PA + 'parser/parsable_trait.rs'), ('operators', PA + 'ast/infix.rs')], 'accepted terms and generated file', ['operators'], 90)

prop('P16', 'Every identifier denotes its innermost visible declaration',
     'A variable in scope hides functions, macros and outer variables of the same name and stops being visible at the end of its binder; every other identifier denotes the one declared function, sort, step, cell, macro or name. '
     'Undeclared, duplicated or reserved identifiers are rejected, and shadowing is rejected when disallowed.',
     ['input files', 'scopes', 'declarations'], 'for every input file and shadowing option',
     'wrong resolution needs a name used twice in specific scopes',
     [PA + 'parser/declare.rs', PA + 'parser/parsing_environement.rs', PA + 'parser/parsing_environement/', PA + 'parser/state.rs', PA + 'parser/guard.rs', PA + 'ast/bindings.rs', PA + 'parser/parsable_trait.rs',
      PA + 'ast/functions.rs', PA + 'ast/sorts.rs', PA + 'ast/macros.rs'],
     [('declarations', PA + 'parser/declare.rs'), ('environment', PA + 'parser/parsing_environement.rs')], 'accepted files and generated file', ['scope'], 100)

prop('P17', 'Steps, cells, assertions, orders and crypto assumptions are kept as written',
     'Each step keeps its own parameters, condition, message and assignments; each assertion, lemma, query, ordering constraint and cryptographic assumption of the file reaches the problem in its role, with its quantifiers, guard and options. '
     'A declaration with missing, duplicated, ill-sorted or unknown parts is rejected.',
     ['input files'], 'for every input file',
     'tests use a small number of declaration shapes and options',
     [PA + 'parser/parse_step_cell_asserts/', PA + 'ast/step.rs', PA + 'ast/cell.rs', PA + 'ast/assertions.rs', PA + 'ast/ordering.rs', PA + 'ast/options.rs', PA + 'ast/main.rs', PB + 'step.rs', PB + 'cell/'],
     [('steps, cells, assertions', PA + 'parser/parse_step_cell_asserts/')], 'accepted files and generated file', ['toplevel'], 60)

prop('P18', 'Command-line options select exactly the behaviour they document',
     'Each command-line option changes the setting it documents and no other: solver selection and locations, timeout, number of tries, lemma use, shadowing, output place and format, realm, subterm back end and rewriting options. '
     'Settings not mentioned keep their documented default, for every command and when no command is given.',
     ['command lines'], 'for every combination of command-line options',
     'the number of option combinations is exponential and tests use a handful',
     [S + 'cli.rs', S + 'environement/environement.rs', S + 'environement/traits/realm.rs', S + 'runner/runners.rs::TryFrom'],
     [('options', S + 'cli.rs'), ('environment', S + 'environement/environement.rs')], 'behaviour under an option', ['cli'], 80)

prop('P19', 'Solver processes and temporary files are accounted for',
     'Every solver process started during a run is waited for or killed before the run returns, on success, failure and error alike, and no solver is started after the others have been stopped. '
     'Problem files go to the requested directory and are kept exactly when one was requested; otherwise they are temporary and removed.',
     ['interleavings', 'solver failures', 'save directories'], 'for every order of solver events and every failure',
     'leaks happen only on particular interleavings or failures',
     [S + 'runner/runners.rs', S + 'runner/runner.rs', S + 'runner/runner_helper.rs', S + 'runner/z3.rs', S + 'runner/vampire.rs::Runner>::'],
     [('kill and join', S + 'runner/runners.rs'), ('temporary files', S + 'runner/runner.rs')], 'process table and file system after a run', ['processes'], 60)

prop('P20', 'A Squirrel goal is translated to a problem with the same meaning',
     'Translating a Squirrel dump keeps each operator, quantifier, tuple, projection, macro, action and lookup with its meaning and argument order, keeps hypotheses as assumptions and the goal as the query, produces both sides of a biprocess, '
     'and rejects constructs it does not support rather than dropping them. Actions are ordered as they are in the source system.',
     ['Squirrel dumps'], 'for every Squirrel dump',
     'the tests only convert a few dumps and do not compare meanings',
     [S + 'squirrel/converters/', S + 'squirrel/mod.rs', PA + 'ast/extra.rs'],
     [('terms', S + 'squirrel/converters/ast_convertion.rs'), ('top level', S + 'squirrel/converters/top_level_converter.rs')], 'converted problem', ['squirrel'], 80)

prop('P21', 'Squirrel dumps are read field by field as written',
     'Each field and variant of a Squirrel dump is read into the corresponding field and variant, under the name the dump format uses; ill-formed dumps are rejected with an error. Printing and lookup of paths, names and arities use the values read.',
     ['Squirrel dumps'], 'for every JSON input',
     'the tests read a few well-formed dumps',
     [S + 'squirrel/json/'],
     [('readers', S + 'squirrel/json/')], 'accepted dumps and converted problem', ['json'], 900)

prop('P22', 'Shared terms, functions and sorts keep identity, content and lifetime',
     'Interned sorts, functions, steps and cells are the same object exactly when they were created once, comparisons and hashes agree with each other, content is set once before it is read, and memory handed out by the arena stays valid and unaliased until the whole run ends.',
     ['allocation histories'], 'for every sequence of allocations and initialisations',
     'use-after-free, double initialisation and inconsistent equality need specific histories',
     [S + 'container/', F + 'sort/inner/', F + 'sort/mod.rs', F + 'function/function.rs', F + 'function/mod.rs', F + 'function/dispacher.rs', F + 'base_formula/', PB + 'step.rs::(Eq|Ord|Hash|Contain|Reference)'],
     [('arena', S + 'container/'), ('unsafe confinement', S + 'container/allocator.rs')], 'any run', ['container'], 150)

prop('P23', 'Errors are reported with their cause and location, never swallowed',
     'Every failure while reading, checking, generating or running is propagated to the user as an error that carries its cause and the place in the input it refers to; no error is replaced by a default result and no failed check is skipped.',
     ['inputs', 'failures'], 'for every failing input',
     'tests look at successful runs',
     [S + 'error/', PA + 'error.rs', PA + 'location.rs', 'cryptovampire_macros/', S + 'runner/error.rs', F + 'function/signature/error.rs'],
     [('error types', S + 'error/'), ('locations', PA + 'location.rs')], 'reported error', ['errors', 'located'], 60)

prop('P24', 'Files meant for standard solvers use only standard SMT-LIB',
     'A file generated for z3, or with the standard-compliance option, contains only standard SMT-LIB commands: the negated query as a plain assertion, axioms as plain assertions, and no solver-specific extension. Files for vampire mark theory axioms and the goal with its extensions, with the same logical content.',
     ['problems', 'solver targets', 'options'], 'for every problem, target and option',
     'an extension is emitted only for particular constructs and options',
     [S + 'smt/smt/display.rs', S + 'smt/smt.rs', S + 'runner/z3.rs::write', S + 'runner/vampire.rs::write', S + 'environement/environement.rs', S + 'cli.rs::(FromWith|environement)'],
     [('dialect', S + 'smt/smt/display.rs'), ('flags', S + 'environement/environement.rs')], 'the generated SMT file', ['dialect'], 60)

prop('P25', 'Formula constructors and builtin symbols denote what they are named after',
     'Building a conjunction, disjunction, negation, implication, equivalence, equality, conditional or quantifier yields that construct over the given operands in the given order, with simplifications that preserve meaning, and each builtin symbol has the name, arguments and result sort of the construct it stands for.',
     ['formulas', 'builtin symbols'], 'for every operand',
     'one wrong constructor or builtin affects only the axioms that use it, in ways provable queries do not show',
     [F + 'formula/formula.rs', F + 'formula/arc.rs', F + 'formula/expanding_formula.rs', F + 'function/builtin.rs', F + 'function/inner/booleans.rs', F + 'function/inner/if_then_else.rs', F + 'base_formula/', F + 'utils/formula_trait.rs', F + 'function/inner/predicate.rs'],
     [('constructors', F + 'formula/formula.rs'), ('builtins', F + 'function/builtin.rs')], 'emitted formulas', ['constructors'], 200)

prop('P26', 'Only well-sorted applications are accepted',
     'A function application is accepted only if its arguments have the sorts its signature requires, in order and number, with sort conversions only between a sort and its evaluated counterpart in the realm where they coincide; inferred sorts are consistent across all their uses and every sort clash is an error.',
     ['terms', 'signatures', 'realms'], 'for every term and signature',
     'sort inference depends on the whole term; tests contain few ill-sorted inputs',
     [F + 'function/signature/', F + 'sort/', F + 'function/traits.rs', F + 'function/inner/skolem.rs', F + 'function/inner/unused.rs', F + 'function/inner/invalid_function.rs', F + 'function/inner/mod.rs', F + 'function/function.rs::(signature|fast|sort)', F + 'function/inner/.*::(signature|fast_insort|fast_outsort|fixed_signature)'],
     [('signatures', F + 'function/signature/'), ('sort proxies', F + 'sort/sort_proxy.rs')], 'accepted files', ['sorts'], 180)

prop('P27', 'The grammar and syntax tree reflect the input text exactly',
     'Every accepted input is read with the precedence, grouping, keywords and comments of the documented grammar; each syntax-tree node keeps its parts in the written order and reports the text it came from, and text outside the language is rejected.',
     ['input texts'], 'for every input text',
     'tests cover a sample of syntax',
     [PA + 'mod.rs', PA + 'ast/', PA + 'pstr.rs', PA + 'location.rs'],
     [('grammar', PA + 'mod.rs'), ('syntax tree', PA + 'ast/')], 'accepted files', ['ast'], 350)

prop('P28', 'Learning from solver output only adds candidate instances',
     'Terms recovered from a solver log only extend the set of instances on which axioms are stated: each is a well-formed term over declared functions with variables disjoint from the existing ones, unreadable output is ignored, and a retry happens only when a new instance was found. The assumptions and the query stay the same across retries.',
     ['solver logs', 'numbers of tries'], 'for every solver log',
     'the modified solver whose logs are parsed is not available in the tests',
     [S + 'runner/searcher.rs', S + 'runner/tptp.rs', S + 'runner/vampire.rs', PB + 'problem/mod.rs::(extend_extra|max_var|list_top)', F + 'base_formula/', S + 'environement/environement.rs::get_function_hash'],
     [('search', S + 'runner/searcher.rs'), ('term reader', S + 'runner/tptp.rs')], 'problems of successive tries', ['learning'], 60)

prop('P29', 'The traversal and collection libraries compute what their callers rely on',
     'Iterating over a formula visits each subformula once, free variables exclude bound ones, used variables include all, and the shared collections, string references and iterator helpers preserve contents, order, equality and hashing of what they wrap.',
     ['formulas', 'collections'], 'for every formula and collection',
     'library defects need specific nesting or sharing',
     ['logic_formula/', 'utils/'],
     [('traversals', 'logic_formula/src/iterators.rs'), ('collections', 'utils/src/')], 'any run', ['libs'], 250)

prop('P30', 'The indistinguishability prototype rewrites only to equal terms',
     'Each equational rule of the prototype relates two terms that are equal in its theory, and a cryptographic step replaces an encryption only when its key and its randomness are fresh names that pass the occurrence checks on everything around it. '
     'Success is printed only when the two goal terms were merged.',
     ['terms', 'rewrite sequences'], 'for every term and every sequence of rewrites',
     'equality saturation explores rewrites that no fixed test enumerates',
     ['indistinguishability/'],
     [('rules', 'indistinguishability/src/main.rs')], 'printed proof', ['indist'], 100)


OVER = {'P01': ['inputs', 'schedules', 'fault_sequences'], 'P02': ['inputs', 'configurations', 'fault_sequences'], 'P19': ['schedules', 'fault_sequences', 'configurations'],
        'P18': ['configurations'], 'P24': ['inputs', 'configurations'], 'P07': ['inputs', 'configurations'], 'P08': ['inputs', 'configurations'], 'P03': ['inputs', 'configurations'],
        'P05': ['inputs', 'configurations'], 'P22': ['histories'], 'P28': ['inputs', 'histories'], 'P30': ['inputs', 'histories'], 'P23': ['inputs', 'fault_sequences'], 'P12': ['inputs', 'configurations']}

# properties stated but not claimed: (id, title, statement, over, quantifier text, why tests cannot, files, reason)
NOT_APPLICABLE = [
    ('N01', 'A proven query holds computationally',
     'Whenever a run reports a query as proven, the query holds against every polynomial-time attacker for every implementation satisfying the declared assumptions.',
     ['inputs'], 'for every protocol and attacker', 'soundness is a statement about all attackers',
     ['crates/cryptovampire/src/problem/', 'crates/cryptovampire/src/subterm/'],
     'the end-to-end meta-theorem quantifies over attackers and models of the emitted first-order theory and includes the external prover; static analysis decides only its ingredients, claimed as P01 and P06 to P14'),
    ('N02', 'A run ends within its time budget',
     'With a timeout and a number of tries set, a run on any input ends within about their product.',
     ['inputs', 'schedules'], 'for every input and solver behaviour', 'tests run small inputs',
     ['crates/cryptovampire/src/runner/', 'crates/cryptovampire/src/subterm/'],
     'wall-clock bounds depend on the external solvers and on the size of the generated axioms, runtime quantities with no static bound'),
    ('N03', 'Learned instances eventually suffice',
     'If a query has a proof from the axioms, enough tries find it.',
     ['inputs', 'histories'], 'for every provable query', 'tests only contain queries known to be found',
     ['crates/cryptovampire/src/runner/searcher.rs'],
     'completeness depends on the search heuristics of an external prover'),
    ('N04', 'The generated file is the same on every run',
     'Two runs on the same input with the same options generate the same file.',
     ['inputs', 'histories'], 'for every input', 'tests do not compare files',
     ['crates/cryptovampire/src/smt/', 'crates/cryptovampire/src/problem/'],
     'hash-set iteration order and address-based ordering of interned objects are runtime quantities; the tool does not promise determinism and the order of declarations does change between runs, so there is no rule to check'),
    ('N05', 'Every printed term reads back to itself',
     'Printing a parsed file or term and parsing the result gives the same tree.',
     ['inputs'], 'for every input', 'tests print nothing back',
     ['crates/cryptovampire/src/parser/ast/'],
     'round-trip equality relates the generated grammar automaton and the printers over all texts, which is not visible in the shape of either; the printers are diagnostics only'),
]

# Second ring: code outside the anchors of a property whose behaviour the property also rests on.  A difference there is
# reported under the property too.
_CORE = [F + 'formula/', F + 'quantifier.rs', F + 'variable.rs', F + 'function/builtin.rs']
_CRYPTO = [S + 'subterm/', F + 'utils/formula_expander.rs', F + 'manipulation/', PB + 'cell_dependancies/', PB + 'protocol.rs', F + 'formula/', F + 'quantifier.rs',
           PA + 'parser/parse_step_cell_asserts/assert_crypto.rs', F + 'function/inner/subterm.rs', F + 'function/builtin.rs', F + 'utils/formula_iterator.rs', 'logic_formula/']
RING = {
    'P01': [S + 'runner/', S + 'lib.rs', S + 'main.rs', S + 'return_value.rs', PB + 'problem/pbl_iterator.rs', S + 'cli.rs::Into'],
    'P02': [S + 'cli.rs', S + 'error/', S + 'runner/runners.rs', S + 'location.rs', PB + 'problem/pbl_iterator.rs'],
    'P03': [PB + 'problem/', PB + 'generator.rs', PA + 'ast/assertions.rs', PA + 'parser/parse_step_cell_asserts/asserts.rs', F + 'file_descriptior/', S + 'squirrel/mod.rs',
            S + 'squirrel/converters/top_level_converter.rs', S + 'squirrel/converters/mod.rs', S + 'lib.rs', S + 'environement/environement.rs::lemma', S + 'cli.rs::into_with',
            S + 'smt/smt.rs', PA + 'mod.rs', PA + 'parser/mod.rs'],
    'P04': [F + 'variable.rs', F + 'quantifier.rs', F + 'sort/', F + 'function/', F + 'formula/', S + 'container/utils.rs', S + 'container/container.rs', 'utils/src/string_ref.rs', 'logic_formula/src/head.rs', S + 'lib.rs::save_to_file', S + 'runner/::write'],
    'P05': [PB + 'problem/', PB + 'generator.rs', PB + 'general_assertions/', PB + 'protocol/', S + 'subterm/', S + 'smt/', PA + 'parser/parse_step_cell_asserts/', PA + 'parser/declare.rs', PA + 'parser/mod.rs',
            F + 'sort/mod.rs', F + 'function/function.rs', F + 'function/inner/unused.rs', PB + 'crypto_assumptions/', S + 'lib.rs', S + 'runner/z3.rs', S + 'runner/vampire.rs', S + 'environement/',
            S + 'runner/runner.rs'],
    'P06': [F + 'function/builtin.rs', F + 'function/inner/step.rs', F + 'function/inner/predicate.rs', PA + 'parser/parse_step_cell_asserts/order.rs', PA + 'ast/ordering.rs', S + 'squirrel/converters/convert_order.rs', F + 'quantifier.rs', PB + 'problem/mod.rs'],
    'P07': [F + 'function/inner/', F + 'formula/', F + 'function/builtin.rs', F + 'function/function.rs', F + 'function/name_caster_collection.rs', F + 'sort/', S + 'environement/', F + 'manipulation/', F + 'quantifier.rs',
            PA + 'parser/parsable_trait/', PB + 'problem/mod.rs', F + 'utils/'],
    'P08': [PB + 'protocol.rs', PB + 'protocol/', PA + 'parser/parse_step_cell_asserts/step.rs', PA + 'parser/parse_step_cell_asserts/cells.rs', PA + 'parser/parse_step_cell_asserts/assert_crypto.rs',
            F + 'manipulation/', F + 'function/builtin.rs', F + 'function/inner/', F + 'formula/', F + 'quantifier.rs', PB + 'crypto_assumptions/mod.rs', S + 'environement/environement.rs'],
    'P09': _CRYPTO + [F + 'function/inner/', PB + 'crypto_assumptions/uf_cma/', PB + 'step.rs'],
    'P10': _CRYPTO + [PB + 'step.rs', PB + 'cell/'],
    'P11': _CRYPTO + [PB + 'crypto_assumptions/uf_cma/', PB + 'crypto_assumptions/uf_cma.rs', PB + 'step.rs', PB + 'cell/'],
    'P12': [PB + 'cell_dependancies/', F + 'formula/', F + 'function/inner/', F + 'utils/', 'logic_formula/', PB + 'protocol.rs', PB + 'step.rs', PB + 'cell/', F + 'manipulation/', PB + 'crypto_assumptions/uf_cma.rs',
            PB + 'crypto_assumptions/nonce.rs', S + 'environement/environement.rs'],
    'P13': ['logic_formula/', F + 'utils/', PB + 'step.rs', PB + 'cell/', PB + 'protocol.rs', F + 'formula/', S + 'subterm/'],
    'P14': [F + 'formula/', 'logic_formula/', F + 'utils/', PB + 'problem/mod.rs', PB + 'protocol.rs', PB + 'step.rs', PB + 'cell/', F + 'base_formula/'],
    'P15': [PA + 'ast/', PA + 'parser/', F + 'function/inner/booleans.rs', F + 'function/inner/if_then_else.rs', F + 'function/inner/term_algebra/', F + 'function/builtin.rs', F + 'formula/', PA + 'mod.rs', S + 'environement/traits/realm.rs'],
    'P16': [PA + 'parser/', PA + 'ast/', S + 'container/container.rs', S + 'container/utils.rs', PA + 'mod.rs', F + 'sort/builtins.rs', F + 'function/builtin.rs'],
    'P17': [PA + 'parser/', PA + 'ast/', PA + 'mod.rs', PB + 'problem/', PB + 'protocol.rs', PB + 'protocol/', PB + 'crypto_assumptions/::try_new'],
    'P18': [S + 'runner/', S + 'lib.rs', S + 'main.rs', S + 'return_value.rs', PB + 'problem/pbl_iterator.rs', S + 'environement/'],
    'P19': [S + 'runner/', S + 'lib.rs', S + 'main.rs'],
    'P20': [S + 'squirrel/', S + 'lib.rs', PA + 'ast/', PA + 'pstr.rs'],
    'P21': [S + 'squirrel/mod.rs', S + 'squirrel/converters/helper_functions/', S + 'squirrel/converters/helper_functions.rs'],
    'P22': [F + 'function/', F + 'sort/', F + 'variable.rs', F + 'quantifier.rs', PB + 'step.rs', PB + 'cell/', 'utils/', PA + 'parser/declare.rs', PA + 'parser/parsing_environement.rs', F + 'function/name_caster_collection.rs'],
    'P24': [S + 'smt/', S + 'runner/z3.rs', S + 'runner/vampire.rs', S + 'runner/runner.rs', S + 'runner/runners.rs', S + 'cli.rs', S + 'environement/', S + 'lib.rs', F + 'file_descriptior/', S + 'subterm/', PB + 'problem/mod.rs'],
    'P25': [F + 'formula/', F + 'quantifier.rs', F + 'function/inner/', F + 'function/function.rs', F + 'utils/', F + 'variable.rs', F + 'sort/builtins.rs', F + 'manipulation/'],
    'P26': [F + 'function/', PA + 'parser/parsable_trait.rs', PA + 'parser/parsable_trait/', PA + 'parser/parse_step_cell_asserts/', PA + 'parser/declare.rs', PA + 'parser/parsing_environement.rs', S + 'environement/traits/realm.rs',
            F + 'formula/formula.rs::sort', F + 'base_formula/', S + 'runner/tptp.rs'],
    'P27': [PA + 'parser/parsable_trait.rs', PA + 'parser/declare.rs', PA + 'parser/parse_step_cell_asserts/', S + 'error/location/', S + 'lib.rs'],
    'P28': [S + 'runner/', PB + 'problem/mod.rs', PB + 'crypto_assumptions/', F + 'variable.rs', S + 'environement/environement.rs'],
    'P29': [F + 'utils/', F + 'formula/', F + 'variable.rs', F + 'base_formula/'],
}
