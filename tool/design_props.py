"""per-property section of DESIGN.md"""
P = {
'C01': ('Escape analysis: for every function the set of (exception type, origin) that can leave its body is the least fixpoint over the call graph of `throw`s, throwing standard functions (stod, at, substr at a '
  'non-zero position, bad_function_call, ...), calls and lambdas, minus what enclosing handlers match (class hierarchy included). A non-throwing function, lambda or destructor with a non-empty set is a violation, unless '
  'the throw is guarded by a condition that the arguments of the call contradict or that depends on shapes only; the shape-only ones are decided by interpreting the function on all operand shapes.',
  'Out of memory, length_error and stream buffers are out of scope. A guard that the escape rule cannot decide is interpreted (C01 `shape` group).'),
'C02': ('The operations are interpreted on chains of height 8 and 16 (left, right, alternating, unary, mixed; texts of twelve kinds) and the maximal call depth, destructors and implicit copies included, must be the same; call-graph cycles '
  'reachable from public operations are reported with the operand that drives them; applications of the recursive std::regex matcher to texts of unbounded length are violations.',
  'Same depth at heights 8 and 16 stands for every height.'),
'C03': ('Every operation that returns or rewrites an expression is interpreted on the tree families in every value category; the resulting heap is checked: root without parent, child links, arity per operator, no released node, '
  'no node owned twice.', 'Tree families as above; 47 k obligations.'),
'C04': ('Diff (with its simplification) is interpreted on every operator over every operand kind and on the pattern families, orders 1–3; the result is read back as a term and compared with the derivative term computed by the rule table in '
  '`trees.py`. &, |, % must raise runtime_error.', 'Compared where the derivative is defined; 0^p is taken as documented.'),
'C05': ('Simplify is interpreted on every operator over constants, 0, 1, -1, variables and compound operands with all special values as separate traces; on each trace the simplified term equals the original wherever both are valid; constant subtrees without valid '
  'value stay.', 'Documented exception 0^x = 0.'),
'C06': ('The printer\'s name of each operator (constant propagation) and the tokens of the printed text of each operator are read by the interpreted tokenizer; aliases, prefixes, extensions, case variants and names that collide in the hash used by the reader must not be functions.', 'Other identifiers are represented by symbolic characters and hash classes.'),
'C07': ('ToString is interpreted on every enclosing operator over every enclosed one at either side, chains, pattern families, constants of either sign; the text is parsed by the interpreted parser and the value of the tree read back must equal the original term '
  '(re-association of + and * chains allowed).', 'Digits of constants are abstract except for sign, except for constants printed exactly.'),
'C08': ('The parser is interpreted on token patterns with symbolic operator characters and signs (every trace of tokenizer, shunting yard, tree builder) and the tree is compared with a reference grammar; long chains and nested parentheses in addition.', 'Up to 3 binary operators per pattern (thorough: 4), long texts sampled.'),
'C09': ('The scalar evaluator is interpreted for each operator with operand classes finite/inf/NaN; its result term must be the operator\'s function applied to operands in order; tree evaluation is compared with composition; throwOnInvalidValue partitioned.', 'libm functions trusted.'),
'C10': ('At every conversion double→integer, integer /, %, and signed arithmetic met by the interpretation of evaluation, simplification, differentiation and matrix helpers, the facts of the trace must exclude zero divisors, out-of-range values and overflow. Who can reach such operations is taken from the call graph.', 'int 32 bit, long long 64 bit.'),
'C11': ('Parse is interpreted on all sequences of up to N items (operand, function, symbolic operator character, blank, arbitrary character), all short texts of symbolic characters over 256 values, and random token soups: each trace ends with a well-formed tree or a ParseError; empty-container access and null dereference are typestate violations; positions lie in the text and the text is shown.', 'N=4 items / 3 characters (thorough 5/4).'),
'C12': ('Every operator template, function, Diff, Subs and compound assignment is interpreted with each operand as lvalue, const lvalue and rvalue (also the same object twice): lvalue operands unchanged, nothing shared, result = operator applied; compound assignment = operator + assignment.', 'Tree families.'),
'C13': ('Clone, copy construction/assignment, move construction/assignment are interpreted on the families; Equal is interpreted on pairs that differ in exactly one part at each node, and on equal pairs, aliasing included.', 'Tree families.'),
'C14': ('Every overload of Subs is interpreted with swaps, growth, absent/prefix names, aliased replacements, NaN/inf numbers; result compared with simultaneous replacement; replacement unchanged and unshared.', 'Tree families.'),
'C15': ('Name test and Var are interpreted on names of symbolic characters (all 256 values, embedded NUL): per trace, the set of names must be entirely legal if a node is created, entirely illegal if an error is raised. Every construction of a VARIABLE node in the call graph must be dominated by the test or copy an existing name.', 'Symbolic names up to 3 characters (thorough 4), longer ones around symbolic characters.'),
'C16': ('Every Mat/Vec operation is interpreted with symbolic entries on every shape up to the bound; each entry of the result must be the term of its defining formula; operands unchanged; out-of-range element access is a violation.', 'Shapes up to 3x4 (thorough 5x5) plus long ones.'),
'C17': ('The solvers are interpreted on systems of m equations in n unknowns with loops replaced by invariants and assertions enabled; operand shapes of each matrix operation must agree on each trace.', 'm, n ≤ 3; any number of iterations.'),
'C18': ('SolveLinear is interpreted with symbolic coefficients, right-hand side, tolerance and options; traces are partitioned by its own tests. The returned *terms* are judged by exact rational identity testing on systems of every rank structure: Ax=b must hold; contradictory/ambiguous/over-/underdetermined ones must end in the documented error; every denominator formed on a trace is ≥ tolerance and equals the largest pivot in its column.', 'Shapes ≤ 3x3 (thorough 3x4), exact arithmetic; also magnitudes 1e-9…1e9 and near constants harvested from the source.'),
'C19': ('Each way to build a table followed by each update is interpreted with symbolic values; list of names, vector of values, lookup, iteration, comparison, printing and count must give the reference association; unknown names raise out_of_range.', 'Up to four names in all kinds of order.'),
'C20': ('Solvers interpreted with loop invariants (arbitrary initial values, tolerance, linear-solver answers): on each returning trace the residual terms at the returned values must be implied below tolerance by the facts of the trace; caller\'s table and equations unchanged.', 'Eight systems.'),
'C21': ('For each loop that evaluates equations, solves systems or calls function objects one integer must strictly grow (shrink) from head to back edge on every trace and be compared with a bound unchanged by the loop on every trace that continues, NaN included. Diff must perform exactly the requested number of passes.', 'Loops over containers are covered by C02/C27.'),
'C22': ('At each call of the (arbitrary) linear solver there must be one vector c of the state such that matrix and right-hand side are Jacobian and residual at c (or their Levenberg-Marquardt combination), and c is followed over the back edges: next c = c + scaled answer; rejected trial steps leave c; first c = initial values.', 'Six systems.'),
'C23': ('For every log level, the functions are traversed from each public entry point following only branches the level admits (conditions on the level are evaluated through locals, helpers, negations); every write to a standard stream must be unreachable below the level of its message.', 'Conditions not depending on the level go either way.'),
'C24': ('Construction and Reset (from arbitrary fields) interpreted: each documented default; Get returns one object on every trace; effect analysis: no use of a configuration field outside Reset may modify it (assignment, non-const reference, address, non-const member).', '—'),
'C25': ('Effect analysis: no writable static storage besides the configuration, no `mutable`, no cast that drops const and is written through, no library call with hidden state (strtok, rand, setlocale, ...); in addition each public operation is interpreted with watched constant operands.', 'Iterative solvers up to one iteration.'),
'C26': ('The message table is evaluated for each enumerator; MathError is built for each kind with/without (long, quoted, multi-line) extra text, copied and read back; parse errors likewise; every `throw` kind and each re-throw passes its kind to the public function.', '—'),
'C27': ('Ownership typestate in the interpreter: released / owned / loose for each node, destructors and unwinding executed at scope exit, double release, use after release, two owners, and never-released nodes are violations; exceptions are injected by the operations themselves (invalid values).', 'Tree families; temporaries live to the end of the function.'),
'C28': ('Public declarations of the headers and of the single header are compared (signature, defaults, noexcept, const, static, fields, enumerators); every definition of the single header must be inline/template/constexpr-safe; inline functions may not refer to per-unit objects; umbrella header reaches everything; every declared public function is defined exactly once.', '—'),
'C29': ('Jacobian interpreted for all numbers of equations and variables up to the bound, with equations that contain all/some/none of the variables, in several variable orders; entry (i,j) compared with the derivative term.', 'Up to 4x4 (thorough 5).'),
'C30': ('Each SymMat/SymVec operation interpreted with a distinct expression in each entry, all shapes up to the bound, entries from the pattern families; entries, shape, operands, errors.', 'Shapes up to 3x3 plus long ones (thorough 4x4).'),
'C35': ('`GetAllVarNames` interpreted on patterns of every operator over every operand kind, prefixes/repeats/long names, 60 variables, tall and wide trees; the returned set compared with the set of names of the tree, the tree compared with itself before.', 'Patterns to height 3; thorough: all of them.'),
'C36': ('`ToString` and `operator<<` of Mat, Vec, SymMat, SymVec, VarsTable and Node interpreted with one distinct entry per place; numbers print as an opaque text per number; the text is compared piece by piece with the layout.', 'Shapes to 4x4 plus 1x9…9x9, 1x40; tables of up to 40 names.'),
'C37': ('Every operator template instance (3x3 value categories), compound assignment, unary operator, function and constructor of constants/variables interpreted with operands of every kind; the result compared with the node named, the operands in order.', 'Operands: pattern families, special constants, large trees.'),
'C38': ('Relational interpretation: each public operation runs with logging off and then, along the same trace (same operands, decisions kept), at every other level; result, exception, operands afterwards are compared as deep values. For operations whose traces are cut off (solver loops) the jumps in their loops are collected per level.', 'Matrices 1x1 to 3x3, four kinds of expressions; up to two solver iterations with an arbitrary linear solution and step length.'),
'C39': ('Simplify interpreted twice along the same trace; results compared structurally; the result searched for operators over numbers with a valid value (identity testing) and for the listed neutral/absorbing patterns. The same for the result of Diff.', 'Tree families of C05 plus chains of constants and large trees.'),
'C40': ('The parser interpreted on texts whose operands are words of every kind, next to every operator, bracket, sign, function and blank; each leaf of the tree compared with the word that stands there, the tree with the reference grammar.', 'About 500 words in some 4000 texts of up to 300 words, both distributions.'),
'C41': ('Each public operation interpreted with operands that make it fail; on each trace that raises, every object the caller still holds is walked: well-formed, unchanged unless handed over, matrix entries as before or already replaced by a number.', 'Eight failing expressions, five mixes of failing and good entries, matrices 1x1 to 3x3; solvers one iteration.'),
'C42': ('Each public operation interpreted on known operands with all static/thread-local variables as at program start, then again inside sequences of all other operations (successful and failing) in several orders and in all pairs of neighbours; results, errors and operands compared as deep values.', 'Some 300 operation/operand cases per distribution, four global orders (thorough eight) plus groups of six operations; one outcome of decisions on library functions.'),
'C43': ('Each expression an operation returns or leaves behind is compared, field by field, with a fresh one of the same tree; where the representation differs, Equal (both directions), ToString and GetAllVarNames are interpreted on both.', 'About 40 trees per operation, 1100 derivatives and simplified trees, 700 texts.'),
}
