"""writes MANIFEST.json from the tables below"""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = 'abstract interpretation of the type-checked program'
NOTE = ('Sound for the executions that follow the analysed traces: the source as the compiler resolves it (both the multi-file library and the single header), interpreted over symbolic '
        'values with a split at every undecided condition. ')
TRUST = ' Trusts the models of the standard library and the exporter (clang AST).'
CHECKS = {
    'C01': ('exception-escape analysis over the call graph with class-hierarchy matching of handlers; shape conditions decided by abstract interpretation', 'All functions, lambdas and destructors declared non-throwing.'),
    'C02': ('call-depth analysis: ' + AI + ' of each operation on two heights (destructors included), call-graph cycles, use of the recursive regular-expression matcher', 'Heights 8 and 16 in eight shapes; texts of twelve kinds.'),
    'C03': (AI + ': heap shapes, parent links, arity', 'Bound: trees of height <= 4 in a fixed set of shapes with symbolic constants.'),
    'C04': (AI + ': result tree compared as a term with the rule table of derivatives', 'Bound: every operator over every operand kind to height 2, selected trees of height 3; terms are compared by normal form, then by identity testing at sample points.'),
    'C05': (AI + ': simplified tree compared as a term with the original on every trace', 'Bound: every operator over every operand kind to height 2, selected trees of height 3; terms are compared by normal form, then by identity testing at sample points.'),
    'C06': (AI + ': agreement of the printing table, the reader of names and the function table', 'Every operator and alias is enumerated; other identifiers are represented by all prefixes, extensions and case changes of the names and by hash classes.'),
    'C07': (AI + ': text of each pair of operators compared, re-read by the interpreted parser, as a term with the original', 'Bound: every enclosing and enclosed operator in either position, chains to height 3, constants of either sign.'),
    'C08': (AI + ' of the parser on symbolic tokens; tree compared with the grammar', 'Bound: token patterns up to three operators, all operators in each place.'),
    'C09': (AI + ': evaluation of each operator compared as a term with its function; finite/inf/nan trace partitioning', 'Every operator; evaluation order on trees of height <= 3.'),
    'C10': (AI + ': range analysis of integer operations and conversions, guarded by the facts of each trace', 'All arithmetic reachable from evaluation, simplification, differentiation, matrix helpers.'),
    'C11': (AI + ' of the parser on texts of symbolic characters; exceptions, empty-container and null-pointer typestate', 'Bound: all texts over the character classes up to a small length, plus token sequences.'),
    'C12': (AI + ': effects on operands, sharing, result per value category', 'Bound: trees in a fixed set of shapes; all operator templates in all value categories.'),
    'C13': (AI + ': copy completeness and equality on single-difference pairs', 'Bound: trees in a fixed set of shapes, all single differences.'),
    'C14': (AI + ': result of each Subs overload compared with simultaneous replacement', 'Bound: a fixed set of expressions and replacements covering each position, swap, growth, absent and prefix names.'),
    'C15': (AI + ': legality of the name at every source of a variable node, on symbolic names', 'Names are represented by symbolic characters of the character classes.'),
    'C16': (AI + ': entries of results compared as terms with the defining formula', 'Bound: shapes up to 3x3 (thorough 4x4), symbolic entries.'),
    'C19': (AI + ' of the variable table against a reference association, all accessors compared after every update', 'Bound: tables of up to four names in several orders, symbolic values.'),
    'C23': ('level-sensitive reachability of output statements over the call graph (condition evaluation per log level)', 'All output sites, every public entry point, every log level.'),
    'C24': (AI + ' of the configuration\'s construction, reset and access; effect analysis of every use of its fields', 'All fields, all functions of the library.'),
    'C25': ('effect analysis (static storage, mutable, const casts, hidden-state library calls) and watched-cell interpretation of every public operation with constant operands', 'Operands: fixed set of shapes; iterative solvers up to one iteration.'),
    'C26': (AI + ': error kinds, messages and positions of every constructor and raise, and their passage through the public functions', 'All enumerators; every public entry point that forwards errors.'),
    'C27': (AI + ': ownership typestate (released, owned, loose) of every node, destructors and unwinding included', 'Bound: trees in a fixed set of shapes; matrices up to 2x2.'),
    'C28': ('comparison of the type-checked declarations of both distributions; linkage and one-definition rules over all definitions', 'All public declarations and all definitions of the single header.'),
    'C29': (AI + ': entries of the Jacobian compared with derivative terms', 'Bound: up to 3 equations and variables.'),
    'C30': (AI + ': entries of symbolic matrices compared with the definition', 'Bound: shapes up to 3x3 (thorough 4x4).'),
    'C17': (AI + ' with loop invariants: shape agreement of the operands of every matrix operation in the solvers', 'Bound: 1 to 3 equations and unknowns; loops abstracted for any number of iterations.'),
    'C18': (AI + ' of the elimination over symbolic coefficients, traces partitioned by its tests; returned terms and denominators judged by identity testing', 'Bound: shapes up to 3x3 (thorough 3x4); exact arithmetic.'),
    'C20': (AI + ' with loop invariants (equalities and monotone counters found as a greatest fixpoint): residual terms of every returning trace', 'Bound: eight systems of equations with arbitrary values; loops abstracted for any number of iterations.'),
    'C21': ('ranking counters on the traces between loop head and back edge, found by abstract interpretation with loop invariants', 'Every loop that evaluates equations, solves linear systems or calls function objects; not-a-number included.'),
    'C22': (AI + ' with loop invariants: each linear system compared as terms with Jacobian and residual at one vector of the state; that vector followed over the back edges', 'Bound: six systems of equations with arbitrary values; loops abstracted for any number of iterations.'),
    'C35': (AI + ': the set of listed names compared with the names of the tree', 'Bound: pattern families to height 3, 60 variables, tall and wide trees.'),
    'C36': (AI + ': texts of matrices and tables over symbolic number texts compared with the layout', 'Bound: shapes to 4x4 and seven longer ones.'),
    'C37': (AI + ': result of every operator and function compared with the node it names', 'Bound: operands of the pattern families in all value categories.'),
    'C38': ('relational (two-run) ' + AI + ' over the log levels; jump sites of loops per level', 'Bound: fixed set of operands; iterative solvers up to two iterations.'),
    'C39': (AI + ': second simplification along the same trace compared with the first; search for reducible operators', 'Bound: tree families to height 3, chains, large trees.'),
    'C40': (AI + ' of the parser on words of every kind; each leaf compared with the word that stands there', 'Bound: about 500 words in some 4000 texts of up to 300 words.'),
    'C41': (AI + ' of failing operations: what the caller still holds is compared with before on every trace that raises', 'Bound: fixed set of failing operands, matrices to 3x3.'),
    'C42': ('relational ' + AI + ' of operation sequences: each operation compared with itself at program start', 'Bound: fixed operands, several orders of all operations, all pairs in groups of six.'),
    'C43': (AI + ': every resulting expression compared with a fresh one of the same tree', 'Bound: tree families to height 2, token patterns of the parser.'),
}
NA = {
    'C31': 'Quantifies over the digits produced and read for every double by the C library (printf/stod); no static argument on this repository reaches it. The re-reading of operator structure is C07, of names C06.',
    'C32': 'Convergence is a property of the numerical iteration (spectral and Lipschitz constants of the user\'s system); no shape of the code decides it. Bounded loops, step consistency and the acceptance test are C20-C22.',
    'C33': 'Bounds on rounding error depend on runtime operand values and conditioning; the structural part (pivoting by largest magnitude, same row operations on both sides) is C18.',
    'C34': 'Running time as a function of tree size is not decided by the code\'s shape alone (it needs amortised bounds over standard containers); the recursion-depth part is C02.',
}
import sys
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
m = {'version': 1, 'setup_cmd': 'bash tool/build.sh', 'checks': [], 'not_applicable': []}
for i in ids:
    if i in CHECKS:
        t, note = CHECKS[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3-vt check.py ' + i, 'thorough_cmd': 'VERIF_DEEP=1 python3-vt check.py ' + i, 'technique': t,
                            'level': 'other', 'level_note': NOTE + note + TRUST})
    elif i in NA:
        m['not_applicable'].append({'property': i, 'reason': NA[i]})
    else:
        m['not_applicable'].append({'property': i, 'reason': 'check under construction'})
m['notes'] = 'All checks are static: they read the clang AST of /repo\'s current sources (tool/exporter.cpp) and interpret it abstractly (analysis/). No code of the library is run.'
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
