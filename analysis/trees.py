"""abstract expressions of bounded height with symbolic constants, their values and derivatives as terms"""
import terms as T
from terms import sym, is_const
from nodes import *
from interp import Undecided
from checks.tables import FUNC, spec_num
import identity
import math


class NoDeriv(Exception):
    pass


def n(v):
    return ('n', sym(v) if isinstance(v, str) else v)


def v(name):
    return ('v', name)


def build(N, t):
    if t[0] == 'n':
        return N.num(t[1])
    if t[0] == 'v':
        return N.var(t[1])
    return N.opn(t[0], *[build(N, x) for x in t[1:]])


def text(t):
    if t[0] == 'n':
        return repr(t[1]) if not isinstance(t[1], T.Poly) else '<%r>' % t[1]
    if t[0] == 'v':
        return t[1]
    s = SYMBOL[t[0]]
    return '%s(%s)' % (s, text(t[1])) if len(t) == 2 else '(%s %s %s)' % (text(t[1]), s, text(t[2]))


def app(op, l, r=None):
    if op in FUNC:
        return T.atom_num(FUNC[op], l)
    if op == 'MATH_POSITIVE':
        return l
    if op == 'MATH_NEGATIVE':
        return T.neg(l)
    if op == 'MATH_ADD':
        return T.add(l, r)
    if op == 'MATH_SUB':
        return T.sub(l, r)
    if op == 'MATH_MULTIPLY':
        return T.mul(l, r)
    if op == 'MATH_DIVIDE':
        if is_const(r) and r == 0:
            return T.atom_num('inv', 0)
        return T.div(l, r)
    if op == 'MATH_POWER':
        return T.atom_num('pow', l, r)
    a, b = T.atom_num('trunc', l), T.atom_num('trunc', r)
    return T.atom_num({'MATH_AND': 'band', 'MATH_OR': 'bor', 'MATH_MOD': 'imod'}[op], a, b)


def value(t):
    if t[0] == 'n':
        return t[1]
    if t[0] == 'v':
        return sym(t[1])
    return app(t[0], *[value(x) for x in t[1:]])


def snap(op, r, a, b):
    """rounding noise of a sum that is zero"""
    if r is not None and op in ('MATH_ADD', 'MATH_SUB') and abs(r) < 1e-13 * max(abs(a), abs(b)):
        return 0.0
    return r


INT_OPS = ('MATH_AND', 'MATH_OR', 'MATH_MOD')


def whole(a):
    """rounding noise of an operand that is an integer"""
    if abs(a) > 1e5:
        return a
    r = round(a)
    return float(r) if abs(a - r) <= 1e-9 else a


def raw(t, env):
    """value of a tree at a point, without algebraic simplification; nan when any part has no value"""
    r = raws(t, env, False)
    x, = r
    return math.nan if x is None else x


def raws(t, env, zeropow=True):
    """the possible values of a tree at a point (None: no value); zeropow: 0 to a power may also count as 0"""
    if t[0] == 'n':
        x = identity.numeval(t[1], env)
        return {None if x != x or math.isinf(x) else x}
    if t[0] == 'v':
        return {env[T.Atom('sym', t[1])]}
    ks = [raws(k, env, zeropow) for k in t[1:]]
    out = set()
    for a in ks[0]:
        for b in ks[-1]:
            if a is None or b is None:
                out.add(None)
                continue
            if t[0] in INT_OPS:
                a, b = whole(a), whole(b)
            r = snap(t[0], spec_num(t[0], a, b), a, b)
            out.add(None if r is None or r != r or math.isinf(r) else r)
            if zeropow and t[0] == 'MATH_POWER' and a == 0:
                out.add(0.0)
    return out


def syms(t, acc=None):
    """symbols a tree mentions (also where its value does not depend on them)"""
    acc = set() if acc is None else acc
    if t[0] == 'n':
        acc.update(identity.syms_of(t[1]))
    elif t[0] == 'v':
        acc.add(T.Atom('sym', t[1]))
    else:
        for k in t[1:]:
            syms(k, acc)
    return acc


def depends(t, x):
    return t == ('v', x) or (t[0] not in ('n', 'v') and any(depends(k, x) for k in t[1:]))


def varnames(t):
    """the names in a tree"""
    out, todo = set(), [t]
    while todo:
        t = todo.pop()
        if t[0] == 'v':
            out.add(t[1])
        elif t[0] != 'n':
            todo += t[1:]
    return out


def deriv(t, x):
    """the derivative tree by the rules of calculus, without simplification"""
    if t == ('v', x):
        return n(1)
    if not depends(t, x):
        return n(0)
    A = lambda a, b: ('MATH_ADD', a, b)
    S = lambda a, b: ('MATH_SUB', a, b)
    M = lambda a, b: ('MATH_MULTIPLY', a, b)
    D = lambda a, b: ('MATH_DIVIDE', a, b)
    W = lambda a, b: ('MATH_POWER', a, b)
    op, u = t[0], t[1]
    du = deriv(u, x)
    if len(t) == 2:
        root = lambda: ('MATH_SQRT', S(n(1), M(u, u)))
        k = {'MATH_SIN': lambda: ('MATH_COS', u), 'MATH_COS': lambda: S(n(0), ('MATH_SIN', u)),
             'MATH_TAN': lambda: D(n(1), M(('MATH_COS', u), ('MATH_COS', u))), 'MATH_ARCSIN': lambda: D(n(1), root()),
             'MATH_ARCCOS': lambda: D(n(-1), root()), 'MATH_ARCTAN': lambda: D(n(1), A(n(1), M(u, u))),
             'MATH_SQRT': lambda: D(n(1), M(n(2), t)), 'MATH_LOG': lambda: D(n(1), u), 'MATH_LOG2': lambda: D(n(1), M(u, ('MATH_LOG', n(2)))),
             'MATH_LOG10': lambda: D(n(1), M(u, ('MATH_LOG', n(10)))), 'MATH_EXP': lambda: t, 'MATH_POSITIVE': lambda: n(1),
             'MATH_NEGATIVE': lambda: n(-1)}[op]()
        return M(k, du)
    w = t[2]
    dw = deriv(w, x)
    if op == 'MATH_ADD':
        return A(du, dw)
    if op == 'MATH_SUB':
        return S(du, dw)
    if op == 'MATH_MULTIPLY':
        return A(M(du, w), M(u, dw))
    if op == 'MATH_DIVIDE':
        return D(S(M(du, w), M(u, dw)), M(w, w))
    if op == 'MATH_POWER':
        a = M(M(w, W(u, S(w, n(1)))), du)
        b = M(M(t, ('MATH_LOG', u)), dw)
        return a if not depends(w, x) else b if not depends(u, x) else A(a, b)
    raise NoDeriv(op)


def term_of(I, N, c):
    """the tree a result denotes, as a tree description"""
    t = I.res(N.get(c, N.type))
    if t == N.NUMBER:
        return ('n', N.get(c, N.value))
    if t == N.VARIABLE:
        return ('v', N.get(c, N.name))
    o = I.res(N.get(c, N.op))
    if not isinstance(o, int) or o not in N.opname:
        raise Undecided('operator')
    kids = N.kids(c)
    return (N.opname[o],) + tuple(term_of(I, N, k) for k in kids)


LEAVES = [n('a'), n(0), n(1), v('x'), v('y')]


def compound(rich=True):
    """operator children: every operator over the variable"""
    out = [(u, v('x')) for u in UNARY]
    for b in BINARY:
        out.append((b, v('x'), n('b')))
        out.append((b, n('b'), v('x')))
        if rich:
            out.append((b, v('x'), v('y')))
    return out


REPS = [('MATH_SIN', v('x')), ('MATH_NEGATIVE', v('x')), ('MATH_ADD', v('x'), v('y')), ('MATH_SUB', n('b'), v('x')), ('MATH_MULTIPLY', v('x'), n('b')),
        ('MATH_MULTIPLY', v('x'), v('x')), ('MATH_DIVIDE', n('b'), v('x')), ('MATH_POWER', v('x'), n('b')), ('MATH_POWER', n(2), v('x')), ('MATH_LOG', v('y')),
        ('MATH_ADD', n('b'), n('c')), ('MATH_SQRT', n('b')), ('MATH_EXP', v('x'))]


# names that are easily taken for each other: prefixes, suffixes, case, digits, length, order of the characters, names of functions
NAMES = ['x', 'x1', 'x10', 'x2', 'xx', 'X', '_x', 'x_', 'xy', 'yx', 'sin', 'sinx', 'a' * 40, 'a' * 41, 'a' * 39 + 'b']
NEAR = [(a, b) for a in NAMES for b in NAMES if a != b]


def height2():
    """every operator over every kind of operand"""
    out = list(LEAVES)
    for u in UNARY:
        for c in LEAVES + compound() + [('MATH_ADD', n('b'), n('c'))]:
            out.append((u, c))
    for b in BINARY:
        for l in LEAVES:
            for r in LEAVES:
                if r == n('a') and l == n('a'):
                    r = n('b')
                out.append((b, l, r))
        for c in REPS:
            for k in LEAVES:
                out.append((b, c, k))
                out.append((b, k, c))
        for c in REPS[:8]:
            for d in REPS[:8]:
                out.append((b, c, d))
    return out


def height3():
    out = []
    for u in ('MATH_SIN', 'MATH_NEGATIVE', 'MATH_SQRT', 'MATH_LOG', 'MATH_POSITIVE', 'MATH_EXP'):
        for b in BINARY[:5]:
            for c in REPS[:8]:
                out.append((u, (b, c, v('y'))))
                out.append((b, (u, c), n('a')))
                out.append((b, n('a'), (u, c)))
    for b in BINARY[:5]:
        for b2 in BINARY[:5]:
            for c in REPS[:6]:
                out.append((b, (b2, c, n('a')), v('x')))
                out.append((b, v('x'), (b2, n('a'), c)))
                out.append((b, n(0), (b2, n(0), c)))
                out.append((b, (b2, c, n(1)), n(1)))
                out.append((b, (b2, n(1), c), n(0)))
                out.append((b, (b2, n('a'), n('b')), c))
    return out


# ------------------------------------------------------------------ families by pattern
KINDS = ('num', 'var', 'unary', 'binary')
SIDE_LEAVES = [v('y'), n('c'), ('MATH_SIN', v('y')), ('MATH_ADD', v('y'), n('c')), n(2), ('MATH_NEGATIVE', n('c'))]


class Rota:
    """deals out operators in turn, so that every pair of neighbours occurs in a family"""

    def __init__(self):
        self.u = self.b = self.s = 0

    def kid(self, kind, nm, c):
        if kind == 'num':
            return n(c)
        if kind == 'var':
            return v(nm)
        if kind == 'unary':
            self.u += 1
            return (UNARY[self.u % len(UNARY)], v(nm) if self.u % 3 else n(c))
        self.b += 1
        k = self.b // len(BINARY)
        l, r = ((v(nm), n(c)), (n(c), v(nm)), (v(nm), v('z')), (n(c), n(c + "'")))[k % 4]
        return (BINARY[self.b % len(BINARY)], l, r)

    def side(self):
        self.s += 1
        return SIDE_LEAVES[self.s % len(SIDE_LEAVES)]


def patterns1():
    """every operator over every kind of operands"""
    r = Rota()
    out = [(u, r.kid(k, 'x', 'a')) for u in UNARY for k in KINDS]
    return out + [(b, r.kid(k, 'x', 'a'), r.kid(m, 'y', 'b')) for b in BINARY for k in KINDS for m in KINDS]


def patterns2():
    """every operator over every operator (on either side) over every kind of operands"""
    r = Rota()
    out = []
    kids = [(u, (k,)) for u in UNARY for k in KINDS] + [(b, (k, m)) for b in BINARY for k in KINDS for m in KINDS]
    for c, ks in kids:
        mk = lambda: (c,) + tuple(r.kid(k, 'xw'[i], 'ab'[i]) for i, k in enumerate(ks))
        for u in UNARY:
            out.append((u, mk()))
        for b in BINARY:
            out.append((b, mk(), r.side()))
            out.append((b, r.side(), mk()))
    return out


def equal_operands():
    """every binary operator over two equal operands (and over operands that differ only in their constant)"""
    out = []
    for b in BINARY:
        for t in LEAVES + [(u, v('x')) for u in UNARY] + REPS:
            out.append((b, t, t))
        for t, w in ((n('a'), n('b')), (('MATH_ADD', v('x'), n('a')), ('MATH_ADD', v('x'), n('b'))), (('MATH_MULTIPLY', n('a'), v('x')), ('MATH_MULTIPLY', n('b'), v('x'))),
                     (('MATH_SUB', v('x'), v('y')), ('MATH_SUB', v('y'), v('x'))), (v('x'), ('MATH_NEGATIVE', v('x'))), (('MATH_SIN', v('x')), ('MATH_SIN', v('y')))):
            out.append((b, t, w))
            out.append(('MATH_SUB', (b, t, t), w))
            out.append(('MATH_NEGATIVE', (b, w, t)))
    return out


FEW = ('MATH_NEGATIVE', 'MATH_SIN', 'MATH_ADD', 'MATH_SUB', 'MATH_MULTIPLY', 'MATH_DIVIDE', 'MATH_POWER')
OTHERS = (n(0), n(1), n(-1), n(2), n('a'), v('y'), None)


def triples(ops=FEW, others=OTHERS):
    """an operator over an operator over an operator, at either side, beside operands of special values (None: equal to the neighbour)"""
    leaves = [(v('x'), v('z')), (v('x'), n('c')), (n('c'), v('x')), (n(1), v('x'))]
    k = 0

    def over(op, t):
        if op in UNARY:
            yield (op, t)
            return
        for o in others:
            o = t if o is None else o
            yield (op, t, o)
            yield (op, o, t)
    for g in ops:
        for c in ops:
            for r in ops:
                k += 1
                a = leaves[k % len(leaves)]
                for t in over(c, (g, a[0]) if g in UNARY else (g,) + a):
                    yield from over(r, t)


def random_trees(count, size, seed=3):
    """larger trees with operators, shapes and leaves drawn by a fixed generator"""
    import random
    g = random.Random(seed)

    def mk(k):
        if k <= 1:
            return g.choice([v('x'), v('y'), n('a'), n('b'), v('z'), n(2)])
        if g.random() < .3:
            return (g.choice(UNARY), mk(k - 1))
        j = g.randint(1, max(1, k - 2))
        return (g.choice(BINARY), mk(j), mk(k - 1 - j))
    return [mk(g.randint(size // 2, size)) for _ in range(count)]


def large(size=150):
    """tall and wide expressions"""
    out = []
    t = v('x')
    for i in range(size):
        t = (BINARY[i % 4], t, v('xyz'[i % 3]) if i % 4 else n('a'))
    out.append(('left comb', t))
    t = v('x')
    for i in range(size):
        t = (BINARY[i % 4], v('xyz'[i % 3]) if i % 4 else n('a'), t)
    out.append(('right comb', t))
    t = v('x')
    for i in range(size):
        t = (UNARY[i % len(UNARY)], t)
    out.append(('chain', t))
    width = 128
    while width < size:
        width *= 2
    level = [v('xyz'[i % 3]) if i % 4 else n('a') for i in range(width // 2 if size < 160 else width)]
    i = 0
    while len(level) > 1:
        level = [(BINARY[(j + i) % 4], level[2 * j], level[2 * j + 1]) for j in range(len(level) // 2)]
        i += 1
    out.append(('full tree', level[0]))
    t = v('x')
    for i in range(size):
        s = (UNARY[i % len(UNARY)], v('x'))
        t = ('MATH_MULTIPLY', t, s) if i % 2 else ('MATH_ADD', s, t)
    out.append(('zigzag', t))
    return out


LARGE = []


def literals(P):
    """the integer literals in the bodies of a program"""
    out = {}

    def walk(x, f):
        if isinstance(x, dict):
            if x.get('k') in ('IntegerLiteral', 'int'):
                try:
                    out.setdefault(int(x.get('v')), f)
                except (TypeError, ValueError):
                    pass
            if x.get('k') == 'bin' and x.get('op') in ('<<', '*', '+', '-'):
                a, b = lit(x.get('a')), lit(x.get('b'))
                if a is not None and b is not None and 0 <= b < 64:
                    out.setdefault({'<<': a << b, '*': a * b, '+': a + b, '-': a - b}[x['op']], f)
                elif a is not None and b is not None and x['op'] != '<<':
                    out.setdefault({'*': a * b, '+': a + b, '-': a - b}[x['op']], f)
            for y in x.values():
                walk(y, f)
        elif isinstance(x, (list, tuple)):
            for y in x:
                walk(y, f)

    def lit(x):
        if not isinstance(x, dict):
            return None
        if x.get('k') in ('paren', 'cast', 'icast') and isinstance(x.get('e'), dict):
            return lit(x['e'])
        if x.get('k') in ('IntegerLiteral', 'int'):
            try:
                return int(x.get('v'))
            except (TypeError, ValueError):
                return None
        if x.get('k') == 'bin' and x.get('op') in ('<<', '*', '+', '-'):
            a, b = lit(x.get('a')), lit(x.get('b'))
            if a is not None and b is not None and (x['op'] != '<<' or 0 <= b < 64):
                return {'<<': lambda: a << b, '*': lambda: a * b, '+': lambda: a + b, '-': lambda: a - b}[x['op']]()
        return None
    for f in P.all_defs() if callable(P.all_defs) else P.all_defs:
        walk(f.get('body'), f['q'])
    for g in P.globals.values():
        walk(g.get('init'), g['q'])
    return out


def size_for(P, low=150, high=6000):
    """a size beyond every number the program could compare a size with"""
    return max([low] + [x + x // 5 + 10 for x in literals(P) if x <= high])


def resize(P):
    """LARGE: expressions larger than any number that occurs in the program"""
    n = size_for(P)
    if not LARGE or n > resize.n:
        resize.n = n
        LARGE[:] = [t for _, t in large(n)]


resize.n = 0
