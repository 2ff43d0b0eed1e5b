"""Checks of the solvers: shapes (C17), linear systems (C18), results (C20), loop bounds (C21), steps (C22)."""
from checks.common import *
from checks import matrix as MX
from fractions import Fraction as Fr
import itertools
import os
import random

SL = 'tomsolver::SolveLinear'
VEC, MAT = MX.VEC, MX.MAT


# ------------------------------------------------------------------ exact values of terms
class Exact:
    """exact rational values of terms under one assignment"""

    def __init__(self, env):
        self.env = env
        self.memo = {}

    def __call__(self, x):
        if is_const(x):
            if not T.finite(x):
                raise identity.NoValue(x)
            return Fr(x)
        r = self.memo.get(x)
        if r is None:
            r = self.memo[x] = self.value(x)
        if r is False:
            raise identity.NoValue(x)
        return r

    def value(self, x):
        try:
            if isinstance(x, Poly):
                s = Fr(0)
                for m, c in x.d.items():
                    v = Fr(c)
                    for a, e in m:
                        v *= self(a) ** e
                    s += v
                return s
            if x.op == 'sym':
                return Fr(self.env[x]) if x in self.env else False
            if x.op == 'inv':
                return 1 / self(x.args[0])
            if x.op == 'abs':
                return abs(self(x.args[0]))
            if x.op in ('max', 'min'):
                return (max if x.op == 'max' else min)(self(a) for a in x.args)
        except (ZeroDivisionError, identity.NoValue):
            pass
        return False

    def sat(self, facts):
        for q, (lo, lo_o, hi, hi_o, ex, integral) in facts.iv.items():
            try:
                v = self(q)
            except identity.NoValue:
                return None
            if lo is not None and (v < lo or lo_o and v == lo) or hi is not None and (v > hi or hi_o and v == hi) or v in ex:
                return False
        return True


# ------------------------------------------------------------------ C18
EPS = Fr(1, 10 ** 6)


def pivots(A):
    """absolute values of the pivots of partial pivoting; None on a tie"""
    A = [r[:] for r in A]
    out, y = [], 0
    m, n = len(A), len(A[0])
    for x in range(n):
        if y >= m:
            break
        k = max(range(y, m), key=lambda i: abs(A[i][x]))
        p = A[k][x]
        if p == 0:
            continue
        if sum(1 for i in range(y, m) if abs(A[i][x]) == abs(p)) > 1:
            return None
        A[y], A[k] = A[k], A[y]
        out.append(abs(p))
        for i in range(y + 1, m):
            t = A[i][x] / p
            A[i] = [a - t * b for a, b in zip(A[i], A[y])]
        y += 1
    return out


def rank(A):
    A = [r[:] for r in A]
    y = 0
    for x in range(len(A[0])):
        k = next((i for i in range(y, len(A)) if A[i][x] != 0), None)
        if k is None:
            continue
        A[y], A[k] = A[k], A[y]
        for i in range(y + 1, len(A)):
            t = A[i][x] / A[y][x]
            A[i] = [a - t * b for a, b in zip(A[i], A[y])]
        y += 1
    return y


def systems(m, n, k, seed=11):
    """(A, b, class): regular, deficient, contradictory and tiny systems"""
    rnd = random.Random(seed + 17 * m + n)
    out = []
    for t in range(k):
        kind = ('generic', 'small', 'deficient', 'deficient', 'sparse', 'tiny', 'deficient')[t % 7]
        ri = lambda: Fr(rnd.randint(-3, 3))
        if kind == 'generic':
            A = [[Fr(rnd.randint(-300, 300), rnd.choice((7, 10, 13))) for _ in range(n)] for _ in range(m)]
        elif kind in ('small', 'tiny'):
            A = [[ri() for _ in range(n)] for _ in range(m)]
        elif kind == 'sparse':
            A = [[ri() if rnd.random() < .4 else Fr(0) for _ in range(n)] for _ in range(m)]
        else:
            r = rnd.randint(0, min(m, n) - (0 if m < n and rnd.random() < .5 else 1) if min(m, n) else 0)
            u = [[ri() for _ in range(n)] for _ in range(r)]
            A = [[sum((c * x for c, x in zip(cs, col)), Fr(0)) for col in (zip(*u) if u else [()] * n)] for cs in ([ri() for _ in range(r)] for _ in range(m))]
        x = [ri() for _ in range(n)]
        b = [sum((a * y for a, y in zip(row, x)), Fr(0)) for row in A]
        if rnd.random() < .35:
            i = rnd.randrange(m)
            b[i] += rnd.choice((-2, -1, 1, 2, Fr(1, 2)))
        if kind == 'tiny':
            j = rnd.randrange(n)
            s = Fr(1, 10 ** 8)
            if rnd.random() < .5:
                for row in A:
                    row[j] *= s
            else:
                A[rnd.randrange(m)][j] = s
                A = [[a if abs(a) > 0 else s * rnd.randint(0, 1) for a in row] for row in A]
        out.append((kind, A, b))
    return out


def smallest(A):
    """the smallest magnitude that occurs in the elimination, apart from zero"""
    A = [r[:] for r in A]
    low, y = min([abs(a) for r in A for a in r if a] or [Fr(0)]), 0
    for x in range(len(A[0])):
        if y >= len(A):
            break
        k = max(range(y, len(A)), key=lambda i: abs(A[i][x]))
        if A[k][x] == 0:
            continue
        A[y], A[k] = A[k], A[y]
        for i in range(len(A)):
            if i != y:
                t = A[i][x] / A[y][x]
                A[i] = [a - t * b for a, b in zip(A[i], A[y])]
        low = min([low] + [abs(a) for r in A for a in r if a])
        y += 1
    return low


def scaled(m, n, k, eps, consts, seed=5):
    """full-rank systems whose entries have very different magnitudes, also near the constants the code compares with"""
    rnd = random.Random(seed + 17 * m + n)
    out = []
    while len(out) < k:
        k -= .01
        A = [[Fr(rnd.randint(-300, 300), rnd.choice((7, 10, 13))) for _ in range(n)] for _ in range(m)]
        if consts and len(out) % 2:
            for _ in range(rnd.randint(1, 2)):
                A[rnd.randrange(m)][rnd.randrange(n)] = rnd.choice((1, -1)) * rnd.choice(consts) * rnd.choice((Fr(1, 4), Fr(9, 10), Fr(11, 10), Fr(4)))
        else:
            e = lambda: Fr(10) ** (rnd.randint(-9, 9) if eps < EPS else rnd.randint(-3, 6))
            rs, cs = [e() for _ in range(m)], [e() if rnd.random() < .3 else Fr(1) for _ in range(n)]
            A = [[a * r * c for a, c in zip(row, cs)] for row, r in zip(A, rs)]
        p = pivots(A)
        if p is None or len(p) < min(m, n) or smallest(A) < 4 * eps:
            continue
        x = [Fr(rnd.choice((-3, -2, -1, 1, 2, 3))) for _ in range(n)]
        b = [sum((a * y for a, y in zip(row, x)), Fr(0)) for row in A]
        if smallest([r + [y] for r, y in zip(A, b)]) < 4 * eps:
            continue
        out.append(('generic', A, [sum((a * y for a, y in zip(row, x)), Fr(0)) for row in A]))
    return out


def negligible(m, n, k, seed=23):
    """systems of every rank structure, with each entry disturbed by an amount far below any tolerance: (undisturbed A, disturbed A, b)"""
    rnd = random.Random(seed)
    tiny = Fr(1, 10 ** 40)
    for kind, A, b in systems(m, n, k, seed):
        if kind in ('deficient', 'sparse', 'small') and any(x for r in A for x in r) and smallest([r + [y] for r, y in zip(A, b)]) >= 4 * EPS:
            yield 'negligible', A, [[x + tiny * rnd.randint(-3, 3) for x in row] for row in A], b


def expected(A, b, allow):
    m, n = len(A), len(A[0])
    if m > n:
        return ('throw', 'ERROR_OVER_DETERMINED_EQUATIONS')
    r = rank(A)
    if rank([row + [y] for row, y in zip(A, b)]) > r:
        return ('throw', 'ERROR_SINGULAR_MATRIX')
    if m == n and r < n:
        return ('throw', 'ERROR_INFINITY_SOLUTIONS')
    if m < n and not allow:
        return ('throw', 'ERROR_INDETERMINATE_EQUATION')
    return ('solution', None)


def C18(R):
    R.rule('SolveLinear is interpreted with symbolic coefficients, right-hand side and configuration, and its traces are partitioned by its own tests. The returned terms '
           'are evaluated exactly on rational systems of every rank structure (identity testing): they must satisfy A x = b; the traces of contradictory, ambiguous, overdetermined and '
           'underdetermined systems must end in the documented error kind; every denominator formed on a trace must be at least the tolerance and equal the pivot of largest absolute value.')
    R.assume('shapes up to 3x3 stand for all shapes; exact arithmetic (rounding is C33)')
    jobs = []
    shapes = [(3, 3), (2, 3), (3, 2), (2, 2), (1, 1), (1, 2), (1, 3), (2, 1), (3, 1)]
    if os.environ.get('VERIF_DEEP'):
        shapes = [(3, 4), (4, 2), (2, 4), (1, 4)] + shapes
    for m, n in shapes:
        for view, P, N in views():
            jobs.append(lambda S, a=(view, P, N, m, n): linear_shape(S, *a))
            if m * n <= 4:
                jobs.append(lambda S, a=(view, P, N, m, n): linear_shape(S, *a, eps=Fr(1, 10 ** 12)))
    for view, P, N in views():
        for m, n in [(4, 4), (5, 5), (6, 6), (8, 8), (12, 12), (3, 4), (2, 5), (4, 7), (6, 8), (4, 3), (7, 4), (1, 7), (7, 1)]:
            As = large(m, n, 24 if os.environ.get('VERIF_DEEP') else 8)
            for t in range(0, len(As), 4):
                jobs.append(lambda S, a=(view, P, N, m, n, As[t:t + 4]): linear_large(S, *a))
    pmap(R, jobs)


def large(m, n, k, seed=31):
    """coefficient matrices of larger systems, of every rank structure"""
    rnd = random.Random(seed + 17 * m + n)
    ri = lambda: Fr(rnd.choice((-4, -3, -2, -1, 1, 2, 3, 5)))
    out = []
    for sh in (1, -1):    # one entry per row: the pivot of the first column lies in the last row, or in the second
        out.append([[ri() if (i + sh) % m == j % m else Fr(0) for j in range(n)] for i in range(m)])
    out.append([[ri() if i + j >= max(m, n) - 1 else Fr(0) for j in range(n)] for i in range(m)])
    out.append([[ri() if i >= j else Fr(0) for j in range(n)] for i in range(m)])
    out.append([[ri() * Fr(10) ** (rnd.randint(-2, 2)) for j in range(n)] for i in range(m)])
    A = [[ri() if rnd.random() < .5 else Fr(0) for j in range(n)] for i in range(m)]
    A[-1] = A[0][:]
    out.append(A)
    A = [[ri() for j in range(n)] for i in range(m)]
    for row in A:
        row[n // 2] = Fr(0)
    out.append(A)
    A = [[ri() for j in range(n)] for i in range(m)]
    A[m // 2] = [Fr(0)] * n
    out.append(A)
    while len(out) < k:
        t = len(out) % 3
        r = min(m, n) - (t == 1) - (t == 2 and min(m, n) > 2)
        u = [[ri() if rnd.random() < .6 else Fr(0) for _ in range(n)] for _ in range(r)]
        out.append([[sum((c * x for c, x in zip(cs, col)), Fr(0)) for col in (zip(*u) if u else [()] * n)] for cs in ([ri() for _ in range(r)] for _ in range(m))] if t else
                   [[ri() for _ in range(n)] for _ in range(m)])
    return out


def linear_large(R, view, P, N, m, n, As):
    """a larger system: given coefficients, symbolic right-hand side"""
    f = pick(P, SL)
    eps = Fr(1, 10 ** 9)

    def div(I, a, b):
        I.path.events.append(('div', b, I.where()))
    api = MX.Api(P)
    at = lambda s: next(iter(sym(s).d))[0][0]
    nm = '%dx%d system' % (m, n)
    w0 = '%s:%s in %s' % (f['file'], f['l'], f['q'])
    for t, A in enumerate(As):
        if any(x for r in A for x in r) and smallest(A) < 4 * eps:
            continue
        I = Interp(P, stubs={NT: stub_tostring}, opts=dict(static_hook=sym_config(P, fixed={'logLevel': 0, 'epsilon': eps}), max_paths=3000, fuel=4000000, div_hook=div))

        def body(I):
            a = Cell(I.construct(MAT, [m, n, Seq('valarray', [x if x.denominator > 1 else int(x) for r in A for x in r], 'double')], ['x', 'x', 'x']), typ=MAT)
            return api.read(I, I.call_fn(f, None, [a, MX.mk_mat(I, m, 1, 'b', VEC)]))
        out = I.explore(body)
        R.seen(I)
        for o in out:
            if o.kind == 'undecided':
                R.undecided('solution', view + ' ' + nm, '%s (%s)' % (o.exc, o.where))
            elif o.kind == 'crash':
                R.bad('solution', SL, short(o.where), '%s: %s [%s]' % (nm, o.value, o.desc()[:200]))
        out = [o for o in out if o.kind in ('return', 'throw')]
        R.count('traces of SolveLinear', len(out))
        rnd = random.Random(t)
        todo = []
        for _ in range(6):
            x = [Fr(rnd.choice((-3, -2, -1, 1, 2, 3, 0))) for _ in range(n)]
            b = [sum((c * y for c, y in zip(row, x)), Fr(0)) for row in A]
            todo.append(b)
            b = b[:]
            b[rnd.randrange(m)] += rnd.choice((-2, -1, 1, 2, Fr(1, 2)))
            todo.append(b)
        judge_systems(R, view, P, nm, out, [('generic', A, A, b, {at('b%d0' % i if i < 10 else 'b%d_0' % i): b[i] for i in range(m)}) for b in todo], m, n, eps, w0)


def linear_shape(R, view, P, N, m, n, eps=EPS):
    f = pick(P, SL)

    def div(I, a, b):
        I.path.events.append(('div', b, I.where()))
    I = Interp(P, stubs={NT: stub_tostring}, opts=dict(static_hook=sym_config(P, fixed={'logLevel': 0, 'epsilon': eps}), max_paths=30000, fuel=400000, div_hook=div))
    api = MX.Api(P)

    def body(I):
        r = I.call_fn(f, None, [MX.mk_mat(I, m, n, 'a'), MX.mk_mat(I, m, 1, 'b', VEC)])
        return api.read(I, r)
    out = I.explore(body)
    R.seen(I)
    nm = '%dx%d system' % (m, n)
    w0 = '%s:%s in %s' % (f['file'], f['l'], f['q'])
    for o in out:
        if o.kind == 'undecided':
            R.undecided('solution', view + ' ' + nm, '%s (%s)' % (o.exc, o.where))
        elif o.kind == 'crash':
            R.bad('solution', SL, short(o.where), '%s: %s [%s]' % (nm, o.value, o.desc()[:200]))
    out = [o for o in out if o.kind in ('return', 'throw')]
    R.count('traces of SolveLinear', len(out))
    k = {1: 120, 2: 260}.get(max(m, n), 420)
    at = lambda s: next(iter(sym(s).d))[0][0]
    consts = set()
    for o in out:
        for q, (lo, lo_o, hi, hi_o, ex, integral) in o.path.facts.iv.items():
            consts.update(abs(Fr(c)) for c in (lo, hi) if c is not None)
    consts = sorted(c for c in consts if c not in (0, 1, eps))[:12]
    todo = [(kind, A, A, b) for kind, A, b in (systems(m, n, k) if eps == EPS else []) + scaled(m, n, k // 3, eps, consts)]
    if eps == EPS:
        todo += negligible(m, n, k // 2)
    def with_env(kind, A0, A, b):
        env = {at('a%d%d' % (i, j)): A[i][j] for i in range(m) for j in range(n)}
        env.update({at('b%d0' % i): b[i] for i in range(m)})
        return kind, A0, A, b, env
    judge_systems(R, view, P, nm, out, [with_env(*t) for t in todo], m, n, eps, w0)


def judge_systems(R, view, P, nm, out, todo, m, n, eps, w0):
    """the traces of one shape against systems with known solutions"""
    for kind, A0, A, b, env in todo:
        ex = Exact(env)
        hit = [o for o in out if ex.sat(o.path.facts)]
        if not hit:
            R.undecided('solution', view + ' ' + nm, 'no trace covers the system %s' % show_sys(A, b))
            continue
        for allow in (0, 1):
            sel = [o for o in hit if all(allow in d for a, d in o.path.dom.items() if 'allowIndeterminate' in str(a.args[0]))]
            if len(sel) != 1:
                R.undecided('solution', view + ' ' + nm, '%d traces cover one system' % len(sel))
                continue
            o = sel[0]
            w = short(o.where or w0)
            what = '%s, A x = b with %s%s' % (nm, show_sys(A, b), ', allowIndeterminateEquation' if allow else '')
            den = []
            for ev in o.path.events:
                if ev[0] == 'div':
                    try:
                        den.append((abs(ex(ev[1])), ev[2]))
                    except identity.NoValue:
                        den.append((Fr(0), ev[2]))
            small = [(d, x) for d, x in den if d < eps]
            if small:
                R.bad('pivots', SL + ' small pivot', short(small[0][1]), '%s: divides by %s, which is below the tolerance' % (what, float(small[0][0])))
            else:
                R.good('pivots', what)
            if kind == 'tiny':
                continue
            want = expected(A0, b, allow)
            if o.kind == 'throw':
                cls, ek = err_kind(P, o)
                if want[0] == 'throw' and ek == want[1]:
                    R.good('errors', what)
                else:
                    R.bad('errors', SL + ' errors', w, '%s raises %s instead of %s' % (what, ek or cls, want[1] or 'giving a solution'))
                continue
            if want[0] == 'throw':
                R.bad('errors', SL + ' errors', w, '%s gives a result instead of raising %s' % (what, want[1]))
                continue
            r, c, E = o.value
            try:
                x = [ex(row[0]) for row in E] if (r, c) == (n, 1) else None
            except (identity.NoValue, TypeError):
                R.undecided('solution', view + ' ' + nm, 'a result without value')
                continue
            if x is None:
                R.bad('solution', SL, w, '%s gives a %dx%d result' % (what, r, c))
            elif any(abs(sum(a * y for a, y in zip(row, x)) - v) > (Fr(1, 10 ** 20) if kind == 'negligible' else 0) for row, v in zip(A, b)):
                R.bad('solution', SL, w, '%s gives x = %s, which does not solve it [%s]' % (what, [str(v) for v in x], o.desc()[:200]))
            else:
                R.good('solution', what)
            if kind == 'generic':
                ref = pivots(A)
                if ref is not None:
                    odd = [(d, s) for d, s in den if d != 1 and d not in ref]
                    if odd:
                        R.bad('pivots', SL + ' pivot choice', short(odd[0][1]), '%s: divides by %s although the pivots of largest absolute value are %s' % (what, float(odd[0][0]), [float(p) for p in ref]))
                    else:
                        R.good('pivots', what)


def show_sys(A, b):
    return 'A = %s, b = %s' % ([[str(x) for x in r] for r in A], [str(x) for x in b])


# ------------------------------------------------------------------ a solver run with loops abstracted
import trees as TR
import loops as LP
from checks import whole as WH

METHODS = {'NEWTON_RAPHSON': 'tomsolver::SolveByNewtonRaphson', 'LM': 'tomsolver::SolveByLM'}
x, y, z = TR.v('x'), TR.v('y'), TR.v('z')
num = TR.n
ADD = lambda a, b: ('MATH_ADD', a, b)
SUB = lambda a, b: ('MATH_SUB', a, b)
MUL = lambda a, b: ('MATH_MULTIPLY', a, b)
SIN = lambda a: ('MATH_SIN', a)

SYSTEMS = {
    'square': (['x'], [SUB(MUL(x, x), num(2))]),
    'sine': (['x'], [ADD(SIN(x), MUL(num(3), x))]),
    'far': (['x'], [SUB(x, num(5000000))]),
    'linear': (['x'], [SUB(MUL(num(2), x), num(4))]),
    'pair': (['x', 'y'], [SUB(MUL(x, y), num(1)), SUB(ADD(MUL(x, x), y), num(3))]),
    'mixed': (['y', 'x'], [SUB(ADD(SIN(x), y), num(1)), MUL(num(2), SUB(x, MUL(y, y)))]),
    'triple': (['x', 'y', 'z'], [SUB(MUL(x, y), z), SUB(ADD(x, y), num(3)), SUB(MUL(z, z), x)]),
    'short': (['x', 'y'], [SUB(MUL(x, y), num(1))]),
    'long': (['x'], [SUB(MUL(x, x), num(1)), SUB(x, num(1))]),
}


def refval(t, env):
    if t[0] == 'n':
        return t[1]
    if t[0] == 'v':
        return env[t[1]]
    return TR.app(t[0], *[refval(k, env) for k in t[1:]])


class Run:
    """one way of calling a solver"""

    def __init__(self, view, P, N, method, sysname, names=None, trees=None, fixed=None, nan=False, config_extra=None, solve_may_throw=True, entry=None, one_arg=False):
        self.view, self.P, self.N = view, P, N
        self.method, self.sysname = method, sysname
        self.names, self.trees = SYSTEMS[sysname] if names is None else (names, trees)
        self.n, self.m = len(self.names), len(self.trees)
        self.nan = nan
        self.api = MX.Api(P)
        self.tab = WH.Tab(P)
        self.entry = entry or METHODS[method]
        self.one_arg = one_arg
        self.f = pick(P, self.entry, ['const tomsolver::SymVec &'] + ([] if one_arg else [WH.CVT]))
        self.solve_may_throw = solve_may_throw
        self.fixed = {'logLevel': 0, 'epsilon': Fr(3, 4), 'allowIndeterminateEquation': 0}
        self.fixed.update(fixed or {})
        self.errors = [x['v'] for x in P.enums['tomsolver::ErrorType']['e'] if x['n'] == 'ERROR_SINGULAR_MATRIX']
        if entry:
            self.fixed['nonlinearMethod'] = [int(x['v']) for x in P.enums['tomsolver::NonlinearMethod']['e'] if x['n'] == method][0]
        if one_arg:
            self.fixed['initialValue'] = sym('initial')
        self.init = dict((k, sym('initial') if one_arg else sym(k + '.0')) for k in self.names)
        self.order = sorted(self.names)

    def solver(self, I, f, this, args):
        A, b = self.api.read(I, self.arg(args[0])), self.api.read(I, self.arg(args[1]))
        k = sum(1 for e in I.path.events if e[0] == 'solve')
        d = [sym('d%d.%d' % (k, i)) for i in range(A[1])]
        I.path.events.append(('solve', A, b, d, LP.vectors(I, self.n), I.where(), [e[1] for e in I.path.events if e[0] == 'loop']))
        if self.solve_may_throw and I.choose(2, lambda i: 'SolveLinear %s' % ('succeeds', 'fails')[i]) == 1:
            I.path.notes.append('linear solver failed')
            c = Cell(I.construct('tomsolver::MathError', [int(self.errors[0])], ['x']), typ='tomsolver::MathError')
            raise CppThrow(c, 'tomsolver::MathError', ['tomsolver::MathError'] + WH.bases_of(self.P, 'tomsolver::MathError'), I.where())
        return I.construct(VEC, [Seq('valarray', d, 'double')], ['x'])

    def arg(self, a):
        return a if isinstance(a, Cell) else Cell(a)

    def interp(self, **kw):
        self.loops = LP.Loops(self.P, LP.select(self.P, LP.numeric_work))
        opts = dict(static_hook=sym_config(self.P, fixed=self.fixed), max_paths=3000, fuel=600000, total=6000000, loops=self.loops, nan=self.nan, nan_leaves=self.nan)
        opts.update(kw)
        return Interp(self.P, stubs={NT: stub_tostring, SL: self.solver}, opts=opts)

    def body(self, I):
        eqs = WH.symvec(I, self.N, self.trees)
        args = [eqs]
        if not self.one_arg:
            args.append(WH.newtab(I, 'map', sorted(self.names), [self.init[k] for k in sorted(self.names)], self.P))
        cells = {}
        for a in args:
            WH.cells_below(a, cells)
        I.path.args = (cells, WH.snapshot(cells))
        r = I.call_fn(self.f, None, args)
        return self.tab.read(I, r if isinstance(r, Cell) else Cell(r, typ=WH.VT))

    def explore(self):
        I = self.interp()
        self.I = I
        out = self.loops.explore(I, self.body)
        return out

    def F(self, c):
        env = dict(zip(self.order, c))
        return [refval(t, env) for t in self.trees]

    def J(self, c):
        env = dict(zip(self.order, c))
        return [[refval(TR.deriv(t, k), env) for k in self.order] for t in self.trees]

    @property
    def name(self):
        return '%s%s on %s (%d equations, %d unknowns)%s' % (self.entry.split('::')[-1], ' by ' + self.method if 'nonlinearMethod' in self.fixed else '', self.sysname, self.m, self.n, ' with nan' if self.nan else '')

    # -------------------------------------------------------------- judgement of outcomes
    def outcomes(self, R, group):
        """the outcomes, or None when the loops have no invariant of the considered form"""
        out = self.explore()
        R.seen(self.I)
        if out is None:
            R.undecided(group, self.view + ' ' + self.name, 'no loop invariant of the considered form')
            return None
        for o in out:
            if o.kind == 'undecided':
                R.undecided(group, self.view + ' ' + self.name, '%s (%s)' % (o.exc, o.where))
        R.count('traces', len(out))
        return out


def equal(a, b, facts, n=8):
    """two terms agree at every sample point of the trace: True/False/None"""
    r = identity.compare(a, b, facts, n=n)
    if r == 'unknown':
        r = identity.compare(a, b, None, n=n)
    return None if r == 'unknown' else r == 'equal'


def all_equal(xs, ys, facts):
    """True when all agree, False when some differ, None otherwise"""
    un = False
    for a, b in zip(xs, ys):
        e = equal(a, b, facts)
        if e is False:
            return False
        un = un or e is None
    return None if un else True


def runs(systems, methods=('NEWTON_RAPHSON', 'LM')):
    out = []
    for view, P, N in views():
        N.unary_field = N.left
        for s in systems:
            for m in methods:
                if m == 'LM' and s in ('short', 'long') or m == 'LM' and s == 'triple' and not os.environ.get('VERIF_DEEP'):
                    continue
                out.append((view, P, N, m, s))
    out.sort(key=lambda j: (j[3] != 'LM', -len(SYSTEMS[j[4]][0])))
    return out


# ------------------------------------------------------------------ C20
def C20(R):
    R.rule('Each solver is interpreted on systems of several forms with arbitrary initial values, tolerance and an arbitrary linear solver; its loops are replaced by their invariant (all state that an '
           'iteration may change is arbitrary at the loop head, except for equalities and monotone counters that every iteration preserves). On every trace that returns, the residuals at the returned '
           'values must be within the tolerance at every sample point of the trace conditions, the names must be those of the caller, and the caller\'s table and equations must be unchanged. '
           'With not-a-number as a possible value, no trace with a residual that is not a number may return.')
    R.assume('systems: %s' % ', '.join(sorted(SYSTEMS)))
    R.assume('exact real arithmetic for the conditions of the traces')
    jobs = []
    for view, P, N, m, s in runs(['triple', 'pair', 'mixed', 'square', 'sine', 'linear', 'short', 'long', 'far']):
        jobs.append(lambda S, a=(view, P, N, m, s): result_case(S, *a))
    for view, P, N, m, s in runs(['pair'], ('NEWTON_RAPHSON',)) + runs(['linear', 'square', 'sine']):
        jobs.append(lambda S, a=(view, P, N, m, s, True): result_case(S, *a))
    for view, P, N, m, s in runs(['pair', 'square']):
        for one in (False, True):
            jobs.append(lambda S, a=(view, P, N, m, s, False, 'tomsolver::Solve', one): result_case(S, *a))
    pmap(R, jobs)


def result_case(R, view, P, N, method, sysname, nan=False, entry=None, one=False):
    run = Run(view, P, N, method, sysname, nan=nan, entry=entry, one_arg=one)
    out = run.outcomes(R, 'results')
    if out is None:
        return
    judge_results(R, run, out)


def judge_results(R, run, out):
    eps = run.fixed['epsilon']
    nret = 0
    for o in out:
        if o.kind == 'undecided':
            continue
        w = short(o.where or '%s:%s in %s' % (run.f['file'], run.f['l'], run.f['q']))
        if o.kind == 'crash':
            R.bad('results', run.entry + ' crash', w, '%s: %s [%s]' % (run.name, o.value, o.desc()[:300]))
            continue
        if hasattr(o.path, 'args'):
            if WH.snapshot(o.path.args[0]) != o.path.args[1]:
                R.bad('arguments', run.entry + ' arguments', w, '%s changes the equations or the table of the caller [%s]' % (run.name, o.desc()[:300]))
            else:
                R.good('arguments', run.name)
        if o.kind == 'throw':
            R.good('failures', run.name)
            continue
        if o.kind == 'cut':
            continue
        nret += 1
        got = o.value
        names, vals = got['names'], got['values']
        if sorted(map(str, names)) != sorted(run.names) or not isinstance(vals, list):
            R.bad('results', run.entry + ' names', w, '%s: the result has the names %s' % (run.name, names))
            continue
        env = dict(zip(names, vals))
        c = [env[k] for k in run.order]
        res = run.F(c)
        msgs = run.tab.judge(got, env)
        if msgs:
            R.bad('results', run.entry + ' table', w, '%s: %s' % (run.name, '; '.join(msgs[:3])))
        if run.nan:
            odd = [k for k in res if not_finite(o.path, k)]
            if odd:
                R.bad('results', run.entry + ' nan', w, '%s: returns although the residual %s is %s [%s]' % (run.name, T.show(odd[0]), not_finite(o.path, odd[0]), o.desc()[:300]))
            else:
                R.good('results', run.name)
            continue
        bad = verdict = None
        for vs in values_at(res, o.path.facts):
            verdict = True
            if any(not abs(v) <= float(eps) * (1 + 1e-9) for v in vs):
                bad = (None, vs)
                break
        if bad:
            R.bad('results', run.entry, w, '%s: returns values at which the residuals are %s (tolerance %s) [%s]' % (run.name, ['%g' % v for v in bad[1]], float(eps), o.desc()[:300]))
        elif verdict:
            R.good('results', run.name)
        elif all(within(o.path.facts, r, eps) for r in res):
            R.good('results', run.name)
        else:
            R.undecided('results', run.view + ' ' + run.name, 'no sample point')
    if not nret:
        R.undecided('results', run.view + ' ' + run.name, 'no trace returns')


def within(facts, r, eps):
    a = T.atom_num('abs', r) if not is_const(r) else abs(r)
    return facts.query(T.sub(a, eps), '<=') is True


def not_finite(path, t):
    for q, k in path.cls.items():
        if k != 'finite' and q == t:
            return k
    for a in T.atoms(t):
        if a.op == 'sym' and path.nanleaf.get(a, True):
            return 'not a number' if a in path.nanleaf else 'not compared with anything, so that it may be not a number'
    return None


def values_at(ts, facts, n=12, tries=20000):
    """values of the terms at points of a trace: [tuple]"""
    syms, f = identity.compiled(facts, ts)
    rnd = random.Random(3)
    gens = []
    for a in syms:
        i = facts.iv.get(sym(a.args[0])) if facts is not None else None
        lo, hi = (i[0], i[2]) if i else (None, None)
        gens.append((str(a.args[0]).startswith('#'), None if lo is None else float(lo), None if hi is None else float(hi)))
    out, base = [], []
    for k in range(tries):
        r = (3.0, 1.5, .8, 2.0)[k % 4]
        if k > tries // 2:
            r = (3.0, 1e3, 1e7, 1e12, 2.0, 1e-3, 1e-9)[k % 7]
        vs = []
        for whole, lo, hi in gens:
            if lo is None and hi is None:
                x = float(rnd.randint(0, 5)) if whole else rnd.uniform(-r, r)
            else:
                L = lo if lo is not None else min(-r, hi - r)
                H = hi if hi is not None else max(r, L + max(r, abs(L)))
                x = float(rnd.randint(int(L), int(min(H, L + 5)))) if whole else rnd.uniform(L, H)
            if not whole and k % 16 == 15:
                x = 5000000 + rnd.choice((-1, 1)) * 10.0 ** rnd.randint(-10, 6)     # about the solution of 'far'
            if not whole and k % 8 == 6 and rnd.random() < .6:
                x = round(x) + rnd.uniform(-1, 1) * 10.0 ** rnd.randint(-12, -1)   # close to a whole number
            vs.append(x)
        v = f(vs)
        if v is not None:
            out.append(v)
            base.append(vs)
            if len(out) >= n:
                break
    # the limits of the trace conditions, along one coordinate
    for vs in base[:6]:
        for i, (whole, lo, hi) in enumerate(gens):
            if whole:
                continue
            for sign in (1, -1):
                at = lambda d: f(vs[:i] + [vs[i] + sign * d] + vs[i + 1:])
                far = next((10.0 ** e for e in range(-8, 3) if at(10.0 ** e) is None), None)
                if far is None:
                    continue
                near = 0.0
                for _ in range(60):
                    mid = (near + far) / 2
                    if at(mid) is None:
                        far = mid
                    else:
                        near = mid
                v = at(near)
                if v is not None:
                    out.append(v)
    return out


# ------------------------------------------------------------------ C21
def C21(R):
    R.rule('The loops of the solvers and line searches are replaced by their invariant as for C20. For each of them one integer must strictly grow (or shrink) from the loop head to the back edge on every '
           'trace and be bounded there by the trace conditions: by a constant for a line search, by the configured maximum plus a constant for a loop that solves linear systems; the counter starts from a constant. '
           'A loop without such a counter may run forever. The bound holds for every value the numbers may take, not-a-number included. Repeated differentiation is compared with the n-th derivative for n up to 5.')
    R.assume('loops that evaluate equations, solve linear systems or call function objects are the solver loops; the remaining loops run over containers and trees (C02 treats recursion)')
    jobs = []
    for view, P, N, m, s in runs(['triple', 'pair', 'mixed', 'square', 'sine', 'linear', 'short', 'long']):
        jobs.append(lambda S, a=(view, P, N, m, s): bound_case(S, *a))
    for view, P, N, m, s in runs(['linear']):
        jobs.append(lambda S, a=(view, P, N, m, s, True): bound_case(S, *a))
    for view, P, N in views():
        for k in (1, 2):
            for which in ('Armijo', 'FindAlpha'):
                for nan in (False, True):
                    jobs.append(lambda S, a=(view, P, N, which, k, nan): search_case(S, *a))
        jobs.append(lambda S, a=(view, P, N): passes(S, *a))
        jobs.append(lambda S, a=(view, P): loop_census(S, *a))
    pmap(R, jobs)


def bound_case(R, view, P, N, method, sysname, nan=False):
    run = Run(view, P, N, method, sysname, nan=nan)
    out = run.outcomes(R, 'loops')
    if out is None:
        return
    judge_loops(R, run.name, view, P, out, sym('#config.maxIterations', True))


def judge_loops(R, name, view, P, out, limit):
    cuts, und = {}, set()
    for o in out:
        if o.kind == 'cut':
            cuts.setdefault(o.value.key, []).append(o)
    undec = [o for o in out if o.kind == 'undecided']
    heads = {}
    for o in out:
        for e in o.path.events:
            if e[0] == 'loop':
                heads.setdefault(e[1].key, e[1])
    for key, rec in sorted(heads.items()):
        cs = cuts.get(key, [])
        if not cs:
            if not undec:
                R.good('loops', '%s: %s never repeats' % (name, key))
            continue
        solver = any(e[0] == 'solve' for o in cs for e in o.path.events[o.value.events:])
        ok, why = None, 'no integer counter grows on every trace'
        for p in sorted(set.intersection(*[set(o.value.ints) for o in cs]), key=str):
            for sgn in (1, -1):
                g = [T.mul(sgn, T.sub(o.value.back[p], o.value.head[p])) for o in cs]
                if not all(o.path.facts.query(T.sub(1, d), '<=', True) is True for o, d in zip(cs, g)):
                    continue
                bound = None
                for what, lim in (('the configured maximum', limit), ('a constant', 0)):
                    for slack in (0, 1, 2, 1000, 100000):
                        if all(at_most(o.path.facts, T.mul(sgn, o.value.back[p]), T.add(T.mul(sgn, lim) if sgn > 0 else 0, slack)) for o in cs):
                            bound = (what, slack)
                            break
                    if bound:
                        break
                nm = LP.show_place(None, p)
                if bound is None:
                    why = 'the counter %s grows but the loop goes on without a test that bounds it' % nm
                elif solver and (bound[0] == 'a constant' or bound[1] > 2) and sgn > 0:
                    why = 'the counter %s is bounded by %s plus %d, not by the configured maximum' % (nm, bound[0], bound[1])
                elif solver and sgn < 0 and all(is_const(o.value.entry.get(p)) for o in cs):
                    why = 'the counter %s counts down from a constant instead of the configured maximum' % nm
                elif not all(const_start(o, key, p, limit) for o in cs):
                    why = 'the counter %s does not start from a constant' % nm
                else:
                    ok = '%s is bounded by %s + %d' % ((nm,) + bound)
        if ok:
            R.good('loops', '%s: %s: %s' % (name, key, ok))
        else:
            o = cs[0]
            R.bad('loops', 'loop:' + key, short(rec.where), '%s: %s need not end: %s [%s]' % (name, key, why, o.desc()[:300]))


def at_most(facts, a, b):
    return facts.query(T.sub(a, b), '<=', True) is True


def const_start(o, key, p, limit):
    """the counter starts from a constant, the configured maximum or the counter of an enclosing loop"""
    v = o.value.entry.get(p)
    if is_const(v):
        return abs(v) <= 100000
    own = set()
    for e in o.path.events:
        if e[0] == 'loop' and e[1] is not o.value:
            own |= T.atoms(tuple(e[1].ints.values()))
    return T.atoms(v) <= own | T.atoms(limit)


def search_case(R, view, P, N, which, k, nan):
    q = 'tomsolver::' + which
    fs = [f for f in P.find(q) if f.get('body') is not None]
    if not fs:
        return
    f = fs[0]
    L = LP.Loops(P, LP.select(P, LP.numeric_work))
    I = Interp(P, stubs={NT: stub_tostring}, opts=dict(static_hook=sym_config(P, fixed={'logLevel': 0, 'epsilon': Fr(3, 4)}), max_paths=3000, fuel=400000, total=4000000, loops=L, nan=nan))
    api = MX.Api(P)

    def value(r, c):
        def g(*args):
            n = sum(1 for e in I.path.events if e[0] == 'f')
            I.path.events.append(('f', n))
            s = [sym('f%d.%d' % (n, i)) for i in range(r * c)]
            if c == 1:
                return I.construct(VEC, [Seq('valarray', s, 'double')], ['x'])
            return I.construct(MAT, [r, c, Seq('valarray', s, 'double')], ['x', 'x', 'x'])
        return g

    def body(I):
        args = [MX.mk_mat(I, k, 1, 'x', VEC), MX.mk_mat(I, k, 1, 'd', VEC)]
        for s in f['sig'][2:]:
            t = f['_tu'].types[s['t']]
            if 'function' in t:
                args.append(value(k, k) if 'Mat (' in t.split('(')[0] + '(' else value(k, 1))
            else:
                args.append(Cell(sym('uncert')))
        return I.rv_(I.call_fn(f, None, args))
    out = L.explore(I, body)
    R.seen(I)
    name = '%s in %d dimensions%s' % (which, k, ' with nan' if nan else '')
    if out is None:
        R.undecided('loops', view + ' ' + name, 'no loop invariant of the considered form')
        return
    for o in out:
        if o.kind == 'undecided':
            R.undecided('loops', view + ' ' + name, '%s (%s)' % (o.exc, o.where))
        elif o.kind == 'crash':
            R.bad('loops', q, short(o.where), '%s: %s' % (name, o.value))
    judge_loops(R, name, view, P, out, sym('#config.maxIterations', True))


def passes(R, view, P, N):
    """the n-th derivative by Diff(e, x, n)"""
    fs = [f for f in P.find('tomsolver::Diff') if len(f['sig']) == 3 and f['_tu'].types[f['sig'][0]['t']].startswith('const std::unique_ptr') and 'basic_string' in f['_tu'].types[f['sig'][1]['t']]]
    if not fs:
        R.undecided('passes', view, 'Diff(node, name, n) not found')
        return
    t0 = MUL(MUL(x, x), MUL(x, MUL(x, x)))
    R.count('Diff overloads', len(fs))
    for f in fs:
        t = t0
        for n in range(6):
            I = Interp(P, stubs={NT: stub_tostring}, opts=dict(static_hook=sym_config(P, fixed={'logLevel': 0}), fuel=3000000))
            want = refval(t, {'x': sym('x')})

            def body(I, n=n, want=want):
                c = Cell(UPtr(TR.build(N, t0)))
                r = I.call_fn(f, None, [c, Cell('x'), n])
                r = r.v if isinstance(r, Cell) else r
                got = refval(TR.term_of(I, N, r.cell), {'x': sym('x')})
                e = equal(got, want, None)
                if e is None:
                    raise Undecided('values of the derivative')
                return [] if e else ['the result %s is not derivative number %d' % (T.show(got), n)]
            WH.simple(R, view, I, body, 'passes', f['q'] + ' passes', 'Diff(x^5, "x", %d)' % n, f)
            t = TR.deriv(t, 'x')


def loop_census(R, view, P):
    """the loops taken as solver loops"""
    sel = LP.select(P, LP.numeric_work)
    R.count('solver loops', len(sel))
    if not sel:
        R.undecided('loops', view, 'no solver loop found')


# ------------------------------------------------------------------ C22
def C22(R):
    R.rule('At every call of the linear solver (interpreted as an arbitrary one) there must be one vector c of the solver\'s state such that the matrix and right-hand side are the Jacobian and residual of the '
           'equations at c (Newton: J(c), -F(c); LM: J\'J plus a multiple of the identity, -J\'F), as terms at every sample point. The same variable holds c at the head of the loop, starts with the '
           'caller\'s values, and at each back edge holds c plus a multiple of the step (Newton: exactly c plus the step) or, for a trial that LM rejects, c itself.')
    R.assume('systems: %s; exact real arithmetic' % ', '.join(sorted(SYSTEMS)))
    jobs = []
    for view, P, N, m, s in runs(['triple', 'pair', 'mixed', 'square', 'sine', 'short', 'long']):
        jobs.append(lambda S, a=(view, P, N, m, s): step_case(S, *a))
    for view, P, N, m, s in runs(['pair', 'square']):
        for one in (False, True):
            jobs.append(lambda S, a=(view, P, N, m, s, 'tomsolver::Solve', one): step_case(S, *a))
    pmap(R, jobs)


def current(run, o, ev):
    """places whose value the linear system belongs to: {place: value}; second: whether something stayed undecided"""
    _, A, b, d, places, where, heads = ev
    out, byval, und = {}, {}, False
    facts = o.path.facts
    for p, c in places.items():
        key = tuple(LP.vkey(v) for v in c)
        if key not in byval:
            byval[key] = fits(run, A, b, c, facts)
        r = byval[key]
        if r is True:
            out[p] = c
        elif r is None:
            und = True
    return out, und


def fits(run, A, b, c, facts):
    F, J = run.F(c), run.J(c)
    n = run.n
    if run.method == 'NEWTON_RAPHSON':
        if (A[0], A[1], b[0], b[1]) != (run.m, n, run.m, 1):
            return False
        return all_equal([v for r in A[2] for v in r] + [r[0] for r in b[2]], [v for r in J for v in r] + [T.neg(v) for v in F], facts)
    if (A[0], A[1], b[0], b[1]) != (n, n, n, 1):
        return False
    JtF = [T.neg(total(T.mul(J[k][i], F[k]) for k in range(run.m))) for i in range(n)]
    r = all_equal([v[0] for v in b[2]], JtF, facts)
    if r is not True:
        return r
    D = [[T.sub(A[2][i][j], total(T.mul(J[k][i], J[k][j]) for k in range(run.m))) for j in range(n)] for i in range(n)]
    return all_equal([D[i][j] for i in range(n) for j in range(n)], [D[0][0] if i == j else 0 for i in range(n) for j in range(n)], facts)


def total(xs):
    s = 0
    for v in xs:
        s = T.add(s, v)
    return s


def step_case(R, view, P, N, method, sysname, entry=None, one=False):
    run = Run(view, P, N, method, sysname, entry=entry, one_arg=one)
    out = run.outcomes(R, 'steps')
    if out is None:
        return
    judge_steps(R, run, out)


def judge_steps(R, run, out):
    good = None
    where = '%s:%s in %s' % (run.f['file'], run.f['l'], run.f['q'])
    seen = {}
    solves = []
    for o in out:
        if o.kind == 'undecided':
            continue
        evs = [e for e in o.path.events if e[0] == 'solve']
        for i, e in enumerate(evs):
            k = id(e)
            cur, und = current(run, o, e)
            if not cur and und:
                R.undecided('linear systems', run.view + ' ' + run.name, 'values of the linear system')
                return
            if not cur:
                R.bad('linear systems', run.entry + ' system', short(e[5]), '%s: the matrix and right-hand side of step %d are not the Jacobian and residual at any values the solver holds: A = %s, b = %s, values %s [%s]' % (
                    run.name, i + 1, MX.show(T.show(e[1][2])), T.show(e[2][2]), T.show(sorted({tuple(repr(v) for v in c) for c in e[4].values()})[:4]), o.desc()[:200]))
                continue
            R.good('linear systems', run.name)
            good = set(cur) if good is None else good & set(cur)
            solves.append((o, i, e, cur))
    if not solves:
        R.undecided('linear systems', run.view + ' ' + run.name, 'no linear system is solved')
        return
    if not good:
        if good is not None and not any(v['key'] == run.entry + ' system' for v in R.viol.values()):
            R.bad('steps', run.entry + ' iterate', short(where), '%s: no variable holds the current values in every iteration' % run.name)
        return
    best = None
    for p in sorted(good, key=str):
        errs = place_errors(run, out, solves, p)
        if best is None or len(errs) < len(best[1]):
            best = (p, errs)
        if not errs:
            break
    p, errs = best
    if not errs:
        R.good('steps', '%s: %s holds the current values' % (run.name, LP.show_place(None, p)), n=len(out))
        return
    for e in errs:
        if e[0] == 'und':
            R.undecided('steps', run.view + ' ' + run.name, e[1])
        else:
            R.bad('steps', run.entry + ' ' + e[0], e[2], '%s: %s' % (run.name, e[1]))


def vec_at(vals, p, n):
    got = [v for q, v in vals.items() if q[:-1] == p and q[-1] != '#']
    return got if len(got) == n else None


def place_errors(run, out, solves, p):
    """what contradicts that the variable p holds the iterate"""
    errs = []
    init = [run.init[k] for k in run.order]
    n = run.n
    for o, i, e, cur in solves:
        heads = e[6]
        c = cur[p]
        if heads:
            h = vec_at(heads[-1].head, p, n)
            if h is not None and not same_vec(h, c):
                errs.append(('iterate', 'between the loop head and the linear system %s changes' % LP.show_place(None, p), short(e[5])))
            en = vec_at(heads[0].entry, p, n)
            if en is None or not same_vec(en, init):
                errs.append(('initial values', 'the iteration starts with %s = %s instead of the initial values of the caller' % (LP.show_place(None, p), T.show(en)), short(e[5])))
        elif i == 0 and not same_vec(c, init):
            errs.append(('initial values', 'the first step is taken at %s instead of the initial values' % T.show(c), short(e[5])))
    for o in out:
        if o.kind != 'cut':
            continue
        rec = o.value
        evs = [e for e in o.path.events if e[0] == 'solve']
        if not evs or rec not in evs[-1][6] and not any(h is rec for h in evs[-1][6]):
            continue
        e = evs[-1]
        c = e[4].get(p)
        b = vec_at(rec.back, p, n)
        if c is None or b is None:
            errs.append(('und', 'the iterate is out of sight at the back edge'))
            continue
        w = short(rec.where)
        delta = [T.sub(u, v) for u, v in zip(b, c)]
        d = e[3]
        if run.method == 'NEWTON_RAPHSON':
            r = all_equal(delta, d, o.path.facts)
            if r is not True:
                errs.append(('und', 'values of the step') if r is None else ('update', 'after the step the variables are %s instead of %s plus the step %s [%s]' % (T.show(b), T.show(c), T.show(d), o.desc()[:200]), w))
            continue
        if same_vec(b, c):
            # the trial was rejected: it must not be better, and the same point is tried again with other damping
            t = trial(run, rec, c, d)
            if t is not None and improves(run, o, c, t) == 'always':
                errs.append(('update', 'a step that lowers the residual is dropped [%s]' % o.desc()[:200], w))
            continue
        cross = [T.sub(T.mul(delta[i], d[j]), T.mul(delta[j], d[i])) for i in range(n) for j in range(i)]
        r = all_equal(cross, [0] * len(cross), o.path.facts)
        if r is False:
            errs.append(('update', 'the variables are moved by %s, which is no multiple of the step %s [%s]' % (T.show(delta), T.show(d), o.desc()[:200]), w))
        elif r is None:
            errs.append(('und', 'values of the step'))
        elif n == 1 and not mentions(delta[0], d[0]):
            errs.append(('update', 'the variable is moved by %s, which does not depend on the step' % T.show(delta), w))
        elif improves(run, o, c, b) == 'worse':
            errs.append(('update', 'a trial that does not lower the residual moves the variables [%s]' % o.desc()[:200], w))
    return errs


def mentions(t, d):
    return bool(T.atoms(t) & T.atoms(d))


def same_vec(a, b):
    return len(a) == len(b) and all(LP.same(u, v) or equal(u, v, None) is True for u, v in zip(a, b))


def trial(run, rec, c, d):
    """a vector of the state that is c plus a multiple of the step"""
    groups = {}
    for q, v in rec.final.items():
        if q[-1] != '#' and LP.numeric(v):
            groups.setdefault(q[:-1], []).append(v)
    cands = [vs for vs in groups.values() if len(vs) == run.n and not same_vec(vs, c)]
    cands += [[T.add(u, v) for u, v in zip(c, vs)] for vs in cands if not all(LP.same(u, v) for u, v in zip(vs, d))]
    for vs in cands:
        if True:
            delta = [T.sub(u, v) for u, v in zip(vs, c)]
            if any(mentions(t, d[0]) for t in delta if not is_const(t)):
                cross = [T.sub(T.mul(delta[i], d[j]), T.mul(delta[j], d[i])) for i in range(run.n) for j in range(i)]
                if all_equal(cross, [0] * len(cross), None) is True and all(mentions(t, k) for t, k in zip(delta, d) if not is_const(t)):
                    return vs
    return None


def improves(run, o, c, t):
    """'always' / 'worse' / 'mixed' / None: whether the residual at t is smaller than at c on the points of the trace"""
    a, b = run.F(c), run.F(t)
    n0 = total(T.mul(v, v) for v in a)
    n1 = total(T.mul(v, v) for v in b)
    better = worse = 0
    for u, v in values_at([n0, n1], o.path.facts, n=8):
        if u != u or v != v or abs(u - v) <= 1e-9 * max(1, abs(u)):
            continue
        if v < u:
            better += 1
        else:
            worse += 1
    if not better and not worse:
        return None
    return 'always' if not worse and better >= 5 else 'worse' if worse else None


# ------------------------------------------------------------------ C17
def C17(R):
    R.rule('The solvers are interpreted, loops replaced by their invariant, on systems of m equations in n unknowns for m, n = 1..3, with assertions enabled; every addition, subtraction, product and '
           'assignment of values of numeric matrices and vectors on every trace is an obligation that the shapes of its operands agree; a method that cannot treat a shape must raise the documented '
           'error before anything is combined. SolveLinear is interpreted the same way on every shape, and symbolic products on all pairs of shapes up to 3x3.')
    R.assume('m, n up to 3 stand for all sizes')
    jobs = []
    for view in VIEWS:
        P = load(view, ndebug=False)
        N = Nodes(P)
        N.unary_field = N.left
        for m in (3, 2, 1):
            for n in (3, 2, 1):
                for method in ('LM', 'NEWTON_RAPHSON'):
                    if method == 'LM' and m == n == 3 and not os.environ.get('VERIF_DEEP'):
                        continue
                    jobs.append(lambda S, a=(view, P, N, method, m, n, 0): shape_case(S, *a))
        for method in METHODS:
            for m, n, extra in ((1, 1, 1), (2, 1, 1), (1, 2, 1)):
                jobs.append(lambda S, a=(view, P, N, method, m, n, extra): shape_case(S, *a))
        for m in (1, 2, 3):
            for n in (1, 2, 3):
                if (m, n) != (3, 3):
                    jobs.append(lambda S, a=(view, P, m, n): linear_shapes(S, *a))
        jobs.append(lambda S, a=(view, P, N): products(S, *a))
    pmap(R, jobs)


def family(m, n):
    """m equations in which all of n unknowns occur"""
    names = ['x', 'y', 'z'][:n]
    v = [TR.v(k) for k in names]
    eqs = [SUB(MUL(v[i % n], v[(i + 1) % n]), num(i + 1)) for i in range(m)]
    for k in range(m + 1, n):
        eqs[-1] = ADD(eqs[-1], v[k])
    return names, eqs


def shape_obligations(P, api, seen):
    """stubs that compare the shapes of the operands and leave the operation itself to the interpreter"""
    def shape(I, a):
        c = a if isinstance(a, Cell) else Cell(a)
        o = c.v
        if isinstance(o, UPtr):
            return None
        if not isinstance(o, Obj) or o.cls not in (MAT, VEC):
            return None
        return I.res(I.rv_(I.call_fn(api.rows, c, []))), I.res(I.rv_(I.call_fn(api.cols, c, [])))

    def same(I, f, this, args):
        ops = ([this] if this is not None else []) + list(args)
        if len(ops) == 2:
            a, b = shape(I, ops[0]), shape(I, ops[1])
            if a and b:
                I.path.notes.append(('shapes', f['n'], a, b, a == b, I.where()))
        return NotImplemented

    def product(I, f, this, args):
        ops = ([this] if this is not None else []) + list(args)
        if len(ops) == 2:
            a, b = shape(I, ops[0]), shape(I, ops[1])
            if a and b:
                I.path.notes.append(('shapes', f['n'], a, b, a[1] == b[0], I.where()))
        return NotImplemented
    st = {}
    for f in P.all_defs:
        ps = [strip_cvref(f['_tu'].types[s['t']]) for s in f['sig']]
        ops = ([f['cls']] if f.get('cls') and not f.get('static') else []) + ps
        if len(ops) == 2 and all(t in (MAT, VEC) for t in ops):
            if f['n'] in ('operator+', 'operator-', 'operator+=', 'operator-=', 'Dot', 'EachDivide', 'EachMultiply'):
                st[f['q']] = same
            elif f['n'] in ('operator*', 'operator*='):
                st[f['q']] = product
    return st


def shape_case(R, view, P, N, method, m, n, extra):
    names, eqs = family(m, n)
    names = names + ['w'] * extra
    run = Run(view, P, N, method, '%dx%d%s' % (m, n, '+' if extra else ''), names=names, trees=eqs, fixed={'allowIndeterminateEquation': None})
    run.fixed.pop('allowIndeterminateEquation')
    n += extra
    api = run.api

    def linear(I, f, this, args):
        A, b = run.arg(args[0]), run.arg(args[1])
        r, c = I.res(I.rv_(I.call_fn(api.rows, A, []))), I.res(I.rv_(I.call_fn(api.cols, A, [])))
        rb = I.res(I.rv_(I.call_fn(api.rows, b, [])))
        I.path.notes.append(('shapes', 'SolveLinear', (r, c), (rb, 1), r == rb, I.where()))
        I.path.events.append(('solve', None, None, None, None, I.where(), []))
        kinds = ['ERROR_OVER_DETERMINED_EQUATIONS'] if r > c else ['ok', 'ERROR_SINGULAR_MATRIX', 'ERROR_INFINITY_SOLUTIONS' if r == c else 'ERROR_INDETERMINATE_EQUATION']
        k = kinds[I.choose(len(kinds), lambda i: 'SolveLinear: ' + kinds[i])]
        if k != 'ok':
            raise CppThrow(math_error(I, P, k), 'tomsolver::MathError', ['tomsolver::MathError'] + WH.bases_of(P, 'tomsolver::MathError'), I.where())
        q = sum(1 for e in I.path.events if e[0] == 'solve')
        return I.construct(VEC, [Seq('valarray', [sym('d%d.%d' % (q, i)) for i in range(c)], 'double')], ['x'])
    run.solver = linear
    out = None
    I = run.interp()
    I.stubs.update(shape_obligations(P, api, None))
    I.stubs['tomsolver::internal::NodeImpl::CheckParent'] = lambda I, f, this, args: None      # links of nodes are C12
    run.I = I
    run.explore = lambda: run.loops.explore(I, run.body)
    out = run.outcomes(R, 'shapes')
    if out is None:
        return
    for o in out:
        if o.kind == 'undecided':
            continue
        w = short(o.where or '%s:%s in %s' % (run.f['file'], run.f['l'], run.f['q']))
        for s in o.path.notes:
            if isinstance(s, tuple) and s[0] == 'shapes':
                if s[4]:
                    R.good('shapes', '%s: %s of %dx%d and %dx%d' % ((run.name, s[1]) + s[2] + s[3]))
                else:
                    R.bad('shapes', 'shapes:' + run.entry, short(s[5]), '%s: %s of %dx%d and %dx%d [%s]' % ((run.name, s[1]) + s[2] + s[3] + (o.desc()[:200],)))
        if o.kind == 'crash':
            R.bad('shapes', 'shapes:' + run.entry, w, '%s: %s [%s]' % (run.name, o.value, o.desc()[:200]))
    if method == 'LM' and m != n:
        want = 'ERROR_OVER_DETERMINED_EQUATIONS' if m > n else 'ERROR_INDETERMINATE_EQUATION'
        for o in out:
            if o.kind in ('undecided', 'crash'):
                continue
            w = short(o.where or '%s:%s in %s' % (run.f['file'], run.f['l'], run.f['q']))
            if o.kind != 'throw':
                R.bad('errors', 'unsupported shape:' + run.entry, w, '%s goes on instead of raising %s' % (run.name, want))
            elif err_kind(P, o)[1] != want:
                R.bad('errors', 'unsupported shape:' + run.entry, w, '%s raises %s instead of %s' % (run.name, err_kind(P, o), want))
            elif any(isinstance(s, tuple) and s[0] == 'shapes' for s in o.path.notes):
                R.bad('errors', 'unsupported shape:' + run.entry, w, '%s combines matrices before it raises %s' % (run.name, want))
            else:
                R.good('errors', run.name)


def math_error(I, P, kind):
    v = [int(k['v']) for k in P.enums['tomsolver::ErrorType']['e'] if k['n'] == kind][0]
    return Cell(I.construct('tomsolver::MathError', [v], ['x']), typ='tomsolver::MathError')


def linear_shapes(R, view, P, m, n):
    f = pick(P, SL)
    api = MX.Api(P)
    I = Interp(P, stubs={NT: stub_tostring}, opts=dict(static_hook=sym_config(P, fixed={'logLevel': 0, 'epsilon': EPS}), max_paths=30000, fuel=400000))
    I.stubs.update(shape_obligations(P, api, None))
    out = I.explore(lambda I: api.read(I, I.call_fn(f, None, [MX.mk_mat(I, m, n, 'a'), MX.mk_mat(I, m, 1, 'b', VEC)]))[:2])
    R.seen(I)
    nm = 'SolveLinear of a %dx%d system' % (m, n)
    for o in out:
        if o.kind == 'undecided':
            R.undecided('linear systems', view + ' ' + nm, '%s (%s)' % (o.exc, o.where))
        elif o.kind == 'crash':
            R.bad('linear systems', 'shapes:' + SL, short(o.where), '%s: %s [%s]' % (nm, o.value, o.desc()[:200]))
        elif o.kind == 'return' and o.value != (n, 1):
            R.bad('linear systems', 'shapes:' + SL, short('%s:%s in %s' % (f['file'], f['l'], f['q'])), '%s gives %dx%d [%s]' % ((nm,) + o.value + (o.desc()[:200],)))
        else:
            R.good('linear systems', nm)


def products(R, view, P, N):
    api = MX.Api(P)
    f = pick(P, MX.SMAT + '::operator*', [MX.CS])
    for r in (1, 2, 3):
        for c in (1, 2, 3):
            for p in (1, 2, 3):
                for q in (1, 2, 3):
                    if os.environ.get('VERIF_DEEP') is None and (r, q) not in ((1, 1), (2, 3), (3, 2), (2, 2), (1, 3)):
                        continue
                    I = Interp(P, stubs={NT: stub_tostring}, opts=dict(static_hook=sym_config(P, fixed={'logLevel': 0}), fuel=800000))

                    def body(I):
                        a, b = MX.mk_sym(I, N, api, r, c), MX.mk_sym(I, N, api, p, q)
                        v = Cell(I.call_fn(f, a, [b]))
                        return I.res(I.rv_(I.call_fn(api.srows, v, []))), I.res(I.rv_(I.call_fn(api.scols, v, [])))
                    nm = 'product of %dx%d and %dx%d' % (r, c, p, q)
                    for o in I.explore(body):
                        w = short(o.where or '%s:%s in %s' % (f['file'], f['l'], f['q']))
                        if o.kind == 'undecided':
                            R.undecided('products', view + ' ' + nm, '%s (%s)' % (o.exc, o.where))
                        elif o.kind == 'crash':
                            R.bad('products', 'product', w, '%s: %s' % (nm, o.value))
                        elif o.kind == 'throw':
                            if c != p and err_kind(P, o)[1] == 'SIZE_NOT_MATCH':
                                R.good('products', nm)
                            else:
                                R.bad('products', 'product', w, '%s raises %s' % (nm, err_kind(P, o)))
                        elif c != p:
                            R.bad('products', 'product', w, '%s gives a result instead of raising SIZE_NOT_MATCH' % nm)
                        elif o.value != (r, q):
                            R.bad('products', 'product', w, '%s has shape %s' % (nm, o.value))
                        else:
                            R.good('products', nm)
                    R.seen(I)
