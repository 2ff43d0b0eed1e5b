"""C16 numeric matrices, C30 symbolic matrices, C29 Jacobian: concrete small shapes with symbolic entries"""
from checks.common import *
import trees as TR
import random
import os

MAT, VEC, SMAT, SVEC = 'tomsolver::Mat', 'tomsolver::Vec', 'tomsolver::SymMat', 'tomsolver::SymVec'
CM, CV, CS, CSV = ('const %s &' % x for x in (MAT, VEC, SMAT, SVEC))
EPS = T.Fraction(3, 4)


def ename(pre, i, j):
    return '%s%d%d' % (pre, i, j) if i < 10 and j < 10 else '%s%d_%d' % (pre, i, j)


def entries(r, c, pre):
    return [[sym(ename(pre, i, j)) for j in range(c)] for i in range(r)]


def mk_mat(I, r, c, pre, cls=MAT):
    """a matrix with symbolic entries (by the library's own constructor)"""
    vals = Seq('valarray', [x for row in (entries(r, c, pre) if isinstance(pre, str) else pre) for x in row], 'double')
    if cls == VEC:
        return Cell(I.construct(VEC, [vals], ['x']), typ=VEC)
    return Cell(I.construct(MAT, [r, c, vals], ['x', 'x', 'x']), typ=MAT)


class Api:
    def __init__(self, P):
        self.P = P
        self.rows, self.cols = pick(P, MAT + '::Rows', []), pick(P, MAT + '::Cols', [])
        self.value = pick(P, MAT + '::Value', ['int', 'int'], True)
        self.srows, self.scols = pick(P, SMAT + '::Rows', []), pick(P, SMAT + '::Cols', [])
        self.svalue = pick(P, SMAT + '::Value', ['int', 'int'], True)
        self.smut = pick(P, SMAT + '::Value', ['int', 'int'], False)

    def read(self, I, c):
        """shape and entries as its own accessors give them"""
        if not isinstance(c, Cell):
            c = Cell(c)
        r, k = I.res(I.rv_(I.call_fn(self.rows, c, []))), I.res(I.rv_(I.call_fn(self.cols, c, [])))
        if not isinstance(r, int) or not isinstance(k, int):
            raise Undecided('symbolic shape')
        return (r, k, [[I.rv_(I.call_fn(self.value, c, [i, j])) for j in range(k)] for i in range(r)])

    def sread(self, I, N, c):
        if not isinstance(c, Cell):
            c = Cell(c)
        r, k = I.res(I.rv_(I.call_fn(self.srows, c, []))), I.res(I.rv_(I.call_fn(self.scols, c, [])))
        out = []
        for i in range(r):
            row = []
            for j in range(k):
                u = I.call_fn(self.svalue, c, [i, j])
                u = u.v if isinstance(u, Cell) else u
                if not isinstance(u, UPtr) or u.cell is None:
                    row.append(None)
                else:
                    d = N.well_formed(I, u.cell, 'entry (%d,%d)' % (i, j))
                    row.append(('bad', '; '.join(d)) if d else TR.term_of(I, N, u.cell))
            out.append(row)
        return (r, k, out)


def val(x, e):
    if isinstance(x, (bool, str)) or x is None:
        return x
    if isinstance(x, tuple) and len(x) == 3 and isinstance(x[2], list):
        return (x[0], x[1], [[val(y, e) for y in row] for row in x[2]])
    if isinstance(x, list):
        return [val(y, e) for y in x]
    return identity.numeval(x, e)


def close(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        if a != a or b != b:
            return a != a and b != b
        return identity.close(float(a), float(b), 1e-9)
    return a == b


def show(x):
    if isinstance(x, tuple) and len(x) == 3:
        return '%dx%d %s' % (x[0], x[1], show(x[2]))
    if isinstance(x, list):
        return '[' + ', '.join(show(y) for y in x) + ']'
    if isinstance(x, float):
        return '%g' % x
    return str(x)


def points(syms, facts, n=10, seed=5):
    """assignments for a trace: generic ones, nearly equal ones, small integers"""
    rnd = random.Random(seed)
    out = []
    gens = [lambda a, e: rnd.uniform(-3, 3), lambda a, e: e.setdefault(None, rnd.uniform(-2, 2)) + rnd.uniform(-.3, .3), lambda a, e: float(rnd.randint(-2, 2)),
            lambda a, e: rnd.uniform(-.6, .6), lambda a, e: e.setdefault(('p', a.args[0][1:]), rnd.uniform(-3, 3)) + rnd.uniform(-.5, .5),
            lambda a, e: e.setdefault(('p', a.args[0][1:]), rnd.uniform(-3, 3)) + (1 if a.args[0][0] == 'b' else 0) * rnd.uniform(-.2, 1.5)]
    for k in range(n * 40):
        e = {}
        g = gens[k % len(gens)]
        for a in syms:
            e[a] = g(a, e)
        e = {a: x for a, x in e.items() if isinstance(a, Atom)}
        if facts is None or identity.sat(facts, e):
            out.append(e)
            if len(out) >= n:
                break
    if not out and facts is not None:
        out = identity.assignments(facts, syms, 3, lo=-3, hi=3)
    return out


def judge(R, view, f, out, group, key, name, syms, spec, may_throw=None, I=None, N=None):
    for o in out:
        w = short(o.where or '%s:%s in %s' % (f.get('file'), f.get('l'), f['q']))
        if o.kind == 'undecided':
            R.undecided(group, view + ' ' + name, '%s (%s)' % (o.exc, o.where))
            continue
        if o.kind == 'crash':
            R.bad(group, key, w, '%s: %s' % (name, o.value))
            continue
        envs = points(syms, o.path.facts)
        if not envs:
            R.count('traces without a sample point')
            continue
        if o.kind == 'throw':
            k = err_kind(R.P, o)
            bad = None
            for e in envs:
                s = spec(e)
                if not (isinstance(s, tuple) and len(s) == 2 and s[0] == 'throw'):
                    bad = 'raises %s where a result is expected' % (k[0],)
                elif s[1] not in k:
                    bad = 'raises %s/%s instead of %s' % (k[0], k[1], s[1])
                if bad:
                    break
            if bad:
                R.bad(group, key, w, '%s %s' % (name, bad))
            else:
                R.good(group, name + ' raises')
            continue
        bad = und = None
        for e in envs:
            want = spec(e)
            if isinstance(want, tuple) and len(want) == 2 and want[0] == 'throw':
                bad = 'returns %s instead of raising %s' % (show(o.value), want[1])
                break
            try:
                got = val(o.value, e)
            except identity.NoValue as x:
                und = 'value of %s' % (x,)
                break
            if isinstance(want, Pred):
                m = want.test(got)
                if m:
                    bad = m
                    break
                continue
            if not close(got, want):
                bad = 'gives %s instead of %s at %s' % (show(got), show(want), ', '.join('%r=%g' % x for x in list(e.items())[:12]))
                break
        if bad:
            R.bad(group, key, w, '%s %s [%s]' % (name, bad, o.desc()[:200]))
        elif und:
            R.undecided(group, view + ' ' + name, und)
        else:
            R.good(group, name)


class Pred:
    def __init__(self, test):
        self.test = test


# ------------------------------------------------------------------ reference formulas on lists of lists
def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(len(b))) for j in range(len(b[0]))] for i in range(len(a))]


def det(a):
    n = len(a)
    if n == 1:
        return a[0][0]
    return sum((-1) ** j * a[0][j] * det(minor(a, 0, j)) for j in range(n))


def minor(a, p, q):
    return [[x for j, x in enumerate(row) if j != q] for i, row in enumerate(a) if i != p]


def M(a):
    return (len(a), len(a[0]), a)


def ew(f, *ms):
    return [[f(*xs) for xs in zip(*rows)] for rows in zip(*ms)]


def lead(a, n):
    return [row[:n] for row in a[:n]]


def C16(R):
    R.rule('Every Mat and Vec operation is interpreted on every shape up to the bound with symbolic entries (trace partitioning on comparisons); '
           'shape and entries of the result, as the accessors give them, must equal the defining formula of the operation, and operands that are '
           'not assigned to must be unchanged.')
    R.assume('shapes up to 3x4 (thorough: 5x5), and ten larger ones up to 33 rows or columns for the operations without case distinctions, stand for all shapes: index arithmetic is linear in the shape; real arithmetic')
    deep = bool(os.environ.get('VERIF_DEEP'))
    jobs = []
    for view, P, N in views():
        R.P = P
        for case in cases(P, 4 if deep else 3, deep):
            jobs.append(lambda S, a=(view, P, case): run_case(S, *a))
    pmap(R, jobs)


def run_case(R, view, P, case):
    R.P = P
    key, name, f, mk, call, spec, keep = case
    if isinstance(f, Exception):
        R.undecided('anchors', view + ' ' + key, str(f))
        return
    api = Api(P)
    syms = set()

    def body(I):
        ops = mk(I)
        before = [api.read(I, c) if isinstance(c, Cell) and isinstance(c.v, Obj) else None for c in ops]
        for b in before:
            if b:
                for row in b[2]:
                    syms.update(a for x in row for a in identity.syms_of(x))
        for x in ops:
            if isinstance(x, Poly):
                syms.update(identity.syms_of(x))
        r = call(I, *ops)
        rv = r.v if isinstance(r, Cell) else r
        if isinstance(rv, Obj):
            res = api.read(I, r)
        elif isinstance(rv, SliceRef):
            res = [c.v for c in rv.cells]
        elif isinstance(rv, Seq):
            res = rv.vals()
        elif isinstance(rv, list):
            res = rv
        else:
            res = I.truth(rv) if isinstance(rv, Atom) and rv.args[-1:] == ('bool',) else rv
        after = [api.read(I, c) if isinstance(c, Cell) and isinstance(c.v, Obj) and i in keep else None for i, c in enumerate(ops)]
        for i, (b, a) in enumerate(zip(before, after)):
            if a is not None and a != b:
                raise Crash('operand %d is changed from %s to %s' % (i, show(b), show(a)), '%s:%s in %s' % (f.get('file'), f.get('l'), f['q']))
        return res
    I = Interp(P, opts=dict(static_hook=sym_config(P, fixed={'epsilon': EPS}), fuel=3000000))
    out = I.explore(body)
    R.seen(I)
    judge(R, view, f, out, 'formula', key, name, sorted(syms, key=lambda a: a.id), spec)


def num(e, pre, r, c):
    return [[e[Atom('sym', ename(pre, i, j))] for j in range(c)] for i in range(r)]


def cases(P, n, deep):
    out = []
    eps = float(EPS)

    def add(key, name, q, sig, const, ops, spec, keep=None, call=None):
        """ops: list of ('m'|'v', r, c, prefix) or values; member functions take the first as object"""
        try:
            f = pick(P, q, sig, const)
        except AnalysisBroken as e:
            out.append((key, name, e, None, None, None, None))
            return
        member = f.get('cls') is not None

        def mk(I):
            return [mk_mat(I, o[1], o[2], o[3], VEC if o[0] in 'vV' else MAT) if isinstance(o, tuple) else o for o in ops]

        def dflt(I, *cs):
            if member:
                return I.call_fn(f, cs[0], list(cs[1:]))
            return I.call_fn(f, None, list(cs))
        if keep is None:
            keep = range(len(ops))

        def sp(e):
            xs = [o[3] if isinstance(o, tuple) and o[0] in 'MV' else num(e, o[3], o[1], o[2]) if isinstance(o, tuple) else identity.numeval(o, e) if isinstance(o, Poly) else o for o in ops]
            return spec(*xs)
        out.append((key, name, f, mk, (lambda I, *cs: call(I, f, *cs)) if call else dflt, sp, tuple(keep)))

    k = sym('k')
    shapes = [(r, c) for r in range(1, n + 1) for c in range(1, n + 2)]
    for r, c in shapes:
        A, B = ('m', r, c, 'a'), ('m', r, c, 'b')
        nm = '%dx%d' % (r, c)
        m, mm = MAT + '::', lambda q: MAT + '::' + q
        # construction
        out.append(('construct', 'Mat(%d,%d,k)' % (r, c), pick(P, MAT + '::Mat', ['int', 'int', 'double']), lambda I: [k],
                    lambda I, k, r=r, c=c: Cell(I.construct(MAT, [r, c, k], ['x', 'x', 'x'])), lambda e, r=r, c=c: M([[e[Atom('sym', 'k')]] * c] * r), ()))
        out.append(('construct', 'Mat(%d,%d)' % (r, c), pick(P, MAT + '::Mat', ['int', 'int', 'double']), lambda I: [k],
                    lambda I, k, r=r, c=c: Cell(I.construct(MAT, [r, c], ['x', 'x'])), lambda e, r=r, c=c: M([[0.0] * c] * r), ()))
        il = 'std::initializer_list<double>'
        for ragged in (False, True):
            widths = [c] * r
            if ragged:
                if r < 2:
                    continue
                widths[r // 2 - 1] = max(0, c - 1)

            def build(I, *xs, r=r, c=c, widths=widths):
                rows = [Seq('initializer_list', [x for x in entries(r, c, 'a')[i][:w]], 'double') for i, w in enumerate(widths)]
                return Cell(I.construct(MAT, [Seq('initializer_list', rows, il)], ['x']))
            if max(widths) == c:
                out.append(('construct-list', 'Mat{rows %s}' % widths, pick(P, MAT + '::Mat', ['std::initializer_list<std::initializer_list<double>>']),
                            lambda I, r=r, c=c: [x for row in entries(r, c, 'a') for x in row], build,
                            lambda e, r=r, c=c, widths=widths: M([[x if j < w else 0.0 for j, x in enumerate(row)] for row, w in zip(num(e, 'a', r, c), widths)]), ()))
        add('rows', 'Rows ' + nm, mm('Rows'), [], None, [A], lambda a: len(a))
        add('cols', 'Cols ' + nm, mm('Cols'), [], None, [A], lambda a: len(a[0]))
        for const in (True, False):
            cells = {(0, 0), (r - 1, c - 1), (0, c - 1), (r - 1, 0)}
            for i, j in sorted(cells):
                add('value', 'Value(%d,%d) %s' % (i, j, nm), mm('Value'), ['int', 'int'], const, [A, i, j], lambda a, i, j: a[i][j])
            for i in range(r):
                for off in range(c):
                    add('row', 'Row(%d,%d) %s' % (i, off, nm), mm('Row'), ['int', 'int'], const, [A, i, off], lambda a, i, o: a[i][o:])
            for j in range(c):
                for off in range(r):
                    add('col', 'Col(%d,%d) %s' % (j, off, nm), mm('Col'), ['int', 'int'], const, [A, j, off], lambda a, j, o: [x[j] for x in a[o:]])

        # writing through Row / Col
        def put(I, f, a, i, off):
            v = I.call_fn(f, a, [i, off])
            v = v.v if isinstance(v, Cell) else v
            for t, cell in enumerate(v.cells):
                cell.v = t + 100
            return a

        def row_put(a, i, off):
            a = [list(x) for x in a]
            for t in range(len(a[0]) - off):
                a[i][off + t] = 100.0 + t
            return M(a)

        def col_put(a, j, off):
            a = [list(x) for x in a]
            for t in range(len(a) - off):
                a[off + t][j] = 100.0 + t
            return M(a)
        add('row', 'Row(%d,0) = ... %s' % (r - 1, nm), mm('Row'), ['int', 'int'], False, [A, r - 1, 0], row_put, keep=[], call=put)
        add('col', 'Col(%d,0) = ... %s' % (c - 1, nm), mm('Col'), ['int', 'int'], False, [A, c - 1, 0], col_put, keep=[], call=put)
        # arithmetic
        if r * c <= 6 or deep:
            add('eq-scalar', '== k ' + nm, mm('operator=='), ['double'], None, [A, k], lambda a, k: all(abs(x - k) < eps for row in a for x in row))
            add('eq-mat', '== ' + nm, mm('operator=='), [CM], None, [A, B], lambda a, b: all(abs(x - y) < eps for u, v in zip(a, b) for x, y in zip(u, v)))
        add('negate', '-Mat ' + nm, mm('operator-'), [], None, [A], lambda a: M(ew(lambda x: -x, a)))
        add('add', 'Mat + ' + nm, mm('operator+'), [CM], None, [A, B], lambda a, b: M(ew(lambda x, y: x + y, a, b)))
        add('add-assign', 'Mat += ' + nm, mm('operator+='), [CM], None, [A, B], lambda a, b: M(ew(lambda x, y: x + y, a, b)), keep=[1])
        add('add-assign', 'Mat += itself ' + nm, mm('operator+='), [CM], None, [A], lambda a: M(ew(lambda x: x + x, a)), keep=[],
            call=lambda I, f, a: (I.call_fn(f, a, [a]), a)[1])
        add('sub', 'Mat - ' + nm, mm('operator-'), [CM], None, [A, B], lambda a, b: M(ew(lambda x, y: x - y, a, b)))
        add('scale', 'Mat * k ' + nm, mm('operator*'), ['double'], None, [A, k], lambda a, k: M(ew(lambda x: x * k, a)))
        add('scale', 'k * Mat ' + nm, 'tomsolver::operator*', ['double', CM], None, [k, A], lambda k, a: M(ew(lambda x: x * k, a)))
        for c2 in range(1, 4):
            add('mul', 'Mat * %s by %dx%d' % (nm, c, c2), mm('operator*'), [CM], None, [A, ('m', c, c2, 'b')], lambda a, b: M(mul(a, b)))
        add('divide', 'EachDivide ' + nm, 'tomsolver::EachDivide', [CM, CM], None, [A, B], lambda a, b: M(ew(lambda x, y: x / y if y else math.nan, a, b)))
        add('transpose', 'Transpose ' + nm, mm('Transpose'), [], None, [A], lambda a: M([list(x) for x in zip(*a)]))
        for i in range(r):
            for j in range(r):
                def sw(a, i, j):
                    a = [list(x) for x in a]
                    a[i], a[j] = a[j], a[i]
                    return M(a)
                add('swap-row', 'SwapRow(%d,%d) %s' % (i, j, nm), mm('SwapRow'), ['int', 'int'], None, [A, i, j], sw, keep=[])
        for i in range(c):
            for j in range(c):
                def sc(a, i, j):
                    a = [list(x) for x in a]
                    for row in a:
                        row[i], row[j] = row[j], row[i]
                    return M(a)
                add('swap-col', 'SwapCol(%d,%d) %s' % (i, j, nm), mm('SwapCol'), ['int', 'int'], None, [A, i, j], sc, keep=[])
        for r2 in range(1, n + 2):
            for c2 in range(1, n + 2):
                add('resize', 'Resize %s to %dx%d' % (nm, r2, c2), mm('Resize'), ['int', 'int'], None, [A, r2, c2],
                    lambda a, r2, c2: M([[a[i][j] if i < len(a) and j < len(a[0]) else 0.0 for j in range(c2)] for i in range(r2)]), keep=[],
                    call=lambda I, f, a, r2, c2: (I.call_fn(f, a, [r2, c2]), a)[1])
        add('zero', 'Zero ' + nm, mm('Zero'), [], None, [A], lambda a: M(ew(lambda x: 0.0, a)), keep=[])
        add('set', 'SetValue ' + nm, mm('SetValue'), ['double'], None, [A, k], lambda a, k: M(ew(lambda x: k, a)), keep=[],
            call=lambda I, f, a, k: (I.call_fn(f, a, [k]), a)[1])
        flat = lambda a: [x for row in a for x in row]
        add('norm2', 'Norm2 ' + nm, mm('Norm2'), [], None, [A], lambda a: sum(x * x for x in flat(a)))
        if r * c <= 6:
            add('norm-inf', 'NormInfinity ' + nm, mm('NormInfinity'), [], None, [A], lambda a: max(abs(x) for x in flat(a)))
            add('norm-neg-inf', 'NormNegInfinity ' + nm, mm('NormNegInfinity'), [], None, [A], lambda a: min(abs(x) for x in flat(a)))
            add('min', 'Min ' + nm, mm('Min'), [], None, [A], lambda a: min(flat(a)))
            add('is-zero', 'IsZero ' + nm, 'tomsolver::IsZero', [CM], None, [A], lambda a: all(abs(x) <= eps for x in flat(a)))
            add('all-less', 'AllIsLessThan ' + nm, 'tomsolver::AllIsLessThan', [CM, CM], None, [A, B], lambda a, b: all(x < y for x, y in zip(flat(a), flat(b))))
        for col in range(c):
            for s in range(r):
                for t in range(s, r):
                    add('max-abs-row', 'GetMaxAbsRowIndex rows %d..%d col %d %s' % (s, t, col, nm), 'tomsolver::GetMaxAbsRowIndex', [CM, 'int', 'int', 'int'], None,
                        [A, s, t, col], lambda a, s, t, col: Pred(lambda g: None if isinstance(g, (int, float)) and s <= g <= t and abs(a[int(g)][col]) >= max(
                            abs(a[i][col]) for i in range(s, t + 1)) else 'gives row %s for the column %s' % (g, show([a[i][col] for i in range(s, t + 1)]))))
        if c == 1:
            add('to-vec', 'ToVec ' + nm, mm('ToVec'), [], None, [A], lambda a: M(a))
        else:
            add('to-vec', 'ToVec ' + nm, mm('ToVec'), [], None, [A], lambda a: ('throw', 'runtime_error'))
        if r == c:
            add('ones', 'Ones ' + nm, mm('Ones'), [], None, [A], lambda a: M([[1.0 if i == j else 0.0 for j in range(len(a))] for i in range(len(a))]), keep=[])
    for s in range(1, (5 if deep else 4) + 1):
        A = ('m', s, s, 'a')
        nm = '%dx%d' % (s, s)
        for q in range(1, s + 1):
            add('det', 'Det of leading %d of %s' % (q, nm), 'tomsolver::Det', [CM, 'int'], None, [A, q], lambda a, q: det(lead(a, q)))
            if q >= 2:
                for i in range(q):
                    for j in range(q):
                        add('cofactor', 'GetCofactor(%d,%d) of leading %d of %s' % (i, j, q, nm), 'tomsolver::GetCofactor', [CM, MAT + ' &', 'int', 'int', 'int'], None,
                            [A, ('m', q - 1, q - 1, 'c'), i, j, q], lambda a, c, i, j, q: M(minor(lead(a, q), i, j)), keep=[0],
                            call=lambda I, f, a, c, i, j, q: (I.call_fn(f, None, [a, c, i, j, q]), c)[1])
        if s <= 4:
            add('adjoint', 'Adjoint ' + nm, 'tomsolver::Adjoint', [CM, MAT + ' &'], None, [A, ('m', s, s, 'c')],
                lambda a, c: M([[1.0]] if len(a) == 1 else [[(-1) ** (i + j) * det(minor(a, j, i)) for j in range(len(a))] for i in range(len(a))]), keep=[0],
                call=lambda I, f, a, c: (I.call_fn(f, None, [a, c]), c)[1])
        if s <= 3 + deep:
            def inverse(a):
                d = det(a)
                if abs(d) <= eps:
                    return ('throw', 'ERROR_SINGULAR_MATRIX')
                return M([[1.0 / d]] if len(a) == 1 else [[(-1) ** (i + j) * det(minor(a, j, i)) / d for j in range(len(a))] for i in range(len(a))])
            add('inverse', 'Inverse ' + nm, MAT + '::Inverse', [], None, [A], inverse)
        if s <= 3:
            add('positive', 'PositiveDetermine ' + nm, MAT + '::PositiveDetermine', [], None, [A], lambda a: all(det(lead(a, q)) > 0 for q in range(1, len(a) + 1)))
    V = VEC + '::'
    for r in range(1, n + 2):
        A, B = ('v', r, 1, 'a'), ('v', r, 1, 'b')
        nm = 'size %d' % r
        out.append(('vec-construct', 'Vec(%d,k)' % r, pick(P, VEC + '::Vec', ['int', 'double']), lambda I: [k],
                    lambda I, k, r=r: Cell(I.construct(VEC, [r, k], ['x', 'x'])), lambda e, r=r: M([[e[Atom('sym', 'k')]]] * r), ()))
        out.append(('vec-construct', 'Vec(%d)' % r, pick(P, VEC + '::Vec', ['int', 'double']), lambda I: [k],
                    lambda I, k, r=r: Cell(I.construct(VEC, [r], ['x'])), lambda e, r=r: M([[0.0]] * r), ()))
        out.append(('vec-construct', 'Vec{%d values}' % r, pick(P, VEC + '::Vec', ['std::initializer_list<double>']), lambda I, r=r: [x[0] for x in entries(r, 1, 'a')],
                    lambda I, *xs: Cell(I.construct(VEC, [Seq('initializer_list', xs, 'double')], ['x'])), lambda e, r=r: M(num(e, 'a', r, 1)), ()))
        out.append(('vec-construct', 'Vec(valarray %d)' % r, pick(P, VEC + '::Vec', ['std::valarray<double>']), lambda I, r=r: [x[0] for x in entries(r, 1, 'a')],
                    lambda I, *xs: Cell(I.construct(VEC, [Seq('valarray', xs, 'double')], ['x'])), lambda e, r=r: M(num(e, 'a', r, 1)), ()))
        for r2 in range(1, n + 2):
            add('vec-resize', 'Vec::Resize %d to %d' % (r, r2), V + 'Resize', ['int'], None, [A, r2], lambda a, r2: M([a[i] if i < len(a) else [0.0] for i in range(r2)]), keep=[],
                call=lambda I, f, a, r2: (I.call_fn(f, a, [r2]), a)[1])
        for const in (True, False):
            for i in range(r):
                add('vec-index', 'Vec[%d] %s' % (i, nm), V + 'operator[]', ['unsigned long'], const, [A, i], lambda a, i: a[i][0])
        add('vec-add', 'Vec + ' + nm, V + 'operator+', [CV], None, [A, B], lambda a, b: M(ew(lambda x, y: x + y, a, b)))
        add('vec-negate', '-Vec ' + nm, V + 'operator-', [], None, [A], lambda a: M(ew(lambda x: -x, a)))
        add('vec-sub', 'Vec - ' + nm, V + 'operator-', [CV], None, [A, B], lambda a, b: M(ew(lambda x, y: x - y, a, b)))
        add('vec-scale', 'Vec * k ' + nm, V + 'operator*', ['double'], None, [A, k], lambda a, k: M(ew(lambda x: x * k, a)))
        add('vec-scale', 'k * Vec ' + nm, 'tomsolver::operator*', ['double', CV], None, [k, A], lambda k, a: M(ew(lambda x: x * k, a)))
        add('vec-mul', 'Vec * Vec ' + nm, V + 'operator*', [CV], None, [A, B], lambda a, b: M(ew(lambda x, y: x * y, a, b)))
        add('vec-div', 'Vec / ' + nm, V + 'operator/', [CV], None, [A, B], lambda a, b: M(ew(lambda x, y: x / y if y else math.nan, a, b)))
        add('vec-less', 'Vec < ' + nm, V + 'operator<', [CV], None, [A, B], lambda a, b: all(x[0] < y[0] for x, y in zip(a, b)))
        add('dot', 'Dot ' + nm, 'tomsolver::Dot', [CV, CV], None, [A, B], lambda a, b: sum(x[0] * y[0] for x, y in zip(a, b)))
        add('as-mat', 'AsMat ' + nm, V + 'AsMat', [], None, [A], lambda a: M(a))
    # what follows a change of shape or content sees the new matrix only
    resized = lambda a, r2, c2: [[a[i][j] if i < len(a) and j < len(a[0]) else 0.0 for j in range(c2)] for i in range(r2)]
    mm = lambda q: MAT + '::' + q
    follow = [('norm2', mm('Norm2'), [], lambda I: [], lambda a: sum(x * x for row in a for x in row)),
              ('negate', mm('operator-'), [], lambda I: [], lambda a: M(ew(lambda x: -x, a))),
              ('scale', mm('operator*'), ['double'], lambda I: [2.0], lambda a: M(ew(lambda x: 2 * x, a))),
              ('set', mm('SetValue'), ['double'], lambda I: [3.0], lambda a: None),
              ('transpose', mm('Transpose'), [], lambda I: [], lambda a: M([list(x) for x in zip(*a)])),
              ('grow', mm('Resize'), ['int', 'int'], lambda I: [5, 4], lambda a: None)]
    for r, c in ((1, 1), (3, 2), (2, 3), (4, 1), (1, 4)):
        A = ('m', r, c, 'a')
        for r2, c2 in ((1, c), (max(1, r - 1), c), (r + 1, c), (r, 1), (r, max(1, c - 1)), (r, c + 1), (c, r), (max(1, r - 1), c + 1)):
            for what, q, sig, args, spec in follow:
                def call(I, f, a, r2, c2, q=q, sig=sig, args=args, what=what):
                    I.call_fn(f, a, [r2, c2])
                    x = I.call_fn(pick(P, q, sig), a, args(I))
                    if what not in ('set', 'grow'):
                        return x
                    return I.call_fn(pick(P, MAT + '::Norm2', []), a, []) if what == 'set' else a

                def want(a, r2, c2, what=what, spec=spec):
                    b = resized(a, r2, c2)
                    return M(resized(b, 5, 4)) if what == 'grow' else 9.0 * r2 * c2 if what == 'set' else spec(b)
                add('resize', 'Resize %dx%d to %dx%d, then %s' % (r, c, r2, c2, what), mm('Resize'), ['int', 'int'], None, [A, r2, c2], want, keep=[], call=call)
            if c == 1 and c2 == 1:
                def call(I, f, a, r2):
                    I.call_fn(f, a, [r2])
                    return I.call_fn(pick(P, MAT + '::Norm2', []), a, [])
                add('vec-resize', 'Vec::Resize %d to %d, then norm2' % (r, r2), V + 'Resize', ['int'], None, [('v', r, 1, 'a'), r2], lambda a, r2: sum(x[0] ** 2 for x in a[:r2]), keep=[], call=call)
    # shapes far beyond the bound, for the operations whose traces do not depend on the entries
    for r, c in [(9, 9), (1, 9), (9, 1), (5, 8), (8, 5), (17, 2), (2, 17), (1, 33), (33, 1), (11, 6)] + ([(17, 17), (65, 1), (1, 65), (12, 24)] if deep else []):
        A, B = ('m', r, c, 'a'), ('m', r, c, 'b')
        nm = '%dx%d' % (r, c)
        mm = lambda q: MAT + '::' + q
        add('negate', '-Mat ' + nm, mm('operator-'), [], None, [A], lambda a: M(ew(lambda x: -x, a)))
        add('add', 'Mat + ' + nm, mm('operator+'), [CM], None, [A, B], lambda a, b: M(ew(lambda x, y: x + y, a, b)))
        add('add-assign', 'Mat += ' + nm, mm('operator+='), [CM], None, [A, B], lambda a, b: M(ew(lambda x, y: x + y, a, b)), keep=[1])
        add('sub', 'Mat - ' + nm, mm('operator-'), [CM], None, [A, B], lambda a, b: M(ew(lambda x, y: x - y, a, b)))
        add('scale', 'Mat * k ' + nm, mm('operator*'), ['double'], None, [A, k], lambda a, k: M(ew(lambda x: x * k, a)))
        add('scale', 'k * Mat ' + nm, 'tomsolver::operator*', ['double', CM], None, [k, A], lambda k, a: M(ew(lambda x: x * k, a)))
        add('divide', 'EachDivide ' + nm, 'tomsolver::EachDivide', [CM, CM], None, [A, B], lambda a, b: M(ew(lambda x, y: x / y if y else math.nan, a, b)))
        add('transpose', 'Transpose ' + nm, mm('Transpose'), [], None, [A], lambda a: M([list(x) for x in zip(*a)]))
        add('norm2', 'Norm2 ' + nm, mm('Norm2'), [], None, [A], lambda a: sum(x * x for row in a for x in row))
        add('zero', 'Zero ' + nm, mm('Zero'), [], None, [A], lambda a: M(ew(lambda x: 0.0, a)), keep=[])
        add('set', 'SetValue ' + nm, mm('SetValue'), ['double'], None, [A, k], lambda a, k: M(ew(lambda x: k, a)), keep=[],
            call=lambda I, f, a, k: (I.call_fn(f, a, [k]), a)[1])
        for c2 in {1, min(c, 3), r}:
            if r * c * c2 <= (3000 if deep else 800):
                add('mul', 'Mat * %s by %dx%d' % (nm, c, c2), mm('operator*'), [CM], None, [A, ('m', c, c2, 'b')], lambda a, b: M(mul(a, b)))
        for i, j in ((0, r - 1), (r - 1, r // 2)):
            add('swap-row', 'SwapRow(%d,%d) %s' % (i, j, nm), mm('SwapRow'), ['int', 'int'], None, [A, i, j],
                lambda a, i, j: M([a[j if t == i else i if t == j else t] for t in range(len(a))]), keep=[])
        for i, j in ((0, c - 1), (c - 1, c // 2)):
            add('swap-col', 'SwapCol(%d,%d) %s' % (i, j, nm), mm('SwapCol'), ['int', 'int'], None, [A, i, j],
                lambda a, i, j: M([[row[j if t == i else i if t == j else t] for t in range(len(row))] for row in a]), keep=[])
        for r2, c2 in ((r + 8, c), (r, c + 8), (r - 1 or 1, c + 1), (r + 1, c - 1 or 1), (1, 1)):
            add('resize', 'Resize %s to %dx%d' % (nm, r2, c2), mm('Resize'), ['int', 'int'], None, [A, r2, c2],
                lambda a, r2, c2: M([[a[i][j] if i < len(a) and j < len(a[0]) else 0.0 for j in range(c2)] for i in range(r2)]), keep=[],
                call=lambda I, f, a, r2, c2: (I.call_fn(f, a, [r2, c2]), a)[1])
        for const in (True, False):
            add('value', 'Value(%d,%d) %s' % (r - 1, c - 1, nm), mm('Value'), ['int', 'int'], const, [A, r - 1, c - 1], lambda a, i, j: a[i][j])
            add('row', 'Row(%d,0) %s' % (r - 1, nm), mm('Row'), ['int', 'int'], const, [A, r - 1, 0], lambda a, i, o: a[i][o:])
            add('col', 'Col(%d,0) %s' % (c - 1, nm), mm('Col'), ['int', 'int'], const, [A, c - 1, 0], lambda a, j, o: [x[j] for x in a[o:]])
        if r == c:
            add('ones', 'Ones ' + nm, mm('Ones'), [], None, [A], lambda a: M([[1.0 if i == j else 0.0 for j in range(len(a))] for i in range(len(a))]), keep=[])
        if c == 1:
            X, Y = ('v', r, 1, 'a'), ('v', r, 1, 'b')
            nm = 'size %d' % r
            add('to-vec', 'ToVec %dx1' % r, mm('ToVec'), [], None, [A], lambda a: M(a))
            add('vec-add', 'Vec + ' + nm, V + 'operator+', [CV], None, [X, Y], lambda a, b: M(ew(lambda x, y: x + y, a, b)))
            add('vec-negate', '-Vec ' + nm, V + 'operator-', [], None, [X], lambda a: M(ew(lambda x: -x, a)))
            add('vec-sub', 'Vec - ' + nm, V + 'operator-', [CV], None, [X, Y], lambda a, b: M(ew(lambda x, y: x - y, a, b)))
            add('vec-scale', 'Vec * k ' + nm, V + 'operator*', ['double'], None, [X, k], lambda a, k: M(ew(lambda x: x * k, a)))
            add('vec-mul', 'Vec * Vec ' + nm, V + 'operator*', [CV], None, [X, Y], lambda a, b: M(ew(lambda x, y: x * y, a, b)))
            add('vec-div', 'Vec / ' + nm, V + 'operator/', [CV], None, [X, Y], lambda a, b: M(ew(lambda x, y: x / y if y else math.nan, a, b)))
            add('dot', 'Dot ' + nm, 'tomsolver::Dot', [CV, CV], None, [X, Y], lambda a, b: sum(x[0] * y[0] for x, y in zip(a, b)))
            add('as-mat', 'AsMat ' + nm, V + 'AsMat', [], None, [X], lambda a: M(a))
            for r2 in (r + 7, r - 1):
                add('vec-resize', 'Vec::Resize %d to %d' % (r, r2), V + 'Resize', ['int'], None, [X, r2], lambda a, r2: M([a[i] if i < len(a) else [0.0] for i in range(r2)]), keep=[],
                    call=lambda I, f, a, r2: (I.call_fn(f, a, [r2]), a)[1])
    # square ones with given entries, so that every trace is decided
    rnd = random.Random(7)
    for s in (4, 5):
        for t in range(6):
            a = [[rnd.randint(-3, 3) if t != 1 or rnd.random() < .5 else 0 for _ in range(s)] for _ in range(s)]
            if t == 2:
                a = [[(5 if i == j else 0) + rnd.randint(0, 1) for j in range(s)] for i in range(s)]
                a = [[a[min(i, j)][max(i, j)] for j in range(s)] for i in range(s)]
            if t == 3:
                a[s - 1] = a[0][:]
            if t == 4:
                a = [[2 if j == (i + 1) % s else 0 for j in range(s)] for i in range(s)]
            if t == 5:
                a = [[(3 if i == j else 0) for j in range(s)] for i in range(s)]
                a[s - 1][s - 1] = -3
            A = ('M', s, s, a)
            nm = '%dx%d %s' % (s, s, a)
            for q in range(max(1, s - 2), s + 1):
                add('det', 'Det of leading %d of %s' % (q, nm), 'tomsolver::Det', [CM, 'int'], None, [A, q], lambda a, q: det(lead(a, q)))
            if s < 5 or t == 4 or t == 5:
                add('inverse', 'Inverse ' + nm, MAT + '::Inverse', [], None, [A], inverse)
                add('adjoint', 'Adjoint ' + nm, 'tomsolver::Adjoint', [CM, MAT + ' &'], None, [A, ('m', s, s, 'c')],
                    lambda a, c: M([[(-1) ** (i + j) * det(minor(a, j, i)) for j in range(len(a))] for i in range(len(a))]), keep=[0],
                    call=lambda I, f, a, c: (I.call_fn(f, None, [a, c]), c)[1])
            add('positive', 'PositiveDetermine ' + nm, MAT + '::PositiveDetermine', [], None, [A], lambda a: all(det(lead(a, q)) > 0 for q in range(1, len(a) + 1)))
    # and the ones that distinguish cases, with one entry that decides the case at every place in turn
    half = T.Fraction(1, 2)
    flat = lambda a: [x for row in a for x in row]
    for r, c in [(1, 17), (17, 1), (9, 3), (4, 6), (8, 8)]:
        for at in sorted({0, 1, r * c // 3, r * c // 2, r * c - 2, r * c - 1}):
            i, j = divmod(at, c)

            def of(x, other, sign=True):
                return [[x if (p, q) == (i, j) else other * ((-1) ** (p + q) if sign else 1) for q in range(c)] for p in range(r)]
            nm = '%dx%d with the decisive entry at (%d,%d)' % (r, c, i, j)
            for x in (7, -7, half):
                A = ('M', r, c, of(x, 3))
                add('norm-inf', 'NormInfinity ' + nm, MAT + '::NormInfinity', [], None, [A], lambda a: max(abs(x) for x in flat(a)))
                add('norm-neg-inf', 'NormNegInfinity ' + nm, MAT + '::NormNegInfinity', [], None, [A], lambda a: min(abs(x) for x in flat(a)))
                add('min', 'Min ' + nm, MAT + '::Min', [], None, [A], lambda a: min(flat(a)))
                add('max-abs-row', 'GetMaxAbsRowIndex ' + nm, 'tomsolver::GetMaxAbsRowIndex', [CM, 'int', 'int', 'int'], None,
                    [A, 0, r - 1, j], lambda a, s, t, col: Pred(lambda g: None if isinstance(g, (int, float)) and s <= g <= t and abs(a[int(g)][col]) >= max(
                        abs(a[i][col]) for i in range(s, t + 1)) else 'gives row %s for the column %s' % (g, show([a[i][col] for i in range(s, t + 1)]))))
            for x in (7, half, -7):
                A = ('M', r, c, of(x, half))
                add('is-zero', 'IsZero ' + nm, 'tomsolver::IsZero', [CM], None, [A], lambda a: all(abs(x) <= eps for x in flat(a)))
                add('eq-scalar', '== k ' + nm, MAT + '::operator==', ['double'], None, [('M', r, c, of(x, 1, False)), 1], lambda a, k: all(abs(x - k) < eps for x in flat(a)))
                add('eq-mat', '== ' + nm, MAT + '::operator==', [CM], None, [A, ('M', r, c, of(half, half))], lambda a, b: all(abs(x - y) < eps for x, y in zip(flat(a), flat(b))))
                for y in (-8, 0, 8):
                    add('all-less', 'AllIsLessThan ' + nm, 'tomsolver::AllIsLessThan', [CM, CM], None, [('M', r, c, of(x, -2)), ('M', r, c, of(y, 3, False))],
                        lambda a, b: all(x < y for x, y in zip(flat(a), flat(b))))
                    if c == 1:
                        add('vec-less', 'Vec < ' + nm, V + 'operator<', [CV], None, [('V', r, c, of(x, -2)), ('V', r, c, of(y, 3, False))],
                            lambda a, b: all(x < y for x, y in zip(flat(a), flat(b))))
    return out


# ------------------------------------------------------------------ symbolic matrices
# entries that are equal to each other, or 0 or 1
KINDS = {'name': lambda i, j: ('v', 'p%d_%d' % (i, j)), 'same': lambda i, j: ('v', 'x'), 'row': lambda i, j: ('MATH_SIN', ('v', 'r%d' % i)), 'col': lambda i, j: ('v', 'c%d' % j), 'zero': lambda i, j: TR.n(0),
         'one': lambda i, j: TR.n(1), 'unit': lambda i, j: TR.n(int(i == j)), 'diag': lambda i, j: ('v', 'd%d' % i) if i == j else TR.n(0),
         'neg': lambda i, j: ('MATH_NEGATIVE', ('v', 'x')) if (i + j) % 2 else ('v', 'x'), 'half': lambda i, j: TR.n(0) if j % 2 else ('MATH_ADD', ('v', 'x'), ('v', 'y'))}
PAIRS = [('same', 'same'), ('row', 'col'), ('col', 'row'), ('same', 'neg'), ('half', 'same'), ('zero', 'mix'), ('mix', 'unit'), ('diag', 'mix'), ('one', 'one'), ('neg', 'half'), ('mix', 'zero')]


def expr(i, j, kind):
    """a tree that is different for every position"""
    x = 'p%d%d' % (i, j)
    if kind == 'num':
        return TR.n('n%d%d' % (i, j))
    if kind == 'const':
        return ('MATH_ADD', TR.n('n%d%d' % (i, j)), ('MATH_MULTIPLY', TR.n('m%d' % i), TR.n('m%d' % j)))
    if kind in KINDS:
        return KINDS[kind](i, j)
    return [('v', x), ('MATH_ADD', ('v', x), TR.n('n%d%d' % (i, j))), ('MATH_SIN', ('v', x)), ('MATH_MULTIPLY', ('v', 'x'), ('MATH_SUB', ('v', x), ('v', 'y'))),
            TR.n('n%d%d' % (i, j))][(2 * i + 3 * j) % 5]


def mk_sym(I, N, api, r, c, kind='mix', off=0, cls=SMAT, pre=None):
    m = Cell(I.construct(cls, [r] if cls == SVEC else [r, c], ['x', 'x'][:1 if cls == SVEC else 2]), typ=cls)
    for i in range(r):
        for j in range(c):
            put_entry(I, N, api, m, i, j, expr(i + off, j, kind))
    return m


def put_entry(I, N, api, m, i, j, t):
    u = I.call_fn(api.smut, m, [i, j])
    if not isinstance(u, Cell):
        raise Undecided('entry access')
    u.v = UPtr(TR.build(N, t))


def trees_of(r, c, kind='mix', off=0):
    return [[expr(i + off, j, kind) for j in range(c)] for i in range(r)]


def tval(t, e):
    return None if t is None else math.nan if t[0] == 'bad' else TR.raw(t, e)


def sym_eq(got, want):
    """structural equality of two grids of trees"""
    if got[0] != len(want) or got[1] != len(want[0]):
        return 'has shape %dx%d instead of %dx%d' % (got[0], got[1], len(want), len(want[0]))
    for i, row in enumerate(want):
        for j, t in enumerate(row):
            g = got[2][i][j]
            if g is None or g[0] == 'bad':
                return 'has a %s entry (%d,%d)' % ('missing' if g is None else 'malformed', i, j) + (': ' + g[1] if g else '')
            if g != t:
                return 'has the entry %s at (%d,%d) instead of %s' % (TR.text(g), i, j, TR.text(t))
    return None


def sym_val(got, want, facts=None, src=None):
    """equality of values (with the facts of the trace, where the expressions src of the rows have a value: entries without a sample point are passed over)"""
    loose = facts is not None
    if got[0] != len(want) or got[1] != len(want[0]):
        return 'has shape %dx%d instead of %dx%d' % (got[0], got[1], len(want), len(want[0]))
    for i, row in enumerate(want):
        for j, t in enumerate(row):
            g = got[2][i][j]
            if g is None or g[0] == 'bad':
                return 'has a %s entry (%d,%d)' % ('missing' if g is None else 'malformed', i, j) + (': ' + g[1] if g else '')
            if g == t:
                continue
            syms = sorted(TR.syms(t) | TR.syms(g) | (set(a for q in facts.iv for a in identity.syms_of(q)) if loose else set()) | (TR.syms(src[i]) if src else set()), key=lambda a: a.id)
            n = 0
            for e in (identity.assignments(facts, syms, 30, seed=3, lo=.3, hi=2.5, special=False) + identity.assignments(facts, syms, 10, seed=4, lo=1, hi=9, special=False) +
                      (identity.assignments(facts, syms, 10, seed=5, lo=.02, hi=.7, special=False) if loose else [])):
                a, b = TR.raw(t, e), TR.raw(g, e)
                if a != a or loose and any(abs(x) > 40 for x in e.values()) or src is not None and not math.isfinite(TR.raw(src[i], e)):
                    continue
                n += 1
                if b != b or not identity.close(a, b, 1e-6):
                    return 'has the entry %s at (%d,%d) instead of %s' % (TR.text(g), i, j, TR.text(t))
            if not n and not loose:
                raise Undecided('no point')
    return None


def sym_case(R, view, P, N, key, name, f, run):
    """run(I) -> None or a message"""
    I = Interp(P, stubs={NT: stub_tostring}, opts=dict(static_hook=sym_config(P, fixed={'epsilon': EPS, 'throwOnInvalidValue': 1}), fuel=4000000))

    def body(I):
        return run(I)
    out = I.explore(body)
    R.seen(I)
    for o in out:
        w = short(o.where or '%s:%s in %s' % (f.get('file'), f.get('l'), f['q']))
        if o.kind == 'undecided':
            R.undecided('entries', view + ' ' + name, '%s (%s)' % (o.exc, o.where))
        elif o.kind == 'crash':
            R.bad('entries', key, w, '%s: %s' % (name, o.value))
        elif o.kind == 'throw':
            R.bad('entries', key, w, '%s raises %s' % (name, o.value.cls))
        elif o.value:
            R.bad('entries', key, w, '%s %s [%s]' % (name, o.value, o.desc()[:200]))
        else:
            R.good('entries', name)


def sharing(N, *roots):
    """whether two of the trees share a node"""
    seen = set()
    for r in roots:
        for c in N.cells(r):
            if id(c) in seen:
                return True
            seen.add(id(c))
    return False


def roots_of(I, api, m):
    r, c = I.rv_(I.call_fn(api.srows, m, [])), I.rv_(I.call_fn(api.scols, m, []))
    out = []
    for i in range(r):
        for j in range(c):
            u = I.call_fn(api.svalue, m, [i, j])
            u = u.v if isinstance(u, Cell) else u
            out.append(u.cell)
    return out


def raises(I, f, this, args, want):
    try:
        r = I.call_fn(f, this, args)
    except CppThrow as t:
        o = Outcome('throw', t, I.path)
        k = err_kind(I.P, o)
        return None if want in k else 'raises %s/%s instead of %s' % (k[0], k[1], want)
    return 'returns instead of raising %s' % want


def cell(v):
    return v if isinstance(v, Cell) else Cell(v)


def C30(R):
    R.rule('Every symbolic matrix operation is interpreted on every shape up to the bound with a distinct expression in every entry; shape and '
           'entries of the result, as the accessors give them, must be those the operation defines (same tree for copies, same value for arithmetic), '
           'results share no node with operands and operands that are not assigned to are unchanged.')
    R.assume('shapes up to 3x3 (thorough: 4x4) stand for all shapes')
    n = 4 if os.environ.get('VERIF_DEEP') else 3
    jobs = []
    for view, P, N in views():
        N.unary_field = N.left
        for r in range(1, n + 1):
            for c in range(1, n + 1):
                jobs.append(lambda S, a=(view, P, N, r, c, n): sym_shape(S, *a))
        for r, c in ((1, 6), (6, 1), (5, 4), (1, 11), (11, 1), (9, 9), (3, 8)):
            jobs.append(lambda S, a=(view, P, N, r, c, 1): sym_shape(S, *a))
        ts = TR.patterns1() + (TR.patterns2()[::7] if n > 3 else TR.patterns2()[::17])
        ts = LEAVES + ts + TR.equal_operands()[::1 if n > 3 else 7]
        ts = ts[:len(ts) // 8 * 8]
        for i in range(0, len(ts), 8):
            jobs.append(lambda S, a=(view, P, N, ts[i:i + 8]): sym_patterns(S, *a))
    pmap(R, jobs)


def ground(t):
    """the same expression with constants for its variables"""
    return TR.n('k' + t[1]) if t[0] == 'v' else t if t[0] == 'n' else (t[0],) + tuple(ground(k) for k in t[1:])


SOME = [{'x': sym('vx'), 'y': 3, 'w': sym('vw')}, {'x': sym('vx')}, {'y': sym('vy')}, {'x': 0, 'y': 0, 'z': 0, 'w': 0, 'xy': 0}, {'xy': sym('vq')}, {'none': 1}]
# entries that are a single leaf, with names of different lengths
LEAVES = [('v', 'xy'), ('v', 'x'), ('v', 'x'), ('v', 'y'), ('v', 'x'), ('v', 'x'), ('v', 'x'), ('v', 'x'), ('v', 'y'), TR.n('a'), ('v', 'xy'), TR.n(0), ('MATH_SUB', ('v', 'x'), ('v', 'xy')), ('v', 'z'),
          ('v', 'y'), ('MATH_SIN', ('v', 'x'))]


def sym_patterns(R, view, P, N, ts):
    """2x2 matrices whose entries run through every operator over every kind of operands"""
    api = Api(P)
    S = SMAT + '::'
    def sub(t, d):
        return TR.n(d[t[1]]) if t[0] == 'v' and t[1] in d else t if t[0] in 'nv' else (t[0],) + tuple(sub(k, d) for k in t[1:])

    def case(key, name, q, sig, run):
        try:
            f = pick(P, q, sig, None)
        except AnalysisBroken as e:
            R.undecided('anchors', view + ' ' + name, str(e))
            return
        sym_case(R, view, P, N, key, name, f, lambda I: run(I, f))
    for i in range(0, len(ts), 4):
        W = [[ts[i], ts[i + 1]], [ts[i + 2], ts[i + 3]]]
        nm = ', '.join(TR.text(t) for r in W for t in r)

        def mk(I, W=W):
            m = Cell(I.construct(SMAT, [2, 2], ['x', 'x']), typ=SMAT)
            for a in (0, 1):
                for b in (0, 1):
                    put_entry(I, N, api, m, a, b, W[a][b])
            return m
        keep = lambda I, m, W=W: (lambda x: x and 'changes an operand, which ' + x)(sym_eq(api.sread(I, N, m), W))

        def clone(I, f, W=W):
            m = mk(I)
            return sym_eq(api.sread(I, N, I.call_fn(f, m, [])), W) or keep(I, m)
        case('clone', 'Clone of ' + nm, S + 'Clone', [], clone)
        for t in W[0] + W[1]:
            if t[0] != 'n':
                def tomat(I, f, t=t):
                    m = Cell(I.construct(SMAT, [1, 2], ['x', 'x']), typ=SMAT)
                    put_entry(I, N, api, m, 0, 0, TR.n('a'))
                    put_entry(I, N, api, m, 0, 1, t)
                    return raises(I, f, m, [], 'runtime_error')
                case('to-mat', 'ToMat with the entry ' + TR.text(t), S + 'ToMat', [], tomat)
        G = [[ground(t) for t in r] for r in W]

        def calc(I, f, G=G):
            m = mk(I, G)
            try:
                I.call_fn(f, m, [])
            except CppThrow as e:
                # an entry has no value
                return None if 'tomsolver::MathError' in [e.cls] + list(e.bases) else 'raises ' + e.cls
            got = api.sread(I, N, m)
            for a in (0, 1):
                for b in (0, 1):
                    if got[2][a][b] is None or got[2][a][b][0] != 'n':
                        return 'leaves the entry %s' % TR.text(got[2][a][b] or ('v', '(none)'))
                    r = identity.compare(got[2][a][b][1], TR.value(G[a][b]), I.path.facts, both_defined=True)
                    if isinstance(r, tuple):
                        return 'gives %r at (%d,%d) instead of %r' % (got[2][a][b][1], a, b, TR.value(G[a][b]))
            return None
        case('calc', 'Calc of ' + ', '.join(TR.text(t) for r in G for t in r), S + 'Calc', [], calc)

        for kd, d in enumerate(SOME if W[0][0][0] in 'nv' else SOME[:1] + SOME[len(nm) % len(SOME):][:1]):
            for by in ('map', 'table'):
                def subs(I, f, W=W, d=d, by=by):
                    m = mk(I)
                    x = Cell(MapV('map', [(k, Cell(y)) for k, y in sorted(d.items())]))
                    I.call_fn(f, m, [x if by == 'map' else Cell(I.construct('tomsolver::VarsTable', [x], ['l']))])
                    return sym_eq(api.sread(I, N, m), [[sub(t, d) for t in r] for r in W])
                case('subs', 'Subs(%s of %s) in %s' % (by, ', '.join(sorted(d)), nm), S + 'Subs',
                     ['const std::map<std::basic_string<char>, double> &' if by == 'map' else 'const tomsolver::VarsTable &'], subs)

        def names(I, f, W=W):
            m = mk(I)
            got = sorted(k for k, _ in I.rv_(I.call_fn(f, m, [])).items)
            want = sorted({a.args[0] for r in W for t in r for a in tvars(t)})
            return (None if got == want else 'gives %s instead of %s' % (got, want)) or keep(I, m)
        case('all-vars', 'GetAllVarNames of ' + nm, S + 'GetAllVarNames', [], names)

        def minus(I, f, W=W):
            a, b = mk(I), mk(I, [W[1], W[0]])
            res = cell(I.call_fn(f, a, [b]))
            x = sym_val(api.sread(I, N, res), [[('MATH_SUB', s, t) for s, t in zip(u, v)] for u, v in zip(W, (W[1], W[0]))])
            return x or keep(I, a) or (sharing(N, *(roots_of(I, api, a) + roots_of(I, api, b) + roots_of(I, api, res))) and 'shares nodes with an operand') or None
        case('minus', 'operator- on ' + nm, S + 'operator-', [CS], minus)

        def equal(I, f):
            return None if I.truth(I.rv_(I.call_fn(f, mk(I), [mk(I)]))) else 'is false for equal matrices'
        case('equal', 'operator== on ' + nm, S + 'operator==', [CS], equal)


def sym_shape(R, view, P, N, r, c, n):
    api = Api(P)
    nm = '%dx%d' % (r, c)
    W = trees_of(r, c)

    def case(key, name, q, sig, const, run):
        try:
            f = pick(P, q, sig, const)
        except AnalysisBroken as e:
            R.undecided('anchors', view + ' ' + name, str(e))
            return
        sym_case(R, view, P, N, key, name + ' ' + nm, f, lambda I: run(I, f))

    def keepcheck(I, m, want, what='an operand'):
        x = sym_eq(api.sread(I, N, m), want)
        return None if x is None else 'changes %s, which %s' % (what, x)
    S = SMAT + '::'

    def ctor_list(ragged):
        def run(I, f):
            widths = [c] * r
            if ragged:
                widths[0] = c - 1
            rows = [Seq('initializer_list', [UPtr(TR.build(N, W[i][j])) for j in range(w)], NODE) for i, w in enumerate(widths)]
            m = Cell(I.construct(SMAT, [Seq('initializer_list', rows, 'std::initializer_list<%s>' % NODE)], ['x']))
            return sym_eq(api.sread(I, N, m), [[t if j < w else TR.n(0) for j, t in enumerate(row)] for row, w in zip(W, widths)])
        return run
    case('construct', 'SymMat{...}', S + 'SymMat', ['std::initializer_list<std::initializer_list<%s>>' % NODE], None, ctor_list(False))
    if r > 1:
        case('construct', 'SymMat{short first row}', S + 'SymMat', ['std::initializer_list<std::initializer_list<%s>>' % NODE], None, ctor_list(True))

    def from_mat(I, f):
        a = mk_mat(I, r, c, 'a')
        m = Cell(I.construct(SMAT, [a], ['l']))
        if api.read(I, a)[2] != entries(r, c, 'a'):
            return 'changes the numeric matrix'
        return sym_eq(api.sread(I, N, m), [[TR.n(x) for x in row] for row in entries(r, c, 'a')])
    case('from-mat', 'SymMat(Mat)', S + 'SymMat', [CM], None, from_mat)

    def shape(I, f):
        m = Cell(I.construct(SMAT, [r, c], ['x', 'x']))
        a, b = I.rv_(I.call_fn(api.srows, m, [])), I.rv_(I.call_fn(api.scols, m, []))
        return None if (a, b) == (r, c) else 'has shape %sx%s' % (a, b)
    case('construct', 'SymMat(rows, cols)', S + 'SymMat', ['int', 'int'], None, shape)

    def unary(q, want, eq=sym_eq, args=(), inplace=False, kind='mix', fresh=True):
        def run(I, f):
            m = mk_sym(I, N, api, r, c, kind)
            res = I.call_fn(f, m, [a(I) for a in args])
            if inplace:
                rc = res if isinstance(res, Cell) else None
                x = eq(api.sread(I, N, m), want)
                if x is None and rc is not None and rc is not m and isinstance(rc.v, Obj):
                    x = eq(api.sread(I, N, rc), want)
                return x
            x = eq(api.sread(I, N, res), want) or keepcheck(I, m, trees_of(r, c, kind))
            if x is None and fresh and sharing(N, *(roots_of(I, api, m) + roots_of(I, api, cell(res)))):
                x = 'shares nodes with the matrix'
            return x
        return run
    case('clone', 'Clone', S + 'Clone', [], None, unary('Clone', W))

    def empty(I, f):
        m = mk_sym(I, N, api, r, c)
        return None if not I.truth(I.rv_(I.call_fn(f, m, []))) else 'is true'
    case('empty', 'Empty', S + 'Empty', [], None, empty)
    flat = [[t] for row in W for t in row]
    if c == 1:
        case('to-symvec', 'ToSymVec', S + 'ToSymVec', [], None, unary('ToSymVec', W))
    else:
        case('to-symvec', 'ToSymVec', S + 'ToSymVec', [], None, lambda I, f: raises(I, f, mk_sym(I, N, api, r, c), [], 'runtime_error'))
    case('flatten', 'ToSymVecOneByOne', S + 'ToSymVecOneByOne', [], None, unary('ToSymVecOneByOne', flat))

    def to_mat(I, f):
        m = mk_sym(I, N, api, r, c, 'num')
        res = api.read(I, I.call_fn(f, m, []))
        want = [[sym('n%d%d' % (i, j)) for j in range(c)] for i in range(r)]
        return (None if res == (r, c, want) else 'gives %s' % show(res)) or keepcheck(I, m, trees_of(r, c, 'num'))
    case('to-mat', 'ToMat', S + 'ToMat', [], None, to_mat)
    for i in range(r):
        for j in range(c):
            def bad_mat(I, f, i=i, j=j, t=None):
                m = mk_sym(I, N, api, r, c, 'num')
                put_entry(I, N, api, m, i, j, t)
                return raises(I, f, m, [], 'runtime_error')
            case('to-mat', 'ToMat with a variable at (%d,%d)' % (i, j), S + 'ToMat', [], None, lambda I, f, g=bad_mat: g(I, f, t=('v', 'x')))
            case('to-mat', 'ToMat with an operator at (%d,%d)' % (i, j), S + 'ToMat', [], None, lambda I, f, g=bad_mat: g(I, f, t=('MATH_ADD', TR.n(1), TR.n(2))))

            def bad_calc(I, f, i=i, j=j):
                m = mk_sym(I, N, api, r, c, 'const')
                put_entry(I, N, api, m, i, j, ('MATH_SIN', ('v', 'x')))
                return raises(I, f, m, [], 'runtime_error')
            case('calc', 'Calc with a variable at (%d,%d)' % (i, j), S + 'Calc', [], None, bad_calc)

    def calc(I, f):
        m = mk_sym(I, N, api, r, c, 'const')
        I.call_fn(f, m, [])
        got = api.sread(I, N, m)
        x = sym_val(got, trees_of(r, c, 'const'))
        if x is None:
            for row in got[2]:
                for t in row:
                    if t[0] != 'n':
                        return 'leaves the entry %s' % TR.text(t)
        return x
    case('calc', 'Calc', S + 'Calc', [], None, calc)
    names = sorted({'x', 'y'} | {'p%d%d' % (i, j) for i in range(r) for j in range(c)})
    some = {x: sym('v_' + x) for k, x in enumerate(names) if k % 3 != 1}

    def sub(t):
        if t[0] == 'v':
            return TR.n(some[t[1]]) if t[1] in some else t
        return t if t[0] == 'n' else (t[0],) + tuple(sub(k) for k in t[1:])
    SW = [[sub(t) for t in row] for row in W]
    amap = lambda I: Cell(MapV('map', [(k, Cell(v)) for k, v in sorted(some.items())]))
    case('subs', 'Subs(map)', S + 'Subs', ['const std::map<std::basic_string<char>, double> &'], None, unary('Subs', SW, args=[amap], inplace=True))
    case('subs', 'Subs(VarsTable)', S + 'Subs', ['const tomsolver::VarsTable &'], None,
         unary('Subs', SW, args=[lambda I: Cell(I.construct('tomsolver::VarsTable', [amap(I)], ['l']))], inplace=True))

    def allvars(I, f):
        m = mk_sym(I, N, api, r, c)
        s = I.rv_(I.call_fn(f, m, []))
        got = sorted(k for k, _ in s.items)
        want = set()
        for row in W:
            for t in row:
                want |= {a.args[0] for a in tvars(t)}
        return (None if got == sorted(want) else 'gives %s instead of %s' % (got, sorted(want))) or keepcheck(I, m, W)
    case('all-vars', 'GetAllVarNames', S + 'GetAllVarNames', [], None, allvars)

    def minus(cls):
        def run(I, f):
            a = mk_sym(I, N, api, r, c, cls=cls)
            b = mk_sym(I, N, api, r, c, off=5, cls=cls)
            res = cell(I.call_fn(f, a, [b]))
            B = trees_of(r, c, off=5)
            x = sym_val(api.sread(I, N, res), [[('MATH_SUB', s, t) for s, t in zip(u, v)] for u, v in zip(W, B)])
            x = x or keepcheck(I, a, W) or keepcheck(I, b, B)
            if x is None and sharing(N, *(roots_of(I, api, a) + roots_of(I, api, b) + roots_of(I, api, res))):
                x = 'shares nodes with an operand'
            return x
        return run
    case('minus', 'operator-', S + 'operator-', [CS], None, minus(SMAT))

    def with_kinds(key, q, ka, kb, c2, want):
        def run(I, f):
            a = mk_sym(I, N, api, r, c, ka)
            b = mk_sym(I, N, api, r if c2 is None else c, c if c2 is None else c2, kb)
            A, B = trees_of(r, c, ka), trees_of(r if c2 is None else c, c if c2 is None else c2, kb)
            res = cell(I.call_fn(f, a, [b]))
            x = sym_val(api.sread(I, N, res), want(A, B)) or keepcheck(I, a, A) or keepcheck(I, b, B)
            if x is None and sharing(N, *(roots_of(I, api, a) + roots_of(I, api, b) + roots_of(I, api, res))):
                x = 'shares nodes with an operand'
            return x
        case(key, '%s of entries %s and %s%s' % (q, ka, kb, '' if c2 is None else ' with %dx%d' % (c, c2)), S + q, [CS], None, run)

    def prod(A, B):
        def one(i, j):
            s = None
            for k in range(c):
                p = ('MATH_MULTIPLY', A[i][k], B[k][j])
                s = p if s is None else ('MATH_ADD', s, p)
            return s
        return [[one(i, j) for j in range(len(B[0]))] for i in range(r)]
    for ka, kb in PAIRS if r * c <= 24 else PAIRS[:2]:
        with_kinds('minus', 'operator-', ka, kb, None, lambda A, B: [[('MATH_SUB', s, t) for s, t in zip(u, v)] for u, v in zip(A, B)])
        for c2 in sorted({1, min(r, 3), min(c, 3)}):
            with_kinds('product', 'operator*', ka, kb, c2, prod)
    for ka in KINDS:
        T0 = trees_of(r, c, ka)
        case('clone', 'Clone of entries ' + ka, S + 'Clone', [], None, unary('Clone', T0, kind=ka))
    if c == 1:
        case('minus', 'SymVec::operator-', SVEC + '::operator-', [CSV], None, minus(SVEC))

        def veclist(I, f):
            m = Cell(I.construct(SVEC, [Seq('initializer_list', [UPtr(TR.build(N, W[i][0])) for i in range(r)], NODE)], ['x']))
            return sym_eq(api.sread(I, N, m), W)
        case('construct', 'SymVec{...}', SVEC + '::SymVec', ['std::initializer_list<%s>' % NODE], None, veclist)

        def vecidx(const):
            def run(I, f):
                m = mk_sym(I, N, api, r, 1, cls=SVEC)
                for i in range(r):
                    u = I.call_fn(f, m, [i])
                    u = u.v if isinstance(u, Cell) else u
                    if not isinstance(u, UPtr) or u.cell is None or TR.term_of(I, N, u.cell) != W[i][0]:
                        return 'gives a wrong entry for index %d' % i
                return None
            return run
        for const in (True, False):
            case('index', 'SymVec[]', SVEC + '::operator[]', ['unsigned long'], const, vecidx(const))
    for c2 in range(1, n + 1):
        def product(I, f, c2=c2):
            a = mk_sym(I, N, api, r, c)
            b = mk_sym(I, N, api, c, c2, off=4)
            res = cell(I.call_fn(f, a, [b]))
            B = trees_of(c, c2, off=4)
            want = []
            for i in range(r):
                want.append([])
                for j in range(c2):
                    s = None
                    for k in range(c):
                        p = ('MATH_MULTIPLY', W[i][k], B[k][j])
                        s = p if s is None else ('MATH_ADD', s, p)
                    want[-1].append(s)
            x = sym_val(api.sread(I, N, res), want) or keepcheck(I, a, W) or keepcheck(I, b, B)
            if x is None and sharing(N, *(roots_of(I, api, a) + roots_of(I, api, b) + roots_of(I, api, res))):
                x = 'shares nodes with an operand'
            return x
        case('product', 'operator* with %dx%d' % (c, c2), S + 'operator*', [CS], None, product)
        for r2 in range(1, n + 1):
            if r2 != c:
                case('product', 'operator* with %dx%d' % (r2, c2), S + 'operator*', [CS], None,
                     lambda I, f, r2=r2, c2=c2: raises(I, f, mk_sym(I, N, api, r, c), [mk_sym(I, N, api, r2, c2)], 'SIZE_NOT_MATCH'))

    def equal(I, f):
        a, b = mk_sym(I, N, api, r, c), mk_sym(I, N, api, r, c)
        return None if I.truth(I.rv_(I.call_fn(f, a, [b]))) else 'is false for equal matrices'
    case('equal', 'operator==', S + 'operator==', [CS], None, equal)
    for i in range(r):
        for j in range(c):
            def differ(I, f, i=i, j=j):
                a, b = mk_sym(I, N, api, r, c), mk_sym(I, N, api, r, c)
                put_entry(I, N, api, b, i, j, ('v', 'other'))
                return None if not I.truth(I.rv_(I.call_fn(f, a, [b]))) else 'is true for matrices that differ at (%d,%d)' % (i, j)
            case('equal', 'operator== differing at (%d,%d)' % (i, j), S + 'operator==', [CS], None, differ)
    for r2, c2 in ((c, r), (r + 1, c), (r, c + 1), (r - 1, c), (r, c - 1)):
        if (r2, c2) != (r, c) and r2 > 0 and c2 > 0:
            def other(I, f, r2=r2, c2=c2):
                a = Cell(I.construct(SMAT, [r, c], ['x', 'x']))
                b = Cell(I.construct(SMAT, [r2, c2], ['x', 'x']))
                for m, (p, q) in ((a, (r, c)), (b, (r2, c2))):
                    for i in range(p):
                        for j in range(q):
                            put_entry(I, N, api, m, i, j, ('v', 'x'))
                return None if not I.truth(I.rv_(I.call_fn(f, a, [b]))) else 'is true for a matrix of shape %dx%d' % (r2, c2)
            case('equal', 'operator== with %dx%d' % (r2, c2), S + 'operator==', [CS], None, other)


def tvars(t):
    if t[0] == 'v':
        return {Atom('sym', t[1])}
    return set() if t[0] == 'n' else set().union(*[tvars(k) for k in t[1:]])


def C29(R):
    R.rule('The Jacobian function is interpreted for every number of equations and variables up to the bound with expressions that contain all, some or none '
           'of the variables; entry (i,j) must be a tree whose value is the derivative of equation i by variable j (rule table of C04), and the equations are unchanged.')
    R.assume('up to 4 equations and 4 variables (thorough: 5), sparse systems of up to 13, and every operator over every kind of operands stand for all sizes and equations')
    n = 5 if os.environ.get('VERIF_DEEP') else 4
    X = [TR.v(x) for x in ('x', 'y', 'z', 'w', 'u')]
    eqs = [('MATH_ADD', ('MATH_MULTIPLY', X[0], X[1]), ('MATH_SIN', X[2])), ('MATH_SUB', ('MATH_POWER', X[0], TR.n(3)), ('MATH_MULTIPLY', X[3], TR.n('a'))),
           ('MATH_EXP', ('MATH_MULTIPLY', X[1], X[3])), X[2], ('MATH_DIVIDE', X[4], ('MATH_ADD', X[0], X[2])), TR.n('b')]
    jobs = []
    for view, P, N in views():
        N.unary_field = N.left
        for r in range(1, n + 1):
            for c in range(1, n + 1):
                for rot in (0, 1, 2):
                    names = [x[1] for x in (X[rot:] + X[:rot])[:c]]
                    if rot == 2:
                        names.reverse()
                    es = [eqs[(i + rot * 2) % len(eqs)] for i in range(r)]
                    jobs.append(lambda S, a=(view, P, N, es, names): jacobian(S, *a))
        # many variables, sparse equations
        v = lambda k: TR.v('v%d' % k)
        vs = ['v%d' % k for k in range(13)]
        one = [v(k) if k % 3 == 0 else ('MATH_MULTIPLY', TR.n(k + 2), v(k)) if k % 3 == 1 else ('MATH_SIN', v(k)) for k in range(13)]
        chain = [('MATH_SUB', ('MATH_MULTIPLY', v(k), v((k + 1) % 9)), TR.n('c%d' % k)) for k in range(9)]
        long = v(0)
        for k in range(1, 12):
            long = (('MATH_ADD', 'MATH_SUB', 'MATH_MULTIPLY')[k % 3], long, v(k))
        for es, names in [([e], vs[:9]) for e in one[:9]] + [([e], vs[::-1]) for e in one[9:]] + [(one[:9], vs[:2]), (chain, vs[:9]), (chain[:3], vs), (one, ['v12']), ([long], vs), ([long, v(12)], vs[::-1])]:
            jobs.append(lambda S, a=(view, P, N, es, names): jacobian(S, *a))
        # names that occur twice or nowhere, and names that are prefixes of each other
        xy = ('MATH_ADD', ('MATH_MULTIPLY', X[0], TR.v('xy')), ('MATH_SIN', TR.v('xyz')))
        for names in (['x', 'x'], ['x', 'y', 'x'], ['none'], ['x', 'none', 'xy'], ['xyz', 'xy', 'x'], ['xy', 'xyz'], ['y']):
            for es in ([xy], [xy, xy], [X[0], xy, TR.n('a'), X[0]], [TR.n('a')], [TR.n(0), TR.n(0)]):
                jobs.append(lambda S, a=(view, P, N, es, names): jacobian(S, *a))
        # every operator over every kind of operands
        ts = TR.patterns1() + TR.patterns2()[::3 if n > 4 else 29] + TR.equal_operands()[::1 if n > 4 else 7]
        # equal operands and whole numbers only
        x, y = X[0], X[1]
        same = [(o, a, b) for o in ('MATH_ADD', 'MATH_SUB', 'MATH_MULTIPLY', 'MATH_DIVIDE', 'MATH_POWER') for a, b in ((x, x), (x, y), (x, TR.n(2)), (TR.n(2), x), (('MATH_SIN', x), ('MATH_SIN', x)))]
        ts = ts + same
        for i in range(0, len(ts), 6):
            jobs.append(lambda S, a=[(view, P, N, ts[k:k + 3], ['x', 'y', 'w'] if k % 2 else ['y', 'x']) for k in (i, i + 3)]: [jacobian(S, *x) for x in a if x[3]])
    pmap(R, jobs)


def differentiable(t):
    if not t[0] in 'nv' and (t[0] in TR.INT_OPS or not all(differentiable(k) for k in t[1:])):
        return False
    try:
        for x in tvars(t):
            TR.deriv(t, x.args[0])
    except (TR.NoDeriv, KeyError):
        return False
    return True


def jacobian(R, view, P, N, es, names):
    api = Api(P)
    f = pick(P, 'tomsolver::Jacobian')
    es = [t for t in es if differentiable(t)]
    if not es:
        return
    nm = 'Jacobian of %s by %s' % ('%d equations' % len(es) if len(es) > 3 else ', '.join(TR.text(t) for t in es), ', '.join(names))

    def run(I, f=f):
        for cls in (SMAT,):
            m = Cell(I.construct(cls, [len(es), 1], ['x', 'x']))
            for i, t in enumerate(es):
                put_entry(I, N, api, m, i, 0, t)
            res = cell(I.call_fn(f, None, [m, Cell(Seq('vector', names, 'std::basic_string<char>'))]))
            x = sym_val(api.sread(I, N, res), [[TR.deriv(t, v) for v in names] for t in es], I.path.facts, es)
            x = x or sym_eq(api.sread(I, N, m), [[t] for t in es]) and 'changes the equations'
            if x is None and sharing(N, *(roots_of(I, api, m) + roots_of(I, api, res))):
                x = 'shares nodes with the equations'
            return x
    sym_case(R, view, P, N, 'jacobian', nm, f, run)


# ------------------------------------------------------------------ printed matrices and tables
def C36(R):
    R.rule('The text of numeric and symbolic matrices, vectors and variable tables is interpreted on every shape up to the bound with a distinct entry at every place (the text of one number stays symbolic): it must '
           'be the entries\' own texts, in order, with the rows on lines of their own; writing to a stream must write exactly that text to that stream; nothing printed is changed.')
    R.assume('shapes up to 4x4 and seven longer ones (longer than every number in the program) stand for all shapes; the digits of a number are not part of the analysis (C31)')
    jobs = []
    for view, P, N in views():
        N.unary_field = N.left
        shapes = [(r, c) for r in range(1, 5) for c in range(1, 5)] + [(1, 9), (9, 1), (2, 12), (12, 2), (9, 9), (1, 40), (40, 1)]
        z = TR.size_for(P, 40, 1200)
        k = int(z ** .5) + 1
        shapes += [(1, z), (z, 1), (k, k), (2, z // 2 + 1)]
        for r, c in shapes:
            jobs.append(lambda S, a=(view, P, N, r, c): print_shape(S, *a))
        ts = TR.patterns1() + TR.patterns2()[::41] + TR.equal_operands()[::9]
        for i in range(0, len(ts) - 4, 4):
            jobs.append(lambda S, a=(view, P, N, ts[i:i + 4]): print_entries(S, *a))
        jobs.append(lambda S, a=(view, P, N): print_tables(S, *a))
    pmap(R, jobs)


def layout(rows):
    """the documented layout of a matrix"""
    p = ['[']
    for i, row in enumerate(rows):
        for j, t in enumerate(row):
            p += ['' if i == 0 and j == 0 else ' ', t] + (['' if i == len(rows) - 1 else '\n'] if j == len(row) - 1 else [', '])
    return p + [']\n']


def numtext(x):
    return Atom('numtext', T.unwrap(x))


def stream_text(I, f, what):
    """what a stream insertion writes, and whether it gives back the same stream"""
    out = Cell(Stream())
    r = I.call_fn(f, None, [out, what])
    back = r is out or isinstance(r, Cell) and r.v is out.v or r is out.v
    return mkstr(out.v.p), back


def print_case(R, view, P, key, name, f, body):
    I = Interp(P, stubs={NT: stub_tostring}, opts=dict(static_hook=sym_config(P, fixed={'epsilon': EPS, 'throwOnInvalidValue': 1}), fuel=4000000))
    for o in I.explore(body):
        w = short(o.where or '%s:%s in %s' % (f.get('file'), f.get('l'), f['q']))
        if o.kind == 'undecided':
            R.undecided('text', view + ' ' + name, '%s (%s)' % (o.exc, o.where))
        elif o.kind in ('crash', 'throw'):
            R.bad('text', key, w, '%s: %s' % (name, o.value if o.kind == 'crash' else 'raises ' + o.value.cls))
        elif o.value:
            R.bad('text', key, w, '%s %s [%s]' % (name, o.value, o.desc()[:200]))
        else:
            R.good('text', name)
    R.seen(I)


def tell(s):
    s = repr(s)
    return s if len(s) < 300 else s[:300] + '...'


def both(I, P, m, key, want, ts, os_):
    """the text of ToString and of the stream insertion"""
    got = I.rv_(I.call_fn(ts, m, []))
    want = mkstr(want)
    if got != want:
        return 'is %s instead of %s' % (tell(got), tell(want))
    if os_ is not None:
        s, back = stream_text(I, os_, m)
        if s != want:
            return 'is written to a stream as %s instead of %s' % (tell(s), tell(want))
        if not back:
            return 'is written to a stream without giving that stream back'
    return None


def inserter(R, P, view, t):
    try:
        fs = P.find('tomsolver::operator<<') + P.find('tomsolver::internal::operator<<')
        fs = [f for f in fs if f['_tu'].types[f['params'][-1]['t']] == t]
        if not fs:
            raise AnalysisBroken('no stream insertion of ' + t)
        return fs[0]
    except AnalysisBroken as e:
        R.undecided('anchors', view + ' operator<<', str(e))
        return None


def print_shape(R, view, P, N, r, c):
    api = Api(P)
    nm = '%dx%d' % (r, c)
    mt, st = pick(P, MAT + '::ToString', []), pick(P, SMAT + '::ToString', [])
    mo, so = inserter(R, P, view, CM), inserter(R, P, view, CS)
    for cls in [MAT] + [VEC] * (c == 1):
        def body(I):
            m = mk_mat(I, r, c, 'a', cls)
            before = api.read(I, m)
            x = both(I, P, m, 'Mat', layout([[numtext(y) for y in row] for row in entries(r, c, 'a')]), mt, mo)
            return x or (None if api.read(I, m) == before else 'changes when it is printed')
        print_case(R, view, P, cls.split('::')[-1] + '::ToString', 'the text of a %s of shape %s' % (cls.split('::')[-1], nm), mt, body)
    for cls in [SMAT] + [SVEC] * (c == 1):
        def body(I):
            m = mk_sym(I, N, api, r, c, 'name', cls=cls)
            x = both(I, P, m, 'SymMat', layout([[t[1] for t in row] for row in trees_of(r, c, 'name')]), st, so)
            return x or sym_eq(api.sread(I, N, m), trees_of(r, c, 'name'))
        print_case(R, view, P, cls.split('::')[-1] + '::ToString', 'the text of a %s of shape %s' % (cls.split('::')[-1], nm), st, body)


def print_entries(R, view, P, N, ts):
    """the text of an entry is the text of the expression"""
    api = Api(P)
    st, so = pick(P, SMAT + '::ToString', []), inserter(R, P, view, CS)
    nt, no = pick(P, 'tomsolver::internal::NodeImpl::ToString', []), inserter(R, P, view, 'const %s &' % NODE)
    W = [ts[:2], ts[2:]]

    def body(I):
        m = Cell(I.construct(SMAT, [2, 2], ['x', 'x']), typ=SMAT)
        for i in (0, 1):
            for j in (0, 1):
                put_entry(I, N, api, m, i, j, W[i][j])
        texts = []
        for t in ts:
            n = Cell(UPtr(TR.build(N, t)), typ=NODE)
            texts.append(I.rv_(I.call_fn(nt, n.v.cell, [])))
            if no is not None:
                s, back = stream_text(I, no, n)
                if s != texts[-1] or not back:
                    return 'with %s: the stream gets %s instead of %s' % (TR.text(t), tell(s), tell(texts[-1]))
        return both(I, P, m, 'SymMat', layout([texts[:2], texts[2:]]), st, so) or sym_eq(api.sread(I, N, m), W)
    print_case(R, view, P, 'SymMat::ToString', 'the text of a matrix of ' + ', '.join(TR.text(t) for t in ts), st, body)


def print_tables(R, view, P, N):
    VT = 'tomsolver::VarsTable'
    ts, os_ = pick(P, VT + '::ToString', []), inserter(R, P, view, 'const %s &' % VT)
    for names in ([], ['x'], ['b', 'a'], ['x10', 'x9', '_x', 'X'], ['n%d' % (i * 7 % 40) for i in range(40)], ['n%d' % i for i in range(TR.size_for(P, 40, 1200))]):
        def body(I):
            vals = {k: sym('v_' + k) for k in names}
            t = Cell(I.construct(VT, [Cell(MapV('map', [(k, Cell(x)) for k, x in sorted(vals.items())]))], ['l']), typ=VT)
            want = []
            for k in sorted(names):
                want += [k + ' = ', numtext(vals[k]), '\n']
            return both(I, P, t, 'VarsTable', want, ts, os_)
        print_case(R, view, P, 'VarsTable::ToString', 'the text of a table of %s' % names[:4], ts, body)
