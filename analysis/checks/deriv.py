"""C04 differentiation, C05 simplification"""
from checks.common import *
import trees as TR
from trees import v, n
import os

STUBS = {NT: stub_tostring, NI + '::ToString': lambda I, f, this, args: ''}
RANGES = [(-3.0, 3.0), (0.15, 0.85), (1.1, 3.5), (0.2, 2.5)]


def samples(trees, facts, k=14, terms=()):
    syms = set(identity.syms_of(*terms))
    for t in trees:
        TR.syms(t, syms)
    syms = sorted(syms, key=lambda a: a.id)
    out = []
    for lo, hi in RANGES:
        out += identity.assignments(facts, syms, k, seed=int(lo * 100) & 0xff, lo=lo, hi=hi, special=lo < 0)
    return out


def agree(want, got, envs, need=3):
    """want/got: env -> float.  'equal' | 'unknown' | message"""
    good = und = valid = 0
    for e in envs:
        try:
            a, b = want(e), got(e)
        except identity.NoValue as x:
            return 'unknown'
        except (OverflowError, ValueError, ZeroDivisionError):
            continue
        if a != a or math.isinf(a) or abs(a) > 1e12:
            continue
        valid += 1
        if b != b or math.isinf(b):
            und += 1
            continue
        good += 1
        if not identity.close(a, b, 1e-6):
            return 'is %g instead of %g at %s' % (b, a, ', '.join('%r=%g' % (x, y) for x, y in e.items()) or 'any point')
    if good >= need or (good and good == valid):
        return 'equal'
    if valid >= 6 and good == 0:
        return 'has no value where %d of %d points have one' % (valid, len(envs))
    return 'unknown'


def agree_sets(t, got, envs):
    good = und = valid = 0
    for e in envs:
        try:
            a, b = TR.raws(t, e), TR.raws(got, e)
        except identity.NoValue:
            return 'unknown'
        if None in a or any(abs(x) > 1e12 for x in a):
            continue
        valid += 1
        if None in b:
            und += 1
            continue
        if not any(identity.close(x, y, 1e-6) for x in a for y in b):
            return 'is %g instead of %g at %s' % (min(b), min(a), ', '.join('%r=%g' % (x, y) for x, y in e.items()) or 'any point')
        good += 1
    if good >= 3 or (good and good == valid):
        return 'equal'
    if valid == 0 and envs:
        return 'no value'
    if valid >= 6 and good == 0:
        return 'has no value where %d of %d points have one' % (valid, len(envs))
    return 'unknown'


def run_tree(P, N, t, call, extra=None, cfg=None):
    def body(I):
        root = TR.build(N, t)
        return call(I, root)
    opts = dict(static_hook=sym_config(P, fixed=cfg)) if cfg is not None else {}
    opts.update(extra or {})
    I = Interp(P, stubs=STUBS, opts=opts)
    return I, I.explore(body)


def diff_fn(P):
    return P.one('tomsolver::Diff', ['const tomsolver::Node &', 'const std::string &', 'int'])


def find_diff(P):
    for f in P.find('tomsolver::Diff'):
        if f.get('body') is not None and len(f['params']) == 3 and f['_tu'].types[f['params'][0]['t']].startswith('const') and 'unique_ptr' in f['_tu'].types[f['params'][0]['t']] and 'vector' not in f['_tu'].types[f['params'][0]['t']]:
            return f
    raise AnalysisBroken('Diff(const Node &, name, order) not found')


def check_result(I, N, root):
    d = N.well_formed(I, root)
    if d:
        return None, '; '.join(d)
    return TR.term_of(I, N, root), None


def C04(R):
    R.rule('Differentiation (with its simplification) is interpreted on every operator over every operand kind (symbolic constant, 0, 1, the '
           'variable, another variable, and compound operands, including every operator as operand) with trace partitioning on the values of '
           'constants; the resulting tree is read as a term and compared, on each trace, with the derivative term of the rule table '
           '(normal forms, then identity testing of the two terms on points satisfying the facts of the trace).')
    R.assume('trees of height up to 2 and selected ones of height 3 stand for all operands (the code processes one operator at a time)')
    R.assume('terms are compared at points where the mathematical derivative is defined')
    deep = bool(os.environ.get('VERIF_DEEP'))
    jobs = []
    for view, P, N in views():
        f = find_diff(P)
        ts = TR.height2() + (TR.height3() if deep else TR.height3()[::7]) + TR.patterns1() + TR.patterns2()[::2 if deep else 11] + TR.equal_operands() + list(TR.triples())[::3 if deep else 23] + TR.random_trees(400 if deep else 60, 9)
        for t in ts:
            jobs.append(lambda S, a=(view, P, N, f, t, 'x', 1): one_diff(S, *a))
        for t in TR.LEAVES + [(u, v('x')) for u in UNARY] + [(b, l, r) for b in BINARY[:5] for l in (n('a'), v('x'), v('y')) for r in (n('b'), v('x'))]:
            jobs.append(lambda S, a=(view, P, N, f, t, 'x', 2): one_diff(S, *a))
            if deep:
                jobs.append(lambda S, a=(view, P, N, f, t, 'x', 3): one_diff(S, *a))
            jobs.append(lambda S, a=(view, P, N, f, t, 'z', 1): one_diff(S, *a))
        for a, b in TR.NEAR:
            for t in (v(a), ('MATH_ADD', ('MATH_MULTIPLY', v(a), v(b)), ('MATH_SIN', v(a)))):
                jobs.append(lambda S, a=(view, P, N, f, t, b, 1): one_diff(S, *a))
    pmap(R, jobs)


def ops_of(t):
    return set() if t[0] in ('n', 'v') else {t[0]}.union(*[ops_of(k) for k in t[1:]])


def one_diff(R, view, P, N, f, t, x, order):
    def call(I, root):
        before = N.shape(I, root)
        r = I.call_fn(f, None, [Cell(UPtr(root)), Cell(x), order])
        c = r.cell
        if order == 1 and N.shape(I, root) != before:
            raise Crash('the given expression is changed', '%s in %s' % (f.get('file'), f['q']))
        return check_result(I, N, c)
    I, out = run_tree(P, N, t, call)
    R.seen(I)
    name = "d%s/d%s %s" % (order if order > 1 else '', x, TR.text(t))
    key = 'diff:%s' % (t[0] if t[0] not in ('n', 'v') else 'leaf')
    special = ops_of(t) & {'MATH_AND', 'MATH_OR', 'MATH_MOD'}
    for o in out:
        w = short(o.where or '%s:%s in %s' % (f['file'], f.get('l'), f['q']))
        if o.kind == 'undecided':
            R.undecided('derivative', view + ' ' + name, '%s (%s)' % (o.exc, o.where))
            continue
        if o.kind == 'crash':
            R.bad('derivative', key, w, '%s: %s' % (name, o.value))
            continue
        if o.kind == 'throw':
            if special:
                R.good('no derivative', name + ' raises')
            else:
                R.bad('derivative', key, w, '%s raises %s' % (name, o.value.cls))
            continue
        got, m = o.value
        if m:
            R.bad('derivative', key + ':form', w, '%s: %s' % (name, m))
            continue
        try:
            want = t
            for _ in range(order):
                want = TR.deriv(want, x)
        except TR.NoDeriv as e:
            R.bad('no derivative', key, w, '%s has no derivative but %s is returned' % (name, TR.text(got)))
            continue
        envs = samples([t, want, got], o.path.facts)
        if not envs:
            R.count('traces without a sample point')
            continue
        envs = [e for e in envs if valid_at(t, e) and valid_at(want, e)]
        if not envs:
            R.good('no value', name)
            continue
        res = agree(lambda e: TR.raw(want, e), lambda e: TR.raw(got, e), envs)
        if res == 'equal':
            R.good('derivative', '%s = %s' % (name, TR.text(got)))
        elif res == 'unknown':
            R.undecided('derivative', view + ' ' + name, 'no common point (%s)' % TR.text(got))
        else:
            R.bad('derivative', key, w, '%s: the result %s %s [%s]' % (name, TR.text(got), res, o.desc()))


def valid_at(t, e):
    xs = TR.raws(t, e)
    return None not in xs and len(xs) == 1


def C05(R):
    R.rule('Simplification is interpreted on every operator over every operand kind (symbolic constant, 0, 1, variables, compound operands) with '
           'trace partitioning on the values of constants; the value term of the resulting tree must equal that of the given tree wherever both '
           'are defined (0 to a power counts as 0). Constant operands whose result is inf or nan leave the tree in place.')
    R.assume('trees of height up to 2 and selected ones of height 3 stand for all operands (the code processes one operator at a time, bottom up)')
    deep = bool(os.environ.get('VERIF_DEEP'))
    jobs = []
    for view, P, N in views():
        f = P.one('tomsolver::Simplify')
        ts = TR.height2() + (TR.height3() if deep else TR.height3()[::4]) + TR.patterns1() + TR.patterns2()[::2 if deep else 13] + TR.equal_operands() + TR.random_trees(600 if deep else 60, 9)
        for t in ts:
            for flag in (1, 0):
                jobs.append(lambda S, a=(view, P, N, f, t, flag): one_simplify(S, *a))
        for i, t in enumerate(near_trees(deep)):
            jobs.append(lambda S, a=(view, P, N, f, t, i % 2): one_simplify(S, *a))
        tri = list(TR.triples())
        for i, t in enumerate(tri if deep or view == VIEWS[0] else tri[::4]):
            jobs.append(lambda S, a=(view, P, N, f, t, i % 2): one_simplify(S, *a))
        for op in UNARY + BINARY:
            jobs.append(lambda S, a=(view, P, N, f, op): invalid_constant(S, *a))
    pmap(R, jobs)


def near_trees(deep=False):
    """expressions whose operands are names that are easily taken for each other"""
    out = []
    for i, (a, b) in enumerate(TR.NEAR):
        for j, op in enumerate(BINARY):
            if deep or op in ('MATH_SUB', 'MATH_DIVIDE') or (i + j) % 4 == 0:
                out.append((op, v(a), v(b)))
        k = UNARY[i % len(UNARY)]
        out.append((('MATH_SUB', 'MATH_DIVIDE', 'MATH_ADD')[i % 3], (k, v(a)), (k, v(b))))
        out.append((('MATH_SUB', 'MATH_DIVIDE', 'MATH_ADD')[i % 3], ('MATH_MULTIPLY', n('k'), v(a)), ('MATH_MULTIPLY', n('k'), v(b))))
    return out


def one_simplify(R, view, P, N, f, t, flag):
    def call(I, root):
        c = Cell(UPtr(root))
        I.call_fn(f, None, [c])
        return check_result(I, N, c.v.cell)
    I, out = run_tree(P, N, t, call, cfg={'throwOnInvalidValue': flag})
    R.seen(I)
    name = TR.text(t)
    key = 'simplify:%s' % (t[0] if t[0] not in ('n', 'v') else 'leaf')
    for o in out:
        w = short(o.where or '%s:%s in %s' % (f['file'], f.get('l'), f['q']))
        if o.kind == 'undecided':
            R.undecided('value', view + ' ' + name, '%s (%s)' % (o.exc, o.where))
            continue
        if o.kind != 'return':
            R.bad('value', key, w, 'simplifying %s: %s' % (name, o.value if o.kind == 'crash' else 'raises ' + o.value.cls))
            continue
        got, m = o.value
        if m:
            R.bad('value', key + ':form', w, 'simplifying %s: %s' % (name, m))
            continue
        if got == t:
            R.good('value', name + ' unchanged')
            continue
        envs = samples([t, got], o.path.facts)
        if not envs:
            R.count('traces without a sample point')
            continue
        # 0^p counts as 0
        res = agree_sets(t, got, envs)
        if res == 'equal':
            R.good('value', '%s -> %s' % (name, TR.text(got)))
        elif res == 'no value':
            R.good('no value', name)
        elif res == 'unknown':
            R.undecided('value', view + ' ' + name, 'no common point (%s)' % TR.text(got))
        else:
            R.bad('value', key, w, 'simplifying %s to %s: the value %s [%s]' % (name, TR.text(got), res, o.desc()))


def invalid_constant(R, view, P, N, f, op):
    """an operator over constants whose value is inf/nan stays"""
    t = (op, n('a')) if op in UNARY else (op, n('a'), n('b'))

    def call(I, root):
        finite = [n('a')[1], n('b')[1]]
        for s in finite:
            I.path.cls[s] = 'finite'
        c = Cell(UPtr(root))
        I.call_fn(f, None, [c])
        return check_result(I, N, c.v.cell)
    I, out = run_tree(P, N, t, call, dict(nan=True), cfg={'throwOnInvalidValue': 1})
    for o in out:
        if o.kind == 'undecided':
            R.undecided('invalid constant', view + ' ' + op, o.exc)
            continue
        if o.kind != 'return':
            R.bad('invalid constant', 'simplify-invalid', short(o.where), '%s over constants: %s' % (op, o.value if o.kind == 'crash' else o.value.cls))
            continue
        got, m = o.value
        nf = [c for c in o.path.cls.values() if c != 'finite']
        if m:
            R.bad('invalid constant', 'simplify-invalid', f['q'], '%s: %s' % (TR.text(t), m))
        elif got[0] == 'n' and nf:
            R.bad('invalid constant', 'simplify-invalid', f['q'], '%s is replaced by the invalid number %r (%s)' % (TR.text(t), got[1], nf[0]))
        elif got[0] == 'n' and is_const(got[1]) and not T.finite(got[1]):
            R.bad('invalid constant', 'simplify-invalid', f['q'], '%s is replaced by an invalid number' % TR.text(t))
        elif got != t and got[0] != 'n':
            R.undecided('invalid constant', op, 'becomes %s' % TR.text(got))
        else:
            R.good('invalid constant', '%s -> %s' % (TR.text(t), TR.text(got)))


def trap_runs(R, view, P, N, Traps):
    """integer conversions met while simplifying and differentiating (for C10)"""
    fs = P.one('tomsolver::Simplify')
    fd = find_diff(P)
    ts = []
    for u in UNARY:
        ts += [(u, n('a')), (u, n(math.inf)), (u, v('x'))]
    for b in BINARY:
        for k in (n('b'), n(0), n(1), n(-1), n(math.inf), n(math.nan), n(-math.inf)):
            ts += [(b, n('a'), k), (b, k, n('a')), (b, v('x'), k), (b, k, v('x')), (b, ('MATH_SIN', v('x')), k), (b, k, ('MATH_SIN', v('x')))]
        ts += [(b, v('x'), v('y'))]
    for t in ts:
        for what in ('simplify', 'diff'):
            tr = Traps()

            def call(I, root):
                if what == 'simplify':
                    I.call_fn(fs, None, [Cell(UPtr(root))])
                else:
                    I.call_fn(fd, None, [Cell(UPtr(root)), Cell('x'), 1])
            I, out = run_tree(P, N, t, call, tr.opts())
            yield '%s %s' % (what, t[0]), TR.text(t), out, tr


# ------------------------------------------------------------------ C39
def C39(R):
    R.rule('Simplification is interpreted on every operator over every operand kind, on chains and large trees, and a second time on its own result along the same trace: the second run must change nothing, and the '
           'result must hold no operator over numbers that has a valid value and none of the neutral or absorbing constants the rules remove. The result of differentiation must be left unchanged by simplification.')
    R.assume('trees of height up to 2, selected ones of height 3, random and large trees stand for all expressions')
    deep = bool(os.environ.get('VERIF_DEEP'))
    jobs = []
    for view, P, N in views():
        f, d = P.one('tomsolver::Simplify'), find_diff(P)
        ts = TR.height2() + (TR.height3() if deep else TR.height3()[::5]) + TR.patterns1() + TR.patterns2()[::3 if deep else 17] + TR.equal_operands() + TR.random_trees(400 if deep else 60, 11) + constants() + TR.LARGE
        for i, t in enumerate(ts):
            jobs.append(lambda S, a=(view, P, N, f, t, i % 4 != 0): one_pass(S, *a))
        for i, t in enumerate(near_trees(deep)[::1 if deep else 3]):
            jobs.append(lambda S, a=(view, P, N, f, t, i % 2): one_pass(S, *a))
        tri = list(TR.triples())
        for i, t in enumerate(tri[::1 if deep else 5]):
            jobs.append(lambda S, a=(view, P, N, f, t, i % 2): one_pass(S, *a))
        for t in (TR.height2() + TR.patterns1())[::1 if deep else 3]:
            jobs.append(lambda S, a=(view, P, N, f, t, 1, d): one_pass(S, *a))
    pmap(R, jobs)


def constants():
    """constants and neutral elements in every position of deeper expressions"""
    out = []
    x, y = v('x'), v('y')
    for b in BINARY[:5]:
        for k in (0, 1, 2, -1, -0.0):
            for c in BINARY[:5]:
                out += [(c, (b, x, n(k)), y), (c, y, (b, n(k), x)), (c, (b, n(2), n(k)), x), (c, (b, n(3), n(k)), n(1)), (c, n(0), (b, n(3), n(k))), ('MATH_SIN', (c, (b, x, n(k)), (b, n(k), n(1))))]
    for k in range(3, 12):
        t = n(1)
        for i in range(k):
            t = (BINARY[i % 3], t, n(i % 3)) if i % 2 else (BINARY[i % 3], n(i % 3), t)
        out += [t, ('MATH_MULTIPLY', x, ('MATH_SUB', t, t)), ('MATH_ADD', ('MATH_MULTIPLY', x, n(0)), ('MATH_POWER', ('MATH_MULTIPLY', n(1), y), n(1)))]
    return out


def left_over(t, facts):
    """an operator that simplification should have removed"""
    todo = [t]
    while todo:
        s = todo.pop()
        if s[0] in ('n', 'v'):
            continue
        ks = s[1:]
        todo += ks
        if all(k[0] == 'n' for k in ks):
            try:
                envs = samples([s], facts, 4)
                vals = [TR.raw(s, e) for e in envs]
            except (identity.NoValue, OverflowError, ValueError, ZeroDivisionError):
                continue
            if vals and all(x == x and not math.isinf(x) for x in vals):
                return s
        if len(ks) == 2:
            l, r = [k[1] if k[0] == 'n' and is_const(k[1]) else None for k in ks]
            op = s[0]
            if op == 'MATH_ADD' and 0 in (l, r) or op == 'MATH_SUB' and r == 0 or op == 'MATH_MULTIPLY' and (0 in (l, r) or 1 in (l, r)) or op == 'MATH_DIVIDE' and (l == 0 and r is None or r == 1) or op == 'MATH_POWER' and (l == 0 and r is None or r == 1):
                return s
    return None


def one_pass(R, view, P, N, f, t, flag, d=None):
    def call(I, root):
        c = Cell(UPtr(root))
        if d is None:
            I.call_fn(f, None, [c])
        else:
            r = I.call_fn(d, None, [c, Cell('x'), 1])
            c = r if isinstance(r, Cell) else Cell(r)
        one, m = check_result(I, N, c.v.cell)
        if m:
            return one, m, None
        I.call_fn(f, None, [c])
        two, m = check_result(I, N, c.v.cell)
        return one, m, two
    I, out = run_tree(P, N, t, call, cfg={'throwOnInvalidValue': int(flag)}, extra=dict(fuel=3000000))
    R.seen(I)
    nm = TR.text(t)
    nm = nm if len(nm) < 160 else nm[:160] + '...'
    name = ('simplifying ' if d is None else 'differentiating ') + nm
    key = 'pass:%s' % (t[0] if t[0] not in ('n', 'v') else 'leaf')
    for o in out:
        w = short(o.where or '%s:%s in %s' % ((d or f)['file'], (d or f).get('l'), (d or f)['q']))
        if o.kind == 'undecided':
            R.undecided('one pass', view + ' ' + name, '%s (%s)' % (o.exc, o.where))
            continue
        if o.kind == 'throw' and d is not None:
            R.count('expressions that cannot be differentiated')
            continue
        if o.kind != 'return':
            R.bad('one pass', key, w, '%s: %s' % (name, o.value if o.kind == 'crash' else 'raises ' + o.value.cls))
            continue
        one, m, two = o.value
        if m:
            R.bad('one pass', key, w, '%s: %s' % (name, m))
        elif one != two:
            R.bad('one pass', key, w, '%s gives %s, which simplifies further to %s [%s]' % (name, TR.text(one)[:160], TR.text(two)[:160], o.desc()[:160]))
        else:
            s = left_over(one, o.path.facts)
            if s is not None:
                R.bad('one pass', key, w, '%s gives %s, where %s remains [%s]' % (name, TR.text(one)[:160], TR.text(s)[:100], o.desc()[:160]))
            else:
                R.good('one pass', name)
