"""C06 names, C09 evaluation, C10 arithmetic traps"""
from checks.common import *
import os
from collections import defaultdict

FUNC = {'MATH_SIN': 'sin', 'MATH_COS': 'cos', 'MATH_TAN': 'tan', 'MATH_ARCSIN': 'asin', 'MATH_ARCCOS': 'acos',
        'MATH_ARCTAN': 'atan', 'MATH_SQRT': 'sqrt', 'MATH_LOG': 'log', 'MATH_LOG2': 'log2', 'MATH_LOG10': 'log10',
        'MATH_EXP': 'exp'}
INT_MIN, INT_MAX = -2.0 ** 31, 2.0 ** 31 - 1
BOUNDED = {'MATH_SIN', 'MATH_COS', 'MATH_ARCTAN', 'MATH_AND', 'MATH_OR', 'MATH_MOD', 'MATH_POSITIVE', 'MATH_NEGATIVE', 'MATH_TAN'}


def spec_term(op, l, r):
    """the function an operator denotes, as a term"""
    if op in FUNC:
        return T.atom_num(FUNC[op], l)
    if op == 'MATH_POSITIVE':
        return l
    if op == 'MATH_NEGATIVE':
        return T.neg(l)
    if op == 'MATH_ADD':
        return T.add(l, r)
    if op == 'MATH_SUB':
        return T.sub(l, r)
    if op == 'MATH_MULTIPLY':
        return T.mul(l, r)
    if op == 'MATH_DIVIDE':
        return T.div(l, r)
    if op == 'MATH_POWER':
        return T.atom_num('pow', l, r)
    return None


def spec_num(op, l, r):
    """value of the operator on two floats; None: not judged (range limits of int), nan: no valid value"""
    if op in ('MATH_AND', 'MATH_OR', 'MATH_MOD'):
        for v in (l, r):
            if v != v or math.isinf(v):
                return math.nan
            if INT_MIN - 1 < v < INT_MIN or INT_MAX < v < INT_MAX + 1:
                return None
            if v < INT_MIN or v > INT_MAX:
                return math.nan
        a, b = int(l), int(r)
        if op == 'MATH_AND':
            return float(a & b)
        if op == 'MATH_OR':
            return float(a | b)
        return math.nan if b == 0 else math.fmod(a, b)
    try:
        if op in FUNC:
            return identity.apply(FUNC[op], [l])
        return {'MATH_POSITIVE': lambda: l, 'MATH_NEGATIVE': lambda: -l, 'MATH_ADD': lambda: l + r,
                'MATH_SUB': lambda: l - r, 'MATH_MULTIPLY': lambda: l * r, 'MATH_DIVIDE': lambda: l / r,
                'MATH_POWER': lambda: math.pow(l, r)}[op]()
    except (ValueError, ZeroDivisionError, OverflowError):
        return math.nan


def same(a, b):
    if a != a or b != b:
        return a != a and b != b
    return identity.close(a, b)


def finite_ops(I, *syms):
    for s in syms:
        if isinstance(s, Poly):
            I.path.cls[s] = 'finite'


def operand_classes(unary):
    l, r = sym('l'), sym('r')
    nf = [math.inf, -math.inf, math.nan]
    out = [(l, r)]
    if unary:
        return out + [(x, math.nan) for x in nf]
    return out + [(x, r) for x in nf] + [(l, x) for x in nf] + [(x, y) for x in nf for y in nf]


def run_calc(P, f, op, l, r, extra=None):
    def body(I):
        finite_ops(I, l, r)
        return I.call_fn(f, None, [op, l, r])
    opts = dict(nan=True, static_hook=sym_config(P))
    opts.update(extra or {})
    I = Interp(P, stubs={NT: stub_tostring}, opts=opts)
    return I, I.explore(body)


def judge_calc(P, N, opn, l, r, o):
    """None (undecided), '' (holds) or a message"""
    flag = o.path.dom.get(Atom('sym', 'config.throwOnInvalidValue', 'bool'), frozenset([0, 1]))
    syms = [a for a in identity.syms_of(l, r)]
    envs = identity.assignments(o.path.facts, syms, 30)

    def envval(x, e):
        return identity.numeval(x, e)
    special = [(t, c) for t, c in o.path.cls.items() if c != 'finite']
    st = spec_term(opn, l, r) if not any(is_const(x) and not T.finite(x) for x in (l, r)) else None
    if o.kind == 'crash':
        return 'undefined behaviour: %s' % o.value
    if o.kind == 'throw':
        cls, kind = err_kind(P, o)
        if cls != 'MathError' or kind != 'ERROR_INVALID_NUMBER':
            return 'raises %s %s instead of the invalid-number error' % (cls, kind or '')
        if 0 in flag:
            return 'raises the invalid-number error although the configuration does not ask for it'
        if special:
            if st is not None and not any(identity.compare(t, st) == 'equal' for t, _ in special):
                return 'the tested value %r is not the result %r' % (special[0][0], st)
            return ''
        for e in envs:
            v = spec_num(opn, envval(l, e), envval(r, e))
            if v is not None and v == v and not math.isinf(v):
                return 'raises for valid operands %s (value %g)' % (showenv(e), v)
        return '' if envs else None
    if o.kind != 'return':
        return None
    v = o.value
    if st is not None:
        # numeric operators: value numbering
        c = identity.compare(v, st, o.path.facts, 30)
        if c != 'equal' and c != 'unknown':
            return 'yields %r instead of %r (e.g. %s)' % (v, st, showenv(c[1]))
        if c == 'unknown':
            return None
    else:
        n = 0
        for e in envs:
            s = spec_num(opn, envval(l, e), envval(r, e))
            try:
                w = envval(v, e)
            except identity.NoValue:
                return None
            if s is None:
                continue
            n += 1
            if not same(s, w):
                return 'yields %r (%g) instead of %g for %s' % (v, w, s, showenv(e))
        if not n:
            return ''
    if 1 in flag:
        if any(c != 'finite' for _, c in special):
            return 'an invalid result (%s) is returned although the configuration asks for an error' % special[0][1]
        if is_const(v):
            if not T.finite(v):
                return 'an invalid result is returned although the configuration asks for an error'
        elif opn not in BOUNDED and v not in o.path.cls:
            return 'the result %r is returned without testing it for validity' % v
    return ''


def showenv(e):
    return ', '.join('%r=%g' % (a, v) for a, v in e.items())


def calc_fn(P):
    return P.one('tomsolver::Calc', ['tomsolver::MathOperator', 'double', 'double'])


def tree_shapes(n):
    """all operator shapes with n operator nodes: 'L' | ('U', t) | ('B', t, t)"""
    if n == 0:
        return ['L']
    out = [('U', t) for t in tree_shapes(n - 1)]
    for k in range(n):
        out += [('B', a, b) for a in tree_shapes(k) for b in tree_shapes(n - 1 - k)]
    return out


def leaves(s):
    return 1 if s == 'L' else sum(leaves(x) for x in s[1:])


def opnodes(s):
    return 0 if s == 'L' else 1 + sum(opnodes(x) for x in s[1:])


def shape_text(s):
    return 'v' if s == 'L' else s[0] + '(' + ','.join(shape_text(x) for x in s[1:]) + ')'


def build(I, N, s, ops, leaf):
    """builds a shape; ops(kind, index) gives the operator, leaf(index) the leaf node; returns the root cell"""
    cnt = [0, 0]

    def go(s):
        if s == 'L':
            cnt[1] += 1
            return leaf(cnt[1] - 1)
        i = cnt[0]
        cnt[0] += 1
        kids = [go(x) for x in s[1:]]
        return N.opn(ops(s[0], i), *kids)
    return go(s)


def value_of(s, ops, leaf, app):
    cnt = [0, 0]

    def go(s):
        if s == 'L':
            cnt[1] += 1
            return leaf(cnt[1] - 1)
        i = cnt[0]
        cnt[0] += 1
        kids = [go(x) for x in s[1:]]
        return app(ops(s[0], i), kids)
    return go(s)


def C09(R):
    R.rule('Trace-partitioned value numbering of the scalar evaluator for every operator and class of operands (finite symbol, '
           'inf, -inf, nan) under an arbitrary configuration; of the expression evaluator for every tree shape with up to 3 '
           '(thorough: 4) operators, symbolic operators and symbolic leaves: the returned term must be the term the tree denotes.')
    R.assume('libm functions are the mathematical functions of the same name; reals stand for doubles in the term identities')
    import os
    deep = 4 if os.environ.get('VERIF_DEEP') else 3
    through = {}
    for view, P, N in views():
        f = calc_fn(P)
        for opn in UNARY + BINARY:
            for l, r in operand_classes(opn in UNARY):
                I, out = run_calc(P, f, N.ops[opn], l, r)
                R.seen(I)
                name = '%s(%r, %r)' % (opn, l, r)
                for o in out:
                    m = judge_calc(P, N, opn, l, r, o)
                    if m is None:
                        R.undecided('operator value', view + ' ' + name, o.exc or 'no sample')
                    elif m == '':
                        R.good('operator value', name)
                    else:
                        R.bad('operator value', 'calc:' + opn, short(o.where or f['q']), '%s: %s [%s]' % (name, m, o.desc()))
        through[view] = uses_calc(P, N)
        if through[view]:
            vpa(R, view, P, N, deep)
        R.count('evaluation through the scalar evaluator (%s)' % view, int(through[view]))
    import trees as TR
    ts = TR.patterns1() + (TR.patterns2() if deep == 4 else TR.patterns2()[::3]) + TR.random_trees(400 if deep == 4 else 60, 12) + TR.LARGE
    jobs = []
    for view, P, N in views():
        for i in range(0, len(ts), 60):
            jobs.append(lambda S, a=(view, P, N, ts[i:i + 60]), th=through[view]: vpa_trees(S, *a, th))
    pmap(R, jobs)


def uses_calc(P, N):
    """whether the evaluator of expressions calls the scalar evaluator for its operators"""
    I = Interp(P, stubs={'tomsolver::Calc': calc_stub(N)}, opts={})
    for op in ('MATH_ADD', 'MATH_SIN', 'MATH_MOD', 'MATH_NEGATIVE'):
        for fn in ('Vpa', 'Calc'):
            def body(I):
                k = [N.num(sym('v%d' % i)) for i in range(1 if op in UNARY else 2)]
                root = N.opn(N.opn_ids[op] if hasattr(N, 'opn_ids') else op, *k)
                v = I.call_fn(P.one(NI + '::' + fn), root, [])
                return v if fn == 'Vpa' else N.get(root, N.value)
            for o in I.explore(body):
                if o.kind != 'return' or not (isinstance(o.value, Poly) and any(a.op == 'calc' for a in T.atoms(o.value))):
                    return False
    return True


def vpa_trees(R, view, P, N, ts, through):
    """every operator over every operator and kind of operands, larger expressions: value with constants, error with variables"""
    import trees as TR

    def ground(t):
        return ('n', sym('k' + t[1])) if t[0] == 'v' else t if t[0] == 'n' else (t[0],) + tuple(ground(k) for k in t[1:])

    def want(t):
        return t[1] if t[0] == 'n' else T.atom_num('calc', N.ops[t[0]], *[want(k) for k in t[1:]])
    for t in ts:
        nm = TR.text(t) if len(TR.text(t)) < 200 else TR.text(t)[:80] + '...'
        for what in ('Vpa', 'Calc'):
            fn = P.one(NI + '::' + what)
            for u in {ground(t), t}:
                def body(I):
                    root = TR.build(N, u)
                    v = I.call_fn(fn, root, [])
                    if what == 'Calc':
                        if N.kids(root) or I.res(N.get(root, N.type)) != N.NUMBER:
                            return 'the expression is not replaced by a number'
                        v = N.get(root, N.value)
                    elif TR.term_of(I, N, root) != u:
                        return 'evaluation changes the expression'
                    return None if v == want(u) else ('gives', v)
                hasvar = bool(u != ground(t))
                I = Interp(P, stubs={'tomsolver::Calc': calc_stub(N)}, opts=dict(fuel=2000000))
                if not through:
                    if not hasvar:
                        if nm.endswith('...'):
                            continue
                        m = direct(P, N, what, fn, u)
                        if m is None:
                            R.undecided('larger trees', '%s %s %s' % (view, what, nm), 'no value found')
                        elif m:
                            R.bad('larger trees', 'vpa:%s' % what, short(fn['q']), '%s of %s: %s' % (what, nm, m))
                        else:
                            R.good('larger trees', what + ' ' + nm)
                        continue
                    I = Interp(P, stubs={NT: stub_tostring}, opts=dict(static_hook=sym_config(P, fixed={'throwOnInvalidValue': 0}), max_paths=12, fuel=2000000))
                for o in I.explore(body):
                    w = short(o.where or fn['q'])
                    if o.kind == 'undecided' and o.exc == 'too many traces' and not through:
                        continue
                    if o.kind == 'undecided':
                        R.undecided('larger trees', '%s %s %s' % (view, what, nm), '%s (%s)' % (o.exc, o.where))
                    elif hasvar and o.kind == 'throw':
                        R.good('variable', '%s of %s raises' % (what, nm))
                    elif hasvar:
                        R.bad('variable', 'vpa-variable:%s' % what, w, '%s of the expression %s with a variable does not raise an error' % (what, nm))
                    elif o.kind != 'return':
                        R.bad('larger trees', 'vpa:%s' % what, w, '%s of %s: %s' % (what, nm, o.value if o.kind == 'crash' else 'raises ' + o.value.cls))
                    elif isinstance(o.value, tuple):
                        m = direct(P, N, what, fn, u)
                        if m is None:
                            R.undecided('larger trees', '%s %s %s' % (view, what, nm), 'term %s' % repr(o.value[1])[:200])
                        elif m:
                            R.bad('larger trees', 'vpa:%s' % what, w, '%s of %s: %s' % (what, nm, m))
                        else:
                            R.good('larger trees', what + ' ' + nm)
                    elif o.value:
                        R.bad('larger trees', 'vpa:%s' % what, w, '%s of %s: %s' % (what, nm, o.value))
                    else:
                        R.good('larger trees', what + ' ' + nm)
                R.seen(I)


def direct(P, N, what, fn, u):
    """the value of an expression with the scalar evaluator analysed in place: '' right, None unknown, or a message"""
    import trees as TR

    def body(I):
        root = TR.build(N, u)
        r = I.call_fn(fn, root, [])
        return r if what == 'Vpa' else N.get(root, N.value)
    I = Interp(P, stubs={NT: stub_tostring}, opts=dict(static_hook=sym_config(P, fixed={'throwOnInvalidValue': 0}), max_paths=12, fuel=20000))
    good = 0
    syms = sorted(TR.syms(u), key=lambda a: a.id)
    for o in I.explore(body):
        if o.kind == 'undecided' and o.exc == 'too many traces':
            continue
        if o.kind != 'return':
            return None if o.kind == 'undecided' else 'does not return'
        for e in identity.assignments(o.path.facts, syms, 12, seed=2) + identity.assignments(o.path.facts, syms, 8, seed=3, lo=.2, hi=.9):
            a = TR.raw(u, e)
            try:
                b = identity.numeval(o.value, e)
            except identity.NoValue:
                return None
            if a != a:
                continue
            if b != b or not identity.close(a, b, 1e-6):
                return 'gives %g instead of %g' % (b, a)
            good += 1
    return '' if good else None


def calc_stub(N):
    def stub(I, f, this, args):
        if this is not None:
            return NotImplemented
        a = [I.rv_(x) for x in args]
        op = a[0]
        d = I.path.dom.get(op) if isinstance(op, Atom) else frozenset([op])
        if d is not None and d <= N.unary:
            return T.atom_num('calc', op, a[1])
        return T.atom_num('calc', op, a[1], a[2])
    return stub


def vpa(R, view, P, N, deep):
    fv = P.one(NI + '::Vpa')
    fc = P.one(NI + '::Calc')
    Q = 'tomsolver::Calc'

    def sops(I):
        def g(kind, i):
            a = Atom('sym', 'op%d' % i, 'op')
            I.path.dom[a] = N.unary if kind == 'U' else N.binary
            return a
        return g

    def want(s):
        return value_of(s, lambda k, i: Atom('sym', 'op%d' % i, 'op'), lambda i: sym('v%d' % i),
                        lambda op, kids: T.atom_num('calc', op, *kids))
    bad_shapes = []
    for n in range(deep + 1):
        for s in tree_shapes(n):
            for what, fn in (('Vpa', fv), ('Calc', fc)):
                def body(I):
                    root = build(I, N, s, sops(I), lambda i: N.num(sym('v%d' % i)))
                    before = N.shape(I, root)
                    v = I.call_fn(fn, root, [])
                    return v, root, before, N.shape(I, root) if what == 'Vpa' else None
                I = Interp(P, stubs={Q: calc_stub(N)}, opts={})
                out = I.explore(body)
                R.seen(I)
                for o in out:
                    msg = None
                    if o.kind == 'undecided':
                        R.undecided('tree value', '%s %s %s' % (view, what, shape_text(s)), '%s %s' % (o.where, o.exc))
                        continue
                    if o.kind == 'return':
                        v, root, before, after = o.value
                        if what == 'Calc':
                            c = root
                            if c.v.f[N.type].v != N.NUMBER or N.kids(c):
                                msg = 'the expression is not replaced by a number'
                            elif isinstance(v, Cell) and v is not root:
                                msg = 'does not return the node itself'
                            v = c.v.f[N.value].v
                        elif before != after:
                            msg = 'evaluation changes the expression'
                        w = want(s)
                        if msg is None and not v == w:
                            if o.path.bools or len(o.path.log) or True:
                                bad_shapes.append((s, what, fn, v, w, o))
                                continue
                    elif o.kind == 'crash':
                        msg = 'undefined behaviour: %s' % o.value
                    else:
                        msg = 'raises %s for an expression without variables' % o.value.cls
                    if msg:
                        R.bad('tree value', 'vpa:%s' % what, short(o.where or fn['q']), 'shape %s: %s [%s]' % (shape_text(s), msg, o.desc()))
                    else:
                        R.good('tree value', what + ' ' + shape_text(s))
    if bad_shapes:
        confirm(R, view, P, N, bad_shapes)
    # variables
    for n in range(3):
        for s in tree_shapes(n):
            for k in range(leaves(s)):
                for what, fn in (('Vpa', fv), ('Calc', fc)):
                    def body(I):
                        root = build(I, N, s, sops(I), lambda i: N.var('x') if i == k else N.num(sym('v%d' % i)))
                        I.path.root = root
                        return I.call_fn(fn, root, [])
                    I = Interp(P, stubs={Q: calc_stub(N)}, opts={})
                    for o in I.explore(body):
                        if o.kind == 'undecided':
                            R.undecided('variable', '%s %s' % (view, shape_text(s)), o.exc)
                        elif o.kind == 'throw':
                            R.good('variable', '%s of %s with a variable raises' % (what, shape_text(s)))
                        else:
                            R.bad('variable', 'vpa-variable:%s' % what, short(o.where or fn['q']),
                                  '%s of an expression with a variable (%s, leaf %d) %s' % (what, shape_text(s), k,
                                   'returns %r' % (o.value,) if o.kind == 'return' and what == 'Vpa' else 'does not raise an error (%s)' % o.kind))
    # an error raised at any node is not swallowed
    for n in range(1, 3):
        for s in tree_shapes(n):
            for k in range(n):
                def stub(I, f, this, args):
                    a = [I.rv_(x) for x in args]
                    if a[0] is Atom('sym', 'op%d' % k, 'op'):
                        raise CppThrow(Cell(Opaque('error')), 'tomsolver::MathError', ['tomsolver::MathError', 'std::runtime_error', 'std::exception'], I.where())
                    return calc_stub(N)(I, f, this, args)

                def body(I):
                    root = build(I, N, s, sops(I), lambda i: N.num(sym('v%d' % i)))
                    return I.call_fn(fv, root, [])
                I = Interp(P, stubs={Q: stub}, opts={})
                for o in I.explore(body):
                    if o.kind == 'throw' and o.value.cls == 'tomsolver::MathError':
                        R.good('error passes', shape_text(s))
                    elif o.kind == 'return' and any(k2 for k2 in ()):
                        pass
                    elif o.kind == 'undecided':
                        R.undecided('error passes', shape_text(s), o.exc)
                    elif o.kind == 'return' and not any(True for _ in T.atoms(o.value if isinstance(o.value, Poly) else T.topoly(0)) if _.op == 'calc'):
                        R.undecided('error passes', shape_text(s), 'evaluation does not go through the scalar evaluator')
                    else:
                        R.bad('error passes', 'vpa-error', short(o.where or fv['q']), 'an invalid-number error at operator %d of %s is not passed on' % (k, shape_text(s)))


def confirm(R, view, P, N, bad):
    """term mismatches are confirmed with the operators made concrete and the scalar evaluator analysed in place"""
    confirmed = 0
    import itertools, random
    rnd = random.Random(1)
    for s, what, fn, v, w, o in bad[:6]:
        n = opnodes(s)
        choices = []

        def kinds(s):
            if s == 'L':
                return []
            return [s[0]] + [k for x in s[1:] for k in kinds(x)]
        ks = kinds(s)
        pools = [UNARY if k == 'U' else BINARY[:5] for k in ks]
        combos = list(itertools.product(*pools))
        rnd.shuffle(combos)
        hit = False
        for ops in combos[:120]:
            def body(I):
                root = build(I, N, s, lambda k, i: N.ops[ops[i]], lambda i: N.num(sym('v%d' % i)))
                r = I.call_fn(fn, root, [])
                return r if what == 'Vpa' else root.v.f[N.value].v
            I = Interp(P, stubs={NT: stub_tostring}, opts=dict(static_hook=sym_config(P, fixed={'throwOnInvalidValue': 0})))
            ww = value_of(s, lambda k, i: ops[i], lambda i: sym('v%d' % i), lambda op, kids: spec_term(op, kids[0], kids[-1]))
            for o2 in I.explore(body):
                if o2.kind == 'return':
                    c = identity.compare(o2.value, ww, o2.path.facts, 20)
                    if c != 'equal' and c != 'unknown':
                        R.bad('tree value', 'vpa:%s' % what, short(fn['q']), 'shape %s with %s evaluates to %r instead of %r' % (shape_text(s), '/'.join(ops), o2.value, ww))
                        hit = True
                        break
            if hit:
                break
        if not hit:
            R.undecided('tree value', shape_text(s), 'term %r instead of %r, not confirmed' % (v, w))


# ---------------------------------------------------------------- C10
RANGE = {'int': (-2 ** 31, 2 ** 31 - 1), 'long': (-2 ** 63, 2 ** 63 - 1), 'long long': (-2 ** 63, 2 ** 63 - 1),
         'unsigned int': (0, 2 ** 32 - 1), 'unsigned long': (0, 2 ** 64 - 1), 'unsigned long long': (0, 2 ** 64 - 1),
         'short': (-2 ** 15, 2 ** 15 - 1), 'unsigned short': (0, 2 ** 16 - 1), 'char': (-128, 127), 'signed char': (-128, 127),
         'unsigned char': (0, 255), 'size_t': (0, 2 ** 64 - 1), 'std::size_t': (0, 2 ** 64 - 1)}
EXTREME = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0 ** 31, 2.0 ** 31 - 1, 2.0 ** 31, -2.0 ** 31 - 1, 3e9, -3e9, 1e10, -1e10, 2.0 ** 63, -2.0 ** 63,
           2.0 ** 32, 9.3e18, -9.3e18, 1e20, -1e20, 1e300, -1e300, 1e-300, 7.0, -7.0, 100.0, 65.0, 1e5, -1e5, 2.0 ** 31 - 1.5, 2.0, 31.0, 32.0, 63.0, 64.0]


def witnesses(facts, syms):
    """assignments with extreme values satisfying the facts"""
    import itertools
    syms = syms[:2]
    out = []
    if len(syms) <= 2:
        for vals in itertools.product(EXTREME, repeat=len(syms)):
            env = dict(zip(syms, vals))
            if identity.sat(facts, env):
                out.append(env)
    return out


class Traps:
    """obligations of integer operations and conversions, decided where they occur"""

    def __init__(self):
        self.n = 0
        self.bad = []
        self.und = []
        self.where = set()

    def range_of(self, I, v):
        """interval of an integer term from the facts of the trace"""
        if is_const(v):
            return v, v
        if isinstance(v, bool):
            return 0, 1
        q, k, c = T.split_const(v)
        r = I.path.facts.iv.get(q)
        lo = hi = None
        if r:
            lo, hi = r[0], r[2]
        if len(q.d) == 1:
            (m, co), = q.d.items()
            if len(m) == 1 and m[0][1] == 1 and co == 1:
                a = m[0][0]
                if a.op == 'trunc':
                    x = a.args[0]
                    x = T.topoly(x) if isinstance(x, Atom) else x
                    q2, k2, c2 = T.split_const(x)
                    r2 = I.path.facts.iv.get(q2) if q2 is not None else None
                    if r2 and k2 > 0:
                        l2 = None if r2[0] is None else math.trunc(k2 * r2[0] + c2)
                        h2 = None if r2[2] is None else math.trunc(k2 * r2[2] + c2)
                        lo = l2 if lo is None else (lo if l2 is None else max(lo, l2))
                        hi = h2 if hi is None else (hi if h2 is None else min(hi, h2))
                elif a.op == 'imod' and is_const(a.args[1]):
                    b = abs(a.args[1]) - 1
                    lo, hi = -b if lo is None else max(lo, -b), b if hi is None else min(hi, b)
                elif a.op == 'sym' and str(a.args[0]).startswith('#'):
                    pass
        if k < 0:
            lo, hi = hi, lo
        return (None if lo is None else k * lo + c), (None if hi is None else k * hi + c)

    def judge(self, I, ok, test, terms, msg):
        """ok: proved; otherwise looks for a feasible operand with test(env)"""
        self.n += 1
        self.where.add(I.where())
        if ok:
            return
        syms = identity.syms_of(*terms)
        if not I.path.bools and len(syms) <= 2:
            for env in witnesses(I.path.facts, syms):
                try:
                    if test(env):
                        self.bad.append((I.where(), '%s for %s' % (msg, showenv(env))))
                        return
                except identity.NoValue:
                    break
                except (ValueError, OverflowError):
                    continue
        self.und.append('%s at %s' % (msg, I.where()))

    def f2i(self, I, v, t):
        lo, hi = RANGE.get(t, RANGE['int'])
        q, k, c = T.split_const(v)
        f = I.path.facts
        if t == 'bool':
            return None
        ok = f.query(T.sub(v, hi + 1), '<') is True and f.query(T.sub(lo - 1, v), '<') is True

        def test(env):
            x = identity.numeval(v, env)
            return x != x or x >= hi + 1 or x <= lo - 1
        self.judge(I, ok, test, [v], 'conversion of %r to %s is out of range' % (v, t))
        return None

    def arith(self, I, op, a, b, t):
        if t in RANGE and op in ('<<', '>>'):
            width = (RANGE[t][1] - RANGE[t][0] + 1).bit_length() - 1
            rb = self.range_of(I, b)
            self.judge(I, None not in rb and rb[0] >= 0 and rb[1] < width, lambda env: not 0 <= (b if is_const(b) else identity.numeval(b, env)) < width,
                       [x for x in (a, b) if not is_const(x)] or [b], 'shift of a %d-bit number by %r' % (width, b))
            return
        if t not in RANGE or op not in ('+', '-', '*', '/', '%'):
            return
        if is_const(a) and is_const(b) and op in '+-*':
            return
        lo, hi = RANGE[t]
        f = I.path.facts

        def val(x, env):
            return float(x) if is_const(x) else identity.numeval(x, env)
        if op in ('/', '%'):
            if is_const(b) and b not in (0, -1):
                self.n += 1
                return
            zero = (is_const(b) and b != 0) or (not is_const(b) and f.query(b, '==', True) is False) or self.excludes(self.range_of(I, b), 0)
            self.judge(I, zero, lambda env: val(b, env) == 0, [a, b] if not is_const(a) else [b], 'integer %s by zero (%r %s %r)' % (
                'division' if op == '/' else 'remainder', a, op, b))
            if lo < 0:
                ra, rb = self.range_of(I, a), self.range_of(I, b)
                ok = self.excludes(rb, -1) or (ra[0] is not None and ra[0] > lo) or (not is_const(b) and f.query(T.add(b, 1), '==', True) is False)
                self.judge(I, ok, lambda env: val(a, env) == lo and val(b, env) == -1, [a, b], 'integer overflow in %r %s %r' % (a, op, b))
            return
        if lo == 0:
            return      # unsigned arithmetic is modular
        ra, rb = self.range_of(I, a), self.range_of(I, b)
        ok = False
        if None not in ra and None not in rb:
            c = [x for x in ({'+': [ra[0] + rb[0], ra[1] + rb[1]], '-': [ra[0] - rb[1], ra[1] - rb[0]],
                              '*': [x * y for x in ra for y in rb]}[op])]
            ok = min(c) >= lo and max(c) <= hi
        r = {'+': T.add, '-': T.sub, '*': T.mul}[op](a, b)

        def test(env):
            x = identity.numeval(r, env) if not is_const(r) else r
            return x == x and (x > hi or x < lo)
        self.judge(I, ok, test, [a, b], 'integer overflow in %r %s %r' % (a, op, b))

    @staticmethod
    def excludes(rg, x):
        return (rg[0] is not None and rg[0] > x) or (rg[1] is not None and rg[1] < x)

    def opts(self):
        return dict(f2i_hook=self.f2i, arith_hook=self.arith)


def C10(R):
    R.rule('At every conversion of a floating-point number to an integer, integer division or remainder and signed integer operation met '
           'by the trace-partitioned analysis of scalar evaluation (every operator, operands finite/inf/-inf/nan) and of simplification '
           'and differentiation steps, the interval facts of the trace must bound the operand; a feasible operand outside is a violation.')
    R.assume('int has 32 and long long 64 bits')
    for view, P, N in views():
        f = calc_fn(P)
        sites = set()
        for opn in UNARY + BINARY:
            for l, r in operand_classes(opn in UNARY):
                tr = Traps()
                I, out = run_calc(P, f, N.ops[opn], l, r, tr.opts())
                R.seen(I)
                sites |= tr.where
                name = '%s(%r, %r)' % (opn, l, r)
                settle(R, view, tr, out, opn, name)
        # numbers folded while simplifying
        import checks.deriv as deriv
        for name, P2, out, tr in deriv.trap_runs(R, view, P, N, Traps):
            sites |= tr.where
            settle(R, view, tr, out, name, name)
        # conversions and divisions elsewhere must be covered by a run above
        mat_text(R, view, P, N)
        sites |= number_text(R, view, P)
        sites |= scalar_functions(R, view, P, N)
        R.count('operation sites analysed (%s)' % view, len(sites))
        scan(R, view, P, sites)


def settle(R, view, tr, out, key, name):
    for o in out:
        for ev in o.path.events:
            if ev[0] == 'trap':
                tr.bad.append((ev[2], ev[1]))
        if o.kind == 'crash' and ('zero' in o.value or 'overflow' in o.value):
            tr.bad.append((o.where, o.value))
        elif o.kind == 'undecided' and not tr.bad:
            tr.und.append('%s (%s)' % (o.exc, o.where))
    if tr.n:
        R.good('integer operations', name, max(0, tr.n - len(tr.bad) - len(tr.und)))
    else:
        R.good('no integer operation', name)
    for w, m in tr.bad:
        R.bad('integer operations', 'trap:%s' % key, short(w), '%s: %s' % (name, m))
    for m in tr.und:
        R.undecided('integer operations', view + ' ' + name, m)


def scalar_functions(R, view, P, N):
    """the public functions of numbers, on every class of arguments"""
    import itertools
    sites = set()
    public = {(d['q'], tuple(d['_tu'].types[p['t']] for p in d.get('sig') or [])) for d in P.decls if d['q'].count('::') == 1 and str(d.get('file', '')).endswith('.h')}
    for f in P.funcs.values():
        ts = [strip_cvref(f['_tu'].types[p['t']]) for p in f.get('sig') or []]
        if (f['q'], tuple(f['_tu'].types[p['t']] for p in f.get('sig') or [])) not in public or f.get('body') is None or f.get('cls') or not f.get('ext_linkage') or 'double' not in ts or f['q'] in (NT, 'tomsolver::Calc') \
                or any(t not in ('double', 'int') and t != 'tomsolver::MathOperator' for t in ts):
            continue
        classes = [{'double': [sym('p%d' % i), math.inf, -math.inf, math.nan], 'int': [sym('#p%d' % i, True)]}.get(t) or sorted(N.ops.values()) for i, t in enumerate(ts)]
        for args in itertools.product(*classes):
            tr = Traps()

            def body(I):
                finite_ops(I, *[a for a, t in zip(args, ts) if t == 'double'])
                return I.call_fn(f, None, list(args))
            I = Interp(P, stubs={NT: stub_tostring}, opts=dict(nan=True, static_hook=sym_config(P), **tr.opts()))
            out = I.explore(body)
            R.seen(I)
            sites |= tr.where
            settle(R, view, tr, out, f['q'], '%s(%s)' % (f['q'], ', '.join(map(repr, args))))
    return sites


TEXT_OF = [0.0, -0.0, 1.0, -7.0, 0.5, 1e-16, 1e-17, -1e-300, 5e-324, 2147483647.0, 2147483648.0, -2147483648.0, -2147483649.0, 4294967296.0, 9.2233720368547748e18, 9.2233720368547758e18,
           -9.2233720368547758e18, -1e19, 1.8446744073709552e19, 999999999999999.0, 1e15, 1e16, 1e100, -1e300, 1.7976931348623157e308, math.inf, -math.inf, math.nan]


def number_text(R, view, P):
    """the text of a number: on an arbitrary finite number as far as the text of a symbol is modelled, and on numbers at and beyond the limits of the integer types"""
    f = P.one(NT)
    sites = set()
    for x in [sym('p')] + TEXT_OF:
        tr = Traps()

        def body(I):
            if not is_const(x):
                finite_ops(I, x)
            return I.call_fn(f, None, [x])
        I = Interp(P, opts=dict(nan=True, static_hook=sym_config(P), **tr.opts()))
        out = I.explore(body)
        R.seen(I)
        sites |= tr.where
        if not is_const(x):
            out = [o for o in out if o.kind != 'undecided']      # what the models of formatting do not cover for a symbol is decided by the numbers
        settle(R, view, tr, out, NT, '%s(%r)' % (NT, x))
    return sites


def mat_text(R, view, P, N):
    import checks.matrix as matrix
    for cls in ('tomsolver::Mat',):
        f = P.one(cls + '::ToString')
        for r, c in ((0, 0), (1, 1), (1, 3), (2, 3), (3, 1)):
            tr = Traps()

            def body(I):
                m = matrix.mk_mat(I, r, c, 'a')
                return I.call_fn(f, m, [])
            I = Interp(P, stubs={NT: stub_tostring}, opts=tr.opts())
            out = I.explore(body)
            R.seen(I)
            settle(R, view, tr, out, 'mat-text', '%s::ToString %dx%d' % (cls.split('::')[-1], r, c))


def scan(R, view, P, sites):
    """integer conversions and divisions in the rest of the library: constant divisors hold, others are reported as not analysed"""
    seen = {w.split(' in ')[0] for w in sites}
    for f in P.funcs.values():
        if not f.get('body') or 'verif_driver' in f['q']:
            continue
        tu = f['_tu']

        def walk(n):
            if isinstance(n, dict):
                k = n.get('k')
                if k == 'cast' and n.get('ck') == 'FloatingToIntegral' or (k == 'bin' and n.get('op') in ('/', '%', '/=', '%=') and 't' in n and strip_cvref(tu.types[n['t']]) in INTTYPES):
                    w = '%s:%s' % (f.get('file'), n.get('l'))
                    b = n.get('b')
                    while isinstance(b, dict) and b.get('k') == 'cast':
                        b = b['e']
                    if k == 'bin' and isinstance(b, dict) and b.get('k') == 'int' and int(b['v']) not in (0, -1):
                        R.good('constant divisor', '%s in %s' % (n.get('op'), f['q']))
                    elif w not in seen and not f['q'].endswith('::ToString'):
                        R.undecided('other sites', view, '%s at %s' % (k if k == 'cast' else n['op'], short(w)))
                for v in n.values():
                    walk(v)
            elif isinstance(n, list):
                for v in n:
                    walk(v)
        walk(f['body'])


# ---------------------------------------------------------------- C06
def C06(R):
    R.rule('The name table of the printer (value of the naming function for every operator, by constant propagation) is compared with '
           'the tokenizer: the abstract evaluation of the tokenizer on each name yields exactly one token with that operator; names of '
           'functions are pairwise distinct, aliases denote their function, any other identifier (also near misses) becomes a variable. ToString is interpreted on every operator over every '
           'operator and kind of operands: apart from parentheses the text is the sequence of names, constants and variables of the expression in order.')
    from checks.parser import token_of
    import trees as TR
    jobs = []
    ts = TR.patterns1() + (TR.patterns2() if os.environ.get('VERIF_DEEP') else TR.patterns2()[::3])
    for view, P, N in views():
        for i in range(0, len(ts), 50):
            jobs.append(lambda S, a=(view, P, N, ts[i:i + 50]): printed_names(S, *a))
    pmap(R, jobs)
    for view, P, N in views():
        f = P.one('tomsolver::MathOperatorToStr')
        names = {}
        for opn in UNARY + BINARY:
            I = Interp(P)
            out = I.explore(lambda I: I.call_fn(f, None, [N.ops[opn]]))
            R.seen(I)
            o = out[0]
            if len(out) != 1 or o.kind == 'undecided' or not isinstance(o.value, str) and o.kind == 'return':
                R.undecided('names', view + ' ' + opn, o.exc or 'no constant name')
                continue
            if o.kind != 'return':
                R.bad('names', 'name:' + opn, short(o.where), 'no name for %s: %s' % (opn, o.value))
                continue
            names[opn] = o.value
        # distinct names among functions, and among binary operators
        for grp in (UNARY, BINARY):
            byn = defaultdict(list)
            for o in grp:
                if o in names:
                    byn[names[o]].append(o)
            for n, os_ in byn.items():
                if len(os_) > 1:
                    R.bad('names', 'dup:' + n, 'MathOperatorToStr', 'the name "%s" is used for %s' % (n, ', '.join(os_)))
                else:
                    R.good('names', '%s is only %s' % (n, os_[0]))
        alias = {'arcsin': 'MATH_ARCSIN', 'arccos': 'MATH_ARCCOS', 'arctan': 'MATH_ARCTAN'}
        expect = [(names[o], o) for o in names if o in FUNC] + list(alias.items())
        taken = {n for n, _ in expect}
        for n, opn in expect:
            check_token(R, view, P, N, n, opn, token_of)
        # the standard spelling is part of the documented language
        for opn in FUNC:
            if opn in names and names[opn] != FUNC[opn]:
                R.bad('names', 'name:' + opn, 'MathOperatorToStr', '%s is printed as "%s"' % (opn, names[opn]))
            check_token(R, view, P, N, FUNC[opn], opn, token_of)
        others = set()
        for n in sorted(taken):
            others |= {n + 'x', 'x' + n, n.upper(), n[:-1], n + '1', n.capitalize(), n + '_', n[1:], n[0] + n, n[::-1]}
        others |= {'x', 'e', 'pi', 'ln', 'abs', 'sinh', 'arc', 'ceil', 'pow', 'arcsqrt', 'arctan2', 'atan2', 'lg', 'sign', 'cot', 'tg', 'arctg', 'arcexp', 'log1', 'log3', 'log100', 'rad', 'sec'}
        for n in sorted(others - taken - set(FUNC.values())):
            if n and (n[0].isalpha() or n[0] == '_') and n.lower() not in ('inf', 'nan', 'infinity'):
                check_token(R, view, P, N, n, None, token_of)
        # operator characters
        for opn in BINARY:
            if opn in names:
                if names[opn] != SYMBOL[opn]:
                    R.bad('names', 'name:' + opn, 'MathOperatorToStr', '%s is printed as "%s"' % (opn, names[opn]))
                check_token(R, view, P, N, names[opn], opn, token_of, binary=True)
        for opn in ('MATH_POSITIVE', 'MATH_NEGATIVE'):
            if opn in names:
                if names[opn] != SYMBOL[opn]:
                    R.bad('names', 'name:' + opn, 'MathOperatorToStr', '%s is printed as "%s"' % (opn, names[opn]))
                check_token(R, view, P, N, names[opn], opn, token_of)


def printed_names(R, view, P, N, ts):
    import re
    import trees as TR
    f = pick(P, NI + '::ToString', [])
    word = re.compile(r'[A-Za-z_][A-Za-z_0-9]*|[^()\s]')

    def want(t):
        if t[0] == 'n':
            return [repr(t[1])]
        if t[0] == 'v':
            return [t[1]]
        nm = FUNC.get(t[0]) or SYMBOL[t[0]]
        return [nm] + want(t[1]) if len(t) == 2 else want(t[1]) + [nm] + want(t[2])

    for t in ts:
        def body(I):
            s = I.call_fn(f, TR.build(N, t), [])
            s = s.v if isinstance(s, Cell) else s
            got = []
            for p in (s.p if isinstance(s, SStr) else (s,)):
                if isinstance(p, str):
                    got += word.findall(p)
                elif isinstance(p, Atom) and p.op == 'numtext':
                    got.append(repr(p.args[0]))
                else:
                    raise Undecided('text piece %r' % (p,))
            return None if got == want(t) else 'is printed as %s' % ' '.join(got)
        I = Interp(P, stubs={NT: stub_tostring})
        for o in I.explore(body):
            if o.kind == 'undecided':
                R.undecided('printed names', view + ' ' + TR.text(t), '%s (%s)' % (o.exc, o.where))
            elif o.kind != 'return':
                R.bad('printed names', 'print', short(o.where or f['q']), '%s: %s' % (TR.text(t), o.value if o.kind == 'crash' else 'raises ' + o.value.cls))
            elif o.value:
                R.bad('printed names', 'print:' + t[0], short('%s:%s in %s' % (f.get('file'), f.get('l'), f['q'])), '%s %s' % (TR.text(t), o.value))
            else:
                R.good('printed names', TR.text(t))
        R.seen(I)


def check_token(R, view, P, N, name, opn, token_of, binary=False):
    res = token_of(P, N, name, binary)
    for kind, val, where in res:
        if kind == 'undecided':
            R.undecided('recognition', '%s "%s"' % (view, name), val)
            continue
        want = ('op', opn) if opn else ('var', name)
        if kind == 'tok' and val == want:
            R.good('recognition', '"%s" is %s' % (name, opn or 'a variable'))
        else:
            R.bad('recognition', 'token:' + (opn or name), short(where), 'the %s "%s" is read as %s instead of %s' % (
                'name' if opn else 'identifier', name, val, opn or 'a variable'))
