"""Checks over histories: operations have no memory (C42), expressions behave by their structure, not by how they were obtained (C43)."""
from checks.common import *
from checks import matrix as MX
from checks import whole as W
from checks.whole import value_for, deep, VEC, NI
from checks.deriv import find_diff
import os
import random
import time
import trees as TR

NUMERIC = ('MATH_SUB', ('MATH_MULTIPLY', ('n', 2), ('n', 3)), ('MATH_NEGATIVE', ('n', 1)))
INVALID = ('MATH_ADD', ('MATH_DIVIDE', ('n', 1), ('n', 0)), ('MATH_LOG', ('n', -1)))
OTHER = ('MATH_MULTIPLY', ('MATH_ADD', ('v', 'b'), ('n', 4)), ('MATH_COS', ('MATH_SUB', ('v', 'a'), ('v', 'x'))))
RIGHT = ('MATH_SUB', ('n', 1), ('MATH_DIVIDE', ('n', 3), ('MATH_SUB', ('n', 5), ('n', 5))))


def signature(f):
    ts = [f['_tu'].types[s['t']] for s in f['sig']]
    return ts, '%s(%s)%s' % (f['q'], ', '.join(t.split('::')[-1] for t in ts), ' const' if f.get('const') else '')


def concrete(v, salt=0):
    """replace unknown numbers by known ones"""
    cs = W.cells_below(v)
    for i, c in enumerate(cs.values()):
        if isinstance(c.v, (Atom, T.Poly)):
            c.v = Fraction((7 * i + 3 * salt) % 11 + 1)
    if isinstance(v, Cell) and callable(v.v) and not isinstance(v.v, (Obj, Seq)):
        g = v.v
        v.v = lambda x: concrete(g(x), salt)
    return v


FIXED = {'maxIterations': 1, 'epsilon': Fraction(1, 1000), 'logLevel': 0, 'throwOnInvalidValue': 1, 'initialValue': 1, 'allowIndeterminateEquation': 0}


def fixed_config(I, key, cell):
    if isinstance(cell.v, Obj) and cell.v.cls == CONFIG:
        for k, x in FIXED.items():
            if k in cell.v.f:
                cell.v.f[k].v = x


def other_config(I, key, cell):
    fixed_config(I, key, cell)
    if isinstance(cell.v, Obj) and cell.v.cls == CONFIG:
        for k in ('throwOnInvalidValue', 'allowIndeterminateEquation'):
            if k in cell.v.f:
                cell.v.f[k].v = int(not cell.v.f[k].v)


# ------------------------------------------------------------------ C42
def C42(R):
    import logflow as LF
    R.rule('Every public operation is interpreted with several sets of operands (valid, without a value, with free variables, of different sizes), once with all static and thread-local variables of the library as at '
           'program start, and again inside long sequences of all the other operations, successful and failing, in several orders; result, exception and operands must be the same.')
    R.assume('operands are known numbers; where the value of a library function decides, one possible outcome is followed')
    deepr = bool(os.environ.get('VERIF_DEEP'))
    jobs = []
    lib = load('lib')
    for view, P, N in views(True):
        fs = []
        for f in LF.roots(P, lib):
            if f.get('implicit') or f.get('dtor') or (f.get('cls') or '') == CONFIG:
                continue
            fs.append(f)
        # neighbours in the list meet in many orders
        for seed in range(8 if deepr else 4):
            jobs.append(lambda S, a=(view, P, N, fs, seed): sequence(S, *a))
        for k in range(0, len(fs), 6):
            jobs.append(lambda S, a=(view, P, N, fs[k:k + 6], None): sequence(S, *a))
        # with the other values of the switches
        wide = [f for f in fs if f['q'].split('::')[-1].startswith(('Solve', 'Calc', 'Simplify', 'Inverse', 'Vpa', 'Diff', 'Jacobian'))]
        for k in range(0, len(wide), 6):
            jobs.append(lambda S, a=(view, P, N, wide[k:k + 6], None): sequence(S, *a, other_config))
    pmap(R, jobs)


TEXTS = ['(x', 'x)', 'sin(', '1+', '2x', 'x y', '((((', ')', '', 'x+(y*2)', 'sin(cos(x))^2', '1e5&y', '()']


def cases_of(fs):
    out = []
    for f in fs:
        if f['q'] == 'tomsolver::Parse':
            out += [(f, ('text', s)) for s in TEXTS]
        ts, _ = signature(f)
        cls = f.get('cls') or ''
        touches = any('NodeImpl' in t or 'Sym' in t for t in ts) or cls in (NI, MX.SMAT, MX.SVEC)
        sized = any(t.split('::')[-1].rstrip(' &') in ('Mat', 'Vec') for t in ts + [cls])
        for tree in ([NUMERIC, INVALID, None, OTHER, RIGHT, ('v', 'x')] if touches else [None]) + ([1, 3] if sized else []):
            out.append((f, tree))
    return out


def perform(I, P, N, f, tree):
    ts, _ = signature(f)
    this = None
    I.size = tree if isinstance(tree, int) else 2
    tree = None if isinstance(tree, int) else tree
    nf, nl = list(I.frames), list(I.loops)
    I.fuel = I.o['fuel']
    try:
        if isinstance(tree, tuple) and tree[0] == 'text':
            from checks import parser as PA
            try:
                return ('returns', deep(PA.parse(I, P, tree[1])), ('operands',))
            except CppThrow as e:
                return ('raises', e.cls, deep(e.val), ('operands',))
            except Crash as e:
                return ('ends in undefined behaviour', ('operands',))
        if f.get('cls') and not f.get('static') and not f.get('ctor'):
            this = concrete(value_for(I, P, N, f['cls'], 9, tree), 9)
        args = [concrete(value_for(I, P, N, t, i, tree), i) for i, t in enumerate(ts)]
        try:
            if f.get('ctor'):
                r = I.construct(f['cls'], args, ['l' if t.endswith('&') and not t.endswith('&&') else 'x' for t in ts])
            else:
                r = I.call_fn(f, this, args)
            how = ('returns', deep(r))
        except CppThrow as e:
            how = ('raises', e.cls, deep(e.val))
        except Crash as e:
            how = ('ends in undefined behaviour',)
        return how + (('operands', deep(this), tuple(deep(a) for a in args)),)
    except Undecided as e:
        return ('undecided', str(e), I.where())
    finally:
        I.frames[:], I.loops[:] = nf, nl


def memory(I):
    return tuple(sorted((repr(k), repr(deep(c))) for k, c in I.path.statics.items()))


def sequence(R, view, P, N, fs, seed, config=fixed_config):
    I = Interp(P, stubs={NT: stub_tostring}, opts=dict(static_hook=config, max_paths=1, fuel=150000))
    cs = cases_of(fs)
    found = []
    end = time.time() + 200

    def differs(f, tree, first, x, before):
        if x[0] != first[0]:
            what = '%s after other operations, but %s when it comes first' % (x[0], first[0])
        elif x[:-1] != first[:-1]:
            what = '%s something else after other operations than when it comes first' % x[0]
        else:
            what = 'leaves its operands different after other operations from when it comes first'
        found.append((f, what, before))

    def body(I):
        del found[:]
        fresh = {}
        for k, (f, tree) in enumerate(cs):
            I.path.statics.clear()
            fresh[k] = perform(I, P, N, f, tree)
        und = set(k for k, x in fresh.items() if x[0] in ('undecided', 'ends in undefined behaviour'))
        I.path.statics.clear()
        good = 0
        if seed is None:
            orders = [(i, j) for i in range(len(cs)) for j in range(len(cs))]
            seq = [k for ij in orders for k in ij] if len(cs) <= 14 else [k for r in range(6) for k in random.Random(r).sample(range(len(cs)), len(cs))]
        else:
            seq = list(range(len(cs)))
            if seed == 1:
                seq.reverse()
            elif seed > 1:
                random.Random(seed).shuffle(seq)
        last = None
        for k in seq:
            if k in und:
                continue
            x = perform(I, P, N, *cs[k])
            if x[0] == 'undecided':
                continue
            if x != fresh[k]:
                differs(cs[k][0], cs[k][1], fresh[k], x, last)
                I.path.statics.clear()
            else:
                good += 1
            last = cs[k]
        if seed is None:
            # an operation that leaves other static variables behind each time is repeated beyond every number of the program
            for k in range(len(cs)):
                if k in und:
                    continue
                I.path.statics.clear()
                a = [(perform(I, P, N, *cs[k]), memory(I))[1] for _ in range(3)]
                if a[1] == a[2] or time.time() > end:
                    continue
                x = fresh[k]
                for i in range(TR.size_for(P, 60, 6000)):
                    x = perform(I, P, N, *cs[k])
                    if x[0] == 'undecided' or x != fresh[k] or time.time() > end:
                        break
                if x[0] != 'undecided' and x != fresh[k]:
                    differs(cs[k][0], cs[k][1], fresh[k], x, cs[k])
                    continue
                for j in range(len(cs)):
                    if j in und or j == k:
                        continue
                    y = perform(I, P, N, *cs[j])
                    if y[0] != 'undecided' and y != fresh[j]:
                        differs(cs[j][0], cs[j][1], fresh[j], y, cs[k])
                        break
                    good += 1
        return good, [(cs[k][0], fresh[k]) for k in und]
    for o in I.explore(body):
        if o.kind == 'return':
            R.good('histories', 'operation repeated after others', n=o.value[0])
            for f, x in o.value[1]:
                if x[0] == 'undecided' and not (x[1].startswith(('parameter of type', 'constructor of')) or 'does not converge' in x[1]):
                    R.undecided('histories', view + ' ' + signature(f)[1], '%s (%s)' % (x[1], x[2]))
                else:
                    R.count('operands for which an operation is not followed')
        elif o.kind == 'undecided' and o.exc == 'too many traces':
            R.count('other outcomes of decisions on library functions')
        elif o.kind == 'undecided':
            R.undecided('histories', '%s sequence %s' % (view, seed), '%s (%s)' % (o.exc, o.where))
        else:
            R.undecided('histories', '%s sequence %s' % (view, seed), '%s %s' % (o.kind, o.value))
    for f, what, before in found:
        nm = signature(f)[1]
        R.bad('histories', 'memory:' + f['q'].split('::')[-1], '%s:%s in %s' % (short(f.get('file')), f.get('l'), f['q']), '%s %s%s' % (nm, what, ' (last: %s)' % signature(before[0])[1] if before else ''))
    R.seen(I)


# ------------------------------------------------------------------ C43
def C43(R):
    import logflow as LF
    import trees as TR
    from checks import parser as PA
    R.rule('Every operation that yields or changes expressions is interpreted on trees with every operator; each expression it returns or leaves behind is compared with a freshly constructed expression of the same tree: '
           'both must have the same representation or else compare equal in both directions, print the same text and list the same names when those operations are interpreted on them.')
    R.assume('trees of height up to 2 with patterns, long texts and large trees stand for all expressions')
    deepr = bool(os.environ.get('VERIF_DEEP'))
    jobs = []
    lib = load('lib')
    for view, P, N in views(True):
        TR.resize(P) if hasattr(TR, 'resize') else None
        h2 = TR.height2()
        fam = W.FAILING[1:] + [W.TREE, NUMERIC, OTHER] + h2[::max(1, len(h2) // (120 if deepr else 24))] + TR.random_trees(40 if deepr else 6, 9)
        for f in LF.roots(P, lib):
            ts, _ = signature(f)
            ret = f['_tu'].types[f['ret']] if f.get('ret') is not None else ''
            if f.get('implicit') or f.get('dtor') or not any('NodeImpl' in t or 'Sym' in t for t in ts + [ret, f.get('cls') or '']) or f.get('ctor') and f['cls'] == NI and not any('NodeImpl' in t for t in ts):
                continue
            ts = fam if not (f.get('const') and 'Node' not in ret and 'Sym' not in ret) else fam[::8]
            for i in range(0, len(ts), 12):
                jobs.append(lambda S, a=(view, P, N, f), ch=ts[i:i + 12]: [obtained(S, *a, t) for t in ch])
        d, s = find_diff(P), P.one('tomsolver::Simplify')
        ts = TR.height2()[::1 if deepr else 2] + TR.patterns1()[::1 if deepr else 2] + TR.patterns2()[::5 if deepr else 59] + TR.random_trees(200 if deepr else 40, 21) + TR.LARGE
        for i in range(0, len(ts), 20):
            jobs.append(lambda S, a=(view, P, N), ch=ts[i:i + 20], d=d, s=s: [(derived(S, *a, d, t), derived(S, *a, s, t)) for t in ch])
        texts = [[x if x not in ('?', '~') else '*-+^/%&|'[k % 8] if x == '?' else '-+'[k % 2] for x in p] for p in PA.patterns(deepr) for k in range(8)]
        for i in range(0, len(texts), 40):
            jobs.append(lambda S, a=(view, P, N), ch=texts[i:i + 40]: [parsed(S, *a, t) for t in ch])
    pmap(R, jobs)


def rep(N, c, depth=0):
    o = c.v
    out = []
    for k in sorted(o.f):
        if k == N.parent:
            continue
        x = o.f[k].v
        if isinstance(x, UPtr):
            out.append((k, None if x.cell is None else rep(N, x.cell, depth + 1)))
        elif isinstance(x, Ptr):
            out.append((k, None if x.cell is None else 'pointer'))
        else:
            out.append((k, x if not isinstance(x, float) else repr(x)))
    return tuple(out)


def through_interface(I, P, t):
    """the tree built by the library's own functions"""
    if t[0] == 'n':
        r = I.call_fn(P.one('tomsolver::Num'), None, [t[1]])
    elif t[0] == 'v':
        r = I.call_fn(P.one('tomsolver::Var'), None, [Cell(t[1])])
    else:
        ks = [through_interface(I, P, k) for k in t[1:]]
        N = I.nodes_
        r = I.call_fn(P.one('tomsolver::internal::Operator'), None, [N.ops[t[0]]] + ks + [UPtr(None)] * (2 - len(ks)))
    return r.v if isinstance(r, Cell) else r


def same_behaviour(I, P, N, c, t):
    """None or how the expression differs from a fresh one of the same tree"""
    import trees as TR
    if rep(N, c) == rep(N, TR.build(N, t)):
        return None
    I.nodes_ = N
    u = through_interface(I, P, t)
    f = u.cell
    if rep(N, c) == rep(N, f):
        return None
    eq = [x for x in P.find(NI + '::Equal') if x.get('body') is not None][0]
    for a, b, how in ((c, f, 'the expression is not equal to a fresh one'), (f, c, 'a fresh expression is not equal to it')):
        if not I.truth(I.rv_(I.call_fn(eq, a, [Cell(UPtr(b), typ=NODE)]))):
            return how
    for m in ('ToString', 'GetAllVarNames'):
        g = [x for x in P.find(NI + '::' + m) if x.get('body') is not None and not x['sig']]
        if g and deep(I.call_fn(g[0], c, [])) != deep(I.call_fn(g[0], f, [])):
            return '%s gives something else than for a fresh expression' % m
    return None


def expressions(I, N, v):
    """roots of the expressions in a value"""
    out = []
    top = set()
    for c in ([v] if isinstance(v, Cell) else [Cell(v)]):
        st = [c]
        seen = set()
        while st:
            c = st.pop()
            if id(c) in seen:
                continue
            seen.add(id(c))
            x = c.v
            if isinstance(x, UPtr):
                if x.cell is not None:
                    if isinstance(x.cell.v, Obj) and x.cell.v.cls == NI:
                        out.append(x.cell)
                    else:
                        st.append(x.cell)
            elif isinstance(x, Obj) and x.cls == NI:
                out.append(c)
            elif isinstance(x, Obj):
                st += [y for k, y in x.f.items() if k not in x.refs]
            elif isinstance(x, Seq):
                st += [y for y in x.items if isinstance(y, Cell)]
            elif isinstance(x, MapV):
                st += [y for _, y in x.items if y is not None]
            elif isinstance(x, Tup):
                st += list(x.cells)
    return out


def judge(R, I, P, N, view, name, key, f, body, quiet=()):
    for o in I.explore(body):
        w = short(o.where or '%s:%s in %s' % (f.get('file'), f.get('l'), f['q']))
        if o.kind == 'undecided':
            if o.exc == 'too many traces' or 'does not converge' in (o.exc or '') or (o.exc or '').startswith(('parameter of type', 'constructor of')):
                R.count('operations whose traces are cut off, or that are only followed from their callers')
                continue
            R.undecided('expressions', view + ' ' + name, '%s (%s)' % (o.exc, o.where))
        elif o.kind in ('crash', 'throw'):
            R.count('traces without a result')
        elif o.kind == 'return' and isinstance(o.value, str):
            R.bad('expressions', 'structure:' + key, w, '%s: %s [%s]' % (name, o.value, o.desc()[:160]))
        elif o.kind == 'return':
            R.good('expressions', name, n=max(1, o.value or 0))
        else:
            R.undecided('expressions', view + ' ' + name, str(o.value))
    R.seen(I)


def all_same(I, P, N, vals):
    import trees as TR
    n = 0
    for v in vals:
        for c in expressions(I, N, v):
            if c.freed or N.well_formed(I, c):
                continue
            t = TR.term_of(I, N, c)
            m = same_behaviour(I, P, N, c, t)
            if m:
                return '%s: %s' % (TR.text(t)[:160], m)
            n += 1
    return n


def obtained(R, view, P, N, f, tree):
    ts, name = signature(f)
    stubs = {NT: stub_tostring, 'tomsolver::SolveLinear': W.slow_solver(P), 'tomsolver::Armijo': W.some_alpha}
    I = Interp(P, stubs=stubs, opts=dict(static_hook=sym_config(P, fixed={'maxIterations': 1, 'epsilon': Fraction(1, 1000), 'logLevel': 0}), max_paths=40, fuel=200000, total=400000))

    def body(I):
        this = None
        I.size, I.entries = 2, None
        if f.get('cls') and not f.get('static') and not f.get('ctor'):
            this = value_for(I, P, N, f['cls'], 9, tree)
        args = [value_for(I, P, N, t, i, tree) for i, t in enumerate(ts)]
        r = None
        try:
            if f.get('ctor'):
                r = I.construct(f['cls'], args, ['l' if t.endswith('&') and not t.endswith('&&') else 'x' for t in ts])
            else:
                r = I.call_fn(f, this, args)
        except CppThrow:
            pass
        return all_same(I, P, N, [x for x in [r, this] + args if x is not None])
    import trees as TR
    judge(R, I, P, N, view, '%s of %s' % (name, TR.text(tree)[:80]), f['q'].split('::')[-1], f, body)


def derived(R, view, P, N, f, t):
    import trees as TR
    I = Interp(P, stubs=STUBS_, opts=dict(static_hook=sym_config(P), fuel=3000000, max_paths=200))
    diff = len(f['params']) == 3

    def body(I):
        c = Cell(UPtr(TR.build(N, t)))
        r = I.call_fn(f, None, [c, Cell('x'), 1] if diff else [c])
        return all_same(I, P, N, [r if diff else c])
    judge(R, I, P, N, view, '%s of %s' % (f['q'], TR.text(t)[:100]), f['q'].split('::')[-1], f, body)


def parsed(R, view, P, N, toks):
    from checks import parser as PA
    I = Interp(P, opts=dict(fuel=2000000, max_paths=50))
    f = P.one('tomsolver::Parse')

    def body(I):
        return all_same(I, P, N, [PA.parse(I, P, ' '.join(toks))])
    judge(R, I, P, N, view, 'Parse of %s' % ''.join(toks), 'Parse', f, body)


STUBS_ = {NT: stub_tostring}
