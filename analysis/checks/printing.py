"""C07 printed expressions read back with the same value"""
from checks.common import *
from checks import parser as PA
import trees as TR
from trees import n, v
import itertools
import os

STUBS = {NT: stub_tostring}
_read = {}


def read_back(P, N, text):
    """the tree the library's parser builds for a text, or an error message"""
    key = (P.view, text)
    if key not in _read:
        I = Interp(P, opts=dict(fuel=400000))
        N.unary_field = N.left

        def body(I):
            r = PA.parse(I, P, text)
            return TR.term_of(I, N, r.cell)
        out = I.explore(body)
        o = out[0]
        if len(out) != 1 or o.kind == 'undecided':
            raise Undecided('reading "%s": %s' % (text, o.exc or 'several traces'))
        _read[key] = o.value if o.kind == 'return' else 'is rejected when read (%s)' % (o.value.cls if o.kind == 'throw' else o.value)
        if len(_read) > 40000:
            _read.clear()
    return _read[key]


def fill(s, env):
    """the printed text with its constants written out"""
    out = []
    for p in (s.p if isinstance(s, SStr) else (s,)):
        if isinstance(p, str):
            out.append(p)
        elif isinstance(p, int):
            out.append(chr(p))
        elif isinstance(p, Atom) and p.op == 'numtext':
            x = identity.numeval(p.args[0], env)
            out.append('%f' % x)
        else:
            raise Undecided('text piece %r' % (p,))
    return ''.join(out)


def subtrahends(t):
    """constants that are the right operand of a subtraction"""
    if t[0] in ('n', 'v'):
        return []
    out = [t[2][1]] if t[0] == 'MATH_SUB' and t[2][0] == 'n' else []
    return out + [x for k in t[1:] for x in subtrahends(k)]


def unbracketed(s, t, env):
    """a negative constant subtracted without parentheses around it"""
    ps = [chr(p) if isinstance(p, int) else p for p in (s.p if isinstance(s, SStr) else (s,))]
    for c in set(subtrahends(t)):
        x = identity.numeval(c, env)
        if not x < 0:
            continue
        at = [i for i, p in enumerate(ps) if isinstance(p, Atom) and p.op == 'numtext' and p.args[0] == c]
        ok = [i for i in at if i and isinstance(ps[i - 1], str) and ps[i - 1].endswith('(') and i + 1 < len(ps) and isinstance(ps[i + 1], str) and ps[i + 1].startswith(')')]
        if at and len(ok) < subtrahends(t).count(c):
            return '%g' % x
    return None


MAG = [2.0, 3.0, 7.0, 5.0, 11.0, 13.0, 1.5]


def envs(t, facts):
    """points at which text and tree are compared: every sign of every constant the trace allows"""
    syms = sorted(TR.syms(t), key=lambda a: a.id)
    cs = [a for a in syms if str(a.args[0])[0] in 'abcd']
    vs = [a for a in syms if a not in cs]
    def group(e):
        return [{**e, **{a: m for a, m in zip(vs, ms)}} for ms in ((3.0, 5.0, 2.0, 7.0), (6.0, 4.0, 9.0, 5.0), (0.3, 0.8, 0.6, 0.4), (1.4, 2.6, 0.7, 3.1))]
    k = 0
    for signs in itertools.product((1, -1), repeat=len(cs)):
        e = {a: s * MAG[i] for i, (a, s) in enumerate(zip(cs, signs))}
        if facts is not None and not identity.sat(facts, e):
            continue
        k += 1
        yield group(e)
    if not k:
        # the trace fixes the constants to other magnitudes
        for e in identity.assignments(facts, cs, 3, seed=7):
            e = {a: round(e[a], 3) for a in cs}
            if facts is None or identity.sat(facts, e):
                k += 1
                yield group(e)
    if not k:
        raise Undecided('no constants found that follow this trace')


def one(R, view, P, N, f, t, pos):
    def body(I):
        root = TR.build(N, t)
        s = I.call_fn(f, root, [])
        s = s.v if isinstance(s, Cell) else s
        msgs, und = [], []
        for group in envs(t, I.path.facts):
            text = fill(s, group[0])
            bare = unbracketed(s, t, group[0])
            if bare:
                msgs.append('is printed as "%s": the negative constant %s on the right of a subtraction has no parentheses' % (text, bare))
                continue
            try:
                g = read_back(P, N, text)
            except Undecided as u:
                und.append(str(u))
                continue
            if isinstance(g, str):
                msgs.append('is printed as "%s", which %s' % (text, g))
                continue
            if flat(canon(g)) == flat(canon(inst(t, group[0]))):
                continue
            k = 0
            for e in group:
                a, b = TR.raw(t, e), TR.raw(g, e)
                if a != a and b != b:
                    continue
                k += 1
                if a != a or b != b or not identity.close(a, b, 1e-9):
                    msgs.append('is printed as "%s", which reads back as %s (%g instead of %g)' % (text, TR.text(g), b, a))
                    break
            if not k:
                und.append('no point where "%s" has a value' % text)
        if und and not msgs:
            raise Undecided(und[0])
        return msgs
    I = Interp(P, stubs=STUBS)
    w0 = '%s:%s in %s' % (f.get('file'), f.get('l'), f['q'])
    for o in I.explore(body):
        if o.kind == 'undecided':
            R.undecided('printing', view + ' ' + TR.text(t), '%s (%s)' % (o.exc, o.where))
        elif o.kind in ('crash', 'throw'):
            R.bad('printing', 'print:' + pos, short(o.where or w0), 'printing %s: %s' % (TR.text(t), o.value if o.kind == 'crash' else 'raises ' + o.value.cls))
        elif o.value:
            R.bad('printing', 'print:' + pos, short(w0), '%s %s' % (TR.text(t), o.value[0]))
        else:
            R.good('printing', TR.text(t))
    R.seen(I)


def inst(t, env):
    if t[0] == 'n':
        x = identity.numeval(t[1], env)
        return ('n', int(x) if x == int(x) else T.unwrap(T.Fraction(x)) if hasattr(T, 'Fraction') else x)
    if t[0] == 'v':
        return t
    return (t[0],) + tuple(inst(k, env) for k in t[1:])


def canon(t):
    """a sign before a constant belongs to the constant"""
    if t[0] in ('n', 'v'):
        return t
    t = (t[0],) + tuple(canon(k) for k in t[1:])
    if t[0] in ('MATH_NEGATIVE', 'MATH_POSITIVE') and t[1][0] == 'n':
        return ('n', -t[1][1] if t[0] == 'MATH_NEGATIVE' else t[1][1])
    return t


def flat(t):
    """sums and products as lists of signed terms and factors (grouping that does not change the value)"""
    if t[0] in ('n', 'v'):
        return t
    for p, m in (('MATH_ADD', 'MATH_SUB'), ('MATH_MULTIPLY', 'MATH_DIVIDE')):
        if t[0] in (p, m):
            out = []

            def go(u, s):
                if u[0] == p:
                    go(u[1], s), go(u[2], s)
                elif u[0] == m:
                    go(u[1], s), go(u[2], not s)
                else:
                    out.append((s, flat(u)))
            go(t, True)
            return (p, tuple(out))
    return (t[0],) + tuple(flat(k) for k in t[1:])


def operands(nm, c):
    """operand kinds for one position: variable, constant (any sign), negation of both, functions, every binary operator"""
    x, a = v(nm), n(c)
    out = [x, a, ('MATH_NEGATIVE', x), ('MATH_POSITIVE', x), ('MATH_NEGATIVE', a), ('MATH_POSITIVE', a), ('MATH_SIN', x), ('MATH_EXP', a)]
    out += [(b, x, a) for b in BINARY] + [(b, a, x) for b in BINARY]
    return out


def shapes(deep):
    out = operands('x', 'a')
    for u in UNARY:
        for k in operands('x', 'a'):
            out.append((u, k))
            for b in BINARY if u in ('MATH_NEGATIVE', 'MATH_POSITIVE', 'MATH_SIN') else ():
                out.append((b, (u, k), v('y')))
                out.append((b, v('y'), (u, k)))
                out.append((b, n('b'), (u, k)))
    for b in BINARY:
        for l in operands('x', 'a'):
            for r in operands('y', 'b'):
                if len(l) < 3 or len(r) < 3:
                    out.append((b, l, r))
        for p in BINARY:
            for q in BINARY:
                out.append((b, (p, v('x'), v('z')), (q, n('a'), v('y'))))
    # chains of three binary operators in every grouping
    X, Y, Z, W = v('x'), v('y'), v('z'), n('a')
    for p, q, r in itertools.product(BINARY, repeat=3):
        out += [(p, (q, (r, X, Y), Z), W), (p, (q, X, (r, Y, Z)), W), (p, X, (q, (r, Y, Z), W)), (p, X, (q, Y, (r, Z, W)))]
        if deep:
            out += [(p, (q, X, Y), (r, Z, W)), (p, (q, ('MATH_NEGATIVE', X), (r, Y, W)), Z), (p, X, (q, (r, W, Y), ('MATH_NEGATIVE', Z)))]
    # every operator over every operator over every kind of operands
    out += TR.patterns2() if deep else TR.patterns2()[::3]
    out += TR.equal_operands() + list(TR.triples())[::3 if deep else 13]
    return out


def C07(R):
    R.rule('ToString is interpreted on every enclosing operator over every enclosed operator on either side (signs, functions, variables and constants of either sign as operands), and on all chains '
           'of three binary operators in every grouping; the text of each trace is read with the interpreted parser, and the tree read must have the value of the tree printed at the sample points '
           '(re-association is therefore allowed, regrouping is not).')
    R.assume('the digits of a constant are printed by std::to_string-like formatting (only its sign matters here)')
    deep = bool(os.environ.get('VERIF_DEEP'))
    jobs = []
    for view, P, N in views():
        f = pick(P, NI + '::ToString', [])
        ts = shapes(deep)
        for i in range(0, len(ts), 40):
            jobs.append(lambda S, a=(view, P, N, f), ch=ts[i:i + 40]: [one(S, *a, t, place(t)) for t in ch])
        g = [x for x in P.find('tomsolver::internal::operator<<') if NODE in x['_tu'].types[x['sig'][1]['t']]]
        if g:
            jobs.append(lambda S, a=(view, P, N, g[0], f): stream(S, *a))
    pmap(R, jobs)


def stream(R, view, P, N, g, f):
    for t in (('MATH_SUB', v('x'), ('MATH_ADD', v('y'), n('a'))), ('MATH_SIN', v('x')), v('x')):
        def body(I):
            root = TR.build(N, t)
            want = I.call_fn(f, root, [])
            st = Cell(Stream())
            I.call_fn(g, None, [st, Cell(UPtr(root))])
            got = mkstr(st.v.p)
            want = want.v if isinstance(want, Cell) else want
            return None if got == mkstr(want.p if isinstance(want, SStr) else [want]) else 'streams %r instead of %r' % (got, want)
        I = Interp(P, stubs=STUBS)
        for o in I.explore(body):
            if o.kind == 'return' and not o.value:
                R.good('stream', TR.text(t))
            elif o.kind == 'undecided':
                R.undecided('stream', view, '%s (%s)' % (o.exc, o.where))
            else:
                R.bad('stream', 'stream', short('%s:%s in %s' % (g.get('file'), g.get('l'), g['q'])), '%s: %s' % (TR.text(t), o.value if o.kind != 'throw' else o.value.cls))
        R.seen(I)


def place(t):
    if len(t) == 2 or t[0] in ('n', 'v'):
        return 'operand of ' + SYMBOL.get(t[0], t[0])
    k = [('left' if i == 1 else 'right') + ' ' + SYMBOL.get(t[i][0], t[i][0]) for i in (1, 2) if t[i][0] not in ('n', 'v')]
    return '%s in %s' % (' and '.join(k) or 'operands', SYMBOL[t[0]])
