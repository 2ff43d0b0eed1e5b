"""Checks over the whole program: exceptions (C01), recursion (C02), variable names (C15), variable tables (C19), output (C23), configuration (C24),
shared state (C25), errors (C26) and the interface of the two distributions (C28)."""
from checks.common import *
from checks import matrix as MX
import os
import random

VT = 'tomsolver::VarsTable'
CVT = 'const %s &' % VT
VEC = 'tomsolver::Vec'
STRT = 'const std::basic_string<char> &'


# ------------------------------------------------------------------ C19
class Tab:
    """reads a variable table through its public interface"""

    def __init__(self, P):
        self.P = P
        self.api = MX.Api(P)
        g = lambda m, sig, const=True: pick(P, VT + '::' + m, sig, const)
        self.vars, self.values, self.nums = g('Vars', []), g('Values', []), g('VarNums', [])
        self.has, self.idx, self.set = g('Has', [STRT]), g('operator[]', [STRT]), g('SetValues', ['const tomsolver::Vec &'], False)
        self.rng = [(g('begin', []), g('end', [])), (g('cbegin', []), g('cend', []))]
        self.eq = g('operator==', [CVT])

    def read(self, I, t):
        out = {}
        vs = I.call_fn(self.vars, t, [])
        vs = vs.v if isinstance(vs, Cell) else vs
        out['names'] = [I.res(c.v) for c in vs.items]
        r = self.api.read(I, I.call_fn(self.values, t, []))
        out['values'] = [row[0] for row in r[2]] if r[0] else []
        if r[0] and r[1] != 1:
            out['values'] = 'a %dx%d matrix' % r[:2]
        out['count'] = I.rv_(I.call_fn(self.nums, t, []))
        out['iteration'] = []
        for b, e in self.rng:
            i, j = I.rv_(I.call_fn(b, t, [])), I.rv_(I.call_fn(e, t, []))
            out['iteration'].append([(k, c.v) for k, c in i.c.items[i.i:j.i]] if i.c is j.c else None)
        out['lookup'] = {}
        have = [x for x in out['names'] if isinstance(x, str)]
        for k in sorted(set(have + ['x', 'y', 'q', '', 'xy'] + [w for x in have[:6] for w in (x[:-1], x + '0', x[1:], x.swapcase(), x[::-1])])):
            h = I.truth(I.rv_(I.call_fn(self.has, t, [Cell(k)])))
            try:
                v = I.rv_(I.call_fn(self.idx, t, [Cell(k)]))
            except CppThrow as ex:
                v = ('throw', ex.cls)
            out['lookup'][k] = (h, v)
        return out

    def judge(self, got, want):
        """want: dict name -> value"""
        d = []
        if sorted(map(str, got['names'])) != sorted(want):
            return ['the list of names is %s instead of %s' % (got['names'], sorted(want))]
        if got['values'] != [want[k] for k in got['names']]:
            d.append('names %s come with values %s instead of %s' % (got['names'], got['values'], [want[k] for k in got['names']]))
        if got['count'] != len(want):
            d.append('the number of variables is %s instead of %d' % (got['count'], len(want)))
        for it in got['iteration']:
            if it is None or sorted(k for k, _ in it) != sorted(want) or any(want[k] != x for k, x in it):
                d.append('iteration gives %s instead of %s' % (it, want))
        for k, (h, x) in sorted(got['lookup'].items()):
            if h != (k in want):
                d.append('Has("%s") is %s' % (k, h))
            if k in want:
                if x != want[k]:
                    d.append('lookup of %s gives %s instead of %s' % (k, x, want[k]))
            elif not (isinstance(x, tuple) and x[0] == 'throw' and x[1].endswith('out_of_range')):
                d.append('lookup of the unknown "%s" gives %s instead of raising out_of_range' % (k, x))
        return d


NAMESETS = [[], ['x'], ['x', 'y'], ['y', 'x'], ['z', 'a', 'm'], ['b', 'c', 'a', 'd'], ['x10', 'x9', '_x'], ['n%d' % (i * 7 % 12) for i in range(12)], ['n%d' % (i * 17 % 40) for i in range(40)]]
NEARSETS = [(['x', 'y'], ['x', 'z']), (['x', 'y'], ['X', 'y']), (['x1', 'x2'], ['x1', 'x10']), (['a', 'b', 'c'], ['a', 'b', 'd']), (['b', 'c', 'd'], ['a', 'c', 'd']), (['c', 'b', 'a'], ['b', 'c', 'ab']),
            (['x'], ['x', 'x0']), (['x', 'y'], ['y', 'z'])]


def C19(R):
    R.rule('Every way to create a table (names with one value, list of pairs, map; copies, moves, assignments) followed by every update is interpreted with symbolic values; '
           'Vars, Values, VarNums, both iterations, Has and [] of the resulting table, and of the tables it was made from, must state one and the same association.')
    R.assume('name lists without duplicates (asserted by the constructor); up to four names in every kind of order, and 12 and 40 names')
    jobs = []
    for view, P, N in views(True):
        try:
            t = Tab(P)
        except AnalysisBroken as e:
            R.undecided('anchors', view, str(e))
            continue
        for case in tables(P, t):
            jobs.append(lambda S, a=(view, P, t, case): table_case(S, *a))
    pmap(R, jobs)


def newtab(I, how, names, vals, P):
    if how == 'names':
        return Cell(I.construct(VT, [Cell(Seq('vector', list(names), 'std::basic_string<char>')), Cell(vals[0] if vals else sym('v0'))], ['l', 'x']), typ=VT)
    if how == 'map':
        return Cell(I.construct(VT, [Cell(MapV('map', sorted((k, Cell(x)) for k, x in zip(names, vals))))], ['l']), typ=VT)
    il = Seq('initializer_list', [Tup([Cell(k), Cell(x)], pair=True) for k, x in zip(names, vals)], 'std::pair<std::basic_string<char>, double>')
    return Cell(I.construct(VT, [il], ['x']), typ=VT)


def vec_of(I, pre, k):
    return MX.mk_mat(I, k, 1, pre, VEC)


def given(I, t, names, val, P):
    """a table with the names in the order given"""
    c = newtab(I, 'names', names, [sym('v0')] * len(names), P)
    order = [I.res(x.v) for x in cellv(I.call_fn(t.vars, c, [])).items]
    I.call_fn(t.set, c, [vec_with(I, [val[k] for k in order])])
    return c


def vec_with(I, vals):
    return MX.mk_mat(I, len(vals), 1, [[x] for x in vals], VEC)


def tables(P, t):
    out = []
    for names in NAMESETS:
        for how in ('names', 'list', 'map'):
            if how == 'list' and not names:
                continue
            vals = [sym('v0')] * len(names) if how == 'names' else [sym('v%d' % i) for i in range(len(names))]
            base = dict(zip(names, vals))
            nm = 'table of %s by %s' % (names, how)

            def new(I, names=names, vals=vals, how=how):
                return newtab(I, how, names, vals, P)

            def setv(I, c, pre, names=names):
                order = [I.res(x.v) for x in cellv(I.call_fn(t.vars, c, [])).items]
                v = vec_of(I, pre, len(names))
                I.call_fn(t.set, c, [v])
                return dict((k, sym(MX.ename(pre, i, 0))) for i, k in enumerate(order))

            def cp(I, c):
                return Cell(I.construct(VT, [c], ['l']), typ=VT)

            def mv(I, c):
                return Cell(I.construct(VT, [c], ['x']), typ=VT)

            def s_plain(I, new=new, base=base):
                return [(new(I), base)]

            def s_set(I, new=new, setv=setv):
                c = new(I)
                return [(c, setv(I, c, 'p'))]

            def s_set2(I, new=new, setv=setv):
                c = new(I)
                setv(I, c, 'p')
                return [(c, setv(I, c, 'q'))]

            def s_self(I, new=new, base=base):
                c = new(I)
                I.call_fn(t.set, c, [I.call_fn(t.values, c, [])])
                return [(c, base)]

            def s_copy(I, new=new, setv=setv, base=base):
                c = new(I)
                k = cp(I, c)
                w = setv(I, k, 'p')
                return [(c, base), (k, w), (cp(I, k), w)]

            def s_copy2(I, new=new, setv=setv, base=base):
                c = new(I)
                k = cp(I, c)
                w = setv(I, c, 'p')
                return [(c, w), (k, base)]

            def s_move(I, new=new, setv=setv, base=base):
                c = new(I)
                k = mv(I, c)
                res = [(cp(I, k), base)]
                return res + [(k, setv(I, k, 'p'))]
            out.append((nm, 'construct', s_plain))
            out.append((nm + ', moved, set', 'move', s_move))
            out.append((nm + ', copied', 'copy', s_copy2))
            if names:
                out.append((nm + ', set', 'SetValues', s_set))
                out.append((nm + ', set twice', 'SetValues', s_set2))
                out.append((nm + ', set to its own values', 'SetValues', s_self))
                out.append((nm + ', copied, copy set', 'copy', s_copy))
    # equality
    for a in NAMESETS:
        for b in NAMESETS:
            if sorted(a) == sorted(b):
                continue

            def s_ne(I, a=a, b=b):
                x, y = newtab(I, 'map', a, [sym('v0')] * len(a), P), newtab(I, 'map', b, [sym('v0')] * len(b), P)
                return [('eq', I.truth(I.rv_(I.call_fn(t.eq, x, [y]))), False)]
            out.append(('tables of %s and %s' % (a, b), 'operator==', s_ne))
    for a, b in NEARSETS:
        for a, b in ((a, b), (b, a)):
            for how in ('names', 'map'):
                def s_near(I, a=a, b=b, how=how):
                    x, y = newtab(I, how, a, [sym('v0')] * len(a), P), newtab(I, how, b, [sym('v0')] * len(b), P)
                    return [('eq', I.truth(I.rv_(I.call_fn(t.eq, x, [y]))), False)]
                out.append(('tables of %s and %s by %s' % (a, b, how), 'operator==', s_near))
    # the order in which the names were given does not matter
    for names in [x for x in NAMESETS if len(x) > 1]:
        for other in (sorted(names), names[::-1], names[1:] + names[:1]):
            for off, want in ((0, True), (Fraction(1, 4), True), (2, False), ('swap', False), ('move', False)):
                def s_order(I, names=names, other=other, off=off, want=want):
                    val = {k: sym('w' + k) for k in names}
                    val2 = dict(val)
                    if off == 'swap':
                        val = {k: Fraction(10 * i) for i, k in enumerate(sorted(names))}
                        val2 = dict(val)
                        val2[names[0]], val2[names[-1]] = val[names[-1]], val[names[0]]
                    elif off == 'move':
                        val2[names[0]], val2[names[-1]] = T.add(val[names[0]], 2), T.add(val[names[-1]], -2)
                    else:
                        val2[names[0]] = T.add(val[names[0]], off)
                    x = given(I, t, names, val, P)
                    y = given(I, t, other, val2, P)
                    return [('eq', I.truth(I.rv_(I.call_fn(t.eq, x, [y]))), want), (x, val), (y, val2)]
                out.append(('tables of %s and %s, %s' % (names, other, off), 'operator==', s_order))
    for names in NAMESETS[1:]:
        for off, want in ((0, True), (Fraction(1, 4), True), (Fraction(-1, 4), True), (2, False), (-2, False)):
            for pos in range(len(names)):
                def s_eq(I, names=names, off=off, pos=pos, want=want):
                    vals = [sym('v%d' % i) for i in range(len(names))]
                    x = newtab(I, 'map', names, vals, P)
                    vals = list(vals)
                    vals[pos] = T.add(vals[pos], off)
                    y = newtab(I, 'map', names, vals, P)
                    return [('eq', I.truth(I.rv_(I.call_fn(t.eq, x, [y]))), want)]
                out.append(('tables of %s, %s differing by %s' % (names, names[pos], off), 'operator==', s_eq))
    return out


def cellv(x):
    return x.v if isinstance(x, Cell) else x


def table_case(R, view, P, t, case):
    name, key, run = case
    I = Interp(P, opts=dict(static_hook=sym_config(P, fixed={'epsilon': Fraction(3, 4)}), nan=key != 'operator=='))

    def body(I):
        msgs = []
        for r in run(I):
            if r[0] == 'eq':
                if r[1] != r[2]:
                    msgs.append('compare %s' % ('equal' if r[1] else 'different'))
            else:
                msgs += t.judge(t.read(I, r[0]), r[1])
        return msgs
    simple(R, view, I, body, 'variable tables', key, name, t.set)


def simple(R, view, I, body, group, key, name, f):
    """body returns a list of messages"""
    w0 = '%s:%s in %s' % (f.get('file'), f.get('l'), f['q']) if f else name
    n = 0
    for o in I.explore(body):
        w = short(o.where or w0)
        if o.kind == 'undecided':
            R.undecided(group, view + ' ' + name, '%s (%s)' % (o.exc, o.where))
        elif o.kind == 'crash':
            R.bad(group, key, w, '%s: %s [%s]' % (name, o.value, o.desc()[:120]))
        elif o.kind == 'throw':
            R.bad(group, key, w, '%s raises %s' % (name, o.value.cls))
        elif o.value:
            R.bad(group, key, w, '%s: %s [%s]' % (name, '; '.join(o.value[:3]), o.desc()[:120]))
        else:
            R.good(group, name)
    R.seen(I)


# ------------------------------------------------------------------ C26
ET = 'tomsolver::ErrorType'
ME = 'tomsolver::MathError'
SPE = 'tomsolver::SingleParseError'
MPE = 'tomsolver::MultiParseError'


def text_of(v):
    """the text behind a string value or a pointer into it"""
    v = cellv(v)
    if isinstance(v, Iter) and v.i == 0:
        v = cellv(v.c)
        if isinstance(v, SStr):
            p = list(v.p)
            if isinstance(p[-1], str):
                p[-1] = p[-1].rstrip('\0')
            return mkstr(p)
        return v.rstrip('\0') if isinstance(v, str) else v
    return v


def pieces(s):
    return [s] if isinstance(s, str) else list(s.p) if isinstance(s, SStr) else [repr(s)]


def starts(s, pre):
    a = pieces(s)
    return bool(a) and isinstance(a[0], str) and a[0].startswith(pre)


def contains(s, sub):
    """sub: a constant text or an atom"""
    return any((isinstance(p, str) and isinstance(sub, str) and sub in p) or p is sub or p == sub for p in pieces(s))


def C26(R):
    R.rule('The table of error messages is evaluated for every enumerator; a math error is built for every kind with and without extra information, copied and read back; parse errors '
           'are built with every line and position up to a bound; the solvers are interpreted with a linear solver that raises each kind of error, which must reach the caller with its kind.')
    jobs = []
    for view, P, N in views(True):
        jobs.append(lambda S, a=(view, P): messages(S, *a))
        for x in P.enums[ET]['e']:
            jobs.append(lambda S, a=(view, P, x): math_error(S, *a))
        jobs.append(lambda S, a=(view, P): parse_errors(S, *a))
        for f in P.funcs.values():
            if f['q'] == MPE + '::' + MPE.split('::')[-1] and f.get('ctor') and not f.get('implicit'):
                jobs.append(lambda S, a=(view, P, f): multi_error(S, *a))
        for q in ('SolveByNewtonRaphson', 'SolveByLM'):
            for x in P.enums[ET]['e']:
                jobs.append(lambda S, a=(view, P, N, q, x): passes_on(S, *a))
    pmap(R, jobs)


def info(I, P, x):
    return text_of(I.call_fn(pick(P, 'tomsolver::GetErrorInfo', [ET]), None, [x]))


def messages(R, view, P):
    f = pick(P, 'tomsolver::GetErrorInfo', [ET])
    es = P.enums[ET]['e']

    def body(I):
        seen, d = {}, []
        for x in es:
            s = info(I, P, int(x['v']))
            if not isinstance(s, str) or not s.strip():
                d.append('%s has no message' % x['n'])
            elif s in seen:
                d.append('%s and %s have the same message "%s"' % (seen[s], x['n'], s))
            else:
                seen[s] = x['n']
        return d
    for x in es:
        R.count('error kinds')
    simple(R, view, Interp(P), body, 'messages', 'GetErrorInfo', 'messages of %d kinds' % len(es), f)


def math_error(R, view, P, x):
    f = pick(P, ME + '::MathError', [ET, STRT])
    what, kind = pick(P, ME + '::what', []), pick(P, ME + '::GetErrorType', [])
    ext = Atom('sym', 'ext', 'text')
    for how, e in (('without extra information', None), ('with empty extra information', ''), ('with extra information', SStr(['A = ', ext])), ('with a constant text', 'A = 1'),
                   ('with 10 characters', 'a' + 'b' * 8 + 'c'), ('with 300 characters', 'a' + 'b c' * 99 + 'd%'), ('with 1100 characters', '"a' + 'bc\n' * 366 + 'd'), ('with 70000 characters', 'a' + '12' * 35000 + 'z')):
        for form in ('built', 'copied', 'moved', 'assigned'):
            def body(I, e=e, form=form):
                args = [int(x['v'])] + ([] if e is None else [Cell(e)])
                c = Cell(I.construct(ME, args, ['x', 'l'][:len(args)]), typ=ME)
                if form == 'copied':
                    c = Cell(I.construct(ME, [c], ['l']), typ=ME)
                elif form == 'moved':
                    c = Cell(I.construct(ME, [c], ['x']), typ=ME)
                elif form == 'assigned':
                    c = Cell(I.copyval(c), typ=ME)
                d = []
                k = I.rv_(I.call_fn(kind, c, []))
                if k != int(x['v']):
                    d.append('the reported kind is number %s instead of %s' % (k, x['n']))
                s = text_of(I.call_fn(what, c, []))
                if not starts(s, info(I, P, int(x['v']))):
                    d.append('the message %r does not start with the message of its kind' % (s,))
                if e and not contains(s, ext if isinstance(e, SStr) else e):
                    d.append('the message %r lacks the extra information' % (s,))
                return d
            simple(R, view, Interp(P), body, 'math errors', 'MathError', '%s %s, %s' % (x['n'], how, form), f)


def parse_errors(R, view, P):
    fs = [f for f in P.find(SPE + '::SingleParseError') if f.get('ctor') and len(f['params']) >= 4]
    if not fs:
        R.undecided('anchors', view, 'no instance of the constructor of SingleParseError')
    line, pos, what = pick(P, SPE + '::GetLine', []), pick(P, SPE + '::GetPos', []), pick(P, SPE + '::what', [])
    from checks import parser as PA
    for f in fs:
        ts = [f['_tu'].types[p['t']] for p in f['params']]
        for l, p, content in ((0, 0, 'x'), (0, 3, 'x + )'), (2, 1, 'ab'), (7, 12, 'alpha + beta * ('), (0, 299, 'x + ' * 74 + 'x y'), (123456, 0, ')'), (3, 900, 'a' * 900 + ')')):
            def body(I, l=l, p=p, content=content):
                extra, marks = [], []
                for i, t in enumerate(ts[3:]):
                    if 'StringView' in t:
                        extra.append(Cell(PA.sview(I, 'tok%d' % i)))
                    else:
                        extra.append(Cell('info%d' % i))
                    marks.append(('tok%d' if 'StringView' in t else 'info%d') % i)
                c = Cell(I.construct_with(f, SPE, [l, p, Cell(PA.sview(I, content))] + extra), typ=SPE)
                d = []
                for k in (c, Cell(I.copyval(c), typ=SPE)):
                    if I.rv_(I.call_fn(line, k, [])) != l:
                        d.append('the line is reported as %s instead of %d' % (I.rv_(I.call_fn(line, k, [])), l))
                    if I.rv_(I.call_fn(pos, k, [])) != p:
                        d.append('the position is reported as %s instead of %d' % (I.rv_(I.call_fn(pos, k, [])), p))
                    s = text_of(I.call_fn(what, k, []))
                    if not isinstance(s, str):
                        raise Undecided('text %r' % (s,))
                    for m in marks + [content]:
                        if m not in s:
                            d.append('the message %r lacks "%s"' % (s, m))
                    if '%d, %d' % (l, p) not in s:
                        d.append('the message %r lacks the line and the position (%d, %d)' % (s, l, p))
                    caret = [ln for ln in s.split('\n') if ln.lstrip(' ').startswith('^')]
                    if not caret or len(caret[0]) - len(caret[0].lstrip(' ')) != p:
                        d.append('the mark under the line is not at position %d: %r' % (p, s))
                return d
            simple(R, view, Interp(P), body, 'parse errors', 'SingleParseError', 'line %d, position %d in "%s" with %d pieces' % (l, p, content[:40], len(ts) - 3), f)


def multi_error(R, view, P, f):
    g = [g for g in P.find(SPE + '::SingleParseError') if g.get('ctor') and len(g['params']) >= 4]
    if not g:
        return
    g = g[0]
    ts = [g['_tu'].types[p['t']] for p in g['params']]
    what, swhat = pick(P, MPE + '::what', []), pick(P, SPE + '::what', [])
    from checks import parser as PA
    for n in (1, 2, 3, 12, 60):
        def body(I, n=n):
            errs = []
            for k in range(n):
                extra = [Cell(PA.sview(I, 'tok%d' % k)) if 'StringView' in t else Cell('info%d' % k) for t in ts[3:]]
                errs.append(Cell(I.construct_with(g, SPE, [k, k + 1, Cell(PA.sview(I, 'text of %d' % k))] + extra), typ=SPE))
            texts = [text_of(I.call_fn(swhat, e, [])) for e in errs]
            c = Cell(I.construct(MPE, [Cell(Seq('vector', errs, SPE, cells=True))], ['l']), typ=MPE)
            s = text_of(I.call_fn(what, c, []))
            if not isinstance(s, str):
                raise Undecided('text %r' % (s,))
            return ['the message of error %d is missing in %r' % (k, s) for k, t in enumerate(texts) if t not in s]
        simple(R, view, Interp(P), body, 'parse errors', 'MultiParseError', 'report of %d errors' % n, f)


def passes_on(R, view, P, N, q, x):
    """an error of the linear solver keeps its kind"""
    fs = [f for f in P.find('tomsolver::' + q) if len(f['params']) == 2]
    if not fs:
        R.undecided('anchors', view, q)
        return
    f = fs[0]

    def fails(I, g, this, args):
        I.path.events.append('raised')
        v = I.construct(ME, [int(x['v']), Cell(SStr(['A = ', Atom('sym', 'ext', 'text')]))], ['x', 'l'])
        raise CppThrow(Cell(v, typ=ME), ME, P.records[ME].get('allbases') or bases_of(P, ME), I.where())
    I = Interp(P, stubs={'tomsolver::SolveLinear': fails, NT: stub_tostring}, opts=dict(static_hook=sym_config(P, fixed={'logLevel': 0, 'maxIterations': 2, 'epsilon': Fraction(1, 1000)})))

    def body(I):
        eqs = symvec(I, N, [('MATH_SUB', ('MATH_MULTIPLY', ('v', 'x'), ('v', 'x')), ('n', sym('c')))])
        t = newtab(I, 'map', ['x'], [sym('x0')], P)
        I.call_fn(f, None, [eqs, t])
    name = '%s raised in %s' % (x['n'], q)
    for o in I.explore(body):
        if o.kind == 'undecided':
            R.undecided('passing on', view + ' ' + name, '%s (%s)' % (o.exc, o.where))
        elif o.kind == 'throw' and 'raised' in o.path.events:
            cls, k = err_kind(P, o)
            if k != x['n']:
                R.bad('passing on', q, short(o.where), '%s reaches the caller as %s %s' % (name, cls, k or ''))
            else:
                R.good('passing on', name)
        elif o.kind == 'return' and 'raised' in o.path.events:
            R.bad('passing on', q, '%s:%s in %s' % (f['file'], f['l'], f['q']), '%s is swallowed' % name)
        elif o.kind == 'crash':
            R.bad('passing on', q, short(o.where), '%s: %s' % (name, o.value))
    R.seen(I)


def bases_of(P, cls):
    out, todo = [], [cls]
    while todo:
        c = todo.pop()
        r = P.records.get(c)
        for b in (r['bases'] if r else {'std::runtime_error': ['std::exception']}.get(c, [])):
            b = b if isinstance(b, str) else b.get('q') or b.get('t')
            if b not in out:
                out.append(b)
                todo.append(b)
    return out


def symvec(I, N, trees):
    """a symbolic vector of the given equations"""
    import trees as TR
    cls = 'tomsolver::SymVec'
    c = Cell(I.construct(cls, [len(trees)], ['x']), typ=cls)
    g = [f for f in N.P.find('tomsolver::SymVec::operator[]') if not f.get('const')][0]
    for i, t in enumerate(trees):
        u = I.call_fn(g, c, [i])
        u.v = UPtr(TR.build(N, t))
    return c


# ------------------------------------------------------------------ C15
LETTERS = frozenset(range(ord('a'), ord('z') + 1)) | frozenset(range(ord('A'), ord('Z') + 1)) | {ord('_')}
DIGITS = frozenset(range(ord('0'), ord('9') + 1))
ALLCH = frozenset(range(-128, 128))


def legality(I, s):
    """True / False / None (the trace admits both) for a text of symbolic characters"""
    cs = []
    for x in (s.p if isinstance(s, SStr) else (s,)):
        if isinstance(x, str):
            cs += [frozenset([ord(c) if ord(c) < 128 else ord(c) - 256]) for c in x]
        else:
            d = I.path.dom.get(x)
            if d is None:
                raise Undecided('opaque text')
            cs.append(d)
    if not cs:
        return False
    legal = [LETTERS] + [LETTERS | DIGITS] * (len(cs) - 1)
    if all(d <= l for d, l in zip(cs, legal)):
        return True
    if any(not (d & l) for d, l in zip(cs, legal)):
        return False
    return None


def show_text(I, s):
    out = ''
    for x in (s.p if isinstance(s, SStr) else (s,)):
        if isinstance(x, str):
            out += x
        else:
            d = I.path.dom.get(x, ())
            out += '{%s}' % ''.join(chr(c) if 32 < c < 127 else '\\x%02x' % (c & 255) for c in sorted(d)[:6])
    return '"%s"' % out


def symtext(I, n, dom, pre='', post=''):
    p = [pre] if pre else []
    for i in range(n):
        a = Atom('char', 'c%d' % i)
        I.path.dom[a] = dom
        p.append(a)
    return mkstr(p + ([post] if post else []))


def C15(R):
    R.rule('The name test and the creation of variables are interpreted on names of symbolic characters (each ranging over all 256 values): on every trace the set of names must be legal '
           'exactly if the test accepts and the variable is created. Every other public function that takes text and yields expressions is interpreted with such names: no node with an '
           'illegal name may come out.')
    deep = bool(os.environ.get('VERIF_DEEP'))
    R.assume('names of symbolic characters up to length %d; longer ones by a fixed legal part followed or preceded by symbolic characters' % (4 if deep else 3))
    jobs = []
    known = set()
    for view, P, N in views(True):
        cases = [(n, '', '') for n in range(0, 5 if deep else 4)] + [(1, 'abcdefghij_0123456789', ''), (1, '', 'abcdefghijklmnopqrstuvwxyz0'), (1, 'x' * 300, 'y'), (2, 'a0', 'Z_'), (1, '_', '')]
        for n, pre, post in cases:
            nm = '%d symbolic characters%s' % (n, ' in "%s?%s"' % (pre[:12], post[:12]) if pre or post else '')
            jobs.append(lambda S, a=(view, P, N, n, pre, post, nm): name_test(S, *a))
            jobs.append(lambda S, a=(view, P, N, n, pre, post, nm): create_var(S, *a))
        chars = frozenset(ord(c) for c in 'x0_.eZ+# ') | {-61}
        for n in (1, 2, 3):
            for first in sorted(chars):
                jobs.append(lambda S, a=(view, P, N, n, chars, first): parse_names(S, *a))
        for f in P.funcs.values():
            if takes_text(P, f):
                jobs.append(lambda S, a=(view, P, N, f): other_source(S, *a))
    pmap(R, jobs)


def name_test(R, view, P, N, n, pre, post, nm):
    f = pick(P, 'tomsolver::VarNameIsLegal', None)
    hold = {}

    def body(I):
        hold['s'] = s = symtext(I, n, ALLCH, pre, post)
        r = I.truth(I.rv_(I.call_fn(f, None, [Cell(s)])))
        want = legality(I, s)
        if want is None:
            return ['decides %s for names some of which are legal and some are not: %s' % (r, show_text(I, s))]
        return [] if r == want else ['is %s for %s' % (r, show_text(I, s))]
    simple(R, view, Interp(P, opts=dict(max_paths=20000)), body, 'name test', 'VarNameIsLegal', nm, f)


def create_var(R, view, P, N, n, pre, post, nm):
    f = pick(P, 'tomsolver::Var', None)

    def body(I):
        s = symtext(I, n, ALLCH, pre, post)
        try:
            r = I.call_fn(f, None, [Cell(s)])
        except CppThrow as t:
            want = legality(I, s)
            return [] if want is False else ['raises %s for %s' % (t.cls, show_text(I, s))]
        want = legality(I, s)
        if not want:
            return ['creates a variable named %s' % show_text(I, s)]
        c = r.cell if isinstance(r, UPtr) else cellv(r).cell
        d = N.well_formed(I, c)
        if d:
            return d
        if I.val(N.get(c, N.name)) != s:
            return ['the variable is named %r instead of %s' % (I.val(N.get(c, N.name)), show_text(I, s))]
        return []
    simple(R, view, Interp(P, opts=dict(max_paths=20000)), body, 'creation', 'Var', nm, f)


def names_in(I, N, root):
    return [I.val(N.get(c, N.name)) for c in N.cells(root) if I.res(I.val(N.get(c, N.type))) == N.VARIABLE]


def parse_names(R, view, P, N, n, chars, first):
    from checks import parser as PA
    f = pick(P, 'tomsolver::Parse', None)

    def body(I):
        s = symtext(I, n, chars)
        I.path.dom[s.p[0]] = frozenset([first])
        try:
            r = PA.parse(I, P, s)
        except CppThrow:
            return []
        out = []
        for x in names_in(I, N, r.cell):
            if legality(I, x) is not True:
                out.append('the text %s yields a variable named %s' % (show_text(I, s), show_text(I, x)))
        return out
    simple(R, view, Interp(P, opts=dict(max_paths=20000, fuel=400000, stod_hook=PA.full_stod)), body, 'parsing', 'Parse', '%d characters starting with %r' % (n, chr(first & 255)), f)


TEXTY = ('basic_string', 'char *', 'StringView')
BYNAME = ('Var', 'Parse', 'operator""_f', 'operator"" _f')


def takes_text(P, f):
    """public functions that take text and yield expressions"""
    if f.get('body') is None or f.get('implicit') or '::internal::' in f['q'] or f.get('anon') or not f.get('ext_linkage') or f.get('access') in ('private', 'protected'):
        return False
    ts = [f['_tu'].types[s['t']] for s in f['sig']]
    rt = f['_tu'].types[f['ret']]
    return any(x in t for t in ts for x in TEXTY) and any(y in rt for y in ('NodeImpl', 'SymMat', 'SymVec')) or (any(any(x in t for x in TEXTY) for t in ts) and any('NodeImpl' in t or 'SymMat' in t for t in ts))


def other_source(R, view, P, N, f):
    """illegal names given to any other function never end up in an expression"""
    ts = [f['_tu'].types[s['t']] for s in f['sig']]
    name = '%s(%s)' % (f['q'].split('::')[-1], ', '.join(t.split('::')[-1] for t in ts))
    if f['q'].split('::')[-1] in BYNAME:
        return
    bad = ['1a', '', 'a b', 'x+y', '\u00e9']
    import trees as TR

    def arg(I, t, k):
        base = strip_cvref(t)
        if base.startswith('std::vector') and 'basic_string' in base:
            return Cell(Seq('vector', [bad[k]], 'std::basic_string<char>'))
        if base.startswith('std::vector') and 'unique_ptr' in base:
            return Cell(Seq('vector', [UPtr(TR.build(N, ('v', 'w')))], NODE))
        if 'basic_string' in base and base.startswith('std::map'):
            return Cell(MapV('map', [(bad[k], Cell(UPtr(TR.build(N, ('v', 'w'))) if 'unique_ptr' in base else sym('u')))]))
        if 'StringView' in base:
            from checks import parser as PA
            return Cell(PA.sview(I, bad[k]))
        if 'basic_string' in base:
            return Cell(bad[k])
        if 'char *' in base:
            return Cell(Iter(bad[k], 0))
        if 'unique_ptr' in base and 'NodeImpl' in base:
            return Cell(UPtr(TR.build(N, ('MATH_ADD', ('v', 'x'), ('MATH_SIN', ('v', 'y'))))), typ=NODE)
        if base in INTTYPES:
            return 1
        if base == 'double':
            return Cell(sym('d'))
        if base in ('tomsolver::SymMat', 'tomsolver::SymVec'):
            return symvec(I, N, [('MATH_ADD', ('v', 'x'), ('v', 'y'))])
        if base == VT:
            return newtab(I, 'map', [bad[k]], [sym('u')], P)
        raise Undecided('parameter of type ' + t)
    for k in range(len(bad)):
        def body(I, k=k):
            args = [arg(I, t, k) for t in ts]
            this = symvec(I, N, [('MATH_ADD', ('v', 'x'), ('v', 'y'))]) if f.get('cls') in ('tomsolver::SymMat', 'tomsolver::SymVec') and not f.get('static') else None
            if f.get('cls') and this is None and not f.get('static'):
                raise Undecided('member of ' + f['cls'])
            try:
                r = I.call_fn(f, this, args)
            except CppThrow:
                return []
            out = []
            for root in nodes_of(r) + [x for a in args for x in nodes_of(a)] + nodes_of(this):
                for x in names_in(I, N, root):
                    if not isinstance(x, str) or x == bad[k]:
                        out.append('a variable named %r results' % (x,))
            return out
        simple(R, view, Interp(P, stubs={NT: stub_tostring}, opts=dict(static_hook=sym_config(P))), body, 'other sources', f['q'].split('::')[-1], '%s with the name %r' % (name, bad[k]), f)


def nodes_of(v, depth=0):
    """roots of the expressions reachable from a value"""
    v = cellv(v)
    if isinstance(v, UPtr):
        return [v.cell] if v.cell is not None and isinstance(v.cell.v, Obj) else []
    if depth > 5:
        return []
    out = []
    if isinstance(v, Obj) and not v.cls.endswith('NodeImpl'):
        for c in v.f.values():
            out += nodes_of(c, depth + 1)
    elif isinstance(v, Seq):
        for c in v.items:
            out += nodes_of(c, depth + 1)
    elif isinstance(v, MapV):
        for _, c in v.items:
            out += nodes_of(c, depth + 1) if c is not None else []
    elif isinstance(v, Tup):
        for c in v.cells:
            out += nodes_of(c, depth + 1)
    return out


# ------------------------------------------------------------------ C23
def C23(R):
    import logflow as LF
    import effects as EF
    R.rule('For each of the log levels all functions are traversed from every public entry point, following only branches that the level admits (conditions on the level are evaluated, through '
           'helper functions, local variables and parameters); a write to standard output or error must not be reachable with logging off, and once reachable at a level it must be at every higher one.')
    R.assume('a write to a stream that the caller passed in is the caller\'s; conditions that do not depend on the log level may go either way')
    lib = load('lib')
    for view, P, N in views(True):
        en = P.enums.get('tomsolver::LogLevel')
        if en is None or not any(x['n'] == 'OFF' for x in en['e']):
            R.undecided('anchors', view, 'LogLevel')
            continue
        levels = sorted((int(x['v']), x['n']) for x in en['e'])
        off = [v for v, n in levels if n == 'OFF'][0]
        at = {}
        entries = LF.roots(P, lib)
        for v, n in levels:
            w = LF.Flow(P, v)
            for f in entries:
                w.stack = []
                w.visit(f, ())
            for g in P.globals.values():
                if g.get('init'):
                    pass
            for k, chain in w.sites.items():
                at.setdefault(k, {})[v] = chain
            R.count('functions visited per level', w.calls)
            for u, _ in w.memo:
                R.funcs.add((view, P.funcs[u]['q']))
        R.count('public entry points', len(entries))
        R.count('output sites', len(at))
        for (file, line, q, what), ls in sorted(at.items(), key=lambda x: str(x[0])):
            where = '%s:%s in %s' % (file, line, q)
            name = '%s:%s %s' % ((file or '').split('/')[-1], line, what)
            if off in ls:
                R.bad('output sites', q, where, 'writes to standard output with logging off (reached by %s)' % ' -> '.join(ls[off] or [q]))
                continue
            first = min(ls)
            missing = [n for v, n in levels if v > first and v not in ls]
            if missing:
                R.bad('output sites', q, where, 'writes at level %s but not at the higher level %s' % (dict(levels)[first], missing[0]))
                continue
            R.good('output sites', name + ' from level %s on' % dict(levels)[first])
        # sites in code no public function reaches
        R.good('entry points', n=len(entries))


# ------------------------------------------------------------------ values for any parameter type
EQS = [('MATH_SUB', ('MATH_MULTIPLY', ('v', 'x'), ('v', 'x')), ('v', 'y')), ('MATH_ADD', ('v', 'y'), ('n', 2))]
TREE = ('MATH_ADD', ('MATH_MULTIPLY', ('v', 'x'), ('n', 3)), ('MATH_SIN', ('MATH_DIVIDE', ('v', 'y'), ('MATH_SUB', ('n', 2), ('n', 5)))))


def value_for(I, P, N, t, k, tree=None):
    """an argument for a parameter of canonical type t (k numbers the parameters)"""
    import trees as TR
    from checks import parser as PA
    b = strip_cvref(t)
    S = lambda x: 'std::basic_string<char>' in x
    names = ['x', 'y']
    z = getattr(I, 'size', 2)

    def node(i=0):
        return UPtr(TR.build(N, tree or (TREE if i == 0 else ('MATH_EXP', ('v', 'w')))))
    if b == NODE:
        return Cell(node(), typ=NODE)
    if b == NI:
        return TR.build(N, tree or TREE)
    if b in ('tomsolver::SymVec', 'tomsolver::SymMat'):
        return symvec(I, N, getattr(I, 'entries', None) or ([tree or TREE] * 1 if tree else EQS))
    if b == MX.MAT:
        return MX.mk_mat(I, z, z, 'ab'[k % 2])
    if b == VEC:
        return MX.mk_mat(I, z, 1, 'uv'[k % 2], VEC)
    if b == VT:
        return newtab(I, 'map', names, [sym('s%d' % i) for i in range(2)], P)
    if b == 'double':
        return Cell(sym('d%d' % k))
    if b == 'bool':
        return True
    if b in INTTYPES:
        return 1 if b != 'int' else 1
    if b in P.enums:
        if b == 'tomsolver::MathOperator':
            return N.ops['MATH_ADD']
        if b == 'tomsolver::NodeType':
            return N.NUMBER
        return int(P.enums[b]['e'][0]['v'])
    if b == 'std::basic_string<char>':
        return Cell('x')
    if b == 'tomsolver::internal::StringView':
        return Cell(PA.sview(I, 'x+sin(y)*2'))
    if 'char (&)[' in t or b.startswith('char['):
        return Cell('unexpected')
    if b == 'const char *' or b == 'char *':
        return Cell(Iter('x+sin(y)*2', 0))
    if b.startswith('std::vector<std::basic_string<char>'):
        return Cell(Seq('vector', list(names), 'std::basic_string<char>'))
    if b.startswith('std::vector<std::unique_ptr'):
        return Cell(Seq('vector', [node(1), node(1)], NODE))
    if b.startswith('std::map<std::basic_string<char>, double'):
        return Cell(MapV('map', [(x, Cell(sym('m' + x))) for x in names]))
    if b.startswith('std::map<std::basic_string<char>, std::unique_ptr'):
        return Cell(MapV('map', [(x, Cell(node(1))) for x in names]))
    if b.startswith('std::initializer_list<std::initializer_list<double'):
        return Seq('initializer_list', [Seq('initializer_list', [sym('i'), sym('j')], 'double')], 'x')
    if b.startswith('std::initializer_list<std::initializer_list<std::unique_ptr'):
        return Seq('initializer_list', [Seq('initializer_list', [node(1), node(1)], NODE)], 'x')
    if b == 'std::initializer_list<double>' or b == 'std::valarray<double>':
        return Seq('valarray' if 'valarray' in b else 'initializer_list', [sym('i%d' % i) for i in range(z)], 'double')
    if b.startswith('std::initializer_list<std::unique_ptr'):
        return Seq('initializer_list', [node(1), node(1)], NODE)
    if b.startswith('std::initializer_list<std::pair'):
        return Seq('initializer_list', [Tup([Cell(x), Cell(sym('m' + x))], pair=True) for x in names], 'x')
    if b.startswith('std::function<tomsolver::Vec'):
        return Cell(lambda v: MX.mk_mat(I, z, 1, 'f', VEC))
    if b.startswith('std::function<tomsolver::Mat'):
        return Cell(lambda v: MX.mk_mat(I, z, z, 'g'))
    if b.startswith('std::basic_ostream'):
        return Cell(Stream())
    if b.startswith('std::vector<tomsolver::'):
        et = b[len('std::vector<'):].split(',')[0].rstrip('> ')
        return Cell(Seq('vector', [cellv(value_for(I, P, N, et, k))], et))
    if b in P.records and b.startswith('tomsolver'):
        cs = [c for c in P.all_defs if c.get('ctor') and c.get('cls') == b and c.get('body') is not None and not c.get('implicit')
              and not any(strip_cvref(c['_tu'].types[x['t']]) == b for x in c['sig'])]
        if cs:
            ts = [cs[0]['_tu'].types[x['t']] for x in cs[0]['sig']]
            return Cell(I.construct_with(cs[0], b, [value_for(I, P, N, x, i) for i, x in enumerate(ts)]), typ=b)
    raise Undecided('parameter of type ' + t)


def cells_below(v, acc=None, depth=0):
    """every cell reachable from a value (ownership only)"""
    acc = {} if acc is None else acc
    if isinstance(v, Cell):
        if id(v) in acc:
            return acc
        acc[id(v)] = v
        v = v.v
    if isinstance(v, UPtr):
        if v.cell is not None:
            cells_below(v.cell, acc)
    elif isinstance(v, Obj):
        for k, c in v.f.items():
            if k not in v.refs:
                cells_below(c, acc)
    elif isinstance(v, Seq):
        for c in v.items:
            cells_below(c, acc)
    elif isinstance(v, MapV):
        for _, c in v.items:
            if c is not None:
                cells_below(c, acc)
    elif isinstance(v, Tup):
        for c in v.cells:
            cells_below(c, acc)
    return acc


def snapshot(cells):
    out = {}
    for i, c in cells.items():
        v = c.v
        if isinstance(v, UPtr):
            out[i] = ('u', id(v.cell) if v.cell is not None else None)
        elif isinstance(v, Ptr):
            out[i] = ('p', id(v.cell) if v.cell is not None else None)
        elif isinstance(v, Seq):
            out[i] = ('s', tuple(id(c) for c in v.items))
        elif isinstance(v, MapV):
            out[i] = ('m', tuple((k, id(c)) for k, c in v.items))
        elif isinstance(v, (Obj, Tup, Stream)) or callable(v):
            out[i] = ('o', id(v))
        else:
            out[i] = ('v', v)
    return out


def const_args(P, f):
    """indices of the operands that f promises not to modify (-1: the object)"""
    out = []
    if f.get('cls') and f.get('const') and not f.get('static'):
        out.append(-1)
    for i, s in enumerate(f['sig']):
        t = f['_tu'].types[s['t']]
        if t.startswith('const ') and t.endswith('&') and not t.endswith('&&'):
            out.append(i)
    return out


def slow_solver(P):
    """a linear solver that yields an arbitrary vector"""
    def st(I, f, this, args):
        I.path.notes.append('linear')
        return I.construct(VEC, [Seq('valarray', [sym('d%d_%d' % (len(I.path.notes), i)) for i in range(2)], 'double')], ['x'])
    return st


# ------------------------------------------------------------------ C25
HIDDEN = {'rand', 'srand', 'random', 'strtok', 'setlocale', 'std::rand', 'std::srand', 'std::strtok', 'std::setlocale', 'std::locale::global', 'localtime', 'gmtime', 'asctime', 'ctime', 'tmpnam',
          'setenv', 'putenv', 'std::localtime', 'std::ctime', 'std::asctime', 'drand48', 'lgamma', 'std::lgamma', 'chdir', 'signal', 'std::signal', 'fesetround', 'std::fesetround'}


def C25(R):
    import effects as EF
    import logflow as LF
    R.rule('Effects: every variable with static storage other than the configuration must be constant or never be used in a way that can modify it, no field is mutable, no cast drops const '
           'from an object the function was given as constant, and no library call with hidden state is made. Every public operation with constant operands is interpreted while every '
           'cell reachable from those operands is watched: none may be assigned (even temporarily) or differ afterwards.')
    R.assume('reachable = by ownership (nodes below an expression, entries of matrices, names and values of tables)')
    jobs = []
    lib = load('lib')
    for view, P, N in views(True):
        statics(R, view, P)
        for f in LF.roots(P, lib):
            if f.get('implicit') or f.get('dtor') or not const_args(P, f):
                continue
            jobs.append(lambda S, a=(view, P, N, f): const_case(S, *a))
    pmap(R, jobs)


def statics(R, view, P):
    import effects as EF
    uses = {}
    for f in P.funcs.values():
        if f.get('body') is None:
            continue

        def emit(kind, e, d, f=f):
            if kind == 'read':
                return
            r, path = EF.root(e)
            if r.get('k') == 'ref' and r.get('dk') == 'global' and not r.get('ext'):
                uses.setdefault(r.get('q') if '::' in (r.get('q') or '') else (f['q'], r.get('n')), []).append((kind, f, r))
            if r.get('k') == 'mem' and r.get('dk') == 'static':
                uses.setdefault(r.get('q'), []).append((kind, f, r))
        EF.Uses(f, emit)
    for g in P.globals.values():
        t = g['_tu'].types[g['t']]
        where = '%s:%s%s' % (short(g.get('file')), g.get('l'), ' in ' + g['fn'] if g.get('fn') else '')
        name = '%s%s' % (g['q'], ' of ' + g['fn'] if g.get('fn') else '')
        if strip_cvref(t) == CONFIG and not t.startswith('const'):
            if g.get('fn') == CONFIG + '::Get':
                R.good('static variables', name)
                continue
        if g.get('const') or t.startswith('const ') and not t.rstrip().endswith('*'):
            R.good('static variables', name)
            continue
        us = uses.get((g.get('fn'), g['n'])) or uses.get(g['q']) or []
        if us:
            kind, f, r = us[0]
            R.bad('static variables', 'static:' + g['q'].split('::')[-1], '%s:%s in %s' % (short(f.get('file')), r.get('l'), f['q']), 'the variable %s with static storage (%s) is %s' % (
                name, where, {'write': 'assigned', 'self': 'modified by a member function', 'alias': 'bound to a non-const reference', 'pass': 'passed to be modified', 'addr': 'exposed by its address',
                              'return': 'returned by a non-const reference', 'move': 'moved from'}[kind]))
        else:
            R.good('static variables', name)
    for r in P.records.values():
        if not r['q'].startswith('tomsolver'):
            continue
        for x in r['fields']:
            if x.get('mutable'):
                R.bad('mutable fields', 'mutable:' + x['n'], '%s:%s' % (short(r.get('file')), r.get('l')), 'the field %s of %s is mutable' % (x['n'], r['q']))
            else:
                R.good('fields')
    for f in P.funcs.values():
        if f.get('body') is None or f.get('implicit') or f.get('defaulted'):
            continue
        ds = None
        for n in EF.fn_nodes(f):
            c = n.get('callee')
            if n.get('k') in ('call', 'mcall') and c and c.get('ext') and (c.get('q') in HIDDEN):
                R.bad('library calls', f['q'], '%s:%s in %s' % (short(f.get('file')), n.get('l'), f['q']), 'calls %s, which keeps state shared by the whole program' % c['q'])
            elif n.get('k') in ('call', 'mcall') and c and c.get('ext'):
                R.good('library calls')
            if n.get('k') != 'cast' or not n.get('expl'):
                continue
            to, fr = f['_tu'].types[n['t']], f['_tu'].types[n['e']['t']]
            drops = (n.get('constcast') or n.get('ck') in ('NoOp', 'BitCast', 'LValueBitCast')) and 'const' in fr and 'const' not in to and (n.get('vc') == 'l' or to.endswith('*')) and to.replace(' ', '') == fr.replace('const ', '').replace(' ', '')
            if not drops:
                continue
            r, _ = EF.root(n['e'])
            while r.get('k') in ('mcall', 'opcall', 'un'):
                r = r.get('obj') or (r['args'][0] if r.get('args') else None) or r.get('a') or {}
                r, _ = EF.root(r) if r.get('k') else ({'k': '?'}, None)
            ds = ds or EF.decls_of(f)
            if r.get('k') == 'ref' and from_list(f, r.get('d'), ds):
                R.good('casts', '%s:%s: element of a list the caller built for the call' % (f['q'], n.get('l')))
                continue
            if r.get('k') == 'this' and not f.get('const') or r.get('k') == 'cast' and not f.get('const'):
                R.good('casts', '%s:%s: in a non-const member' % (f['q'], n.get('l')))
                continue
            R.bad('casts', 'const_cast:' + f['q'], '%s:%s in %s' % (short(f.get('file')), n.get('l'), f['q']), 'a cast drops const from %s' % fr)


def from_list(f, d, ds, depth=0):
    """is the variable an element of an initializer_list parameter?"""
    import effects as EF
    if d is None or depth > 4:
        return False
    for n in EF.fn_nodes(f):
        if n.get('k') == 'rfor' and n['v']['d'] == d:
            r, _ = EF.root(n['r'])
            if 'initializer_list' in f['_tu'].types[r['t']]:
                return True
            return r.get('k') == 'ref' and from_list(f, r.get('d'), ds, depth + 1)
    v = ds.get(d)
    if v:
        if 'initializer_list' in v[1]:
            return True
        i = v[0].get('init')
        if i is not None and i.get('k') in ('un', 'opcall', 'mcall'):
            for n in EF.walk(i):
                if n.get('k') == 'ref' and n.get('d') != d and from_list(f, n.get('d'), ds, depth + 1):
                    return True
    return False


def const_case(R, view, P, N, f):
    ts = [f['_tu'].types[s['t']] for s in f['sig']]
    key = f['q'].split('::')[-1]
    name = '%s(%s)%s' % (f['q'], ', '.join(t.split('::')[-1] for t in ts), ' const' if f.get('const') else '')
    idx = const_args(P, f)
    numeric = ('MATH_SUB', ('MATH_MULTIPLY', ('n', 2), ('n', 3)), ('MATH_NEGATIVE', ('n', 1)))
    single = ('MATH_POWER', ('v', 'x'), ('n', 2))
    touches = any('NodeImpl' in t or 'Sym' in t for t in ts) or (f.get('cls') or '') in (NI, 'tomsolver::SymMat', 'tomsolver::SymVec')
    for tree in ([None, numeric, single, ('v', 'x')] if touches else [None]):
        hits = []

        def hook(I, c, v):
            if I.watch and id(c) in I.watch:
                hits.append((I.where(), c.name))
        I = Interp(P, stubs={NT: stub_tostring, 'tomsolver::SolveLinear': slow_solver(P)} if f['q'] != 'tomsolver::SolveLinear' else {NT: stub_tostring},
                   opts=dict(assign_hook=hook, static_hook=sym_config(P, fixed={'maxIterations': 1, 'logLevel': 0, 'epsilon': Fraction(1, 1000)}), max_paths=60, fuel=60000, total=240000))
        I.watch = None

        def body(I, tree=tree):
            I.watch = None
            del hits[:]
            this = None
            if f.get('cls') and not f.get('static') and not f.get('ctor'):
                this = value_for(I, P, N, f['cls'], 9, tree)
            args = [value_for(I, P, N, t, i, tree) for i, t in enumerate(ts)]
            cells = {}
            for i in idx:
                cells_below(this if i < 0 else args[i], cells)
            before = snapshot(cells)
            I.watch = cells
            out = []
            try:
                if f.get('ctor'):
                    I.construct(f['cls'], args, ['l' if t.endswith('&') and not t.endswith('&&') else 'x' for t in ts])
                else:
                    I.call_fn(f, this, args)
            except CppThrow:
                pass
            I.watch = None
            if hits:
                out.append('assigns to a part of a constant operand at %s' % (short(hits[0][0])))
            after = snapshot(cells)
            for i in before:
                if before[i] != after[i]:
                    out.append('a part of a constant operand changes')
                    break
            return out
        res = I.explore(body)
        for o in res:
            w = short(o.where or '%s:%s in %s' % (f.get('file'), f.get('l'), f['q']))
            if o.kind == 'undecided':
                if o.exc == 'too many traces' or 'does not converge' in (o.exc or ''):
                    R.count('operations whose traces are cut off (iterative solvers)')
                    continue
                R.undecided('constant operands', view + ' ' + name, '%s (%s)' % (o.exc, o.where))
            elif o.kind == 'crash':
                R.count('traces that end in undefined behaviour (other properties)')
            elif o.kind == 'return' and o.value:
                R.bad('constant operands', 'const:' + key, w, '%s: %s' % (name, '; '.join(o.value)))
            else:
                R.good('constant operands', name)
        R.seen(I)


# ------------------------------------------------------------------ C24
DEFAULTS = {'throwOnInvalidValue': True, 'epsilon': Fraction('1e-9'), 'logLevel': ('tomsolver::LogLevel', 'WARN'), 'maxIterations': 100,
            'nonlinearMethod': ('tomsolver::NonlinearMethod', 'NEWTON_RAPHSON'), 'initialValue': 1, 'allowIndeterminateEquation': False}


def C24(R):
    R.rule('Construction and Reset of the configuration are interpreted (Reset from arbitrary values of every field): each documented field holds its documented default afterwards. Get is interpreted '
           'twice with arbitrary values stored in between: the same object with the same values. Every use of a configuration field, and of the configuration as a whole, anywhere in the library is '
           'classified: none outside the configuration\'s own members may modify it, and no variable with static storage may be initialised from it.')
    for view, P, N in views(True):
        rec = P.records.get(CONFIG)
        get = P.find(CONFIG + '::Get')
        if rec is None or not get:
            R.undecided('anchors', view, 'Config')
            continue
        want = {}
        for n, v in DEFAULTS.items():
            fl = [x for x in rec['fields'] if x['n'] == n]
            if not fl:
                R.bad('defaults', 'field:' + n, '%s:%s' % (short(rec.get('file')), rec.get('l')), 'the configuration has no field %s' % n)
                continue
            if isinstance(v, tuple):
                e = [int(x['v']) for x in P.enums.get(v[0], {'e': []})['e'] if x['n'] == v[1]]
                if not e:
                    R.bad('defaults', 'enum:' + v[1], short(rec.get('file')), 'no enumerator %s::%s' % v)
                    continue
                v = e[0]
            want[n] = v

        def wrong(o):
            out = []
            for n, v in want.items():
                g = o.f[n].v if n in o.f else None
                if isinstance(g, Opaque) or g is None:
                    out.append('%s is %s' % (n, 'not initialised'))
                elif isinstance(g, float) or isinstance(g, (int, Fraction)):
                    if float(g) != float(v):
                        out.append('%s is %s instead of %s' % (n, g, float(v) if isinstance(v, Fraction) else v))
                else:
                    out.append('%s depends on %s' % (n, T.show(g)))
            return out
        where = get[0]
        I = Interp(P)

        def fresh(I):
            return wrong(cellv(I.call_fn(where, None, [])))
        simple(R, view, I, fresh, 'defaults', 'default', 'a fresh configuration', where)

        def fresh2(I):
            return wrong(cellv(I.construct(CONFIG, [], [])))
        simple(R, view, Interp(P), fresh2, 'defaults', 'default', 'a constructed configuration', where)
        for rs in P.find(CONFIG + '::Reset'):
            def reset(I, rs=rs):
                c = I.call_fn(where, None, [])
                sym_config(P)(I, None, c)
                I.call_fn(rs, c, [])
                return wrong(c.v)
            simple(R, view, Interp(P), reset, 'reset', 'Reset', 'reset from arbitrary values', rs)
        if not P.find(CONFIG + '::Reset'):
            R.undecided('reset', view, 'Config::Reset')

        def twice(I):
            a = I.call_fn(where, None, [])
            sym_config(P)(I, None, a)
            s = {n: c.v for n, c in a.v.f.items()}
            b = I.call_fn(where, None, [])
            out = []
            if a is not b:
                out.append('a second access yields another object')
            for n, v in s.items():
                if b.v.f[n].v is not v and b.v.f[n].v != v:
                    out.append('an access changes ' + n)
            return out
        simple(R, view, Interp(P), twice, 'one configuration', 'Get', 'Config::Get', where)
        for g in P.globals.values():
            if strip_cvref(g['_tu'].types[g['t']]) == CONFIG:
                if g.get('tls'):
                    R.bad('one configuration', 'tls:' + g['q'], '%s:%s' % (short(g.get('file')), g.get('l')), 'each thread has its own configuration')
                else:
                    R.good('one configuration', g['q'])
        config_uses(R, view, P)
        frozen(R, view, P)


def config_uses(R, view, P):
    import effects as EF
    for f in P.funcs.values():
        if f.get('body') is None or f.get('cls') == CONFIG:
            continue
        ds = EF.decls_of(f)
        types = f['_tu'].types
        seen = set()

        def local_copy(e):
            r, _ = EF.root(e)
            if r.get('k') == 'ref' and r.get('d') in ds:
                return not ds[r['d']][1].endswith('&') and not ds[r['d']][1].endswith('*')
            return r.get('k') in ('ctor', 'init', 'call', 'mcall', 'temp') and not types[r['t']].endswith('&') and r.get('vc') != 'l'

        def emit(kind, e, d):
            if kind in ('read', 'return', 'alias') and not (e.get('k') == 'mem' and e.get('cls') == CONFIG):
                return
            t = strip_cvref(types[e['t']]) if isinstance(e.get('t'), int) else ''
            field = e.get('k') == 'mem' and e.get('cls') == CONFIG
            whole = t == CONFIG and e.get('k') != 'mem'
            if not field and not whole:
                return
            if e.get('l') in seen:
                return
            if local_copy(e):
                return
            if whole:
                if kind == 'self':
                    pass
                elif kind == 'pass' and isinstance(d, tuple) and d[0].get('ext') or kind == 'addr' and isinstance(d, tuple):
                    pass
                elif kind == 'write':
                    if isinstance(d, dict) and d.get('k') == 'bin' and EF.root(d['a'])[0] is not e and EF.root(d['a'])[1]:
                        return
                else:
                    return
            seen.add(e.get('l'))
            R.bad('uses', 'config:%s:%s' % (f['q'], e.get('f', '*')), '%s:%s in %s' % (short(f.get('file')), e.get('l'), f['q']), 'the library modifies %s (%s)' % (
                'the configuration field ' + e['f'] if field else 'the configuration', kind))
        EF.Uses(f, emit)
        for n in EF.fn_nodes(f):
            if n.get('k') == 'mem' and n.get('cls') == CONFIG:
                R.good('uses', '%s reads %s' % (f['q'], n['f']))
                R.funcs.add((view, f['q']))


def frozen(R, view, P):
    """variables with static storage whose initialiser depends on the configuration"""
    import effects as EF
    memo = {}

    def reads(f):
        u = f['usr']
        if u in memo:
            return memo[u]
        memo[u] = False
        r = False
        for n in EF.fn_nodes(f):
            if n.get('k') == 'mem' and n.get('cls') == CONFIG:
                r = True
                break
            c = n.get('callee') or {}
            g = P.funcs.get(c.get('usr'))
            if g is not None and g.get('cls') != CONFIG and reads(g):
                r = True
                break
        memo[u] = r
        return r

    def expr_reads(e):
        for n in EF.walk(e):
            if n.get('k') == 'mem' and n.get('cls') == CONFIG:
                return True
            g = P.funcs.get((n.get('callee') or {}).get('usr'))
            if g is not None and g.get('cls') != CONFIG and reads(g):
                return True
        return False
    for g in P.globals.values():
        if g.get('init') is None or strip_cvref(g['_tu'].types[g['t']]) == CONFIG:
            continue
        name = '%s%s' % (g['q'], ' of ' + g['fn'] if g.get('fn') else '')
        if expr_reads(g['init']):
            R.bad('static initialisers', 'frozen:' + g['n'], '%s:%s' % (short(g.get('file')), g.get('l')), 'the variable %s keeps the configuration of its first use' % name)
        else:
            R.good('static initialisers', name)


# ------------------------------------------------------------------ C28
def C28(R):
    import effects as EF
    import loader as LD
    R.rule('The public declarations (functions with parameter, result, default arguments, noexcept, const and static; fields and bases of public types; enumerators; constants) of the headers of the '
           'library and of the single header are compared in both directions. Every public function that is declared has a definition. In the single header every function with external linkage is '
           'inline or a template, no object has external linkage unless inline, no object with internal linkage is modifiable, and no inline function uses an object that exists once per translation '
           'unit. The translation unit that only includes the umbrella header declares all that any header of the library declares.')
    R.assume('functions with internal linkage that inline functions of the single header call are the same in each translation unit and have no state')
    L, S = load('lib'), load('single')
    a, b = interface(L, lambda f: (f or '').endswith('.h') and '/src/tomsolver/' in f), interface(S, lambda f: (f or '').endswith('tomsolver.h'))
    every = interface(L, lambda f: True, anon=True)
    for k in sorted(a, key=str):
        x, y = a[k], b.get(k)
        name = describe(k)
        if y is None:
            R.bad('same interface', 'missing:' + name, x['where'], 'the single header does not declare %s' % name)
            continue
        for n in x:
            if n in ('where', 'defined', 'src'):
                continue
            if x[n] != y.get(n):
                R.bad('same interface', 'differs:%s:%s' % (name, n), y['where'], '%s: %s is %s in the library and %s in the single header' % (name, n, x[n], y.get(n)))
            else:
                R.good('same interface', '%s: %s' % (name, n))
        if k[0] == 'function':
            R.good('same interface', name)
    for k in sorted(b, key=str):
        if k not in a and k not in every and k[1] in {x[1] for x in a}:
            name = describe(k)
            R.bad('same interface', 'extra:' + name, b[k]['where'], 'only the single header declares %s' % name)
    for view, D in (('lib', a), ('single', b)):
        for k, x in D.items():
            if k[0] != 'function':
                continue
            if x['defined'] is False:
                R.bad('definitions', 'undefined:' + describe(k), x['where'], '%s is declared but defined nowhere' % describe(k))
            else:
                R.good('definitions', describe(k))
    # one definition per program
    for f in S.funcs.values():
        if f.get('body') is None or not (f.get('file') or '').endswith('tomsolver.h'):
            continue
        where = '%s:%s in %s' % (short(f.get('file')), f.get('l'), f['q'])
        R.funcs.add(('single', f['q']))
        ext = not f.get('anon') and f.get('ext_linkage')
        if ext and not (f.get('inline') or f.get('inst') or f.get('constexpr') or f.get('implicit')):
            R.bad('one definition', 'noninline:' + f['q'], where, '%s is defined in the single header but not inline: two translation units that include it do not link' % f['q'])
        else:
            R.good('one definition', f['q'])
        if not ext and not f.get('anon') and not f.get('cls') and f['q'] in {k[1] for k in a}:
            R.bad('one definition', 'static:' + f['q'], where, '%s has internal linkage in the single header' % f['q'])
        for n in EF.fn_nodes(f):
            if ext and n.get('k') == 'ref' and n.get('dk') == 'global' and not n.get('ext') and not n.get('rd'):
                g = [g for g in S.globals.values() if g['q'] == n.get('q') and not g.get('static_local')]
                if g and not g[0].get('ext_linkage') and not (g[0].get('fn')):
                    R.bad('one definition', 'perunit:%s' % g[0]['n'], '%s:%s in %s' % (short(f.get('file')), n.get('l'), f['q']), 'the inline function %s uses %s, which exists once per translation unit '
                          '(and may not be initialised there)' % (f['q'], g[0]['q']))
                else:
                    R.good('one definition')
    for g in S.globals.values():
        if g.get('static_local') or not (g.get('file') or '').endswith('tomsolver.h'):
            if g.get('static_local') and g.get('fn'):
                fs = [f for f in S.funcs.values() if f['q'] == g['fn'] and f.get('body') is not None]
                if fs and not fs[0].get('ext_linkage') and not g.get('const'):
                    R.bad('one definition', 'perunit:' + g['n'], '%s:%s' % (short(g.get('file')), g.get('l')), 'the static variable of %s exists once per translation unit' % g['fn'])
            continue
        where = '%s:%s' % (short(g.get('file')), g.get('l'))
        if g.get('ext_linkage') and g.get('def') and not g.get('inline') and not g.get('member'):
            R.bad('one definition', 'object:' + g['q'], where, 'the object %s is defined in the single header with external linkage' % g['q'])
        elif not g.get('ext_linkage') and not g.get('const'):
            R.bad('one definition', 'object:' + g['q'], where, 'each translation unit that includes the single header has its own modifiable %s' % g['q'])
        else:
            R.good('one definition', g['q'])
    # the umbrella header
    for view, inc, D in (('lib', os.path.join(LD.REPO, 'src'), a), ('single', os.path.join(LD.REPO, 'single', 'include'), b)):
        try:
            d = LD.export(os.path.join(LD.HERE, 'tool', 'umbrella.cpp'), ['-DNDEBUG', '-I' + inc])
        except AnalysisBroken as ex:
            R.bad('umbrella header', 'compile:' + view, inc, 'a program that only includes tomsolver/tomsolver.h (twice) is ill-formed: %s' % str(ex)[-300:])
            continue
        U = LD.Program(view, [LD.TU(d, 'umbrella.cpp')])
        u = interface(U, lambda f: True)
        for k, x in D.items():
            if k not in u:
                R.bad('umbrella header', 'umbrella:' + describe(k), x['where'], 'tomsolver/tomsolver.h does not make %s available' % describe(k))
            else:
                R.good('umbrella header', describe(k))


def describe(k):
    if k[0] in ('function', 'template'):
        return '%s(%s)%s' % (k[1], ', '.join(str(x).replace('std::basic_string<char>', 'std::string').replace('std::unique_ptr<tomsolver::internal::NodeImpl>', 'Node') for x in k[2]), ' const' if k[3] else '')
    return '%s %s' % (k[0], k[1])


def plain(e, types):
    """an expression without positions, for comparison"""
    if isinstance(e, dict):
        return tuple(sorted((k, types[v] if k == 't' and isinstance(v, int) else plain(v, types)) for k, v in e.items() if k not in ('l', 'd', 'callee', '_tu', 'clst')) ) + ((e['callee'].get('q'),) if isinstance(e.get('callee'), dict) else ())
    if isinstance(e, list):
        return tuple(plain(x, types) for x in e)
    return e


def interface(P, where_ok, anon=False):
    out = {}
    defined = {}
    # out-of-class definitions by usr, so that declarations know their definition
    for f in P.all_defs:
        if f.get('body') is not None or f.get('defaulted') or f.get('deleted'):
            defined[f['usr']] = f
    for f in P.decls + P.all_defs:
        if not f['q'].startswith('tomsolver') or f.get('implicit') or f.get('inst'):
            continue
        if '(anonymous' in f['q'] or '(lambda' in f['q'] or '(' in f['q'].replace('operator()', ''):
            continue
        if not where_ok(f.get('file')):
            continue
        if not anon and (f.get('access') in ('private', 'protected') or f.get('anon')):
            continue
        if not anon and '::internal::' in f['q'] and not f['q'].startswith('tomsolver::internal::NodeImpl'):
            continue
        types = f['_tu'].types
        ts = tuple(types[s['t']] for s in f['sig'])
        if f.get('template'):
            k = ('template', f['q'], tuple(range(len(ts))), bool(f.get('const')))
            out.setdefault(k, dict(where='%s:%s' % (short(f.get('file')), f.get('l') or f.get('dl')), noexcept=bool(f.get('expl_noexcept'))))
            continue
        k = ('function', f['q'], ts, bool(f.get('const')))
        x = out.setdefault(k, dict(where='%s:%s in %s' % (short(f.get('file')), f.get('l') or f.get('dl'), f['q']), defined=False, defaults=[None] * len(ts)))
        if isinstance(f.get('ret'), int):
            x['result'] = types[f['ret']]
        x['static'] = bool(f.get('static')) and bool(f.get('cls'))
        x['virtual'] = bool(f.get('virtual'))
        x['deleted'] = bool(f.get('deleted'))
        if not f.get('defaulted'):
            x['noexcept'] = bool(f.get('noexcept'))
        if f.get('usr') in defined:
            x['defined'] = True
        for i, s in enumerate(f['sig']):
            if s.get('def') is not None:
                x['defaults'][i] = plain(s['def'], types)
    for r in P.records.values():
        if not r['q'].startswith('tomsolver') or '(' in r['q'] or not where_ok(r.get('file')):
            continue
        if '::internal::' in r['q'] and r['q'] != NI and not anon:
            continue
        types = r['_tu'].types
        out[('type', r['q'])] = dict(where='%s:%s' % (short(r.get('file')), r.get('l')), bases=tuple(r.get('bases') or ()),
                                     fields=tuple(sorted((x['n'], types[x['t']]) for x in r['fields'] if x.get('access') == 'public')))
    for e in P.enums.values():
        if not e['q'].startswith('tomsolver') or '(' in e['q'] or not where_ok(e.get('file')) or '::internal::' in e['q'] and not anon:
            continue
        out[('enumeration', e['q'])] = dict(where=short(e.get('file')), enumerators=tuple((x['n'], int(x['v'])) for x in e['e']))
    for g in P.globals.values():
        if g.get('static_local') or not g['q'].startswith('tomsolver') or '(' in g['q'] or not where_ok(g.get('file')):
            continue
        out[('object', g['q'])] = dict(where='%s:%s' % (short(g.get('file')), g.get('l')), type=g['_tu'].types[g['t']], value=g.get('cv'))
    return out


# ------------------------------------------------------------------ C01
def C01(R):
    import escape as ES
    R.rule('The exceptions that can leave each function are computed over the whole call graph: throw expressions, throwing functions of the standard library, calls (lambdas where they are created, '
           'functions where they are named), minus what handlers on the way catch by class hierarchy. The set must be empty for each function, lambda and destructor that is declared not to throw. '
           'A throw whose condition only concerns shapes of matrices is decided by interpreting the non-throwing function with operands of all small shapes.')
    R.assume('exceptions for lack of memory or excessive sizes (bad_alloc, length_error) and of stream buffers are out of scope; the literal regular expressions of the library are well-formed; '
             'the standard library calls user-defined operators only as far as these are visible as callees')
    for view, P, N in views(True):
        X = ES.Escape(P)
        X.solve()
        R.count('functions in the call graph', len(X.memo))
        for f in P.funcs.values():
            if f.get('body') is None and not f.get('inits'):
                continue
            R.funcs.add((view, f['q']))
            if not f.get('noexcept'):
                R.count('functions that may throw', 1 if X.of(f) else 0)
                continue
            where = '%s:%s in %s' % (short(f.get('file')), f.get('l'), f['q'])
            if not X.of(f):
                R.good('non-throwing functions', f['q'])
            for (b, origin), (chain, guard) in X.of(f).items():
                g = origin_guard(X, b, origin)
                if ES.shape_guard(g) and no_throw_shapes(R, view, P, N, f):
                    R.good('non-throwing functions', '%s: %s is not raised for any shape' % (f['q'], b[0]))
                    continue
                R.bad('non-throwing functions', 'throws:%s:%s' % (f['q'], b[0]), where, '%s is declared not to throw, but %s can leave it: %s' % (
                    f['q'], 'any exception' if b[0] == '*' else b[0], ' <- '.join(short(x) for x in chain)))
        for f, e, inner in X.lambdas.values():
            b = list(inner)[0][0]
            R.bad('non-throwing functions', 'lambda:%s' % f['q'], '%s:%s in %s' % (short(f.get('file')), e.get('l'), f['q']), 'a lambda that is declared not to throw can raise %s' % b[0])


def origin_guard(X, b, origin):
    for m in X.memo.values():
        v = m.get((b, origin))
        if v and v[1]:
            return v[1]
    return None


def no_throw_shapes(R, view, P, N, f):
    """interprets f with matrices of all small shapes: does any trace end in an exception?"""
    ts = [f['_tu'].types[s['t']] for s in f['sig']]

    def mk(I, t, r, c):
        b = strip_cvref(t)
        if b in ('tomsolver::SymVec', 'tomsolver::SymMat'):
            vec = b.endswith('SymVec')
            return MX.mk_sym(I, N, api, r, 1 if vec else c, cls=b)
        if b in (MX.MAT, VEC):
            return MX.mk_mat(I, r, 1 if b == VEC else c, 'm', b)
        return value_for(I, P, N, t, 0)
    done = 0
    api = MX.Api(P)
    for r in (1, 2, 3):
        for c in (1, 2, 3):
            I = Interp(P, stubs={NT: stub_tostring}, opts=dict(static_hook=sym_config(P), max_paths=200))

            def body(I):
                this = mk(I, f['cls'], r, c) if f.get('cls') and not f.get('static') and not f.get('ctor') else None
                args = [mk(I, t, r, c) for t in ts]
                if f.get('ctor'):
                    return I.construct_with(f, f['cls'], args)
                return I.call_fn(f, this, args)
            try:
                for o in I.explore(body):
                    if o.kind in ('throw', 'undecided') or o.kind == 'crash' and 'not to throw' in str(o.value):
                        return False
                    done += 1
            except Undecided:
                return False
            R.seen(I)
    return done > 0


# ------------------------------------------------------------------ C02
LOW, HIGH = 8, 16
SMOOTH = ['MATH_ADD', 'MATH_MULTIPLY', 'MATH_SUB', 'MATH_DIVIDE', 'MATH_POWER']
BINARY = SMOOTH + ['MATH_AND', 'MATH_OR', 'MATH_MOD']


def combs(h):
    """expressions of height h whose depth lies on one side, on alternating sides, in a chain of unary operators"""
    from checks.tables import FUNC
    y, out = ('v', 'y'), {}

    def chain(ops, side):
        t = ('v', 'x')
        for i in range(h):
            o, k = ops[i % len(ops)], ('v', 'y%d' % (i % 3))
            t = (o, t, k) if side(i) else (o, k, t)
        return t
    out['left'] = chain(SMOOTH, lambda i: True)
    out['left (all operators)'] = chain(BINARY, lambda i: True)
    out['right'] = chain(SMOOTH, lambda i: False)
    out['right (all operators)'] = chain(BINARY, lambda i: False)
    out['alternating'] = chain(['MATH_ADD', 'MATH_MULTIPLY'], lambda i: i % 2)
    un = ['MATH_NEGATIVE', 'MATH_POSITIVE'] + sorted(FUNC)
    t = ('v', 'x')
    for i in range(len(un) * h // LOW):
        t = (un[i % len(un)], t)
    out['unary'] = t
    t = ('v', 'x')
    for i in range(h):
        t = ('MATH_SIN', t)
    out['one function'] = t
    t = ('n', 2)
    for i in range(h):
        t = ('MATH_ADD', t, ('n', i % 5 + 1))
    out['numbers'] = t
    return out


def long_texts(h):
    out = {'parentheses': '(' * h + 'x' + ')' * h, 'signs': '-' * h + 'x', 'sum': '+'.join(['x'] * (h + 1)), 'powers': '^'.join(['x'] * (h + 1)),
           'functions': 'sin(' * h + 'x' + ')' * h, 'open parentheses': '(' * h, 'identifier': 'a' * (4 * h), 'number': '1' * (2 * h), 'blanks': ' ' * h + 'x', 'mixed': 'x*(y+' * h + '1' + ')' * h,
           'operators': 'x' + '+*' * h, 'missing operands': '+'.join(['()'] * h)}
    return out


def C02(R):
    import logflow as LF
    import effects as EF
    R.rule('Every public operation with an expression or text operand is interpreted (destructors included) with operands of two heights: left, right, alternating and unary chains, and long texts of '
           'each kind; the largest number of simultaneously active calls and destructions must be the same for both heights. No text of unbounded length is handed to the recursive matcher of '
           'regular expressions. Calls of a function by itself (over the call graph) are reported when a public operation reaches them and expressions are involved.')
    R.assume('an operation whose call depth is the same for heights %d and %d has a depth that does not depend on the height; the iterative solvers are covered through the operations they call' % (LOW, HIGH))
    lib = load('lib')
    jobs = []
    for view, P, N in views(True):
        fs = []
        for f in LF.roots(P, lib):
            if f.get('implicit') or f.get('dtor') or f['q'].split('::')[-1] in ('Solve', 'SolveByLM', 'SolveByNewtonRaphson', 'Armijo', 'FindAlpha'):
                continue
            ts = [f['_tu'].types[s['t']] for s in f['sig']]
            if any('NodeImpl' in t or 'SymMat' in t or 'SymVec' in t for t in ts) or (f.get('cls') or '') in (NI, 'tomsolver::SymMat', 'tomsolver::SymVec'):
                fs.append(f)
        for f in fs:
            for shape in combs(2):
                jobs.append(lambda S, a=(view, P, N, f, shape): depth_case(S, *a))
        for shape in combs(2):
            jobs.append(lambda S, a=(view, P, N, None, shape): depth_case(S, *a))
        for f in LF.roots(P, lib):
            if f['q'] in ('tomsolver::Parse', 'tomsolver::VarNameIsLegal', 'tomsolver::Var') or 'operator""' in f['q']:
                for kind in long_texts(2):
                    jobs.append(lambda S, a=(view, P, N, f, kind): text_depth(S, *a))
        regexes(R, view, P)
        cycles(R, view, P, lib)
    pmap(R, jobs)


def depth_case(R, view, P, N, f, shape):
    import trees as TR
    ts = [f['_tu'].types[s['t']] for s in f['sig']] if f else []
    name = '%s(%s)%s' % (f['q'], ', '.join(t.split('::')[-1] for t in ts), ' const' if f.get('const') else '') if f else 'destruction of an expression'
    deep, where = {}, {}
    for h in (LOW, HIGH):
        tree = combs(h)[shape]
        I = Interp(P, stubs={NT: stub_tostring}, opts=dict(static_hook=sym_config(P, fixed={'throwOnInvalidValue': False, 'logLevel': 0}), max_paths=12, fuel=400000, total=800000, run_dtors=True, depth=190))
        if f is not None and f['q'].endswith('SolveLinear'):
            return

        def body(I):
            args, this = [], None
            if f is None:
                c = Cell(UPtr(TR.build(N, tree)), typ=NODE)
                I.destroy(c)
                return None
            if f.get('cls') and not f.get('static') and not f.get('ctor'):
                this = value_for(I, P, N, f['cls'], 9, tree)
            args = [value_for(I, P, N, t, i, tree) for i, t in enumerate(ts)]
            if f.get('ctor'):
                return I.construct_with(f, f['cls'], args)
            return I.call_fn(f, this, args)
        m = 0
        first = [None]

        def watch(I):
            try:
                r = body(I)
                if isinstance(r, UPtr):
                    I.destroy(Cell(r, typ=NODE))
            finally:
                first.append((I.max_depth + I.max_dtor, getattr(I, 'deepest', [])))
        try:
            res = I.explore(watch)
        except Undecided as u:
            R.undecided('depth', '%s %s %s' % (view, name, shape), str(u))
            return
        for o in res:
            if o.kind == 'undecided' and o.exc != 'too many traces':
                if o.exc == 'call depth' or 'recursion' in (o.exc or ''):
                    first.append((1000, getattr(I, 'deepest', [])))
                    continue
                R.undecided('depth', '%s %s %s height %d' % (view, name, shape, h), '%s (%s)' % (o.exc, o.where))
                return
        deep[h], where[h] = max(first[1:], key=lambda x: x[0])
        R.seen(I)
    if deep[HIGH] > deep[LOW]:
        chain = where[HIGH][-4:]
        w = '%s:%s in %s' % (short(f.get('file')), f.get('l'), f['q']) if f else '~NodeImpl'
        R.bad('depth', 'depth:' + (f['q'].split('::')[-1] if f else 'destructor'), w, '%s: the call depth grows with the height of the expression (%s chain: %d at height %d, %s at height %d): ... %s' % (
            name, shape, deep[LOW], LOW, deep[HIGH] if deep[HIGH] < 1000 else 'unbounded', HIGH, ' > '.join(str(x) for x in chain)))
    else:
        R.good('depth', '%s, %s chain: depth %d' % (name, shape, deep[HIGH]))


def text_depth(R, view, P, N, f, kind):
    from checks import parser as PA
    t = f['_tu'].types[f['sig'][0]['t']]
    name = '%s of long texts (%s)' % (f['q'], kind)
    deep = {}
    last = {}
    for h in (LOW, HIGH):
        text = long_texts(h)[kind]
        I = Interp(P, stubs={NT: stub_tostring}, opts=dict(static_hook=sym_config(P, fixed={'throwOnInvalidValue': False, 'logLevel': 0}), max_paths=12, fuel=400000, total=800000, run_dtors=True, depth=190))
        got = []

        def body(I):
            b = strip_cvref(t)
            if 'StringView' in b:
                args = [Cell(PA.sview(I, text))]
            elif 'basic_string' in b:
                args = [Cell(text)]
            else:
                args = [Cell(Iter(text, 0)), len(text)][:len(f['sig'])]
            try:
                r = I.call_fn(f, None, args)
                if isinstance(r, UPtr):
                    I.destroy(Cell(r, typ=NODE))
            finally:
                got.append((I.max_depth + I.max_dtor, getattr(I, 'deepest', [])))
        for o in I.explore(body):
            if o.kind == 'undecided':
                if o.exc == 'call depth' or 'recursion' in (o.exc or ''):
                    got.append((1000, getattr(I, 'deepest', [])))
                    continue
                R.undecided('depth', '%s %s' % (view, name), '%s (%s)' % (o.exc, o.where))
                return
        deep[h], last[h] = max(got, key=lambda x: x[0])
        R.seen(I)
    if deep[HIGH] > deep[LOW]:
        R.bad('depth', 'depth:' + f['q'].split('::')[-1], '%s:%s in %s' % (short(f.get('file')), f.get('l'), f['q']), '%s: the call depth grows with the length of the text (%d, then %s): ... %s' % (
            name, deep[LOW], deep[HIGH] if deep[HIGH] < 1000 else 'unbounded', ' > '.join(str(x) for x in last[HIGH][-4:])))
    else:
        R.good('depth', '%s: depth %d' % (name, deep[HIGH]))


def regexes(R, view, P):
    import effects as EF
    for f in P.funcs.values():
        if f.get('body') is None:
            continue
        ds = None
        for n in EF.fn_nodes(f):
            c = n.get('callee') or {}
            if n.get('k') == 'call' and (c.get('q') or '').split('<')[0] in ('std::regex_match', 'std::regex_search', 'std::regex_replace'):
                ds = ds or EF.decls_of(f)
                a = n['args'][0]
                r, _ = EF.root(a)
                while r.get('k') == 'cast' or r.get('k') == 'ctor' and r.get('args'):
                    r = r['e'] if r['k'] == 'cast' else r['args'][0]
                t = ds[r['d']][1] if r.get('k') == 'ref' and r.get('d') in ds else ''
                if '[' in t:
                    R.good('regular expressions', '%s: text in an array of fixed size' % f['q'])
                else:
                    R.bad('regular expressions', 'regex:' + f['q'], '%s:%s in %s' % (short(f.get('file')), n.get('l'), f['q']), 'a text of any length is matched by %s, whose depth of calls grows with the text' % c['q'])


def cycles(R, view, P, lib):
    """functions that call themselves, over the call graph of what public operations reach"""
    import networkx as nx
    import effects as EF
    import logflow as LF
    G = nx.DiGraph()
    for f in P.funcs.values():
        G.add_node(f['usr'])
        for n in EF.fn_nodes(f):
            c = n.get('callee') or (n if n.get('k') == 'ref' and n.get('dk') == 'func' else {})
            if c.get('usr') in P.funcs:
                G.add_edge(f['usr'], c['usr'])
    reach = set()
    for f in LF.roots(P, lib):
        if f['usr'] not in reach:
            reach |= nx.descendants(G, f['usr']) | {f['usr']}
    R.count('functions reached by public operations', len(reach))
    for comp in nx.strongly_connected_components(G):
        if not comp & reach or len(comp) == 1 and not any(G.has_edge(x, x) for x in comp):
            continue
        fs = [P.funcs[u] for u in comp]
        sig = ' '.join(f['_tu'].types[s['t']] for f in fs for s in f['sig']) + ' '.join(f.get('cls') or '' for f in fs)
        if any(x in sig for x in ('NodeImpl', 'Token', 'StringView', 'SymMat')):
            f = fs[0]
            R.bad('call graph', 'cycle:' + f['q'], '%s:%s in %s' % (short(f.get('file')), f.get('l'), f['q']), 'recursion over %s' % ', '.join(sorted(x['q'] for x in fs)))
        else:
            R.count('recursive functions that do not handle expressions')
    R.good('call graph', n=len(reach))


# ------------------------------------------------------------------ C38
DEEPRUN = os.environ.get('VERIF_DEEP') == '1'
def C38(R):
    import logflow as LF
    R.rule('Every public operation is interpreted once per log level on the same symbolic operands and along the same trace (a decision made at one level holds at the next), and the jumps in loops are collected per level: the jumps, the result, the exception, '
           'what is left in the operands and whether the operation ends must be the same at every level as with logging off.')
    R.assume('the iterative solvers are followed up to two iterations with an arbitrary solution of each linear system')
    jobs = []
    lib = load('lib')
    for view, P, N in views(True):
        en = P.enums.get('tomsolver::LogLevel')
        if en is None or not any(x['n'] == 'OFF' for x in en['e']):
            R.undecided('anchors', view, 'LogLevel')
            continue
        off = [int(x['v']) for x in en['e'] if x['n'] == 'OFF'][0]
        levels = [off] + [v for v in sorted(int(x['v']) for x in en['e']) if v != off]
        for f in LF.roots(P, lib):
            if f.get('implicit') or f.get('dtor') or (f.get('cls') or '') == CONFIG:
                continue
            jobs.append(lambda S, a=(view, P, N, f, levels): level_case(S, *a))
    pmap(R, jobs)


def deep(v, seen=None, depth=0):
    """the value with everything it owns; pointers by the order in which their targets were met"""
    seen = {} if seen is None else seen
    d = lambda x: deep(x, seen, depth + 1)
    if isinstance(v, Cell):
        if id(v) in seen:
            return ('again', seen[id(v)])
        seen[id(v)] = len(seen)
        return d(v.v)
    if isinstance(v, UPtr):
        return ('u', None if v.cell is None else d(v.cell))
    if isinstance(v, Ptr):
        return ('p', None if v.cell is None else seen.get(id(v.cell), 'elsewhere'))
    if isinstance(v, Obj):
        if id(v) in seen:
            return ('again', seen[id(v)])
        seen[id(v)] = len(seen)
        return (v.cls,) + tuple((k, d(c)) for k, c in sorted(v.f.items()) if k not in v.refs)
    if isinstance(v, Seq):
        return ('s',) + tuple(d(c) for c in v.items)
    if isinstance(v, MapV):
        return ('m',) + tuple((d(k), None if c is None else d(c)) for k, c in v.items)
    if isinstance(v, Tup):
        return ('t',) + tuple(d(c) for c in v.cells)
    if isinstance(v, Stream):
        return ('o', mkstr(v.p))
    if isinstance(v, Iter):
        return ('i', v.i if hasattr(v, 'i') else None)
    if v is None or isinstance(v, (str, bool, int, Fraction, Atom, T.Poly)):
        return v
    if isinstance(v, float):
        return repr(v)
    if isinstance(v, (tuple, list)):
        return tuple(d(x) for x in v)
    return type(v).__name__


def set_level(I, P, level):
    c = config_obj(I)
    if c is None:
        I.call_fn(pick(P, CONFIG + '::Get', []), None, [])
        c = config_obj(I)
    c.f['logLevel'].v = level


def some_alpha(I, f, this, args):
    I.path.notes.append('search')
    return sym('alpha%d' % len(I.path.notes))


def level_jumps(R, view, P, f, levels):
    """loops are left and continued at the same places at every level"""
    import logflow as LF
    fl = []
    for v in levels:
        w = LF.Flow(P, v)
        w.visit(f, ())
        fl.append(w)
    names = {int(x['v']): x['n'] for x in P.enums['tomsolver::LogLevel']['e']}
    for u in [f['usr']]:
        for k in sorted(set(k for w in fl for k in w.jumps.get(u, {})), key=str):
            sets = [w.jumps.get(u, {}).get(k, set()) for w in fl]
            bad = None
            for i in range(1, len(levels)):
                more, less = sets[i] - sets[0], sets[0] - sets[i]
                if bool(more) != bool(less):
                    bad = bad or (sorted(more or less)[0], levels[i], 'only' if more else 'not')
            if bad:
                R.bad('jumps', 'jump:' + f['q'].split('::')[-1], '%s:%s in %s' % (short(f.get('file')), bad[0], f['q']), 'the %s in the loop at line %s is %s taken at level %s and above' % (k[1], k[0], bad[2], names[bad[1]]))
            else:
                R.good('jumps', '%s: %s in the loop at line %s' % (f['q'], k[1], k[0]))


def level_case(R, view, P, N, f, levels):
    ts = [f['_tu'].types[s['t']] for s in f['sig']]
    key = f['q'].split('::')[-1]
    name = '%s(%s)%s' % (f['q'], ', '.join(t.split('::')[-1] for t in ts), ' const' if f.get('const') else '')
    numeric = ('MATH_SUB', ('MATH_MULTIPLY', ('n', 2), ('n', 3)), ('MATH_NEGATIVE', ('n', 1)))
    invalid = ('MATH_ADD', ('MATH_DIVIDE', ('n', 1), ('n', 0)), ('MATH_LOG', ('n', -1)))
    touches = any('NodeImpl' in t or 'Sym' in t for t in ts) or (f.get('cls') or '') in (NI, 'tomsolver::SymMat', 'tomsolver::SymVec')
    stubs = {NT: stub_tostring, 'tomsolver::SolveLinear': slow_solver(P), 'tomsolver::Armijo': some_alpha}
    stubs.pop(f['q'], None)
    names = {v: x['n'] for x in P.enums['tomsolver::LogLevel']['e'] for v in [int(x['v'])]}
    sized = any(t.split('::')[-1].rstrip(' &') in ('Mat', 'Vec') for t in ts + [f.get('cls') or ''])
    cut = False
    for tree in ([None, numeric, invalid, ('v', 'x')] if touches else [None]) + ([1, 3] if sized else []):
        I = Interp(P, stubs=stubs, opts=dict(static_hook=sym_config(P, fixed={'maxIterations': 1, 'epsilon': Fraction(1, 1000)}), max_paths=400 if DEEPRUN else 120, fuel=400000, total=2400000 if DEEPRUN else 900000))

        def once(I, level, tree):
            set_level(I, P, level)
            del I.path.notes[:]
            this = None
            I.size = tree if isinstance(tree, int) else 2
            tree = None if isinstance(tree, int) else tree
            if f.get('cls') and not f.get('static') and not f.get('ctor'):
                this = value_for(I, P, N, f['cls'], 9, tree)
            args = [value_for(I, P, N, t, i, tree) for i, t in enumerate(ts)]
            try:
                if f.get('ctor'):
                    r = I.construct(f['cls'], args, ['l' if t.endswith('&') and not t.endswith('&&') else 'x' for t in ts])
                else:
                    r = I.call_fn(f, this, args)
                how = ('returns', deep(r))
            except CppThrow as e:
                how = ('raises', e.cls, deep(e.val))
            except Crash as e:
                how = ('ends in undefined behaviour',)
            return how + (('operands', deep(this), tuple(deep(a) for a in args)),)

        def body(I, tree=tree):
            first = once(I, levels[0], tree)
            for v in levels[1:]:
                n = len(I.path.log)
                x = once(I, v, tree)
                if x != first:
                    if x[0] != first[0]:
                        what = '%s at level %s, but %s with logging off' % (x[0], names[v], first[0])
                    elif x[:-1] != first[:-1]:
                        what = '%s something else at level %s than with logging off' % (x[0], names[v])
                    else:
                        what = 'leaves its operands different at level %s from with logging off' % names[v]
                    return what
            return None
        for o in I.explore(body):
            w = short(o.where or '%s:%s in %s' % (f.get('file'), f.get('l'), f['q']))
            if o.kind == 'undecided':
                if o.exc == 'too many traces' or 'does not converge' in (o.exc or ''):
                    R.count('operations whose traces are cut off (iterative solvers)')
                    cut = True
                    continue
                if (o.exc or '').startswith(('parameter of type', 'constructor of')):
                    R.count('internal operations that are only followed from their callers')
                    continue
                R.undecided('levels', view + ' ' + name, '%s (%s)' % (o.exc, o.where))
            elif o.kind == 'return' and o.value:
                R.bad('levels', 'level:' + key, w, '%s %s [%s]' % (name, o.value, o.desc()[:200]))
            elif o.kind == 'return':
                R.good('levels', name)
            else:
                R.undecided('levels', view + ' ' + name, '%s %s' % (o.kind, o.value))
        R.seen(I)
    if cut:
        level_jumps(R, view, P, f, levels)


# ------------------------------------------------------------------ C41
def C41(R):
    import logflow as LF
    R.rule('Every public operation is interpreted with operands that make it fail (expressions with free variables, without a valid value, with operators that cannot be differentiated, singular and non-square systems, '
           'matrices of different sizes) and arbitrary ones; on every trace that raises an error, every object the caller still holds must be usable: expressions well-formed and as they were, matrices complete with each '
           'entry as it was or already computed, numeric matrices of consistent shape, tables consistent.')
    R.assume('an expression passed as a temporary is given up by the caller, also when the operation fails')
    jobs = []
    lib = load('lib')
    for view, P, N in views(True):
        for f in LF.roots(P, lib):
            if f.get('implicit') or f.get('dtor') or f.get('ctor'):
                continue
            jobs.append(lambda S, a=(view, P, N, f): failed_case(S, *a))
    pmap(R, jobs)


FAILING = [None, ('MATH_ADD', ('MATH_DIVIDE', ('n', 1), ('n', 0)), ('MATH_LOG', ('n', -1))), ('v', 'x'), ('MATH_ADD', ('MATH_MULTIPLY', ('v', 'x'), ('n', 2)), ('MATH_LOG', ('n', -1))),
           ('MATH_MULTIPLY', ('MATH_SIN', ('v', 'x')), ('MATH_MOD', ('v', 'x'), ('v', 'y'))), ('MATH_POWER', ('v', 'x'), ('MATH_AND', ('v', 'y'), ('v', 'x'))),
           ('MATH_SIN', ('MATH_OR', ('MATH_MULTIPLY', ('v', 'x'), ('v', 'y')), ('n', 3))), ('MATH_DIVIDE', ('n', 'a'), ('n', 'b'))]
FAILING[-1] = ('MATH_DIVIDE', ('n', sym('a')), ('n', sym('b')))


def usable(I, P, N, v, t, orig, api):
    """is what the caller holds usable?"""
    import trees as TR
    b = strip_cvref(t)
    x = v.v if isinstance(v, Cell) else v
    if b == NODE and isinstance(x, UPtr):
        if x.cell is None:
            return None if t.endswith('&&') or not t.endswith('&') else 'an expression is left empty'
        x = x.cell
        b = NI
        v = x
    if b == NI and isinstance(v, Cell):
        if v.freed:
            return 'an expression is released'
        d = N.well_formed(I, v)
        if d:
            return 'an expression is left broken: %s' % '; '.join(d)
        if orig is not None and not t.endswith('&&'):
            got = TR.term_of(I, N, v)
            if got != orig:
                return 'an expression is left as %s instead of %s' % (TR.text(got), TR.text(orig))
        return None
    if b in (MX.SMAT, MX.SVEC):
        ents = [e for row in api.sread(I, N, v)[2] for e in row]
        for e, o in zip(ents, orig or []):
            if e is None or e[0] == 'bad':
                return 'an entry of a matrix is left empty or broken'
            if e != o and e[0] != 'n':
                return 'an entry of a matrix is left as %s instead of %s' % (TR.text(e), TR.text(o))
        if orig and len(ents) != len(orig):
            return 'a matrix is left with %d entries instead of %d' % (len(ents), len(orig))
        return None
    if b in (MX.MAT, VEC):
        try:
            api.read(I, v)
        except Crash as e:
            return 'a matrix is left inconsistent: %s' % e.what
    return None


def failed_case(R, view, P, N, f):
    import trees as TR
    ts = [f['_tu'].types[s['t']] for s in f['sig']]
    key = f['q'].split('::')[-1]
    name = '%s(%s)%s' % (f['q'], ', '.join(t.split('::')[-1] for t in ts), ' const' if f.get('const') else '')
    touches = any('NodeImpl' in t or 'Sym' in t for t in ts) or (f.get('cls') or '') in (NI, MX.SMAT, MX.SVEC)
    sized = any(t.split('::')[-1].rstrip(' &') in ('Mat', 'Vec') for t in ts + [f.get('cls') or ''])
    try:
        api = MX.Api(P)
    except AnalysisBroken as e:
        R.undecided('anchors', view, str(e))
        return
    stubs = {NT: stub_tostring, 'tomsolver::SolveLinear': slow_solver(P), 'tomsolver::Armijo': some_alpha}
    stubs.pop(f['q'], None)
    good = ('MATH_SUB', ('n', 7), ('n', 2))
    mixed = [[good, FAILING[1]], [good, ('v', 'y'), good], [('v', 'x'), good], [FAILING[4], good, FAILING[3]], [good, FAILING[5]]]
    for tree in (FAILING if touches else [None]) + ([1, 3] if sized else []) + (mixed if any('Sym' in t for t in ts + [f.get('cls') or '']) else []):
        I = Interp(P, stubs=stubs, opts=dict(static_hook=sym_config(P, fixed={'maxIterations': 1, 'epsilon': Fraction(1, 1000), 'logLevel': 0}), max_paths=300, fuel=200000, total=900000))

        def body(I, tree=tree):
            this = None
            I.size = tree if isinstance(tree, int) else 2
            I.entries = tree if isinstance(tree, list) else None
            tree = None if isinstance(tree, (int, list)) else tree
            if f.get('cls') and not f.get('static'):
                this = value_for(I, P, N, f['cls'], 9, tree)
            args = [value_for(I, P, N, t, i, tree) for i, t in enumerate(ts)]
            held = [(a, t, original(I, P, N, a, t, api)) for a, t in zip(args, ts)]
            if this is not None:
                held.append((this, f['cls'] + ' &', original(I, P, N, this, f['cls'] + ' &', api)))
            try:
                I.call_fn(f, this, args)
            except CppThrow as e:
                return e.cls, [m for m in (usable(I, P, N, a, t, o, api) for a, t, o in held) if m]
            return None
        for o in I.explore(body):
            w = short(o.where or '%s:%s in %s' % (f.get('file'), f.get('l'), f['q']))
            if o.kind == 'undecided':
                if o.exc == 'too many traces' or 'does not converge' in (o.exc or '') or (o.exc or '').startswith(('parameter of type', 'constructor of')):
                    R.count('operations whose traces are cut off, or that are only followed from their callers')
                    continue
                R.undecided('failures', view + ' ' + name, '%s (%s)' % (o.exc, o.where))
            elif o.kind == 'crash':
                R.count('traces that end in undefined behaviour (other properties)')
            elif o.kind == 'return' and o.value is None:
                R.count('traces that do not fail')
            elif o.kind == 'return' and o.value[1]:
                R.bad('failures', 'failed:' + key, w, '%s raises %s and %s [%s]' % (name, o.value[0], '; '.join(o.value[1]), o.desc()[:160]))
            elif o.kind == 'return':
                R.good('failures', '%s raising %s' % (name, o.value[0]))
            else:
                R.undecided('failures', view + ' ' + name, str(o.value))
        R.seen(I)


def original(I, P, N, v, t, api):
    import trees as TR
    b = strip_cvref(t)
    x = v.v if isinstance(v, Cell) else v
    if b == NODE and isinstance(x, UPtr) and x.cell is not None:
        return TR.term_of(I, N, x.cell)
    if b == NI and isinstance(v, Cell):
        return TR.term_of(I, N, v)
    if b in (MX.SMAT, MX.SVEC):
        return [e for row in api.sread(I, N, v)[2] for e in row]
    return None
