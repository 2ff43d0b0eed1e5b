"""C03 well-formed trees, C12 operands left unchanged, C13 copies and equality, C14 substitution, C27 ownership.

Every public operation that takes or returns expressions is interpreted (destructors included) on small trees of every shape; each
scenario states what must come out, which operands must stay as they were, and is judged facet by facet."""
from checks.common import *
from checks import matrix as M
from checks import parser as PA
import trees as TR
from trees import n, v
import os

NA = 'const %s &' % NODE
NL = '%s &' % NODE
NR = '%s &&' % NODE
STR = 'const std::basic_string<char> &'
STUBS = {NT: stub_tostring}

SMALL = [n('a'), v('x'), ('MATH_SIN', v('x')), ('MATH_NEGATIVE', n('a')), ('MATH_SUB', v('x'), n('a')),
         ('MATH_POWER', ('MATH_ADD', v('x'), v('y')), ('MATH_LOG', v('z'))), ('MATH_MULTIPLY', n(2), ('MATH_DIVIDE', n('a'), v('x')))]
SPECIAL = [n(0), n(1), n(-1), n(2), n(-0.0), n(0.5)]
DEEP = [('MATH_ADD', ('MATH_ADD', ('MATH_ADD', v('x'), n('a')), v('y')), n('b')), ('MATH_MOD', v('x'), ('MATH_OR', v('y'), ('MATH_AND', n('a'), v('x')))),
        ('MATH_EXP', ('MATH_SQRT', ('MATH_POSITIVE', v('x')))), ('MATH_DIVIDE', ('MATH_COS', ('MATH_SUB', v('x'), v('y'))), ('MATH_TAN', ('MATH_MULTIPLY', v('x'), n('c'))))]
SHAPES = SMALL + DEEP
OPFUN = {'+': 'MATH_ADD', '-': 'MATH_SUB', '*': 'MATH_MULTIPLY', '/': 'MATH_DIVIDE', '^': 'MATH_POWER'}
FUNCS = {'sin': 'MATH_SIN', 'cos': 'MATH_COS', 'tan': 'MATH_TAN', 'asin': 'MATH_ARCSIN', 'acos': 'MATH_ARCCOS', 'atan': 'MATH_ARCTAN', 'sqrt': 'MATH_SQRT',
         'log': 'MATH_LOG', 'log2': 'MATH_LOG2', 'log10': 'MATH_LOG10', 'exp': 'MATH_EXP'}


def ren(t, s):
    """the same shape with its constants renamed"""
    if t[0] == 'n':
        return ('n', sym(repr(t[1]) + s)) if isinstance(t[1], T.Poly) else t
    if t[0] == 'v':
        return t
    return (t[0],) + tuple(ren(k, s) for k in t[1:])


class Out:
    """what a scenario produced: results (cells of nodes) with the expected trees, operands that must be unchanged"""

    def __init__(self):
        self.res, self.keep, self.msgs = [], [], []

    def result(self, what, c, want=None):
        self.res.append((what, c, want))
        return self

    def kept(self, what, cell, t):
        self.keep.append((what, cell, t))
        return self

    def say(self, facet, msg):
        self.msgs.append((facet, msg))
        return self


def node_of(x):
    """the node cell behind a result (prvalue unique_ptr, cell of one, or node)"""
    if isinstance(x, Cell):
        x = x.v if isinstance(x.v, UPtr) else x
    if isinstance(x, UPtr):
        return x.cell
    return x


def judge_out(I, N, o, facets):
    """messages of the requested facets"""
    out = []
    for facet, m in o.msgs:
        if facet in facets:
            out.append((facet, m))
    shapes = {}
    for what, x, want in o.res:
        c = node_of(x)
        d = N.well_formed(I, c, what)
        if d:
            released = [m for m in d if 'released' in m or 'shared' in m]
            if 'form' in facets:
                out.append(('form', '; '.join(d)))
            elif 'own' in facets and released:
                out.append(('own', '; '.join(released)))
            elif 'value' in facets:
                out.append(('value', '; '.join(d)))
            continue
        if want is not None and 'value' in facets:
            g = TR.term_of(I, N, c)
            if g != want:
                out.append(('value', '%s is %s instead of %s' % (what, TR.text(g), TR.text(want))))
    for what, cell, t in o.keep:
        c = node_of(cell)
        if c is None:
            if 'keep' in facets:
                out.append(('keep', '%s is emptied' % what))
            continue
        d = N.well_formed(I, c, what)
        if d:
            if 'keep' in facets or 'form' in facets:
                out.append(('keep', '; '.join(d)))
            elif 'own' in facets and any('released' in m or 'shared' in m for m in d):
                out.append(('own', '; '.join(d)))
            continue
        if 'keep' in facets:
            g = TR.term_of(I, N, c)
            if g != t:
                out.append(('keep', '%s is changed from %s to %s' % (what, TR.text(t), TR.text(g))))
    if 'keep' in facets or 'own' in facets:
        roots = [(w, node_of(x)) for w, x, _ in o.res] + [(w, node_of(x)) for w, x, _ in o.keep]
        roots = [(w, c) for w, c in roots if c is not None]
        seen = {}
        for w, c in roots:
            for k in N.cells(c):
                if id(k) in seen and seen[id(k)][0] != w and seen[id(k)][1] is not c:
                    out.append(('keep', '%s and %s share a node' % (seen[id(k)][0], w)))
                    break
                seen[id(k)] = (w, c)
    if 'own' in facets:
        for c, w in I.path.loose.values():
            if not c.freed:
                out.append(('own', 'an object that no owner holds is lost (%s)' % short(w)))
    return out


def scenario(R, view, P, N, group, key, name, f, run, facets, throws=False, cfg=None):
    # a throwing scenario returns its Out through the exception handler of run itself
    I = Interp(P, stubs=STUBS, opts=dict(run_dtors='own' in facets, static_hook=sym_config(P, fixed=cfg or {}), max_paths=600))

    def body(I):
        o = run(I)
        return judge_out(I, N, o, facets)
    w0 = '%s:%s in %s' % (f.get('file'), f.get('l'), f['q'])
    for o in I.explore(body):
        w = short(o.where or w0)
        if o.kind == 'undecided':
            R.undecided(group, view + ' ' + name, '%s (%s)' % (o.exc, o.where))
        elif o.kind == 'crash':
            R.bad(group, key, w, '%s: %s [%s]' % (name, o.value, o.desc()[:120]))
        elif o.kind == 'throw':
            R.bad(group, key, w, '%s raises %s' % (name, o.value.cls))
        elif o.value:
            for facet, m in o.value[:3]:
                R.bad(group, key, w, '%s: %s [%s]' % (name, m, o.desc()[:120]))
        else:
            R.good(group, name)
    R.seen(I)


# ------------------------------------------------------------------ scenarios
P1 = TR.patterns1()
P2 = TR.patterns2()
LARGE = TR.LARGE      # filled by views()
EQ = TR.equal_operands()
TRI = list(TR.triples())
DEEPRUN = bool(os.environ.get('VERIF_DEEP'))


def rota(k, step):
    """a part of the one-operator patterns, a different one for every k"""
    return P1 if DEEPRUN else P1[k % step::step]


def name(t):
    s = TR.text(t)
    return s if len(s) < 160 else s[:60] + '...(%d characters)' % len(s)


class Gen:
    """collects the scenarios of one view"""

    def __init__(self, R, view, P, N, facets):
        self.R, self.view, self.P, self.N, self.facets = R, view, P, N, facets
        N.unary_field = N.left
        self.jobs = []

    def want(self, q, sig=None, const=None):
        try:
            return pick(self.P, q, sig, const)
        except AnalysisBroken as e:
            self.R.undecided('anchors', self.view + ' ' + q, str(e))
            return None

    def add(self, group, key, name, f, run, cfg=None):
        a = (self.view, self.P, self.N, group, key, name, f, run, self.facets)
        self.jobs.append(lambda S: scenario(S, *a, cfg=cfg))

    def mk(self, t):
        return Cell(UPtr(TR.build(self.N, t)), typ=NODE)

    # ---- operators
    def operators(self):
        k = 0
        for s, op in OPFUN.items():
            q = 'tomsolver::operator' + s
            for lt in (NL, NR, NA):
                for rt in (NL, NR, NA):
                    f = self.want(q, [lt, rt])
                    if f is None:
                        continue
                    cases = [(a, ren(b, "'")) for a in SMALL for b in SMALL] if (lt, rt) in ((NL, NL), (NR, NR), (NR, NL)) else [
                        (a, ren(a, "'")) for a in SMALL]
                    k += 1
                    cases += [(a, a) for a in SMALL] + [(a, b) for a in (SPECIAL[k % len(SPECIAL)], v('x'), ('MATH_SUB', n(0), v('x')), ('MATH_NEGATIVE', v('y'))) for b in SPECIAL + [v('x')]]
                    cases += [(a, b) for b in (SPECIAL[k % len(SPECIAL)], ('MATH_NEGATIVE', v('x')), ('MATH_DIVIDE', n(1), v('x'))) for a in SPECIAL + [v('x')]]
                    some = rota(k, 5)
                    cases += [(a, ren(b, "'")) for a, b in zip(some, some[7:] + some[:7])]
                    if k % 9 == 4:
                        cases += [(LARGE[0], SMALL[1]), (SMALL[0], LARGE[1]), (LARGE[3], LARGE[4])]
                    for a, b in cases:
                        self.add('operators', 'operator' + s, 'operator%s(%s, %s) on %s and %s' % (s, cat(lt), cat(rt), name(a), name(b)), f,
                                 lambda I, f=f, a=a, b=b, lt=lt, rt=rt, op=op: self.binary(I, f, a, b, lt, rt, op))
                    if lt != NR and rt != NR:
                        for a in SMALL + rota(k, 9):
                            self.add('operators', 'operator' + s, 'n %s n on the same %s' % (s, TR.text(a)), f,
                                     lambda I, f=f, a=a, op=op: self.same(I, f, a, op))
            q += '='
            for rt in (NL, NR, NA):
                f = self.want(q, [NL, rt])
                if f is None:
                    continue
                k += 1
                some = rota(k, 5)
                for a, bs in [(a, SMALL) for a in SMALL] + [(a, SPECIAL) for a in [v('x'), SPECIAL[k % len(SPECIAL)]]] + [(a, [SPECIAL[k % len(SPECIAL)]]) for a in SMALL] + [(a, [b]) for a, b in zip(some, some[5:] + some[:5])]:
                    for b in bs:
                        self.add('compound assignment', 'operator%s=' % s, '%s %s= %s (%s)' % (TR.text(a), s, TR.text(b), cat(rt)), f,
                                 lambda I, f=f, a=a, b=ren(b, "'"), rt=rt, op=op: self.compound(I, f, a, b, rt, op))
                if rt != NR:
                    for a in SMALL + rota(k, 7):
                        self.add('compound assignment', 'operator%s=' % s, 'n %s= n on %s' % (s, TR.text(a)), f,
                                 lambda I, f=f, a=a, op=op: self.compound_self(I, f, a, op))
        for s, op in [('operator-', 'MATH_NEGATIVE'), ('operator+', 'MATH_POSITIVE')] + list(FUNCS.items()):
            for lt in (NL, NR, NA):
                f = self.want('tomsolver::' + s, [lt])
                if f is None:
                    continue
                k += 1
                for a in SMALL + SPECIAL + rota(k, 5) + LARGE[:k % 3]:
                    self.add('functions', s, '%s(%s %s)' % (s, cat(lt), name(a)), f,
                             lambda I, f=f, a=a, lt=lt, op=op: self.unary(I, f, a, lt, op))

    def binary(self, I, f, a, b, lt, rt, op):
        x, y = self.mk(a), self.mk(b)
        r = I.call_fn(f, None, [x, y])
        o = Out().result('result', r, (op, a, b))
        if lt != NR:
            o.kept('left operand', x, a)
        if rt != NR:
            o.kept('right operand', y, b)
        return o

    def same(self, I, f, a, op):
        x = self.mk(a)
        r = I.call_fn(f, None, [x, x])
        return Out().result('result', r, (op, a, a)).kept('the operand', x, a)

    def compound(self, I, f, a, b, rt, op):
        x, y = self.mk(a), self.mk(b)
        r = I.call_fn(f, None, [x, y])
        o = Out().result('the assigned expression', x, (op, a, b))
        if r is not x:
            o.say('value', 'does not return the assigned expression')
        if rt != NR:
            o.kept('right operand', y, b)
        return o

    def compound_self(self, I, f, a, op):
        x = self.mk(a)
        I.call_fn(f, None, [x, x])
        return Out().result('the assigned expression', x, (op, a, a))

    def unary(self, I, f, a, lt, op):
        x = self.mk(a)
        r = I.call_fn(f, None, [x])
        o = Out().result('result', r, (op, a))
        if lt != NR:
            o.kept('the operand', x, a)
        return o

    # ---- construction and copies
    def construction(self):
        P, N = self.P, self.N
        f = self.want('tomsolver::Num', ['double'])
        if f:
            for x in (sym('a'), 0, 1, -2.5):
                self.add('construction', 'Num', 'Num(%r)' % (x,), f, lambda I, f=f, x=x: Out().result('result', I.call_fn(f, None, [Cell(x)]), ('n', x)))
        f = self.want('tomsolver::Var', ['std::basic_string<char>'])
        if f:
            for x in ('x', 'alpha_1', '_'):
                self.add('construction', 'Var', 'Var(%s)' % x, f, lambda I, f=f, x=x: Out().result('result', I.call_fn(f, None, [Cell(x)]), ('v', x)))
        f = self.want('tomsolver::Move', [NL])
        if f:
            for a in SHAPES + P1 + LARGE:
                def run(I, f=f, a=a):
                    x = self.mk(a)
                    r = I.call_fn(f, None, [x])
                    o = Out().result('result', r, a)
                    if x.v.cell is not None:
                        o.say('value', 'the source is not emptied')
                    return o
                self.add('copies', 'Move', 'Move(%s)' % name(a), f, run)
        for q in ('tomsolver::Clone', 'tomsolver::internal::CloneRecursively', 'tomsolver::internal::CloneNonRecursively', 'tomsolver::internal::CopyOrMove'):
            sig = [NA]
            fs = [g for g in P.find(q) if [g['_tu'].types[s['t']] for s in g['sig']] == sig]
            if not fs:
                if q == 'tomsolver::Clone':
                    self.want(q, sig)
                continue
            for a in SHAPES + P1 + EQ[::1 if q == 'tomsolver::Clone' else 9] + P2[::(3 if DEEPRUN else 11) if q == 'tomsolver::Clone' else 101] + (LARGE if q != 'tomsolver::internal::CloneRecursively' else []):
                def run(I, f=fs[0], a=a):
                    x = self.mk(a)
                    return Out().result('the copy', I.call_fn(f, None, [x]), a).kept('the original', x, a)
                self.add('copies', q.split('::')[-1], '%s(%s)' % (q.split('::')[-1], name(a)), fs[0], run)
        cp = self.want(NI + '::NodeImpl', ['const %s &' % NI])
        mv = self.want(NI + '::NodeImpl', ['%s &&' % NI])
        ca = self.want(NI + '::operator=', ['const %s &' % NI])
        ma = self.want(NI + '::operator=', ['%s &&' % NI])
        for i, a in enumerate(SHAPES + P1 + LARGE):
            if cp:
                def run(I, a=a):
                    x = self.mk(a)
                    c = cell_of(I.construct(NI, [x.v.cell], ['l']), NI)
                    return Out().result('the copy', c, a).kept('the original', x, a)
                self.add('copies', 'NodeImpl(const&)', 'copy construction of %s' % name(a), cp, run)
            if mv:
                def run(I, a=a):
                    x = TR.build(N, a)
                    c = cell_of(I.construct(NI, [x], ['x']), NI)
                    o = Out().result('the new node', c, a)
                    if N.kids(x):
                        o.say('value', 'the source keeps an operand')
                    return o
                self.add('copies', 'NodeImpl(&&)', 'move construction of %s' % name(a), mv, run)
            for b in (n('k'), v('w'), ('MATH_EXP', v('w')), ('MATH_DIVIDE', v('w'), n('k'))) if i < len(SHAPES) else (ren(P1[(i * 7) % len(P1)], "'"),):
                if ca:
                    def run(I, a=a, b=b):
                        x, y = self.mk(a), self.mk(b)
                        I.call_fn(ca, y.v.cell, [x.v.cell])
                        return Out().result('the assigned node', y, a).kept('the original', x, a)
                    self.add('copies', 'operator=(const&)', 'assignment of %s to %s' % (name(a), name(b)), ca, run)
                if ma:
                    def run(I, a=a, b=b):
                        x, y = TR.build(N, a), self.mk(b)
                        I.call_fn(ma, y.v.cell, [x])
                        o = Out().result('the assigned node', y, a)
                        if N.kids(x):
                            o.say('value', 'the source keeps an operand')
                        return o
                    self.add('copies', 'operator=(&&)', 'move assignment of %s to %s' % (name(a), name(b)), ma, run)
            if ca:
                def run(I, a=a):
                    x = self.mk(a)
                    I.call_fn(ca, x.v.cell, [x.v.cell])
                    return Out().result('the node', x, a)
                self.add('copies', 'operator=(const&)', 'self-assignment of %s' % name(a), ca, run)

    def build_nodes(self):
        f = self.want('tomsolver::internal::Operator', ['tomsolver::MathOperator', NODE, NODE])
        if f:
            for b in BINARY:
                def run(I, b=b):
                    return Out().result('result', I.call_fn(f, None, [self.N.ops[b], UPtr(TR.build(self.N, SMALL[4])), UPtr(TR.build(self.N, SMALL[2]))]),
                                        (b, SMALL[4], SMALL[2]))
                self.add('construction', 'Operator', 'Operator(%s)' % b, f, run)
            for u in UNARY:
                def run(I, u=u):
                    return Out().result('result', I.call_fn(f, None, [self.N.ops[u], UPtr(TR.build(self.N, SMALL[4])), UPtr()]), (u, SMALL[4]))
                self.add('construction', 'Operator', 'Operator(%s)' % u, f, run)

    # ---- equality
    def equality(self):
        f = self.want(NI + '::Equal', [NA])
        if f is None:
            return
        for i, a in enumerate(SHAPES + P1 + EQ + P2[::(5 if DEEPRUN else 23)] + TRI[::(31 if DEEPRUN else 301)] + LARGE):
            def run(I, a=a):
                x, y = self.mk(a), self.mk(a)
                r = I.truth(I.rv_(I.call_fn(f, x.v.cell, [y])))
                o = Out().kept('left', x, a).kept('right', y, a)
                return o if r else o.say('value', 'equal expressions compare unequal')
            self.add('equality', 'Equal', '%s == itself' % name(a), f, run)

            def run(I, a=a):
                x = self.mk(a)
                r = I.truth(I.rv_(I.call_fn(f, x.v.cell, [x])))
                return Out().say('value', 'an expression is unequal to itself') if not r else Out()
            self.add('equality', 'Equal', 'the same object %s' % name(a), f, run)
            vs = variants(a)
            if i >= len(SHAPES) and not DEEPRUN or len(vs) > 300:
                vs = vs[i % 3::3] if len(vs) < 40 else vs[i % 3::len(vs) // 12]
            for b in vs:
                for l, r in ((a, b), (b, a)):
                    def run(I, l=l, r=r):
                        x, y = self.mk(l), self.mk(r)
                        e = I.truth(I.rv_(I.call_fn(f, x.v.cell, [y])))
                        if e and not same_under(I, l, r):
                            return Out().say('value', 'different expressions compare equal')
                        if not e and same_under(I, l, r):
                            return Out().say('value', 'equal expressions compare unequal')
                        return Out()
                    self.add('equality', 'Equal', '%s against %s' % (name(l), name(r)), f, run)
        for a, b in TR.NEAR:
            for l, r in ((v(a), v(b)), (('MATH_ADD', v(b), v(a)), ('MATH_ADD', v(a), v(b)))):
                def run(I, l=l, r=r):
                    x, y = self.mk(l), self.mk(r)
                    return Out().say('value', 'different expressions compare equal') if I.truth(I.rv_(I.call_fn(f, x.v.cell, [y]))) else Out()
                self.add('equality', 'Equal', '%s against %s' % (name(l), name(r)), f, run)

    # ---- substitution
    def substitution(self, some=False):
        rep = [n('k'), v('x'), v('w'), ('MATH_ADD', v('x'), n('k')), ('MATH_NEGATIVE', v('y')), ('MATH_MULTIPLY', v('y'), v('x'))]
        X = v('x')
        shapes = SHAPES + [X, v('y'), v('xx'), v('X'), ('MATH_ADD', X, X), ('MATH_SUB', v('y'), X), ('MATH_MULTIPLY', v('xx'), X), ('MATH_POWER', ('MATH_SIN', X), ('MATH_ADD', v('y'), X)),
                           ('MATH_COS', ('MATH_EXP', ('MATH_NEGATIVE', X)))]
        if some:
            shapes = shapes[::3]
        near = [] if some else TR.NEAR
        # every operator over every kind of operands, large expressions: with a rotating choice of the replacements
        more = (P1[::3] + EQ[::5] if some else P1 + EQ + P2[::(3 if DEEPRUN else 19)] + TRI[::(11 if DEEPRUN else 101)]) + LARGE
        pairs = [('x', r) for r in rep] + [('y', rep[3]), ('none', rep[1])]
        dicts = [{'x': v('y'), 'y': v('x')}, {'x': ('MATH_ADD', v('x'), v('y')), 'y': n('k'), 'z': X}, {'x': ('MATH_SIN', v('y')), 'y': ('MATH_COS', v('x'))}, {}, {'w': n('k')},
                 {'y': v('z'), 'z': v('y'), 'x': v('x')}, {'x': v('y'), 'y': n('k')}, {'x': v('y'), 'y': v('z'), 'z': n(3)}, {'x': v('y'), 'y': v('z'), 'z': X},
                 {'x': ('MATH_ADD', v('y'), v('z')), 'y': n(2), 'z': ('MATH_NEGATIVE', v('y'))}, {'x': n(0), 'y': v('x')}, {'x': v('x_'), 'x_': v('y'), 'y': v('x')},
                 {'x': ('MATH_NEGATIVE', n('k')), 'y': ('MATH_SIN', n('k')), 'xx': X, 'X': v('y')}]
        nums = [{'x': sym('p'), 'y': sym('q')}, {'x': 0}, {}, {'y': sym('q'), 'z': 1, 'x': -2}, {'x': math.nan}, {'x': math.inf, 'y': -math.inf}, {'x': -0.0, 'y': 1e300},
                {'x': 1e-12, 'y': -1e-300, 'z': 0}, {'x': 1, 'y': 1, 'z': 1}, {'xx': sym('p'), 'X': sym('q'), 'x': 0.5}]
        one = {c: self.want('tomsolver::Subs', [c, STR, NA]) for c in (NA, NR)}
        lst = {c: self.want('tomsolver::Subs', [c, 'const std::vector<std::basic_string<char>> &', M.CSV]) for c in (NA, NR)}
        dct = {c: self.want('tomsolver::Subs', [c, 'const std::map<std::basic_string<char>, %s> &' % NODE]) for c in (NA, NR)}
        num = {c: self.want('tomsolver::Subs', [c, 'const std::map<std::basic_string<char>, double> &']) for c in (NA, NR)}
        tab = {c: self.want('tomsolver::Subs', [c, 'const tomsolver::VarsTable &']) for c in (NA, NR)}

        def go(kind, f, c, t, d, mkargs):
            def run(I):
                x = self.mk(t)
                args, keep = mkargs(I)
                r = I.call_fn(f, None, [x] + args)
                o = Out().result('result', r, subst(t, d))
                if c == NA:
                    o.kept('the expression', x, t)
                for k in keep:
                    o.kept(*k)
                return o
            self.add('substitution', 'Subs(%s)' % kind, 'Subs[%s, %s](%s, {%s%s})' % (kind, cat(c), name(t), ', '.join('%s: %s' % (k, TR.text(y)) for k, y in list(d.items())[:8]), ', ...' if len(d) > 8 else ''), f, run)
        turn = 0
        for c in (NA, NR):
            for t in shapes + more:
                turn += 1
                part = (lambda xs: [xs[turn % len(xs)]]) if t in more else (lambda xs: xs)
                if one[c]:
                    for nm, r in part(pairs):
                        def mkargs(I, nm=nm, r=r):
                            y = self.mk(r)
                            return [Cell(nm), y], [('the replacement', y, r)]
                        go('name', one[c], c, t, {nm: r}, mkargs)
                for d in part(dicts):
                    if dct[c]:
                        def mkargs(I, d=d):
                            items = [(k, self.mk(d[k])) for k in sorted(d)]
                            return [Cell(MapV('map', items))], [('the replacement of ' + k, y, d[k]) for k, y in items]
                        go('dictionary', dct[c], c, t, d, mkargs)
                    if lst[c] and d:
                        for ks in (sorted(d), sorted(d, reverse=True)):
                            def mkargs(I, d=d, ks=ks):
                                api = M.Api(self.P)
                                m = Cell(I.construct(M.SVEC, [len(ks)], ['x']), typ=M.SVEC)
                                for i, k in enumerate(ks):
                                    M.put_entry(I, self.N, api, m, i, 0, d[k])
                                keep = [('the replacement of ' + k, u(I, api, m, i), d[k]) for i, k in enumerate(ks)]
                                return [Cell(Seq('vector', ks, 'std::basic_string<char>')), m], keep
                            go('lists', lst[c], c, t, {k: d[k] for k in ks}, mkargs)
                for d in part(nums):
                    want = {k: ('n', x) for k, x in d.items()}
                    if num[c]:
                        go('numbers', num[c], c, t, want, lambda I, d=d: ([Cell(MapV('map', [(k, Cell(d[k])) for k in sorted(d)]))], []))
                    if tab[c] and d:
                        def mkargs(I, d=d):
                            pairs_ = Seq('initializer_list', [Tup([Cell(k), Cell(d[k])], True) for k in sorted(d, reverse=True)], 'std::pair<std::basic_string<char>, double>')
                            return [Cell(I.construct('tomsolver::VarsTable', [pairs_], ['x']))], []
                        go('table', tab[c], c, t, want, mkargs)

        # many names at once, beyond every number of the program
        if not some:
            z = TR.size_for(self.P, 40, 300)
            ks = ['x%d' % i for i in range(z)]
            big = v(ks[0])
            for i in range(1, z):
                big = (('MATH_ADD', 'MATH_MULTIPLY')[i % 2], big, v(ks[i]))
            d = {k: n(1000 + i) for i, k in enumerate(ks)}
            for c in (NA, NR):
                if dct[c]:
                    go('dictionary', dct[c], c, big, d, lambda I, d=d: ([Cell(MapV('map', [(k, self.mk(d[k])) for k in sorted(d)]))], []))
                if num[c]:
                    go('numbers', num[c], c, big, d, lambda I, d=d: ([Cell(MapV('map', [(k, Cell(d[k][1])) for k in sorted(d)]))], []))
                if tab[c]:
                    go('table', tab[c], c, big, d, lambda I, d=d: ([Cell(I.construct('tomsolver::VarsTable', [Seq('initializer_list', [Tup([Cell(k), Cell(d[k][1])], True) for k in sorted(d)], 'std::pair<std::basic_string<char>, double>')], ['x']))], []))
                if lst[c]:
                    def many(I, ks=ks, d=d):
                        api = M.Api(self.P)
                        m = Cell(I.construct(M.SVEC, [len(ks)], ['x']), typ=M.SVEC)
                        for i, k in enumerate(ks):
                            M.put_entry(I, self.N, api, m, i, 0, d[k])
                        return [Cell(Seq('vector', list(ks), 'std::basic_string<char>')), m], []
                    go('lists', lst[c], c, big, d, many)

        # names that are easily taken for each other: one occurs, the other is replaced
        for i, (a, b) in enumerate(near):
            for j, t in enumerate((v(a), ('MATH_ADD', v(a), v(b)))):
                r = n('k') if (i + j) % 2 else ('MATH_SIN', v(a))
                c = (NA, NR)[(i + i // 7) % 2]
                if one[c]:
                    def mkargs(I, b=b, r=r):
                        y = self.mk(r)
                        return [Cell(b), y], [('the replacement', y, r)]
                    go('name', one[c], c, t, {b: r}, mkargs)
                ks = [b, 'w' if i % 2 else 'Z']
                if dct[c]:
                    def mkargs(I, ks=ks, r=r):
                        items = [(k, self.mk(r)) for k in sorted(ks)]
                        return [Cell(MapV('map', items))], [('the replacement of ' + k, y, r) for k, y in items]
                    go('dictionary', dct[c], c, t, {k: r for k in ks}, mkargs)
                if lst[c]:
                    def mkargs(I, ks=ks, r=r):
                        api = M.Api(self.P)
                        m = Cell(I.construct(M.SVEC, [len(ks)], ['x']), typ=M.SVEC)
                        for q in range(len(ks)):
                            M.put_entry(I, self.N, api, m, q, 0, r)
                        return [Cell(Seq('vector', list(ks), 'std::basic_string<char>')), m], [('the replacement of ' + k, u(I, api, m, q), r) for q, k in enumerate(ks)]
                    go('lists', lst[c], c, t, {k: r for k in ks}, mkargs)
                if num[c]:
                    go('numbers', num[c], c, t, {k: ('n', sym('p')) for k in ks}, lambda I, ks=ks: ([Cell(MapV('map', [(k, Cell(sym('p'))) for k in sorted(ks)]))], []))
                if tab[c]:
                    def mkargs(I, ks=ks):
                        pairs_ = Seq('initializer_list', [Tup([Cell(k), Cell(sym('p'))], True) for k in ks], 'std::pair<std::basic_string<char>, double>')
                        return [Cell(I.construct('tomsolver::VarsTable', [pairs_], ['x']))], []
                    go('table', tab[c], c, t, {k: ('n', sym('p')) for k in ks}, mkargs)

        def u(I, api, m, i):
            r = I.call_fn(api.svalue, m, [i, 0])
            return r

    # ---- transformations
    def transformations(self, small=False):
        fs = [(c, self.want('tomsolver::Diff', [c, STR, 'int'])) for c in (NA, NR)]
        ts = TR.height2()
        ts = ts[::4] if small else ts
        for c, f in fs:
            if f is None:
                continue
            for t in ts + DEEP:
                for order in ((1,) if len(t) > 1 and t in ts[60:] else (0, 1, 2)):
                    def run(I, f=f, t=t, c=c, order=order):
                        x = self.mk(t)
                        o = Out()
                        try:
                            o.result('the derivative', I.call_fn(f, None, [x, Cell('x'), order]))
                        except CppThrow:
                            pass
                        return o.kept('the expression', x, t) if c == NA else o
                    self.add('differentiation', 'Diff', 'Diff(%s %s, x, %d)' % (cat(c), TR.text(t), order), f, run, cfg={'throwOnInvalidValue': 1})
        f = self.want('tomsolver::Simplify', [NL])
        if f:
            for t in ts + DEEP + (TR.height3()[::9] if not small else []):
                def run(I, t=t, f=f):
                    x = self.mk(t)
                    I.call_fn(f, None, [x])
                    return Out().result('the simplified expression', x)
                self.add('simplification', 'Simplify', 'Simplify(%s)' % TR.text(t), f, run, cfg={'throwOnInvalidValue': 1})
        f = self.want(NI + '::Calc', [])
        if f:
            for t in [n('a'), ('MATH_SIN', n('a')), ('MATH_ADD', n('a'), ('MATH_SQRT', n('b'))), ('MATH_MOD', n('a'), n('b')), ('MATH_LOG', ('MATH_NEGATIVE', n('a'))), v('x'),
                      ('MATH_ADD', n('a'), v('x')), ('MATH_MULTIPLY', ('MATH_ADD', n(1), n(2)), ('MATH_SUB', n(3), n('a')))]:
                def run(I, t=t, f=f):
                    x = self.mk(t)
                    try:
                        I.call_fn(f, x.v.cell, [])
                    except CppThrow:
                        return Out().kept('the expression', x, t)
                    return Out().result('the value', x)
                self.add('evaluation', 'Calc', 'Calc(%s)' % TR.text(t), f, run, cfg={'throwOnInvalidValue': 1})
        f = self.want('tomsolver::Parse')
        if f:
            for t in TEXTS:
                def run(I, t=t):
                    try:
                        r = PA.parse(I, self.P, t)
                    except CppThrow:
                        return Out()
                    return Out().result('the parsed expression', r)
                self.add('parsing', 'Parse', 'Parse("%s")' % t, f, run)

    def readonly(self):
        for q in ('ToString', 'GetAllVarNames', 'Vpa', 'CheckParent'):
            f = [g for g in self.P.find(NI + '::' + q) if not g['sig']]
            if not f:
                continue
            for t in SHAPES:
                def run(I, f=f[0], t=t):
                    x = self.mk(t)
                    try:
                        I.call_fn(f, x.v.cell, [])
                    except CppThrow:
                        pass
                    return Out().kept('the expression', x, t)
                self.add('read-only operations', q, '%s(%s)' % (q, TR.text(t)), f[0], run, cfg={'throwOnInvalidValue': 1})


    def varnames(self):
        f = self.want(NI + '::GetAllVarNames', [])
        if not f:
            return
        deep = DEEPRUN
        named = [('MATH_ADD', v(a), ('MATH_MULTIPLY', v(b), v(c))) for a, b, c in (('x', 'xy', 'xyz'), ('xyz', 'xy', 'x'), ('_', '_a', 'a_'), ('X', 'x', 'X'), ('sin', 'log10', 'exp'), ('a' * 40, 'a' * 41, 'a' * 40), ('x1', 'x10', 'x2'))]
        many = v('v0')
        z = TR.size_for(self.P, 60, 1500)
        z += z % 7 == 0
        for i in range(1, z):
            many = (BINARY[i % 4], many, v('v%d' % (i * 7 % z))) if i % 2 else (BINARY[i % 4], v('v%d' % (i * 7 % z)), many)
        for t in SHAPES + named + [many] + P1 + EQ + P2[::1 if deep else 3] + TRI[::11 if deep else 61] + LARGE:
            def run(I, t=t):
                x = self.mk(t)
                r = I.rv_(I.call_fn(f, x.v.cell, []))
                got = [I.res(I.val(k)) for k, _ in r.items]
                o = Out().kept('the expression', x, t)
                want = TR.varnames(t)
                if sorted(map(str, got)) != sorted(want):
                    miss, more = sorted(want - set(got))[:5], sorted(set(map(str, got)) - want)[:5]
                    o.say('value', 'the listed names %s' % ', '.join(['lack ' + m for m in miss] + ['contain ' + m for m in more] or ['are not a set']))
                return o
            self.add('names', 'GetAllVarNames', 'GetAllVarNames(%s)' % name(t), f, run)


TEXTS = ['', '1', 'x', '1+2', 'x*y+z', '-x', '--x', '+-x', 'sin(x)', 'sin(x)^2', '(x)', '((x+1)*2)', 'x^y^z', 'a-b-c', 'a&b|c%d', '(', ')', '()', 'x)', '(x', '1 2', '+', 'x+', '*x', 'sin', 'sin()',
         'sin(x', 'x y', '1..2', 'x+*y', 'asin(acos(atan(sqrt(log(log2(log10(exp(1))))))))', '-(x+y)', '2*-x', 'x^-y', 'x+(-y)', 'f(x)', '1.5e3', '3x', 'x#y', '\n\nx+', '(x+y)*(z-1)/2',
         'sin x', 'x sin', '(x)(y)', 'x(y)', '1(2)', '-', '--', 'sin(-x)+cos(+y)', '%', 'x%', '&x']


def cat(t):
    return {NL: 'lvalue', NR: 'rvalue', NA: 'const lvalue'}[t]


def subst(t, d):
    if t[0] == 'v':
        return d.get(t[1], t)
    if t[0] == 'n':
        return t
    return (t[0],) + tuple(subst(k, d) for k in t[1:])


def variants(t):
    """expressions that differ from t in exactly one part"""
    out = []
    if t[0] == 'n':
        out += [('n', T.add(t[1], 1)), ('n', sym('other')), v('x')]
    elif t[0] == 'v':
        out += [('v', t[1] + '1'), ('v', t[1].upper() + '_'), n('a'), n(0)]
    else:
        same = (UNARY if len(t) == 2 else BINARY)
        i = same.index(t[0])
        out += [(same[(i + 1) % len(same)],) + t[1:], (same[(i + 4) % len(same)],) + t[1:], t[1], v('x')]
        if len(t) == 3:
            out += [(t[0], t[2], t[1])] if t[1] != t[2] else []
            out += [('MATH_SIN', t[1]), ('MATH_SIN', t[2])]
        else:
            out += [('MATH_ADD', t[1], n(0)), ('MATH_SUB', n(0), t[1])]
        for i in range(1, len(t)):
            for w in variants(t[i]):
                out.append(t[:i] + (w,) + t[i + 1:])
    return out


def same_under(I, a, b):
    """whether two trees are equal given the facts of the trace (their constants are compared by the facts)"""
    if a[0] != b[0] or len(a) != len(b):
        return False
    if a[0] == 'n':
        return I.truth(I.cmp('==', a[1], b[1]))
    if a[0] == 'v':
        return a[1] == b[1]
    return all(same_under(I, p, q) for p, q in zip(a[1:], b[1:]))


def run_all(R, facets, parts, floor):
    jobs = []
    for view, P, N in views():
        g = Gen(R, view, P, N, facets)
        for p in parts:
            p(g)
        R.count('scenarios_' + view, len(g.jobs))
        if len(g.jobs) < floor:
            R.undecided('anchors', view, 'only %d scenarios found' % len(g.jobs))
        jobs += g.jobs
    pmap(R, jobs)


TREES = ('trees of height up to 4 in %d shapes with symbolic constants stand for all expressions (the code handles one node at a time)' % len(SHAPES))


def C03(R):
    R.rule('Every operation that returns or rewrites an expression (operators, compound assignment, functions, construction, copies, differentiation, simplification, substitution, evaluation, '
           'parsing) is interpreted on small trees of every shape; in every result the root has no parent, each child points back to its owner, operand counts match the operator, no node is '
           'reachable twice and none was released.')
    R.assume(TREES)
    run_all(R, {'form'}, [Gen.operators, Gen.construction, Gen.build_nodes, lambda g: g.substitution(True), lambda g: g.transformations(False)], 1200)


def C12(R):
    R.rule('Every operator, function, differentiation and substitution is interpreted with each operand passed as lvalue, const lvalue and rvalue: the result is the operator applied to the '
           'operands in order; lvalue operands keep every node and share none with the result; compound assignment gives the plain result also when both operands are the same object.')
    R.assume(TREES)
    run_all(R, {'keep', 'value'}, [Gen.operators, lambda g: g.substitution(True), lambda g: g.transformations(True), Gen.readonly], 900)


def C13(R):
    R.rule('Every way to copy or move an expression is interpreted on every shape: copies have the same tree, are well formed and share nothing; moves transfer everything. Equal is interpreted on '
           'equal trees and on all trees differing in exactly one operator, constant, name, kind, operand order or operand: it must hold exactly when the trees are equal under the facts of the trace.')
    R.assume(TREES)
    run_all(R, {'keep', 'value'}, [Gen.construction, Gen.equality], 250)


def C14(R):
    R.rule('Every overload of Subs is interpreted on expressions with the variables at every place, with replacements that mention other and the same variables (swaps, growth), absent names and '
           'prefixes of names: the result must be the simultaneous replacement, its nodes are not shared with the replacements or the expression, which stay unchanged.')
    R.assume(TREES)
    run_all(R, {'keep', 'value'}, [Gen.substitution], 600)


def C27(R):
    R.rule('All operations on expressions are interpreted with destructors and scope exits (also of raised exceptions): a second release, an access to a released node, two owners of one object, and an '
           'object left without owner (result of release() or new that no owner takes) are reported with their place. Matrix operations are interpreted the same way.')
    R.assume(TREES)
    R.assume('temporaries live to the end of the enclosing function in the analysis')
    run_all(R, {'own'}, [Gen.operators, Gen.construction, Gen.build_nodes, Gen.equality, lambda g: g.substitution(True), lambda g: g.transformations(True), Gen.readonly], 1500)
    jobs = []
    for view, P, N in views():
        N.unary_field = N.left
        for r in (1, 2):
            for c in (1, 2):
                jobs.append(lambda S, a=(view, P, N, r, c, 2): memory_only(S, lambda X: M.sym_shape(X, *a)))
    pmap(R, jobs)


MEMORY = ('released', 'owner', 'null', 'outside', 'past the end', 'share', 'empty unique_ptr', 'owns')


def memory_only(R, job):
    """the memory errors among the findings of another check"""
    from report import Report, merge
    S = Report(R.pid)
    job(S)
    n = sum(len(v['instances']) for v in S.viol.values())
    for k in list(S.viol):
        S.viol[k]['instances'] = [i for i in S.viol[k]['instances'] if any(m in i['what'] for m in MEMORY)]
        if not S.viol[k]['instances']:
            del S.viol[k]
    S.ok += n - sum(len(v['instances']) for v in S.viol.values())
    merge(R, S)


def C35(R):
    R.rule('The listing of variables is interpreted on expressions with every operator over every kind of operands, variables at every place, repeated, with names that are prefixes of each other, and on tall, '
           'wide and many-variable expressions: the set it returns must be exactly the set of names that occur, and the expression is unchanged.')
    R.assume(TREES)
    run_all(R, {'keep', 'value'}, [Gen.varnames], 500)


def C37(R):
    R.rule('Every operator, compound assignment and function of the C++ interface, and the creation of constants and variables, is interpreted with operands of every kind and value category: the result must be '
           'exactly the node the name stands for, with the operands in the order given.')
    R.assume(TREES)
    run_all(R, {'value', 'form'}, [Gen.operators, Gen.construction, Gen.build_nodes], 900)
