"""Loop abstraction: the state that an iteration may change is replaced, at the head of a selected loop, by arbitrary values.

Which cells change, which of them always hold equal values and which integers never decrease is found as the largest set of
candidates that is preserved by every trace from the head to the back edge (a Houdini-style greatest fixpoint over the
equality and monotonicity candidates, a least fixpoint over the set of changed cells).  Traces end at the back edge.
"""
import terms as T
from terms import Atom, Poly, is_const
from interp import *
import effects as EF


class Rec:
    def __init__(self, node, key, fr):
        self.node, self.key = node, key
        self.entry = {}
        self.head = {}
        self.back = {}
        self.events = 0
        self.where = None
        self.visit = 0
        self.ints = {}


def leaves(I):
    """every scalar reachable from the frames of the trace: {place: cell}"""
    out = {}
    seen = set()

    def go(place, c, depth):
        if depth > 9 or not isinstance(c, Cell):
            return
        v = c.v
        if isinstance(v, (Obj, Seq, MapV, Tup, UPtr, Ptr, RefW, Closure)):
            if id(v) in seen and not isinstance(v, (UPtr, Ptr, RefW)):
                return
            seen.add(id(v))
        if isinstance(v, Obj):
            for n, x in v.f.items():
                go(place + ('.' + n,), x, depth + 1)
        elif isinstance(v, Seq):
            for i, x in enumerate(v.items):
                go(place + (i,), x, depth + 1)
            out[place + ('#',)] = len(v.items)
        elif isinstance(v, MapV):
            for k, x in v.items:
                if x is not None:
                    go(place + ('[%s]' % (k.v if isinstance(k, Cell) else k,),), x, depth + 1)
            out[place + ('#',)] = len(v.items)
        elif isinstance(v, Tup):
            for i, x in enumerate(v.cells):
                go(place + (i,), x, depth + 1)
        elif isinstance(v, (UPtr, Ptr, RefW)):
            if v.cell is not None:
                go(place + ('*',), v.cell, depth + 1)
            else:
                out[place] = c
        elif isinstance(v, Closure):
            for k, x in sorted(v.caps.items(), key=lambda kx: str(kx[0])):
                go(place + ('cap%s' % (k,),), x, depth + 1)
        else:
            if id(c) not in seen:
                seen.add(id(c))
                out[place] = c
    for i, fr in enumerate(I.frames):
        if isinstance(fr.this, Cell):
            go((i, 'this'), fr.this, 0)
        for d, c in fr.vars.items():
            go((i, d, getattr(c, 'name', None) or ''), c, 0)
    for k, c in I.path.statics.items():
        go(('static', str(k)), c, 0)
    return out


def vectors(I, n):
    """places that hold n numbers: {place: [values]}"""
    g = {}
    for p, c in leaves(I).items():
        if p[-1] == '#':
            continue
        v = I.res(c.v) if isinstance(c, Cell) else c
        if isinstance(v, (Poly, float, Fraction)) or isinstance(v, int) and not isinstance(v, bool):
            g.setdefault(p[:-1], []).append((p[-1], v))
    return {p: [v for _, v in vs] for p, vs in g.items() if len(vs) == n}


def show_place(I, p):
    return '%s%s' % (p[2] if len(p) > 2 else p[1], ''.join(str(x) for x in p[3:]))


class Loops:
    def __init__(self, P, sel, rounds=14):
        self.P = P
        self.sel = sel            # {id(node): key}
        self.st = {}
        self.rounds = rounds
        self.pending = {}
        self.report = {}

    # state per loop
    def state(self, key):
        s = self.st.get(key)
        if s is None:
            s = self.st[key] = {'M': set(), 'part': {}, 'up': {}, 'peel': 0, 'seen': False, 'types': {}}
        return s

    def enter(self, I, s):
        """called before the first test of a loop; None when the loop is not abstracted"""
        key = self.sel.get(id(s))
        if key is None:
            return None
        rec = Rec(s, key, len(I.frames))
        rec.depth = len(I.frames)
        rec.where = I.where()
        if self.state(key)['peel'] == 0:
            self.havoc(I, rec)
        else:
            rec.visit = -self.state(key)['peel']
        return rec

    def again(self, I, rec):
        """called at the back edge"""
        if rec.visit < 0:
            rec.visit += 1
            if rec.visit == 0:
                self.havoc(I, rec)
            return
        st = self.state(rec.key)
        st['seen'] = True
        now = leaves(I)
        rec.final = {p: (c if p[-1] == '#' else I.res(c.v)) for p, c in now.items()}
        new = {}
        shape = None
        for p, h in rec.head.items():
            if p not in now:
                if p[-1] != '#':
                    shape = shape or p
                continue
            c = now[p]
            if p[-1] == '#':
                if c != h:
                    shape = shape or p
                continue
            new[p] = I.res(c.v)
        if shape is None:
            for p in now:
                if p not in rec.head and self.live(rec, p):
                    shape = p
                    break
        if shape is not None:
            if st['peel'] >= 2:
                raise Undecided('a loop changes the shape of %s' % show_place(I, shape))
            self.pending.setdefault(rec.key, []).append(('peel', st['peel'] + 1))
            rec.back = new
            raise Cut(rec)
        rec.back = new
        ch = set()
        for p, v in new.items():
            if p in st['M']:
                continue
            h = rec.head[p]
            if not same(v, h):
                if not numeric(v) or not numeric(h):
                    if not (isinstance(v, bool) or isinstance(h, bool) or isinstance(v, Atom) or isinstance(h, Atom)):
                        raise Undecided('a loop changes %s, which is not a number (%r to %r)' % (show_place(I, p), h, v))
                ch.add(p)
        if ch:
            self.pending.setdefault(rec.key, []).append(('M', ch))
        self.refine(rec.key, {p: new[p] for p in st['M'] if p in new})
        for p in rec.ints:
            if p in new and st['up'].get(p):
                d = T.sub(new[p], rec.head[p])
                if I.path.facts.query(T.neg(d), '<=', True) is not True:
                    self.pending.setdefault(rec.key, []).append(('notup', p))
        raise Cut(rec)

    def live(self, rec, p):
        """a place of a variable that existed at the head"""
        return any(q[:3] == p[:3] for q in rec.head) if p[0] != 'static' else False

    def refine(self, key, vals):
        st = self.state(key)
        part = st['part']
        groups = {}
        for p, v in vals.items():
            groups.setdefault((part.get(p), vkey(v)), []).append(p)
        byclass = {}
        for (c, v), ps in groups.items():
            byclass.setdefault(c, []).append(ps)
        for c, pss in byclass.items():
            if len(pss) > 1:
                self.pending.setdefault(key, []).append(('split', c, [frozenset(ps) for ps in pss]))

    def havoc(self, I, rec):
        st = self.state(rec.key)
        lv = leaves(I)
        rec.events = len(I.path.events)
        entry = {p: (c if p[-1] == '#' else I.res(c.v)) for p, c in lv.items()}
        rec.entry = entry
        inM = {p: entry[p] for p in st['M'] if p in entry}
        self.refine(rec.key, inM)
        fresh = {}
        tag = '%s.%d' % (rec.key, sum(1 for e in I.path.events if e[0] == 'loop'))
        for p in sorted(inM, key=str):
            c = lv[p]
            k = st['part'].get(p)
            v = inM[p]
            kind = self.kind(c, v)
            if (k, kind) not in fresh:
                nm = '%s.v%d' % (tag, len(fresh))
                if kind == 'int':
                    fresh[k, kind] = T.sym('#' + nm, True)
                elif kind == 'double':
                    fresh[k, kind] = T.sym(nm)
                elif kind == 'bool':
                    a = Atom('sym', nm, 'bool')
                    I.path.dom[a] = frozenset([0, 1])
                    fresh[k, kind] = a
                else:
                    a = Atom('sym', nm, kind)
                    I.path.dom[a] = frozenset(int(x['v']) for x in self.P.enums[kind]['e'])
                    fresh[k, kind] = a
            c.v = fresh[k, kind]
            if kind == 'int':
                rec.ints[p] = c.v
                st['up'].setdefault(p, True)
                if st['up'][p]:
                    I.path.facts.assume(T.sub(entry[p], c.v), '<=', True, True)
        rec.head = {p: (c if p[-1] == '#' else I.res(c.v)) for p, c in lv.items()}
        I.path.events.append(('loop', rec))

    def kind(self, c, v):
        t = strip_cvref(c.typ) if c.typ else None
        if t == 'bool' or isinstance(v, bool) or isinstance(v, Atom) and len(v.args) > 1 and v.args[1] == 'bool':
            return 'bool'
        if t in self.P.enums:
            return t
        if t in INTTYPES:
            return 'int'
        if t is None and c.seq is not None and c.seq.et in INTTYPES:
            return 'int'
        return 'double'

    # fixpoint
    def apply(self):
        ch = False
        for key, us in self.pending.items():
            st = self.state(key)
            new = set()
            for u in us:
                if u[0] == 'M':
                    new |= u[1] - st['M']
            for u in us:
                if u[0] == 'peel' and u[1] > st['peel']:
                    st['peel'] = u[1]
                    st['M'], st['part'], st['up'] = set(), {}, {}
                    new = set()
                    ch = True
            if new:
                st['M'] |= new
                st['part'] = {p: 0 for p in st['M']}
                ch = True
                continue
            for u in us:
                if u[0] == 'notup' and st['up'].get(u[1]):
                    st['up'][u[1]] = False
                    ch = True
                elif u[0] == 'split':
                    # the intersection of the partition with the groups
                    n = max(list(st['part'].values()) + [0]) + 1
                    m = {}
                    for p in sorted(st['part'], key=str):
                        g = next((i for i, ps in enumerate(u[2]) if p in ps), None)
                        if g is None or g == 0:
                            continue
                        m[p] = (st['part'][p], g)
                    old = dict(st['part'])
                    ren = {}
                    for p, k in m.items():
                        st['part'][p] = ren.setdefault(k, n + len(ren))
                    if groups_of(old) != groups_of(st['part']):
                        ch = True
        self.pending = {}
        return ch

    def explore(self, I, body):
        """the outcomes of the traces once the loop invariants are stable; None when they are not found"""
        for k in range(self.rounds):
            self.pending = {}
            out = I.explore(body)
            if not self.apply():
                return out
        return None


def groups_of(part):
    g = {}
    for p, k in part.items():
        g.setdefault(k, set()).add(p)
    return {frozenset(x) for x in g.values()}


def numeric(v):
    return isinstance(v, (Poly, int, float, Fraction)) and not isinstance(v, bool)


def vkey(v):
    if isinstance(v, (Poly, Atom)):
        return v
    if isinstance(v, bool):
        return ('b', v)
    if numeric(v) and T.finite(v):
        return ('n', Fraction(v))
    return ('o', repr(v))


def same(a, b):
    if a is b:
        return True
    try:
        return vkey(a) == vkey(b)
    except Exception:
        return False


def select(P, targets):
    """loops whose condition, step or body reaches one of the targets: {id(node): key}"""
    base = {}
    for f in P.all_defs:
        base[f['q']] = base.get(f['q'], False) or any(targets(n.get('callee') or {}) for n in EF.fn_nodes(f))
    defs = {}
    calls = {}
    for f in P.all_defs:
        defs.setdefault(f['usr'], f)
    hot = set()

    def direct(n):
        c = n.get('callee') or {}
        if targets(c):
            return True
        q = c.get('q') or ''
        # a call of a closure counts when the function that makes the closure reaches a target
        return '(anonymous class)' in q and base.get(q.split('(')[0], False)
    nodes = {u: list(EF.fn_nodes(f)) for u, f in defs.items()}
    for u, ns in nodes.items():
        calls[u] = {(n.get('callee') or {}).get('usr') for n in ns} - {None}
        if any(direct(n) for n in ns):
            hot.add(u)
    grow = True
    while grow:
        grow = False
        for u, cs in calls.items():
            if u not in hot and cs & hot:
                hot.add(u)
                grow = True
    out = {}
    for f in P.all_defs:
        k = 0
        for n in EF.fn_nodes(f):
            if n.get('k') in ('while', 'do', 'for', 'rfor'):
                k += 1
                if any(direct(m) or (m.get('callee') or {}).get('usr') in hot for m in EF.walk(n)):
                    out[id(n)] = '%s loop %d' % (f['q'].split('::')[-1], k)
    return out


def numeric_work(c):
    """calls that evaluate equations, solve a linear system or call a function object of vectors"""
    q = c.get('q') or ''
    if q in ('tomsolver::SolveLinear', 'tomsolver::SymMat::Calc', 'tomsolver::SymVec::Calc', 'tomsolver::SymMat::ToMat', 'tomsolver::SymVec::ToVec'):
        return True
    return q.startswith('std::function<') and c.get('n') == 'operator()' and ('tomsolver::Vec' in q or 'tomsolver::Mat' in q)
