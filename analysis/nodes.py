"""Construction and inspection of abstract expression trees."""
from fractions import Fraction
import terms as T
from terms import Atom, Poly, is_const
from loader import strip_cvref, AnalysisBroken
from interp import *

NI = 'tomsolver::internal::NodeImpl'
NODE = 'std::unique_ptr<tomsolver::internal::NodeImpl>'
UNARY = ['MATH_SIN', 'MATH_COS', 'MATH_TAN', 'MATH_ARCSIN', 'MATH_ARCCOS', 'MATH_ARCTAN', 'MATH_SQRT', 'MATH_LOG', 'MATH_LOG2',
         'MATH_LOG10', 'MATH_EXP', 'MATH_POSITIVE', 'MATH_NEGATIVE']
BINARY = ['MATH_ADD', 'MATH_SUB', 'MATH_MULTIPLY', 'MATH_DIVIDE', 'MATH_POWER', 'MATH_AND', 'MATH_OR', 'MATH_MOD']
SYMBOL = {'MATH_ADD': '+', 'MATH_SUB': '-', 'MATH_MULTIPLY': '*', 'MATH_DIVIDE': '/', 'MATH_POWER': '^', 'MATH_AND': '&',
          'MATH_OR': '|', 'MATH_MOD': '%', 'MATH_POSITIVE': '+', 'MATH_NEGATIVE': '-', 'MATH_SIN': 'sin', 'MATH_COS': 'cos',
          'MATH_TAN': 'tan', 'MATH_ARCSIN': 'asin', 'MATH_ARCCOS': 'acos', 'MATH_ARCTAN': 'atan', 'MATH_SQRT': 'sqrt',
          'MATH_LOG': 'log', 'MATH_LOG2': 'log2', 'MATH_LOG10': 'log10', 'MATH_EXP': 'exp', 'MATH_LEFT_PARENTHESIS': '(',
          'MATH_RIGHT_PARENTHESIS': ')'}


class Nodes:
    """field roles of the expression node class in one view"""

    def __init__(self, prog):
        self.P = prog
        r = prog.records.get(NI)
        if r is None:
            raise AnalysisBroken('class NodeImpl not found')
        self.rec = r
        tu = r['_tu']
        by = {}
        self.types = {}
        for f in r['fields']:
            t = strip_cvref(tu.types[f['t']])
            self.types[f['n']] = t
            by.setdefault(t, []).append(f['n'])
        try:
            self.type, = by['tomsolver::NodeType']
            self.op, = by['tomsolver::MathOperator']
            self.value, = by['double']
            self.name, = by['std::basic_string<char>']
            self.parent, = by[NI + ' *']
            self.left, self.right = by[NODE]
        except (KeyError, ValueError):
            raise AnalysisBroken('NodeImpl has unexpected fields: %s' % by)
        self.fields = [self.type, self.op, self.value, self.name, self.parent, self.left, self.right]
        self.extra = [f for f in self.types if f not in self.fields]
        e = {x: v for x, v in self.enum('tomsolver::NodeType')}
        self.NUMBER, self.OPERATOR, self.VARIABLE = e['NUMBER'], e['OPERATOR'], e['VARIABLE']
        self.ops = dict(self.enum('tomsolver::MathOperator'))
        self.opname = {v: k for k, v in self.ops.items()}
        self.NULL = self.ops['MATH_NULL']
        self.unary = frozenset(self.ops[x] for x in UNARY)
        self.binary = frozenset(self.ops[x] for x in BINARY)

    def enum(self, q):
        e = self.P.enums.get(q)
        if e is None:
            raise AnalysisBroken('enum %s not found' % q)
        return [(x['n'], int(x['v'])) for x in e['e']]

    def mk(self, typ, op, value, name, l=None, r=None):
        o = Obj(NI)
        for f, v in ((self.type, typ), (self.op, op), (self.value, value), (self.name, name)):
            o.f[f] = Cell(v, typ=self.types[f])
        o.f[self.parent] = Cell(None)
        for f in self.extra:
            o.f[f] = Cell(0)
        c = Cell(o, typ=NI)
        o.f[self.left] = Cell(UPtr(l))
        o.f[self.right] = Cell(UPtr(r))
        for x in (l, r):
            if x is not None:
                x.v.f[self.parent].v = Ptr(c)
        return c

    def num(self, v):
        return self.mk(self.NUMBER, self.NULL, v, '')

    def var(self, n):
        return self.mk(self.VARIABLE, self.NULL, 0, n)

    def opn(self, op, l=None, r=None):
        """unary operators keep their operand in the same field as the library's own constructors do"""
        if isinstance(op, str):
            op = self.ops[op]
        return self.mk(self.OPERATOR, op, 0, '', l, r)

    def opaque(self, i, name, ops):
        """an operator node about which only the set of possible operators is known"""
        a = Atom('sym', name, 'op')
        i.path.dom[a] = frozenset(ops)
        c = self.mk(self.OPERATOR, a, 0, '')
        c.v.tag = ('opaque', name)
        return c

    # -------------------------------------------------------- reading
    def get(self, c, f):
        return c.v.f[f].v

    def child(self, c, f):
        v = c.v.f[f].v
        return v.cell if isinstance(v, UPtr) else None

    def kids(self, c):
        return [x for x in (self.child(c, self.left), self.child(c, self.right)) if x is not None]

    def well_formed(self, I, root, what='result'):
        """list of defects of the tree below root (parent links, arity, released nodes, sharing)"""
        bad = []
        if root is None:
            return ['%s is an empty node' % what]
        seen = set()
        st = [(root, None, what)]
        while st:
            c, par, path = st.pop()
            if c is None:
                continue
            if c.freed:
                bad.append('%s refers to a released node' % path)
                continue
            if id(c) in seen:
                bad.append('%s is shared' % path)
                continue
            seen.add(id(c))
            p = self.get(c, self.parent)
            pc = p.cell if isinstance(p, (Ptr, UPtr)) else p
            if pc is not par:
                bad.append('%s has a wrong parent link' % path)
            l, r = self.child(c, self.left), self.child(c, self.right)
            if isinstance(c.v.tag, tuple) and c.v.tag[0] == 'opaque' and not getattr(self, 'full', False):
                if l is None and r is None:
                    continue
            t = I.res(self.get(c, self.type))
            if t == self.OPERATOR:
                o = I.res(self.get(c, self.op))
                if isinstance(o, int):
                    if o in self.unary:
                        if (l is None) == (r is None):
                            bad.append('%s: unary %s has %d operands' % (path, self.opname.get(o), 0 if l is None else 2))
                        elif l is None and self.unary_field == self.left or r is None and self.unary_field == self.right:
                            bad.append('%s: operand of unary %s is in the wrong place' % (path, self.opname.get(o)))
                    elif o in self.binary:
                        if l is None or r is None:
                            bad.append('%s: binary %s lacks an operand' % (path, self.opname.get(o)))
                    else:
                        bad.append('%s: operator node with operator %s' % (path, self.opname.get(o, o)))
            else:
                if l is not None or r is not None:
                    bad.append('%s: leaf with operands' % path)
            st.append((l, c, path + '.L'))
            st.append((r, c, path + '.R'))
        return bad

    def cells(self, root):
        out, st, seen = [], [root], set()
        while st:
            c = st.pop()
            if c is None or id(c) in seen:
                continue
            seen.add(id(c))
            out.append(c)
            if isinstance(c.v, Obj):
                st += [self.child(c, self.left), self.child(c, self.right)]
        return out

    def shape(self, I, c):
        """a comparable picture of a tree"""
        if c is None:
            return None
        if c.freed:
            return 'released'
        t = I.res(self.get(c, self.type))
        if t == self.NUMBER:
            return ('num', self.get(c, self.value))
        if t == self.VARIABLE:
            return ('var', self.get(c, self.name))
        o = I.res(self.get(c, self.op))
        tag = c.v.tag[1] if isinstance(c.v.tag, tuple) else None
        if tag is not None and self.child(c, self.left) is None and self.child(c, self.right) is None:
            return ('opaque', tag)
        return ('op', self.opname.get(o, o) if isinstance(o, int) else o, self.shape(I, self.child(c, self.left)), self.shape(I, self.child(c, self.right)))

    def full(self, I, c):
        """all data of every node (for copies)"""
        if c is None:
            return None
        return tuple(I.res(self.get(c, f)) for f in (self.type, self.op, self.value, self.name)) + tuple(self.get(c, f) for f in self.extra) + (
            self.full(I, self.child(c, self.left)), self.full(I, self.child(c, self.right)))

    def text(self, s):
        if s is None:
            return '()'
        if isinstance(s, str):
            return s
        if s[0] == 'num':
            return repr(s[1])
        if s[0] in ('var', 'opaque'):
            return str(s[1])
        k = SYMBOL.get(s[1], s[1])
        if s[2] is None or s[3] is None:
            return '%s(%s)' % (k, self.text(s[2] or s[3]))
        return '(%s %s %s)' % (self.text(s[2]), k, self.text(s[3]))

    unary_field = None

    def learn_unary(self, interp):
        """which field the library uses for the operand of a unary operator (from its own operator-)"""
        if self.unary_field:
            return
        f = None
        for g in self.P.find('tomsolver::internal::UnaryOperator') or []:
            f = g
        self.unary_field = self.left
