"""Herbrand terms modulo ring identities (a value-numbering domain).

A numeric value is a Python number (constant) or a Poly: a finite sum of rational multiples of monomials over atoms.
An atom is a hash-consed application (op, args) — an input symbol is the atom ('sym', name).
"""
from fractions import Fraction
import math


class Atom:
    __slots__ = ('op', 'args', 'id', '__weakref__')
    table = {}
    count = 0

    def __new__(cls, op, *args):
        key = (op,) + args
        a = cls.table.get(key)
        if a is None:
            a = object.__new__(cls)
            a.op, a.args, a.id = op, args, cls.count
            cls.count += 1
            cls.table[key] = a
        return a

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id

    def __repr__(self):
        if self.op == 'sym':
            return str(self.args[0])
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.args)))


class Poly:
    """immutable; d: {monomial: Fraction}; monomial = tuple of (atom, exponent) sorted by atom id; exponent may be < 0"""
    __slots__ = ('d', 'key', 'integral')

    def __init__(self, d, integral=False):
        self.d = d
        self.key = frozenset(d.items())
        self.integral = integral

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        return isinstance(o, Poly) and self.key == o.key

    def __repr__(self):
        out = []
        for m, c in sorted(self.d.items(), key=lambda mc: [(a.id, e) for a, e in mc[0]]):
            s = '*'.join(repr(a) if e == 1 else '%r^%d' % (a, e) for a, e in m)
            if not s:
                out.append(fmt(c))
            elif c == 1:
                out.append(s)
            elif c == -1:
                out.append('-' + s)
            else:
                out.append(fmt(c) + '*' + s)
        return ' + '.join(out).replace('+ -', '- ') if out else '0'


def show(x, depth=4):
    """a printed form of bounded size"""
    if isinstance(x, Atom):
        if x.op == 'sym':
            return str(x.args[0])
        return '%s(%s)' % (x.op, ', '.join(show(a, depth - 1) for a in x.args) if depth > 0 else '...')
    if isinstance(x, Poly):
        out = []
        for m, c in sorted(x.d.items(), key=lambda mc: [(a.id, e) for a, e in mc[0]])[:8]:
            s = '*'.join(show(a, depth - 1) + ('' if e == 1 else '^%d' % e) for a, e in m)
            out.append(fmt(c) if not s else s if c == 1 else '-' + s if c == -1 else fmt(c) + '*' + s)
        return ' + '.join(out).replace('+ -', '- ') + (' + ...' if len(x.d) > 8 else '') if out else '0'
    if isinstance(x, (tuple, list)):
        return '(%s)' % ', '.join(show(a, depth - 1) for a in x)
    return repr(x)


def fmt(c):
    c = Fraction(c)
    if c.denominator == 1:
        return str(c.numerator)
    return '%g' % float(c)


def is_const(x):
    return isinstance(x, (int, float, bool, Fraction))


def finite(x):
    return not (isinstance(x, float) and (math.isinf(x) or math.isnan(x)))


def topoly(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, Atom):
        return Poly({((x, 1),): Fraction(1)})
    if is_const(x):
        if not finite(x):
            return Poly({((Atom('nonfinite', 'nan' if math.isnan(x) else ('inf' if x > 0 else '-inf')), 1),): Fraction(1)})
        return Poly({(): Fraction(x)} if x != 0 else {})
    raise TypeError('not numeric: %r' % (x,))


def norm(p):
    """a constant polynomial becomes a Python number"""
    if isinstance(p, Poly):
        if not p.d:
            return 0
        if len(p.d) == 1 and () in p.d:
            c = p.d[()]
            return int(c) if c.denominator == 1 else c
    return p


def sym(name, integral=False):
    p = topoly(Atom('sym', name))
    p.integral = integral
    return p


def atom_num(op, *args):
    return topoly(Atom(op, *[unwrap(a) for a in args]))


def unwrap(x):
    x = norm(x) if isinstance(x, Poly) else x
    if isinstance(x, float) and finite(x) and x == int(x) and abs(x) < 2 ** 53:
        return int(x)
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    return x


def add(a, b, sa=1, sb=1):
    if is_const(a) and is_const(b) and finite(a) and finite(b):
        return unwrap(Fraction(a) * sa + Fraction(b) * sb)
    if is_const(a) and is_const(b):
        return float(a) * sa + float(b) * sb
    d = {}
    for p, s in ((topoly(a), sa), (topoly(b), sb)):
        for m, c in p.d.items():
            v = d.get(m, 0) + c * s
            if v:
                d[m] = v
            else:
                d.pop(m, None)
    return norm(Poly(d))


def sub(a, b):
    return add(a, b, 1, -1)


def single(v):
    """rounding to single precision"""
    import struct, math
    if not is_const(v):
        return v if isinstance(v, str) else atom_num('f32', v)
    x = float(v)
    if x != x or math.isinf(x) or float(struct.unpack('f', struct.pack('f', max(-3.0e38, min(3.0e38, x))))[0]) == x:
        return v
    if abs(x) > 3.4028235677973366e38:
        return math.copysign(math.inf, x)
    return unwrap(struct.unpack('f', struct.pack('f', x))[0])


def neg(a):
    return add(0, a, 1, -1)


def mono_mul(m, n):
    d = dict(m)
    for a, e in n:
        v = d.get(a, 0) + e
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return tuple(sorted(d.items(), key=lambda ae: ae[0].id))


def mul(a, b):
    if is_const(a) and is_const(b):
        if finite(a) and finite(b):
            return unwrap(Fraction(a) * Fraction(b))
        return float(a) * float(b)
    d = {}
    for m, c in topoly(a).d.items():
        for n, e in topoly(b).d.items():
            k = mono_mul(m, n)
            v = d.get(k, 0) + c * e
            if v:
                d[k] = v
            else:
                d.pop(k, None)
    return norm(Poly(d))


def inv(b):
    if is_const(b):
        if finite(b) and b != 0:
            return unwrap(1 / Fraction(b))
        return atom_num('inv', b)
    p = topoly(b)
    if len(p.d) == 1:
        (m, c), = p.d.items()
        return norm(Poly({tuple((a, -e) for a, e in m): 1 / c}))
    # normalise the leading coefficient
    lead = min(p.d.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))
    c = lead[1]
    q = Poly({m: v / c for m, v in p.d.items()})
    at = Atom('inv', q)
    return norm(Poly({((at, 1),): 1 / c}))


def div(a, b):
    if is_const(a) and a == 0 and not is_const(b):
        return 0
    return mul(a, inv(b))


def atoms(x, acc=None):
    """all atoms occurring in x (recursively)"""
    acc = set() if acc is None else acc
    if isinstance(x, Poly):
        for m in x.d:
            for a, _ in m:
                atoms(a, acc)
    elif isinstance(x, Atom):
        if x not in acc:
            acc.add(x)
            for y in x.args:
                atoms(y, acc)
    elif isinstance(x, (tuple, frozenset, list)):
        for y in x:
            atoms(y, acc)
    return acc


def atoms_top(x):
    return {a for m in x.d for a, _ in m}


def split_const(p):
    """p = k*(q + c) with q normalised without constant part -> (q, k, k*c); q None if constant"""
    p = topoly(p)
    c = p.d.get((), Fraction(0))
    rest = {m: v for m, v in p.d.items() if m != ()}
    if not rest:
        return None, Fraction(1), c
    lead = min(rest.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))[1]
    return Poly({m: v / lead for m, v in rest.items()}), lead, c


class Infeasible(Exception):
    pass


NONNEG = (Fraction(0), False, None, True)
UNIT = (Fraction(-1), False, Fraction(1), False)
RANGE = {'sqrt': NONNEG, 'exp': NONNEG, 'abs': NONNEG, 'sin': UNIT, 'cos': UNIT, 'acos': NONNEG, 'strlen': NONNEG}


def natural(q):
    """interval every finite value of a form lies in"""
    if len(q.d) == 1:
        (m, c), = q.d.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op in RANGE:
            return RANGE[m[0][0].op]
        if all(e % 2 == 0 for a, e in m):
            return NONNEG
    return None


def inverse(q, x):
    """q == x stated about the operand of an invertible form: a difference to be zero, a truth value, or None"""
    if len(q.d) != 1:
        return None
    (m, c), = q.d.items()
    if len(m) != 1:
        return None
    a, e = m[0]
    if e == -1:
        return False if x == 0 else sub(topoly(a), 1 / x)
    if e == 1 and a.op == 'log' and x == 0:
        return sub(a.args[0], 1)
    if e == 1 and a.op == 'sqrt' and x in (0, 1):
        return sub(a.args[0], x)
    return None


class Facts:
    """Constraints collected along one path: intervals with holes for normalised linear forms (no solver)."""

    def __init__(self):
        self.iv = {}     # q -> [lo, lo_open, hi, hi_open, set(excluded), integral]
        self.opaque = {}  # boolean atom -> bool

    def get(self, q, integral):
        r = self.iv.get(q)
        if r is None:
            b = natural(q) or (None, True, None, True)
            r = [b[0], b[1], b[2], b[3], set(), integral]
            self.iv[q] = r
        return r

    def query(self, diff, rel, integral=False):
        """decides diff rel 0 for rel in '<','<=','==': True/False/None"""
        q, k, c = split_const(diff)
        if q is None:
            return {'<': c < 0, '<=': c <= 0, '==': c == 0}[rel]
        # k*q + c rel 0
        x = -c / k
        if rel == '==':
            e = inverse(q, x)
            if e is not None:
                return e if isinstance(e, bool) else self.query(e, '==')
        r = self.iv.get(q)
        if rel == '==' and integral and x.denominator != 1:
            return False
        if r is None:
            b = natural(q)
            if b is None:
                return None
            r = (b[0], b[1], b[2], b[3], (), integral)
        lo, lo_o, hi, hi_o, ex, _ = r
        if rel == '==':
            if x in ex or (lo is not None and (x < lo or (x == lo and lo_o))) or (hi is not None and (x > hi or (x == hi and hi_o))):
                return False
            if lo is not None and lo == hi == x:
                return True
            return None
        if k < 0:
            # q > x  (for '<'), q >= x
            above, orequal = True, rel == '<='
        else:
            above, orequal = False, rel == '<='
        if above:
            if lo is not None and (lo > x or (lo == x and (lo_o or orequal))):
                return True
            if hi is not None and (hi < x or (hi == x and (hi_o or not orequal))):
                return False
            if orequal is False and lo == x and x in ex:
                return True
        else:
            if hi is not None and (hi < x or (hi == x and (hi_o or orequal))):
                return True
            if lo is not None and (lo > x or (lo == x and (lo_o or not orequal))):
                return False
            if orequal is False and hi == x and x in ex:
                return True
        return None

    def assume(self, diff, rel, truth, integral=False):
        q, k, c = split_const(diff)
        if q is None:
            return
        x = -c / k
        if rel == '==':
            e = inverse(q, x)
            if e is not None:
                if not isinstance(e, bool):
                    self.assume(e, '==', truth)
                return
        r = self.get(q, integral)
        if rel == '==':
            if truth:
                r[0] = r[2] = x
                r[1] = r[3] = False
            else:
                r[4].add(x)
                if r[0] == x:
                    r[1] = True
                if r[2] == x:
                    r[3] = True
        else:
            strict = rel == '<'
            upper = (k > 0) == truth       # q <(=) x   or q >(=) x
            if not truth:
                strict = not strict
            if integral:
                if strict:
                    # q < x -> q <= ceil(x)-1
                    x = Fraction(math.ceil(x) - 1) if upper else Fraction(math.floor(x) + 1)
                    strict = False
                else:
                    x = Fraction(math.floor(x)) if upper else Fraction(math.ceil(x))
            if x in r[4] and not integral:
                strict = True
            if upper:
                if r[2] is None or x < r[2] or (x == r[2] and strict):
                    r[2], r[3] = x, strict
            else:
                if r[0] is None or x > r[0] or (x == r[0] and strict):
                    r[0], r[1] = x, strict
        if integral:
            while r[0] is not None and r[0] in r[4]:
                r[0] += 1
            while r[2] is not None and r[2] in r[4]:
                r[2] -= 1
        if r[0] is not None and r[2] is not None and (r[0] > r[2] or (r[0] == r[2] and (r[1] or r[3]))):
            raise Infeasible()

    def value_of(self, q):
        r = self.iv.get(q)
        if r and r[0] is not None and r[0] == r[2]:
            return r[0]
        return None
