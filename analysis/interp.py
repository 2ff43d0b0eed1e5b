"""Abstract interpreter over the exported, type-resolved syntax trees.

Abstract values are constants, Herbrand/polynomial terms (terms.py), symbolic enumerators with a set of possible
values, and abstract heap cells.  Control flow is partitioned by traces: whenever a condition is not decided by the
facts of the trace, the analysis continues with each outcome in turn.  Nothing is compiled or executed.
"""
import re, math, sys, time
from fractions import Fraction
import terms as T
from terms import Poly, Atom, Facts, Infeasible, is_const
from loader import strip_cvref, strip_ref, AnalysisBroken
import report

sys.setrecursionlimit(100000)

INTTYPES = {'int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'signed char',
            'unsigned char', 'long long', 'unsigned long long', 'bool', 'std::size_t', 'size_t', 'std::ptrdiff_t'}
UNSIGNED = {'uint64_t': 64, 'std::uint64_t': 64, 'uint32_t': 32, 'std::uint32_t': 32, 'unsigned int': 32, 'unsigned long': 64, 'size_t': 64, 'std::size_t': 64, 'unsigned char': 8,
            'unsigned short': 16, 'unsigned long long': 64}


class Undecided(Exception):
    """Something outside the analysed fragment; the obligation stays undecided."""


class Crash(Exception):
    """The trace performs an operation with undefined behaviour (null dereference, empty container, ...)."""

    def __init__(self, what, where):
        Exception.__init__(self, what)
        self.what, self.where = what, where


class CppThrow(Exception):
    def __init__(self, val, cls, bases, where):
        Exception.__init__(self, cls)
        self.val, self.cls, self.bases, self.where = val, cls, bases, where


class SummaryHit(Exception):
    def __init__(self, cell, depth):
        Exception.__init__(self, 'summary')
        self.cell, self.depth = cell, depth


class Cut(Exception):
    """a trace has reached the back edge of an abstracted loop (loops.py)"""

    def __init__(self, rec):
        Exception.__init__(self, 'cut')
        self.rec = rec


class BreakX(Exception):
    pass


class ContinueX(Exception):
    pass


class ReturnX(Exception):
    def __init__(self, v):
        self.v = v


class Cell:
    __slots__ = ('v', 'freed', 'seq', 'name', 'typ', 'src')

    def __init__(self, v=None, name=None, typ=None):
        self.v = v
        self.freed = False
        self.seq = None
        self.src = None
        self.name = name
        self.typ = typ

    def __repr__(self):
        return 'Cell(%r)' % (self.v,)


def cval(v):
    """a constant of the exporter (large integers come as text)"""
    return int(v) if isinstance(v, str) else v


class Obj:
    __slots__ = ('cls', 'f', 'refs', 'tag', 'home')

    def __init__(self, cls, f=None, refs=()):
        self.cls = cls
        self.f = f if f is not None else {}
        self.refs = set(refs)
        self.tag = None
        self.home = None        # the cell in which a constructor ran (its `this`)

    def __repr__(self):
        return '%s{%s}' % (self.cls.split('::')[-1], ', '.join('%s' % k for k in self.f))


def cell_of(v, typ=None, name=None):
    """the cell of a new object: the one its constructor ran in (so `this` kept by the constructor is its address)"""
    if isinstance(v, Obj) and v.home is not None and v.home.v is v and not v.home.freed:
        c = v.home
        v.home = None
        if typ is not None:
            c.typ = typ
        if name is not None:
            c.name = name
        return c
    return Cell(v, name=name, typ=typ)


class Ptr:
    __slots__ = ('cell',)

    def __init__(self, cell):
        self.cell = cell


class UPtr:
    __slots__ = ('cell',)

    def __init__(self, cell=None):
        self.cell = cell


class Seq:
    __slots__ = ('kind', 'items', 'et')

    def __init__(self, kind, vals=(), et=None, cells=False):
        self.kind = kind
        self.et = et
        self.items = []
        for x in vals:
            self.append(x if cells else Cell(x))

    def append(self, c):
        c.seq = self
        self.items.append(c)

    def vals(self):
        return [c.v for c in self.items]


class SliceRef:
    """std::slice_array / gslice_array: a view of cells"""

    def __init__(self, cells):
        self.cells = cells


class MapV:
    def __init__(self, kind='map', items=()):
        self.kind = kind           # map | set
        self.items = list(items)   # [(key, Cell or None)]


class RefW:
    __slots__ = ('cell',)

    def __init__(self, cell):
        self.cell = cell


class Tup:
    __slots__ = ('cells', 'pair', 'refs')

    def __init__(self, cells, pair=False, refs=()):
        self.cells = cells
        self.pair = pair
        self.refs = set(refs)


class Iter:
    __slots__ = ('c', 'i', 'step')

    def __init__(self, c, i, step=1):
        self.c, self.i, self.step = c, i, step


class Closure:
    def __init__(self, e, caps, this, frame_tu):
        self.e, self.caps, self.this, self.tu = e, caps, this, frame_tu
        self.file, self.byref = None, frozenset()


class Fn:
    def __init__(self, callee, tu):
        self.callee, self.tu = callee, tu


class SStr:
    """string made of constant pieces and opaque pieces"""
    __slots__ = ('p',)

    def __init__(self, pieces):
        out = []
        for x in pieces:
            if isinstance(x, SStr):
                xs = x.p
            else:
                xs = (x,)
            for y in xs:
                if isinstance(y, str) and out and isinstance(out[-1], str):
                    out[-1] += y
                elif y != '':
                    out.append(y)
        self.p = tuple(out)

    def __eq__(self, o):
        return isinstance(o, SStr) and self.p == o.p

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return 'SStr' + repr(self.p)


def mkstr(pieces):
    s = SStr(pieces)
    if len(s.p) == 0:
        return ''
    if len(s.p) == 1 and isinstance(s.p[0], str):
        return s.p[0]
    return s


class Stream:
    def __init__(self):
        self.p = []


class Opaque:
    """a value of a type the analysis does not model (compared by identity only)"""

    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return 'Opaque(%s)' % self.what


class Frame:
    __slots__ = ('fn', 'tu', 'vars', 'this', 'node')

    def __init__(self, fn, tu, this):
        self.fn, self.tu, self.this = fn, tu, this
        self.vars = {}


class Path:
    def __init__(self, prefix):
        self.prefix = prefix
        self.log = []          # [(chosen, noptions, label)]
        self.facts = Facts()
        self.dom = {}          # Atom -> frozenset of ints
        self.cls = {}          # Poly -> 'finite'|'inf'|'-inf'|'nan'
        self.nanleaf = {}      # symbol -> is it not a number?
        self.events = []
        self.notes = []
        self.statics = {}
        self.bools = {}
        self.loose = {}        # heap objects held by plain pointers only

    def labels(self):
        return [str(l(c)) if callable(l) else l for c, n, l in self.log if n > 1]


class Outcome:
    def __init__(self, kind, value, path, where=None, exc=None):
        self.kind, self.value, self.path, self.where, self.exc = kind, value, path, where, exc

    def desc(self):
        return '; '.join(self.path.labels()) or 'unconditionally'


class Interp:
    def __init__(self, prog, stubs=None, opts=None):
        self.P = prog
        self.stubs = stubs or {}      # qualified name -> callable(interp, fn/callee, this, args, e)
        self.o = dict(max_paths=4000, fuel=200000, nan=False, run_dtors=False, free=True, depth=200)
        self.o.update(opts or {})
        self.covered = set()          # (file,line) of statements evaluated
        self.funcs_seen = set()
        import stdmodel
        self.std = stdmodel
        self.path = None
        self.frames = []

    # ------------------------------------------------------------ exploration
    def explore(self, body):
        """runs body(self) for every trace; returns the outcomes"""
        res = []
        prefix = []
        n = used = 0
        while True:
            n += 1
            if n > 1:
                used += self.o['fuel'] - max(self.fuel, 0)
            if n > self.o['max_paths'] or time.time() > report.DEADLINE or self.o.get('total') and used > self.o['total']:
                res.append(Outcome('undecided', None, self.path, exc='too many traces'))
                return res
            self.path = Path(prefix)
            self.fuel = self.o['fuel']
            self.frames = []
            self.loops = []
            self.line = 0
            self.last_op = {}
            self.dtor_depth = 0
            self.max_dtor = 0
            self.max_depth = 0
            try:
                v = body(self)
                res.append(Outcome('return', v, self.path))
            except CppThrow as t:
                res.append(Outcome('throw', t, self.path, t.where))
            except Cut as c:
                res.append(Outcome('cut', c.rec, self.path, c.rec.where))
            except Crash as c:
                res.append(Outcome('crash', c.what, self.path, c.where))
            except Infeasible:
                pass
            except Undecided as u:
                res.append(Outcome('undecided', None, self.path, self.where(), exc=str(u)))
            except SummaryHit as s:
                res.append(Outcome('undecided', None, self.path, self.where(), exc='summary outside loop'))
            except (ReturnX, BreakX, ContinueX):
                res.append(Outcome('undecided', None, self.path, self.where(), exc='stray control flow'))
            except RecursionError:
                res.append(Outcome('undecided', None, self.path, self.where(), exc='analysis recursion limit'))
            except AnalysisBroken:
                raise
            except (KeyError, TypeError, AttributeError, ValueError, IndexError, AssertionError) as ex:
                if self.o.get('debug'):
                    raise
                import traceback
                tb = traceback.extract_tb(ex.__traceback__)[-1]
                res.append(Outcome('undecided', None, self.path, self.where(),
                                   exc='unmodelled construct: %r @%s:%d' % (ex, tb.name, tb.lineno)))
            log = self.path.log
            while log and log[-1][0] == log[-1][1] - 1:
                log.pop()
            if not log:
                return res
            prefix = [c for c, _, _ in log[:-1]] + [log[-1][0] + 1]

    def choose(self, n, labels):
        p = self.path
        i = len(p.log)
        c = p.prefix[i] if i < len(p.prefix) else 0
        p.log.append((c, n, labels[c] if not callable(labels) else labels))
        return c

    def where(self):
        if self.frames:
            f = self.frames[-1]
            fn = f.fn
            file = fn.get('file') or (f.fn.get('_file')) or f.tu.name
            return '%s:%s in %s' % (file, self.line, fn.get('q') or fn.get('_q', 'lambda'))
        return '?'

    def crash(self, what):
        raise Crash(what, self.where())

    # ------------------------------------------------------------ decisions
    def cmp(self, op, a, b, integral=False):
        """decides a op b (a Python bool is returned; the trace is split when undecided)"""
        a, b = self.res(a), self.res(b)
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if op in ('>', '>='):
            return self.cmp({'>': '<', '>=': '<='}[op], b, a, integral)
        if op == '!=':
            return not self.cmp('==', a, b, integral)
        if is_const(a) and is_const(b):
            return {'<': a < b, '<=': a <= b, '==': a == b}[op]
        if isinstance(a, Atom) or isinstance(b, Atom):
            return self.cmp_sym(op, a, b)
        if isinstance(a, (str, SStr)) or isinstance(b, (str, SStr)):
            return self.cmp_str(op, a, b)
        if isinstance(a, Poly) or isinstance(b, Poly):
            return self.cmp_num(op, a, b, integral)
        if a is None or b is None or isinstance(a, (Ptr, Iter)) or isinstance(b, (Ptr, Iter)):
            return self.cmp_ptr(op, a, b)
        raise Undecided('comparison of %r and %r' % (a, b))

    def cmp_num(self, op, a, b, integral):
        nonfin = [x for x in (a, b) if is_const(x) and not T.finite(x)]
        if nonfin:
            x = b if nonfin[0] is a else a
            c = nonfin[0]
            k = self.classify(x)
            if k == 'finite':
                if op == '==' or c != c:
                    return False
                return (c > 0) == (x is a)
            v = {'inf': math.inf, '-inf': -math.inf, 'nan': math.nan}[k]
            aa, bb = (v, c) if x is a else (c, v)
            return {'<': aa < bb, '<=': aa <= bb, '==': aa == bb}[op]
        if a == b:
            if self.o['nan'] and not integral and isinstance(a, Poly):
                if self.classify(a) == 'nan' if not self.o.get('nan_leaves') else self.is_nan(a):
                    return False
            return op != '<'
        if self.o['nan'] and not integral:
            for x in (a, b):
                if isinstance(x, Poly) and x in self.path.cls and self.path.cls[x] != 'finite':
                    if self.path.cls[x] == 'nan':
                        return False
        if self.o['nan'] and self.o.get('nan_leaves') and not integral:
            if self.is_nan(a) or self.is_nan(b):
                return False
        integral = integral or ((not isinstance(a, Poly) or a.integral or self.int_poly(a)) and (not isinstance(b, Poly) or self.int_poly(b)) and not isinstance(a, (float, Fraction)) and not isinstance(b, (float, Fraction)))
        d = T.sub(a, b)
        f = self.path.facts
        q = f.query(d, op, integral)
        if q is not None:
            return q
        w = self.where()
        c = self.choose(2, lambda i: '%s(%s %s %s) [%s]' % ('' if i == 0 else 'not ', T.show(a), op, T.show(b), w.split(' ')[0].split('/')[-1]))
        f.assume(d, op, c == 0, integral)
        return c == 0

    def int_poly(self, p):
        return all(a.op == 'sym' and str(a.args[0]).startswith('#') or a.op in ('int', 'idiv', 'imod', 'trunc', 'strlen') for a in T.atoms(p)) and all(v.denominator == 1 for v in p.d.values())

    def is_nan(self, x):
        """is a value not a number because a value it is computed from is? splits the trace per symbol"""
        if not isinstance(x, Poly) or x.integral:
            return False
        if 'nan' in (self.path.cls.get(x), self.path.cls.get(T.neg(x))):
            return True
        return any([self.leaf_nan(a) for a in sorted(T.atoms_top(x), key=repr)])

    def leaf_nan(self, a):
        if a.op in ('max', 'min'):
            v = [self.is_nan(k) for k in a.args]
            return all(v)
        if a.op != 'sym':
            return any([self.is_nan(k) for k in a.args if isinstance(k, Poly)])
        if str(a.args[0]).startswith(('#', 'config.')):
            return False
        m = self.path.nanleaf
        if a not in m:
            m[a] = self.choose(2, lambda i: '%s is %s number' % (a.args[0], ('a', 'not a')[i])) == 1
        return m[a]

    def classify(self, x):
        if is_const(x):
            return 'finite' if T.finite(x) else ('nan' if x != x else ('inf' if x > 0 else '-inf'))
        if not self.o['nan']:
            return 'finite'
        k = self.path.cls.get(x)
        if k is None and self.o.get('nan_leaves') and self.is_nan(x):
            return 'nan'
        if k is None:
            opts = ['finite', 'inf', '-inf', 'nan']
            if self.o.get('nan_leaves') and all(a.op == 'sym' for a in T.atoms_top(x)):
                opts.pop()      # a polynomial of numbers
            k = opts[self.choose(len(opts), lambda i: '%s is %s' % (T.show(x), opts[i]))]
            self.path.cls[x] = k
        return k

    def domain(self, a):
        return self.path.dom.get(a)

    def res(self, v):
        if isinstance(v, Atom):
            d = self.path.dom.get(v)
            if d is not None and len(d) == 1:
                return next(iter(d))
        return v

    def cmp_sym(self, op, a, b):
        a, b = self.res(a), self.res(b)
        if is_const(a) and is_const(b):
            return {'<': a < b, '<=': a <= b, '==': a == b}[op]
        if isinstance(a, Atom) and isinstance(b, Atom):
            if a is b:
                return op != '<'
            da, db = self.domain(a), self.domain(b)
            if op == '==' and da is not None and db is not None:
                if not (da & db):
                    return False
                # split a completely
                self.split_dom(a, [frozenset([x]) for x in sorted(da)])
                return self.cmp_sym(op, a, b)
        if isinstance(a, Atom) and is_const(b):
            d = self.domain(a)
            f = {'<': lambda x: x < b, '<=': lambda x: x <= b, '==': lambda x: x == b}[op]
            at = a
        elif isinstance(b, Atom) and is_const(a):
            d = self.domain(b)
            f = {'<': lambda x: a < x, '<=': lambda x: a <= x, '==': lambda x: a == x}[op]
            at = b
        else:
            d = None
        if d is None:
            return self.opaque_bool(Atom('cmp' + op, a, b))
        t = frozenset(x for x in d if f(x))
        if not t:
            return False
        if t == d:
            return True
        return self.split_dom(at, [t, d - t]) == 0

    def split_dom(self, at, groups):
        self.maybe_summary(at)
        d = self.path.dom[at]
        gs = [(i, g & d) for i, g in enumerate(groups)]
        gs = [(i, g) for i, g in gs if g]
        if len(gs) == 1:
            self.path.dom[at] = gs[0][1]
            return gs[0][0]
        c = self.choose(len(gs), lambda i: '%r in {%s}' % (at, self.domlabel(at, gs[i][1])))
        self.path.dom[at] = gs[c][1]
        return gs[c][0]

    def domlabel(self, at, g):
        names = getattr(self, 'enum_names', {})
        kind = at.args[1] if len(at.args) > 1 else None
        return ','.join(str(names.get((kind, x), x)) for x in sorted(g))

    def maybe_summary(self, at):
        """branching on the operator of an opaque node"""
        cell = self.last_op.get(at)
        if cell is None or not self.o.get('summaries'):
            return
        for depth in range(len(self.loops) - 1, -1, -1):
            if any(c is cell for c in self.loops[depth]):
                raise SummaryHit(cell, depth)

    def opaque_bool(self, at):
        b = self.path.bools.get(at)
        if b is None:
            b = self.choose(2, lambda i: ('' if i == 0 else 'not ') + repr(at)) == 0
            self.path.bools[at] = b
        return b

    def cmp_str(self, op, a, b):
        if isinstance(a, str) and isinstance(b, str):
            return {'<': a < b, '<=': a <= b, '==': a == b}[op]
        if op == '==':
            if a == b:
                return True
            if isinstance(a, str) and isinstance(b, SStr):
                a, b = b, a
            if isinstance(a, SStr) and isinstance(b, str):
                if not b:
                    for x in a.p:
                        if isinstance(x, str) or (isinstance(x, Atom) and x in self.path.dom):
                            return False
                    return self.cmp('==', self.std.seq_len(self, a), 0, True)
            return self.opaque_bool(Atom('streq', a if isinstance(a, str) else a.p, b if isinstance(b, str) else b.p))
        raise Undecided('string order')

    def cmp_ptr(self, op, a, b):
        if op != '==':
            if isinstance(a, Iter) and isinstance(b, Iter):
                return {'<': a.i < b.i, '<=': a.i <= b.i}[op]
            raise Undecided('pointer order')
        if isinstance(a, Iter) and isinstance(b, Iter):
            if a.c is not b.c and not (isinstance(a.c, (str, SStr)) and a.c == b.c):
                if isinstance(a.c, MapV) or isinstance(b.c, MapV):
                    return False
                raise Undecided('iterators of different containers')
            return a.i == b.i
        ca = self.ptr_cell(a)
        cb = self.ptr_cell(b)
        return ca is cb

    def ptr_cell(self, p):
        if p is None:
            return None
        if isinstance(p, (Ptr, UPtr)):
            return p.cell
        if isinstance(p, Iter):
            return self.std.iter_cell(self, p)
        if isinstance(p, Opaque) or isinstance(p, (Closure, Fn)):
            return p
        if isinstance(p, int) and p == 0:
            return None
        raise Undecided('pointer value %r' % (p,))

    def truth(self, v):
        v = self.res(v)
        if isinstance(v, bool):
            return v
        if is_const(v):
            return v != 0
        if v is None:
            return False
        if isinstance(v, Ptr):
            return v.cell is not None
        if isinstance(v, UPtr):
            return v.cell is not None
        if isinstance(v, Poly):
            return not self.cmp_num('==', v, 0, False)
        if isinstance(v, Atom):
            if v in self.path.dom:
                return not self.cmp_sym('==', v, 0)
            return self.opaque_bool(v)
        if isinstance(v, (Closure, Fn, Iter)):
            return True
        raise Undecided('truth of %r' % (v,))

    # ------------------------------------------------------------ helpers
    def ty(self, idx):
        return self.frames[-1].tu.types[idx]

    def rv_(self, x):
        """value of an argument"""
        return self.res(x.v if isinstance(x, Cell) else x)

    def val(self, x):
        return x.v if isinstance(x, Cell) else x

    def chk(self, cell):
        if cell.freed:
            self.crash('access to a released object')
        return cell

    def record(self, cls):
        return self.P.records.get(cls)

    def fields_of(self, cls):
        out = []
        r = self.record(cls)
        if r is None:
            return out
        for b in r['bases'][1:]:
            if b in self.P.records:
                # bases is the transitive list; take each once
                for f in self.P.records[b]['fields']:
                    out.append((self.P.records[b], f))
        for f in r['fields']:
            out.append((r, f))
        return out

    def copyval(self, v):
        """implicit copy of a value (defaulted copy constructors)"""
        if isinstance(v, Cell):
            v = v.v
        if isinstance(v, UPtr):
            raise Undecided('copy of unique_ptr')
        if isinstance(v, Obj):
            ctor = self.user_ctor(v.cls, 'copy')
            if ctor is not None:
                return self.construct_with(ctor, v.cls, [Cell(v)])
            n = Obj(v.cls, {}, v.refs)
            for k, c in v.f.items():
                n.f[k] = c if k in v.refs else Cell(self.copyval(c.v), typ=c.typ)
            n.tag = v.tag
            return n
        if isinstance(v, Seq):
            if v.kind in ('il', 'initializer_list'):
                return v
            n = Seq(v.kind, (), v.et)
            for c in v.items:
                n.append(Cell(self.copyval(c.v)))
            return n
        if isinstance(v, SliceRef):
            return SliceRef(list(v.cells))
        if isinstance(v, MapV):
            return MapV(v.kind, [(k, None if c is None else Cell(self.copyval(c.v))) for k, c in v.items])
        if isinstance(v, Tup):
            return Tup([c if i in v.refs else Cell(self.copyval(c.v)) for i, c in enumerate(v.cells)], v.pair, v.refs)
        if isinstance(v, Iter):
            return Iter(v.c, v.i, v.step)
        if isinstance(v, Ptr):
            return Ptr(v.cell)
        if isinstance(v, Stream):
            raise Undecided('copy of a stream')
        if isinstance(v, Closure):
            n = Closure(v.e, {k: (c if c.name == '&' or k in v.byref else Cell(self.copyval(c.v))) for k, c in v.caps.items()}, v.this, v.tu)
            n.file, n.byref = v.file, v.byref
            return n
        return v

    def moveval(self, src):
        """value moved out of a cell or prvalue; the source is left empty"""
        if not isinstance(src, Cell):
            return src
        v = src.v
        h = self.o.get('assign_hook')
        if h and isinstance(v, (UPtr, Seq, MapV, str, SStr)):
            h(self, src, None)
        if isinstance(v, UPtr):
            r = UPtr(v.cell)
            v.cell = None
            return r
        if isinstance(v, Seq):
            if v.kind in ('il', 'initializer_list'):
                return v
            r = Seq(v.kind, (), v.et)
            if v.kind == 'array':
                for c in v.items:
                    r.append(Cell(self.moveval(c)))
                return r
            for c in v.items:
                r.append(c)
            v.items = []
            return r
        if isinstance(v, MapV):
            r = MapV(v.kind, v.items)
            v.items = []
            return r
        if isinstance(v, Obj):
            ctor = self.user_ctor(v.cls, 'move')
            if ctor is not None:
                return self.construct_with(ctor, v.cls, [src])
            n = Obj(v.cls, {}, v.refs)
            for k, c in v.f.items():
                n.f[k] = c if k in v.refs else Cell(self.moveval(c), typ=c.typ)
            n.tag = v.tag
            return n
        if isinstance(v, Tup):
            return Tup([c if i in v.refs else Cell(self.moveval(c)) for i, c in enumerate(v.cells)], v.pair, v.refs)
        if isinstance(v, str) or isinstance(v, SStr):
            src.v = ''
            return v
        return self.copyval(v)

    def user_ctor(self, cls, kind):
        """user-provided copy/move constructor of a repo class (or None)"""
        key = ('ctor', cls, kind)
        if not hasattr(self.P, '_uc'):
            self.P._uc = {}
        if key in self.P._uc:
            return self.P._uc[key]
        r = None
        for f in self.P.funcs.values():
            if f.get('ctor') and f.get('cls') == cls and f.get('body') is not None and not f.get('defaulted') and not f.get('implicit'):
                ps = f['params']
                if len(ps) == 1:
                    t = f['_tu'].types[ps[0]['t']]
                    if strip_cvref(t) == cls and t.endswith('&'):
                        k = 'move' if t.endswith('&&') else 'copy'
                        if k == kind:
                            r = f
        self.P._uc[key] = r
        return r

    def ctors(self, cls):
        return [f for f in self.P.funcs.values() if f.get('ctor') and f.get('cls') == cls]

    # ------------------------------------------------------------ construction by type name
    def default_value(self, t):
        t = strip_cvref(t)
        if t in INTTYPES:
            return 0
        if t in ('double', 'float', 'long double'):
            return 0
        if t.endswith('*') or t == 'std::nullptr_t':
            return None
        if t.startswith('std::unique_ptr<'):
            return UPtr()
        if t.startswith('std::basic_string<'):
            return ''
        for k in ('stack', 'queue', 'vector', 'deque', 'list', 'forward_list', 'valarray', 'initializer_list'):
            if t.startswith('std::%s<' % k):
                return Seq(k, (), self.std.targs(t)[0])
        for k in ('map', 'set', 'unordered_map', 'unordered_set'):
            if t.startswith('std::%s<' % k):
                return MapV('set' if 'set' in k else 'map')
        if t.startswith('std::basic_stringstream') or t.startswith('std::basic_ostringstream'):
            return Stream()
        if t.startswith('std::pair<') or t.startswith('std::tuple<'):
            return Tup([Cell(self.default_value(x)) for x in self.std.targs(t)], t.startswith('std::pair'))
        m = re.match(r'std::array<(.*), (\d+)>$', t)
        if m:
            return Seq('array', [self.default_value(m.group(1)) for _ in range(int(m.group(2)))], m.group(1))
        m = re.match(r'(.*)\[(\d+)\]$', t)
        if m:
            return Seq('array', [self.default_value(m.group(1)) for _ in range(int(m.group(2)))], m.group(1))
        if t in self.P.enums:
            return 0
        if t in self.P.records:
            return self.construct(t, [], [])
        if t.startswith('std::function<'):
            return None
        m = re.match(r'std::(less|less_equal|greater|greater_equal|equal_to|not_equal_to|plus|minus|multiplies|divides)<', t)
        if m:
            return Obj('std::' + m.group(1))
        raise Undecided('default value of ' + t)

    def construct(self, t, args, vcs):
        """builds a T from evaluated arguments (Cells are glvalues; vcs: 'l' lvalue, 'x' rvalue)"""
        t0 = t
        t = strip_cvref(t)
        if t in self.P.records and not t.startswith('std::'):
            c = self.pick_ctor(t, args, vcs)
            if c is None:
                if not args:
                    return self.aggregate_default(t)
                if len(args) == 1 and isinstance(self.val(args[0]), Obj) and self.val(args[0]).cls == t:
                    if vcs[0] == 'l':
                        return self.copyval(args[0])
                    return self.moveval(args[0])
                raise Undecided('constructor of ' + t)
            return self.construct_with(c, t, args)
        if t.startswith('std::'):
            return self.std.construct_std(self, t, args, vcs)
        if not args:
            return self.default_value(t)
        return self.res(self.val(args[0]))

    def aggregate_default(self, cls):
        o = Obj(cls)
        for rec, f in self.fields_of(cls):
            ft = rec['_tu'].types[f['t']]
            if f.get('init') is not None:
                o.f[f['n']] = Cell(self.eval_in_tu(rec['_tu'], f['init'], {'q': cls + '::' + f['n'], 'file': rec.get('file')}), typ=ft)
            elif ft.endswith('&'):
                raise Undecided('unbound reference member')
            elif strip_cvref(ft) in INTTYPES or strip_cvref(ft) == 'double' or strip_cvref(ft).endswith('*') or strip_cvref(ft) in self.P.enums:
                o.f[f['n']] = Cell(Opaque('uninitialised'), typ=ft)
            else:
                o.f[f['n']] = Cell(self.default_value(ft), typ=ft)
        return o

    def eval_in_tu(self, tu, e, fn):
        fr = Frame(fn, tu, None)
        self.frames.append(fr)
        try:
            v = self.ev(e)
            return self.copyval(v) if isinstance(v, Cell) else v
        finally:
            self.frames.pop()

    def pick_ctor(self, cls, args, vcs):
        best, score = None, -1
        for f in self.ctors(cls):
            if f.get('deleted'):
                continue
            sig = f.get('sig') or f.get('params') or []
            if len(args) > len(sig):
                continue
            if any('def' not in s for s in sig[len(args):]):
                continue
            s = 0
            ok = True
            for a, vc, p in zip(args, vcs, sig):
                pt = f['_tu'].types[p['t']]
                m = self.type_match(a, vc, pt)
                if m < 0:
                    ok = False
                    break
                s += m
            if not ok:
                continue
            if f.get('body') is None and not (f.get('defaulted') or f.get('implicit')):
                continue
            if s > score or best is None:
                best, score = f, s
        if best is not None and best.get('body') is None:
            return None
        if best is not None and (best.get('defaulted') or best.get('implicit')) and len(args) == 1:
            return None
        return best

    def type_match(self, a, vc, pt):
        base = strip_cvref(pt)
        v = self.val(a)
        rv = vc != 'l'
        s = 0
        if isinstance(v, Obj):
            if base == v.cls or base in (self.record(v.cls) or {'bases': []})['bases']:
                s = 3 if base == v.cls else 2
            else:
                return -1 if not self.convertible(v, base) else 0
        elif isinstance(v, UPtr):
            if not base.startswith('std::unique_ptr') and base not in ('bool',):
                return -1
            s = 2
        elif isinstance(v, (str, SStr)):
            m = re.match(r'const char \(&\)\[(\d+)\]$', pt)
            if m:
                if not isinstance(v, str) or len(v.encode('utf-8', 'surrogateescape')) + 1 != int(m.group(1)):
                    return -1
                return 3
            if base.startswith('std::basic_string') or base == 'char *' or base == 'const char *':
                s = 2
            elif base in self.P.records:
                s = 0
            else:
                return -1
        elif isinstance(v, (int, float, Fraction, Poly, Atom, bool)):
            if base.startswith('std::') or base in self.P.records:
                return -1
            s = 1
        elif isinstance(v, Seq):
            if base.startswith('std::'):
                s = 1 if v.kind in base else 0
            else:
                return 0
        elif isinstance(v, MapV):
            if not re.match(r'std::(unordered_|multi)*%s<' % v.kind, base):
                return -1
            s = 2
        if pt.endswith('&&'):
            if not rv:
                return -1
            s += 1
        elif pt.endswith('&') and not pt.startswith('const') and rv:
            return -1
        return s

    def convertible(self, v, base):
        return False

    def construct_with(self, f, cls, args):
        o = Obj(cls)
        cell = Cell(o, typ=cls)
        o.home = cell
        self.run_ctor(f, cell, args)
        return o

    def run_ctor(self, f, cell, args):
        o = cell.v
        if f.get('body') is None and (f.get('defaulted') or f.get('implicit')):
            if len(args) == 1 and isinstance(self.val(args[0]), Obj):
                src = args[0]
                n = self.copyval(src) if not getattr(self, '_mv', False) else self.moveval(src)
                o.f.update(n.f)
                o.refs |= n.refs
                return
            if not args:
                d = self.aggregate_default(o.cls if f.get('cls') == o.cls else f['cls'])
                for k, c in d.f.items():
                    o.f.setdefault(k, c)
                return
        if f.get('body') is None:
            raise Undecided('constructor body of ' + f['q'])
        fr = Frame(f, f['_tu'], cell)
        self.bind_params(fr, f, args)
        self.frames.append(fr)
        if len(self.frames) > self.o['depth']:
            raise Undecided('call depth')
        self.funcs_seen.add(f['usr'])
        try:
            delegating = False
            for i in f.get('inits') or []:
                if i.get('delegating'):
                    delegating = True
                    self.ctor_init(cell, i['e'])
                elif 'base' in i:
                    self.ctor_init(cell, i['e'])
                else:
                    rec, fld = self.find_field(f['cls'], i['f'])
                    ft = rec['_tu'].types[fld['t']]
                    if ft.endswith('&'):
                        c = self.ev(i['e'])
                        if not isinstance(c, Cell):
                            c = Cell(c)
                        o.f[i['f']] = c
                        o.refs.add(i['f'])
                    else:
                        v = self.ev(i['e']) if i['e'] is not None else self.default_value(ft)
                        if isinstance(v, Cell):
                            v = self.copyval(v)
                        o.f[i['f']] = Cell(self.conv(v, ft), typ=ft)
            if not delegating:
                # fields without initialiser
                rec = self.record(f['cls'])
                for fld in rec['fields'] if rec else []:
                    if fld['n'] not in o.f:
                        ft = rec['_tu'].types[fld['t']]
                        if fld.get('init') is not None:
                            o.f[fld['n']] = Cell(self.conv(self.eval_in_tu(rec['_tu'], fld['init'], f), ft), typ=ft)
                        elif strip_cvref(ft) in INTTYPES or strip_cvref(ft) == 'double' or strip_cvref(ft).endswith('*') or strip_cvref(ft) in self.P.enums:
                            o.f[fld['n']] = Cell(Opaque('uninitialised'), typ=ft)
                        else:
                            o.f[fld['n']] = Cell(self.default_value(ft), typ=ft)
            try:
                self.exec(f['body'])
            except ReturnX:
                pass
        finally:
            self.frames.pop()

    def ctor_init(self, cell, e):
        """base or delegating initialiser: runs the constructor on the same object"""
        if e['k'] == 'ctor':
            callee = e['callee']
            f = self.P.funcs.get(callee['usr'])
            args = self.args_for(e['args'], callee, self.frames[-1].tu)
            if f is None or f.get('body') is None:
                if callee.get('ext'):
                    # std base class (runtime_error, exception)
                    cell.v.f['__what'] = Cell(self.val(args[0]) if args else '')
                    return
                if len(args) == 1 and isinstance(self.val(args[0]), Obj):
                    src = self.val(args[0])
                    names = [x['n'] for r, x in self.fields_of(callee['cls'])]
                    mv = e.get('move')
                    for k in names:
                        if k in src.f:
                            cell.v.f[k] = Cell(self.moveval(src.f[k]) if mv else self.copyval(src.f[k]), typ=src.f[k].typ)
                    return
                if not args:
                    d = self.aggregate_default(callee['cls'])
                    cell.v.f.update(d.f)
                    return
                raise Undecided('base constructor ' + callee['q'])
            if self.stub_for(f, callee):
                raise Undecided('stubbed constructor')
            self.run_ctor(f, cell, args)
            return
        v = self.ev(e)
        v = self.val(v)
        if isinstance(v, Obj):
            cell.v.f.update(v.f)
            return
        raise Undecided('base initialiser')

    def find_field(self, cls, name):
        for r, f in self.fields_of(cls):
            if f['n'] == name:
                return r, f
        raise Undecided('field %s of %s' % (name, cls))

    def conv(self, v, t):
        """conversion of arithmetic values on initialisation (the exporter keeps explicit casts, so mostly identity)"""
        return v

    # ------------------------------------------------------------ calls
    def bind_params(self, fr, f, args):
        ps = f['params']
        for i, p in enumerate(ps):
            t = fr.tu.types[p['t']]
            if i < len(args):
                a = args[i]
            else:
                sig = f.get('sig') or []
                if i < len(sig) and 'def' in sig[i]:
                    a = self.eval_in_tu(fr.tu, sig[i]['def'], f)
                else:
                    raise Undecided('missing argument')
            if t.endswith('&'):
                c = a if isinstance(a, Cell) else Cell(a)
            else:
                c = Cell(a.v if isinstance(a, Cell) else a, typ=t)
                if isinstance(a, Cell) and not self.is_scalar(a.v):
                    c.v = self.copyval(a)
            fr.vars[p['d']] = c

    def is_scalar(self, v):
        return not isinstance(v, (Obj, Seq, UPtr, MapV, Tup, Stream, Closure, Iter, SliceRef))

    def stub_for(self, f, callee):
        q = (f or callee)['q']
        return self.stubs.get(q)

    def call_fn(self, f, this, args):
        """calls a repo function with evaluated arguments"""
        st = self.stubs.get(f['q'])
        if st is not None:
            r = st(self, f, this, args)
            if r is not NotImplemented:
                return r
        if f.get('body') is None:
            raise Undecided('no body: ' + f['q'])
        fr = Frame(f, f['_tu'], this)
        self.bind_params(fr, f, args)
        return self.run_body(f, fr)

    def run_body(self, f, fr):
        self.frames.append(fr)
        if len(self.frames) > self.max_depth:
            self.max_depth = len(self.frames)
            self.deepest = [x.fn.get('q') or x.fn.get('_q') for x in self.frames]
        if len(self.frames) > self.o['depth']:
            self.frames.pop()
            raise Undecided('call depth')
        if 'usr' in f:
            self.funcs_seen.add(f['usr'])
        line = self.line
        try:
            self.exec(f['body'])
            v = None
        except ReturnX as r:
            v = r.v
        except CppThrow as t:
            if f.get('noexcept'):
                raise Crash('%s leaves %s, which is declared not to throw' % (t.cls, f.get('q') or f.get('_q')), t.where)
            if self.o['free']:
                for p in f['params']:
                    if not fr.tu.types[p['t']].endswith('&') and p['d'] in fr.vars:
                        self.destroy(fr.vars[p['d']])
            raise
        finally:
            self.frames.pop()
            self.line = line
        rt = fr.tu.types[f['ret']]
        if not rt.endswith('&') and isinstance(v, Cell):
            v = v.v if self.is_scalar(v.v) else self.copyval(v)
        if self.o['free']:
            for p in f['params']:
                t = fr.tu.types[p['t']]
                if not t.endswith('&'):
                    self.destroy(fr.vars[p['d']])
        return v

    def call_closure(self, c, args, vcs=None):
        e = c.e
        if e.get('generic'):
            op = None
            cands = [s for s in e['specs'] if len(s['params']) == len(args)]
            if not cands:
                raise Undecided('generic lambda without instantiation')
            op = cands[0]
            if len(cands) > 1:
                best = None
                for s in cands:
                    ok = all(self.type_match(a, 'l', c.tu.types[p['t']]) >= 0 for a, p in zip(args, s['params']))
                    if ok:
                        best = s
                        break
                op = best or op
        else:
            op = e['op']
        fn = dict(op)
        fn.setdefault('_q', 'lambda at line %s' % e.get('l'))
        fn['_file'] = c.file if hasattr(c, 'file') else None
        fn['file'] = getattr(c, 'file', None)
        fr = Frame(fn, c.tu, c.this)
        fr.vars.update(c.caps)
        self.bind_params(fr, fn, args)
        return self.run_body(fn, fr)

    def apply(self, fv, args):
        """calls a callable value with evaluated arguments"""
        fv = self.val(fv)
        if isinstance(fv, Closure):
            return self.call_closure(fv, args)
        if isinstance(fv, Fn):
            f = self.P.funcs.get(fv.callee['usr'])
            if f is not None and f.get('body') is not None:
                return self.call_fn(f, None, args)
            return self.std.call_std(self, fv.callee, None, args, ['l'] * len(args), {'callee': fv.callee})
        if isinstance(fv, Obj):
            if fv.cls.startswith('std::'):
                return self.std.call_functor(self, fv, args)
            for f in self.P.funcs.values():
                if f.get('cls') == fv.cls and f['n'] == 'operator()' and f.get('body') is not None and len(f['params']) == len(args):
                    return self.call_fn(f, Cell(fv), args)
        if callable(fv):
            return fv(*args)
        if fv is None:
            self.crash('call of an empty function object')
        raise Undecided('call of %r' % (fv,))

    def args_for(self, es, callee, tu):
        out = []
        pts = callee.get('pt') or []
        for i, a in enumerate(es):
            v = self.ev(a)
            t = tu.types[pts[i]] if i < len(pts) else None
            if isinstance(v, Cell) and t is not None and not t.endswith('&') and self.is_scalar(v.v):
                self.chk(v)
                v = v.v
            out.append(v)
        return out

    def vcs_for(self, es):
        return ['l' if a.get('vc') == 'l' else 'x' for a in es]

    # ------------------------------------------------------------ destruction
    def destroy(self, cell):
        """end of lifetime of the object in the cell"""
        v = cell.v
        if isinstance(v, UPtr):
            if v.cell is not None:
                c, v.cell = v.cell, None
                self.release(c)
        elif isinstance(v, Seq):
            if v.kind in ('il', 'initializer_list'):
                return
            for c in v.items:
                self.destroy(c)
        elif isinstance(v, Obj):
            self.destroy_fields(v)
        elif isinstance(v, MapV):
            for k, c in v.items:
                if c is not None:
                    self.destroy(c)
        elif isinstance(v, Tup):
            for i, c in enumerate(v.cells):
                if i not in v.refs:
                    self.destroy(c)

    def destroy_fields(self, o):
        for k, c in o.f.items():
            if k not in o.refs and not k.startswith('__'):
                self.destroy(c)

    def release(self, c):
        """delete of a heap object"""
        if c.freed:
            self.crash('object released twice')
        if isinstance(c.v, Obj):
            self.path.events.append(('free', c))
            self.dtor_depth += 1
            self.max_dtor = max(self.max_dtor, self.dtor_depth)
            if self.o['run_dtors']:
                d = [f for f in self.P.funcs.values() if f.get('dtor') and f.get('cls') == c.v.cls and f.get('body') is not None]
                if d:
                    self.call_fn(d[0], c, [])
                    self.destroy_fields(c.v)
                    self.dtor_depth -= 1
                    c.freed = True
                    return
            c.freed = True
            self.destroy_fields(c.v)
            self.dtor_depth -= 1
        else:
            c.freed = True
            self.destroy(c)

    # ------------------------------------------------------------ statements
    def tick(self, n):
        self.fuel -= 1
        if not self.fuel & 1023 and time.time() > report.DEADLINE:
            raise Undecided('time budget')
        if self.fuel < 0:
            raise Undecided('analysis budget exhausted (loop does not converge)')
        l = n.get('l')
        if l:
            self.line = l

    def exec(self, s):
        if s is None:
            return
        self.tick(s)
        k = s['k']
        getattr(self, 'x_' + k, self.x_unknown)(s)

    def x_unknown(self, s):
        raise Undecided('statement ' + s['k'])

    def x_expr(self, s):
        self.ev(s['e'])

    def x_nop(self, s):
        pass

    def x_block(self, s):
        try:
            for c in s['b']:
                self.exec(c)
        except (ReturnX, BreakX, ContinueX, CppThrow):
            self.leave_block(s)
            raise
        self.leave_block(s)

    def leave_block(self, s):
        if not self.o['free']:
            return
        fr = self.frames[-1]
        for c in reversed(s['b']):
            if c and c['k'] == 'decl':
                for v in reversed(c['v']):
                    if not v.get('ref') and not v.get('static') and v['d'] in fr.vars:
                        self.destroy(fr.vars[v['d']])

    def x_decl(self, s):
        for v in s['v']:
            self.declare(v)

    def declare(self, v):
        fr = self.frames[-1]
        t = fr.tu.types[v['t']]
        if v.get('static'):
            key = (fr.fn.get('q'), v['n'])
            if key not in self.path.statics:
                c = Cell(None, name=v['n'], typ=t)
                self.path.statics[key] = c
                val = self.ev(v['init']) if v.get('init') is not None else self.default_value(t)
                c.v = val.v if isinstance(val, Cell) else val
                h = self.o.get('static_hook')
                if h:
                    h(self, key, c)
            fr.vars[v['d']] = self.path.statics[key]
            return
        if v.get('ref'):
            c = self.ev(v['init'])
            if not isinstance(c, Cell):
                c = Cell(c)
            fr.vars[v['d']] = c
            return
        if v.get('init') is not None:
            val = self.ev(v['init'])
            if isinstance(val, Cell):
                self.chk(val)
                val = val.v if self.is_scalar(val.v) else self.copyval(val)
            val = self.res(val)
        else:
            tt = strip_cvref(t)
            if tt in INTTYPES or tt == 'double' or tt.endswith('*') or tt in self.P.enums:
                val = Opaque('uninitialised')
            else:
                val = self.default_value(t)
        fr.vars[v['d']] = cell_of(val, t, v['n'])

    def cond(self, s):
        if s.get('init') is not None and s['k'] != 'for':
            self.exec(s['init'])
        if s.get('cv') is not None:
            self.declare(s['cv'])
        if s['c'] is None:
            return True
        v = self.ev(s['c'])
        if isinstance(v, Cell):
            v = self.chk(v).v
        return self.truth(v)

    def x_if(self, s):
        if self.cond(s):
            self.exec(s['a'])
        else:
            self.exec(s['b'])

    def iteration(self, body):
        """one loop iteration; returns False to leave the loop"""
        self.loops.append([])
        depth = len(self.loops) - 1
        nframes = len(self.frames)
        try:
            body()
        except BreakX:
            return False
        except ContinueX:
            pass
        except SummaryHit as h:
            if h.depth != depth:
                raise
            del self.frames[nframes:]
            self.o['summaries'](self, h.cell)
        finally:
            del self.loops[depth:]
        return True

    def x_while(self, s):
        L = self.o.get('loops')
        h = L.enter(self, s) if L else None
        while True:
            self.tick(s)
            if not self.cond(s):
                return
            if not self.iteration(lambda: self.exec(s['b'])):
                return
            if h:
                L.again(self, h)

    def x_do(self, s):
        L = self.o.get('loops')
        h = L.enter(self, s) if L else None
        while True:
            self.tick(s)
            if not self.iteration(lambda: self.exec(s['b'])):
                return
            if not self.cond(s):
                return
            if h:
                L.again(self, h)

    def x_for(self, s):
        if s.get('init') is not None:
            self.exec(s['init'])
        L = self.o.get('loops')
        h = L.enter(self, s) if L else None
        while True:
            self.tick(s)
            if not self.cond(s):
                return
            if not self.iteration(lambda: self.exec(s['b'])):
                return
            if s.get('inc') is not None:
                self.ev(s['inc'])
            if h:
                L.again(self, h)

    def x_rfor(self, s):
        r = self.ev(s['r'])
        fr = self.frames[-1]
        for c in self.std.iterate(self, r):
            self.tick(s)

            def body():
                self.note_current(c)
                v = s['v']
                if v.get('ref'):
                    fr.vars[v['d']] = c
                else:
                    fr.vars[v['d']] = Cell(self.copyval(c) if not self.is_scalar(c.v) else c.v, name=v['n'])
                self.exec(s['b'])
            if not self.iteration(body):
                return

    def note_current(self, v, depth=0):
        """records which nodes the current loop iteration obtained from a work list"""
        if not self.loops or depth > 2:
            return
        cur = self.loops[-1]
        if isinstance(v, Cell):
            if isinstance(v.v, Obj) and depth > 0:
                cur.append(v)
            v = v.v
        if isinstance(v, (RefW, Ptr, UPtr)) and v.cell is not None:
            cur.append(v.cell)
        elif isinstance(v, Obj) and not v.cls.endswith('NodeImpl'):
            for k, c in v.f.items():
                if k in v.refs:
                    cur.append(c)
                else:
                    self.note_current(c.v, depth + 1)
        elif isinstance(v, Tup):
            for i, c in enumerate(v.cells):
                if i in v.refs:
                    cur.append(c)
                self.note_current(c, depth + 1)

    def x_switch(self, s):
        if s.get('init') is not None:
            self.exec(s['init'])
        if s.get('cv') is not None:
            self.declare(s['cv'])
        v = self.ev(s['c'])
        if isinstance(v, Cell):
            v = self.chk(v).v
        v = self.res(v)
        flat = []          # ('label', value|None) or ('stmt', stmt)
        body = s['b']['b'] if s['b']['k'] == 'block' else [s['b']]

        def add(st):
            while st is not None and st['k'] in ('case', 'default'):
                if st['k'] == 'default':
                    flat.append(('label', None))
                else:
                    cv = st.get('cv')
                    if isinstance(cv, str):
                        cv = int(cv)
                    if isinstance(cv, int) and cv < 0 and isinstance(v, int) and v >= 0:
                        cv &= (1 << 64) - 1
                    flat.append(('label', cv))
                st = st['s']
            flat.append(('stmt', st))
        for st in body:
            add(st)
        labels = [l for k, l in flat if k == 'label' and l is not None]
        if isinstance(v, Atom):
            d = self.domain(v)
            if d is None:
                raise Undecided('switch on %r' % (v,))
            # group the case labels by the statement they lead to
            groups, cur, last = [], None, None
            for k, l in flat:
                if k == 'label':
                    if cur is None:
                        cur = set()
                        groups.append(cur)
                    if l is None:
                        cur |= {x for x in d if x not in labels}
                    else:
                        cur.add(l)
                else:
                    cur = None
            rest = frozenset(x for x in d if x not in labels)
            if not any(k == 'label' and l is None for k, l in flat):
                groups.append(set(rest))
            g = self.split_dom(v, [frozenset(x) for x in groups])
            dd = self.path.dom[v]
            v = next(iter(dd))
        elif isinstance(v, Poly):
            sel = None
            for l in labels:
                if self.cmp_num('==', v, l, True):
                    sel = l
                    break
            v = sel if sel is not None else object()
        elif isinstance(v, bool):
            v = int(v)
        elif isinstance(v, Opaque):
            raise Undecided('switch on %r' % (v,))
        start = None
        for i, (k, l) in enumerate(flat):
            if k == 'label' and l is not None and l == v:
                start = i
                break
        if start is None:
            for i, (k, l) in enumerate(flat):
                if k == 'label' and l is None:
                    start = i
                    break
        if start is None:
            return
        try:
            for k, st in flat[start:]:
                if k == 'stmt':
                    self.exec(st)
        except BreakX:
            pass

    def x_case(self, s):
        self.exec(s['s'])

    x_default = x_case
    x_label = x_case

    def x_break(self, s):
        raise BreakX()

    def x_continue(self, s):
        raise ContinueX()

    def x_return(self, s):
        if s.get('e') is None:
            raise ReturnX(None)
        v = self.ev(s['e'])
        fn = self.frames[-1].fn
        rt = self.frames[-1].tu.types[fn['ret']] if 'ret' in fn else ''
        if isinstance(v, Cell) and not rt.endswith('&'):
            self.chk(v)
            v = v.v if self.is_scalar(v.v) else self.copyval(v)
        raise ReturnX(v)

    def x_try(self, s):
        nframes, nloops = len(self.frames), len(self.loops)
        try:
            self.exec(s['b'])
        except CppThrow as t:
            for h in s['h']:
                if h.get('all') or h.get('cls') == t.cls or h.get('cls') in t.bases:
                    del self.frames[nframes:]
                    del self.loops[nloops:]
                    if h.get('v') is not None:
                        self.frames[-1].vars[h['v']['d']] = t.val if isinstance(t.val, Cell) else Cell(t.val)
                    self.caught = getattr(self, 'caught', [])
                    self.caught.append(t)
                    try:
                        self.exec(h['b'])
                    finally:
                        self.caught.pop()
                    return
            raise

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        self.tick(e)
        return getattr(self, 'e_' + e['k'], self.e_unknown)(e)

    def rv(self, e):
        v = self.ev(e)
        if isinstance(v, Cell):
            v = self.chk(v).v
        return self.res(v)

    def e_unknown(self, e):
        raise Undecided('expression ' + e['k'] + ' ' + str(e.get('cls', '')))

    def e_int(self, e):
        return int(e['v'])

    e_char = e_int

    def e_float(self, e):
        return e['v']

    def e_bool(self, e):
        return bool(e['v'])

    def e_str(self, e):
        return e['v']

    def e_null(self, e):
        return None

    def e_valinit(self, e):
        return self.default_value(self.ty(e['t']))

    def e_sizeof(self, e):
        if 'cv' in e:
            return cval(e['cv'])
        raise Undecided('sizeof')

    e_trait = e_sizeof

    def e_this(self, e):
        return Ptr(self.frames[-1].this)

    def e_ref(self, e):
        dk = e.get('dk')
        if dk == 'enum':
            return e['val']
        if dk == 'func':
            return Fn(e['callee'], self.frames[-1].tu)
        if dk == 'global':
            return self.global_cell(e)
        c = self.frames[-1].vars.get(e['d'])
        if c is None:
            raise Undecided('variable %s' % e.get('n'))
        return c

    def global_cell(self, e):
        fr = self.frames[-1]
        if e['d'] in fr.vars:
            return fr.vars[e['d']]
        if 'cv' in e:
            return Cell(cval(e['cv']))
        q = e['q']
        key = ('global', q)
        if key in self.path.statics:
            return self.path.statics[key]
        if q.startswith('std::placeholders::_'):
            o = Obj('std::placeholder')
            o.f['n'] = Cell(int(q.split('_')[-1]))
            return Cell(o)
        if q in ('std::cout', 'std::cerr', 'std::clog'):
            c = Cell(Stream(), name=q)
            c.v.kind = q
            self.path.statics[key] = c
            return c
        g = self.P.globals.get(q)
        if g is None or g.get('init') is None:
            raise Undecided('global ' + q)
        c = Cell(None, name=q)
        self.path.statics[key] = c
        v = self.eval_in_tu(g['_tu'], g['init'], {'q': q, 'file': g['file']})
        c.v = v.v if isinstance(v, Cell) else v
        h = self.o.get('static_hook')
        if h:
            h(self, key, c)
        return c

    def e_mem(self, e):
        b = self.ev(e['b'])
        if e.get('dk') == 'static':
            raise Undecided('static member')
        if e.get('dk') == 'method':
            raise Undecided('method pointer')
        if e.get('arrow'):
            p = self.val(b)
            if isinstance(p, Iter):
                c = self.std.iter_cell(self, p)
            else:
                c = self.ptr_cell(p)
            if c is None:
                self.crash('null pointer dereferenced (member %s)' % e['f'])
        else:
            c = b if isinstance(b, Cell) else Cell(b)
        self.chk(c)
        o = c.v
        if isinstance(o, Tup):
            return self.chk(o.cells[0 if e['f'] == 'first' else 1])
        if not isinstance(o, Obj):
            raise Undecided('member %s of %r' % (e['f'], o))
        f = o.f.get(e['f'])
        if f is None:
            raise Undecided('no member %s in %s' % (e['f'], o.cls))
        if isinstance(f.v, Atom) and o.tag is not None:
            self.last_op[f.v] = c
            h = self.o.get('field_hook')
            if h:
                h(self, c, e['f'])
        elif o.tag is not None:
            h = self.o.get('field_hook')
            if h:
                h(self, c, e['f'])
        return f

    def e_init(self, e):
        t = strip_cvref(self.ty(e['t']))
        if 'fields' in e and not t.startswith('std::array<'):
            if t in self.P.records:
                o = self.aggregate_default(t) if len(e['e']) < len(e['fields']) else Obj(t)
                for n, x in zip(e['fields'], e['e']):
                    v = self.ev(x)
                    rec, fld = self.find_field(t, n)
                    ft = rec['_tu'].types[fld['t']]
                    if ft.endswith('&'):
                        o.f[n] = v if isinstance(v, Cell) else Cell(v)
                        o.refs.add(n)
                    else:
                        o.f[n] = Cell(self.copyval(v) if isinstance(v, Cell) else v, typ=ft)
                return o
            if t.startswith('std::pair<') or t.startswith('std::tuple<'):
                return Tup([Cell(self.val(self.ev(x))) for x in e['e']], True)
        m = re.match(r'(.*)\[(\d*)\]$', t)
        if m or t.startswith('std::array<'):
            et = m.group(1) if m else self.std.targs(t)[0]
            es = e['e']
            if not m and len(es) == 1 and es[0]['k'] == 'init':
                es = es[0]['e']
            vals = []
            for x in es:
                v = self.ev(x)
                vals.append(self.copyval(v) if isinstance(v, Cell) else v)
            s = Seq('array', vals, et)
            n = int(m.group(2)) if m and m.group(2) else None
            while n is not None and len(s.items) < n:
                s.append(Cell(self.default_value(et)))
            return s
        if len(e['e']) == 1:
            return self.ev(e['e'][0])
        if not e['e']:
            return self.default_value(t)
        raise Undecided('initialiser list of ' + t)

    def e_stdinit(self, e):
        v = self.ev(e['e'])
        v = self.val(v)
        return Seq('il', v.items, v.et, cells=True)

    def e_idx(self, e):
        a = self.rv(e['a'])
        i = self.rv(e['b'])
        if isinstance(a, Seq):
            return self.std.seq_at(self, a, i)
        if isinstance(a, str):
            if isinstance(i, int) and 0 <= i < len(a):
                return Cell(ord(a[i]))
            if isinstance(i, int) and i == len(a):
                return Cell(0)
        if isinstance(a, (Ptr, Iter)):
            return self.std.iter_cell(self, self.std.iter_add(self, a, i))
        raise Undecided('subscript')

    def e_lambda(self, e):
        fr = self.frames[-1]
        caps = {}
        this = None
        for c in e['caps']:
            if c.get('this'):
                this = fr.this
                continue
            if c.get('init') is not None:
                v = self.ev(c['init'])
                if c.get('byref'):
                    cell = v if isinstance(v, Cell) else Cell(v)
                    caps[c['d']] = cell
                else:
                    caps[c['d']] = Cell(self.copyval(v) if isinstance(v, Cell) else v)
            else:
                src = fr.vars.get(c['d'])
                if src is None:
                    continue
                if c.get('byref'):
                    caps[c['d']] = src
                else:
                    caps[c['d']] = Cell(self.copyval(src))
        cl = Closure(e, caps, this, fr.tu)
        cl.file = fr.fn.get('file')
        cl.byref = {c['d'] for c in e['caps'] if c.get('byref')}
        return cl

    def e_cond(self, e):
        v = self.ev(e['c'])
        if isinstance(v, Cell):
            v = self.chk(v).v
        return self.ev(e['a'] if self.truth(v) else e['b'])

    def e_throw(self, e):
        if e.get('e') is None:
            cur = getattr(self, 'caught', [])
            if cur:
                raise cur[-1]
            raise Undecided('rethrow outside handler')
        w = self.where()
        v = self.ev(e['e'])
        v = self.val(v)
        tu = self.frames[-1].tu
        bases = e.get('bases') or []
        raise CppThrow(v, bases[0] if bases else tu.types[e['tt']], bases, w)

    def e_new(self, e):
        t = self.ty(e['at'])
        ini = e.get('init')
        if e.get('array') or e.get('placement'):
            raise Undecided('array new')
        if ini is None:
            v = self.default_value(t)
        else:
            v = self.ev(ini)
            v = self.val(v)
        c = cell_of(v, t)
        self.path.events.append(('new', c))
        self.path.loose[id(c)] = (c, self.where())
        return Ptr(c)

    def e_delete(self, e):
        p = self.rv(e['e'])
        c = self.ptr_cell(p)
        if c is not None:
            self.path.loose.pop(id(c), None)
            self.release(c)

    def adopt(self, c):
        """a smart pointer takes over the object of a plain pointer"""
        if self.path.loose.pop(id(c), None) is None:
            self.crash('a smart pointer is given an object that already has an owner')

    def e_cast(self, e):
        ck = e['ck']
        if ck == 'ToVoid':
            self.ev(e['e'])
            return None
        if ck == 'NullToPointer':
            return None
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'NoOp', 'LValueBitCast', 'BitCast',
                  'LValueToRValue', 'ConstructorConversion', 'UserDefinedConversion', 'ArrayToPointerDecay', 'Dependent'):
            if e.get('expl') and ck == 'LValueToRValue':
                return self.rv(e['e'])
            v = self.ev(e['e'])
            if ck == 'NoOp' and e.get('expl') and isinstance(v, Cell) and not e.get('vc'):
                return v.v
            return v
        v = self.rv(e['e'])
        t = strip_cvref(self.ty(e['t']))
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
            return self.truth(v)
        if ck == 'IntegralToFloating':
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, Atom):
                return T.topoly(v)
            return v
        if ck == 'FloatingCast':
            return T.single(v) if t == 'float' else v
        if ck == 'FloatingToIntegral':
            return self.f2i(v, t, e)
        if ck in ('IntegralCast', 'BooleanToSignedIntegral'):
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                if t in UNSIGNED:
                    return v & ((1 << UNSIGNED[t]) - 1)
                if t == 'char' or t == 'signed char':
                    v &= 255
                    return v - 256 if v > 127 else v
                if t in ('int',):
                    v &= 0xffffffff
                    return v - (1 << 32) if v >> 31 else v
                if t == 'bool':
                    return v != 0
                return v
            return v
        if ck == 'FunctionToPointerDecay':
            return v
        raise Undecided('cast ' + ck)

    def f2i(self, v, t, e):
        self.path.events.append(('f2i', v, t, self.where()))
        if is_const(v):
            if not T.finite(v):
                self.path.events.append(('trap', 'conversion of a non-finite number to ' + t, self.where()))
                raise Undecided('non-finite to integer')
            return int(v)
        h = self.o.get('f2i_hook')
        if h:
            r = h(self, v, t)
            if r is not None:
                return r
        return T.atom_num('trunc', v)

    # ------------------------------------------------------------ operators
    def e_un(self, e):
        op = e['op']
        if op == '__extension__':
            return self.ev(e['a'])
        if op == '&':
            v = self.ev(e['a'])
            if isinstance(v, Cell):
                if v.src is not None:
                    return Iter(v.src[0], v.src[1])
                return Ptr(v)
            if isinstance(v, Fn):
                return v
            raise Undecided('address of a temporary')
        if op == '*':
            p = self.rv(e['a'])
            if isinstance(p, str):
                return Cell(ord(p[0]) if p else 0)
            c = self.ptr_cell(p)
            if c is None:
                self.crash('null pointer dereferenced')
            return self.chk(c)
        if op == '!':
            return not self.truth(self.rv(e['a']))
        if op in ('++', '--', 'post++', 'post--'):
            c = self.ev(e['a'])
            if not isinstance(c, Cell):
                raise Undecided('increment of a value')
            self.chk(c)
            old = c.v
            d = 1 if '++' in op else -1
            if isinstance(old, (Iter, Ptr)):
                c.v = self.std.iter_add(self, old, d)
            elif isinstance(old, str):
                it = Iter(old, 0)
                c.v = self.std.iter_add(self, it, d)
                old = it
            else:
                c.v = self.wrap_int(T.add(old, d), strip_cvref(self.ty(e['t'])))
                self.path.events.append(('incr', c, self.where())) if self.o.get('trace_incr') else None
            return old if op.startswith('post') else c
        v = self.rv(e['a'])
        if op == '-':
            if isinstance(v, bool):
                v = int(v)
            return T.neg(v) if not (isinstance(v, float) and not T.finite(v)) else -v
        if op == '+':
            return v
        if op == '~' and isinstance(v, int):
            return ~v
        raise Undecided('unary ' + op)

    def wrap_int(self, v, t):
        if isinstance(v, int) and t in UNSIGNED:
            return v & ((1 << UNSIGNED[t]) - 1)
        if isinstance(v, int) and t == 'int' and not (-2 ** 31 <= v < 2 ** 31):
            self.path.events.append(('trap', 'signed overflow', self.where()))
        return v

    def e_bin(self, e):
        op = e['op']
        if op == '&&':
            if not self.truth(self.rv(e['a'])):
                return False
            return self.truth(self.rv(e['b']))
        if op == '||':
            if self.truth(self.rv(e['a'])):
                return True
            return self.truth(self.rv(e['b']))
        if op == ',':
            self.ev(e['a'])
            return self.ev(e['b'])
        if op == '=':
            v = self.ev(e['b'])
            if isinstance(v, Cell):
                v = self.chk(v).v
                if not self.is_scalar(v):
                    v = self.copyval(v)
            c = self.ev(e['a'])
            if not isinstance(c, Cell):
                raise Undecided('assignment to a value')
            self.assign(c, self.res(v))
            return c
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            v = self.rv(e['b'])
            c = self.ev(e['a'])
            self.chk(c)
            old = self.res(c.v)
            t = strip_cvref(self.ty(e['ct'])) if 'ct' in e else strip_cvref(self.ty(e['t']))
            r = self.arith(op[:-1], old, v, t)
            tt = strip_cvref(self.ty(e['t']))
            if tt in INTTYPES and t not in INTTYPES:
                r = self.f2i(r, tt, e)
            self.assign(c, self.wrap_int(r, tt))
            return c
        a = self.rv(e['a'])
        b = self.rv(e['b'])
        if op in ('==', '!=', '<', '<=', '>', '>='):
            ta = strip_cvref(self.ty(e['a']['t'])) if 't' in e['a'] else ''
            tb = strip_cvref(self.ty(e['b']['t'])) if 't' in e['b'] else ''
            return self.cmp(op, a, b, ta in INTTYPES and tb in INTTYPES)
        return self.wrap_int(self.arith(op, a, b, strip_cvref(self.ty(e['t']))), strip_cvref(self.ty(e['t'])))

    def assign(self, c, v):
        self.chk(c)
        h = self.o.get('assign_hook')
        if h:
            h(self, c, v)
        c.v = v

    def arith(self, op, a, b, t):
        if isinstance(a, (Iter, Ptr)) or isinstance(b, (Iter, Ptr)) or isinstance(a, str):
            if isinstance(a, str):
                a = Iter(a, 0)
            if op == '+':
                if isinstance(b, (Iter, Ptr)):
                    a, b = b, a
                return self.std.iter_add(self, a, b)
            if op == '-':
                if isinstance(b, (Iter, Ptr)):
                    return self.std.iter_diff(self, a, b)
                return self.std.iter_add(self, a, -b)
            raise Undecided('pointer arithmetic')
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            raise Undecided('arithmetic on %r' % (a if isinstance(a, Opaque) else b))
        if isinstance(a, Atom) or isinstance(b, Atom):
            if self.int_atoms_ok(a, b):
                a = T.topoly(a) if isinstance(a, Atom) else a
                b = T.topoly(b) if isinstance(b, Atom) else b
            else:
                raise Undecided('arithmetic on enumerators')
        isint = t in INTTYPES
        if op in ('<<', '>>') and isinstance(b, int) and not 0 <= b < 64 and not self.o.get('arith_hook'):
            self.crash('shift by %d bits' % b)
        if op in ('<<', '>>') and isint and self.o.get('arith_hook'):
            self.o['arith_hook'](self, op, a, b, t)
        if t in UNSIGNED and op in ('+', '-', '*', '<<', '^', '&', '|') and isinstance(a, int) and isinstance(b, int):
            r = {'+': a + b, '-': a - b, '*': a * b, '<<': a << b if 0 <= b < 64 else 0, '^': a ^ b, '&': a & b, '|': a | b}[op]
            return r & ((1 << UNSIGNED[t]) - 1)
        if isint and self.o.get('arith_hook') and op not in ('<<', '>>'):
            self.o['arith_hook'](self, op, a, b, t)
        if op == '+':
            return T.add(a, b)
        if op == '-':
            return T.sub(a, b)
        if op == '*':
            return T.mul(a, b)
        if op == '/':
            if isint:
                self.path.events.append(('idiv', a, b, self.where()))
                if is_const(b) and b == 0:
                    self.crash('integer division by zero')
                if is_const(a) and is_const(b):
                    q = abs(a) // abs(b)
                    return q if (a < 0) == (b < 0) else -q
                return T.atom_num('idiv', a, b)
            if is_const(b) and b == 0 and is_const(a):
                if self.o.get('div_hook'):
                    self.o['div_hook'](self, a, b)
                a = float(a)
                return math.nan if a == 0 or a != a else math.copysign(math.inf, a)
            if self.o.get('div_hook'):
                self.o['div_hook'](self, a, b)
            return T.div(a, b)
        if op == '%':
            self.path.events.append(('idiv', a, b, self.where()))
            if is_const(b) and b == 0:
                self.crash('integer remainder by zero')
            if is_const(a) and is_const(b):
                return int(math.fmod(a, b))
            return T.atom_num('imod', a, b)
        if op in ('&', '|', '^', '<<', '>>'):
            if isinstance(a, int) and isinstance(b, int):
                r = {'&': a & b, '|': a | b, '^': a ^ b, '<<': a << b if op == '<<' and b < 200 else 0, '>>': a >> b if op == '>>' else 0}[op]
                return r
            if op in ('&', '|', '^'):
                x, y = sorted([repr(a), repr(b)])
                if repr(a) > repr(b):
                    a, b = b, a
            return T.atom_num({'&': 'band', '|': 'bor', '^': 'bxor', '<<': 'shl', '>>': 'shr'}[op], a, b)
        raise Undecided('operator ' + op)

    def int_atoms_ok(self, a, b):
        return all(not isinstance(x, Atom) or self.o.get('atom_arith') for x in (a, b))

    # ------------------------------------------------------------ calls in expressions
    def e_ctor(self, e):
        callee = e['callee']
        args = self.args_for(e['args'], callee, self.frames[-1].tu)
        vcs = self.vcs_for(e['args'])
        cls = e['cls']
        if callee.get('ext') or cls.startswith('std::') or cls.startswith('__gnu'):
            return self.std.ctor_std(self, e, cls, args, vcs)
        f = self.P.funcs.get(callee['usr'])
        if f is not None and self.stubs.get(f['q']):
            r = self.stubs[f['q']](self, f, None, args)
            if r is not NotImplemented:
                return r
        if f is None or f.get('body') is None or ((f.get('defaulted') or f.get('implicit')) and len(args) == 1):
            if e.get('copy'):
                return self.copyval(args[0])
            if e.get('move'):
                return self.moveval(args[0])
            if not args:
                return self.aggregate_default(cls)
            raise Undecided('constructor ' + callee['q'])
        if (f.get('defaulted') or f.get('implicit')) and not args:
            return self.aggregate_default(cls)
        return self.construct_with(f, cls, args)

    def e_inhctor(self, e):
        raise Undecided('inherited constructor')

    def e_call(self, e):
        if 'cv' in e:
            return cval(e['cv'])
        if 'cvf' in e:
            return float(e['cvf'])
        callee = e.get('callee')
        if callee is None:
            fv = self.ev(e['fn'])
            args = [self.ev(a) for a in e['args']]
            return self.apply(fv, args)
        return self.dispatch(e, callee, None, e['args'])

    def dispatch(self, e, callee, this, aes):
        args = self.args_for(aes, callee, self.frames[-1].tu)
        self.tick(e)
        f = self.P.funcs.get(callee['usr'])
        if f is not None and f.get('body') is not None:
            return self.call_fn(f, this, args)
        st = self.stubs.get(callee['q'])
        if st is not None:
            r = st(self, callee, this, args)
            if r is not NotImplemented:
                return r
        if callee.get('ext') or callee['q'].startswith('std::') or callee.get('defaulted') or callee.get('implicit'):
            return self.std.call_std(self, callee, this, args, self.vcs_for(aes), e)
        if f is not None and (f.get('defaulted') or f.get('implicit')):
            return self.std.call_std(self, callee, this, args, self.vcs_for(aes), e)
        raise Undecided('call of ' + callee['q'])

    def e_mcall(self, e):
        callee = e['callee']
        ob = self.ev(e['obj'])
        if e.get('arrow'):
            p = self.val(ob)
            c = self.std.iter_cell(self, p) if isinstance(p, Iter) else self.ptr_cell(p)
            if c is None:
                self.crash('null pointer dereferenced (call of %s)' % callee['n'])
            this = self.chk(c) if isinstance(c, Cell) else Cell(c)
        else:
            this = ob if isinstance(ob, Cell) else Cell(ob)
            self.chk(this)
        if callee.get('virtual') or True:
            o = this.v
            if isinstance(o, Obj) and o.cls != callee.get('cls') and callee.get('virtual'):
                for f in self.P.funcs.values():
                    if f.get('cls') == o.cls and f['n'] == callee['n'] and f.get('body') is not None:
                        return self.call_fn(f, this, self.args_for(e['args'], callee, self.frames[-1].tu))
        return self.dispatch(e, callee, this, e['args'])

    def e_opcall(self, e):
        callee = e.get('callee')
        if callee is None:
            raise Undecided('operator call')
        args = e['args']
        if callee.get('cls') is not None and not callee.get('static'):
            # lambda call operators appear as opcall "()" on a closure
            ob = self.ev(args[0])
            this = ob if isinstance(ob, Cell) else Cell(ob)
            self.chk(this)
            if e['op'] == '()' and isinstance(this.v, (Closure, Fn)):
                rest = [self.ev(a) for a in args[1:]]
                return self.apply(this.v, rest)
            return self.dispatch(e, callee, this, args[1:])
        return self.dispatch(e, callee, None, args)
