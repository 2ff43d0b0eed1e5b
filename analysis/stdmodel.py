"""Abstract models of the standard library operations used by the library (and of common alternatives)."""
import math, re
from fractions import Fraction
import terms as T
from terms import Poly, Atom, is_const
from loader import strip_cvref, strip_ref
from interp import (Cell, cell_of, Obj, Ptr, UPtr, Seq, SliceRef, MapV, RefW, Tup, Iter, Closure, Fn, SStr, mkstr, Stream, Opaque,
                    Undecided, CppThrow, BreakX, INTTYPES)

_targs = {}


def targs(t):
    """template arguments of a canonical type name"""
    r = _targs.get(t)
    if r is not None:
        return r
    i = t.find('<')
    if i < 0:
        return []
    out, depth, cur, j = [], 0, '', i + 1
    while j < len(t):
        c = t[j]
        if c in '<(':
            depth += 1
        elif c in '>)':
            if depth == 0 and c == '>':
                break
            depth -= 1
        if c == ',' and depth == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
        j += 1
    if cur.strip():
        out.append(cur.strip())
    _targs[t] = out
    return out


SEQS = ('stack', 'queue', 'vector', 'deque', 'list', 'forward_list', 'valarray', 'initializer_list')
MAPS = ('map', 'set', 'unordered_map', 'unordered_set')


def base_of(t):
    m = re.match(r'((?:std|__gnu_cxx)(?:::\w+)+)', t)
    return m.group(1) if m else t


# ---------------------------------------------------------------- iterators
def seq_len(I, c):
    if isinstance(c, Seq):
        return len(c.items)
    if isinstance(c, MapV):
        return len(c.items)
    if isinstance(c, SStr):
        n, parts = 0, []
        for x in c.p:
            if isinstance(x, str):
                n += len(x)
            elif isinstance(x, Atom) and x.op == 'char':
                n += 1
            else:
                parts.append(x)
        if parts:
            r = Fraction(n)
            for x in parts:
                r = T.add(r, T.topoly(Atom('strlen', (x,))))
            return r
        return n
    return len(chars(I, c))


def chars(I, s):
    """the characters of a string whose length is known"""
    if isinstance(s, str):
        return [ord(x) - 256 if 127 < ord(x) < 256 else ord(x) for x in s]
    if isinstance(s, SStr):
        out = []
        for x in s.p:
            if isinstance(x, str):
                out += [ord(y) - 256 if 127 < ord(y) < 256 else ord(y) for y in x]
            elif isinstance(x, Atom) and x.op == 'char':
                out.append(x)
            else:
                raise Undecided('characters of an opaque string')
        return out
    raise Undecided('characters of %r' % (s,))


def char_piece(c):
    if isinstance(c, int):
        return chr(c & 255) if c < 0 else chr(c)
    return c


def iter_cell(I, it):
    c = it.c
    if isinstance(c, Seq):
        if not 0 <= it.i < len(c.items):
            I.crash('iterator dereferenced outside its container')
        return I.chk(c.items[it.i])
    if isinstance(c, MapV):
        if not 0 <= it.i < len(c.items):
            I.crash('iterator dereferenced outside its container')
        k, v = c.items[it.i]
        if c.kind == 'set':
            return Cell(k)
        return Cell(Tup([Cell(k), v], True))
    if isinstance(c, (str, SStr)):
        cs = chars(I, c)
        if not 0 <= it.i < len(cs):
            I.crash('string iterator dereferenced at the end of the string')
        cell = Cell(I.res(cs[it.i]))
        cell.src = (c, it.i)
        return cell
    if isinstance(c, Cell):
        if it.i != 0:
            I.crash('pointer dereferenced outside its object')
        return I.chk(c)
    raise Undecided('dereference of an iterator')


def iter_add(I, a, n):
    if isinstance(n, Poly):
        raise Undecided('symbolic iterator offset')
    if isinstance(a, Ptr):
        c = a.cell
        if c is None:
            if n == 0:
                return a
            I.crash('arithmetic on a null pointer')
        if c.seq is not None:
            for i, x in enumerate(c.seq.items):
                if x is c:
                    return Iter(c.seq, i + n)
        return Iter(c, n)
    if a is None:
        if n == 0:
            return None
        I.crash('arithmetic on a null pointer')
    return Iter(a.c, a.i + n * a.step, a.step)


def iter_diff(I, a, b):
    a, b = as_iter(I, a), as_iter(I, b)
    if a is None and b is None:
        return 0
    if a.c is not b.c and not (isinstance(a.c, (str, SStr)) and a.c == b.c):
        raise Undecided('difference of unrelated iterators')
    return (a.i - b.i) * a.step


def as_iter(I, x):
    x = I.val(x) if isinstance(x, Cell) else x
    if isinstance(x, Iter):
        return x
    if isinstance(x, Ptr):
        return iter_add(I, x, 0)
    if isinstance(x, (str, SStr)):
        return Iter(x, 0)
    if x is None:
        return None
    raise Undecided('iterator %r' % (x,))


def irange(I, a, b):
    a, b = as_iter(I, a), as_iter(I, b)
    if a is None or b is None:
        return []
    n = iter_diff(I, b, a)
    if n < 0:
        I.crash('iterator range is reversed')
    out = []
    for k in range(n):
        out.append(iter_cell(I, Iter(a.c, a.i + k * a.step, a.step)))
    return out


def iterate(I, r):
    """cells of a range"""
    cell = r
    r = I.val(r)
    if isinstance(r, Seq):
        i = 0
        while i < len(r.items):
            yield I.chk(r.items[i])
            i += 1
        return
    if isinstance(r, MapV):
        i = 0
        while i < len(r.items):
            yield iter_cell(I, Iter(r, i))
            i += 1
        return
    if isinstance(r, (str, SStr)):
        for c in chars(I, r):
            yield Cell(I.res(c))
        return
    if isinstance(r, Obj):
        b = [f for f in I.P.funcs.values() if f.get('cls') == r.cls and f['n'] == 'begin' and f.get('body') is not None]
        e = [f for f in I.P.funcs.values() if f.get('cls') == r.cls and f['n'] == 'end' and f.get('body') is not None]
        if b and e:
            this = cell if isinstance(cell, Cell) else Cell(r)
            x = I.val(I.call_fn(b[0], this, []))
            y = I.val(I.call_fn(e[0], this, []))
            for c in irange(I, x, y):
                yield c
            return
    raise Undecided('iteration over %r' % (r,))


def seq_at(I, s, i):
    if isinstance(i, (Poly, Atom)):
        h = I.o.get('index_hook')
        if h:
            r = h(I, s, i)
            if r is not None:
                return r
        raise Undecided('symbolic index')
    if not 0 <= i < len(s.items):
        I.crash('index %s outside a container of %d elements' % (i, len(s.items)))
    return I.chk(s.items[i])


# ---------------------------------------------------------------- construction
def take(I, a, vc):
    """value of an argument that initialises a new object"""
    if isinstance(a, Cell):
        I.chk(a)
        v = a.v
        if I.is_scalar(v):
            if vc != 'l' and isinstance(v, (str, SStr)):
                a.v = ''
            return I.res(v)
        if vc == 'l':
            return I.copyval(a)
        return I.moveval(a)
    return a


def conv_to(I, v, t, a=None, vc='x'):
    """converts a value to the type t when they differ in kind"""
    t = strip_cvref(t)
    if t.startswith('std::basic_string') and isinstance(v, Iter):
        return to_string(I, v)
    if isinstance(v, Obj) and v.cls == t:
        return v
    if t in I.P.records and not isinstance(v, Obj):
        return I.construct(t, [v], [vc])
    if t == 'double' and isinstance(v, bool):
        return int(v)
    return v


def construct_std(I, t, args, vcs):
    b = base_of(t)
    n = b.split('::')[-1]
    if n in ('unique_ptr', 'shared_ptr'):
        if not args:
            return UPtr()
        v = I.val(args[0])
        if v is None:
            return UPtr()
        if isinstance(v, Ptr):
            I.adopt(v.cell)
            return UPtr(v.cell)
        if isinstance(v, UPtr):
            if vcs[0] == 'l' and isinstance(args[0], Cell):
                raise Undecided('copy of a unique_ptr')
            return I.moveval(args[0])
        raise Undecided('unique_ptr from %r' % (v,))
    if n == 'reference_wrapper':
        a = args[0]
        v = I.val(a)
        if isinstance(v, RefW):
            return RefW(v.cell)
        return RefW(a if isinstance(a, Cell) else Cell(a))
    if n in ('tuple', 'pair'):
        ts = targs(t)
        if len(args) == 1 and isinstance(I.val(args[0]), Tup):
            src = I.val(args[0])
            cells, refs = [], set()
            for i, (x, tt) in enumerate(zip(src.cells, ts)):
                if tt.endswith('&'):
                    cells.append(x)
                    refs.add(i)
                else:
                    cells.append(Cell(take(I, x, 'l' if i in src.refs else vcs[0])))
            return Tup(cells, n == 'pair', refs)
        if not args:
            return Tup([Cell(I.default_value(x)) for x in ts], n == 'pair')
        cells, refs = [], set()
        for i, (a, tt, vc) in enumerate(zip(args, ts, vcs)):
            if tt.endswith('&'):
                cells.append(a if isinstance(a, Cell) else Cell(a))
                refs.add(i)
            else:
                cells.append(Cell(conv_to(I, take(I, a, vc), tt)))
        return Tup(cells, n == 'pair', refs)
    if n == 'basic_string':
        return make_string(I, args, vcs)
    if n == 'function':
        if not args:
            return None
        return I.copyval(args[0]) if isinstance(args[0], Cell) else args[0]
    if n in SEQS:
        return make_seq(I, n, t, args, vcs)
    if n in MAPS:
        return make_map(I, n, t, args, vcs)
    if n == 'array':
        if not args:
            return I.default_value(t)
        return take(I, args[0], vcs[0])
    if n == '_Expr' or n in ('indirect_array', 'mask_array'):
        return take(I, args[0], vcs[0])
    if n in ('slice_array', 'gslice_array'):
        v = I.val(args[0])
        return SliceRef(list(v.cells))
    if n in ('slice', 'gslice'):
        if len(args) == 1:
            return I.val(args[0])
        o = Obj('std::' + n)
        vals = [I.res(I.val(a)) for a in args] or [0, 0, 0]
        o.f['a'] = Cell(tuple(x.vals() if isinstance(x, Seq) else x for x in vals))
        return o
    if n in ('basic_stringstream', 'basic_ostringstream', 'basic_istringstream'):
        s = Stream()
        if args and isinstance(I.val(args[0]), (str, SStr)):
            s.p = [I.val(args[0])]
        return s
    if n in ('runtime_error', 'out_of_range', 'invalid_argument', 'logic_error', 'domain_error', 'exception', 'range_error', 'length_error', 'overflow_error', 'bad_alloc'):
        if args and isinstance(I.val(args[0]), Obj):
            return I.copyval(args[0])
        o = Obj('std::' + n)
        o.f['__what'] = Cell(I.val(args[0]) if args else '')
        return o
    if n == 'ostream_iterator':
        if len(args) == 1 and isinstance(I.val(args[0]), Obj):
            return I.val(args[0])
        o = Obj('std::ostream_iterator')
        o.f['s'] = args[0]
        o.refs.add('s')
        o.f['d'] = Cell(I.val(args[1]) if len(args) > 1 else '')
        return o
    if n in ('allocator',):
        return Opaque('allocator')
    if n in ('less', 'less_equal', 'greater', 'greater_equal', 'equal_to', 'not_equal_to', 'plus', 'minus', 'multiplies',
             'divides', 'negate', 'logical_and', 'logical_or', 'logical_not', 'hash'):
        return Obj('std::' + n)
    if n in ('basic_regex', 'regex'):
        v = I.val(args[0]) if args else ''
        if isinstance(v, Opaque):
            return v
        x = Opaque('regex')
        x.src = to_string(I, v) if len(args) < 2 else None
        return x
    if n in ('mutex', 'recursive_mutex', 'lock_guard', 'unique_lock', 'scoped_lock', 'once_flag'):
        return Opaque(n)
    if n in ('nullptr_t',):
        return None
    if n in ('locale', 'numeric_limits', 'default_delete', 'piecewise_construct_t', 'random_device'):
        return Opaque(n)
    if len(args) == 1:
        v = I.val(args[0])
        if isinstance(v, Iter):
            if n == 'reverse_iterator' and v.step > 0:
                return Iter(v.c, v.i - 1, -1)
            return Iter(v.c, v.i, v.step)
        if isinstance(v, Ptr):
            return v
    if not args and ('iterator' in n):
        return Iter(None, 0)
    raise Undecided('construction of ' + t)


def ctor_std(I, e, cls, args, vcs):
    t = strip_cvref(I.ty(e['t']))
    if e.get('move') and args and vcs[0] == 'l':
        vcs = ['x'] + vcs[1:]
    if e.get('copy') and args:
        v = I.val(args[0])
        if isinstance(v, Seq) and v.kind == 'il':
            return v
        if isinstance(args[0], Cell):
            I.chk(args[0])
            if not isinstance(v, (Stream,)):
                return I.copyval(args[0]) if not I.is_scalar(v) else v
    if cls.startswith('(lambda') or 'lambda' in cls:
        return take(I, args[0], vcs[0])
    return construct_std(I, t, args, vcs)


def to_string(I, v):
    if isinstance(v, (str, SStr)):
        return v
    if isinstance(v, Iter):
        c = v.c
        if isinstance(c, str):
            s = c[v.i:]
            return s.split('\0')[0]
        if isinstance(c, SStr):
            # up to the first terminator
            out = []
            for x in c.p if v.i == 0 else [char_piece(x) for x in chars(I, c)[v.i:]]:
                if isinstance(x, str):
                    out.append(x.split('\0')[0])
                    if '\0' in x:
                        break
                elif x.op == 'char' and (I.domain(x) is None or 0 in I.domain(x)) and I.cmp_sym('==', x, 0):
                    break
                else:
                    out.append(x)
            return mkstr(out)
        if isinstance(c, Seq):
            out = []
            for x in c.items[v.i:]:
                if x.v == 0:
                    break
                out.append(char_piece(x.v))
            return mkstr(out)
    if isinstance(v, Seq):
        return mkstr([char_piece(c.v) for c in v.items if c.v != 0])
    if isinstance(v, Ptr) and v.cell is not None and v.cell.seq is not None:
        return to_string(I, iter_add(I, v, 0))
    if v is None:
        I.crash('string built from a null pointer')
    raise Undecided('string from %r' % (v,))


def make_string(I, args, vcs):
    args = [a for a in args if not (isinstance(I.val(a), Opaque) and I.val(a).what == 'allocator')]
    if not args:
        return ''
    v = I.val(args[0])
    if len(args) == 1:
        if isinstance(v, Seq) and v.kind in ('il', 'vector'):
            return mkstr([char_piece(x) for x in v.vals()])
        r = to_string(I, v)
        if isinstance(args[0], Cell) and vcs[0] != 'l' and isinstance(v, (str, SStr)):
            args[0].v = ''
        return r
    w = I.res(I.val(args[1]))
    if isinstance(v, (str, SStr)) and isinstance(w, int):
        cs = chars(I, v)
        n = I.val(args[2]) if len(args) > 2 else None
        if n is None:
            return mkstr([char_piece(x) for x in cs[:w]])
        return mkstr([char_piece(x) for x in cs[w:w + n]])
    if isinstance(v, Iter) and isinstance(w, int):
        return mkstr([char_piece(I.res(c)) for c in chars(I, v.c)[v.i:v.i + w]])
    if isinstance(v, (Iter, Ptr)) and isinstance(w, (Iter, Ptr)):
        return mkstr([char_piece(I.res(c.v)) for c in irange(I, v, w)])
    v = I.res(v)
    if isinstance(v, int) and isinstance(w, (int, Atom)):
        if v >= 1 << 62:
            std_throw(I, 'std::length_error', 'basic_string::_M_create')
        if v > 100000:
            raise Undecided('huge string')
        return mkstr([char_piece(w)] * v)
    if isinstance(v, Poly):
        return mkstr([Atom('repeat', v, w)])
    raise Undecided('string constructor')


def elem(I, et, a, vc):
    return Cell(conv_to(I, take(I, a, vc), et) if et else take(I, a, vc))


def make_seq(I, n, t, args, vcs):
    et = targs(t)[0]
    if n == 'initializer_list':
        n = 'il'
    if not args:
        return Seq(n, (), et)
    v = I.res(I.val(args[0]))
    if len(args) == 1 or (len(args) == 2 and isinstance(I.val(args[1]), Opaque)):
        if isinstance(v, Seq):
            if v.kind == 'il' and n != 'il':
                s = Seq(n, (), et)
                for c in v.items:
                    s.append(Cell(I.copyval(c) if not I.is_scalar(c.v) else c.v))
                return s
            if n == 'il':
                return v
            r = take(I, args[0], vcs[0])
            return Seq(n, r.items, et, cells=True)
        if isinstance(v, SliceRef):
            return Seq(n, [c.v for c in v.cells], et)
        if isinstance(v, int):
            h = I.o.get('size_hook')
            if v > 5000 or v < 0:
                raise Undecided('container of %s elements' % v)
            return Seq(n, [I.default_value(et) for _ in range(v)], et)
        raise Undecided('container from %r' % (v,))
    w = I.res(I.val(args[1]))
    if isinstance(v, (Iter, Ptr)) and isinstance(w, (Iter, Ptr)):
        s = Seq(n, (), et)
        for c in irange(I, v, w):
            s.append(elem(I, et, c, 'l'))
        return s
    if n == 'valarray':
        if isinstance(w, int) and not isinstance(v, (Iter, Ptr, Seq)) and 0 <= w < 5000:
            return Seq(n, [conv_to(I, v, et) for _ in range(w)], et)
        if isinstance(v, (Iter, Ptr)) and isinstance(w, int):
            it = as_iter(I, v)
            return Seq(n, [iter_cell(I, iter_add(I, it, k)).v for k in range(w)], et)
    elif isinstance(v, int) and 0 <= v < 5000:
        return Seq(n, [I.copyval(args[1]) if isinstance(args[1], Cell) else I.copyval(Cell(w)) for _ in range(v)], et)
    raise Undecided('container constructor of ' + t)


def make_map(I, n, t, args, vcs):
    m = MapV('set' if 'set' in n else 'map')
    if not args:
        return m
    v = I.val(args[0])
    if isinstance(v, MapV):
        return take(I, args[0], vcs[0])
    if isinstance(v, Seq):
        for c in v.items:
            map_insert(I, m, I.copyval(c))
        return m
    if len(args) >= 2 and isinstance(v, (Iter, Ptr)):
        for c in irange(I, v, I.val(args[1])):
            map_insert(I, m, I.copyval(c))
        return m
    if isinstance(v, (Obj, Opaque, Closure)):
        return m
    raise Undecided('map constructor')


def map_find(I, m, k):
    for i, (kk, _) in enumerate(m.items):
        if I.cmp('==', kk, k):
            return i
    return -1


def map_insert(I, m, v):
    """inserts a key (set) or a pair (map); returns (index, inserted)"""
    if m.kind == 'set':
        k, c = v, None
    else:
        if isinstance(v, Cell):
            v = v.v
        if not isinstance(v, Tup):
            raise Undecided('map insertion of %r' % (v,))
        k, c = v.cells[0].v, Cell(v.cells[1].v)
    return map_put(I, m, k, c)


def map_put(I, m, k, c):
    i = map_find(I, m, k)
    if i >= 0:
        return i, False
    if isinstance(k, str) and all(isinstance(x, str) for x, _ in m.items):
        i = 0
        while i < len(m.items) and m.items[i][0] < k:
            i += 1
    elif is_const(k) and all(is_const(x) for x, _ in m.items):
        i = 0
        while i < len(m.items) and m.items[i][0] < k:
            i += 1
    else:
        i = len(m.items)
    m.items.insert(i, (k, c))
    return i, True


# ---------------------------------------------------------------- numbers
def absv(I, v):
    if is_const(v):
        return abs(v)
    p = T.topoly(v)
    lead = min(p.d.items(), key=lambda mc: tuple((a.id, e) for a, e in mc[0]))[1]
    if lead < 0:
        p = T.topoly(T.neg(p))
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if len(m) == 1 and m[0][0].op in ('abs', 'sqrt', 'exp') and m[0][1] > 0:
            return T.norm(p)
    I.path.notes.append(('abs', p))
    if I.o.get('abs_split', False):
        return T.norm(p) if not I.cmp('<', p, 0) else T.neg(p)
    return T.atom_num('abs', T.norm(p))


MATH1 = {'sin', 'cos', 'tan', 'asin', 'acos', 'atan', 'sqrt', 'log', 'log2', 'log10', 'exp', 'floor', 'ceil', 'round',
         'trunc', 'sinh', 'cosh', 'tanh', 'cbrt', 'exp2', 'expm1', 'log1p', 'rint', 'nearbyint', 'fabs', 'asinh', 'acosh', 'atanh'}
MATH2 = {'pow', 'fmod', 'atan2', 'hypot', 'remainder', 'fmax', 'fmin', 'copysign', 'fdim'}


def math_fn(I, n, args):
    vs = [I.res(I.val(a)) for a in args]
    vs = [int(x) if isinstance(x, bool) else x for x in vs]
    h = I.o.get('math_hook')
    if h:
        r = h(I, n, vs)
        if r is not None:
            return r
    if n == 'fabs':
        return absv(I, vs[0])
    if n in ('fmax', 'fmin'):
        return (vs[1] if I.cmp('<', vs[0], vs[1]) else vs[0]) if n == 'fmax' else (vs[0] if I.cmp('<', vs[0], vs[1]) else vs[1])
    if all(is_const(x) for x in vs) and I.o.get('fold_math', True):
        try:
            f = {'trunc': math.trunc, 'round': lambda x: math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1)}.get(n) or getattr(math, n)
            if n == 'log' and vs[0] == 0:
                return -math.inf
            r = f(*[float(x) for x in vs])
            if isinstance(r, complex):
                return math.nan
            return T.unwrap(r)
        except (ValueError, OverflowError, AttributeError):
            pass
    return T.atom_num(n, *vs)


CT = {'isspace': lambda c: chr(c) in ' \t\n\r\v\f', 'isdigit': lambda c: 48 <= c <= 57,
      'isalpha': lambda c: 65 <= c <= 90 or 97 <= c <= 122,
      'isalnum': lambda c: 65 <= c <= 90 or 97 <= c <= 122 or 48 <= c <= 57,
      'isupper': lambda c: 65 <= c <= 90, 'islower': lambda c: 97 <= c <= 122,
      'ispunct': lambda c: 33 <= c <= 126 and not (65 <= c <= 90 or 97 <= c <= 122 or 48 <= c <= 57),
      'isprint': lambda c: 32 <= c <= 126, 'isxdigit': lambda c: chr(c) in '0123456789abcdefABCDEF'}


def ctype(I, n, c):
    c = I.res(c)
    f = CT[n]
    if isinstance(c, int):
        return 1 if 0 <= c < 128 and f(c) else 0
    if isinstance(c, Atom) and c in I.path.dom:
        d = I.path.dom[c]
        t = frozenset(x for x in d if 0 <= x < 128 and f(x))
        if not t:
            return 0
        if t == d:
            return 1
        return 1 if I.split_dom(c, [t, d - t]) == 0 else 0
    raise Undecided(n)


# ---------------------------------------------------------------- equality
def eqv(I, a, b):
    a, b = I.res(I.val(a)), I.res(I.val(b))
    if isinstance(a, Tup) and isinstance(b, Tup):
        return all(eqv(I, x, y) for x, y in zip(a.cells, b.cells))
    if isinstance(a, Seq) and isinstance(b, Seq):
        return len(a.items) == len(b.items) and all(eqv(I, x, y) for x, y in zip(a.items, b.items))
    if isinstance(a, MapV) and isinstance(b, MapV):
        if len(a.items) != len(b.items):
            return False
        for (k, c), (k2, c2) in zip(a.items, b.items):
            if not I.cmp('==', k, k2):
                return False
            if c is not None and not eqv(I, c, c2):
                return False
        return True
    if isinstance(a, Obj) and isinstance(b, Obj):
        fs = [f for f in I.P.funcs.values() if f['n'] == 'operator==' and f.get('body') is not None]
        for f in fs:
            if f.get('cls') == a.cls and len(f['params']) == 1:
                return I.truth(I.val(I.call_fn(f, Cell(a), [Cell(b)])))
            ts = [strip_cvref(f['_tu'].types[p['t']]) for p in f['params']]
            if ts == [a.cls, b.cls]:
                return I.truth(I.val(I.call_fn(f, None, [Cell(a), Cell(b)])))
        raise Undecided('equality of %s' % a.cls)
    return I.cmp('==', a, b)


# ---------------------------------------------------------------- valarray arithmetic
def elementwise(I, op, a, b):
    """a op b with valarray operands"""
    if isinstance(a, SliceRef):
        a = Seq('valarray', [c.v for c in a.cells], 'double')
    if isinstance(b, SliceRef):
        b = Seq('valarray', [c.v for c in b.cells], 'double')
    if isinstance(a, Seq) and isinstance(b, Seq):
        if len(a.items) != len(b.items):
            I.crash('element-wise operation on %d and %d elements' % (len(a.items), len(b.items)))
        ps = list(zip(a.vals(), b.vals()))
        et = a.et
    elif isinstance(a, Seq):
        ps = [(x, b) for x in a.vals()]
        et = a.et
    else:
        ps = [(a, x) for x in b.vals()]
        et = b.et
    if op in ('==', '!=', '<', '<=', '>', '>='):
        return Seq('valarray', [I.cmp(op, x, y) for x, y in ps], 'bool')
    return Seq('valarray', [I.arith(op, x, y, et or 'double') for x, y in ps], et)


def slice_cells(I, s, sl):
    a = sl.f['a'].v
    if sl.cls == 'std::slice':
        st, n, stride = a
        if isinstance(n, int) and n > 1000000:
            I.crash('slice of %d elements' % n)
        idx = [I.val(st) + i * stride for i in range(n)]
    else:
        st, ns, strides = a
        idx = [st]
        if any(isinstance(n, int) and not 0 <= n <= 1000000 for n in ns):
            I.crash("slice of %s elements" % (ns,))
        for n, k in zip(ns, strides):
            idx = [x + i * k for x in idx for i in range(n)]
    out = []
    for i in idx:
        if not 0 <= i < len(s.items):
            I.crash('slice reaches element %s of %d' % (i, len(s.items)))
        out.append(s.items[i])
    return out


def as_vals(v):
    if isinstance(v, SliceRef):
        return [c.v for c in v.cells]
    if isinstance(v, Seq):
        return v.vals()
    return None


def assign_seq(I, this, v):
    """valarray / container assignment"""
    if isinstance(this, SliceRef):
        vals = as_vals(v)
        if vals is None:
            for c in this.cells:
                I.assign(c, v)
            return
        if len(vals) != len(this.cells):
            I.crash('slice of %d elements assigned %d values' % (len(this.cells), len(vals)))
        for c, x in zip(this.cells, vals):
            I.assign(c, x)
        return
    raise Undecided('assignment')


# ---------------------------------------------------------------- output
def emit(I, st, piece, where=None):
    if not isinstance(st, Stream):
        raise Undecided('output to %r' % (st,))
    k = getattr(st, 'kind', None)
    if k:
        I.path.events.append(('print', k, I.where()))
    st.p.append(piece)


def piece_of(I, v, t=None):
    v = I.res(I.val(v))
    if isinstance(v, (str, SStr)):
        return v
    if isinstance(v, bool):
        return '1' if v else '0'
    if t in ('char', 'signed char', 'unsigned char'):
        return char_piece(v)
    if isinstance(v, int):
        return str(v)
    if isinstance(v, (float, Fraction)):
        return Atom('num', v)
    if isinstance(v, Poly):
        return Atom('num', v)
    if isinstance(v, Atom):
        return Atom('num', v)
    if isinstance(v, (Iter, Seq)):
        return to_string(I, v)
    if isinstance(v, (Fn, Opaque, Ptr, Closure)) or v is None:
        return Atom('other', 0)
    raise Undecided('output of %r' % (v,))


# ---------------------------------------------------------------- algorithms
def per_element(I, cells, f):
    """applies f to every cell as the iterations of a loop"""
    for c in cells:
        I.fuel -= 1

        def body():
            I.note_current(c)
            if f(c) is False:
                raise BreakX()
        if not I.iteration(body):
            return False
    return True


def less(I, a, b, f=None):
    if f is not None:
        return I.truth(I.val(I.apply(f, [a, b])))
    a, b = I.val(a), I.val(b)
    if isinstance(a, Tup) and isinstance(b, Tup):
        for x, y in zip(a.cells, b.cells):
            if less(I, x, y):
                return True
            if less(I, y, x):
                return False
        return False
    return I.cmp('<', a, b)


def algorithm(I, n, args, vcs, e, callee):
    val = I.val
    if n in ('for_each',):
        r = irange(I, args[0], args[1])
        per_element(I, r, lambda c: (I.apply(args[2], [c]), None)[1])
        return val(args[2])
    if n in ('all_of', 'any_of', 'none_of'):
        want = {'all_of': False, 'any_of': True, 'none_of': True}[n]
        hit = [False]

        def f(c):
            if I.truth(val(I.apply(args[2], [c]))) == want:
                hit[0] = True
                return False
        per_element(I, irange(I, args[0], args[1]), f)
        return hit[0] if n == 'any_of' else not hit[0]
    if n in ('find', 'find_if', 'find_if_not', 'count', 'count_if'):
        a, b = as_iter(I, args[0]), as_iter(I, args[1])
        cnt = 0
        for k, c in enumerate(irange(I, a, b)):
            if n in ('find', 'count'):
                t = eqv(I, c, args[2])
            else:
                t = I.truth(val(I.apply(args[2], [c])))
                if n == 'find_if_not':
                    t = not t
            if t and n.startswith('find'):
                return Iter(a.c, a.i + k * a.step, a.step)
            cnt += t
        return cnt if n.startswith('count') else b
    if n in ('copy', 'move', 'copy_if') and len(args) >= 3:
        r = irange(I, args[0], args[1])
        out = val(args[2])
        if n == 'copy_if':
            r = [c for c in r if I.truth(val(I.apply(args[3], [c])))]
        return write_out(I, r, out, n == 'move')
    if n == 'copy_n':
        it = as_iter(I, args[0])
        r = [iter_cell(I, iter_add(I, it, k)) for k in range(val(args[1]))]
        return write_out(I, r, val(args[2]), False)
    if n == 'transform':
        r = irange(I, args[0], args[1])
        if len(args) == 5:
            it = as_iter(I, args[2])
            out, f = val(args[3]), args[4]
            res = []
            per_element(I, r, lambda c: res.append(Cell(val(I.apply(f, [c, iter_cell(I, iter_add(I, it, len(res)))])))))
        else:
            out, f = val(args[2]), args[3]
            res = []
            per_element(I, r, lambda c: res.append(Cell(val(I.apply(f, [c])))))
        return write_out(I, res, out, True)
    if n in ('fill', 'fill_n', 'generate', 'iota', 'generate_n'):
        if n.endswith('_n'):
            it = as_iter(I, args[0])
            r = [iter_cell(I, iter_add(I, it, k)) for k in range(val(args[1]))]
        else:
            r = irange(I, args[0], args[1])
        if n.startswith('generate'):
            def g(c):
                v = I.apply(args[2], [])
                if isinstance(v, Cell):
                    v = I.copyval(v)
                old = c.v
                I.assign(c, v)
                if isinstance(old, UPtr) and old.cell is not None and I.o['free']:
                    I.release(old.cell)
            per_element(I, r, g)
        elif n == 'iota':
            v = val(args[2])
            for c in r:
                I.assign(c, v)
                v = T.add(v, 1)
        else:
            for c in r:
                I.assign(c, I.copyval(args[2]) if isinstance(args[2], Cell) else args[2])
        return None
    if n == 'lexicographical_compare':
        x, y = irange(I, args[0], args[1]), irange(I, args[2], args[3])
        f = args[4] if len(args) > 4 else None
        for c, d in zip(x, y):
            if less(I, c, d, f):
                return True
            if less(I, d, c, f):
                return False
        return len(x) < len(y)
    if n == 'mismatch':
        a, it = as_iter(I, args[0]), as_iter(I, args[2])
        r = irange(I, a, args[1])
        rest = list(args[3:])
        lim = None
        if rest and isinstance(val(rest[0]), (Iter, Ptr)):
            lim = iter_diff(I, rest.pop(0), it)
        k = 0
        while k < len(r) and (lim is None or k < lim):
            d = iter_cell(I, iter_add(I, it, k))
            if not (I.truth(val(I.apply(rest[0], [r[k], d]))) if rest else eqv(I, r[k], d)):
                break
            k += 1
        return Tup([Cell(iter_add(I, a, k)), Cell(iter_add(I, it, k))], True)
    if n in ('lower_bound', 'upper_bound', 'binary_search', 'equal_range'):
        a = as_iter(I, args[0])
        r = irange(I, a, args[1])
        f = args[3] if len(args) > 3 else None
        lo = 0
        while lo < len(r) and less(I, r[lo], args[2], f):
            lo += 1
        if n == 'lower_bound':
            return iter_add(I, a, lo)
        if n == 'binary_search':
            return lo < len(r) and not less(I, args[2], r[lo], f)
        hi = lo
        while hi < len(r) and not less(I, args[2], r[hi], f):
            hi += 1
        if n == 'upper_bound':
            return iter_add(I, a, hi)
        return Tup([Cell(iter_add(I, a, lo)), Cell(iter_add(I, a, hi))], True)
    if n in ('unique', 'remove', 'remove_if'):
        a = as_iter(I, args[0])
        r = irange(I, a, args[1])
        w = 0
        for k, c in enumerate(r):
            if n == 'unique':
                drop = w > 0 and (I.truth(val(I.apply(args[2], [r[w - 1], c]))) if len(args) > 2 else eqv(I, r[w - 1], c))
            elif n == 'remove':
                drop = eqv(I, c, args[2])
            else:
                drop = I.truth(val(I.apply(args[2], [c])))
            if not drop:
                if w != k:
                    move_cell(I, r[w], c)
                w += 1
        return iter_add(I, a, w)
    if n in ('partition', 'stable_partition'):
        a = as_iter(I, args[0])
        r = irange(I, a, args[1])
        yes, no = [], []
        for c in r:
            (yes if I.truth(val(I.apply(args[2], [c]))) else no).append(c.v)
        for c, v in zip(r, yes + no):
            c.v = v
        return iter_add(I, a, len(yes))
    if n == 'rotate':
        a = as_iter(I, args[0])
        r = irange(I, a, args[2])
        k = iter_diff(I, args[1], a)
        vs = [c.v for c in r]
        for c, v in zip(r, vs[k:] + vs[:k]):
            c.v = v
        return iter_add(I, a, len(r) - k)
    if n in ('partial_sum', 'adjacent_difference'):
        r = irange(I, args[0], args[1])
        out, prev = [], None
        for c in r:
            v = val(c)
            if prev is None:
                x = v
            elif len(args) > 3:
                x = val(I.apply(args[3], [out[-1].v, c] if n == 'partial_sum' else [c, Cell(prev)]))
            else:
                x = T.add(out[-1].v, v) if n == 'partial_sum' else T.add(v, T.neg(prev))
            prev = v
            out.append(Cell(x))
        return write_out(I, out, val(args[2]), True)
    if n in ('is_sorted', 'is_sorted_until', 'adjacent_find'):
        a = as_iter(I, args[0])
        r = irange(I, a, args[1])
        f = args[2] if len(args) > 2 else None
        for k in range(1, len(r)):
            if n == 'adjacent_find':
                hit = I.truth(val(I.apply(f, [r[k - 1], r[k]]))) if f is not None else eqv(I, r[k - 1], r[k])
                if hit:
                    return iter_add(I, a, k - 1)
            elif less(I, r[k], r[k - 1], f):
                return False if n == 'is_sorted' else iter_add(I, a, k)
        return True if n == 'is_sorted' else iter_add(I, a, len(r))
    if n == 'minmax_element':
        lo = algorithm(I, 'min_element', args, vcs, e, callee)
        a, b = as_iter(I, args[0]), as_iter(I, args[1])
        r = irange(I, a, b)
        best = 0
        f = args[2] if len(args) > 2 else None
        for k in range(1, len(r)):
            if not less(I, r[k], r[best], f):
                best = k
        return Tup([Cell(lo), Cell(iter_add(I, a, best))], True)
    if n in ('nth_element', 'partial_sort'):
        return algorithm(I, 'sort', [args[0], args[2]] + list(args[3:]), vcs, e, callee)
    if n in ('copy_backward', 'move_backward'):
        r = irange(I, args[0], args[1])
        it = as_iter(I, args[2])
        for k in range(1, len(r) + 1):
            d = iter_cell(I, iter_add(I, it, -k))
            move_cell(I, d, r[-k], n[:4] == 'move')
        return iter_add(I, it, -len(r))
    if n == 'reverse_copy':
        return write_out(I, irange(I, args[0], args[1])[::-1], val(args[2]), False)
    if n in ('replace', 'replace_if'):
        for c in irange(I, args[0], args[1]):
            if (eqv(I, c, args[2]) if n == 'replace' else I.truth(val(I.apply(args[2], [c])))):
                I.assign(c, I.copyval(args[3]) if isinstance(args[3], Cell) else args[3])
        return None
    if n in ('set_union', 'set_intersection', 'set_difference', 'set_symmetric_difference', 'merge', 'includes'):
        x, y = irange(I, args[0], args[1]), irange(I, args[2], args[3])
        f = args[5] if len(args) > 5 else (args[4] if n == 'includes' and len(args) > 4 else None)
        out, i, j = [], 0, 0
        while i < len(x) or j < len(y):
            if j >= len(y) or i < len(x) and less(I, x[i], y[j], f):
                w, c = 'x', x[i]
                i += 1
            elif i >= len(x) or less(I, y[j], x[i], f):
                w, c = 'y', y[j]
                j += 1
            else:
                w, c = 'b', x[i]
                i += 1
                j += 1
                if n == 'merge':
                    out.append(c)
            if n == 'includes':
                if w == 'y':
                    return False
            elif w in {'set_union': 'xyb', 'set_intersection': 'b', 'set_difference': 'x', 'set_symmetric_difference': 'xy', 'merge': 'xyb'}[n]:
                out.append(c)
        if n == 'includes':
            return True
        return write_out(I, out, val(args[4]), False)
    if n in ('search', 'find_first_of', 'find_end'):
        a = as_iter(I, args[0])
        x, y = irange(I, a, args[1]), irange(I, args[2], args[3])
        f = args[4] if len(args) > 4 else None
        same = lambda c, d: I.truth(val(I.apply(f, [c, d]))) if f is not None else eqv(I, c, d)
        if n == 'find_first_of':
            for k, c in enumerate(x):
                if any(same(c, d) for d in y):
                    return iter_add(I, a, k)
            return iter_add(I, a, len(x))
        ks = range(len(x) - len(y) + 1)
        for k in (ks if n == 'search' else reversed(ks)):
            if all(same(x[k + i], y[i]) for i in range(len(y))):
                return iter_add(I, a, k)
        return iter_add(I, a, len(x))
    if n in ('is_permutation', 'next_permutation', 'prev_permutation', 'shuffle', 'random_shuffle', 'make_heap', 'push_heap', 'pop_heap', 'sort_heap'):
        raise Undecided(n)
    if n == 'equal':
        r = irange(I, args[0], args[1])
        rest = args[2:]
        it = as_iter(I, rest[0])
        f = None
        if len(rest) >= 2 and isinstance(val(rest[1]), (Iter, Ptr)):
            if iter_diff(I, rest[1], rest[0]) != len(r):
                return False
            f = rest[2] if len(rest) > 2 else None
        elif len(rest) >= 2:
            f = rest[1]
        for k, c in enumerate(r):
            d = iter_cell(I, iter_add(I, it, k))
            t = I.truth(val(I.apply(f, [c, d]))) if f is not None else eqv(I, c, d)
            if not t:
                return False
        return True
    if n in ('max_element', 'min_element'):
        a, b = as_iter(I, args[0]), as_iter(I, args[1])
        r = irange(I, a, b)
        if not r:
            return b
        best = 0
        f = args[2] if len(args) > 2 else None
        for k in range(1, len(r)):
            if (less(I, r[best], r[k], f) if n == 'max_element' else less(I, r[k], r[best], f)):
                best = k
        return Iter(a.c, a.i + best * a.step, a.step)
    if n in ('accumulate', 'inner_product'):
        r = irange(I, args[0], args[1])
        if n == 'accumulate':
            acc = val(args[2])
            f = args[3] if len(args) > 3 else None
            for c in r:
                acc = val(I.apply(f, [acc, c])) if f is not None else plus(I, acc, c)
            return acc
        it = as_iter(I, args[2])
        acc = val(args[3])
        for k, c in enumerate(r):
            d = iter_cell(I, iter_add(I, it, k))
            if len(args) > 4:
                acc = val(I.apply(args[4], [acc, I.apply(args[5], [c, d])]))
            else:
                acc = T.add(acc, T.mul(val(c), val(d)))
        return acc
    if n in ('swap', 'iter_swap'):
        a, b = args[0], args[1]
        if n == 'iter_swap':
            a, b = iter_cell(I, as_iter(I, a)), iter_cell(I, as_iter(I, b))
        a.v, b.v = b.v, a.v
        if isinstance(a.v, Seq):
            pass
        return None
    if n == 'swap_ranges':
        r = irange(I, args[0], args[1])
        it = as_iter(I, args[2])
        for k, c in enumerate(r):
            d = iter_cell(I, iter_add(I, it, k))
            c.v, d.v = d.v, c.v
        return iter_add(I, it, len(r))
    if n in ('sort', 'stable_sort'):
        r = irange(I, args[0], args[1])
        vals = [c.v for c in r]
        f = args[2] if len(args) > 2 else None
        for i in range(1, len(vals)):
            j = i
            while j > 0 and less(I, Cell(vals[j]), Cell(vals[j - 1]), f):
                vals[j], vals[j - 1] = vals[j - 1], vals[j]
                j -= 1
        for c, v in zip(r, vals):
            c.v = v
        return None
    if n == 'reverse':
        r = irange(I, args[0], args[1])
        vals = [c.v for c in r][::-1]
        for c, v in zip(r, vals):
            c.v = v
        return None
    return NotImplemented


def move_cell(I, d, c, mv=True):
    old = d.v
    I.assign(d, I.moveval(c) if mv else I.copyval(c))
    if isinstance(old, UPtr) and old.cell is not None and I.o['free'] and d.v is not old:
        I.release(old.cell)


def plus(I, a, c):
    v = I.val(c)
    if isinstance(a, (str, SStr)):
        return mkstr([a, piece_of(I, v, 'char' if isinstance(v, int) else None)])
    return T.add(a, v)


def write_out(I, cells, out, mv):
    if isinstance(out, Obj) and out.cls == 'std::ostream_iterator':
        for c in cells:
            emit(I, I.val(out.f['s']), piece_of(I, c))
            emit(I, I.val(out.f['s']), piece_of(I, out.f['d']))
        return out
    if isinstance(out, Obj) and out.cls == 'std::inserter':
        tgt = out.f['c'].v
        for c in cells:
            v = I.moveval(c) if mv else I.copyval(c)
            if isinstance(tgt, MapV):
                map_insert(I, tgt, v)
            elif isinstance(tgt, Seq):
                if out.f['front'].v:
                    x = Cell(v)
                    x.seq = tgt
                    tgt.items.insert(0, x)
                else:
                    tgt.append(Cell(v))
            elif isinstance(tgt, (str, SStr)):
                out.f['c'].v = mkstr([tgt, char_piece(v)])
            else:
                raise Undecided('inserter')
        return out
    it = as_iter(I, out)
    for k, c in enumerate(cells):
        d = iter_cell(I, iter_add(I, it, k))
        old = d.v
        I.assign(d, I.moveval(c) if mv else I.copyval(c))
        if isinstance(old, UPtr) and old.cell is not None and I.o['free']:
            I.release(old.cell)
    return iter_add(I, it, len(cells))


def call_functor(I, o, args):
    n = o.cls.split('::')[-1]
    vs = [I.val(a) for a in args]
    if n in ('less', 'greater', 'less_equal', 'greater_equal', 'equal_to', 'not_equal_to'):
        op = {'less': '<', 'greater': '>', 'less_equal': '<=', 'greater_equal': '>=', 'equal_to': '==', 'not_equal_to': '!='}[n]
        return I.cmp(op, vs[0], vs[1])
    if n in ('plus', 'minus', 'multiplies', 'divides'):
        return I.arith({'plus': '+', 'minus': '-', 'multiplies': '*', 'divides': '/'}[n], vs[0], vs[1], 'double')
    if n == 'negate':
        return T.neg(vs[0])
    if n in ('logical_and', 'logical_or', 'logical_not'):
        b = [I.truth(x) for x in vs]
        return not b[0] if n == 'logical_not' else (all(b) if n == 'logical_and' else any(b))
    if n == 'bound':
        out = []
        for a in o.f['a'].v:
            v = I.val(a)
            if isinstance(v, Obj) and v.cls == 'std::placeholder':
                k = v.f['n'].v
                if k > len(args):
                    raise Undecided('placeholder')
                out.append(args[k - 1])
            elif isinstance(v, RefW):
                out.append(v.cell)
            else:
                out.append(a)
        f = o.f['f'].v
        return I.apply(f, out)
    raise Undecided('functor ' + n)


# ---------------------------------------------------------------- calls
def call_std(I, callee, this, args, vcs, e):
    n = callee['n']
    q = callee['q']
    cls = callee.get('cls')
    if callee.get('ctor'):
        return take(I, args[0], 'x' if e.get('move') else vcs[0]) if args else None
    if cls is None or this is None:
        r = call_free(I, n, q, args, vcs, e, callee)
    else:
        r = call_member(I, n, q, cls, this, args, vcs, e, callee)
    if r is NotImplemented:
        raise Undecided('library function ' + q)
    return r


def call_free(I, n, q, args, vcs, e, callee):
    val = I.val
    if n in ('move', 'forward') and len(args) == 1:
        return args[0]
    if n in ('as_const', 'ref', 'cref', 'addressof') and len(args) == 1:
        if n == 'as_const':
            return args[0]
        if n == 'addressof':
            return Ptr(args[0])
        v = val(args[0])
        return v if isinstance(v, RefW) else RefW(args[0])
    if n in MATH1 and len(args) == 1:
        v = val(args[0])
        if isinstance(v, (Seq, SliceRef)):
            return Seq('valarray', [math_fn(I, n, [x]) for x in as_vals(v)], 'double')
        return math_fn(I, n, args)
    if n in MATH2 and len(args) == 2:
        return math_fn(I, n, args)
    if n == 'abs':
        v = val(args[0])
        if isinstance(v, (Seq, SliceRef)):
            return Seq('valarray', [absv(I, x) for x in as_vals(v)], 'double')
        return absv(I, v)
    if n in ('isfinite', 'isnan', 'isinf', 'signbit', 'isnormal'):
        if n == 'signbit':
            v = val(args[0])
            if isinstance(v, float):
                return math.copysign(1.0, v) < 0
            return I.cmp('<', val(args[0]), 0)
        k = I.classify(val(args[0]))
        return {'isfinite': k == 'finite', 'isnan': k == 'nan', 'isinf': 'inf' in k}[n]
    if n in CT:
        return ctype(I, n, val(args[0]))
    if n in ('tolower', 'toupper') and isinstance(I.res(val(args[0])), int):
        c = chr(I.res(val(args[0])))
        return ord(c.lower() if n == 'tolower' else c.upper())
    if n in ('max', 'min'):
        if len(args) == 1 or isinstance(val(args[0]), Seq) and isinstance(val(args[1]), (Closure, Fn)):
            cells = val(args[0]).items
            f = args[1] if len(args) > 1 else None
            if not cells:
                I.crash(n + ' of an empty list')
        else:
            cells = args[:2]
            f = args[2] if len(args) > 2 else None
        best = cells[0]
        for c in cells[1:]:
            if (less(I, best, c, f) if n == 'max' else less(I, c, best, f)):
                best = c
        return best if isinstance(best, Cell) else best
    if n == 'make_unique':
        t = targs(strip_cvref(I.ty(e['t'])))[0]
        v = I.construct(t, args, vcs)
        c = cell_of(v, t)
        I.path.events.append(('new', c))
        return UPtr(c)
    if n in ('make_pair', 'make_tuple', 'tie', 'forward_as_tuple'):
        if n in ('tie', 'forward_as_tuple'):
            return Tup([a if isinstance(a, Cell) else Cell(a) for a in args], False, set(range(len(args))))
        return Tup([Cell(take(I, a, vc)) for a, vc in zip(args, vcs)], n == 'make_pair')
    if n == 'get' and args:
        m = re.search(r'get<#V[a-z](\d+)', callee['usr'])
        t = val(args[0])
        if m and isinstance(t, Tup):
            return I.chk(t.cells[int(m.group(1))])
        if m and isinstance(t, Seq):
            return t.items[int(m.group(1))]
        raise Undecided('std::get')
    if n in ('begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'crbegin', 'crend', 'size', 'empty', 'data'):
        a = args[0]
        return container(I, n, a if isinstance(a, Cell) else Cell(a), val(a))
    if n in ('next', 'prev'):
        k = val(args[1]) if len(args) > 1 else 1
        return iter_add(I, as_iter(I, args[0]), k if n == 'next' else -k)
    if n == 'advance':
        args[0].v = iter_add(I, as_iter(I, args[0]), val(args[1]))
        return None
    if n == 'distance':
        return iter_diff(I, as_iter(I, args[1]), as_iter(I, args[0]))
    if n == 'exchange':
        c = args[0]
        old = I.moveval(c) if not I.is_scalar(c.v) else c.v
        I.assign(c, take(I, args[1], vcs[1]))
        return old
    if n in ('back_inserter', 'front_inserter', 'inserter'):
        o = Obj('std::inserter')
        o.f['c'] = args[0]
        o.refs.add('c')
        o.f['front'] = Cell(n == 'front_inserter')
        return o
    if n == 'bind':
        o = Obj('std::bound')
        o.f['f'] = Cell(I.copyval(args[0]) if isinstance(args[0], Cell) else args[0])
        o.f['a'] = Cell(tuple(Cell(take(I, a, vc)) for a, vc in zip(args[1:], vcs[1:])))
        return o
    if n in ('stoi', 'stol', 'stoll', 'atoi', 'atol', 'strtol', 'stoul') and isinstance(to_string(I, val(args[0])), str):
        s = to_string(I, val(args[0]))
        base = val(args[2]) if len(args) > 2 else 10
        m = re.match(r'\s*([+-]?\d+)', s)
        if base != 10:
            raise Undecided(n)
        if not m:
            if n.startswith('sto'):
                std_throw(I, 'std::invalid_argument', n)
            return 0
        v = int(m.group(1))
        lim = 2 ** 31 if n in ('stoi', 'atoi') else 2 ** 63
        if not -lim <= v < lim:
            if n.startswith('sto'):
                std_throw(I, 'std::out_of_range', n)
            raise Undecided(n)
        if len(args) > 1:
            out = val(args[1])
            c = I.ptr_cell(out) if out is not None and not isinstance(out, int) else None
            if c is not None:
                c.v = m.end() if n.startswith('sto') else iter_add(I, as_iter(I, args[0]), m.end())
        return v
    if n in ('strcmp', 'strncmp'):
        a, b = to_string(I, val(args[0])), to_string(I, val(args[1]))
        if isinstance(a, str) and isinstance(b, str):
            if n == 'strncmp':
                k = val(args[2])
                a, b = a[:k], b[:k]
            return (a > b) - (a < b)
        raise Undecided(n)
    if n in ('regex_match', 'regex_search') and isinstance(val(args[-1]), Opaque) and isinstance(getattr(val(args[-1]), 'src', None), str) and len(args) == 2:
        s = to_string(I, val(args[0]))
        if isinstance(s, str):
            r = re.compile(val(args[-1]).src)
            return (r.fullmatch(s) if n == 'regex_match' else r.search(s)) is not None
        raise Undecided(n)
    if n == 'clamp':
        return args[1] if less(I, args[0], args[1]) else (args[2] if less(I, args[2], args[0]) else args[0])
    if n == 'minmax':
        a, b = args[:2]
        return Tup([b, a] if less(I, b, a) else [a, b], True)
    if n in ('stod', 'strtod', 'atof', 'stof'):
        return str_to_d(I, n, args)
    if n == 'to_string':
        v = I.res(val(args[0]))
        if isinstance(v, int):
            return str(int(v))
        return mkstr([Atom('to_string', v)])
    if n in ('endl', 'flush'):
        if args and isinstance(val(args[0]), Stream):
            emit(I, val(args[0]), '\n' if n == 'endl' else '')
            return args[0]
    if n in ('setw', 'setprecision', 'setfill', 'fixed', 'scientific', 'hex', 'dec', 'boolalpha', 'left', 'right', 'defaultfloat'):
        return Opaque('manip')
    if n == 'regex_replace':
        return mkstr([Atom('regex_replace', id(callee))])
    if n in ('snprintf', 'sprintf'):
        I.path.notes.append(('snprintf',))
        return T.sym('#snprintf%d' % len(I.path.notes))
    if n in ('printf', 'puts', 'putchar', 'fputs', 'fprintf', 'fwrite', 'putc', 'perror', 'vprintf', 'write'):
        I.path.events.append(('print', n, I.where()))
        return 0
    if n in ('abort', 'terminate', 'exit', '__assert_fail', '_Exit', 'quick_exit'):
        I.crash('call of ' + n)
    if n == 'strlen':
        return len(to_string(I, val(args[0])))
    if n == 'hash':
        raise Undecided('hash')
    if n in ('__builtin_expect',):
        return val(args[0])
    if n == 'isunordered':
        raise Undecided(n)
    if n in ('operator==', 'operator!='):
        a, b = val(args[0]), val(args[1])
        if isinstance(a, Seq) and a.kind == 'valarray' or isinstance(b, Seq) and b.kind == 'valarray':
            return elementwise(I, n[8:], a, b)
        if isinstance(a, (Iter, Seq)) and isinstance(b, (str, SStr)) and not isinstance(a, Seq):
            a = to_string(I, a)
        if isinstance(b, Iter) and isinstance(a, (str, SStr)):
            b = to_string(I, b)
        r = eqv(I, a, b)
        return r if n == 'operator==' else not r
    if n in ('operator<', 'operator<=', 'operator>', 'operator>='):
        a, b = val(args[0]), val(args[1])
        if isinstance(a, Seq) or isinstance(b, Seq):
            return elementwise(I, n[8:], a, b)
        if isinstance(a, Tup):
            if n == 'operator<':
                return less(I, a, b)
            if n == 'operator>':
                return less(I, b, a)
            if n == 'operator<=':
                return not less(I, b, a)
            return not less(I, a, b)
        return I.cmp(n[8:], a, b)
    if n in ('operator+', 'operator-', 'operator*', 'operator/', 'operator%', 'operator&', 'operator|') and len(args) == 2:
        a, b = I.res(val(args[0])), I.res(val(args[1]))
        if isinstance(a, (Seq, SliceRef)) and getattr(a, 'kind', 'valarray') == 'valarray' or isinstance(b, (Seq, SliceRef)) and getattr(b, 'kind', 'valarray') == 'valarray':
            return elementwise(I, n[8:], a, b)
        if isinstance(a, (Iter, Ptr)) or isinstance(b, (Iter, Ptr)):
            ta = strip_cvref(I.ty(e['t']))
            if not ta.startswith('std::basic_string'):
                return I.arith(n[8:], a, b, '')
        if n == 'operator+':
            return mkstr([piece_of(I, a, 'char' if not isinstance(a, (str, SStr, Iter)) else None),
                          piece_of(I, b, 'char' if not isinstance(b, (str, SStr, Iter)) else None)])
        raise Undecided(n)
    if n == 'operator<<':
        return shl(I, args[0], args[1], e)
    if n == 'getline':
        raise Undecided(n)
    r = algorithm(I, n, args, vcs, e, callee)
    if r is not NotImplemented:
        return r
    return NotImplemented


def shl(I, s, a, e):
    st = I.val(s)
    t = None
    try:
        t = strip_cvref(I.ty(e['args'][1]['t']))
    except (KeyError, IndexError):
        pass
    v = I.val(a)
    if isinstance(v, Fn):
        nm = v.callee['n']
        emit(I, st, '\n' if nm == 'endl' else '')
    elif isinstance(v, Opaque) and v.what == 'rdbuf':
        emit(I, st, mkstr(v.src.p))
    elif isinstance(v, Opaque) and v.what == 'manip':
        pass
    else:
        emit(I, st, piece_of(I, a, t))
    return s


def container(I, n, cell, c):
    def ln(pos=True):
        n = seq_len(I, c)
        if pos and isinstance(n, Poly):
            raise Undecided('characters of an opaque string')
        return n
    if isinstance(c, UPtr):
        raise Undecided('container of unique_ptr')
    if n in ('begin', 'cbegin'):
        return Iter(c, 0)
    if n in ('end', 'cend'):
        return Iter(c, ln())
    if n in ('rbegin', 'crbegin'):
        return Iter(c, ln() - 1, -1)
    if n in ('rend', 'crend'):
        return Iter(c, -1, -1)
    if n in ('size', 'length'):
        return ln(False)
    if n == 'empty':
        if isinstance(c, SStr):
            if any(isinstance(x, str) or (isinstance(x, Atom) and x.op == 'char') for x in c.p):
                return False
            return I.cmp('==', ln(False), 0, True)
        return ln() == 0
    if n == 'data':
        return Iter(c, 0)
    return NotImplemented


MUTATORS = {'push_back', 'emplace_back', 'pop_back', 'push_front', 'pop_front', 'emplace_front', 'emplace', 'clear', 'insert', 'erase', 'resize', 'reset', 'release', 'swap', 'assign',
            'append', 'operator=', 'operator+=', 'operator-=', 'operator*=', 'operator/=', 'replace', 'pop', 'push', 'shrink_to_fit'}


def call_member(I, n, q, cls, this, args, vcs, e, callee):
    I.chk(this)
    o = this.v
    val = I.val
    h = I.o.get('assign_hook')
    if h and n in MUTATORS and not callee.get('const'):
        h(I, this, None)
    if isinstance(o, UPtr):
        return uptr_member(I, n, this, o, args, vcs)
    if isinstance(o, RefW):
        if n == 'get' or n.startswith('operator'):
            if n == 'operator=':
                this.v = RefW(val(args[0]).cell)
                return this
            return I.chk(o.cell)
    if n == 'operator()':
        return I.apply(o, args)
    if isinstance(o, (Closure, Fn)) or (o is None and cls == 'std::function'):
        if n == 'operator bool':
            return o is not None
        if n == 'operator=':
            this.v = val(args[0])
            return this
        return NotImplemented
    if isinstance(o, Iter):
        return iter_member(I, n, this, o, args)
    if isinstance(o, Ptr) and 'iterator' in cls:
        return iter_member(I, n, this, as_iter(I, o), args)
    if isinstance(o, Stream):
        return stream_member(I, n, this, o, args, e)
    if isinstance(o, (str, SStr)):
        return string_member(I, n, this, o, args, vcs, e)
    if isinstance(o, MapV):
        return map_member(I, n, this, o, args, vcs, e)
    if isinstance(o, Tup):
        if n == 'operator=':
            src = val(args[0])
            for i, (c, d) in enumerate(zip(o.cells, src.cells)):
                v = take(I, d, 'l' if i in src.refs or vcs[0] == 'l' else 'x')
                old = c.v
                I.assign(c, v)
                if isinstance(old, UPtr) and old.cell is not None and I.o['free'] and old is not v:
                    I.release(old.cell)
            return this
        if n == 'swap':
            for c, d in zip(o.cells, val(args[0]).cells):
                c.v, d.v = d.v, c.v
            return None
    if isinstance(o, SliceRef):
        if n == 'operator=':
            v = val(args[0])
            if isinstance(v, SliceRef):
                v = Seq('valarray', [c.v for c in v.cells])
            assign_seq(I, o, v)
            return this
        m = re.match(r'operator(.)=$', n)
        if m:
            v = val(args[0])
            cur = Seq('valarray', [c.v for c in o.cells], 'double')
            assign_seq(I, o, elementwise(I, m.group(1), cur, v))
            return None
    if isinstance(o, Seq):
        return seq_member(I, n, this, o, args, vcs, e, cls)
    if isinstance(o, Obj) and n == 'what':
        return o.f['__what'].v if '__what' in o.f else 'what'
    if isinstance(o, Obj) and n == 'operator=' and o.cls in I.P.records:
        # implicit assignment of a repo class: member-wise
        src = args[0]
        sv = val(src)
        if sv is o:
            return this
        mv = callee.get('move') or ('&&' in I.frames[-1].tu.types[callee['pt'][0]] if callee.get('pt') else False)
        n2 = I.moveval(src) if mv else I.copyval(src)
        for k, c in n2.f.items():
            if k in o.refs:
                raise Undecided('assignment through reference member')
            tgt = o.f.get(k)
            if tgt is None:
                o.f[k] = c
                continue
            old = tgt.v
            I.assign(tgt, c.v)
            if isinstance(old, UPtr) and old.cell is not None and I.o['free'] and not (isinstance(c.v, UPtr) and c.v.cell is old.cell):
                I.release(old.cell)
        return this
    if isinstance(o, Opaque):
        if o.what == 'rdbuf' and n in ('sputn', 'sputc', 'xsputn'):
            if n == 'sputc':
                emit(I, o.src, char_piece(val(args[0])))
            elif val(args[1]) != 0:
                it, k = as_iter(I, args[0]), val(args[1])
                if it is None:
                    I.crash('null pointer read')
                cs = chars(I, it.c) if isinstance(it.c, (str, SStr)) else None
                if cs is None or not isinstance(k, int):
                    emit(I, o.src, to_string(I, val(args[0])))
                else:
                    if it.i + k > len(cs):
                        I.crash('read past the end of a text')
                    emit(I, o.src, mkstr([char_piece(x) for x in cs[it.i:it.i + k]]))
            return val(args[1]) if len(args) > 1 else None
    if isinstance(o, (Poly, int, float, Fraction)) and n.startswith('~'):
        return None
    if n.startswith('operator ') and isinstance(o, Obj):
        return NotImplemented
    return NotImplemented


def uptr_member(I, n, this, o, args, vcs):
    if n == 'get':
        return Ptr(o.cell) if o.cell is not None else None
    if n == 'operator->':
        if o.cell is None:
            I.crash('empty unique_ptr dereferenced')
        return Ptr(I.chk(o.cell))
    if n == 'operator*':
        if o.cell is None:
            I.crash('empty unique_ptr dereferenced')
        return I.chk(o.cell)
    if n == 'operator bool':
        return o.cell is not None
    if n in ('operator=', 'reset'):
        v = I.val(args[0]) if args else None
        if v is None:
            new = None
        elif isinstance(v, Ptr):
            new = v.cell
            if new is not o.cell:
                I.adopt(new)
        elif isinstance(v, UPtr):
            new, v.cell = v.cell, None
        else:
            raise Undecided('unique_ptr assignment')
        old, o.cell = o.cell, new
        if old is not None and old is not new and I.o['free']:
            I.release(old)
        elif old is not None and old is new and n == 'reset':
            I.crash('unique_ptr reset to the pointer it owns')
        return this
    if n == 'release':
        c, o.cell = o.cell, None
        if c is not None:
            I.path.loose[id(c)] = (c, I.where())
        return Ptr(c) if c is not None else None
    if n == 'swap':
        p = I.val(args[0])
        o.cell, p.cell = p.cell, o.cell
        return None
    if n.startswith('~'):
        return None
    return NotImplemented


def iter_member(I, n, this, o, args):
    if n == 'operator*':
        c = iter_cell(I, o)
        I.note_current(c)
        return c
    if n == 'operator->':
        c = iter_cell(I, o)
        I.note_current(c)
        return Ptr(c)
    if n in ('operator++', 'operator--'):
        d = 1 if n == 'operator++' else -1
        new = iter_add(I, o, d)
        this.v = new
        return o if args else this
    if n in ('operator+=', 'operator-='):
        k = I.val(args[0])
        this.v = iter_add(I, o, k if n == 'operator+=' else -k)
        return this
    if n in ('operator+', 'operator-'):
        b = I.val(args[0])
        if isinstance(b, Iter):
            return iter_diff(I, o, b)
        return iter_add(I, o, b if n == 'operator+' else -b)
    if n == 'operator[]':
        return iter_cell(I, iter_add(I, o, I.val(args[0])))
    if n == 'operator=':
        v = I.val(args[0])
        this.v = Iter(v.c, v.i, v.step)
        return this
    if n in ('operator==', 'operator!=', 'operator<', 'operator<=', 'operator>', 'operator>='):
        return I.cmp(n[8:], o, I.val(args[0]))
    if n == 'base':
        if o.step < 0:
            return Iter(o.c, o.i + 1)
        return Iter(o.c, o.i)
    return NotImplemented


def stream_member(I, n, this, o, args, e):
    if n == 'operator<<':
        return shl(I, this, args[0], e)
    if n == 'str':
        if args:
            o.p = [I.val(args[0])]
            return None
        return mkstr(o.p)
    if n == 'rdbuf':
        x = Opaque('rdbuf')
        x.src = o
        return x
    if n == 'put':
        emit(I, o, char_piece(I.val(args[0])))
        return this
    if n == 'write':
        emit(I, o, to_string(I, I.val(args[0])))
        return this
    if n in ('precision', 'width', 'setf', 'unsetf', 'flags', 'fill', 'clear'):
        return 0
    if n in ('flush',):
        emit(I, o, '')
        return this
    if n in ('good', 'operator bool'):
        return True
    if n in ('fail', 'bad', 'eof'):
        return False
    return NotImplemented


NPOS = 2 ** 64 - 1


def string_search(I, n, s, args):
    """find and its relatives; the characters may be symbolic"""
    a = I.res(I.val(args[0]))
    pat = [a] if isinstance(a, int) or isinstance(a, Atom) and a in I.path.dom else None
    if pat is None:
        a = to_string(I, a)
        pat = chars(I, a)
        if len(args) > 2:
            pat = pat[:I.val(args[2])]
    cs = chars(I, s)
    p = I.res(I.val(args[1])) if len(args) > 1 else None
    if p is not None and not isinstance(p, int):
        raise Undecided('symbolic position %r' % (p,))

    def same(x, y):
        x, y = I.res(x), I.res(y)
        if isinstance(x, int) and isinstance(y, int):
            return (x & 255) == (y & 255)
        return I.truth(I.cmp('==', x, y))
    if n in ('find', 'rfind'):
        k = len(pat)
        hi = len(cs) - k
        rng = range(p or 0, hi + 1) if n == 'find' else range(min(hi, hi if p is None else p), -1, -1)
        for i in rng:
            if all(same(cs[i + j], pat[j]) for j in range(k)):
                return i
        return NPOS
    hi = len(cs) - 1
    rng = range(p or 0, len(cs)) if 'first' in n else range(min(hi, hi if p is None else p), -1, -1)
    for i in rng:
        if any(same(cs[i], x) for x in pat) != ('not' in n):
            return i
    return NPOS


def string_member(I, n, this, s, args, vcs, e):
    val = I.val
    if n in ('c_str', 'data'):
        return Iter(mkstr([s, '\0']), 0)
    r = container(I, n, this, s)
    if r is not NotImplemented:
        return r
    if n == 'operator=':
        v = val(args[0])
        v2 = to_string(I, v) if not isinstance(v, int) else chr(v)
        if isinstance(args[0], Cell) and vcs[0] != 'l' and args[0] is not this and isinstance(v, (str, SStr)):
            args[0].v = ''
        I.assign(this, v2)
        return this
    if n in ('operator+=', 'append', 'push_back'):
        v = I.res(val(args[0]))
        if n == 'append' and len(args) == 2:
            v = make_string(I, args, vcs)
        x = v if isinstance(v, (str, SStr)) else (to_string(I, v) if isinstance(v, (Iter, Seq)) else char_piece(v))
        I.assign(this, mkstr([s, x]))
        return this
    if n in ('operator[]', 'at', 'front', 'back'):
        cs = chars(I, s)
        i = I.res(val(args[0])) if args else (0 if n == 'front' else len(cs) - 1)
        if isinstance(i, int):
            if 0 <= i < len(cs):
                return Cell(I.res(cs[i]))
            if i == len(cs) and n == 'operator[]':
                return Cell(0)
            I.crash('string index %s outside %d characters' % (i, len(cs)))
        raise Undecided('symbolic string index')
    if n == 'substr':
        cs = chars(I, s)
        p = val(args[0]) if args else 0
        k = val(args[1]) if len(args) > 1 else len(cs)
        if p > len(cs):
            raise CppThrow(Obj('std::out_of_range'), 'std::out_of_range', ['std::out_of_range', 'std::logic_error', 'std::exception'], I.where())
        return mkstr([char_piece(x) for x in cs[p:p + k]])
    if n == 'clear':
        I.assign(this, '')
        return None
    if n == 'pop_back':
        cs = chars(I, s)
        if not cs:
            I.crash('pop_back on an empty string')
        I.assign(this, mkstr([char_piece(x) for x in cs[:-1]]))
        return None
    if n in ('find', 'find_first_of', 'find_first_not_of', 'rfind', 'find_last_of', 'find_last_not_of'):
        return string_search(I, n, s, args)
    if n == 'compare':
        a = to_string(I, val(args[0])) if len(args) == 1 else None
        if a is not None:
            if isinstance(a, str) and isinstance(s, str):
                return (s > a) - (s < a)
            if I.cmp('==', s, a):
                return 0
            raise Undecided('compare')
        p, k = I.res(val(args[0])), I.res(val(args[1]))
        b = to_string(I, val(args[2]))
        if isinstance(s, str) and isinstance(b, str) and isinstance(p, int) and isinstance(k, int):
            if p > len(s):
                raise CppThrow(Obj('std::out_of_range'), 'std::out_of_range', ['std::out_of_range', 'std::logic_error', 'std::exception'], I.where())
            a = s[p:p + k]
            if len(args) == 4:
                b = b[:val(args[3])]
            elif len(args) == 5:
                b = b[val(args[3]):val(args[3]) + val(args[4])]
            return (a > b) - (a < b)
        raise Undecided('compare')
    if n in ('starts_with', 'ends_with', 'contains') and isinstance(s, str):
        a = val(args[0])
        a = chr(a) if isinstance(a, int) else to_string(I, a)
        if isinstance(a, str):
            return {'starts_with': s.startswith, 'ends_with': s.endswith, 'contains': s.__contains__}[n](a)
    if n == 'replace' and isinstance(s, str) and len(args) == 3 and isinstance(val(args[0]), int):
        p, k = val(args[0]), val(args[1])
        I.assign(this, mkstr([s[:p], to_string(I, val(args[2])), s[p + k:]]))
        return this
    if n == 'resize' and isinstance(val(args[0]), int):
        cs, k = chars(I, s), val(args[0])
        pad = chr(val(args[1])) if len(args) > 1 else '\0'
        I.assign(this, mkstr([char_piece(x) for x in cs[:k]] + [pad] * (k - len(cs))))
        return None
    if n == 'assign':
        I.assign(this, make_string(I, args, vcs))
        return this
    if n in ('insert', 'erase', 'replace') and isinstance(s, str):
        if n == 'erase' and args and isinstance(val(args[0]), Iter):
            p = val(args[0]).i
            k = val(args[1]).i if len(args) > 1 else p + 1
            I.assign(this, s[:p] + s[k:])
            return Iter(this.v, p)
        if n == 'erase' and all(isinstance(val(a), int) for a in args):
            p = val(args[0]) if args else 0
            k = val(args[1]) if len(args) > 1 else len(s)
            I.assign(this, s[:p] + s[p + k:])
            return this
        if n == 'insert' and len(args) == 2 and isinstance(val(args[0]), int):
            a = to_string(I, val(args[1]))
            I.assign(this, mkstr([s[:val(args[0])], a, s[val(args[0]):]]))
            return this
    if n in ('reserve', 'shrink_to_fit'):
        return None
    if n == 'swap':
        this.v, args[0].v = args[0].v, this.v
        return None
    return NotImplemented


def map_member(I, n, this, m, args, vcs, e):
    val = I.val
    r = container(I, n, this, m)
    if r is not NotImplemented:
        return r
    if n == 'find':
        i = map_find(I, m, val(args[0]))
        return Iter(m, i if i >= 0 else len(m.items))
    if n in ('count', 'contains'):
        r = map_find(I, m, val(args[0])) >= 0
        return int(r) if n == 'count' else r
    if n in ('lower_bound', 'upper_bound', 'equal_range'):
        k = val(args[0])
        if isinstance(k, Iter):
            k = to_string(I, k)
        lo = 0
        while lo < len(m.items) and I.cmp('<', m.items[lo][0], k):
            lo += 1
        if n == 'lower_bound':
            return Iter(m, lo)
        hi = lo
        if hi < len(m.items) and not I.cmp('<', k, m.items[hi][0]):
            hi += 1
        if n == 'upper_bound':
            return Iter(m, hi)
        return Tup([Cell(Iter(m, lo)), Cell(Iter(m, hi))], True)
    if n == 'at':
        i = map_find(I, m, val(args[0]))
        if i < 0:
            raise CppThrow(Obj('std::out_of_range'), 'std::out_of_range', ['std::out_of_range', 'std::logic_error', 'std::exception'], I.where())
        return m.items[i][1]
    if n == 'operator[]':
        k = val(args[0])
        i = map_find(I, m, k)
        if i < 0:
            t = strip_cvref(I.ty(e['t']))
            i, _ = map_put(I, m, k, Cell(I.default_value(t)))
        return m.items[i][1]
    if n in ('insert', 'emplace', 'emplace_hint', 'try_emplace', 'insert_or_assign'):
        if n == 'emplace_hint' or (n == 'insert' and len(args) == 2 and isinstance(val(args[0]), Iter) and not isinstance(val(args[1]), Iter)):
            args, vcs = args[1:], vcs[1:]
        if n == 'insert' and len(args) == 2:
            for c in irange(I, args[0], args[1]):
                map_insert(I, m, I.copyval(c))
            return None
        if n == 'insert' and isinstance(val(args[0]), Seq):
            for c in val(args[0]).items:
                map_insert(I, m, I.copyval(c))
            return None
        if m.kind == 'set':
            k = take(I, args[0], vcs[0])
            if isinstance(k, (Iter,)):
                k = to_string(I, k)
            i, ins = map_put(I, m, k, None)
        elif len(args) == 1:
            t = val(args[0])
            k = t.cells[0].v
            i = map_find(I, m, k)
            ins = i < 0
            if ins:
                v = take(I, args[0], vcs[0])
                i, ins = map_put(I, m, k, Cell(v.cells[1].v))
        else:
            k = take(I, args[0], vcs[0])
            if isinstance(k, Iter):
                k = to_string(I, k)
            i = map_find(I, m, k)
            ins = i < 0
            if ins:
                i, ins = map_put(I, m, k, Cell(take(I, args[1], vcs[1])))
            elif n == 'insert_or_assign':
                I.assign(m.items[i][1], take(I, args[1], vcs[1]))
        return Tup([Cell(Iter(m, i)), Cell(ins)], True)
    if n == 'erase' and len(args) == 2:
        a, b = val(args[0]).i, val(args[1]).i
        dead = m.items[a:b]
        del m.items[a:b]
        for k, c in dead:
            if c is not None and I.o['free']:
                I.destroy(c)
        return Iter(m, a)
    if n == 'erase':
        a = val(args[0])
        i = a.i if isinstance(a, Iter) else map_find(I, m, a)
        if i >= 0:
            k, c = m.items.pop(i)
            if c is not None:
                I.destroy(c)
            return Iter(m, i) if isinstance(a, Iter) else 1
        return 0
    if n == 'clear':
        for k, c in m.items:
            if c is not None and I.o['free']:
                I.destroy(c)
        m.items = []
        return None
    if n == 'operator=':
        v = val(args[0])
        if v is m:
            return this
        if isinstance(v, Seq):
            v = make_map(I, 'set' if m.kind == 'set' else 'map', '', args, vcs)
        else:
            v = take(I, args[0], vcs[0])
        I.assign(this, v)
        return this
    if n == 'swap':
        p = val(args[0])
        m.items, p.items = p.items, m.items
        return None
    return NotImplemented


def seq_member(I, n, this, s, args, vcs, e, cls):
    val = I.val
    if n in ('top', 'front', 'back'):
        if not s.items:
            I.crash('%s() on an empty %s' % (n, s.kind))
        if s.kind in ('stack',) or n == 'back':
            c = s.items[-1]
        else:
            c = s.items[0]
        I.chk(c)
        I.note_current(c)
        return c
    if n in ('emplace', 'push', 'push_back', 'emplace_back', 'push_front', 'emplace_front') and (n != 'emplace' or s.kind in ('stack', 'queue')):
        if n.startswith('emplace'):
            v = I.construct(s.et, args, vcs)
            if isinstance(v, Cell):
                v = I.copyval(v)
        else:
            v = conv_to(I, take(I, args[0], vcs[0]), s.et)
        c = Cell(v, typ=s.et)
        c.seq = s
        if n.endswith('front'):
            s.items.insert(0, c)
        else:
            s.items.append(c)
        return c
    if n in ('pop', 'pop_front', 'pop_back'):
        if not s.items:
            I.crash('%s() on an empty %s' % (n, s.kind))
        back = (s.kind == 'stack' or n == 'pop_back')
        c = s.items.pop() if back else s.items.pop(0)
        if I.o['free']:
            I.destroy(c)
        c.freed = True
        return None
    if n in ('operator[]', 'at'):
        i = I.res(val(args[0]))
        if isinstance(i, Obj):
            cells = slice_cells(I, s, i)
            t = strip_cvref(I.ty(e['t']))
            if 'slice_array' in t:
                return SliceRef(cells)
            return Seq('valarray', [c.v for c in cells], s.et)
        if isinstance(i, Seq):
            if i.et == 'bool':
                cells = [c for c, b in zip(s.items, i.vals()) if b]
            else:
                cells = [s.items[k] for k in i.vals()]
            return SliceRef(cells)
        if n == 'at' and isinstance(i, int) and i >= len(s.items):
            raise CppThrow(Obj('std::out_of_range'), 'std::out_of_range', ['std::out_of_range', 'std::logic_error', 'std::exception'], I.where())
        return seq_at(I, s, i)
    if n == 'sum':
        if not s.items:
            I.crash('sum() of an empty valarray')
        acc = s.items[0].v
        for c in s.items[1:]:
            acc = T.add(acc, c.v)
        return acc
    if n in ('min', 'max'):
        if not s.items:
            I.crash('%s() of an empty valarray' % n)
        best = s.items[0].v
        for c in s.items[1:]:
            if (I.cmp('<', best, c.v) if n == 'max' else I.cmp('<', c.v, best)):
                best = c.v
        return best
    if n == 'apply':
        out = []
        for c in s.items:
            f = val(args[0])
            v = I.apply(f, [c])
            out.append(I.copyval(v) if isinstance(v, Cell) else v)
        return Seq('valarray', out, s.et)
    if n in ('shift', 'cshift'):
        k = val(args[0])
        vs = s.vals()
        m = len(vs)
        if n == 'cshift':
            return Seq('valarray', [vs[(i + k) % m] for i in range(m)], s.et)
        return Seq('valarray', [vs[i + k] if 0 <= i + k < m else 0 for i in range(m)], s.et)
    r = container(I, n, this, s)
    if r is not NotImplemented:
        return r
    if n == 'operator=':
        v = val(args[0])
        if v is s:
            return this
        if isinstance(v, SliceRef):
            new = Seq(s.kind, [c.v for c in v.cells], s.et)
        elif isinstance(v, Seq):
            if v.kind == 'il' or vcs[0] == 'l':
                new = Seq(s.kind, (), s.et)
                for c in v.items:
                    new.append(Cell(I.copyval(c)))
            else:
                new = Seq(s.kind, (), s.et)
                for c in v.items:
                    new.append(c)
                if isinstance(args[0], Cell):
                    v.items = []
        else:
            for c in s.items:
                I.assign(c, v)
            return this
        h = I.o.get('assign_hook')
        if h:
            h(I, this, new)
        old = s.items
        s.items = []
        for c in new.items:
            s.append(c)
        if I.o['free']:
            for c in old:
                I.destroy(c)
        return this
    m = re.match(r'operator([-+*/%&|])=$', n)
    if m:
        v = val(args[0])
        r = elementwise(I, m.group(1), s, v)
        for c, x in zip(s.items, r.vals()):
            I.assign(c, x)
        return this
    if n in ('operator-', 'operator+') and not args:
        return Seq('valarray', [T.neg(x) if n == 'operator-' else x for x in s.vals()], s.et)
    if n == 'resize':
        k = I.res(val(args[0]))
        if not isinstance(k, int):
            raise Undecided('symbolic resize')
        fill = val(args[1]) if len(args) > 1 else None
        if s.kind == 'valarray':
            old = s.items
            s.items = []
            if I.o['free']:
                for c in old:
                    I.destroy(c)
        while len(s.items) > k:
            c = s.items.pop()
            if I.o['free']:
                I.destroy(c)
        while len(s.items) < k:
            s.append(Cell(I.copyval(Cell(fill)) if fill is not None else I.default_value(s.et)))
        return None
    if n == 'clear':
        old = s.items
        s.items = []
        if I.o['free']:
            for c in old:
                I.destroy(c)
        return None
    if n in ('reserve', 'shrink_to_fit'):
        return None
    if n == 'capacity':
        return len(s.items)
    if n in ('insert', 'emplace', 'emplace_after', 'insert_after'):
        it = val(args[0])
        i = it.i + (1 if n.endswith('after') else 0)
        if n.startswith('emplace'):
            v = I.construct(s.et, args[1:], vcs[1:])
            cells = [Cell(v)]
        elif len(args) == 3 and isinstance(val(args[1]), (Iter, Ptr)):
            cells = [Cell(I.copyval(c)) for c in irange(I, args[1], args[2])]
        elif len(args) == 3:
            cells = [Cell(I.copyval(args[2]) if isinstance(args[2], Cell) else args[2]) for _ in range(val(args[1]))]
        elif isinstance(val(args[1]), Seq) and val(args[1]).kind == 'il':
            cells = [Cell(I.copyval(c)) for c in val(args[1]).items]
        else:
            cells = [Cell(conv_to(I, take(I, args[1], vcs[1]), s.et))]
        for c in reversed(cells):
            c.seq = s
            s.items.insert(i, c)
        return Iter(s, i)
    if n == 'erase':
        it = val(args[0])
        j = val(args[1]).i if len(args) > 1 else it.i + 1
        if not (0 <= it.i <= j <= len(s.items)):
            I.crash('erase outside the container')
        dead = s.items[it.i:j]
        del s.items[it.i:j]
        for c in dead:
            if I.o['free']:
                I.destroy(c)
            c.freed = True
        return Iter(s, it.i)
    if n == 'assign':
        new = make_seq(I, s.kind, 'std::%s<%s>' % (s.kind, s.et), args, vcs)
        s.items = []
        for c in new.items:
            s.append(c)
        return None
    if n == 'before_begin':
        return Iter(s, -1)
    if s.kind in ('list', 'forward_list') and n in ('remove', 'remove_if', 'unique', 'reverse', 'sort'):
        if n == 'reverse':
            s.items.reverse()
        elif n == 'sort':
            algorithm(I, 'sort', [Iter(s, 0), Iter(s, len(s.items))] + list(args), vcs, e, None)
        else:
            keep = []
            for c in s.items:
                if n == 'unique':
                    drop = bool(keep) and (I.truth(val(I.apply(args[0], [keep[-1], c]))) if args else eqv(I, keep[-1], c))
                else:
                    drop = eqv(I, c, args[0]) if n == 'remove' else I.truth(val(I.apply(args[0], [c])))
                if drop:
                    if I.o['free']:
                        I.destroy(c)
                    c.freed = True
                else:
                    keep.append(c)
            s.items = keep
        return None
    if n in ('splice', 'splice_after') and len(args) == 2:
        i = val(args[0]).i + (1 if n.endswith('after') else 0)
        p = val(args[1])
        cs, p.items = p.items, []
        for c in reversed(cs):
            c.seq = s
            s.items.insert(i, c)
        return None
    if n == 'swap':
        p = val(args[0])
        s.items, p.items = p.items, s.items
        for c in s.items:
            c.seq = s
        for c in p.items:
            c.seq = p
        return None
    if n == 'fill':
        for c in s.items:
            I.assign(c, I.copyval(Cell(val(args[0]))))
        return None
    if n in ('operator==', 'operator!='):
        r = eqv(I, s, val(args[0]))
        return r if n == 'operator==' else not r
    if n.startswith('~'):
        return None
    return NotImplemented


NUMRE = re.compile(r'[ \t\n\r\v\f]*([+-]?)(?:(0[xX](?:[0-9a-fA-F]+\.?[0-9a-fA-F]*|\.[0-9a-fA-F]+)(?:[pP][+-]?\d+)?)|([iI][nN][fF](?:[iI][nN][iI][tT][yY])?)'
                   r'|([nN][aA][nN](?:\([A-Za-z0-9_]*\))?)|((?:\d+\.?\d*|\.\d+)(?:[eE][+-]?\d+)?))')


def std_throw(I, cls, what=''):
    bases = {'std::length_error': ['std::length_error', 'std::logic_error', 'std::exception'],
             'std::invalid_argument': ['std::invalid_argument', 'std::logic_error', 'std::exception'],
             'std::out_of_range': ['std::out_of_range', 'std::logic_error', 'std::exception']}[cls]
    o = Obj(cls)
    o.f['__what'] = Cell(what)
    raise CppThrow(Cell(o), cls, bases, I.where())


def str_to_d(I, n, args):
    """value and length of the longest numeric prefix"""
    s = to_string(I, I.val(args[0]))
    h = I.o.get('stod_hook')
    r = h(I, s) if h else None
    if r is None:
        if isinstance(s, SStr):
            at = T.atom_num('stod', s.p)
            r = (at, None)
        else:
            m = NUMRE.match(s)
            if not m:
                r = ('invalid', 0)
            else:
                sign = -1.0 if m.group(1) == '-' else 1.0
                if m.group(2):
                    v = float.fromhex(m.group(2))
                elif m.group(3):
                    v = math.inf
                elif m.group(4):
                    v = math.nan
                else:
                    v = float(m.group(5))
                    if math.isinf(v) or (v != 0 and abs(v) < 2.2250738585072014e-308) or (v == 0 and re.search('[1-9]', m.group(5).lower().split('e')[0])):
                        r = ('range', 0)
                if r is None and n == 'stof' and v == v and not math.isinf(v) and (abs(v) > 3.4028235677973366e38 or 0 < abs(v) < 1.1754943508222875e-38):
                    r = ('range', 0)
                if r is None:
                    r = (T.unwrap(sign * v), m.end())
    v, end = r
    if n == 'stof' and not isinstance(v, str):
        v = T.single(v)
    if v == 'invalid':
        if n in ('stod', 'stof'):
            std_throw(I, 'std::invalid_argument', n)
        v, end = 0, 0
    if v == 'range':
        if n in ('stod', 'stof'):
            std_throw(I, 'std::out_of_range', n)
        v = math.inf
    if len(args) > 1:
        out = I.val(args[1])
        c = I.ptr_cell(out) if out is not None and not isinstance(out, int) else None
        if c is not None:
            if end is None:
                raise Undecided('length of an abstract number')
            c.v = end if n in ('stod', 'stof') else iter_add(I, as_iter(I, args[0]), end)
    return v
