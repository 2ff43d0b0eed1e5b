"""Which exceptions can leave a function (whole program, by call graph and handlers)."""
import effects as EF
from loader import strip_cvref

# library functions of C++ that raise exceptions other than for lack of memory, with what they raise
OOR, INV, LEN = ('std::out_of_range', 'std::logic_error', 'std::exception'), ('std::invalid_argument', 'std::logic_error', 'std::exception'), ('std::length_error', 'std::logic_error', 'std::exception')
REGEX = ('std::regex_error', 'std::runtime_error', 'std::exception')
CALLABLE = ('std::bad_function_call', 'std::exception')
CAST = ('std::bad_cast', 'std::exception')
NUMERIC = {'stod', 'stof', 'stold', 'stoi', 'stol', 'stoll', 'stoul', 'stoull'}
POSITIONAL = {'at', 'substr', 'insert', 'erase', 'replace', 'compare', 'copy', 'append', 'assign'}


def external(n, c, types):
    """exceptions of a call to a function outside the library"""
    q = c.get('q') or ''
    name = c.get('n') or ''
    cls = c.get('cls') or ''
    if c.get('noexcept'):
        return []
    if name in NUMERIC and not cls:
        return [INV, OOR]
    if name == 'at':
        return [OOR]
    if cls.startswith('std::basic_string') and name in POSITIONAL:
        pts = [types[i] if isinstance(i, int) else i for i in (c.get('pt') or [])]
        if name == 'at' or pts and 'iterator' not in str(pts[0]) and str(pts[0]) in ('unsigned long', 'size_type', 'unsigned long long') and name not in ('append', 'assign'):
            if name == 'insert' and len(n.get('args') or []) and const_zero(n['args'][0]) or name in ('substr', 'erase', 'compare', 'replace') and (not n.get('args') or const_zero(n['args'][0])):
                return []
            return [OOR]
        return []
    if c.get('ctor') and cls.startswith('std::basic_string') and len(c.get('pt') or []) >= 2 and 'basic_string' in str([types[i] if isinstance(i, int) else i for i in c['pt']][0]):
        return [OOR]
    if cls.startswith('std::basic_regex') and (c.get('ctor') or name == 'assign' or name == 'operator='):
        a = n.get('args') or []
        return [] if a and bare(a[0]).get('k') == 'str' or not a else [REGEX]
    if cls.startswith('std::function') and name == 'operator()':
        return [CALLABLE, ('*',)]
    if name in ('any_cast',):
        return [CAST]
    return []


def const_zero(e):
    while e.get('k') == 'cast':
        e = e['e']
    return e.get('k') in ('int', 'num', 'lit') and str(e.get('v')) in ('0', '0.0') or e.get('default')


class Escape:
    def __init__(self, P):
        self.P = P
        self.memo = {}
        self.stack = []
        self.changed = False
        self.lambdas = {}

    def of(self, f):
        """{bases tuple: chain} leaving the body of f, noexcept or not"""
        return self.memo.get(f['usr'], {})

    def solve(self):
        fs = [f for f in self.P.funcs.values() if f.get('body') is not None or f.get('inits')]
        for f in fs:
            self.memo[f['usr']] = {}
        for _ in range(60):
            self.changed = False
            for f in fs:
                r = self.body(f)
                old = self.memo[f['usr']]
                for k, v in r.items():
                    if k not in old:
                        old[k] = v
                        self.changed = True
            if not self.changed:
                return
        raise RuntimeError('no fixpoint')

    def body(self, f):
        self.f = f
        self.types = f['_tu'].types
        self.handler = []
        self.guards = []
        out = {}
        for i in f.get('inits') or []:
            self.ex(i.get('e'), out)
        if f.get('body') is not None:
            self.st(f['body'], out)
        return out

    def site(self, n):
        return '%s:%s in %s' % (self.f.get('file'), n.get('l'), self.f['q'])

    def add(self, out, bases, n, chain=(), origin=None, guard=None):
        """key: (types, the place that raises it); value: (call chain, conditions under which this function raises it itself)"""
        out.setdefault((tuple(bases), origin or self.site(n)), ((self.site(n),) + tuple(chain)[:8], guard))

    def st(self, s, out):
        if s is None:
            return
        k = s['k']
        if k == 'try':
            inner = {}
            self.st(s['b'], inner)
            rest = dict(inner)
            for h in s['h']:
                ht = strip_cvref(self.types[h['t']]).replace('*', '').strip() if not h.get('all') else None
                caught = {b: c for b, c in rest.items() if ht is None or ht in b[0]}
                for b in caught:
                    del rest[b]
                # a handler may also catch what is thrown as a base class of its own type: kept as escaping
                self.handler.append(caught)
                self.st(h.get('b'), out)
                self.handler.pop()
            for b, c in rest.items():
                out.setdefault(b, c)
            return
        if k == 'if':
            for x in ('init', 'cv', 'c'):
                self.any(s.get(x), out)
            for x, pos in (('a', True), ('b', False)):
                self.guards.append((s['c'], pos))
                self.any(s.get(x), out)
                self.guards.pop()
            return
        for key, c in EF.children(s):
            self.any(c, out)

    def any(self, c, out):
        if not isinstance(c, dict):
            return
        if EF.is_stmt(c):
            self.st(c, out)
        else:
            self.ex(c, out)

    def ex(self, e, out):
        if e is None or not isinstance(e, dict):
            return
        k = e.get('k')
        if k == 'throw':
            if e.get('e') is not None:
                self.ex(e['e'], out)
                bases = e.get('bases') or [strip_cvref(self.types[e['tt']])] if 'tt' in e else ['?']
                self.add(out, bases, e, guard=tuple(self.guards) or None)
            elif self.handler:
                for b, c in self.handler[-1].items():
                    out.setdefault(b, c)
            else:
                self.add(out, ('*',), e)
            return
        if k == 'lambda':
            for c in e.get('caps') or []:
                self.ex(c.get('init'), out)
            for op in ([e['op']] if e.get('op') else []) + (e.get('specs') or []):
                h = self.handler
                self.handler = []
                inner = {}
                self.st(op.get('body'), inner)
                self.handler = h
                if op.get('noexcept'):
                    if inner:
                        self.lambdas[(self.f['usr'], e.get('l'))] = (self.f, e, inner)
                    continue
                for b, c in inner.items():
                    out.setdefault(b, c)
            return
        c = e.get('callee')
        if c is not None:
            self.call(e, c, out)
        if k == 'ref' and e.get('dk') == 'func' and e.get('usr'):
            self.call(e, e, out)
        for key, x in EF.children(e):
            if EF.is_stmt(x):
                self.st(x, out)
            else:
                self.ex(x, out)

    def call(self, e, c, out):
        g = self.P.funcs.get(c.get('usr'))
        if g is not None and (g.get('body') is not None or g.get('inits')):
            if g.get('noexcept') or c.get('noexcept'):
                return
            for (b, o), (chain, guard) in self.memo.get(g['usr'], {}).items():
                if guard and self.excluded(g, guard, e):
                    continue
                self.add(out, b, e, chain, o)
            return
        if c.get('noexcept'):
            return
        if c.get('ext') or (c.get('q') or '').startswith('std::'):
            for b in external(e, c, self.types):
                self.add(out, b, e)

    def excluded(self, g, guard, e):
        """does a constant argument of the call contradict a condition under which g raises?"""
        args = e.get('args')
        ps = g.get('params') or []
        if args is None:
            return False
        if e.get('k') == 'opcall' and g.get('cls'):
            args = args[1:]
        for c, pos in guard:
            while c.get('k') == 'cast':
                c = c['e']
            if c.get('k') != 'bin' or c['op'] not in ('==', '!='):
                continue
            a, b = bare(c['a']), bare(c['b'])
            if constant(a) is not None:
                a, b = b, a
            k = constant(b)
            i = [i for i, p in enumerate(ps) if a.get('k') == 'ref' and a.get('d') == p['d']]
            if k is None or not i or i[0] >= len(args):
                continue
            v = constant(bare(args[i[0]]))
            if v is not None and (v == k) != ((c['op'] == '==') == pos):
                return True
        return False


def bare(e):
    while e.get('k') == 'cast' or e.get('k') == 'ctor' and len(e.get('args') or []) == 1:
        e = e['e'] if e['k'] == 'cast' else e['args'][0]
    return e


def constant(e):
    if e.get('k') == 'ref' and e.get('dk') == 'enum':
        return int(e['val'])
    if e.get('k') in ('int', 'bool', 'char'):
        return int(e['v'])
    return None


def shape_guard(guard):
    """do the conditions depend on the shape of matrices only?"""
    for c, _ in guard or ():
        for n in EF.walk(c):
            k = n.get('k')
            if k in ('bin', 'un', 'int', 'cast', 'this', 'paren'):
                continue
            if k == 'mem' and n.get('f') in ('rows', 'cols', 'data'):
                continue
            if k in ('mcall', 'call') and (n.get('callee') or {}).get('n') in ('Rows', 'Cols', 'size', 'operator->', 'operator*'):
                continue
            if k == 'opcall' and (n.get('callee') or {}).get('n') in ('operator->', 'operator*'):
                continue
            if k == 'ref' and n.get('dk') in ('param', 'var', 'func') and not n.get('rd'):
                continue
            if k is None:
                continue
            return False
    return bool(guard)
