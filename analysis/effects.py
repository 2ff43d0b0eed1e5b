"""Syntax-tree queries: walking, uses of lvalues that may modify, call graph."""
from loader import strip_cvref

ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>='}
LISTS = ('args', 'e', 'b', 'v', 'h', 'caps', 'specs', 'placement')


def children(n):
    """the child nodes of a statement or expression"""
    for k, x in n.items():
        if k in ('_tu', 'sig', 'callee'):
            continue
        if isinstance(x, dict):
            yield k, x
        elif isinstance(x, list):
            for y in x:
                if isinstance(y, dict):
                    yield k, y


def walk(n):
    """all nodes below n (n included)"""
    todo = [n]
    while todo:
        x = todo.pop()
        if not isinstance(x, dict):
            continue
        yield x
        todo += [c for _, c in children(x)]


def fn_nodes(f):
    """all nodes of a function: initialisers and body"""
    for i in f.get('inits') or []:
        yield from walk(i)
    if f.get('body') is not None:
        yield from walk(f['body'])


def nonconst_ref(t):
    t = t.strip()
    if not t.endswith('&') or t.endswith('&&'):
        return False
    return not (t.startswith('const ') or t[:-1].strip().endswith(' const'))


class Uses:
    """lvalue uses of a function that may modify what they denote: emits (kind, expression, detail)

    kinds: write (assignment), self (object of a non-const member function), pass (bound to a non-const reference parameter), alias (bound to a
    non-const reference variable), addr (address taken), return (returned as a non-const reference), move (bound to an rvalue reference)"""

    def __init__(self, f, emit):
        self.f, self.tu, self.emit = f, f['_tu'], emit
        for i in f.get('inits') or []:
            self.ex(i.get('e'), 'read')
        self.ret = self.tu.types[f['ret']] if isinstance(f.get('ret'), int) else ''
        self.st(f.get('body'))

    def st(self, s):
        if s is None:
            return
        k = s['k']
        if k == 'expr':
            self.ex(s['e'], 'read')
        elif k == 'decl':
            for v in s['v']:
                self.var(v)
        elif k == 'return':
            if s.get('e') is not None:
                self.ex(s['e'], 'return' if nonconst_ref(self.ret) else 'read')
        elif k == 'rfor':
            v = s['v']
            self.ex(s['r'], 'alias' if nonconst_ref(self.tu.types[v['t']]) else 'read', v)
            self.st(s['b'])
        else:
            if isinstance(s.get('cv'), dict):
                self.var(s['cv'])
            for key, c in children(s):
                if key == 'cv':
                    continue
                if key == 'h':
                    self.st(c.get('b'))
                elif is_stmt(c):
                    self.st(c)
                elif key in ('c', 'inc', 'v', 'e'):
                    self.ex(c, 'read')

    def var(self, v):
        if v.get('init') is not None:
            t = self.tu.types[v['t']]
            self.ex(v['init'], 'alias' if nonconst_ref(t) else 'move' if t.endswith('&&') else 'read', v)

    def ex(self, e, ctx, detail=None):
        if e is None or not isinstance(e, dict):
            return
        k = e['k']
        if e.get('rd') or e.get('cq'):
            ctx = 'read'
        if ctx != 'read':
            self.emit(ctx, e, detail)
        if k == 'bin':
            if e['op'] in ASSIGN:
                self.ex(e['a'], 'write', e)
            elif e['op'] == ',':
                self.ex(e['a'], 'read')
                self.ex(e['b'], ctx, detail)
                return
            else:
                self.ex(e['a'], 'read')
            self.ex(e['b'], 'read')
        elif k == 'un':
            op = e['op'].replace('post', '')
            self.ex(e['a'], 'write' if op in ('++', '--') else 'addr' if op == '&' else 'read', e)
        elif k == 'mem':
            self.ex(e['b'], 'read' if e.get('arrow') else ctx, detail)
        elif k == 'idx':
            self.ex(e['a'], ctx, detail)
            self.ex(e['b'], 'read')
        elif k == 'cond':
            self.ex(e['c'], 'read')
            self.ex(e['a'], ctx, detail)
            self.ex(e['b'], ctx, detail)
        elif k == 'cast':
            self.ex(e['e'], ctx if not is_value_cast(e) else 'read', detail)
        elif k == 'mcall':
            c = e.get('callee') or {}
            self.ex(e.get('obj'), 'read' if c.get('const') or e.get('arrow') else 'self', c)
            self.args(e, c, 0)
        elif k == 'opcall':
            c = e.get('callee') or {}
            if c.get('cls') and not c.get('static') and e['args']:
                self.ex(e['args'][0], 'read' if c.get('const') else 'self', c)
                self.args(e, c, 1)
            else:
                self.args(e, c, 0)
        elif k in ('call', 'ctor'):
            if e.get('fn') is not None:
                self.ex(e['fn'], 'read')
            self.args(e, e.get('callee') or {}, 0)
        elif k == 'lambda':
            for c in e.get('caps') or []:
                if c.get('init') is not None:
                    self.ex(c['init'], 'alias' if c.get('byref') else 'read', c)
            for op in ([e['op']] if e.get('op') else []) + (e.get('specs') or []):
                old = self.ret
                self.ret = self.tu.types[op['ret']]
                self.st(op.get('body'))
                self.ret = old
        else:
            for key, c in children(e):
                self.ex(c, 'read')

    def args(self, e, c, skip):
        pts = c.get('pt') or []
        for i, a in enumerate(e['args'][skip:]):
            t = self.tu.types[pts[i]] if i < len(pts) else ''
            self.ex(a, ('read' if stores_copy(c) else 'pass') if nonconst_ref(t) else 'move' if t.endswith('&&') else 'read', (c, i))


COPYING = {'emplace', 'emplace_back', 'emplace_front', 'emplace_hint', 'try_emplace', 'insert_or_assign', 'make_pair', 'make_tuple', 'make_unique', 'make_shared', 'max', 'min', 'accumulate',
           'inner_product', 'fill', 'fill_n', 'find', 'count', 'push', 'pair', 'tuple', 'function', 'assign', 'to_string', 'format', 'abs', 'isnan', 'isinf', 'isfinite'}


def stores_copy(c):
    """a standard function whose forwarding reference parameters are copied from: unless it makes references to them"""
    if not (c.get('q') or '').startswith('std::') or c.get('n') not in COPYING:
        return False
    text = (c.get('cls') or '') + (c.get('q') or '')
    return '&' not in text and 'reference_wrapper' not in text


STMTS = {'block', 'decl', 'if', 'while', 'do', 'for', 'rfor', 'switch', 'case', 'default', 'return', 'try', 'break', 'continue', 'nop', 'label', 'goto', 'expr', 'unkstmt'}


def is_stmt(n):
    return n.get('k') in STMTS


def is_value_cast(e):
    return e.get('ck') not in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BitCast', 'LValueBitCast', 'Dynamic')


def root(e):
    """(root expression, fields passed) of an lvalue expression that denotes a part of it by value"""
    path = []
    while True:
        k = e['k']
        if k == 'mem' and not e.get('arrow'):
            path.append((e.get('cls'), e['f']))
            e = e['b']
        elif k == 'cast' and not is_value_cast(e):
            e = e['e']
        elif k == 'idx':
            e = e['a']
        else:
            return e, path[::-1]


def decls_of(f):
    """declaration id -> (variable, type) of parameters and locals, lambdas included"""
    out = {}
    types = f['_tu'].types
    for p in f.get('params') or []:
        out[p['d']] = (p, types[p['t']])
    for n in fn_nodes(f):
        if n.get('k') == 'decl':
            for v in n['v']:
                out[v['d']] = (v, types[v['t']])
        elif n.get('k') == 'rfor' or isinstance(n.get('cv'), dict):
            v = n['cv'] if isinstance(n.get('cv'), dict) else n['v']
            out[v['d']] = (v, types[v['t']])
        elif 'params' in n and 'body' in n:
            for p in n['params']:
                out[p['d']] = (p, types[p['t']])
        elif n.get('all') is None and n.get('v') and isinstance(n['v'], dict) and 'd' in n['v']:
            out[n['v']['d']] = (n['v'], types[n['v']['t']])
    return out


def callees(f):
    """usr of every function referred to in f (called or named)"""
    out = []
    for n in fn_nodes(f):
        c = n.get('callee')
        if c and c.get('usr'):
            out.append((c, n))
    return out
