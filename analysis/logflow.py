"""Which output sites can be reached under a given log level: evaluation of the conditions that depend on the level only, over all call paths."""
import effects as E

STREAMS = {'std::cout', 'std::cerr', 'std::clog', 'std::wcout', 'std::wcerr', 'std::wclog', 'stdout', 'stderr'}
PRINTERS = {'printf', 'puts', 'putchar', 'vprintf', 'perror', 'wprintf', 'putwchar', 'std::printf', 'std::puts', 'std::putchar', 'std::vprintf', 'std::perror', 'std::print', 'std::println',
            'fprintf', 'fputs', 'fputc', 'fwrite', 'putc', 'vfprintf', 'std::fprintf', 'std::fputs', 'std::fputc', 'std::fwrite', 'std::putc', 'std::vfprintf', 'write', 'dprintf', 'syslog',
            'psignal', 'system', 'std::system'}
CFG, FIELD = 'tomsolver::Config', 'logLevel'
STREAM = ('stream',)


class Flow:
    def __init__(self, P, level):
        self.P, self.L = P, level
        self.sites = {}
        self.memo = {}
        self.stack = []
        self.calls = 0
        self.assigned = {}
        self.dtors = {}
        self.jumps = {}        # function -> {(loop, kind of jump): lines}
        for f in P.funcs.values():
            if f.get('dtor') and f.get('body') is not None:
                self.dtors[f['cls']] = f

    def visit(self, f, vals=(), this_env=None):
        """analyses f with the known argument values; returns the returned value if it is known"""
        key = (f['usr'], tuple(vals))
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None
        if len(self.stack) > 60:
            return None
        self.calls += 1
        fr = Frame(f, self)
        for p, v in zip(f['params'], vals):
            if v is not None and p['d'] not in fr.changed:
                fr.env[p['d']] = v
        self.stack.append(f)
        for i in f.get('inits') or []:
            fr.ev(i.get('e'))
        fr.st(f.get('body'))
        self.stack.pop()
        r = fr.result()
        self.memo[key] = r
        return r

    def site(self, f, n, what):
        k = (f.get('file'), n.get('l'), f['q'], what)
        if k not in self.sites:
            self.sites[k] = [g['q'].split('::')[-1] for g in self.stack]


def changed_vars(f):
    out = set()

    def emit(kind, e, d):
        r, _ = E.root(e)
        if r.get('k') == 'ref' and 'd' in r and kind in ('write', 'addr', 'self', 'pass', 'alias', 'move'):
            out.add(r['d'])
    E.Uses(f, emit)
    return out


class Frame:
    def __init__(self, f, flow):
        self.f, self.w = f, flow
        self.env = {}
        self.rets = []
        self.loops = []
        ch = flow.assigned.get(f['usr'])
        if ch is None:
            ch = flow.assigned[f['usr']] = changed_vars(f)
        self.changed = ch

    def result(self):
        if self.rets and all(r is not None and r == self.rets[0] for r in self.rets):
            return self.rets[0]
        return None

    def jump(self, kind, s):
        if self.loops:
            self.w.jumps.setdefault(self.f['usr'], {}).setdefault((self.loops[-1], kind), set()).add(s.get('l'))

    # ---- statements: True when control certainly does not continue after the statement
    def st(self, s):
        if s is None:
            return False
        k = s['k']
        if k == 'block':
            for c in s['b']:
                if self.st(c):
                    return True
            return False
        if k == 'expr':
            v = self.ev(s['e'])
            e = s['e']
            if e.get('k') == 'throw':
                self.jump('throw', e)
            return e.get('k') == 'throw' or bool(e.get('noreturn'))
        if k == 'decl':
            for v in s['v']:
                x = self.ev(v.get('init'))
                if x is not None and (x == STREAM or v['d'] not in self.changed):
                    self.env[v['d']] = x
            return False
        if k == 'if':
            if s.get('init') is not None:
                self.st(s['init'])
            if isinstance(s.get('cv'), dict):
                self.ev(s['cv'].get('init'))
            c = self.truth(self.ev(s['c']))
            if c is True:
                return self.st(s['a'])
            if c is False:
                return self.st(s.get('b'))
            a, b = self.st(s['a']), self.st(s.get('b'))
            return a and b and s.get('b') is not None
        if k in ('while', 'for', 'do'):
            if s.get('init') is not None:
                self.st(s['init'])
            if isinstance(s.get('cv'), dict):
                self.ev(s['cv'].get('init'))
            c = self.truth(self.ev(s.get('c'))) if s.get('c') is not None else True
            if k != 'do' and c is False:
                return False
            self.loops.append(s.get('l'))
            self.st(s['b'])
            self.loops.pop()
            self.ev(s.get('inc'))
            return False
        if k == 'rfor':
            self.ev(s['r'])
            self.loops.append(s.get('l'))
            self.st(s['b'])
            self.loops.pop()
            return False
        if k == 'switch':
            return self.switch(s)
        if k == 'return':
            self.rets.append(self.ev(s['e']) if s.get('e') is not None else None)
            self.jump('return', s)
            return True
        if k == 'try':
            r = self.st(s['b'])
            for h in s['h']:
                r = self.st(h['b']) and r
            return r
        if k in ('case', 'default', 'label'):
            return self.st(s.get('s'))
        if k in ('break', 'continue', 'goto'):
            self.jump(k, s)
            return True
        for key, c in E.children(s):
            if E.is_stmt(c):
                self.st(c)
        return False

    def switch(self, s):
        c = self.ev(s['c'])
        body = s['b']['b'] if s['b'] and s['b']['k'] == 'block' else [s['b']]
        start = None
        if isinstance(c, int):
            default = None
            for i, x in enumerate(body):
                y = x
                while y and y['k'] in ('case', 'default'):
                    if y['k'] == 'case' and y.get('cv') == c:
                        start = i if start is None else start
                    if y['k'] == 'default':
                        default = i
                    y = y.get('s')
            if start is None:
                start = default
            if start is None:
                return False
            for x in body[start:]:
                if self.st(x):
                    break
            return False
        for x in body:
            self.st(x)
        return False

    def truth(self, v):
        return None if v is None or v == STREAM else bool(v)

    # ---- expressions
    def ev(self, e):
        if e is None or not isinstance(e, dict):
            return None
        k = e['k']
        m = getattr(self, 'e_' + k, None)
        if m:
            return m(e)
        for key, c in E.children(e):
            if E.is_stmt(c):
                self.st(c)
            else:
                self.ev(c)
        return None

    def e_int(self, e):
        return e['v'] if isinstance(e['v'], int) else None

    e_bool = e_char = e_int

    def e_ref(self, e):
        if e.get('dk') == 'enum':
            return e['val']
        if e.get('dk') == 'global' and e.get('q') in STREAMS:
            return STREAM
        if e.get('dk') == 'func':
            c = self.w.P.funcs.get(e['callee'].get('usr'))
            if c is not None and c.get('body') is not None and not e.get('called'):
                self.w.visit(c, ())
            return None
        if 'd' in e and e['d'] in self.env:
            return self.env[e['d']]
        if isinstance(e.get('cv'), int):
            return e['cv']
        return None

    def e_mem(self, e):
        self.ev(e['b'])
        if e.get('cls') == CFG and e['f'] == FIELD:
            return self.w.L
        return None

    def e_cast(self, e):
        v = self.ev(e['e'])
        if v is STREAM or not isinstance(v, (int, bool)):
            return v
        return bool(v) if e.get('ck', '').endswith('ToBoolean') else v

    def e_un(self, e):
        v = self.ev(e['a'])
        if v == STREAM:
            return STREAM if e['op'] in ('*', '&') else None
        if v is None:
            return None
        return {'!': lambda: not v, '-': lambda: -v, '+': lambda: v, '~': lambda: ~v}.get(e['op'], lambda: None)()

    def e_bin(self, e):
        op = e['op']
        if op in ('&&', '||'):
            a = self.truth(self.ev(e['a']))
            if a is (op == '||'):
                return a
            b = self.truth(self.ev(e['b']))
            if a is None:
                return b if b is (op == '||') else None
            return b
        a, b = self.ev(e['a']), self.ev(e['b'])
        if op == ',':
            return b
        if not isinstance(a, (int, bool)) or not isinstance(b, (int, bool)):
            return None
        try:
            return {'<': lambda: a < b, '<=': lambda: a <= b, '>': lambda: a > b, '>=': lambda: a >= b, '==': lambda: a == b, '!=': lambda: a != b, '+': lambda: a + b, '-': lambda: a - b,
                    '*': lambda: a * b, '&': lambda: a & b, '|': lambda: a | b, '<<': lambda: a << b, '>>': lambda: a >> b}[op]()
        except (KeyError, ValueError):
            return None

    def e_cond(self, e):
        c = self.truth(self.ev(e['c']))
        if c is not None:
            return self.ev(e['a'] if c else e['b'])
        a, b = self.ev(e['a']), self.ev(e['b'])
        return a if a == b else STREAM if STREAM in (a, b) else None

    def e_lambda(self, e):
        for c in e.get('caps') or []:
            if c.get('init') is not None:
                v = self.ev(c['init'])
                if v is not None:
                    self.env[c['d']] = v
        for op in ([e['op']] if e.get('op') else []) + (e.get('specs') or []):
            old = self.rets
            self.rets = []
            self.st(op.get('body'))
            r = self.result()
            self.rets = old
            if e.get('op') and not op['params']:
                return ('lambda', r)
        return None

    def emit(self, e, what):
        self.w.site(self.f, e, what)

    def call(self, e, args, this=None):
        c = e.get('callee') or {}
        vals = [self.ev(a) for a in args]
        q = c.get('q') or ''
        f = self.w.P.funcs.get(c.get('usr')) if c else None
        if f is not None and f.get('body') is not None:
            return self.w.visit(f, tuple(v if isinstance(v, (int, bool)) or v == STREAM else None for v in vals))
        if q in PRINTERS or q.split('::')[-1] in PRINTERS and not c.get('cls') and c.get('ext'):
            if 'snprintf' not in q and 'sprintf' not in q:
                self.emit(e, q)
            return None
        if STREAM in vals or this == STREAM:
            self.emit(e, q.split('::')[-1])
            return STREAM if c.get('n', '').startswith('operator') or True else None
        return None

    def e_call(self, e):
        if e.get('fn') is not None:
            v = self.ev(e['fn'])
            for a in e['args']:
                self.ev(a)
            return v[1] if isinstance(v, tuple) and len(v) == 2 else None
        return self.call(e, e['args'])

    def e_mcall(self, e):
        t = self.ev(e.get('obj'))
        return self.call(e, e['args'], t)

    def e_opcall(self, e):
        c = e.get('callee') or {}
        if c.get('cls') and e['args']:
            t = self.ev(e['args'][0])
            if isinstance(t, tuple) and len(t) == 2:
                for a in e['args'][1:]:
                    self.ev(a)
                return t[1]
            return self.call(e, e['args'][1:], t)
        return self.call(e, e['args'])

    def e_ctor(self, e):
        d = self.w.dtors.get(e.get('cls'))
        if d is not None:
            self.w.visit(d, ())
        vals = e['args']
        r = self.call(e, vals)
        if len(vals) == 1 and (e.get('copy') or e.get('move')):
            return self.ev(vals[0])
        return None


def roots(P, L):
    """public entry points: L is the library view (its headers say what is public)"""
    pub = set()
    for f in list(L.funcs.values()) + L.decls:
        if is_public(f) and (f.get('file') or '').endswith('.h'):
            pub.add(f['q'])
    return [f for f in P.funcs.values() if f.get('body') is not None and f['q'] in pub]


def is_public(f):
    if f.get('access') in ('private', 'protected') or f.get('anon'):
        return False
    if f.get('cls'):
        return True
    return '::internal::' not in f['q'] and f['q'].startswith('tomsolver::')
