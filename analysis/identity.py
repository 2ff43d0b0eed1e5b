"""Equality of terms: normal forms first, then randomised identity testing of the two terms."""
import math, random
from fractions import Fraction
import terms as T
from terms import Poly, Atom, is_const


class NoValue(Exception):
    pass


def numeval(x, env):
    """value of a term under an assignment of floats to its 'sym' atoms (nan when undefined)"""
    if is_const(x):
        return float(x)
    if isinstance(x, Poly):
        s = big = 0.0
        for m, c in x.d.items():
            v = float(c)
            for a, e in m:
                b = numeval(a, env)
                try:
                    v *= b ** e
                except (ZeroDivisionError, OverflowError):
                    return math.nan
                if isinstance(v, complex):
                    return math.nan
            s += v
            big = max(big, abs(v))
        return 0.0 if abs(s) < 1e-13 * big else s
    if isinstance(x, Atom):
        r = env.get(x)
        if r is not None:
            return r
        if x.op == 'nonfinite':
            return float(x.args[0])
        if x.op == 'sym':
            raise NoValue(x)
        vs = [numeval(a, env) for a in x.args]
        try:
            r = apply(x.op, vs)
        except (ValueError, ZeroDivisionError, OverflowError):
            return math.nan
        if isinstance(r, complex):
            return math.nan
        return float(r)
    raise NoValue(x)


def apply(op, vs):
    if op == 'inv':
        return 1.0 / vs[0]
    if op == 'abs':
        return abs(vs[0])
    if op == 'pow':
        return math.pow(vs[0], vs[1])
    if op == 'f32':
        return float(T.single(float(vs[0])))
    if op == 'trunc':
        return math.trunc(vs[0])
    if op == 'band':
        return int(vs[0]) & int(vs[1])
    if op == 'bor':
        return int(vs[0]) | int(vs[1])
    if op == 'bxor':
        return int(vs[0]) ^ int(vs[1])
    if op == 'imod':
        return math.fmod(int(vs[0]), int(vs[1]))
    if op == 'idiv':
        return math.trunc(vs[0] / vs[1])
    if op == 'fmod':
        return math.fmod(vs[0], vs[1])
    if op in ('max', 'min'):
        return max(vs) if op == 'max' else min(vs)
    if op in ('round', 'lround', 'llround'):
        return math.copysign(math.floor(abs(vs[0]) + 0.5), vs[0])
    if op in ('rint', 'nearbyint', 'lrint'):
        return float(round(vs[0]))
    f = getattr(math, op, None)
    if f is None:
        raise NoValue(op)
    return f(*vs)


def syms_of(*ts):
    s = set()
    for t in ts:
        T.atoms(t, s)
    return sorted([a for a in s if a.op == 'sym'], key=lambda a: a.id)


def sat(facts, env):
    """whether an assignment satisfies the facts of a trace"""
    for q, (lo, lo_o, hi, hi_o, ex, integral) in facts.iv.items():
        try:
            v = numeval(q, env)
        except NoValue:
            continue
        if v != v:
            return False
        if lo is not None and (v < float(lo) or (lo_o and v <= float(lo))) and not (lo == hi and abs(v - float(lo)) < 1e-12 * abs(float(lo))):
            return False
        if hi is not None and (v > float(hi) or (hi_o and v >= float(hi))) and not (lo == hi and abs(v - float(hi)) < 1e-12 * abs(float(hi))):
            return False
        if any(v == float(x) for x in ex):
            return False
    return True


POOL = [0.0, 1.0, -1.0, 2.0, -2.0, 0.5, 3.0, 0.25, 1.5, -0.75, 5.0, 7.0, -3.0, 10.0]


def solve_for(q, val, env, done):
    """sets one symbol that q is linear in so that q == val"""
    for m, c in q.d.items():
        for a, e in m:
            if a.op != 'sym' or e != 1 or a in done or a not in env:
                continue
            if any(a in T.atoms(x) for n, _ in q.d.items() for x, k in n if x is not a) or any(x is a and k != 1 for n in q.d for x, k in n):
                continue
            env[a] = 0.0
            r0 = numeval(q, env)
            env[a] = 1.0
            r1 = numeval(q, env)
            if r0 != r0 or r1 != r1 or r1 == r0:
                continue
            env[a] = (val - r0) / (r1 - r0)
            if abs(env[a] - round(env[a])) < 1e-12:
                env[a] = float(round(env[a]))
            done.add(a)
            return


def assignments(facts, syms, n, seed=1, lo=-3.0, hi=3.0, special=True):
    """assignments that satisfy the facts"""
    rnd = random.Random(seed)
    fixed = {}
    bounds = {}
    linear = []
    if facts is not None:
        for q, (l, lo_o, h, hi_o, ex, integral) in facts.iv.items():
            if len(q.d) == 1:
                (m, c), = q.d.items()
                if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sym' and c == 1:
                    a = m[0][0]
                    if l is not None and l == h:
                        fixed[a] = float(l)
                    bounds[a] = (l, h)
                    continue
            if l is not None or h is not None:
                linear.append((q, l, h))
    out = []
    tries = 0
    while len(out) < n and tries < n * 60:
        tries += 1
        wide = tries > n * 20 and not out
        env = {}
        for a in syms:
            if a in fixed:
                env[a] = fixed[a]
                continue
            l, h = bounds.get(a, (None, None))
            L = float(l) if l is not None else min(lo, (float(h) - 3.0) if h is not None else lo)
            H = float(h) if h is not None else max(hi, (float(l) + 3.0) if l is not None else hi)
            if special and rnd.random() < 0.35:
                env[a] = rnd.choice(POOL)
            elif wide and rnd.random() < 0.5:
                env[a] = max(L, min(H, rnd.choice((1, -1)) * 10 ** rnd.uniform(0, 22))) if a in bounds else rnd.choice((1, -1)) * 10 ** rnd.uniform(0, 22)
            elif H - L > 1e6 and rnd.random() < 0.7:
                env[a] = max(L, min(H, rnd.uniform(-20, 20)))
            else:
                env[a] = rnd.uniform(L, H)
        done = set(fixed)
        for q, l, h in linear:
            if l != h:
                try:
                    x = numeval(q, env)
                except NoValue:
                    continue
                if (l is None or x > l) and (h is None or x < h):
                    continue
            L = float(l) if l is not None else float(h) - 3.0
            H = float(h) if h is not None else float(l) + max(3.0, abs(float(l)))
            solve_for(q, L if l == h else rnd.uniform(L, H), env, done)
        if facts is None or sat(facts, env):
            out.append(env)
    return out


def close(a, b, tol=1e-7):
    if a == b:
        return True
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def compare(a, b, facts=None, n=40, seed=1, extra=None, both_defined=True, lo=-3.0, hi=3.0):
    """'equal' | ('differ', env, va, vb) | 'unknown'"""
    try:
        if a == b:
            return 'equal'
    except TypeError:
        pass
    syms = syms_of(a, b)
    envs = assignments(facts, syms, n, seed, lo, hi)
    good = 0
    for env in envs:
        e = dict(env)
        if extra:
            e.update(extra(env) or {})
        try:
            va, vb = numeval(a, e), numeval(b, e)
        except NoValue:
            return 'unknown'
        if va != va or vb != vb or math.isinf(va) or math.isinf(vb):
            if both_defined:
                continue
            if (va != va) != (vb != vb):
                return ('differ', env, va, vb)
            continue
        good += 1
        if not close(va, vb):
            return ('differ', env, va, vb)
    return 'equal' if good >= 3 or (not syms and good) else 'unknown'


def compiled(facts, outs=()):
    """(symbols, f): f(values) gives None when the facts do not hold at a point, else the values of the terms (shared subterms once)"""
    syms = sorted(set(syms_of(*outs)) | (set(syms_of(*facts.iv)) if facts is not None else set()), key=lambda a: a.id)
    idx = {a: 's[%d]' % i for i, a in enumerate(syms)}
    code = []
    names = {}
    OPS = {'inv': '(1.0/%s)', 'abs': 'abs(%s)'}

    def num(c):
        return repr(float(c))

    def atom(a):
        if a in idx:
            return idx[a]
        r = names.get(a)
        if r is None:
            if a.op == 'nonfinite':
                return 'float("%s")' % a.args[0]
            vs = [term(x) for x in a.args]
            if a.op in OPS:
                ex = OPS[a.op] % vs[0]
            else:
                ex = 'ap(%r,[%s])' % (a.op, ','.join(vs))
            r = names[a] = 't%d' % len(names)
            code.append('%s=%s' % (r, ex))
        return r

    def term(x):
        if is_const(x):
            return num(x) if T.finite(x) else 'float("%s")' % x
        if isinstance(x, Atom):
            return atom(x)
        if not isinstance(x, Poly):
            raise NoValue(x)
        r = names.get(x)
        if r is None:
            parts = []
            for m, c in x.d.items():
                fs = [num(c)] if c != 1 or not m else []
                for a, e in m:
                    t = atom(a)
                    if 0 < e <= 3:
                        fs += [t] * e
                    else:
                        fs.append('%s**%d' % (t, e))
                parts.append('*'.join(fs))
            r = names[x] = 't%d' % len(names)
            code.append('%s=%s' % (r, '+'.join(parts) if len(parts) < 200 else 'sum([%s])' % ','.join(parts)))
        return r
    if facts is not None:
        for q, (lo, lo_o, hi, hi_o, ex, integral) in sorted(facts.iv.items(), key=lambda kv: len(kv[0].d)):
            if lo is None and hi is None and not ex:
                continue
            t = term(q)
            c = ['%s==%s' % (t, t)]
            if lo is not None and lo == hi:
                c.append('abs(%s-%s)<=1e-12*abs(%s)' % (t, num(lo), num(lo)))
            else:
                if lo is not None:
                    c.append('%s%s%s' % (t, '>' if lo_o else '>=', num(lo)))
                if hi is not None:
                    c.append('%s%s%s' % (t, '<' if hi_o else '<=', num(hi)))
            for v in ex:
                c.append('%s!=%s' % (t, num(v)))
            code.append('if not(%s): return None' % ' and '.join(c))
    res = [term(t) for t in outs]
    src = 'def f(s):\n try:\n  ' + '\n  '.join(code + ['return (%s)' % ''.join(r + ',' for r in res)]) + '\n except (ZeroDivisionError, OverflowError, ValueError): return None\n'

    def ap(op, vs):
        return float(apply(op, vs))
    env = {'ap': ap}
    exec(src, env)
    return syms, env['f']
