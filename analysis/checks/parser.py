"""C08 precedence, C11 parsing errors (and the token queries used by C06)"""
from checks.common import *
import trees as TR

SV = 'tomsolver::internal::StringView'


def sview(I, text):
    """the parser's string view of a text (a constant or a sequence of characters)"""
    f = I.construct(SV, [Iter(text, 0), len_of(text)], ['x', 'x'])
    return f


def len_of(text):
    return len(text) if isinstance(text, str) else len(text.p) if not any(isinstance(x, str) for x in text.p) else sum(
        len(x) if isinstance(x, str) else 1 for x in text.p)


def parse(I, P, text):
    f = P.one('tomsolver::Parse')
    return I.call_fn(f, None, [Cell(sview(I, text))])


_cache = {}


def token_of(P, N, name, binary=False):
    """what the parser makes of a name: list of (kind, value, where)"""
    key = (P.view, name, binary)
    if key in _cache:
        return _cache[key]
    out = []
    isname = name[:1].isalpha() or name[:1] == '_'
    if isname:
        texts = [name + '(y)', name]
    elif binary:
        texts = ['y' + name + 'z']
    else:
        texts = [name + 'y']
    for t in texts[:]:
        I = Interp(P, opts=dict(fuel=400000))
        os_ = I.explore(lambda I: parse(I, P, t))
        o = os_[0]
        if len(os_) != 1 or o.kind == 'undecided':
            out.append(('undecided', o.exc or 'several traces', o.where))
            continue
        if o.kind == 'return':
            c = o.value.cell if isinstance(o.value, UPtr) else o.value
            c = c.cell if isinstance(c, UPtr) else c
            s = N.shape(I, c)
            if s[0] == 'op':
                args = ('op', s[1])
                want = (s[2] == ('var', 'y') and s[3] is None) or (binary and s[2] == ('var', 'y') and s[3] == ('var', 'z'))
                out.append(('tok', args if want else ('tree', N.text(s)), P.one('tomsolver::Parse')['q']))
            elif s[0] == 'var':
                out.append(('tok', ('var', s[1]), P.one('tomsolver::Parse')['q']))
            else:
                out.append(('tok', s, ''))
        else:
            out.append(('tok', (o.kind, o.value.cls if o.kind == 'throw' else o.value), o.where))
    if isname and len(out) == 2:
        # a function applied to y, or a plain variable
        if out[0][0] == 'tok' and out[0][1][0] == 'op':
            out = out[:1]
        else:
            out = out[1:]
    _cache[key] = out
    return out


# ---------------------------------------------------------------- C08
LEVEL = {'+': 1, '-': 1, '*': 2, '/': 2, '^': 3, '&': 4, '|': 4, '%': 5}
BIN = '+-*/^&|%'
OPOF = {'+': 'MATH_ADD', '-': 'MATH_SUB', '*': 'MATH_MULTIPLY', '/': 'MATH_DIVIDE', '^': 'MATH_POWER', '&': 'MATH_AND', '|': 'MATH_OR', '%': 'MATH_MOD'}
FUNCS = {'sin': 'MATH_SIN', 'cos': 'MATH_COS', 'tan': 'MATH_TAN', 'asin': 'MATH_ARCSIN', 'acos': 'MATH_ARCCOS', 'atan': 'MATH_ARCTAN',
         'sqrt': 'MATH_SQRT', 'log': 'MATH_LOG', 'log2': 'MATH_LOG2', 'log10': 'MATH_LOG10', 'exp': 'MATH_EXP'}


def reference(toks):
    """the grouping the stated precedence rules give; toks: names, functions, characters"""
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def primary():
        t = peek()
        pos[0] += 1
        if t == '(':
            r = expr(1)
            assert peek() == ')'
            pos[0] += 1
            return r
        if t in FUNCS:
            return ('op', FUNCS[t], primary(), None)
        if t in ('+', '-'):
            return ('op', 'MATH_POSITIVE' if t == '+' else 'MATH_NEGATIVE', primary(), None)
        return ('num', int(t)) if t.isdigit() else ('var', t)

    def expr(level):
        if level > 5:
            return primary()
        l = expr(level + 1)
        while peek() in LEVEL and LEVEL[peek()] == level:
            o = peek()
            pos[0] += 1
            if o == '^':
                r = expr(level)      # groups to the right
            else:
                r = expr(level + 1)
            l = ('op', OPOF[o], l, r)
        return l
    r = expr(1)
    assert pos[0] == len(toks), toks
    return r


def sym_text(I, toks, sep=''):
    """text with symbolic operator characters: '?' any binary operator, '~' a sign"""
    p, atoms = [], []
    for i, t in enumerate(toks):
        if i and sep:
            p.append(sep)
        if t in ('?', '~'):
            a = Atom('char', 'op%d' % i)
            I.path.dom[a] = frozenset(ord(c) for c in (BIN if t == '?' else '+-'))
            p.append(a)
            atoms.append((i, a))
        else:
            p.append(t)
    return mkstr(p), atoms


def patterns(deep):
    P = [['x', '?', 'y'], ['x', '?', 'y', '?', 'z'], ['x', '?', 'y', '?', 'z', '?', 'w'],
         ['~', 'x'], ['~', '~', 'x'], ['~', 'x', '?', 'y'], ['x', '?', '~', 'y'], ['~', 'x', '?', 'y', '?', 'z'], ['x', '?', '~', 'y', '?', 'z'],
         ['x', '?', 'y', '?', '~', 'z'], ['x', '?', '~', '~', 'y', '?', 'z'], ['~', 'x', '?', '~', 'y'],
         ['(', 'x', '?', 'y', ')', '?', 'z'], ['x', '?', '(', 'y', '?', 'z', ')'], ['x', '?', '(', 'y', '?', 'z', ')', '?', 'w'],
         ['~', '(', 'x', '?', 'y', ')', '?', 'z'], ['x', '?', '~', '(', 'y', '?', 'z', ')'], ['(', '~', 'x', ')', '?', 'y'],
         ['(', '(', 'x', '?', 'y', ')', ')', '?', 'z'], ['(', 'x', '?', 'y', ')', '?', '(', 'z', '?', 'w', ')'],
         ['2', '?', 'x', '?', '3'], ['~', '~', '(', 'x', '?', 'y', ')'], ['(', 'x', ')'], ['x', '?', '(', '~', 'y', '?', 'z', ')']]
    for f in FUNCS:
        P += [[f, '(', 'x', ')'], [f, '(', 'x', ')', '?', 'y'], ['x', '?', f, '(', 'y', ')'], ['~', f, '(', 'x', ')', '?', 'y'], [f, '(', '~', 'x', ')', '?', 'y'],
              [f, '(', 'x', '?', 'y', ')', '?', 'z'], ['x', '?', '~', f, '(', 'y', ')']]
    for f in ('sin', 'log'):
        P += [['x', '?', f, '(', 'y', ')', '?', 'z'], [f, '(', 'cos', '(', 'x', '?', 'y', ')', ')', '?', 'z'], ['x', '?', f, '(', '(', 'y', '?', 'z', ')', ')'],
              ['(', f, '(', 'x', ')', '?', 'y', ')', '?', 'z'], ['~', '~', f, '(', 'x', ')', '?', 'y']]
    if deep:
        P += [['x', '?', 'y', '?', 'z', '?', 'w', '?', 'v'], ['~', 'x', '?', '~', 'y', '?', '~', 'z'], ['x', '?', '(', 'y', '?', '(', 'z', '?', 'w', ')', ')'],
              ['(', 'x', '?', 'y', '?', 'z', ')', '?', 'w'], ['x', '?', '(', 'y', ')', '?', 'z', '?', 'w']]
    return P


def C08(R):
    import os
    R.rule('The parser is analysed on token patterns whose binary operators and signs are symbolic characters (every trace of the tokenizer, '
           'the precedence conversion and the tree builder is explored, splitting operator sets only where the code distinguishes them); on '
           'each trace the tree built must be the grouping the stated precedence and associativity rules give for every remaining choice.')
    R.assume('patterns have up to 3 binary operators (thorough: 4), which covers every pair of neighbouring operators on the stack')
    deep = bool(os.environ.get('VERIF_DEEP'))
    jobs = []
    for view, P, N in views():
        for toks in patterns(deep):
            for sep in ('', ' ') if len(toks) <= 5 else ('',):
                jobs.append(lambda S, a=(view, P, N, toks, sep): one_pattern(S, *a))
        long = long_texts(4 if deep else 1)
        for i in range(0, len(long), 20):
            jobs.append(lambda S, a=(view, P, N), ch=long[i:i + 20]: [one_pattern(S, *a, t, sep) for t, sep in ch])
    pmap(R, jobs)


def long_texts(k):
    """longer expressions: every pair and triple of pending operators in long chains, nesting, signs and function calls"""
    import itertools
    import random
    g = random.Random(11)
    out = []
    names = 'xyzwuv'

    def chain(ops):
        t = ['x']
        for i, o in enumerate(ops):
            t += [o, names[(i + 1) % 6]]
        return t
    # runs of one operator before and after a run of another one
    for a, b in itertools.product(BIN, repeat=2):
        for m, n in ((2, 2), (1, 3), (3, 1)):
            out.append(chain([a] * m + [b] * n + [a]))
    for _ in range(300 * k):
        out.append(chain([g.choice(BIN) for _ in range(g.randint(4, 12))]))

    def expr(d):
        t = []
        for i in range(g.randint(1, 4)):
            if i:
                t.append(g.choice(BIN))
            for _ in range(g.choice((0, 0, 0, 1, 1, 2))):
                t.append(g.choice('+-'))
            r = g.random()
            if d and r < .3:
                t += ['('] + expr(d - 1) + [')']
            elif d and r < .55:
                t += [g.choice(sorted(FUNCS)), '('] + expr(d - 1) + [')']
            else:
                t.append(g.choice(['x', 'y', 'z', '2', '3', '17']))
        return t
    for _ in range(400 * k):
        t = expr(3)
        if len(t) <= 60:
            out.append(t)
    # deep nesting and long chains
    for n in (20, 70):
        out += [['('] * n + ['x'] + [')'] * n, ['x'] + [y for i in range(n) for y in ('^', names[i % 6])], ['x'] + [y for i in range(n) for y in ('-', names[i % 6])],
                ['-'] * n + ['x'], [y for i in range(n) for y in ('sin', '(')] + ['x'] + [')'] * n, ['x'] + [y for i in range(n) for y in (BIN[i % 8], names[i % 6])],
                [y for i in range(n) for y in ('(', 'x', BIN[i % 8])] + ['y'] + [')'] * n]
    return [(t, ' ' if i % 3 == 0 else '') for i, t in enumerate(out)]


def one_pattern(R, view, P, N, toks, sep):
    import itertools
    holder = {}

    def body(I):
        t, atoms = sym_text(I, toks, sep)
        holder['a'] = atoms
        return parse(I, P, t)
    I = Interp(P, opts=dict(fuel=400000, max_paths=20000))
    out = I.explore(body)
    R.seen(I)
    text = sep.join(toks)
    for o in out:
        if o.kind == 'undecided':
            R.undecided('grouping', '%s "%s"' % (view, text), '%s (%s)' % (o.exc, o.where))
            continue
        choices = [[(i, chr(c)) for c in sorted(o.path.dom[a])] for i, a in holder['a']]
        n = 1
        for c in choices:
            n *= len(c)
        if n > 64:
            R.undecided('grouping', '%s "%s"' % (view, text), 'operators stay symbolic')
            continue
        for combo in itertools.product(*choices):
            tt = list(toks)
            for i, c in combo:
                tt[i] = c
            want = reference(tt)
            shown = sep.join(tt)
            if o.kind != 'return':
                R.bad('grouping', 'grouping:%s' % text, short(o.where), '"%s" is rejected: %s' % (shown, o.value.cls if o.kind == 'throw' else o.value))
                continue
            root = o.value.cell
            got = N.shape(I, root)
            if got == want:
                R.good('grouping', '"%s" is %s' % (shown, N.text(want)))
            else:
                R.bad('grouping', 'grouping:%s' % text, 'src/tomsolver/parse.cpp in tomsolver::Parse', '"%s" is read as %s instead of %s' % (shown, N.text(got), N.text(want)))


# ---------------------------------------------------------------- C11
PERR = ('tomsolver::SingleParseError', 'tomsolver::MultiParseError', 'tomsolver::ParseError')


def pieces(I, s):
    """flat list of characters / opaque pieces"""
    out = []
    for x in (s.p if isinstance(s, SStr) else (s,)):
        if isinstance(x, str):
            out += [ord(c) for c in x]
        else:
            r = I.res(x)
            out.append(ord(r) if isinstance(r, str) and len(r) == 1 else r)
    return [x & 255 if isinstance(x, int) else x for x in out]


def contains(big, small):
    n = len(small)
    return any(big[i:i + n] == small for i in range(len(big) - n + 1))


def examine_error(I, P, t, text, check_what=True):
    """(problem or None) of a raised error"""
    if t.cls not in PERR and 'tomsolver::ParseError' not in t.bases:
        return 'raises %s instead of a parse error' % t.cls
    cell = t.val if isinstance(t.val, Cell) else Cell(t.val)
    cls = t.cls
    n = len(pieces(I, text))
    singles = []
    if cls.endswith('SingleParseError'):
        singles = [cell]
    elif cls.endswith('MultiParseError'):
        for c in cell.v.f.values():
            if isinstance(c.v, Seq):
                singles = list(c.v.items)
        if not singles:
            return 'raises a MultiParseError without any error'
    for s in singles:
        pos = I.rv_(I.call_fn(P.one('tomsolver::SingleParseError::GetPos'), s, []))
        line = I.rv_(I.call_fn(P.one('tomsolver::SingleParseError::GetLine'), s, []))
        if not isinstance(pos, int) or not isinstance(line, int):
            raise Undecided('abstract position')
        if not (0 <= pos < n or (n == 0 and pos == 0)):
            return 'reports position %d in a text of %d characters' % (pos, n)
        if line < 0:
            return 'reports line %d' % line
        m = misplaced(I, P, s, pos, pieces(I, text))
        if m:
            return m
    for f in P.find('%s::what' % cls):
        if f.get('body') is None:
            continue
        w = I.call_fn(f, cell, [])
        w = I.std.to_string(I, I.val(w))
        if not contains(pieces(I, w), pieces(I, text)):
            return 'the message does not show the given text'
    return None


def misplaced(I, P, single, pos, text):
    """a message that quotes a token: the token stands at the reported position"""
    f = [f for f in P.find('tomsolver::SingleParseError::what') if f.get('body') is not None]
    if not f:
        return None
    w = pieces(I, I.std.to_string(I, I.val(I.call_fn(f[0], single, []))))
    mark = [ord(c) for c in '" at(']
    ends = [i for i in range(len(w)) if w[i:i + len(mark)] == mark]
    if not ends:
        return None
    for k in range(1, len(text) - pos + 1):
        q = [34] + text[pos:pos + k]
        if any(w[e - len(q):e] == q for e in ends):
            return None
    return 'reports position %d, where the quoted token does not stand' % pos


def parse_any(I, P, N, text):
    try:
        v = parse(I, P, text)
    except CppThrow as t:
        where = t.where
        m = examine_error(I, P, t, text)
        return ('throw', m, where)
    d = N.well_formed(I, v.cell)
    return ('return', '; '.join(d) if d else None, None)


def run_text(R, view, P, N, make, label, group, stod=None, limit=60000):
    hold = {}

    def body(I):
        hold['t'] = make(I)
        return parse_any(I, P, N, hold['t'])
    opts = dict(fuel=400000, max_paths=limit)
    if stod:
        opts['stod_hook'] = stod
    I = Interp(P, opts=opts)
    I.enum_names = {}
    out = I.explore(body)
    R.seen(I)
    for o in out:
        I.path = o.path
        t = hold['t']
        shown = ''.join(chr(c) if isinstance(c, int) and 31 < c < 127 else ('{%s}' % ','.join(chr(x) for x in sorted(o.path.dom.get(c, ())) if 31 < x < 127) if isinstance(c, Atom) else '\\x%02x' % c)
                        for c in pieces(I, t))
        if o.kind == 'undecided':
            R.undecided(group, '%s "%s"' % (view, shown), '%s (%s)' % (o.exc, o.where))
        elif o.kind == 'crash':
            R.bad(group, 'parse-ub:%s' % (o.where or '').split(' in ')[-1], short(o.where), 'parsing "%s": %s' % (shown, o.value))
        elif o.kind == 'throw':
            R.bad(group, 'parse-throw', short(o.where), 'parsing "%s" raises %s' % (shown, o.value.cls))
        else:
            kind, m, where = o.value
            if m:
                R.bad(group, 'parse-result:%s' % m.split(' ')[0], short(where or 'src/tomsolver/parse.cpp in tomsolver::Parse'), 'parsing "%s": %s' % (shown, m))
            else:
                R.good(group, '"%s": %s' % (shown, 'tree' if kind == 'return' else 'parse error'))


LEX = '1.ex_#+ 0\t'


def full_stod(I, s):
    """recognition of numbers needs the characters: split them completely"""
    if isinstance(s, SStr):
        for x in s.p:
            if isinstance(x, Atom):
                d = I.path.dom.get(x)
                if d is None:
                    raise Undecided('opaque text')
                I.split_dom(x, [frozenset([c]) for c in sorted(d)])
        cs = []
        for x in s.p:
            x = I.res(x)
            cs.append(x if isinstance(x, str) else chr(x & 255))
        m = I.std.NUMRE.match(''.join(cs))
        if not m:
            return ('invalid', 0)
        try:
            v = float(m.group(0)) if not m.group(2) else float.fromhex(m.group(0).strip())
        except ValueError:
            v = math.nan
        return (T.unwrap(v), m.end())
    return None


def C11(R):
    import itertools
    import os
    R.rule('Parse is analysed on abstract texts: every sequence of up to N items, an item being an operand, a function name or a symbolic '
           'operator/parenthesis character, and every text of up to M characters drawn from one representative per lexical class (digit, zero, '
           'dot, exponent letter, letter, underscore, illegal, non-ASCII, operator, blank, tab). Typestate rules on every trace: no access to an '
           'empty stack or missing node, no failed assertion; the outcome is a well-formed tree or an error derived from ParseError with its '
           'position inside the text and the text in its message.')
    deep = bool(os.environ.get('VERIF_DEEP'))
    R.assume('items: N = %d, characters: M = %d; conversion of numerals follows strtod' % (5 if deep else 4, 4 if deep else 3))
    OPS = frozenset(ord(c) for c in '+*^()%')
    jobs = []
    for view, P, N in views():
        for n in range(0, (6 if deep else 5)):
            for pat in itertools.product(('x', 'sin', '?'), repeat=n):
                def make(I, pat=pat):
                    p = []
                    for i, t in enumerate(pat):
                        if i:
                            p.append(' ')
                        if t == '?':
                            a = Atom('char', 'c%d' % i)
                            I.path.dom[a] = OPS
                            p.append(a)
                        else:
                            p.append(t)
                    return mkstr(p)
                jobs.append(lambda S, a=(view, P, N, make, ' '.join(pat), 'item sequences'): run_text(S, *a))
        chars = frozenset([ord(c) for c in LEX] + [-61])
        for n in range(1, (5 if deep else 4)):
            firsts = sorted(chars) if n > 1 else [None]
            for first in firsts:
                def make(I, n=n, first=first):
                    p = []
                    for i in range(n):
                        a = Atom('char', 'c%d' % i)
                        I.path.dom[a] = chars if i or first is None else frozenset([first])
                        p.append(a)
                    return SStr(p)
                jobs.append(lambda S, a=(view, P, N, make, 'chars', 'character sequences', full_stod): run_text(S, *a))
        for t in ('1e400', '1e-400', '-1e999*x', 'inf', 'nan', 'infinity+1', '0x1p3', '1e5e', '(((((x)))))', '((((x)', 'x)))', 'sin', 'sin()', 'sin sin x', '-', '- -', '+ +x', 'x y z', '1 2 +', 'x + * y',
                  '\n', ' x\n+\ty ', 'x(', 'x(y)', '(x)(y)', 'sin(x)(y)', '()x', 'x()', '()()', 'sin)x(', '3x', '_', '__a1', 'x.y', '1..2', '#', 'x\n#', 'a,b'):
            jobs.append(lambda S, a=(view, P, N, (lambda I, t=t: t), t, 'fixed forms'): run_text(S, *a))
        for ts in soups(3 if deep else 1):
            jobs.append(lambda S, a=(view, P, N), ts=ts: [run_text(S, *a, (lambda I, t=t: t), t, 'longer texts') for t in ts])
        jobs.append(lambda S, a=(view, P, N): null_view(S, *a))
    pmap(R, jobs)


def soups(k):
    """longer texts of arbitrary tokens; valid expressions with one token removed, added or replaced; unbalanced nesting"""
    import random
    g = random.Random(5)
    toks = ['x', 'y', '2', '1.5', 'sin', 'log', '(', ')', '(', ')', '+', '-', '*', '/', '^', '&', '|', '%', '#', '.', '\n', '1e', 'asin', '$', '=', ',', '\xc3\xa9']
    out = []
    for i in range(240 * k):
        out.append((' ' if i % 2 else '').join(g.choice(toks) for _ in range(g.randint(5, 14))))
    for t, sep in long_texts(1)[-330::2]:
        if len(t) > 60:
            continue
        t = list(t)
        i = g.randrange(len(t))
        how = g.randrange(3)
        t[i:i + (how != 1)] = [] if how == 0 else [g.choice(toks)]
        out.append(sep.join(t))
    for n in (30, 150):
        out += ['(' * n, ')' * n, '(' * n + 'x' + ')' * (n - 1), '(' * n + 'x' + ')' * (n + 1), 'sin(' * n, 'x' + '+' * n, '-' * n, 'x+' * n, 'x ' * n, '\n' * n + '#', 'x+\n' * n + '*', '1' * n + 'x',
                'x' * n + '(', '#' * n]
    return [out[i:i + 20] for i in range(0, len(out), 20)]


def null_view(R, view, P, N):
    """the empty text (also as a default string view)"""
    f = P.one('tomsolver::Parse')

    def body(I):
        try:
            v = I.call_fn(f, None, [Cell(I.construct(SV, [], []))])
        except CppThrow as t:
            return examine_error(I, P, t, '')
        return 'no error'
    for o in Interp(P).explore(body):
        if o.kind == 'return' and o.value is None:
            R.good('empty text', 'parse error')
        elif o.kind == 'undecided':
            R.undecided('empty text', view, o.exc)
        else:
            R.bad('empty text', 'parse-empty', short(o.where or f['q']), 'the empty text: %s' % (o.value if o.kind != 'throw' else o.value.cls))


# ---------------------------------------------------------------- C40
def word_lists():
    import string
    L = string.ascii_letters + '_'
    D = string.digits
    names = list(L) + [a + b for i, a in enumerate(L) for b in (L + D)[i % 7::7]]
    names += [('x%dq' % n + 'abcdefghij' * (n // 10 + 1))[:n] for n in list(range(3, 36)) + [40, 48, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300]]
    for f in sorted(FUNCS):
        names += [f[:-1], f[1:], f + '1', f + '_', '_' + f, f + 'x', f.upper(), f.capitalize(), f + f, f[::-1], f[:-1] + f[-1].upper()]
    names += ['e5', 'E10', 'x1e5', '_0x1', 'infx', 'nanx', 'x_', '__', '_1', 'x0', 'x00', 'pi', 'e', 'E', 'l', 'O0', 'I1', 'mod', 'and', 'or', 'pow', 'abs', 'ln', 'sinh', 'log22', 'log100', 'log1', 'arc', 'arcs', 'true', 'f']
    # names that end like a number, an exponent or a suffix
    names += ['x%d%s' % (i % 10, c) for i, c in enumerate(L)] + ['x%s%d' % (c, i % 10) for i, c in enumerate(L)] + ['a_%s' % c for c in L[::3]] + ['x1e2', 'x1E2e', 'y2ul', 'e1e1', 'E1e']
    names = [x for x in dict.fromkeys(names) if x and x not in FUNCS and not x[0].isdigit()]
    nums = ['%d' % i for i in range(0, 12)] + ['007', '00', '1.5', '.5', '5.', '0.1', '0.30', '1e5', '1E5', '1e05', '2.5e3', '.5e1', '5.e2', '1e22', '1e23', '3.14159265358979', '2.718281828459045', '0.1234567890123456789', '123456789', '1234567890',
                                            '2147483647', '2147483648', '4294967296', '9007199254740993', '12345678901234567890', '123456789012345678901234567890', '1e100', '1e300', '0.000001', '0' * 30 + '1', '1' + '0' * 40, '9' * 20 + '.' + '9' * 20,
                                            '100', '1000', '1.0', '1.10', '10.01', '0.5', '99999.99999']
    return names, nums


def leaf_of(w):
    if w[0].isdigit() or w[0] == '.':
        return ('num', T.unwrap(float(w)))
    return ('var', w)


def word_reference(toks):
    keep = []
    tt = []
    for t in toks:
        if t in FUNCS or t in OPOF or t in '()+-':
            tt.append(t)
        else:
            tt.append('w%d_' % len(keep))
            keep.append(t)

    def back(s):
        if s is None:
            return None
        if s[0] in ('var', 'num'):
            return leaf_of(keep[int(s[1][1:-1])])
        return ('op', s[1], back(s[2]), back(s[3]))
    return back(reference(tt))


BLANKS = ['', ' ', '\t', '\n', '\r', '\v', '\f', '  ', ' \t\n', '\r\n', ' ' * 30]


def C40(R):
    import os
    import random
    R.rule('The parser is interpreted on texts whose operands are words of every kind (every one-letter name, names of every length to 36 and up to 300 characters, names that extend, shorten or re-case a function name, '
           'literals in every notation), next to every operator, bracket, sign, function and kind of blank, at every place of short and long texts; each leaf of the tree must be the number or the variable the word '
           'spells, in the order written.')
    R.assume('words that the C library reads as a number without starting with a digit or point (inf, nan, hexadecimal) are left aside; the value of a literal is the one the C library gives')
    deep = bool(os.environ.get('VERIF_DEEP'))
    g = random.Random(5)
    names, nums = word_lists()
    words = names + nums
    texts = []
    for i, w in enumerate(words):
        b = BLANKS[i % len(BLANKS)]
        o = BIN[i % 8]
        texts += [([w], ''), ([w], b), ([w, o, 'y'], b), (['y', o, w], ''), (['(', w, ')'], b), (['-', w], '')]
        texts.append(([sorted(FUNCS)[i % len(FUNCS)], '(', w, ')'], b))
    special = names[:6] + names[-12:] + nums[::3]
    for w in special:
        for o in BIN:
            for b in BLANKS[::1 if deep else 3]:
                texts.append(([w, o, 'z9'], b))
                texts.append((['(', 'z9', ')', o, '(', w, ')'], b))
        for f in sorted(FUNCS):
            texts.append(([f, '(', w, ')', '+', w], ''))
    for _ in range(2000 if deep else 300):
        t = []
        for k in range(g.randint(2, 14)):
            if k:
                t.append(g.choice(BIN))
            if g.random() < .2:
                t += [g.choice(sorted(FUNCS)), '(', g.choice(words), ')']
            elif g.random() < .2:
                t += ['(', g.choice(words), g.choice(BIN), g.choice(words), ')']
            else:
                t.append(g.choice(words))
        texts.append((t, g.choice(BLANKS)))
    for n in (40, 130, 300):
        texts.append(([x for k in range(n) for x in (('+',) if k else ()) + (words[k * 7 % len(words)],)], ' '))
        texts.append(([x for k in range(n) for x in (('*',) if k else ()) + (names[k * 11 % len(names)],)], ''))
    jobs = []
    for view, P, N in views():
        for i in range(0, len(texts), 25):
            jobs.append(lambda S, a=(view, P, N), ch=texts[i:i + 25]: [one_word_text(S, *a, t, sep) for t, sep in ch])
        # longer than every number in the program
        z = TR.size_for(P, 2000, 70000)
        t, k, n = [], 0, 0
        while n <= z:
            t += (['+'] if k else []) + ['a%d' % k + 'x' * (k % 40)]
            n += len(t[-1]) + 3
            k += 1
        jobs.append(lambda S, a=(view, P, N), t=t: one_word_text(S, *a, t, ' '))
        jobs.append(lambda S, a=(view, P, N), z=TR.size_for(P, 300, 70000): one_word_text(S, *a, ['y', '*', 'x' * z, '+', '1'], ''))
    pmap(R, jobs)


def one_word_text(R, view, P, N, toks, sep):
    text = sep + sep.join(toks) + sep
    want = word_reference(toks)
    I = Interp(P, opts=dict(fuel=max(3000000, 800 * len(text)), max_paths=50))

    def body(I):
        return N.shape(I, parse(I, P, text).cell)
    shown = repr(text if len(text) < 120 else text[:120] + '...')
    for o in I.explore(body):
        if o.kind == 'undecided':
            R.undecided('words', '%s %s' % (view, shown), '%s (%s)' % (o.exc, o.where))
        elif o.kind != 'return':
            R.bad('words', 'word:%s' % ('number' if any(t[0] in '0123456789.' for t in toks) else 'name'), short(o.where or 'src/tomsolver/parse.cpp in tomsolver::Parse'), '%s is rejected: %s' % (shown, o.value.cls if o.kind == 'throw' else o.value))
        elif o.value == want:
            R.good('words', shown)
        else:
            R.bad('words', 'word:%s' % ('number' if any(t[0] in '0123456789.' for t in toks) else 'name'), 'src/tomsolver/parse.cpp in tomsolver::Parse', '%s is read as %s instead of %s' % (shown, N.text(o.value)[:200], N.text(want)[:200]))
    R.seen(I)
