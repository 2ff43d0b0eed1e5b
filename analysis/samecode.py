"""Decides whether the two distributions denote the same program: the syntax trees of all functions, records, enumerations
and globals agree up to source positions and the numbering of declarations.  Then what is decided for one holds for the other."""
import json, re

POS = {'l', 'file', 'c', 'col', 'line', 'loc', 'el', 'end', '_tu', 'dl', 'inline', 'decls', 'fn_file'}
TYPE = {'t', 'ret', 'clst', 'rt', 'pt', 'at', 'tt', 'ct', 'base'}
FILE = re.compile(r'(c:|\$)[\w.]*@(?:\d+@)?(?=[A-Z])')
LAMBDA = re.compile(r'/[\w./+-]+:\d+:\d+')


def canon_one(tu, f):
    ids = {}
    lam = {}

    def txt(s):
        s = FILE.sub(r'\1@', s)
        return LAMBDA.sub(lambda m: '#%d' % lam.setdefault(m.group(0), len(lam)), s)

    def go(x, k=None):
        if isinstance(x, dict):
            return {a: go(x[a], a) for a in sorted(x) if a not in POS}
        if isinstance(x, list):
            return [go(y, k if k in TYPE else None) for y in x]
        if isinstance(x, bool):
            return x
        if isinstance(x, int):
            if k in TYPE:
                return txt(tu.types[x])
            if k in ('d', 'id'):
                return ids.setdefault(x, len(ids))
            return x
        if isinstance(x, str):
            return txt(x)
        return x
    return json.dumps(go(f), sort_keys=True)


def canon(P):
    out = {}
    for u, f in P.funcs.items():
        out['f ' + LAMBDA.sub('', FILE.sub(r'\1@', u))] = canon_one(f['_tu'], f)
    for q, r in P.records.items():
        if q.startswith('tomsolver'):
            out['r ' + LAMBDA.sub('', q)] = canon_one(r['_tu'], r)
    for q, e in P.enums.items():
        out['e ' + q] = canon_one(None, {k: v for k, v in e.items() if k != 'ut'}) if q.startswith('tomsolver') else ''
    for q, g in P.globals.items():
        if q.startswith('tomsolver'):
            out['g ' + LAMBDA.sub('', FILE.sub(r'\1@', q))] = canon_one(g['_tu'], g)
    return out


def differing(P, Q):
    A, B = canon(P), canon(Q)
    return [k for k in sorted(set(A) | set(B)) if A.get(k) != B.get(k)], len(A)
