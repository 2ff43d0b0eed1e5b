"""helpers shared by the checks"""
import math
import terms as T
from terms import Atom, Poly, is_const, sym
from loader import load, AnalysisBroken, strip_cvref
from interp import *
from nodes import *
from report import VIEWS, short, pmap
import identity
import report
import samecode

NT = 'tomsolver::ToString'
CONFIG = 'tomsolver::Config'


_SAME = []


def views(every=False):
    """the distributions to analyse; the second one only where it differs from the first (or when a check asks for both)"""
    Ps = [(v, load(v)) for v in VIEWS]
    if not _SAME:
        _SAME.append(samecode.differing(Ps[0][1], Ps[1][1]))
    diff, n = _SAME[0]
    report.NOTES['definitions compared between the two distributions'] = n
    report.NOTES['definitions that differ between the two distributions'] = len(diff)
    import trees
    for v, P in Ps:
        trees.resize(P)
    for v, P in Ps if every or diff else Ps[:1]:
        yield v, P, Nodes(P)


def stub_tostring(I, f, this, args):
    """the text of a number (its digits are not part of the analysis)"""
    if len(args) == 1 and this is None:
        return SStr([Atom('numtext', T.unwrap(I.rv_(args[0])))])
    return NotImplemented


def fatal(o):
    """undefined behaviour or failed assertion on a trace"""
    return o.kind == 'crash'


def sym_config(N_P, ranges=None, fixed=None):
    """static_hook: the configuration holds arbitrary values"""
    def hook(I, key, cell):
        v = cell.v
        if not (isinstance(v, Obj) and v.cls == CONFIG):
            return
        for n, c in v.f.items():
            if fixed and n in fixed:
                c.v = fixed[n]
            elif c.typ == 'bool':
                a = Atom('sym', 'config.' + n, 'bool')
                I.path.dom[a] = frozenset([0, 1])
                c.v = a
            elif c.typ in N_P.enums:
                a = Atom('sym', 'config.' + n, c.typ)
                I.path.dom[a] = frozenset(int(x['v']) for x in N_P.enums[c.typ]['e'])
                c.v = a
            elif c.typ in INTTYPES:
                c.v = T.sym('#config.' + n, True)
            else:
                c.v = T.sym('config.' + n)
    return hook


def config_obj(I):
    for k, c in I.path.statics.items():
        if isinstance(c.v, Obj) and c.v.cls == CONFIG:
            return c.v
    return None


def err_kind(P, o, I=None):
    """(class, ErrorType name) of a thrown exception"""
    t = o.value
    v = t.val.v if isinstance(t.val, Cell) else t.val
    kind = None
    if isinstance(v, Obj):
        for n, c in v.f.items():
            if c.typ == 'tomsolver::ErrorType' and isinstance(c.v, int):
                for x in P.enums['tomsolver::ErrorType']['e']:
                    if int(x['v']) == c.v:
                        kind = x['n']
    return t.cls.split('::')[-1], kind


def pick(P, q, sig=None, const=None):
    """definition of q with the given canonical parameter types (and constness of the member function)"""
    fs = [f for f in P.find(q) if (sig is None or [f['_tu'].types[s['t']] for s in f['sig']] == sig) and (const is None or bool(f.get('const')) == const)]
    if not fs:
        raise AnalysisBroken('anchor not found in view %s: %s %s' % (P.view, q, sig))
    return fs[0]
