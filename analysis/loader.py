"""Exports the current /repo sources with the clang front end and links the translation units of each view.

Views:  'lib'    all src/tomsolver/*.cpp translation units plus a driver that instantiates the header templates
        'single' the single-header distribution, instantiated by the same driver
"""
import json, os, subprocess, sys, hashlib, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(HERE, 'build')
EXPORTER = os.path.join(BUILD, 'exporter')


class AnalysisBroken(Exception):
    """The analysis cannot be carried out (not a verdict)."""


class TU:
    def __init__(self, data, name):
        self.name = name
        self.types = data['types']
        self.data = data


def strip_ref(t):
    t = t.strip()
    while t.endswith('&'):
        t = t[:-1].strip()
    return t


def strip_cvref(t):
    t = strip_ref(t)
    while t.startswith('const '):
        t = t[6:].strip()
    while t.endswith(' const') or t.endswith('*const'):
        t = t[:-5].strip()
    return t


class Program:
    """The linked functions, records, enums and globals of one view."""

    def __init__(self, view, tus):
        self.view = view
        self.tus = tus
        self.funcs = {}      # usr -> function (definition)
        self.byq = {}        # qualified name -> [functions]
        self.decls = []      # declarations (incl. those of headers)
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.all_defs = []   # (tu, function) for every definition in every TU
        for tu in tus:
            d = tu.data
            for f in d['functions']:
                f['_tu'] = tu
                self.all_defs.append(f)
                old = self.funcs.get(f['usr'])
                if f.get('body') is None and old is not None:
                    continue
                if old is None or old.get('body') is None:
                    self.funcs[f['usr']] = f
            for f in d['decls']:
                f['_tu'] = tu
                self.decls.append(f)
            for r in d['records']:
                r['_tu'] = tu
                self.records.setdefault(r['q'], r)
            for e in d['enums']:
                self.enums.setdefault(e['q'], e)
            for g in d['globals']:
                g['_tu'] = tu
                key = g['q'] + ('@' + g.get('fn', '') if g.get('static_local') else '')
                o = self.globals.get(key)
                if o is None or (not o.get('init') and g.get('init')):
                    self.globals[key] = g
        for f in self.funcs.values():
            self.byq.setdefault(f['q'], []).append(f)

    def ty(self, node_or_tu, idx):
        tu = node_or_tu if isinstance(node_or_tu, TU) else node_or_tu['_tu']
        return tu.types[idx]

    def find(self, q, pred=None, n=None):
        fs = [f for f in self.byq.get(q, []) if f.get('body') is not None and (pred is None or pred(f))]
        return fs

    def one(self, q, sig=None):
        """The definition of q whose parameter types are sig (canonical, as spelled by clang)."""
        fs = self.find(q)
        if sig is not None:
            fs = [f for f in fs if [f['_tu'].types[p['t']] for p in f['params']] == sig]
        if not fs:
            raise AnalysisBroken('anchor not found in view %s: %s %s' % (self.view, q, sig))
        return fs[0]


_CACHE = {}


def export(path, flags):
    cmd = [EXPORTER, REPO + '/', path, '--', '-std=c++14', '-resource-dir=/usr/lib/llvm-18/lib/clang/18', '-w'] + flags
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=300)
    if r.returncode != 0 or not r.stdout:
        raise AnalysisBroken('clang could not analyse %s:\n%s' % (path, r.stderr.decode(errors='replace')[-3000:]))
    return json.loads(r.stdout)


def ensure_exporter():
    r = subprocess.run(['bash', os.path.join(HERE, 'tool', 'build.sh')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise AnalysisBroken('exporter build failed: ' + r.stdout.decode(errors='replace')[-2000:])


def sources():
    d = os.path.join(REPO, 'src', 'tomsolver')
    return sorted(os.path.join(d, f) for f in os.listdir(d) if f.endswith('.cpp'))


def load(view, ndebug=True):
    key = (view, ndebug)
    if key in _CACHE:
        return _CACHE[key]
    ensure_exporter()
    flags = ['-DNDEBUG'] if ndebug else []
    drv = os.path.join(HERE, 'tool', 'driver.cpp')
    if view == 'lib':
        jobs = [(s, flags + ['-I' + os.path.join(REPO, 'src')]) for s in sources()]
        jobs.append((drv, flags + ['-I' + os.path.join(REPO, 'src')]))
    else:
        jobs = [(drv, flags + ['-I' + os.path.join(REPO, 'single', 'include')])]
    with ThreadPoolExecutor(8) as ex:
        datas = list(ex.map(lambda j: export(*j), jobs))
    tus = [TU(d, os.path.relpath(j[0], REPO) if j[0].startswith(REPO) else os.path.basename(j[0]))
           for d, j in zip(datas, jobs)]
    p = Program(view, tus)
    _CACHE[key] = p
    return p
