"""Collects obligations and writes evidence, violations and known findings."""
import json, os, sys, time, hashlib, signal
from loader import HERE, REPO

VIEWS = ('lib', 'single')
NOTES = {}


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.ok = 0
        self.groups = {}
        self.viol = {}
        self.und = []
        self.rules = []
        self.assumptions = []
        self.samples = []
        self.counts = {}
        self.funcs = set()

    def rule(self, s):
        if s not in self.rules:
            self.rules.append(s)

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def good(self, group, name=None, n=1):
        self.ok += n
        g = self.groups.setdefault(group, [0, 0, 0])
        g[0] += n
        if name is not None and len(self.samples) < 12 and g[0] <= 2:
            self.samples.append('%s: %s' % (group, name))

    def bad(self, group, key, where, msg):
        """key identifies the defect independently of view and line"""
        g = self.groups.setdefault(group, [0, 0, 0])
        g[1] += 1
        v = self.viol.setdefault(key, {'key': key, 'group': group, 'instances': []})
        v['instances'].append({'where': where, 'what': msg})

    def undecided(self, group, name, why):
        g = self.groups.setdefault(group, [0, 0, 0])
        g[2] += 1
        self.und.append('%s: %s: %s' % (group, name, why))

    def seen(self, interp):
        for u in interp.funcs_seen:
            f = interp.P.funcs.get(u)
            if f is not None:
                self.funcs.add((interp.P.view, f['q']))

    def finish(self, level='other'):
        tier = os.environ.get('VERIF_TIER', 'quick')
        seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        known = {}
        kf = os.path.join(HERE, 'KNOWN_FINDINGS.txt')
        if os.path.exists(kf):
            for line in open(kf):
                if line.startswith('finding: property=%s ' % self.pid):
                    parts = line.split(None, 3)
                    key = parts[2].split('=', 1)[1]
                    known[key] = parts[3].strip() if len(parts) > 3 else ''
        new = [v for k, v in self.viol.items() if k not in known]
        for k in self.viol:
            if k in known:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, known[k]))
        for u in self.und[:40]:
            print('UNDECIDED ' + u[:300])
        if len(self.und) > 40:
            print('UNDECIDED ... %d more' % (len(self.und) - 40))
        edir = os.path.join(HERE, 'evidence')
        os.makedirs(edir, exist_ok=True)
        cov = {
            'explanation': ' '.join(self.rules),
            'obligations_decided': self.ok + sum(len(v['instances']) for v in self.viol.values()),
            'obligations_holding': self.ok,
            'obligations_undecided': len(self.und),
            'groups': {k: {'hold': g[0], 'violated': g[1], 'undecided': g[2]} for k, g in self.groups.items()},
            'functions_analysed': len(self.funcs),
            'functions': sorted({q for _, q in self.funcs})[:120],
            'undecided': self.und[:30],
            'samples': self.samples,
            'views': list(VIEWS),
        }
        cov.update(self.counts)
        cov.update(NOTES)
        ev = {'property': self.pid, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
              'assumptions': self.assumptions, 'wall_s': round(time.time() - self.t0, 2), 'violations': len(new)}
        json.dump(ev, open(os.path.join(edir, self.pid + '.json'), 'w'), indent=1)
        print('%s: %d obligations hold, %d violated, %d undecided (%.1f s)' % (
            self.pid, self.ok, len(self.viol), len(self.und), time.time() - self.t0))
        if new:
            path = os.path.join(edir, self.pid + '.violation.json')
            json.dump(new, open(path, 'w'), indent=1)
            for v in new[:30]:
                i = v['instances'][0]
                print('  [%s] %s: %s%s' % (v['key'], i['where'], i['what'][:700],
                                           ' (+%d more)' % (len(v['instances']) - 1) if len(v['instances']) > 1 else ''))
            print('VIOLATION property=%s replay=%s' % (self.pid, path))
            return 1
        if self.ok == 0 and not self.viol:
            print('ERROR: no obligation could be decided')
            return 2
        return 0


def short(where):
    return (where or '?').replace(REPO + '/', '')


def merge(R, S):
    R.ok += S.ok
    for k, g in S.groups.items():
        h = R.groups.setdefault(k, [0, 0, 0])
        for i in range(3):
            h[i] += g[i]
    for k, v in S.viol.items():
        R.viol.setdefault(k, {'key': k, 'group': v['group'], 'instances': []})['instances'] += v['instances']
    R.und += S.und
    for s in S.rules:
        R.rule(s)
    for s in S.assumptions:
        R.assume(s)
    for s in S.samples:
        if len(R.samples) < 12:
            R.samples.append(s)
    for k, n in S.counts.items():
        R.count(k, n)
    R.funcs |= S.funcs


# a run ends in time also when a change of the code makes the analysis much more expensive: what is left over is undecided
DEADLINE = time.time() + float(os.environ.get('VERIF_BUDGET') or (780 if os.environ.get('VERIF_DEEP') else 600))


class TimeUp(BaseException):
    pass


def time_up(*a):
    raise TimeUp()


def pmap(R, jobs, procs=None):
    """runs jobs (callables taking a Report) in forked workers and merges their reports"""
    import pickle
    import traceback
    procs = procs or min(int(os.environ.get('VERIF_PROCS', '0')) or (os.cpu_count() or 4), len(jobs) or 1)
    if procs <= 1:
        for j in jobs:
            j(R)
        return
    sys.stdout.flush()
    kids = []
    for w in range(procs):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            S = Report(R.pid)
            rc = 0
            try:
                signal.signal(signal.SIGALRM, time_up)
                for j in jobs[w::procs]:
                    try:
                        left = DEADLINE - time.time()
                        if left <= 0:
                            raise TimeUp()
                        signal.setitimer(signal.ITIMER_REAL, left)
                        j(S)
                        signal.setitimer(signal.ITIMER_REAL, 0)
                    except TimeUp:
                        S.undecided('time', 'job', 'not analysed within the time budget')
                    except Exception as e:
                        tb = traceback.extract_tb(e.__traceback__)[-1]
                        S.undecided('internal', 'job', '%s: %s @%s:%d' % (type(e).__name__, e, tb.name, tb.lineno))
                data = pickle.dumps(('ok', S.__dict__))
            except BaseException as e:
                data = pickle.dumps(('error', type(e).__name__ + ': ' + str(e) + '\n' + traceback.format_exc()))
            with os.fdopen(wr, 'wb') as f:
                f.write(data)
            os._exit(rc)
        os.close(wr)
        kids.append((pid, r))
    err = None
    for pid, r in kids:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        try:
            kind, d = pickle.loads(data)
        except Exception as e:
            kind, d = 'error', 'worker died: %r' % (e,)
        if kind == 'error':
            err = d
            continue
        S = Report(R.pid)
        S.__dict__.update(d)
        merge(R, S)
    if err:
        from loader import AnalysisBroken
        raise AnalysisBroken(err)
