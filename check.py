#!/usr/bin/env python3
"""check.py <property id>: decides one property of /repo's current sources (see DESIGN.md)."""
import os, sys, importlib
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'analysis'))

WHERE = {
    'tables': ['C06', 'C09', 'C10'],
    'deriv': ['C04', 'C05', 'C39'],
    'heap': ['C03', 'C12', 'C13', 'C14', 'C27', 'C35', 'C37'],
    'printing': ['C07'],
    'parser': ['C08', 'C11', 'C40'],
    'matrix': ['C16', 'C29', 'C30', 'C36'],
    'solver': ['C17', 'C18', 'C20', 'C21', 'C22'],
    'history': ['C42', 'C43'],
    'whole': ['C01', 'C02', 'C15', 'C19', 'C23', 'C24', 'C25', 'C26', 'C28', 'C38', 'C41'],
}


def main():
    pid = sys.argv[1]
    mod = next(m for m, ids in WHERE.items() if pid in ids)
    from report import Report
    from loader import AnalysisBroken
    m = importlib.import_module('checks.' + mod)
    R = Report(pid)
    try:
        getattr(m, pid)(R)
    except AnalysisBroken as e:
        print('ERROR: %s' % e)
        R.undecided('anchors', pid, str(e)[:400])
        rc = R.finish()
        return rc
    except Exception as e:
        import traceback
        traceback.print_exc()
        R.undecided('internal', pid, '%s: %s' % (type(e).__name__, e))
    return R.finish()


if __name__ == '__main__':
    sys.setrecursionlimit(100000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = []
    t = threading.Thread(target=lambda: res.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0] if res else 3)
