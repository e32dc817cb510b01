#!/usr/bin/env python3
"""check.py <property> : decide one property of /repo from its source."""
import argparse
import importlib
import os
import sys
import traceback

sys.dont_write_bytecode = True
os.environ.setdefault('OPENBLAS_NUM_THREADS', '1')

NUMPY = ('/opt/veriftools/pyvenv/bin/python3', '/opt/venv/bin/python')
try:
    import numpy  # noqa: F401
except ImportError:
    if not os.environ.get('VERIF_REEXEC'):
        for exe in NUMPY:
            if os.path.exists(exe):
                os.environ['VERIF_REEXEC'] = '1'
                os.execv(exe, [exe, os.path.abspath(__file__)] + sys.argv[1:])
    raise

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True

from sa.project import Project, AnalysisError  # noqa: E402
from sa.report import Report  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--root', default=os.environ.get('VERIF_ROOT', '/repo'))
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--noevidence', action='store_true')
    ap.add_argument('--verbose', '-v', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    rep = Report(a.property, tier, int(os.environ.get('VERIF_SEED', '1') or 1), write=not a.noevidence)
    try:
        mod = importlib.import_module(f'sa.rules.{a.property.lower()}')
        project = Project(a.root)
        mod.run(project, rep)
        rc = rep.finish()
    except AnalysisError as exc:
        print('ANALYSIS-BROKEN:', exc)
        return 3
    except Exception:
        traceback.print_exc()
        return 4
    if a.verbose:
        for u in rep.unk:
            print('  undecided', u['rule'], u['construct'], u['why'])
    return rc


if __name__ == '__main__':
    import threading
    threading.stack_size(512 * 1024 * 1024)
    out = []
    t = threading.Thread(target=lambda: out.append(main()))
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(out[0] if out else 4)
