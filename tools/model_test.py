"""differential test of the value model: snippets run for real against their summaries"""
import sys, os, types, copy, inspect
sys.path.insert(0, '/verif')
if not os.path.exists('/opt/veriftools/pyvenv'): raise SystemExit
import shutil
import numpy as np
from sa import project as P, num, spec, report, values as V, ev
src = sys.argv[1]
only = sys.argv[2:]
root = '/tmp/model-root'
pk = os.path.join(root, 'gravity_toolkit')
shutil.rmtree(root, ignore_errors=True); os.makedirs(pk)
shutil.copy('/repo/gravity_toolkit/__init__.py', pk) if False else open(os.path.join(pk, '__init__.py'), 'w').close()
shutil.copy(src, os.path.join(pk, 'snip.py'))
project = P.Project(root)
mod = types.ModuleType('snip'); exec(compile(open(src).read(), src, 'exec'), mod.__dict__)
def leaves(r):
    d = {'a': r.arr(3, 4), 'b': r.arr(3, 4), 'c': r.arr(4), 'd': r.arr(3), 'q': r.arr(3, 4, 2), 's': r.num(), 't': r.num(),
         'm': r.arr(3, 4) > 0, 'k': 2, 'i': np.array([2, 0, 1]), 'sq': r.arr(4, 4)}
    return d
full = leaves(num.Rng(1)) 
rep = report.Report('X', 'snip') if False else None
class R:
    def __init__(self): self.seed = 1; self.tier = 'quick'; self.r = []
    def unit(self, *a): pass
    def ok(self, *a, **k): self.r.append(('ok', a))
    def bad(self, *a, **k): self.r.append(('BAD', a))
    def unknown(self, *a, **k): self.r.append(('unk', a))
tot = {}
for name, f in list(mod.__dict__.items()):
    if not callable(f) or not name.startswith('f') or not inspect.isfunction(f) or (only and name not in only): continue
    ps = [p for p in inspect.signature(f).parameters if p in full]
    def lv(r):
        d = leaves(r)
        return {p: d[p] for p in ps}
    def ref(L):
        L = copy.deepcopy(L)
        v = f(**{p: L[p] for p in ps})
        if isinstance(v, tuple) :
            out = {f'#{j}': x for j, x in enumerate(v)}
        else:
            out = {'return': v}
        return out
    case = {}
    for p in ps:
        if isinstance(full[p], np.ndarray): case[p] = num.cell(p)
        elif isinstance(full[p], int): case[p] = full[p]
    r = R()
    try:
        num.check(project, r, 'x', 'snip.' + name, lv, ref, case=case, models=3)
    except Exception as exc:
        import traceback; traceback.print_exc()
        r.r.append(('EXC', (repr(exc),)))
    for kind, a in r.r:
        tot[kind] = tot.get(kind, 0) + 1
        if kind != 'ok' or only: print(kind, name, *[str(x)[:260] for x in a[1:3]])
print(tot)
