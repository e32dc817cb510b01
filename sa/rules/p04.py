"""Geocenter conversions and their inverses."""
import numpy as np
from .. import num, spec

AXES = (('Z', 'C10'), ('X', 'C11'), ('Y', 'S11'))
COEF = [c for _, c in AXES]
ERR = ['e' + c for c in COEF]
CART = [x for x, _ in AXES]
CERR = [x + '_sigma' for x in CART]
DENSITY, RADIUS = 5.517, 6371e5


def series(nt=5, **more):
    def leaves(r):
        sh = (nt,) if nt else ()
        L = {f'self.{k}': (r.arr(*sh) if nt else np.float64(r.num())) for k in COEF + ERR + CART + CERR}
        L.update({'self.radius': 6.371e9 * r.num(), 'kl': 0.1 * r.num(), 'self.time': 2003.0 + np.sort(r.arr(*sh or (1,))),
            'self.month': np.arange(nt or 1) + 15, 'self.filename': 'file'})
        L.update({k: v(r, L) if callable(v) else v for k, v in more.items()})
        return L
    return leaves


def cartesian(L):
    s = L['self.radius'] * np.sqrt(3.0) / (1.0 + L.get('kl', 0.0))
    return {**{f'.{x}': L[f'self.{c}'] * s for x, c in AXES}, **{f'.{x}_sigma': L[f'self.e{c}'] * s for x, c in AXES},
        **{f'.{c}': L[f'self.{c}'] for c in COEF + ERR}}


def coefficients(L):
    s = L['self.radius'] * np.sqrt(3.0) / (1.0 + L.get('kl', 0.0))
    return {**{f'.{c}': L[f'self.{x}'] / s for x, c in AXES}, **{f'.e{c}': L[f'self.{x}_sigma'] / s for x, c in AXES},
        **{f'.{x}': L[f'self.{x}'] for x in CART + CERR}}


def water(factor, power):
    def ref(L):
        s = (factor * DENSITY * RADIUS / (1.0 + L.get('kl', 0.0)))**power
        return {**{f'.{c}': L[f'self.{c}'] * s for c in COEF + ERR}, **{f'.{x}': L[f'self.{x}'] for x in CART + CERR}}
    return ref


def same(names):
    return lambda L: {f'@self.{k}': L[f'self.{k}'] for k in names}


def matrix(nt):
    def leaves(r):
        L = {}
        for k in ('clm', 'slm'):
            L[k] = r.arr(*((4, 4, nt) if nt else (4, 4)))
            L[f'temp.{k}'] = L[k]
        L.update({'temp.time': 2003.0 + np.sort(r.arr(nt or 1)), 'temp.month': np.arange(nt or 1) + 4, 'temp.filename': 'name',
            'temp.lmax': 3, 'temp.mmax': 3, **{f'self.{k}': r.arr(nt or 1) for k in COEF}, 'self.radius': r.num()})
        return L
    return leaves


def degree1(third=False, pre='', epoch=False):
    def ref(L):
        out = {'.C10': L[pre + 'clm'][1, 0], '.C11': L[pre + 'clm'][1, 1], '.S11': L[pre + 'slm'][1, 1]}
        if third:
            out = {k: np.atleast_1d(v) for k, v in out.items()}
        if epoch:
            out.update({'.time': L['temp.time'], '.month': L['temp.month'], '.filename': L['temp.filename']})
            out.update({'@temp.clm': L['temp.clm'], '@temp.slm': L['temp.slm']})
        return out
    return ref


def to_matrix(L):
    n = np.atleast_1d(L['self.C10'])
    clm, slm = np.zeros((2, 2, len(n))), np.zeros((2, 2, len(n)))
    clm[1, 0], clm[1, 1], slm[1, 1] = L['self.C10'], L['self.C11'], L['self.S11']
    return {'[clm]': clm, '[slm]': slm}


def run(project, rep):
    rep.rule('formula', 'each converted component is the published relation between degree-one coefficients, Cartesian '
        'geocenter motion and water equivalents; the other components are left alone', floor=80)
    rep.rule('inverse', 'applying a conversion and then its inverse gives back the input', floor=36)
    rep.rule('placement', 'degree-one coefficients are read from and written to degree 1 of the matching family', floor=20)
    g = 'geocenter.geocenter.'
    kl = {'kl': num.leaf('kl')}
    table = (('to_cartesian', cartesian), ('from_cartesian', coefficients), ('to_cmwe', water(1.0, 1)), ('to_mmwe', water(10.0, 1)),
        ('from_cmwe', water(1.0, -1)), ('from_mmwe', water(10.0, -1)))
    for nt in (5, 0):
        for name, ref in table:
            num.check(project, rep, 'formula', g + name, series(nt), ref, case=kl, label='series' if nt else 'single')
    for name, ref in table:
        def default(r, s=series(5)):
            L = s(r)
            L.pop('kl')
            return L
        num.check(project, rep, 'formula', g + name, default, ref, label='defaults', defaults=True)
    # a conversion followed by its inverse on one object
    cls = project.require_cls('geocenter.geocenter')
    pairs = (('to_cartesian', 'from_cartesian', COEF + ERR), ('from_cartesian', 'to_cartesian', CART + CERR),
        ('to_cmwe', 'from_cmwe', COEF + ERR), ('from_cmwe', 'to_cmwe', COEF + ERR), ('to_mmwe', 'from_mmwe', COEF + ERR),
        ('from_mmwe', 'to_mmwe', COEF + ERR))
    for a, b, names in pairs:
        driver = spec.ref_func(project, f'def ref(self, kl):\n    self.{a}(kl=kl)\n    self.{b}(kl=kl)\n    return self\n')
        f = project.require(g + b)
        num.check(project, rep, 'inverse', g + b, series(5), same(names), func=driver, case={'self': num.inst(project, 'geocenter.geocenter', 'self')},
            label=f'{a}, {b}', where=f'{f.module.rel}:{f.node.lineno}')
    # matrices
    temp = num.inst(project, 'harmonics.harmonics', 'temp')
    for nt in (0, 5):
        num.check(project, rep, 'placement', g + 'from_harmonics', matrix(nt), degree1(pre='temp.', epoch=True), case={'temp': temp},
            label=f'{3 if nt else 2}-D', kwargs_open=False)
        num.check(project, rep, 'placement', g + 'from_matrix', matrix(nt), degree1(third=True), label=f'{3 if nt else 2}-D')
        num.check(project, rep, 'placement', g + 'to_matrix', series(nt), to_matrix, label='series' if nt else 'single')
    # writing to a matrix and reading it back
    driver = spec.ref_func(project, 'def ref(self):\n    d = self.to_matrix()\n    self.from_matrix(d["clm"], d["slm"])\n    return self\n')
    f = project.require(g + 'from_matrix')
    num.check(project, rep, 'inverse', g + 'from_matrix', series(5), same(COEF), func=driver, case={'self': num.inst(project, 'geocenter.geocenter', 'self')},
        label='to_matrix, from_matrix', where=f'{f.module.rel}:{f.node.lineno}')
    assert cls is not None
