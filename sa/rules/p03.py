"""Unit conversion factors equal the published formulas."""
import numpy as np
from .. import num

CODES = ['norm', 'cmwe', 'mmGH', 'mmCU', 'microGal', 'mbar', 'cmVCU']
ATTRS = {'norm': '1', 'mmwe': 'mm', 'cmwe': 'cm', 'mmGH': 'mm', 'mmCU': 'mm', 'mmCH': 'mm', 'microGal': '\u03bcGal',
    'mbar': 'mbar', 'cmVCU': 'cm', 'mVCU': 'meters'}
NAMED = list(ATTRS) + ['Pa']


def earth(r):
    """an Earth model with parameters unlike the defaults"""
    n = 5 + r.seed % 3
    return {'self.lmax': n, 'self.l': np.arange(n + 1), 'self.a_axis': 6.3e8 * r.num(0.9, 1.1), 'self.flat': 0.2 * r.num(),
        'self.GM': 3.98e20 * r.num(0.9, 1.1), 'self.G': 6.6e-8 * r.num(0.9, 1.1), 'self.g_wmo': 980.0 * r.num(0.9, 1.1),
        'self.omega': 7.2e-5, 'hl': r.arr(n + 4), 'kl': r.arr(n + 4), 'll': r.arr(n + 4),
        **{f'self.{k}': r.arr(n + 1) for k in NAMED}}


def derived(L):
    R = L['self.a_axis'] * (1.0 - L['self.flat'])**(1.0 / 3.0)
    return R, 3.0 * L['self.GM'] / (4.0 * np.pi * L['self.G'] * R**3), L['self.l']


def harmonic(el, ep):
    def ref(L):
        R, rho, l = derived(L)
        f = np.ones(len(l)) + (L['kl'][l] if el else 0.0)
        if ep:
            f = f / (1.0 - L['self.flat'])
        cmwe = rho * R * (2 * l + 1) / (3.0 * f)
        return {'.norm': np.ones(len(l)), '.cmwe': cmwe, '.mmwe': 10.0 * cmwe, '.mmGH': 10.0 * R * np.ones(len(l)),
            '.mmCU': 10.0 * R * L['hl'][l] / f, '.mmCH': 10.0 * R * L['ll'][l] / f, '.cmVCU': R * (2 * l + 1) / 2.0,
            '.mVCU': R * (2 * l + 1) / 200.0, '.microGal': 1e6 * L['self.GM'] * (l + 1) / R**2,
            '.mbar': L['self.g_wmo'] * cmwe / 1000.0, '.Pa': L['self.g_wmo'] * cmwe / 10.0, '@hl': L['hl'], '@kl': L['kl'], '@ll': L['ll']}
    return ref


def spatial(el):
    def ref(L):
        R, rho, l = derived(L)
        f = 1.0 + (L['kl'][l] if el else 0.0 * l)
        cmwe = 3.0 * f / ((2 * l + 1) * 4.0 * np.pi * R * rho)
        return {'.norm': np.ones(len(l)), '.cmwe': cmwe, '.mmwe': cmwe / 10.0, '.mmGH': np.ones(len(l)) / (4.0 * np.pi * R),
            '.microGal': R**2 / (4.0 * np.pi * 1e6 * L['self.GM'] * (l + 1)), '@hl': L['hl'], '@kl': L['kl'], '@ll': L['ll']}
    return ref


def run(project, rep):
    rep.rule('factor', 'each degree-dependent factor is the published formula in the Love numbers and Earth parameters', floor=70)
    rep.rule('constant', 'each physical constant and each derived Earth parameter has its published value', floor=9)
    rep.rule('named', 'unit names, integer codes and units attributes denote the same quantity', floor=25)
    u = 'units.units.'
    for el in (True, False):
        for ep in (True, False):
            num.check(project, rep, 'factor', u + 'harmonic', earth, harmonic(el, ep), label=f'elastic={el},ellipsoidal={ep}',
                case={'**include_elastic': el, '**include_ellipsoidal': ep})
        num.check(project, rep, 'factor', u + 'spatial', earth, spatial(el), case={'**include_elastic': el}, label=f'elastic={el}')
    love = {k: num.leaf(k) for k in ('hl', 'kl', 'll')}
    num.check(project, rep, 'factor', u + 'harmonic', earth, harmonic(True, False), label='defaults', defaults=True, case=dict(love))
    num.check(project, rep, 'factor', u + 'spatial', earth, spatial(True), label='defaults', defaults=True, case=dict(love))
    # constants of a new Earth model
    f = project.require(u + '__init__')
    const = {'G': 6.67430e-8, 'GM': 3986004.418e14 - 3.5e14, 'g_wmo': 980.665, 'omega': 7.292115e-5}
    own = lambda I, st: I.new(st, 'inst', cls=f.cls)  # noqa: E731
    num.check(project, rep, 'constant', u + '__init__', lambda r: {}, lambda L: {**{f'@self.{k}': v for k, v in const.items()},
        '@self.a_axis': 6.378137e8, '@self.flat': 1.0 / 298.257223563}, defaults=True, self_value=own, tol=1e-12, label='defaults', models=1, must=False)
    num.check(project, rep, 'constant', u + '__init__', lambda r: {'lmax': 6, 'a_axis': r.num(), 'flat': r.num()}, lambda L: {
        **{f'@self.{k}': v for k, v in const.items()}, '@self.a_axis': L['a_axis'], '@self.flat': L['flat'], '@self.lmax': 6,
        '@self.l': np.arange(7)}, self_value=own, tol=1e-12)
    num.check(project, rep, 'constant', u + 'b_axis', earth, lambda L: {'return': (1.0 - L['self.flat']) * L['self.a_axis']})
    num.check(project, rep, 'constant', u + 'rad_e', earth, lambda L: {'return': derived(L)[0]})
    num.check(project, rep, 'constant', u + 'rho_e', earth, lambda L: {'return': derived(L)[1]})
    num.check(project, rep, 'constant', u + 'mass', earth, lambda L: {'return': L['self.GM'] / L['self.G']})
    # names
    for i, name in enumerate(CODES):
        num.check(project, rep, 'named', u + 'bycode', lambda r: {}, lambda L, n=name: {'return': n}, case={'var': i}, label=str(i), models=1)
    for k, v in ATTRS.items():
        num.check(project, rep, 'named', u + 'get_attributes', lambda r: {}, lambda L, v=v: {'#0': v}, case={'var': k}, label=k, models=1)
    for k in NAMED:
        num.check(project, rep, 'named', u + 'get', earth, lambda L, k=k: {'return': L[f'self.{k}']}, case={'var': k}, label=k)
        num.check(project, rep, 'named', u + '__getitem__', earth, lambda L, k=k: {'return': L[f'self.{k}']}, case={'key': k}, label=k)
