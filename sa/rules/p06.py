"""Smoothing weights, averaging kernels and the destriping filter equal their definitions."""
import numpy as np
from .. import effects, num, values as V
from . import p02

MODULES = ('gauss_weights', 'gen_averaging_kernel', 'destripe_harmonics')


def transform(b, lmax):
    """integrals of exp(-b(1-x)) times the polynomials of each degree between -1 and 1"""
    x, w = np.polynomial.legendre.leggauss(400)
    k = np.exp(-b * (1.0 - x)) * w
    return np.array([np.sum(k * np.polynomial.legendre.legval(x, np.eye(l + 1)[l])) for l in range(lmax + 1)])


def bell(hw, radius, lmax, cutoff, norm):
    """transform of the bell of a half width, constant from the first degree (2 or above) below the cutoff"""
    b = np.log(2.0) / (1.0 - np.cos(hw / radius))
    t = transform(b, lmax) * norm(b)
    low = [l for l in range(2, lmax + 1) if t[l] < cutoff]
    if low:
        t[low[0]:] = cutoff
    return t


def gaussian(L):
    n, cut = L['LMAX'], L.get('CUTOFF', 1e-10)
    if L['hw'] < cut:
        return {'return': np.full(n + 1, 1.0 / (2.0 * np.pi))}
    return {'return': bell(L['hw'], 6371.0, n, cut, lambda b: b / (1.0 - np.exp(-2.0 * b)) / (2.0 * np.pi))}


def kernel(L):
    """Swenson and Wahr (2002), coefficients that minimize the sum of the errors"""
    n = L['LMAX']
    m = L.get('MMAX', n)
    g = bell(L['hw'], p02.RE / 1e5, n, L.get('CUTOFF', 1e-15), lambda b: 1.0)
    f = np.ones(n + 1) if L.get('UNITS') == 1 else p02.harmonic_factor('cmwe', L['hl'], L['kl'], L['ll'], n + 1)
    keep = np.tri(n + 1, m + 1)
    c, s = L['gclm'][:n + 1, :m + 1] * keep, L['gslm'][:n + 1, :m + 1] * keep
    area = L['gclm'][0, 0]
    s0 = L['sigma']**2 / (np.sum((g / 2.0)[:, None] * (c**2 + s**2)) / area**2)
    k = 2.0 * (f**2 / (g * s0))[:, None]
    return {'.clm': c / (1.0 + k * L['eclm'][:n + 1, :m + 1]**2) / area, '.slm': s / (1.0 + k * L['eslm'][:n + 1, :m + 1]**2) / area,
        '.lmax': n, '.mmax': m, **{f'@{k}': L[k] for k in ('gclm', 'gslm', 'eclm', 'eslm')}}


def smoothed(y, h, narrow):
    """running quadratic fits of 2h+1 points, the end ones evaluated up to the ends"""
    n = len(y)
    if n - 1 < 2 * h:
        return np.zeros(n) if narrow else np.array(y)
    out, t = np.zeros(n), np.arange(-h, h + 1)
    for i in range(h, n - h):
        c = np.polynomial.polynomial.polyfit(t, y[i - h:i + h + 1], 2)
        out[i] = c[0]
        if i == h:
            out[:h] = np.polynomial.polynomial.polyval(np.arange(-h, 0), c)
        if i == n - h - 1:
            out[i + 1:] = np.polynomial.polynomial.polyval(np.arange(1, h + 1), c)
    return out


def destriped(L):
    n = L.get('LMAX', 60)
    mmax = L.get('MMAX', n)
    out = {}
    for name in ('clm', 'slm'):
        a = np.array(L[name + '1'])
        for m in range(5, mmax + 1):
            width = 15.0 * np.exp(-m / 10.0)
            h = max(int(np.rint(width)) if L.get('ROUND', True) else int(width), 2)
            for parity in (0, 1):
                l = np.array([x for x in range(m, n + 1) if x % 2 == parity])
                if len(l):
                    a[l, m] -= smoothed(L[name + '1'][l, m], h, L.get('NARROW', False))
        out[f'[{name}]'] = a
    return {**out, '@clm1': L['clm1'], '@slm1': L['slm1']}


def run(project, rep):
    rep.rule('gaussian', 'the weights are the normalized transform of the bell of the given half width, constant below the cutoff', floor=6)
    rep.rule('kernel', 'the coefficients of the averaging kernel minimize the sum of satellite and leakage errors', floor=15)
    rep.rule('destriping', 'the smooth part of each order and parity is removed from order five upwards', floor=8)
    rep.rule('unchanged', 'no statement reached from these functions changes the storage of their arguments', floor=3)
    effects.unchanged(project, rep, [f for f in project.all_functions(scripts=False) if effects.public(f) and f.module.name.rsplit('.', 1)[-1] in MODULES])
    lf, memo = num.leaf, {}
    f = 'gauss_weights.gauss_weights'
    for label, L in (('narrow', {'hw': 300.0, 'LMAX': 20}), ('wide', {'hw': 1500.0, 'LMAX': 6}), ('degree one', {'hw': 500.0, 'LMAX': 1}),
            ('none', {'hw': 0, 'LMAX': 5}), ('below cutoff', {'hw': 0.05, 'LMAX': 5, 'CUTOFF': 0.1}), ('cutoff', {'hw': 1500.0, 'LMAX': 14, 'CUTOFF': 0.05}),
            ('cutoff at the last degree', {'hw': 1500.0, 'LMAX': 7, 'CUTOFF': 0.022}), ('cutoff at degree two', {'hw': 4000.0, 'LMAX': 5, 'CUTOFF': 0.1})):
        num.check(project, rep, 'gaussian', f, lambda r: dict(L), gaussian, case={k: lf(k) for k in L}, label=label, defaults=True, models=1,
            tol=1e-6, memo=(memo, ('CUTOFF' in L,)))
    f = 'gen_averaging_kernel.gen_averaging_kernel'
    love = {'LOVE': V.mk('tuple', (V.sym('hl'), V.sym('kl'), V.sym('ll')))}

    def load(n=5, m=None, **more):
        def leaves(r):
            L = {k: r.arr(n + 2, n + 2) * np.tri(n + 2) for k in ('gclm', 'gslm', 'eclm', 'eslm')}
            L.update({'sigma': r.num(), 'hw': 900.0 * r.num(), 'LMAX': n, 'hl': r.arr(n + 3), 'kl': 0.1 * r.arr(n + 3), 'll': r.arr(n + 3), **more})
            if m is not None:
                L['MMAX'] = m
            return L
        return leaves

    base = {k: lf(k) for k in ('gclm', 'gslm', 'eclm', 'eslm', 'sigma', 'hw', 'LMAX')}
    for label, leaves, case in (('defaults', load(), love), ('maximum order', load(6, 3), {**love, 'MMAX': lf('MMAX')}), ('order zero', load(4, 0), {**love, 'MMAX': lf('MMAX')}),
            ('fully-normalized', load(UNITS=0), {**love, 'UNITS': 0}), ('mass', load(UNITS=1), {'UNITS': 1}),
            ('cutoff', load(8, CUTOFF=1e-2, hw=2500.0), {**love, 'CUTOFF': lf('CUTOFF')})):
        num.check(project, rep, 'kernel', f, leaves, kernel, case={**base, **case}, label=label, defaults=True, tol=1e-6)
    f = 'destripe_harmonics.destripe_harmonics'

    def noise(n, extra=0, **more):
        return lambda r: {k: r.arr(n + 1 + extra, n + 1 + extra) * np.tri(n + 1 + extra) for k in ('clm1', 'slm1')} | {'LMAX': n, **more}

    memo = {}
    for label, leaves, names in (('degrees', noise(30), ''), ('odd degree', noise(25), ''), ('few degrees', noise(9), ''), ('larger matrix', noise(24, 3), ''),
            ('maximum order', noise(24, MMAX=8), 'MMAX'), ('truncated width', noise(30, ROUND=False), 'ROUND'), ('narrow', noise(24, NARROW=True), 'NARROW'),
            ('truncated narrow', noise(21, ROUND=False, NARROW=True), 'ROUND NARROW'), ('low order', noise(20, MMAX=4), 'MMAX')):
        num.check(project, rep, 'destriping', f, leaves, destriped, case={'clm1': lf('clm1'), 'slm1': lf('slm1'), 'LMAX': lf('LMAX'), **{k: lf(k) for k in names.split()}},
            label=label, defaults=True, models=1, memo=(memo, names), budget=2000000)
