"""The sea level equation iterates the published relation to its stated tolerance."""
import numpy as np
from .. import effects, num, values as V
from . import p02
from .p25 import functions

MODULES = ('sea_level_equation',)
# potential and height body tide Love numbers of degree two
BODY = {0: (0.298, 0.604), 1: (0.3055, 0.6149)}
OMEGA, RADIUS = 7.292115e-5, 6.371e6
FLUID = {0: 0.00328475 / 0.00348118, 1: 3.0 * 3.98004418e14 / 305.51 * 0.33068 / (RADIUS**3 * OMEGA**2),
    2: 2.0 / 298.257223563 * 9.80665 / (OMEGA**2 * RADIUS) - 1.0, 3: 0.942}


def expand(grid, lon, lat, LMAX=60, PLM=None, **kw):
    """coefficients of a grid (longitudes, latitudes), integrated over all cells"""
    th, phi = np.radians(90.0 - np.ravel(lat)), np.radians(np.ravel(lon))
    n = int(LMAX) + 1
    p = functions(n - 1, np.cos(th))[0]
    w = np.sin(th) * abs(th[1] - th[0]) * abs(phi[1] - phi[0])
    k = np.arange(n)[:, None] * phi[None, :]
    pick = lambda f: np.einsum('lmi,mj,ji,i->lm', p, f(k), np.asarray(grid, float), w) / (4.0 * np.pi)  # noqa: E731
    return pick(np.cos), pick(np.sin)


def solve(L):
    n, lat, lon = L['LMAX'], L['glat'], L['glon']
    ocean = 1.0 - L['land_function']
    hl, kl = L['hl'][:n + 1], L['kl'][:n + 1]
    l = np.arange(n + 1.0)
    rad, rho = p02.RE, p02.RHO
    body = (L['?k'], L['?h']) if '?k' in L else BODY[L.get('BODY_TIDE_LOVE', 0)]
    fluid = L.get('?f', FLUID[L.get('FLUID_LOVE', 0)])
    h = np.tile((3.0 / rho * (1.0 + kl - hl) / (2.0 * l + 1.0))[:, None], n + 1)
    p = np.tile(((1.0 + kl - hl) / (1.0 + kl))[:, None], n + 1)
    if n >= 2 and L.get('POLAR', True):
        polar = (1.0 + body[0] - body[1]) * (1.0 + kl[2]) / (fluid - body[0])
        h[2, 1] += 3.0 / rho * polar / 5.0
        p[2, 1] += polar / (1.0 + kl[2])
    keep = np.tri(n + 1)
    c0, s0 = keep * L['loadClm'], keep * L['loadSlm']
    th, phi = np.radians(90.0 - lat), np.radians(lon)
    basis = functions(n, np.cos(th))[0]
    k = np.arange(n + 1)[:, None] * phi[None, :]
    oc, os = expand(ocean, lon, lat, n)
    area = 4.0 * np.pi * oc[0, 0]
    # the mass of the load is that of the water leaving the ocean
    mass = 4.0 * np.pi * rad**3 * rho * c0[0, 0] / 3.0
    level = -mass / rad**2 / area
    hc, hs = level * oc, level * os
    at = (ocean != 0)
    for i in range(L.get('ITERATIONS', 6)):
        c, s = h * hc + rad * p * c0, h * hs + rad * p * s0
        field = np.einsum('lm,lmi,mj->ji', c, basis, np.cos(k)) + np.einsum('lm,lmi,mj->ji', s, basis, np.sin(k))
        field = np.where(at, field, 0.0)
        nc, ns = expand(field, lon, lat, n)
        shift = (-mass / rad**2 - 4.0 * np.pi * nc[0, 0]) / area
        field = field + shift * ocean
        nc, ns = nc + shift * oc, ns + shift * os
        old, new = np.sqrt(hc**2 + hs**2), np.sqrt(nc**2 + ns**2)
        hc, hs = nc, ns
        if not abs(np.sum(new - old) / np.sum(old)) > 1e-4:
            break
    fill = L.get('FILL_VALUE', 0)
    if fill:
        field = np.where(L['land_function'] != 0, fill, field)
    return {'return': field, **{f'@{k}': L[k] for k in ('loadClm', 'loadSlm', 'land_function', 'glon', 'glat')}}


def world(n, nlon=6, nlat=5, partial=False, up=False, big=1.0, **more):
    def leaves(r):
        lat = np.linspace(72.0, -72.0, nlat)
        lon = np.arange(nlon) * 360.0 / nlon
        land = (r.arr(nlon, nlat) > 0.6).astype(float)
        land[0, 0], land[1, 1], land[2, 2] = 1.0, 0.0, 0.0
        if partial:
            land[3, 1] = 0.4
        if up:
            lat = lat[::-1].copy()
        c, s = np.tril(r.arr(n + 1, n + 1)), np.tril(r.arr(n + 1, n + 1))
        c[0, 0] += big
        s[:, 0] = 0.0
        L = {'loadClm': c, 'loadSlm': s, 'glon': lon, 'glat': lat, 'land_function': land, 'LMAX': n,
            'hl': -r.arr(n + 1), 'kl': -0.3 * r.arr(n + 1), 'll': 0.1 * r.arr(n + 1)}
        return {**L, **{k: v(r) if callable(v) else v for k, v in more.items()}}
    return leaves


def run(project, rep):
    rep.rule('solution', 'the sea level field is that of the iterations of the sea level equation, of every degree, order, point and option', floor=10)
    rep.rule('unchanged', 'no statement reached from the solver changes the storage of its arguments', floor=1)
    effects.unchanged(project, rep, [f for f in project.all_functions(scripts=False) if effects.public(f) and f.module.name.rsplit('.', 1)[-1] in MODULES])
    lf = num.leaf
    memo = {}
    f = 'sea_level_equation.sea_level_equation'
    base = {k: lf(k) for k in ('loadClm', 'loadSlm', 'glon', 'glat', 'land_function')}
    base.update({'**LMAX': lf('LMAX'), '**LOVE': V.mk('tuple', (V.sym('hl'), V.sym('kl'), V.sym('ll')))})
    plm = lambda r: functions(3, np.sin(np.radians(np.linspace(72.0, -72.0, 5))))[0]  # noqa: E731
    pair, one = V.mk('tuple', (V.sym('?k'), V.sym('?h'))), V.mk('tuple', (V.sym('?f'),))
    numbers = {'?k': lambda r: r.num(0.2, 0.4), '?h': lambda r: r.num(0.5, 0.7), '?f': lambda r: r.num(0.8, 1.0)}
    usual = {'FILL_VALUE': 0, 'ITERATIONS': 6, 'POLAR': True, 'BODY_TIDE_LOVE': 0, 'FLUID_LOVE': 0}
    for label, leaves, more in (('degree 2', world(2), {}), ('degree 4', world(4), {}), ('ascending latitudes', world(3, up=True), {}),
            ('partial land', world(3, partial=True), {}), ('more latitudes', world(5, 9, 8), {}),
            ('degree 1', world(1, POLAR=False), None), ('partial land', world(3, partial=True, FILL_VALUE=-99.0), None),
            ('fill value', world(3, FILL_VALUE=9.5), None), ('one iteration', world(3, ITERATIONS=1), None),
            ('two iterations', world(3, ITERATIONS=2), None), ('until convergence', world(3, big=400.0, ITERATIONS=60), None),
            ('without polar feedback', world(3, POLAR=False), None), ('body tide 1', world(2, BODY_TIDE_LOVE=1), None),
            ('fluid 1', world(2, FLUID_LOVE=1), None), ('fluid 2', world(2, FLUID_LOVE=2), None), ('fluid 3', world(2, FLUID_LOVE=3), None),
            ('usual options', world(2), None), ('Legendre polynomials given', world(3, PLM=plm), {'PLM': lf}),
            ('own Love numbers', world(2, **numbers), {'BODY_TIDE_LOVE': pair, 'FLUID_LOVE': one})):
        mine = {k: lf for k in usual} if more is None else more
        num.check(project, rep, 'solution', f, lambda r: {**(usual if more is None else {}), **leaves(r)}, solve,
            case={**base, **{'**' + k: (v(k) if callable(v) else v) for k, v in mine.items()}}, label=label, defaults=True, models=2,
            memo=(memo, tuple(sorted(mine)) + (more is None,)))
