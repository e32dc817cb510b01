"""Mascons and grids."""
import ast
import colorsys
from types import SimpleNamespace
import numpy as np
from scipy.interpolate import RectBivariateSpline
from . import p14
from .. import num, spec, store
from ..project import Module

MODULES = ('mascons', 'ocean_stokes', 'tools')


def wrap(x):
    """longitudes from -180 to 180"""
    return (x + 180.0) % 360.0 - 180.0


# -- mascons -------------------------------------------------------------------------

def tiles(kind):
    """disjoint mascons: west, east, south and north"""
    out = {'global': [(w, w + 60.0, s, s + 30.0) for s in (-60.0, -30.0, 0.0, 30.0) for w in np.arange(0.0, 360.0, 60.0)] + [(0.0, 360.0, 60.0, 90.0), (0.0, 360.0, -90.0, -60.0)],
        'odd': [(20.0, 50.0, -10.0, 20.0), (150.0, 210.0, 40.0, 50.0), (310.0, 350.0, -60.0, -20.0), (90.0, 120.0, 60.0, 80.0)],
        'dateline': [(170.0, 180.0, 0.0, 20.0), (180.0, 200.0, 0.0, 20.0), (160.0, 200.0, -30.0, -10.0)],
        'single': [(210.0, 240.0, 30.0, 60.0)], 'poles': [(0.0, 20.0, 0.0, 10.0), (0.0, 360.0, 80.0, 90.0), (40.0, 60.0, 0.0, 10.0), (0.0, 360.0, -90.0, -70.0)]}[kind]
    return np.array(out)


KINDS = ('global', 'odd', 'dateline', 'single', 'poles')


def gsfc(t, turn):
    """centers and spans; longitudes in either convention"""
    w, e, s, n = t.T
    pole = (n == 90.0) & (e - w == 360.0), (s == -90.0) & (e - w == 360.0)
    lat = np.where(pole[0], 90.0, np.where(pole[1], -90.0, (s + n) / 2.0))
    span = n - s
    lon = (w + e) / 2.0
    return {'lon_center': wrap(lon) if turn else lon, 'lat_center': lat, 'lon_span': e - w, 'lat_span': span}


def jpl(t):
    w, e, s, n = t.T
    return {'lon_bound': np.array([w, w, e, e]).T, 'lat_bound': np.array([n, s, s, n]).T}


def inside(t, lon, lat):
    """cells of each mascon, [mascon, latitude, longitude]"""
    lon = np.asarray(lon) % 360.0
    return np.array([((lat >= s) & (lat < n))[:, None] & ((lon >= w) & (lon < e))[None, :] for w, e, s, n in t])


def spread(t, x, lon, lat):
    out = np.zeros((len(lat), len(lon)))
    for cell, v in zip(inside(t, lon, lat), x):
        out[cell] = v
    return out


def average(t, g, lon, lat):
    """averages with the cosine of the latitude"""
    out = []
    for cell in inside(t, lon, lat):
        w = np.where(cell, np.cos(np.radians(lat))[:, None], 0.0)
        out.append((w * g).sum() / w.sum() if cell.any() else 0.0)
    return np.array(out)


def grids(project, rep):
    rep.rule('grid', 'each cell of the grid has the value of the mascon it is in, and cells of none are zero', floor=10)
    for kind in KINDS:
        t = tiles(kind)
        for step in (5.0, 10.0, 20.0):
            for opt in (None, 'transpose', 'TRANSPOSE'):
                for turn in (False, True):
                    def ref(L, t=t, step=step, opt=opt):
                        lon = np.arange(-180.0 + step / 2.0, 180.0, step)
                        out = spread(t, L['mscdata'], lon, -np.arange(-90.0 + step / 2.0, 90.0, step))
                        return {'return': out.T if opt else out}
                    num.check(project, rep, 'grid', 'mascons.from_gsfc', lambda r, t=t, step=step, turn=turn: {'mscdata': r.arr(len(t)), 'grid_spacing': step, **gsfc(t, turn)},
                        ref, case={'**' + opt: True} if opt else {}, models=2, label=f'{kind},{step}' + (f',{opt}' if opt else '') + (',west' if turn else ''), fold=True, kwargs_open=False)

                def ref2(L, t=t, step=step, opt=opt):
                    out = spread(t, L['mscdata'], np.arange(step / 2.0, 360.0, step), np.arange(-90.0 + step / 2.0, 90.0, step))
                    return {'return': out.T if opt else out}
                num.check(project, rep, 'grid', 'mascons.from_jpl', lambda r, t=t, step=step: {'mscdata': r.arr(len(t)), 'grid_spacing': step, **jpl(t)},
                    ref2, case={'**' + opt: True} if opt else {}, models=2, label=f'{kind},{step}' + (f',{opt}' if opt else ''), fold=True, kwargs_open=False)


def averages(project, rep):
    rep.rule('average', 'each mascon has the average of its grid points with the cosine of the latitude', floor=10)
    for kind in KINDS:
        t = tiles(kind)
        for step in (5.0, 10.0, 20.0):
            for down in (False, True):
                lat = np.arange(-90.0 + step / 2.0, 90.0, step) * (-1.0 if down else 1.0)
                for turn in (False, True):
                    lon = np.arange(-180.0 + step / 2.0, 180.0, step)

                    def ref(L, t=t, lon=lon, lat=lat):
                        return {'[data]': average(t, L['gdata'], lon, lat), '[lat_center]': L['lat_center']}
                    num.check(project, rep, 'average', 'mascons.to_gsfc', lambda r, t=t, lon=lon, lat=lat, turn=turn: {'gdata': r.arr(len(lat), len(lon)), 'lon': lon, 'lat': lat, **gsfc(t, turn)},
                        ref, models=2, label=f'{kind},{step}' + (',down' if down else '') + (',west' if turn else ''), fold=True, kwargs_open=False)
                lon = np.arange(step / 2.0, 360.0, step)
                for cut, (i, j) in {'': (slice(None), slice(None)), 'north': (lat > 0.0, slice(None)), 'east': (slice(None), lon < 180.0)}.items():
                    y, x = lat[i], lon[j]

                    def ref2(L, t=t, x=x, y=y):
                        some = inside(t, x, y).any(axis=(1, 2))
                        w, e, s, n = t.T
                        cap = (n == 90.0) | (s == -90.0)
                        return {'[data]': average(t, L['gdata'], x, y), '[mask]': ~some, '[lat]': np.where(n == 90.0, 90.0, np.where(s == -90.0, -90.0, (s + n) / 2.0)),
                            '[lon]': np.where(cap, 0.0, (w + e) / 2.0)}
                    num.check(project, rep, 'average', 'mascons.to_jpl', lambda r, t=t, x=x, y=y: {'gdata': r.arr(len(y), len(x)), 'lon': x, 'lat': y, **jpl(t)},
                        ref2, models=2, label=f'{kind},{step},{cut}' + (',down' if down else ''), fold=True, kwargs_open=False)


# -- land and ocean ------------------------------------------------------------------

HEAD = '''
from gravity_toolkit.spatial import spatial
from gravity_toolkit.ocean_stokes import ocean_stokes, land_stokes, find_isolated_points
import vfs
def ref(v, {args}):
    x = spatial()
    x.data = v
    x.mask = np.zeros(v.shape, dtype=bool)
    x.lat = y0
    x.lon = x0
    {where}
    x.to_netCDF4(f, date=False, varname='{name}', units='1', longname='mask')
    return {call}
'''


def surface(r, n, m):
    v = r.r.integers(0, 5, (n, m)).astype(float)
    # solid land with separate points in the ocean
    v[1:3, 1:4] = 1.0
    v[0, :3] = (0.0, 1.0, 0.0)
    if r.r.random() < 0.5:
        v[-1] = 1.0
    else:
        v[-2:] = 0.0
        v[-1, 2:4] = v[-2, 3] = v[-1, -1] = 1.0
    return v


def lonely(land):
    """points of land with at most one of their four neighbours"""
    n = len(land)
    up = np.concatenate([land[1:2], land[:-1]])
    down = np.concatenate([land[1:], land[n - 2:n - 1]])
    near = up + down + np.roll(land, 1, axis=1) + np.roll(land, -1, axis=1)
    return (land == 1) & (near <= 1)


def gen(data, lon, lat, LMIN=0, LMAX=60, MMAX=None, UNITS=1, PLM=None, LOVE=None):
    more = [UNITS, LMIN, LMAX, LMAX if MMAX is None else MMAX, *([] if LOVE is None else LOVE)]
    return SimpleNamespace(clm=np.concatenate([np.ravel(data), np.shape(data), np.ravel(lon), np.ravel(lat), np.array(more, dtype=float)]))


def regions(project, rep):
    rep.rule('regions', 'the harmonics of a region are those of the points of its mask', floor=8)
    for name in ('ocean_stokes', 'land_stokes'):
        f = project.require(f'ocean_stokes.{name}')
        rep.unit(f.short)
        for opts, mmax, simple, var in (('', None, False, 'LSMASK'), (', MMAX=3', 3, False, 'LSMASK'), (', MMAX=0', 0, False, 'LSMASK'), (', SIMPLIFY=True', None, True, 'LSMASK'),
                (", VARNAME='mask'", None, False, 'mask'), (', LOVE=love', None, False, 'LSMASK')):
            for n, m in ((5, 8), (7, 6)):
                def ref(L, name=name, mmax=mmax, simple=simple, opts=opts):
                    land = np.isin(L['v'], (1, 2, 3)).astype(float)
                    if simple:
                        land = land - lonely(land)
                    return {'.clm': gen((land if name == 'land_stokes' else 1.0 - land).T, L['x0'], L['y0'], 0, 4, mmax, 1, None, L['love'] if 'LOVE' in opts else None).clm}
                body = HEAD.format(args='x0, y0, love', where="f = vfs.folder({}).joinpath('mask.nc')", name=var,
                    call=f'{name}(f, 4{opts})')
                num.check(project, rep, 'regions', f.short, lambda r, n=n, m=m: {'v': surface(r, n, m), 'x0': np.linspace(0.5, 359.5, m), 'y0': np.linspace(-89.5, 89.5, n), 'love': r.arr(3)},
                    ref, func=spec.ref_func(project, body), opaque={'gen_stokes.gen_stokes': gen}, stand=store.stands(project), depth=9, budget=2000000, kwargs_open=False, models=3,
                    where=f'{f.module.rel}:{f.node.lineno}', tag=f'{f.short}[{n}{opts}]', ranks={'v': 2, 'x0': 1, 'y0': 1, 'love': 1})
    num.check(project, rep, 'regions', 'ocean_stokes.find_isolated_points', lambda r: {'mask': np.isin(surface(r, 6, 7), (1, 2)).astype(float)},
        lambda L: {'return': lonely(L['mask']).astype(float)}, models=8)


# -- regular grids -------------------------------------------------------------------

def start(lon, data, lon0):
    """columns from the base longitude of the turn before"""
    lon = np.asarray(lon)
    more = abs(lon[-1] - lon[0] - 360.0) <= 1e-4
    base = lon[np.argmin(np.abs(lon - lon0))]
    order = [i for i in range(len(lon)) if lon[i] >= base] + [i for i in range(int(more), len(lon)) if lon[i] < base + (lon[1] - lon[0]) / 2.0 * int(more)]
    if more and base == lon[0]:
        order = list(range(len(lon)))
    return np.array([lon[i] - 360.0 if k < sum(lon >= base) else lon[i] for k, i in enumerate(order)]), np.asarray(data)[:, order]


def shifts(project, rep):
    rep.rule('shift', 'a shifted grid begins at the base longitude and each column keeps its longitude', floor=4)
    whole, cyclic, turned = np.arange(0.5, 360.0, 40.0), np.arange(0.0, 361.0, 45.0), np.arange(-180.0, 180.0, 30.0)
    for name, lon, bases in (('centers', whole, (180.0, 200.5, 40.5, 320.5, 0.5, 10.0, 359.0)), ('cyclic', cyclic, (180.0, 90.0, 45.0, 315.0, 0.0, 360.0, 170.0)), ('west', turned, (0.0, 120.0, -180.0, 150.0))):
        for lon0 in bases:
            def ref(L, lon=lon, lon0=lon0):
                x, d = start(lon, L['data'], lon0)
                return {'#0': d, '#1': x}
            num.check(project, rep, 'shift', 'tools.shift_grid', lambda r, lon=lon, lon0=lon0: {'data': r.arr(3, len(lon)), 'lon': lon, 'lon0': lon0}, ref, models=2, label=f'{name},{lon0:g}', fold=True, defaults=True)


def nearest(L):
    i = [int(np.argmin(np.abs(L['yin'] - y))) for y in np.ravel(L['yout'])]
    j = [int(np.argmin(np.abs(L['xin'] - x))) for x in np.ravel(L['xout'])]
    return L['data'][i, j].reshape(np.shape(L['xout']))


def places(r, x, *shape):
    """coordinates in and outside of a regular axis, away from the middle of its cells"""
    step = x[1] - x[0]
    return x[0] + step * (r.r.integers(-3, len(x) + 3, shape) + r.r.uniform(-0.4, 0.4, shape))


def nearests(project, rep):
    rep.rule('nearest', 'each place has the value of the nearest point of the grid', floor=2)
    for name, x, y in (('up', np.linspace(0.5, 359.5, 7), np.linspace(-89.5, 89.5, 5)), ('down', np.linspace(-180.0, 180.0, 9), np.linspace(90.0, -90.0, 6))):
        for shape in ((6,), (3, 4)):
            for opts in ({}, {'order': 0}):
                num.check(project, rep, 'nearest', 'tools.interp_grid', lambda r, x=x, y=y, shape=shape: {'data': r.arr(len(y), len(x)), 'xin': x, 'yin': y, 'xout': places(r, x, *shape), 'yout': places(r, y, *shape)},
                    lambda L: {'return': nearest(L)}, case=opts, models=4, label=f'{name},{len(shape)}', defaults=True)


def spline(L, order):
    return RectBivariateSpline(L['xin'], L['yin'], L['data'].T, kx=order, ky=order).ev(L['xout'], L['yout'])


SPLINE = {'scipy.interpolate.RectBivariateSpline': lambda m, a, kw: RectBivariateSpline(*a, **kw), '.ev': lambda m, a, kw: a[0].ev(*a[1:], **kw)}


def splines(project, rep):
    rep.rule('spline', 'interpolation of higher order is the spline through the grid', floor=1)
    x, y = np.linspace(0.5, 359.5, 8), np.linspace(-89.5, 89.5, 6)
    for order in (1, 2, 3):
        num.check(project, rep, 'spline', 'tools.interp_grid', lambda r: {'data': r.arr(6, 8), 'xin': x, 'yin': y, 'xout': places(r, x, 3, 4), 'yout': places(r, y, 3, 4)},
            lambda L, order=order: {'return': spline(L, order)}, case={'order': order}, models=2, label=str(order), funcs=SPLINE)


def wraps(project, rep):
    rep.rule('wrap', 'longitudes are those of the turn from -180 to 180', floor=1)
    for shape in ((7,), (2, 3)):
        num.check(project, rep, 'wrap', 'tools.wrap_longitudes', lambda r, shape=shape: {'lon': r.r.uniform(-720.0, 720.0, shape)}, lambda L: {'return': wrap(L['lon'])}, models=4, label=str(len(shape)))


SURFACE = """
from gravity_toolkit.spatial import spatial
from gravity_toolkit.tools import mask_oceans
def ref(x, y, d, m):
    grid = spatial(fill_value=-9999.0)
    grid.data = d
    grid.mask = m > 1
    return mask_oceans(x, y{args})
"""


def masks(project, rep):
    rep.rule('mask', 'places on land, islands and the chosen lakes and ice shelves are masked', floor=4)
    f = project.require('tools.mask_oceans')
    rep.unit(f.short)
    fixed = SimpleNamespace(r=np.random.default_rng(7))
    x0, y0 = np.linspace(0.5, 359.5, 9), np.linspace(89.5, -89.5, 7)
    # surfaces of each resolution
    cover = {k: surface(fixed, 7, 9) for k in ('qd', 'hd')}
    stand = store.stands(project, {f'landsea_{k}.nc': {'lon': x0.tolist(), 'lat': y0.tolist(), 'LSMASK': v.tolist()} for k, v in cover.items()})
    for opts, kinds, res in (('', (1, 3, 4), 'qd'), (', lakes=True', (1, 2, 3, 4), 'qd'), (', iceshelves=False', (1, 3), 'qd'), (', lakes=True, iceshelves=False', (1, 2, 3), 'qd'), (", resolution='hd'", (1, 3, 4), 'hd'), (', order=0', (1, 3, 4), 'qd')):
        for data in (False, True):
            def ref(L, kinds=kinds, data=data, res=res):
                near = nearest({'data': np.isin(cover[res], kinds), 'xin': x0, 'yin': y0, 'xout': L['x'], 'yout': L['y']})
                if not data:
                    return {'return': near}
                near = near | (L['m'] > 1.0)
                return {'.mask': near, '.data': np.where(near, -9999.0, L['d']), '.fill_value': -9999.0}
            num.check(project, rep, 'mask', f.short, lambda r: {'x': places(r, x0, 4, 5), 'y': places(r, y0, 4, 5), 'd': r.arr(4, 5), 'm': r.arr(4, 5)},
                ref, func=spec.ref_func(project, SURFACE.format(args=(', grid' if data else '') + opts)), stand=stand, depth=9, budget=2000000, kwargs_open=False, models=3,
                where=f'{f.module.rel}:{f.node.lineno}', funcs=SPLINE, tag=f'{f.short}[{"data" if data else ""}{opts}]', ranks={'x': 2, 'y': 2, 'd': 2, 'm': 2})


# -- color tables --------------------------------------------------------------------

PALETTE = """
class Palette(object):
    def __init__(self, name, table, N=256, gamma=1.0):
        self.name = name
        self.table = table
        self.N = N
        self.under = None
        self.over = None
        self.bad = None
    def with_extremes(self, bad=None, under=None, over=None):
        self.under = under
        self.over = over
        self.bad = bad
        return self

def palette(name, table, N=256, gamma=1.0):
    return Palette(name, table, N, gamma)
"""


def palette(project):
    made = project.__dict__.setdefault('_palette', {})
    if not made:
        m = Module('palette', '<palette>', '<palette>', ast.parse(PALETTE), PALETTE)
        project._bind(m)
        made['matplotlib.colors.LinearSegmentedColormap'] = next(f for f in m.functions if f.name == 'palette')
    return made


HSV = {'colorsys.hsv_to_rgb': lambda m, a, kw: colorsys.hsv_to_rgb(*[float(x) for x in a]), 'colorsys.rgb_to_hsv': lambda m, a, kw: colorsys.rgb_to_hsv(*[float(x) for x in a])}


READ = '(p.table["red"], p.table["green"], p.table["blue"], p.name, p.N, p.under, p.over, p.bad)'


def tables(project, rep):
    rep.rule('colors', 'a color table has the colors of the file at its relative levels', floor=4)
    stand = palette(project)
    for model in (None, 'RGB', 'HSV'):
        for n in (1, 2, 5):
            for flags, opts in (('', ''), ('BFN', ''), ('NB', ''), ('BFN', ', use_extremes=False'), ('F', ', N=12')):
                t = p14.Text('{:.17E}')
                t.add('# table of colors')
                if model:
                    t.add(f'# COLOR_MODEL = {model}')
                rows = [t.add('@\t@\t@\t@\t@\t@\t@\t@') for i in range(n)]
                ends = {k: t.add(f'{k}\t@\t@\t@') for k in flags}

                def ref(v, L, rows=rows, ends=ends, model=model, opts=opts):
                    def color(c):
                        c = [float(x) for x in c]
                        return colorsys.hsv_to_rgb(c[0] / 360.0, c[1], c[2]) if model == 'HSV' else tuple(x / 255.0 for x in c)
                    rows = np.array([[v[i] for i in r] for r in rows])
                    level = np.append(rows[:, 0], rows[-1, 4])
                    rgb = np.array([color(c) for c in rows[:, 1:4]] + [color(rows[-1, 5:8])])
                    level = (level - level[0]) / (level[-1] - level[0])
                    out = {f'#{i}': np.array([level, rgb[:, i], rgb[:, i]]).T for i in range(3)}
                    out['#3'] = 'table'
                    out['#4'] = 12 if 'N' in opts else 256
                    for i, key in enumerate('BFN'):
                        out[f'#{5 + i}'] = np.array(color([v[i] for i in ends[key]])) if key in ends and 'False' not in opts else None
                    return out
                p14.case(project, rep, 'colors', 'tools.from_cpt', f'{model},{n},{flags}{opts}', t, '[' + READ + f' for p in [from_cpt(f{opts})]][0]', ref, 'table.cpt', stand=stand, funcs=HSV)


def run(project, rep):
    grids(project, rep)
    averages(project, rep)
    regions(project, rep)
    shifts(project, rep)
    nearests(project, rep)
    splines(project, rep)
    wraps(project, rep)
    masks(project, rep)
    tables(project, rep)
