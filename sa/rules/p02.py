"""Synthesis and analysis equal their defining sums."""
import numpy as np
from .. import effects, num, values as V
from . import p25

G, GM, A, F, GW, OM = 6.67430e-8, 3986004.418e14 - 3.5e14, 6.378137e8, 1.0 / 298.257223563, 980.665, 7.292115e-5
RE = A * (1.0 - F)**(1.0 / 3.0)
RHO = 0.75 * GM / (G * np.pi * RE**3)
BASIS = 'associated_legendre.plm_holmes'


def plm(LMAX, x, MMAX=None, astype=None):
    """some basis functions of degree l and order m, zero above the diagonal, and their derivatives"""
    x = np.atleast_1d(x)
    M = LMAX if MMAX is None else MMAX
    l, m = np.meshgrid(np.arange(int(LMAX) + 1), np.arange(int(M) + 1), indexing='ij')
    p = np.cos(1.3 * l[:, :, None] + 0.7 * m[:, :, None] + 2.0 * x) + 0.1 * l[:, :, None]
    d = np.sin(0.3 * l[:, :, None] - m[:, :, None] + x)
    keep = (m <= l)[:, :, None]
    return p * keep, d * keep


def gauss(hw, LMAX, CUTOFF=1e-10):
    return 0.3 / (1.0 + 0.001 * hw * np.arange(int(LMAX) + 1))


def field(extra=0, lmax=4, mmax=None, third=0, **more):
    """coefficients, coordinates and load Love numbers"""
    def leaves(r):
        n, m = lmax + 1 + extra, (lmax if mmax is None else mmax) + 1 + extra
        keep = np.tri(n, n)[:, :m]
        nlat, nlon = 5, 6 + r.seed % 2
        L = {'clm1': r.arr(n, m) * keep, 'slm1': r.arr(n, m) * keep * (np.arange(m) > 0), 'lon': np.linspace(0.0, 360.0, nlon),
            'lat': np.linspace(85.0, -80.0, nlat) + r.num(), 'LMAX': lmax, 'hl': r.arr(lmax + 3), 'kl': 0.1 * r.arr(lmax + 3), 'll': r.arr(lmax + 3)}
        if mmax is not None:
            L['MMAX'] = mmax
        for k, v in more.items():
            L[k] = v(r, L) if callable(v) else v
        return L
    return leaves


def table(L, m=None):
    x = np.cos((90.0 - L['lat']) * np.pi / 180.0)
    return L['PLM'] if L.get('PLM') is not None else plm(L['LMAX'], x)[0]


def synthesis(L, c=None, s=None, lmin=0):
    lmax = L['LMAX'] or L['clm1'].shape[0] - 1
    mmax = L.get('MMAX', lmax)
    P = table({**L, 'LMAX': lmax})
    c, s = (L['clm1'] if c is None else c), (L['slm1'] if s is None else s)
    phi = np.radians(np.squeeze(L['lon']))
    out = np.zeros((len(phi), len(L['lat'])))
    for l in range(L.get('LMIN', lmin), lmax + 1):
        for m in range(mmax + 1):
            out += (c[l, m] * np.cos(m * phi) + s[l, m] * np.sin(m * phi))[:, None] * P[l, m][None, :]
    return out


def harmonic_factor(name, hl, kl, ll, n):
    l = np.arange(n)
    f = 1.0 + kl[l]
    cmwe = RHO * RE * (2 * l + 1) / (3.0 * f)
    return {'norm': np.ones(n), 'cmwe': cmwe, 'mmwe': 10 * cmwe, 'mmGH': 10 * RE * np.ones(n), 'mmCU': 10 * RE * hl[l] / f,
        'mmCH': 10 * RE * ll[l] / f, 'cmVCU': RE * (2 * l + 1) / 2.0, 'mVCU': RE * (2 * l + 1) / 200.0, 'microGal': 1e6 * GM * (l + 1) / RE**2,
        'mbar': GW * cmwe / 1000.0, 'Pa': GW * cmwe / 10.0}[name]


CODES = ['norm', 'cmwe', 'mmGH', 'mmCU', 'microGal', 'mbar', 'cmVCU']


def stokes(L):
    n = L['LMAX'] + 1
    w = 2.0 * np.pi * gauss(L['RAD'], L['LMAX']) if L.get('RAD') else np.ones(n)
    u = L.get('UNITS', 0)
    d = np.asarray(u) if isinstance(u, (list, np.ndarray)) else harmonic_factor(u if isinstance(u, str) else CODES[u], L['hl'], L['kl'], L['ll'], n)
    k = (w * d)[:, None]
    return {'return': synthesis(L, L['clm1'][:n] * k, L['slm1'][:n] * k), '@clm1': L['clm1'], '@slm1': L['slm1'], '@lon': L['lon'], '@lat': L['lat']}


def load_factor(kl, n):
    l = np.arange(n)
    return 3.0 * (1.0 + kl[l]) / ((2 * l + 1) * 4.0 * np.pi * RE * RHO)


def grid(orient='lonlat', neg=False, mmax=None, **more):
    def leaves(r):
        L = field(0, 4, mmax, **more)(r)
        for k in ('clm1', 'slm1'):
            L.pop(k)
        nlon, nlat = 7, 5
        L['lon'] = (np.arange(nlon) * 50.0 + 3.0) - ((180.0, 20.0, 340.0)[r.seed % 3] if neg else 0.0)
        L['lat'] = (80.0 - np.arange(nlat) * 33.0 - r.num()) * (-1.0)**(r.seed // 2)
        L['data'] = r.arr(nlon, nlat) if orient == 'lonlat' else r.arr(nlat, nlon)
        for k, v in more.items():
            L[k] = v(r, L) if callable(v) else v
        return L
    return leaves


def analysis(L, weight, factor, lmin=0):
    """sum of the field times basis functions times an area weight per latitude"""
    n, mmax = L['LMAX'] + 1, L.get('MMAX', L['LMAX'])
    d = L['data'] if L['data'].shape[0] == len(L['lon']) else L['data'].T
    phi, th = np.radians(L['lon']), np.radians(90.0 - L['lat'])
    P = table(L)
    c, s = np.zeros((n, mmax + 1)), np.zeros((n, mmax + 1))
    w = weight(th, abs(np.radians(L['lon'][1] - L['lon'][0])), abs(np.radians(L['lat'][1] - L['lat'][0])))
    for l in range(lmin, n):
        for m in range(min(l, mmax) + 1):
            c[l, m] = factor[l] * np.sum(d * np.cos(m * phi)[:, None] * (P[l, m] * w)[None, :])
            s[l, m] = factor[l] * np.sum(d * np.sin(m * phi)[:, None] * (P[l, m] * w)[None, :])
    return {'.clm': c, '.slm': s, '.lmax': n - 1, '.mmax': mmax, '@data': L['data'], '@lon': L['lon'], '@lat': L['lat']}


def area(th, dphi, dth):
    return np.sin(th) * dphi * dth


def gen_stokes(L):
    u, n = L.get('UNITS', 1), L['LMAX'] + 1
    f = load_factor(L['kl'], n)
    if isinstance(u, (list, np.ndarray)):
        f, w = np.asarray(u), area
    elif u == 2:
        w = lambda th, a, b: np.full(len(th), 1e15 / RE**2)  # noqa: E731
    else:
        f, w = (f if u == 1 else f / 10.0), area
    return analysis(L, w, f, L.get('LMIN', 0))


def gen_harmonics(L):
    return analysis(L, area, np.full(L['LMAX'] + 1, 1.0 / (4.0 * np.pi)))


def points(r, L):
    return r.arr(5)


def legendre(l, x, NORMALIZE=False):
    l, x = int(l), np.atleast_1d(x)
    return (plm(l, x)[0][l, :l + 1] + (0.0 if NORMALIZE else 5.0))


def point_load(L):
    n, mmax = L['LMAX'] + 1, L.get('MMAX', L['LMAX'])
    u = L.get('UNITS', 1)
    f = np.asarray(u) if isinstance(u, (list, np.ndarray)) else load_factor(L['kl'], n) / RE**2
    w = 1e15 if isinstance(u, int) and u == 2 else 1.0
    d, phi, th = L['data'].ravel() * w, np.radians(L['lon'].ravel()), np.radians(90.0 - L['lat'].ravel())
    c, s = np.zeros((n, mmax + 1)), np.zeros((n, mmax + 1))
    for l in range(n):
        P = legendre(l, np.cos(th), True)
        for m in range(min(l, mmax) + 1):
            c[l, m] = f[l] * np.sum(d * P[m] * np.cos(m * phi))
            s[l, m] = f[l] * np.sum(d * P[m] * np.sin(m * phi))
    return {'.clm': c, '.slm': s, '.lmax': n - 1, '.mmax': mmax, '@data': L['data'], '@lon': L['lon'], '@lat': L['lat']}


def polynomials(lmax, x, ASTYPE=None):
    x = np.atleast_1d(x)
    l = np.arange(int(lmax) + 1)[:, None]
    return np.cos(0.9 * l + x) + 0.2 * l, np.sin(l + x)


def cap(L, alpha=None, cosine=None, unit=None):
    """coefficients of a uniform disc or spherical cap centred on one point"""
    n, mmax = L['LMAX'] + 1, L.get('MMAX', L['LMAX'])
    u = L.get('UNITS')
    x = np.cos(alpha) if cosine is None else cosine
    l = np.arange(n)
    f = np.asarray(u) if isinstance(u, (list, np.ndarray)) else 4.0 * np.pi * load_factor(L['kl'], n) / (1.0 + 2.0 * l)
    pl = polynomials(n, x)[0][:, 0]
    pa = np.zeros(n)
    pa[0] = (1.0 - x) / 2.0
    for k in range(1, n):
        pa[k] = (pl[k - 1] / np.sqrt(2.0 * k - 1.0) - pl[k + 1] / np.sqrt(2.0 * k + 3.0)) / 2.0
    P = L['PLM'] if L.get('PLM') is not None else plm(n - 1, np.cos(np.radians(90.0 - L['lat'])))[0][:, :, 0]
    c, s = np.zeros((n, mmax + 1)), np.zeros((n, mmax + 1))
    for m in range(mmax + 1):
        for k in range(m, n):
            v = f[k] * unit * L['data'] * P[k, m] * pa[k]
            c[k, m], s[k, m] = v * np.cos(m * np.radians(L['lon'])), v * np.sin(m * np.radians(L['lon']))
    return {'.clm': c, '.slm': s, '.lmax': n - 1, '.mmax': mmax}


def single(mmax=None, **more):
    def leaves(r):
        L = field(0, 4, mmax)(r)
        for k in ('clm1', 'slm1'):
            L.pop(k)
        L.update({'lon': 40.0 * r.num(), 'lat': 30.0 * r.num(), 'data': r.num()})
        for k, v in more.items():
            L[k] = v(r, L) if callable(v) else v
        return L
    return leaves


def disc(L):
    u = L.get('UNITS', 2)
    a = 1e10 * L['area']
    unit = 1.0 if isinstance(u, (list, np.ndarray)) or u == 1 else 1e15 / a if u == 2 else 0.1
    return cap({**L, 'UNITS': u}, cosine=1.0 - a / (2.0 * np.pi * RE**2), unit=unit)


def spherical_cap(L):
    u = L.get('UNITS', 1)
    if L.get('RAD_CAP'):
        alpha = np.radians(L['RAD_CAP'])
    elif L.get('AREA'):
        alpha = np.sqrt(L['AREA'] / np.pi) / RE
    else:
        alpha = 1e5 * L['RAD_KM'] / RE
    unit = 1.0 if isinstance(u, (list, np.ndarray)) or u == 1 else 1e15 / (np.pi * (alpha * RE)**2) if u == 2 else 0.1
    return cap({**L, 'UNITS': u}, alpha=alpha, unit=unit)


def basis_series(LMAX, MMAX=None):
    """some Fourier series of the gradients of the basis functions"""
    n = int(LMAX) + 1
    l, m, k = np.meshgrid(np.arange(n), np.arange(n), np.arange(n), indexing='ij')
    return np.cos(1.1 * l + 0.4 * m - 0.3 * k), np.sin(0.6 * l - 0.2 * m + 0.9 * k)


def gradients(L):
    lmax = L['LMAX'] or L['clm1'].shape[0] - 1
    mmax = L.get('MMAX', lmax)
    v, w = basis_series(lmax)
    phi, th = np.radians(L['lon']), np.radians(90.0 - L['lat'])
    out = np.zeros((len(phi), len(th), 2))
    for m in range(mmax + 1):
        trig = np.sin if m % 2 == 0 else np.cos
        base = np.array([trig(n * th) for n in range(lmax + 1)])
        for l in range(L.get('LMIN', 0), lmax + 1):
            k = np.sqrt(l * (l + 1.0))
            c, s = L['clm1'][l, m] * k, L['slm1'][l, m] * k
            out[:, :, 0] += (s * np.cos(m * phi) - c * np.sin(m * phi))[:, None] * (w[l, m] @ base)
            out[:, :, 1] += (c * np.cos(m * phi) + s * np.sin(m * phi))[:, None] * (v[l, m] @ base)
    return {'return': out, '@clm1': L['clm1'], '@slm1': L['slm1'], '@lon': L['lon'], '@lat': L['lat']}


def currents(L):
    """Wahr et al. (2002), equations for the geostrophic velocities of the two directions"""
    lmax = L['LMAX']
    mmax, kl, lmin = L.get('MMAX', lmax), L['kl'], L.get('LMIN', 0)
    w = 2.0 * np.pi * gauss(L['RAD'], lmax) if L.get('RAD') else np.ones(lmax + 1)
    coeff = GW * RHO / (6.0 * OM * L.get('DENSITY', 1.035))
    c, s = np.zeros((lmax + 1, mmax + 1, 2)), np.zeros((lmax + 1, mmax + 1, 2))
    for l in range(lmin, lmax + 1):
        for m in range(min(l, mmax) + 1):
            for out, a in ((c, L['clm1']), (s, L['slm1'])):
                if 1 <= l < lmax:
                    low = (l - 1.0) / (1.0 + kl[l - 1]) * np.sqrt((l**2 - m**2) * (2.0 * l - 1.0) / (2.0 * l + 1.0)) * a[l - 1, m]
                    high = (l + 2.0) / (1.0 + kl[l + 1]) * np.sqrt(((l + 1.0)**2 - m**2) * (2.0 * l + 3.0) / (2.0 * l + 1.0)) * a[l + 1, m]
                    out[l, m, 0] = coeff * w[l] * (low - high)
            t = coeff * w[l] * m * (2.0 * l + 1.0) / (1.0 + kl[l])
            c[l, m, 1], s[l, m, 1] = -t * L['slm1'][l, m], t * L['clm1'][l, m]
    th = np.radians(90.0 - L['lat'])
    k = 1.0 / (np.cos(th) * np.sin(th))
    return {'return': np.dstack([synthesis({**L, 'LMIN': 0}, c[:, :, d], s[:, :, d]) * k for d in range(2)]),
        '@clm1': L['clm1'], '@slm1': L['slm1'], '@lon': L['lon'], '@lat': L['lat']}


def scattered(L):
    """synthesis at separate points"""
    n = L['LMAX'] + 1
    w = 2.0 * np.pi * gauss(L['RAD'], L['LMAX']) if L.get('RAD') else np.ones(n)
    u = L.get('UNITS', 0)
    d = np.asarray(u) if isinstance(u, (list, np.ndarray)) else harmonic_factor(u if isinstance(u, str) else CODES[u], L['hl'], L['kl'], L['ll'], n)
    k = (w * d)[:, None]
    phi = np.arange(n)[:, None] * np.radians(L['lon'])[None, :]
    p = p25.functions(n - 1, np.cos(np.radians(90.0 - L['lat'])))[0]
    out = np.einsum('lm,lmi,mi->i', L['clm'][:n, :n] * k, p, np.cos(phi)) + np.einsum('lm,lmi,mi->i', L['slm'][:n, :n] * k, p, np.sin(phi))
    return {'return': out, '@clm': L['clm'], '@slm': L['slm'], '@lon': L['lon'], '@lat': L['lat']}


def points_of(n=5, extra=0, **more):
    def leaves(r):
        k = n + 1 + extra
        L = {'clm': r.arr(k, k) * np.tri(k), 'slm': r.arr(k, k) * np.tri(k, k, 0) * (np.arange(k) > 0), 'lon': 200.0 * r.arr(4), 'lat': 50.0 * (r.arr(4) - 1.0),
            'LMAX': n, 'hl': r.arr(n + 2), 'kl': 0.1 * r.arr(n + 2), 'll': r.arr(n + 2)}
        for q, v in more.items():
            L[q] = v(r, L) if callable(v) else v
        return L
    return leaves


MODULES = ('harmonic_summation', 'harmonic_gradients', 'clenshaw_summation', 'gen_harmonics', 'gen_stokes', 'gen_point_load', 'gen_disc_load',
    'gen_spherical_cap', 'gen_averaging_kernel', 'degree_amplitude', 'fourier_legendre')


def run(project, rep):
    rep.rule('synthesis', 'the evaluated field is the sum over degrees and orders of basis function times cosine and sine '
        'coefficients, with the requested degrees, smoothing and units', floor=30)
    rep.rule('analysis', 'each coefficient is the sum of the field times basis function and area weight, with the requested '
        'degrees, units and grid orientation', floor=40)
    rep.rule('load', 'each coefficient of a point, disc or cap load is its closed form', floor=40)
    rep.rule('unchanged', 'no statement reached from a synthesis or analysis function changes the storage of its arguments', floor=30)
    effects.unchanged(project, rep, [f for f in project.all_functions(scripts=False) if effects.public(f) and f.module.name.rsplit('.', 1)[-1] in MODULES])
    rep.rule('spectrum', 'degree amplitudes are the root sum of squares over orders of both coefficient families', floor=3)
    basis = {BASIS: plm}
    smooth = {**basis, 'gauss_weights.gauss_weights': gauss}
    love = {'LOVE': V.mk('tuple', (V.sym('hl'), V.sym('kl'), V.sym('ll')))}
    given = lambda r, L: plm(L['LMAX'], np.cos(np.radians(90.0 - L['lat'])))[0] + 0.5  # noqa: E731
    cut = lambda r, L: (plm(L['LMAX'], np.cos(np.radians(90.0 - L['lat'])))[0] + 0.5)[:, :L['MMAX'] + 1]  # noqa: E731
    keep = lambda L: {'return': synthesis(L), '@clm1': L['clm1'], '@slm1': L['slm1'], '@lon': L['lon'], '@lat': L['lat']}  # noqa: E731
    lf = num.leaf
    base = {k: lf(k) for k in ('clm1', 'slm1', 'lon', 'lat')}

    def cases(*names):
        return {**base, **{k: lf(k) for k in names}}

    for q in ('harmonic_summation', 'harmonic_transform'):
        f = 'harmonic_summation.' + q
        chk = lambda leaves, names, label, **kw: num.check(project, rep, 'synthesis', f, leaves, keep, case=cases(*names), label=label,  # noqa: E731
            defaults=True, opaque=basis, **kw)
        chk(field(), ['LMAX'], 'degrees')
        chk(field(2, LMIN=2), ['LMAX', 'LMIN'], 'minimum degree')
        chk(field(1, mmax=2), ['LMAX', 'MMAX'], 'maximum order')
        chk(field(0, PLM=given), ['LMAX', 'PLM'], 'given basis')
        chk(field(1, mmax=2, PLM=given, LMIN=1), ['LMAX', 'MMAX', 'PLM', 'LMIN'], 'given basis, maximum order')
        chk(field(0, LMAX=0, PLM=lambda r, L: plm(4, np.cos(np.radians(90.0 - L['lat'])))[0]), ['LMAX', 'PLM'], 'all degrees')
    f = 'harmonic_summation.stokes_summation'
    unit = lambda r, L: list(r.arr(5))  # noqa: E731
    for label, more in (('defaults', {}), ('smoothed', {'RAD': 300}), ('list', {'UNITS': unit}), ('array', {'UNITS': lambda r, L: r.arr(5)}),
            ('given basis', {'PLM': given, 'RAD': 250}), ('LMIN', {'LMIN': 2, 'UNITS': 1}), *((u, {'UNITS': u}) for u in
            ('cmwe', 'mmGH', 'mmCU', 'mmCH', 'microGal', 'mbar', 'cmVCU', 'Pa')), *((f'code {i}', {'UNITS': i}) for i in range(7))):
        fixed = {k: v for k, v in more.items() if k == 'UNITS' and not callable(v)}
        names = [k for k in more if k not in fixed]
        case = {**cases('LMAX', *names), **love, **fixed}
        if label in ('list', 'array'):
            case['UNITS'] = lf('UNITS')
        num.check(project, rep, 'synthesis', f, field(1, **more), stokes, case=case, label=label, defaults=True, opaque=smooth)
    num.check(project, rep, 'synthesis', f, field(1, mmax=3, UNITS=1, RAD=200), stokes, case={**cases('LMAX', 'MMAX', 'RAD'), **love, 'UNITS': 1},
        label='maximum order', defaults=True, opaque=smooth)
    # Clenshaw summation
    f, memo = 'clenshaw_summation.clenshaw_summation', {}
    only = {'gauss_weights.gauss_weights': gauss}
    many = lambda r, L: r.arr(L['LMAX'] + 1)  # noqa: E731
    for label, leaves, case in (('defaults', points_of(), {}), *((f'degree {n}', points_of(n, UNITS=many), {'UNITS': lf('UNITS')}) for n in (1, 2, 3, 8)),
            ('larger matrix', points_of(4, 2, UNITS=many), {'UNITS': lf('UNITS')}), ('list', points_of(4, UNITS=lambda r, L: list(r.arr(5))), {'UNITS': lf('UNITS')}),
            ('smoothed', points_of(4, RAD=300), {'RAD': lf('RAD')}), *((u, points_of(4, UNITS=u), {'UNITS': u}) for u in ('cmwe', 'mmGH', 'mmCU', 'microGal', 'mbar', 'cmVCU')),
            *((f'code {i}', points_of(3, UNITS=i), {'UNITS': i}) for i in range(7))):
        num.check(project, rep, 'synthesis', f, leaves, scattered, case={**{k: lf(k) for k in ('clm', 'slm', 'lon', 'lat', 'LMAX')}, **love, **case}, label=label,
            defaults=True, opaque=only)
    # gradients and currents
    f = 'harmonic_gradients.harmonic_gradients'
    series = {'fourier_legendre.legendre_gradient': basis_series}
    for label, leaves, case in (('degrees', field(), {}), ('minimum degree', field(1, LMIN=2), {'LMIN': lf('LMIN')}), ('all degrees', field(0, LMAX=0), {}),
            ('maximum order', field(1, mmax=2), {'MMAX': lf('MMAX')}), ('odd maximum order', field(1, mmax=3), {'MMAX': lf('MMAX')}), ('odd degree', field(1, lmax=5), {})):
        num.check(project, rep, 'synthesis', f, leaves, gradients, case={**cases('LMAX'), **case}, label=label, defaults=True, opaque=series)
    f = 'harmonic_gradients.geostrophic_currents'
    record = num.inst(project, 'read_love_numbers.love_numbers', 'LOVE')
    lcase = {'LOVE': record}
    deep = lambda fn: lambda r: (lambda L: {**{k: v for k, v in L.items() if k not in ('hl', 'kl', 'll')}, **{f'LOVE.{k}': L[k] for k in ('hl', 'kl', 'll')}})(fn(r))  # noqa: E731
    flow = lambda L: currents({**L, **{k: L['LOVE.' + k] for k in ('hl', 'kl', 'll')}})  # noqa: E731
    for label, leaves, case in (('degrees', field(), {}), ('minimum degree', field(1, LMIN=2), {'LMIN': lf('LMIN')}), ('maximum order', field(1, mmax=2), {'MMAX': lf('MMAX')}),
            ('smoothed', field(0, RAD=300), {'RAD': lf('RAD')}), ('density', field(0, DENSITY=1.1), {'DENSITY': lf('DENSITY')}), ('given basis', field(0, PLM=given), {'PLM': lf('PLM')})):
        num.check(project, rep, 'synthesis', f, deep(leaves), flow, case={**cases('LMAX'), **lcase, **case}, label=label, defaults=True, opaque=smooth,
            assume=[V.b_not(V.cmp('==', V.sym('RAD'), V.ZERO))] if label == 'smoothed' else ())
    # analysis of grids
    gb = {k: lf(k) for k in ('data', 'lon', 'lat', 'LMAX')}
    f = 'gen_stokes.gen_stokes'
    for label, leaves, case in (('defaults', grid(), {}), ('transposed', grid('latlon'), {}), ('negative longitudes', grid(neg=True), {}),
            ('minimum degree', grid(LMIN=2), {'LMIN': lf('LMIN')}), ('maximum order', grid(mmax=2), {'MMAX': lf('MMAX')}),
            ('units 1', grid(UNITS=1), {'UNITS': 1}), ('units 2', grid(UNITS=2), {'UNITS': 2}), ('units 3', grid(UNITS=3), {'UNITS': 3}),
            ('list', grid(UNITS=unit), {'UNITS': lf('UNITS')}), ('given basis', grid(PLM=given), {'PLM': lf('PLM')}),
            ('given basis, maximum order', grid(mmax=2, PLM=given), {'PLM': lf('PLM'), 'MMAX': lf('MMAX')})):
        num.check(project, rep, 'analysis', f, leaves, gen_stokes, case={**gb, **love, **case}, label=label, defaults=True, opaque=basis)
    f = 'gen_harmonics.gen_harmonics'
    gh = {k: lf(k) for k in ('data', 'lon', 'lat')}
    for label, leaves, case in (('integration', grid(), {'**METHOD': 'integration'}), ('default method', grid(), {}), ('transposed', grid('latlon'), {}),
            ('negative longitudes', grid(neg=True), {}), ('maximum order', grid(mmax=2), {'**MMAX': lf('MMAX')}),
            ('given basis', grid(PLM=given), {'**PLM': lf('PLM')})):
        num.check(project, rep, 'analysis', f, leaves, gen_harmonics, case={**gh, '**LMAX': lf('LMAX'), **case}, label=label, defaults=True, opaque=basis)
    # loads
    f = 'gen_point_load.gen_point_load'
    five = {'data': points, 'lon': lambda r, L: 300.0 * r.arr(5), 'lat': lambda r, L: 80.0 * (r.arr(5) - 1.0)}
    plane = {'data': lambda r, L: r.arr(2, 3), 'lon': lambda r, L: 300.0 * r.arr(2, 3), 'lat': lambda r, L: 80.0 * (r.arr(2, 3) - 1.0)}
    oleg = {'legendre.legendre': legendre}
    for label, leaves, case in (('defaults', single(**five), {}), ('grid', single(**plane), {}), ('maximum order', single(mmax=2, **five), {'MMAX': lf('MMAX')}),
            ('units 1', single(UNITS=1, **five), {'UNITS': 1}), ('units 2', single(UNITS=2, **five), {'UNITS': 2}),
            ('list', single(UNITS=unit, **five), {'UNITS': lf('UNITS')})):
        num.check(project, rep, 'load', f, leaves, point_load, case={**gb, **love, **case}, label=label, defaults=True, opaque=oleg)
    opol = {**basis, 'legendre_polynomials.legendre_polynomials': polynomials}
    pgiven = lambda r, L: r.arr(5, 5)  # noqa: E731
    f = 'gen_disc_load.gen_disc_load'
    ar = {'area': lambda r, L: 1e4 * r.num()}
    for label, leaves, case in (('defaults', single(**ar), {}), ('maximum order', single(mmax=2, **ar), {'MMAX': lf('MMAX')}), ('units 1', single(UNITS=1, **ar), {'UNITS': 1}),
            ('units 2', single(UNITS=2, **ar), {'UNITS': 2}), ('units 3', single(UNITS=3, **ar), {'UNITS': 3}), ('list', single(UNITS=unit, **ar), {'UNITS': lf('UNITS')}),
            ('given basis', single(PLM=pgiven, **ar), {'PLM': lf('PLM')})):
        num.check(project, rep, 'load', f, leaves, disc, case={**gb, **love, 'area': lf('area'), **case}, label=label, defaults=True, opaque=opol)
    f = 'gen_spherical_cap.gen_spherical_cap'
    for size, v in (('RAD_CAP', lambda r, L: 2.0 * r.num()), ('AREA', lambda r, L: 1e15 * r.num()), ('RAD_KM', lambda r, L: 100.0 * r.num())):
        for label, leaves, case in (('defaults', single(**{size: v}), {}), ('units 1', single(UNITS=1, **{size: v}), {'UNITS': 1}), ('units 2', single(UNITS=2, **{size: v}), {'UNITS': 2}),
                ('units 3', single(UNITS=3, **{size: v}), {'UNITS': 3}), ('list', single(UNITS=unit, **{size: v}), {'UNITS': lf('UNITS')}),
                ('maximum order', single(mmax=2, **{size: v}), {'MMAX': lf('MMAX')}), ('given basis', single(PLM=pgiven, **{size: v}), {'PLM': lf('PLM')})):
            num.check(project, rep, 'load', f, leaves, spherical_cap, case={**gb, **love, size: lf(size), **case}, label=f'{size}, {label}', defaults=True, opaque=opol,
                assume=[V.b_not(V.cmp('==', V.sym(size), V.ZERO))])
    # degree amplitudes
    f = 'degree_amplitude.degree_amplitude'
    amp = lambda L: {'return': np.sqrt(np.sum(L['clm'][:L.get('LMAX', 4) + 1, :L.get('MMAX', 3) + 1]**2 + L['slm'][:L.get('LMAX', 4) + 1, :L.get('MMAX', 3) + 1]**2, axis=1))}  # noqa: E731
    for label, leaves, case in (('2-D', lambda r: {'clm': r.arr(5, 4), 'slm': r.arr(5, 4)}, {}), ('3-D', lambda r: {'clm': r.arr(5, 4, 3), 'slm': r.arr(5, 4, 3)}, {}),
            ('truncated', lambda r: {'clm': r.arr(5, 4, 3), 'slm': r.arr(5, 4, 3), 'LMAX': 3, 'MMAX': 2}, {'LMAX': lf('LMAX'), 'MMAX': lf('MMAX')})):
        num.check(project, rep, 'spectrum', f, leaves, amp, case={'clm': lf('clm'), 'slm': lf('slm'), **case}, label=label, defaults=True)
