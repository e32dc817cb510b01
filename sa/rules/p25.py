"""Legendre functions, their derivatives and Fourier series equal their closed forms."""
import math
import numpy as np
from numpy.polynomial import legendre as poly
from .. import effects, num, values as V

MODULES = ('associated_legendre', 'legendre_polynomials', 'legendre', 'fourier_legendre', 'gauss_weights')


def normalization(l, m):
    return math.sqrt((1 if m == 0 else 2) * (2 * l + 1) * math.factorial(l - m) / math.factorial(l + m))


def parts(l, m, x):
    """m-th derivative of the polynomial of degree l and the next one"""
    c = np.zeros(l + 1)
    c[l] = 1.0
    q = poly.legder(c, m) if m else c
    return poly.legval(x, q), poly.legval(x, poly.legder(q) if len(q) > 1 else [0.0])


def functions(lmax, x, mmax=None):
    """4 pi normalised functions of the cosine of colatitude and their derivatives in colatitude"""
    x = np.atleast_1d(x).ravel()
    u = np.sqrt(1.0 - x**2)
    n, k = int(lmax) + 1, (int(lmax) if mmax is None else int(mmax)) + 1
    p, d = np.zeros((n, k, len(x))), np.zeros((n, k, len(x)))
    for l in range(n):
        for m in range(min(l + 1, k)):
            q, dq = parts(l, m, x)
            f = normalization(l, m)
            p[l, m] = f * u**m * q
            d[l, m] = f * (m * x * u**(m - 1) * q - u**(m + 1) * dq) if m else -f * u * dq
    return p, d


def degree(l, x, normal):
    x = np.atleast_1d(x).ravel()
    out = np.zeros((l + 1, len(x)))
    for m in range(l + 1):
        f = normalization(l, m) if normal else (-1.0)**m
        out[m] = f * np.sqrt(1.0 - x**2)**m * parts(l, m, x)[0]
    return out


def series(values, orders, n, sine):
    """coefficients of the first n harmonics of functions sampled between the poles, by order"""
    nodes, w = np.polynomial.chebyshev.chebgauss(4 * n)
    th = np.arccos(nodes)
    k = np.arange(n)
    v = values(nodes)
    out = np.zeros((v.shape[0], len(orders), n))
    for j, m in enumerate(orders):
        t = (np.sin if sine(m) else np.cos)(np.outer(k, th))
        # the functions times the harmonics are polynomials of the cosine, integrated exactly by the nodes
        out[:, j] = v[:, m] @ (t * w).T * np.where(k == 0, 1.0, 2.0) / np.pi
    return out


def expansion(L):
    n = L['lmax'] + 1
    return series(lambda x: functions(n - 1, x)[0], range(n), n, lambda m: m % 2 == 1)


def slopes(L):
    n = L['lmax'] + 1
    k = np.sqrt(np.arange(n) * np.arange(1.0, n + 1))
    k[0] = 1.0

    def east(x):
        p = functions(n - 1, x)[0]
        return p * np.arange(n)[None, :, None] / np.sqrt(1.0 - x**2) / k[:, None, None]

    def south(x):
        return -functions(n - 1, x)[1] / k[:, None, None]
    odd = lambda m: m % 2 == 0  # noqa: E731
    return series(south, range(n), n, odd), series(east, range(n), n, odd)


def triangle(lmax, skip=1):
    """degrees from one and orders up to the degree"""
    l = np.arange(lmax + 1)
    return (l[None, :] <= l[:, None]) & (l[:, None] >= skip)


def run(project, rep):
    rep.rule('legendre', 'the functions and derivatives are those of the closed form, of every degree and order up to the '
        'maximum ones', floor=40)
    rep.rule('fourier', 'the coefficients are those of the Fourier series in colatitude of the functions and gradients, of every '
        'degree and order', floor=6)
    rep.rule('transform', 'a grid of given harmonics is transformed into these harmonics by the Fourier method', floor=6)
    rep.rule('unchanged', 'no statement reached from these functions changes the storage of their arguments', floor=4)
    effects.unchanged(project, rep, [f for f in project.all_functions(scripts=False) if effects.public(f) and f.module.name.rsplit('.', 1)[-1] in MODULES])
    lf = num.leaf
    table(project, rep, lf)
    fourier(project, rep, lf)
    transform(project, rep, lf)


def table(project, rep, lf):
    memo = {}
    colat = lambda r: np.sort(np.cos(r.arr(5, lo=0.05, hi=3.1)))  # noqa: E731
    degrees = (1, 2, 3, 5, 8)
    both = lambda L: dict(zip(('#0', '#1'), functions(L['LMAX'], L['x'], L.get('MMAX'))))  # noqa: E731
    for q, more in [('plm_colombo', {}), ('plm_holmes', {}), ('plm_mohlenkamp', {})] + [('associated_legendre', {'method': m}) for m in
            ('colombo', 'Holmes', 'MOHLENKAMP')] + [('associated_legendre', {})]:
        f = 'associated_legendre.' + q
        at = more.get('method', '')
        for n in degrees:
            chk = lambda leaves, ref, label, *names: num.check(project, rep, 'legendre', f, leaves, ref, defaults=True, models=2,  # noqa: E731
                case={'LMAX': lf('LMAX'), 'x': lf('x'), **{k: lf(k) for k in names}, **more}, label=f'{at} {label}'.strip(), memo=(memo, (f, at, names)))
            chk(lambda r: {'LMAX': n, 'x': colat(r)}, both, f'degree {n}')
            if q == 'associated_legendre' and n != 5:
                continue
            if n in (3, 8):
                for m in (0, 2, n):
                    chk(lambda r: {'LMAX': n, 'MMAX': m, 'x': colat(r)}, both, f'degree {n}, order {m}', 'MMAX')
            if n in (2, 5):
                chk(lambda r: {'LMAX': n, 'x': np.array([-1.0, 1.0, r.num() - 1.0])}, both, f'degree {n} at the poles')
                chk(lambda r: {'LMAX': n, 'x': np.cos(r.arr(2, 3))}, both, f'degree {n} of a grid')
                chk(lambda r: {'LMAX': n, 'x': math.cos(r.num())}, both, f'degree {n} of a number')
    f = 'legendre_polynomials.legendre_polynomials'
    zonal = lambda L: {k: v[:, 0] for k, v in zip(('#0', '#1'), functions(L['lmax'], L['x'], 0))}  # noqa: E731
    for n in degrees:
        for label, x in (('', colat), ('poles', lambda r: np.array([-1.0, 1.0, r.num() - 1.0])), ('number', lambda r: math.cos(r.num()))):
            num.check(project, rep, 'legendre', f, lambda r: {'lmax': n, 'x': x(r)}, zonal,
                case={'lmax': lf('lmax'), 'x': lf('x')}, label=f'degree {n} {label}'.strip(), defaults=True, models=2,
                memo=(memo, f))
    f = 'legendre.legendre'
    for n in (0,) + degrees:
        for normal in (True, False):
            for label, x in (('', colat), ('poles', lambda r: np.array([-1.0, 1.0, r.num() - 1.0])), ('number', lambda r: math.cos(r.num()))):
                num.check(project, rep, 'legendre', f, lambda r: {'l': n, 'x': x(r)}, lambda L: {'return': degree(L['l'], L['x'], normal)},
                    case={'l': lf('l'), 'x': lf('x'), 'NORMALIZE': normal}, label=f'degree {n}{" normalized" if normal else ""} {label}'.strip(),
                    defaults=True, models=2, memo=(memo, (f, normal)))
    # the powers of the sine underflow near the poles
    near = lambda r: np.array([1, 1, -1, 1, -1]) * np.cos(np.array([1e-6, 2e-6, 1e-6, 1e-3, 3e-6]) * r.num())  # noqa: E731
    for n in (30, 41):
        for normal in (True, False):
            num.check(project, rep, 'legendre', f, lambda r: {'l': n, 'x': near(r)}, lambda L: {'return': degree(L['l'], L['x'], normal)}, tol=1e-6,
                case={'l': lf('l'), 'x': lf('x'), 'NORMALIZE': normal}, label=f'degree {n}{" normalized" if normal else ""} near the poles',
                defaults=True, models=2, memo=(memo, (f, normal)))


def fourier(project, rep, lf):
    memo = {}
    f = 'fourier_legendre.fourier_legendre'
    for n, m in ((3, 3), (4, 4), (6, 6), (7, 7), (8, 4), (9, 3)):
        case = {'lmax': lf('lmax'), 'mmax': lf('mmax')}
        num.check(project, rep, 'fourier', f, lambda r: {'lmax': n, 'mmax': m}, lambda L: {'return': num.Partial(expansion(L), triangle(n, 0))},
            case=case, label=f'degree {n}, order {m}', defaults=True, models=1, memo=(memo, f))
        meaning = {f: lambda lmax, mmax: expansion({'lmax': int(lmax)})}
        num.check(project, rep, 'fourier', 'fourier_legendre.legendre_gradient', lambda r: {'lmax': n, 'mmax': m},
            lambda L: {k: num.Partial(v, triangle(n)) for k, v in zip(('#0', '#1'), slopes(L))}, case=case, label=f'degree {n}, order {m}',
            defaults=True, models=1, opaque=meaning, memo=(memo, 'gradient'))


def field(n, lon, lat, m=None, turned=False, plm=False):
    """a grid with all harmonics up to a degree"""
    def leaves(r):
        c, s = np.tril(r.arr(n + 1, n + 1)), np.tril(r.arr(n + 1, n + 1), 0)
        s[:, 0] = 0.0
        th, phi = np.radians(90.0 - lat), np.radians(lon)
        p = functions(n, np.cos(th))[0]
        k = np.arange(n + 1)[:, None] * phi[None, :]
        d = np.einsum('lm,lmi,mj->ji', c, p, np.cos(k)) + np.einsum('lm,lmi,mj->ji', s, p, np.sin(k))
        L = {'data': d.T if turned else d, 'lon': lon, 'lat': lat, 'LMAX': n, '?c': c, '?s': s}
        if m is not None:
            L['MMAX'] = m
        if plm:
            L['PLM'] = expansion({'lmax': n})
        return L
    return leaves


def transform(project, rep, lf):
    f = 'gen_harmonics.gen_harmonics'
    memo, meaning = {}, {'fourier_legendre.fourier_legendre': lambda lmax, mmax: expansion({'lmax': int(lmax)})}
    lon, cells, nodes = np.arange(0.0, 360.0, 10.0), 85.0 - 10.0 * np.arange(18), 90.0 - 10.0 * np.arange(19)

    def want(L):
        m = L.get('MMAX', L['LMAX']) + 1
        return {'.clm': L['?c'][:, :m], '.slm': L['?s'][:, :m], '.lmax': L['LMAX'], '@data': L['data'], '@lon': L['lon'], '@lat': L['lat']}

    for label, leaves, names in (('cells', field(4, lon + 5.0, cells), ''), ('nodes', field(4, lon, nodes), ''), ('mixed', field(4, lon, cells), ''),
            ('odd degree', field(5, lon, cells), ''), ('odd degree, nodes', field(7, lon, nodes), ''), ('negative longitudes', field(4, lon - 180.0, nodes), ''),
            ('ascending cells', field(4, lon, cells[::-1]), ''), ('ascending nodes', field(4, lon, nodes[::-1]), ''),
            ('latitudes first', field(4, lon, cells, turned=True), ''), ('maximum order', field(6, lon, cells, 3), 'MMAX'),
            ('even maximum order', field(5, lon, nodes, 2), 'MMAX'), ('order zero', field(4, lon, cells, 0), 'MMAX'),
            ('given series', field(4, lon, cells, plm=True), 'PLM'), ('given series, maximum order', field(5, lon, nodes, 3, plm=True), 'PLM MMAX')):
        for method in ('fourier', 'Fourier')[:2 if label == 'cells' else 1]:
            num.check(project, rep, 'transform', f, leaves, want, label=f'{method}, {label}', defaults=True, models=1, opaque=meaning, memo=(memo, (method, names)),
                case={'data': lf('data'), 'lon': lf('lon'), 'lat': lf('lat'), '**METHOD': method, '**LMAX': lf('LMAX'), **{'**' + k: lf(k) for k in names.split()}})
