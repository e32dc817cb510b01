"""Field arithmetic is coefficient-wise and keeps the epoch."""
from types import SimpleNamespace
import numpy as np
from .. import num, store


def cs(L, r, name, lmax, mmax, nt=None, pre=''):
    """triangular coefficients of degree lmax and order mmax"""
    sh = (lmax + 1, mmax + 1) + ((nt,) if nt else ())
    for k in ('clm', 'slm'):
        a = r.arr(*sh) * np.where(r.arr(*sh) > 1, 1, -1)
        l, m = np.indices(sh[:2])
        a[m > l] = 0.0
        if k == 'slm':
            a[:, 0] = 0.0
        L[f'{name}.{pre}{k}'] = a
    L[f'{name}.lmax'], L[f'{name}.mmax'] = lmax, mmax
    if nt:
        L[f'{name}.time'] = 2003.0 + np.sort(r.arr(nt))
        L[f'{name}.month'] = np.arange(nt) + 15
    else:
        L[f'{name}.time'] = 2003.0 + r.num()
        L[f'{name}.month'] = 15
    L[f'{name}.flattened'] = False
    L[f'{name}.filename'] = None
    L[f'{name}.attributes'] = 'attr'
    return L


def h(ntime=None, second=None, lm=(4, 3), at=None, **more):
    """leaves of a harmonics operand, and of a second one with another truncation"""
    def leaves(r):
        L = {}
        cs(L, r, 'self', *lm, ntime)
        if second is not None:
            k = r.seed % 6
            cs(L, r, 'temp', *((3, 3), (5, 2), (6, 4), (4, 2), (3, 2), (4, 4))[k], second or None)
        for k, v in more.items():
            L[k] = v(r, L) if callable(v) else v
        L.update(at or {})
        return L
    return leaves


def pad(a, b):
    """overlap of two coefficient arrays"""
    return tuple(slice(0, min(x, y)) for x, y in zip(a.shape[:2], b.shape[:2]))


def binary(op):
    def ref(L):
        out = {}
        for k in ('clm', 'slm'):
            a, b = L[f'self.{k}'].copy(), L[f'temp.{k}']
            s = pad(a, b)
            bb = b[s]
            if a.ndim == 3 and b.ndim == 2:
                bb = bb[:, :, None]
            if op == '+':
                a[s] = a[s] + bb
            elif op == '-':
                a[s] = a[s] - bb
            elif op == '*':
                a[s] = a[s] * bb
            else:
                bb = np.broadcast_to(bb, a[s].shape)
                l, m = np.indices(a[s].shape[:2])
                ok = (m <= l) & ((m > 0) | (k == 'clm'))
                w = a[s]
                w[ok] = w[ok] / bb[ok]
            out['.' + k] = a
        return out
    return ref


def each(f, time='self.time', month='self.month', dims=True, names=('clm', 'slm'), pre='self'):
    def ref(L):
        out = {'.' + k: f(L[f'{pre}.{k}'], L) for k in names}
        for n, src in (('time', time), ('month', month)):
            if src is not None:
                out['.' + n] = L[src] if isinstance(src, str) else src(L)
        if dims:
            out['.lmax'], out['.mmax'] = L['self.lmax'], L['self.mmax']
        return out
    return ref


def flat(L):
    """(l, m) in order-major sequence"""
    return [(l, m) for m in range(L['self.mmax'] + 1) for l in range(m, L['self.lmax'] + 1)]


def flatten(L):
    lm = flat(L)
    out = {'.' + k: np.array([L[f'self.{k}'][l, m] for l, m in lm]) for k in ('clm', 'slm')}
    return {**out, '.l': np.array([x for x, _ in lm]), '.m': np.array([x for _, x in lm]), '.time': L['self.time'],
        '.month': L['self.month'], '.flattened': True}


def flatleaves(nt):
    def leaves(r):
        L = cs({}, r, 'self', 4, 3, nt)
        lm = flat(L)
        p = r.perm(len(lm))
        lm = [lm[i] for i in p]
        L['full'] = {k: L[f'self.{k}'] for k in ('clm', 'slm')}
        for k in ('clm', 'slm'):
            L[f'self.{k}'] = np.array([L[f'self.{k}'][l, m] for l, m in lm])
        L['self.l'], L['self.m'] = np.array([x for x, _ in lm]), np.array([x for _, x in lm])
        L['self.flattened'] = True
        return L
    return leaves


def truncate(L):
    out = {}
    lmax, lmin, mmax = L['lmax'], L['lmin'], L.get('mmax')
    mmax = lmax if mmax is None else mmax
    for k in ('clm', 'slm'):
        a = L[f'self.{k}']
        b = np.zeros((lmax + 1, mmax + 1) + a.shape[2:])
        l1, m1 = min(lmax, L['self.lmax']) + 1, min(mmax, L['self.mmax']) + 1
        b[lmin:l1, :m1] = a[lmin:l1, :m1]
        out['.' + k] = b
    return {**out, '.lmax': lmax, '.mmax': mmax, '.time': L['self.time'], '.month': L['self.month']}


def subset(L):
    i = [list(L['self.month']).index(m) for m in L['months']]
    out = {'.' + k: L[f'self.{k}'][:, :, i] for k in ('clm', 'slm')}
    return {**out, '.time': L['self.time'][i], '.month': L['self.month'][i], '.lmax': L['self.lmax'], '.mmax': L['self.mmax']}


def amplitude(L):
    return {'return': np.sqrt(np.sum(L['self.clm']**2 + L['self.slm']**2, axis=1))}


def zeros(L):
    sh = (L['lmax'] + 1, (L['mmax'] if L['mmax'] is not None else L['lmax']) + 1) + ((L['nt'],) if L['nt'] else ())
    return {'.clm': np.zeros(sh), '.slm': np.zeros(sh), '.lmax': L['lmax'], '.mmax': sh[1] - 1}


DRY = lambda k, v: {k: v}  # noqa: E731
SEL = [1, 3]
HARM = [
    *[(op, f'{a or 2}-D,{b or 2}-D', h(3 if a else None, 3 if b else 0), binary(sym), {'temp': 'harmonics.harmonics'})
      for op, sym in (('add', '+'), ('subtract', '-'), ('multiply', '*'), ('divide', '/')) for a, b in ((0, 0), (3, 0), (3, 3))],
    ('scale', 'scalar,2-D', h(var=2.5), each(lambda a, L: 2.5*a), {}),
    ('scale', 'scalar,3-D', h(5, var=2.5), each(lambda a, L: 2.5*a), {}),
    ('scale', 'vector,2-D', h(var=lambda r, L: r.arr(6)), each(lambda a, L: a[:, :, None]*L['var'], None, None), {}),
    ('scale', 'vector,3-D', h(5, var=lambda r, L: r.arr(5)), each(lambda a, L: a*L['var']), {}),
    ('power', '2-D', h(power=3), each(lambda a, L: a**3), {}),
    ('power', '3-D', h(5, power=2), each(lambda a, L: a**2), {}),
    ('drift', '', h(t=lambda r, L: 2003.0 + r.arr(6), epoch=lambda r, L: 2002.0 + r.num()),
        each(lambda a, L: a[:, :, None]*(L['t'] - L['epoch']), 't', None), {}),
    ('convolve', '2-D', h(var=lambda r, L: r.arr(7)), each(lambda a, L: a*L['var'][:5, None]), {}),
    ('convolve', '3-D', h(6, var=lambda r, L: r.arr(7)), each(lambda a, L: a*L['var'][:5, None, None]), {}),
    ('mean', 'all', h(6, indices=Ellipsis), each(lambda a, L: np.mean(a, axis=2), lambda L: np.mean(L['self.time']),
        lambda L: np.mean(L['self.month'])), {'apply': False}),
    ('mean', 'subset', h(6, indices=lambda r, L: np.array([0, 2, 3])), each(lambda a, L: np.mean(a[:, :, [0, 2, 3]], axis=2),
        lambda L: np.mean(L['self.time'][[0, 2, 3]]), lambda L: np.mean(L['self.month'][[0, 2, 3]])), {'apply': False}),
    ('index', '', h(6, indice=2), each(lambda a, L: a[:, :, 2], lambda L: L['self.time'][2], lambda L: L['self.month'][2]), {'date': True}),
    ('copy', '2-D', h(), each(lambda a, L: a), {}),
    ('copy', '3-D', h(4), each(lambda a, L: a), {}),
    ('zeros_like', '', h(4), each(lambda a, L: 0*a, None, None), {}),
    ('zeros', '2-D', h(lmax=4, mmax=2, nt=None), zeros, {}),
    ('zeros', '3-D', h(lmax=4, mmax=2, nt=3), zeros, {}),
    ('zeros', 'mmax', h(lmax=4, mmax=None, nt=3, at={'self.mmax': None}), zeros, {}),
    ('truncate', '2-D', h(lmax=3, lmin=1, mmax=2), truncate, {}),
    ('truncate', '3-D', h(5, lmax=3, lmin=1, mmax=2), truncate, {}),
    ('truncate', 'order', h(5, lmax=3, lmin=0, mmax=None), truncate, {}),
    ('truncate', 'extend', h(lmax=6, lmin=2, mmax=5), truncate, {}),
    ('amplitude', '2-D', h(), amplitude, {}),
    ('amplitude', '3-D', h(6), amplitude, {}),
    ('ilm', '', h(), lambda L: {'return': L['self.clm'] - 1j*L['self.slm']}, {}),
    ('to_dict', '', h(4), lambda L: {f'[{k}]': L[f'self.{k}'] for k in ('clm', 'slm', 'time', 'month')}, {}),
    ('__next__', '', h(6, at={'self.__index__': 2}), each(lambda a, L: a[:, :, 2], lambda L: L['self.time'][2], lambda L: L['self.month'][2]), {}),
    ('expand_dims', '2-D', h(at={'self.month': 4}), each(lambda a, L: a[:, :, None], lambda L: [L['self.time']], lambda L: [4]), {}),
    ('squeeze', '', h(1), each(lambda a, L: a[:, :, 0], lambda L: L['self.time'][0], lambda L: L['self.month'][0]), {'update_dimensions': True}),
    ('flatten', '2-D', h(date=True), flatten, {}),
    ('flatten', '3-D', h(3, date=True), flatten, {}),
    ('expand', '2-D', flatleaves(None), lambda L: {**{'.' + k: L['full'][k] for k in ('clm', 'slm')}, '.time': L['self.time'],
        '.month': L['self.month'], '.flattened': False}, {'date': True}),
    ('expand', '3-D', flatleaves(3), lambda L: {**{'.' + k: L['full'][k] for k in ('clm', 'slm')}, '.time': L['self.time'],
        '.month': L['self.month'], '.flattened': False}, {'date': True}),
    ('subset', '', h(6, months=lambda r, L: np.array([16, 18])), subset, {}),
]


def dictleaves(r):
    L = cs({}, r, 'self', 4, 3)
    L = {f'd[{k}]': L[f'self.{k}'] for k in ('clm', 'slm')}
    L.update({'d[time]': np.array([2003.5]), 'd[month]': np.array([19]), 'd[l]': np.arange(5), 'd[m]': np.arange(4), 'self.attributes': None})
    return L


def applied(idx):
    """the mean field, and the operand with the mean removed"""
    def ref(L):
        out = each(lambda a, L: np.mean(a[:, :, idx], axis=2), lambda L: np.mean(L['self.time'][idx]), lambda L: np.mean(L['self.month'][idx]))(L)
        for k in ('clm', 'slm'):
            a = L[f'self.{k}']
            out[f'@self.{k}'] = a - np.mean(a[:, :, idx], axis=2)[:, :, None]
        return out
    return ref


HARM += [
    ('zeros', 'own truncation', h(lmax=None, mmax=None, nt=None), lambda L: {'.clm': np.zeros((5, 4)), '.slm': np.zeros((5, 4)), '.l': np.arange(5),
        '.m': np.arange(4)}, {}),
    ('truncate', 'own degree', h(lmax=None, lmin=1, mmax=2), lambda L: truncate({**L, 'lmax': 4}), {}),
    ('mean', 'removed', h(6, indices=Ellipsis), applied(slice(None)), {'apply': True}),
    ('from_dict', '', dictleaves, lambda L: {**{f'.{k}': L[f'd[{k}]'] for k in ('clm', 'slm', 'time', 'month')}, '.lmax': 4, '.mmax': 3}, {}),
    ('index', 'file list', h(6, indice=2, at={'self.filename': list('abcdef')}), lambda L: {'.filename': 'c'}, {'date': True}),
    ('__next__', 'file list', h(6, at={'self.__index__': 3, 'self.filename': list('abcdef')}), lambda L: {'.filename': 'd', '@self.__index__': 4}, {}),
    ('copy', 'file name', h(6, at={'self.filename': 'abc'}), lambda L: {'.filename': 'abc', '.l': np.arange(5), '.m': np.arange(4)}, {}),
    ('subset', 'file list', h(6, at={'self.filename': list('abcdef')}, months=lambda r, L: np.array([16, 18])),
        lambda L: {'.filename': ['b', 'd']}, {}),
    ('expand_dims', 'flattened', flatleaves(None), lambda L: {**{'.' + k: L[f'self.{k}'][:, None] for k in ('clm', 'slm')}, '.time': [L['self.time']]}, {}),
]


def triangles(L):
    """one array of the sine (orders below zero) and cosine coefficients, the rest masked"""
    lm, mm = L['self.lmax'], L['self.mmax']
    c, s = (L[f'self.{k}'] if np.ndim(L[f'self.{k}']) == 3 else L[f'self.{k}'][:, :, None] for k in ('clm', 'slm'))
    data = np.zeros((lm + 1, 2 * lm + 1, c.shape[2]))
    mask = np.ones(data.shape, dtype=bool)
    for l in range(lm + 1):
        for m in range(-min(l, mm), min(l, mm) + 1):
            data[l, lm + m] = s[l, -m] if m < 0 else c[l, m]
            mask[l, lm + m] = False
    return {'.data': data, '.mask': mask}


# numpy's masked arrays as values and a mask
MASKED = '''
import numpy as np
class MaskedArray(object):
    def __init__(self, data, mask=False, fill_value=None):
        self.data = data
        self.mask = mask
        self.fill_value = fill_value
def zeros(shape, dtype=float):
    return MaskedArray(np.zeros(shape, dtype=dtype), False)
def ones(shape, dtype=float):
    return MaskedArray(np.ones(shape, dtype=dtype), False)
def masked_all(shape, dtype=float):
    return MaskedArray(np.zeros(shape, dtype=dtype), np.ones(shape, dtype=bool))
def array(data, mask=False, fill_value=None, copy=False):
    return MaskedArray(np.array(data), mask, fill_value)
'''


def arrays(project, rep):
    m = store.bind(project, None, MASKED)
    stand = {f'numpy.ma.{x.name}': x for x in list(m.functions) + list(m.classes) if x.name in ('zeros', 'ones', 'masked_all', 'array', 'MaskedArray')}
    for nt in (None, 3):
        num.check(project, rep, 'coefficient', 'harmonics.harmonics.to_masked_array', h(nt), triangles, label=f'{3 if nt else 2}-D', stand=stand)
        for fill in (None, -9999.0):
            num.check(project, rep, 'coefficient', 'spatial.spatial.to_masked_array', s(nt, fill=fill), lambda L: {'.data': L['self.data'], '.mask': L['self.mask']},
                label=f'{3 if nt else 2}-D,{fill}', stand=stand)


C = ('C10', 'C11', 'S11')
E = ('eC10', 'eC11', 'eS11')
XYZ = ('X', 'Y', 'Z')
SIG = ('X_sigma', 'Y_sigma', 'Z_sigma')


def g(nt=5, second=False, at=None, **more):
    def leaves(r):
        L = {}
        for n in ('self', 'temp') if second else ('self',):
            for k in C + E + XYZ + SIG:
                L[f'{n}.{k}'] = r.arr(nt) * np.where(r.arr(nt) > 1, 1, -1)
            L[f'{n}.time'], L[f'{n}.month'] = 2003 + np.sort(r.arr(nt)), np.arange(nt) + 15
        for k, v in more.items():
            L[k] = v(r, L) if callable(v) else v
        L.update(at or {})
        return L
    return leaves


GOPS = {'add': np.add, 'subtract': np.subtract, 'multiply': np.multiply, 'divide': np.divide}


def gref(f, fields=C, time=None, month=None, key='.{}'):
    def ref(L):
        out = {key.format(k): f(L[f'self.{k}'], L, k) for k in fields}
        if time:
            out[key.format('time')] = time(L['self.time'])
            out[key.format('month')] = (month or time)(L['self.month'])
        return out
    return ref


def same(x):
    return x


GEO = [
    *[(op, '', g(second=True), gref(lambda a, L, k, f=f: f(a, L[f'temp.{k}'])), {}) for op, f in GOPS.items()],
    ('scale', '', g(var=2.5), gref(lambda a, L, k: 2.5*a, time=same), {}),
    ('scale', 'vector', g(var=lambda r, L: r.arr(5)), gref(lambda a, L, k: L['var']*a, time=same), {}),
    ('power', '', g(power=3), gref(lambda a, L, k: a**3, time=same), {}),
    ('mean', 'all', g(indices=Ellipsis), gref(lambda a, L, k: np.mean(a), time=np.mean), {'apply': False}),
    ('mean', 'subset', g(indices=lambda r, L: np.array(SEL)), gref(lambda a, L, k: np.mean(a[SEL]), time=lambda a: np.mean(a[SEL])), {'apply': False}),
    ('mean', 'removed', g(indices=lambda r, L: np.array(SEL)), gref(lambda a, L, k: a - np.mean(a[SEL]), key='@self.{}'), {'apply': True}),
    ('copy', '', g(), gref(lambda a, L, k: a, C + E + XYZ, time=same), {}),
    ('__next__', '', g(at={'self.__index__': 3}), lambda L: {**gref(lambda a, L, k: a[3], time=lambda a: a[3])(L), '@self.__index__': 4}, {}),
    ('to_dict', '', g(), gref(lambda a, L, k: a, C + E + XYZ + SIG, time=same, key='[{}]'), {}),
    ('from_dict', '', lambda r: {f'temp[{k}]': r.arr(4) for k in C + E + XYZ + SIG + ('time', 'month')},
        lambda L: {f'.{k}': L[f'temp[{k}]'] for k in C + E + XYZ + SIG + ('time', 'month')}, {}),
]


def s(nt=None, fill=None, at=None, **more):
    """leaves of a grid with some masked cells"""
    def leaves(r):
        L = {}
        sh = (3, 4) + ((nt,) if nt else ())
        d, e = r.arr(*sh) * np.where(r.arr(*sh) > 1, 1, -1), r.arr(*sh)
        mask = np.zeros(sh, dtype=bool)
        if fill is not None:
            mask[1, 2] = True
            mask[(0, 3) + ((0,) if nt else ())] = True
            d[mask] = fill
            e[mask] = fill
        L.update({'self.data': d, 'self.error': e, 'self.mask': mask, 'self.fill_value': fill, 'self.lon': np.array([10.0, 12.0, 14.0, 16.0]),
            'self.lat': np.array([-1.0, 0.0, 1.0]), 'self.filename': None, 'self.attributes': None, 'self.shape': sh, 'self.ndim': len(sh)})
        if nt:
            L['self.time'], L['self.month'] = 2003 + np.sort(r.arr(nt)), np.arange(nt) + 15
        else:
            L['self.time'], L['self.month'] = 2003 + r.num(), 15
        for k, v in more.items():
            L[k] = v(r, L) if callable(v) else v
        L.update(at or {})
        return L
    return leaves


def masked(L):
    """cells holding the fill value or no number are masked and hold the fill value in every variable"""
    out = {}
    d = L['self.data']
    m = L['self.mask'] | (d == L['self.fill_value']) | np.isnan(d)
    for k in ('data', 'error', 'magnitude'):
        a = L.get('self.' + k)
        if a is not None:
            out['.' + k] = np.where(m, L['self.fill_value'], a)
    out['.mask'] = m
    return out


def unmasked(nt, **more):
    def leaves(r):
        L = s(nt, -9999.0)(r)
        d = L['self.data']
        d[2, 1] = -9999.0
        d[0, 2] = np.nan
        L['self.mask'] = L['self.mask'].copy()
        for k in ('self.error',):
            L[k] = r.arr(*d.shape)
        for k, v in more.items():
            L['self.' + k] = v(r, L) if callable(v) else v
        return L
    return leaves


def kfactor(L):
    a, b = L['self.data'], L['var.data']
    m = np.any(L['self.mask'] | L['var.mask'], axis=2)
    with np.errstate(all='ignore'):
        k = np.where(m, 0.0, np.sum(a*b, axis=2)/np.sum(a**2, axis=2))
        e = np.sqrt(np.sum((k[:, :, None]*a - b)**2, axis=2)/a.shape[2])
        g = np.sqrt(np.sum(b**2, axis=2))
    return {'.data': k, '.error': np.where(m, 0.0, e), '.magnitude': np.where(m, 0.0, g), '.mask': m, '.lon': L['self.lon'], '.lat': L['self.lat']}


def twogrids(nt):
    def leaves(r):
        L = s(nt, -9999.0)(r)
        M = s(nt, -9999.0)(r)
        L.update({k.replace('self', 'var', 1): v for k, v in M.items()})
        L['var.mask'] = L['var.mask'].copy()
        L['var.mask'][2, 2] = True
        L['var.data'][2, 2] = -9999.0
        return L
    return leaves


def sref(f, mask=None, time=None, err=None, lon=same, lat=same, fill=True):
    """expected grid: fill value wherever the result is masked"""
    def ref(L):
        fv = L['self.fill_value']
        m = mask(L['self.mask']) if mask else L['self.mask']
        d = np.array(f(L['self.data'], L))
        out = {}
        if fv is not None:
            d[m] = fv
            out['.mask'] = m
        out['.data'] = d
        if err:
            e = np.array(err(L['self.error']))
            if fv is not None:
                e[m] = fv
            out['.error'] = e
        out['.lon'], out['.lat'] = lon(L['self.lon']), lat(L['self.lat'])
        if time:
            out['.time'], out['.month'] = time(L['self.time']), time(L['self.month'])
        return out
    return ref


def var(*shape):
    return lambda r, L: r.arr(*shape) if shape else r.num()


def col(a, L, op, b, d):
    """broadcast a factor of b dimensions over a field of d dimensions"""
    v = np.asarray(L['var'])
    if b == 2 and d == 3:
        v = v[:, :, None]
    if b == 1 and d == 2:
        a = a[:, :, None]
    return op(a, v)


def anyt(m):
    return np.any(m, axis=2)


GRID = []
for fv in (None, -9999.0):
    tag = 'plain' if fv is None else 'masked'
    for m, op in (('offset', np.add), ('scale', np.multiply)):
        for b, d in ((0, 2), (0, 3), (1, 2), (1, 3), (2, 2), (2, 3), (3, 3)):
            nt = 5 if d == 3 else None
            v = {0: var(), 1: var(5), 2: var(3, 4), 3: var(3, 4, 5)}[b]
            rep_ = (lambda m: np.repeat(m[:, :, None], 5, axis=2)) if (b, d) == (1, 2) else None
            GRID.append((m, f'var {b}-D, data {d}-D, {tag}', s(nt, fv, var=v), sref(lambda a, L, op=op, b=b, d=d: col(a, L, op, b, d), rep_), {}))
    t = lambda i: (lambda a: a[i])  # noqa: E731
    GRID += [
        ('mean', tag, s(6, fv, indices=Ellipsis), sref(lambda a, L: np.mean(a, axis=2), anyt), {'apply': False}),
        ('mean', f'subset,{tag}', s(6, fv, indices=lambda r, L: np.array(SEL)), sref(lambda a, L: np.mean(a[:, :, SEL], axis=2),
            lambda m: np.any(m[:, :, SEL], axis=2)), {'apply': False}),
        ('sum', tag, s(6, fv, power=2), sref(lambda a, L: np.sum(a**2, axis=2), anyt), {}),
        ('power', tag, s(6, fv, power=2), sref(lambda a, L: a**2, time=same), {}),
        ('max', tag, s(6, fv), sref(lambda a, L: np.max(a, axis=2), anyt), {}),
        ('min', tag, s(6, fv), sref(lambda a, L: np.min(a, axis=2), anyt), {}),
        ('index', tag, s(6, fv, indice=2), sref(lambda a, L: a[:, :, 2], t((..., 2)), t(2), t((..., 2))), {'date': True}),
        ('__next__', tag, s(6, fv, at={'self.__index__': 2}), sref(lambda a, L: a[:, :, 2], t((..., 2)), t(2), t((..., 2))), {}),
        ('copy', tag, s(6, fv), sref(lambda a, L: a, same, same, same), {}),
        ('zeros_like', tag, s(6, fv), sref(lambda a, L: 0*a, lambda m: 0*m > 1, None), {}),
        ('flip', f'lat,{tag}', s(6, fv, axis=0), sref(lambda a, L: a[::-1], lambda m: m[::-1], same, lambda e: e[::-1], lat=lambda x: x[::-1]), {'axis': 0}),
        ('flip', f'lon,{tag}', s(6, fv, axis=1), sref(lambda a, L: a[:, ::-1], lambda m: m[:, ::-1], same, lambda e: e[:, ::-1], lon=lambda x: x[::-1]), {'axis': 1}),
        ('extend_matrix', f'2-D,{tag}', s(None, fv), sref(lambda a, L: a[:, [3, 0, 1, 2, 3, 0]], lambda m: m[:, [3, 0, 1, 2, 3, 0]], None,
            lambda e: e[:, [3, 0, 1, 2, 3, 0]], lon=lambda x: np.array([8.0, 10, 12, 14, 16, 18])), {}),
        ('extend_matrix', f'3-D,{tag}', s(5, fv), sref(lambda a, L: a[:, [3, 0, 1, 2, 3, 0]], lambda m: m[:, [3, 0, 1, 2, 3, 0]], None,
            lambda e: e[:, [3, 0, 1, 2, 3, 0]], lon=lambda x: np.array([8.0, 10, 12, 14, 16, 18])), {}),
        ('subset', tag, s(6, fv, months=lambda r, L: np.array([16, 18])), sref(lambda a, L: a[:, :, SEL], t((..., SEL)), t(SEL), t((..., SEL))), {}),
        ('expand_dims', tag, s(None, fv), sref(lambda a, L: a[:, :, None], t((..., None)), lambda x: [x], t((..., None))), {}),
    ]
GRID += [
    ('mean', 'removed', s(6, None, indices=Ellipsis), lambda L: {'@self.data': L['self.data'] - np.mean(L['self.data'], axis=2)[:, :, None]}, {'apply': True}),
    ('mean', 'epoch', s(6, None, indices=lambda r, L: np.array(SEL)), lambda L: {'.time': np.mean(L['self.time'][SEL])}, {'apply': False}),
    ('from_dict', '', lambda r: {'d[lon]': r.arr(4), 'd[lat]': r.arr(3), 'd[data]': r.arr(3, 4), 'd[error]': r.arr(3, 4), 'd[time]': r.num(), 'd[month]': 5,
        'self.fill_value': None}, lambda L: {f'.{k}': L[f'd[{k}]'] for k in ('lon', 'lat', 'data', 'error', 'time', 'month')}, {}),
    ('replace_invalid', '', s(6, -9999.0, fill_value=0.0, mask=None), lambda L: {'.data': np.where(L['self.mask'], 0.0, L['self.data']),
        '.error': np.where(L['self.mask'], 0.0, L['self.error']), '.fill_value': 0.0, '.mask': L['self.mask']}, {}),
    ('replace_invalid', 'mask', s(6, -9999.0, fill_value=0.0, mask=lambda r, L: np.arange(12).reshape(3, 4) % 5 == 0),
        lambda L: {'.data': np.where(L['self.mask'] | L['mask'][:, :, None], 0.0, L['self.data']), '.fill_value': 0.0}, {}),
    ('update_mask', '', unmasked(None), masked, {}),
    ('update_mask', '3-D', unmasked(3), masked, {}),
    ('squeeze', '', s(1, -9999.0), lambda L: {**{f'.{k}': L[f'self.{k}'][:, :, 0] for k in ('data', 'mask', 'error')},
        '.time': L['self.time'][0], '.month': L['self.month'][0]}, {}),
    ('flip', 'time', s(6, axis=2), sref(lambda a, L: a[:, :, ::-1], lambda m: m[:, :, ::-1], None, lambda e: e[:, :, ::-1]), {'axis': 2}),
    ('flip', 'dates', s(6, axis=2), lambda L: {'.time': L['self.time'][::-1]}, {'axis': 2}),
    ('index', 'file list', s(6, indice=2, at={'self.filename': list('abcdef')}), lambda L: {'.filename': 'c'}, {'date': True}),
    ('index', 'file name', s(6, indice=2, at={'self.filename': 'abc'}), lambda L: {'.filename': 'abc'}, {'date': True}),
    ('subset', 'file list', s(6, months=lambda r, L: np.array([16, 18]), at={'self.filename': list('abcdef')}), lambda L: {'.filename': ['b', 'd']}, {}),
    ('copy', 'file name', s(6, at={'self.filename': 'abc'}), lambda L: {'.filename': 'abc'}, {}),
    ('replace_masked', 'stale', unmasked(None), lambda L: {f'.{k}': np.where(L['self.mask'], L['self.fill_value'], L[f'self.{k}']) for k in ('data', 'error')}, {}),
    ('replace_masked', '', s(6, -9999.0), lambda L: {'.data': L['self.data'], '.error': L['self.error']}, {}),
]


FACTORS = [
    ('update_mask', '', unmasked(None, magnitude=lambda r, L: r.arr(3, 4)), masked, {}),
    ('update_mask', 'data only', lambda r: {**unmasked(None)(r), 'self.error': None, 'self.magnitude': None}, masked, {}),
    ('kfactor', '', twogrids(5), kfactor, {'var': 'spatial.spatial'}),
]
# with every option left at its default
DEFAULT = [
    ('harmonics.harmonics', 'mean', h(6), lambda L: {**each(lambda a, L: np.mean(a, axis=2), lambda L: np.mean(L['self.time']),
        lambda L: np.mean(L['self.month']))(L), '@self.clm': L['self.clm']}, {}),
    ('harmonics.harmonics', 'truncate', h(5, lmax=3), lambda L: truncate({**L, 'lmin': 0}), {'lmax': num.leaf('lmax')}),
    ('harmonics.harmonics', 'zeros', h(), lambda L: {'.clm': np.zeros((5, 4)), '.slm': np.zeros((5, 4)), '.lmax': 4, '.mmax': 3}, {}),
    ('harmonics.harmonics', 'index', h(6, indice=2), each(lambda a, L: a[:, :, 2], lambda L: L['self.time'][2], lambda L: L['self.month'][2]),
        {'indice': num.leaf('indice')}),
    ('harmonics.harmonics', 'squeeze', h(1), each(lambda a, L: a[:, :, 0], lambda L: L['self.time'][0], lambda L: L['self.month'][0]), {}),
    ('harmonics.harmonics', 'expand_dims', h(at={'self.month': 4}), each(lambda a, L: a[:, :, None], lambda L: [L['self.time']], lambda L: [4]), {}),
    ('harmonics.harmonics', 'flatten', h(3), flatten, {}),
    ('harmonics.harmonics', 'expand', flatleaves(3), lambda L: {**{'.' + k: L['full'][k] for k in ('clm', 'slm')}, '.time': L['self.time'],
        '.month': L['self.month'], '.flattened': False}, {}),
    ('geocenter.geocenter', 'mean', g(), lambda L: {**{f'.{k}': np.mean(L[f'self.{k}']) for k in C}, **{f'@self.{k}': L[f'self.{k}'] for k in C}}, {}),
    ('spatial.spatial', 'mean', s(6), lambda L: {'.data': np.mean(L['self.data'], axis=2), '@self.data': L['self.data']}, {}),
    ('spatial.spatial', 'sum', s(6), lambda L: {'.data': np.sum(L['self.data'], axis=2)}, {}),
    ('spatial.spatial', 'flip', s(6), lambda L: {'.data': L['self.data'][::-1], '.lat': L['self.lat'][::-1]}, {}),
    ('spatial.spatial', 'index', s(6, indice=2), lambda L: {'.data': L['self.data'][:, :, 2], '.time': L['self.time'][2]}, {'indice': num.leaf('indice')}),
]


def members(kind, date=True, error=True, **more):
    """leaves of a list of objects that is out of time order"""
    def leaves(r):
        out = []
        for k, t in enumerate((2, 0, 1)):
            date_ = {'time': 2004.25 + t / 12.0 + 0.001 * r.num(), 'month': 16 + t, 'filename': f'f{k}' if k != 1 else None, 'attributes': f'a{k}'}
            if kind == 'harmonics':
                lm = ((4, 2), (3, 2), (5, 4))[k]
                out.append(SimpleNamespace(clm=r.arr(lm[0] + 1, lm[1] + 1), slm=r.arr(lm[0] + 1, lm[1] + 1), lmax=lm[0], mmax=lm[1], **date_))
            else:
                d = r.arr(3, 4)
                m = d > 1.3
                d[m] = -9999.0
                e = r.arr(3, 4)
                e[m] = -9999.0
                out.append(SimpleNamespace(data=d, mask=m, lon=np.arange(4) * 2.0, lat=np.arange(3) * 1.0, shape=(3, 4), fill_value=-9999.0,
                    **({'error': e} if error else {}), **date_))
        return {'object_list': out, **more}
    return leaves


def merged(order, fields, date=True, cut=True, fill=None):
    def ref(L):
        obj = [L['object_list'][i] for i in order]
        out = {}
        for k in fields:
            n = min(o.lmax for o in obj) + 1 if cut else None
            m = min(o.mmax for o in obj) + 1 if cut else None
            out['.' + k] = np.stack([getattr(o, k)[:n, :m] for o in obj], axis=2)
        if date:
            out['.time'] = np.array([o.time for o in obj])
            # months pass through the correction of special cases
            out['.month'] = np.array([o.month for o in obj]) + 100
        if cut:
            out['.lmax'], out['.mmax'] = n - 1, m - 1
            out['.l'], out['.m'] = np.arange(n), np.arange(m)
        else:
            out['.lon'], out['.lat'], out['.fill_value'] = obj[0].lon, obj[0].lat, obj[0].fill_value
        out['.filename'] = [o.filename for o in obj if o.filename]
        return out
    return ref


def lists(project, rep):
    months = {'time.adjust_months': lambda Xmonths: np.asarray(Xmonths) + 100}
    for order, sort, date, label in (((1, 2, 0), True, True, 'sorted'), ((0, 1, 2), False, True, 'unsorted'), ((0, 1, 2), True, False, 'undated')):
        case = {'date': date, 'sort': sort, 'clear': False}
        num.check(project, rep, 'coefficient', 'harmonics.harmonics.from_list', members('harmonics'),
            merged(order, ('clm', 'slm'), date), case={f'**{k}': v for k, v in case.items()}, label=label, opaque=months)
        num.check(project, rep, 'coefficient', 'spatial.spatial.from_list', members('spatial'),
            merged(order, ("data", "mask", "error"), date, False), case={f'**{k}': v for k, v in case.items()}, label=label, opaque=months)
    num.check(project, rep, 'coefficient', 'spatial.spatial.from_list', members('spatial', error=False),
        merged((1, 2, 0), ('data', 'mask'), True, False), case={'**date': True, '**sort': True, '**clear': False}, label='without error', opaque=months)
    num.check(project, rep, 'coefficient', 'spatial.spatial.from_list', members('spatial'),
        merged((1, 2, 0), ('data', 'mask', 'error'), True, False), defaults=True, label='defaults', opaque=months, case={'object_list': num.leaf('object_list')})
    num.check(project, rep, 'coefficient', 'harmonics.harmonics.from_list', members('harmonics'),
        merged((1, 2, 0), ('clm', 'slm'), True), defaults=True, label='defaults', opaque=months, case={'object_list': num.leaf('object_list')})


def stripes(project, rep):
    # each field goes through the decorrelation filter on its own, over all of its degrees and orders
    def filt(clm1, slm1, LMIN=None, LMAX=None, MMAX=None, **kw):
        w = 1.0 + 0.1 * np.sum(clm1) + 0.01 * np.sum(slm1) + LMIN + 0.3 * LMAX + 0.07 * MMAX
        return {'clm': clm1 * w, 'slm': slm1 * w + 1.0}

    def ref(L):
        c, s_ = L['self.clm'], L['self.slm']
        c3, s3 = (c, s_) if c.ndim == 3 else (c[:, :, None], s_[:, :, None])
        out = [filt(c3[:, :, i], s3[:, :, i], 1, 4, 3) for i in range(c3.shape[2])]
        r = {'.clm': np.stack([x['clm'] for x in out], 2), '.slm': np.stack([x['slm'] for x in out], 2), '.time': L['self.time'],
            '.month': L['self.month'], '.lmax': 4, '.mmax': 3}
        if c.ndim == 2:
            r['.clm'], r['.slm'] = r['.clm'][:, :, 0], r['.slm'][:, :, 0]
        return r
    for nt in (None, 5):
        num.check(project, rep, 'coefficient', 'harmonics.harmonics.destripe', h(nt), ref, label=f'{3 if nt else 2}-D',
            opaque={'destripe_harmonics.destripe_harmonics': filt}, kwargs_open=False)


def run(project, rep):
    rep.rule('coefficient', 'each output field is the named operation applied to the same field of the operands', floor=450)
    for mod, table in (('harmonics.harmonics', HARM), ('geocenter.geocenter', GEO), ('spatial.spatial', GRID),
            ('spatial.scaling_factors', FACTORS)):
        for m, label, leaves, ref, case in table:
            case = {k: num.inst(project, v, k) if k in ('temp', 'var') else v for k, v in case.items()}
            if mod.startswith('geocenter'):
                case['temp'] = num.inst(project, mod, 'temp')
                if m == 'from_dict':
                    case.pop('temp')
            num.check(project, rep, 'coefficient', f'{mod}.{m}', leaves, ref, case=case, label=label,
                **({'kwargs_open': False} if mod.startswith('geocenter') else {}))
    for mod, m, leaves, ref, case in DEFAULT:
        num.check(project, rep, 'coefficient', f'{mod}.{m}', leaves, ref, case=case, label='defaults', defaults=True)
    lists(project, rep)
    stripes(project, rep)
    arrays(project, rep)
