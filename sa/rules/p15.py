"""Models of glacial isostatic adjustment."""
import numpy as np
from .. import num, spec, store
from .p14 import Text

MODULES = ('read_GIA_model',)
READ = '''
from gravity_toolkit.read_GIA_model import read_GIA_model, gia
from gravity_toolkit.harmonics import harmonics
import vfs
def ref(v):
    d = vfs.folder({{}})
    f = d.joinpath({file!r})
    {lines}
    return {call}
'''
Q = 'read_GIA_model.read_GIA_model'
F = 'read_GIA_model.gia.from_GIA'


def order(l):
    return range(l + 1)


class Field:
    """the coefficients a file states"""

    def __init__(self):
        self.at = {}

    def arrays(self, v, scale, lmax, mmax=None):
        out = {k: np.zeros((lmax + 1, lmax + 1)) for k in ('clm', 'slm')}
        for (k, l, m), i in self.at.items():
            if l <= lmax:
                out[k][l, m] = v[i] * scale
        n = (lmax if mmax is None else mmax) + 1
        return {'clm': out['clm'][:, :n], 'slm': out['slm'][:, :n], 'l': np.arange(lmax + 1), 'm': np.arange(n)}

    def line(self, t, l, m, text='{} {} @ @ @ @'):
        i = t.add(text.format(l, m))
        self.at['clm', l, m], self.at['slm', l, m] = i[:2]


def triangle(lo, hi, back=False):
    terms = [(l, m) for l in range(lo, hi + 1) for m in order(l)]
    return terms[::-1] if back else terms


def pairs(t, hi):
    """orders two by two, the first of each degree headed by the degree"""
    f = Field()
    for l in range(hi + 1):
        for m in range(0, l + 1, 2):
            two = m < l
            i = t.add((f'{l} ' if m == 0 else '') + '@ @' + (' @ @' if two else ''))
            f.at['clm', l, m], f.at['slm', l, m] = i[:2]
            if two:
                f.at['clm', l, m + 1], f.at['slm', l, m + 1] = i[2:]
    return f


def column(t, lo, hi):
    f = Field()
    t.add('header')
    for l, m in triangle(lo, hi):
        f.at['clm', l, m] = t.add('@')[0]
        if m:
            f.at['slm', l, m] = t.add('@')[0]
    return f


def signed(t, hi, back):
    f = Field()
    for k in range(4):
        t.add(f'header {k}')
    rows = [(l, s * m) for l in range(hi + 1) for m in order(l) for s in ((1, -1) if m else (1,))]
    for l, m in rows[::-1] if back else rows:
        f.at['clm' if m >= 0 else 'slm', l, abs(m)] = t.add(f'{l} {m} @')[0]
    return f


def approximations(t, hi):
    """degrees to two, absolute values of the same, then the others"""
    f = Field()
    t.add('title')
    t.add('GRACE Approximation for degrees 0 to 2')
    for l, m in triangle(0, 2):
        f.line(t, l, m, '{} {} @ @')
    t.add('Absolute Sea-level Values for degrees 0 to 2')
    for l, m in triangle(0, 2):
        t.add(f'{l} {m} @ @')
    t.add('GRACE Approximation/Absolute Sea-level Values for degrees > 2')
    for l, m in triangle(3, hi):
        f.line(t, l, m, '{} {} @ @')
    return f


def run(project, rep):
    rep.rule('models', 'the coefficients of a model of isostatic adjustment are those its file states, in its units, to the asked degree and order', floor=40)
    fn, cl = project.require(Q), project.require(F)
    hi = 4

    def go(kind, file, t, f, title, scale=1.0, default=60, cuts=((None, None), (3, None), (4, 2), (6, 3), (3, 0)), tag='', more='', only=(0, 1)):
        for lmax, mmax in cuts:
            top = default if lmax is None else lmax
            for k in only:
                # the function and the object
                if k == 0:
                    opts = f', GIA={kind!r}' + (f', LMAX={lmax}' if lmax is not None else '') + (f', MMAX={mmax}' if mmax is not None else '') + more
                    call = f'read_GIA_model(f{opts})'
                else:
                    opts = f', GIA={kind!r}' + (f', mmax={mmax}' if mmax is not None else '')
                    call = f'gia({"" if lmax is None else f"lmax={lmax}"}).from_GIA(f{opts})'
                x = (cl if k else fn)
                rep.unit(x.short)

                def want(L, k=k, top=top, mmax=mmax):
                    w = f.arrays(L['v'], scale, top, mmax)
                    w['title'] = title
                    if k:
                        w.update(lmax=top, mmax=top if mmax is None else mmax)
                    return {(f'.{n}' if k else f'[{n}]'): y for n, y in w.items()}
                body = READ.format(file=file, call=call, lines='\n    '.join(["fid = f.open(mode='w')"] + [f'print({x}, file=fid)' for x in t.lines]))
                num.check(project, rep, 'models', x.short, lambda r: {'v': r.arr(max(t.n, 1)) * np.where(r.r.random(max(t.n, 1)) < 0.5, -1.0, 1.0)}, want,
                    func=spec.ref_func(project, body), stand=store.stands(project), depth=9, budget=4000000, kwargs_open=False, models=2, tol=1e-11,
                    where=f'{x.module.rel}:{x.node.lineno}', tag=f'{x.short}[{kind}{tag},{"-" if lmax is None else lmax},{"-" if mmax is None else mmax}{more}]')
    # the order of an object by its other name
    t, f = Text(), Field()
    for l, m in triangle(0, hi):
        f.line(t, l, m)
    for lmax, mmax in ((4, 2), (None, 2), (4, 4)):
        def named(L, lmax=lmax, mmax=mmax):
            w = f.arrays(L['v'], 1.0, 120 if lmax is None else lmax, mmax)
            return {f'.{n}': y for n, y in w.items()}
        body = READ.format(file='grate_B.clm', call=f'gia({"" if lmax is None else f"lmax={lmax}"}).from_GIA(f, GIA="W12a", MMAX={mmax})',
            lines='\n    '.join(["fid = f.open(mode='w')"] + [f'print({x}, file=fid)' for x in t.lines]))
        num.check(project, rep, 'models', cl.short, lambda r: {'v': r.arr(t.n)}, named, func=spec.ref_func(project, body), stand=store.stands(project), depth=9,
            budget=4000000, kwargs_open=False, models=2, tol=1e-11, where=f'{cl.module.rel}:{cl.node.lineno}', tag=f'{cl.short}[MMAX={mmax},{lmax}]')
    lists = (('IJ05-R2', 'Stokes.R2_65_.2_1.5_L120', 'IJ05_R2_65_.2_1.5', 1e-11, 120), ('W12a', 'grate_B.clm', 'W12a_Best', 1.0, 120),
        ('W12a', 'grate_L.clm', 'W12a_Lower', 1.0, 120), ('W12a', 'grate_U.clm', 'W12a_Upper', 1.0, 120), ('SM09', 'grate_120p58.clm', 'SM09_Huy2_120_.5_8', 1.0, 120),
        ('AW13-ICE6G', 'stokes.ice6g_D.txt', 'AW13_ice6g_D', 1.0, 100), ('AW13-ICE6G', 'stokes.ice6g.VM5', 'AW13_ice6g_VM5', 1.0, 100),
        ('AW13-IJ05', 'stokes.R2_65_.2_1.5_ANT', 'AW13_IJ05_R2_65_.2_1.5', 1.0, 256), ('AW13-IJ05', 'stokes.R2_65_.2_1.5', 'AW13_IJ05_R2_65_.2_1.5', 1.0, 256))
    for i, (kind, file, title, scale, default) in enumerate(lists):
        for back in ((False, True) if i in (0, 4) else (False,)):
            t, f = Text(), Field()
            t.add('degree order')
            t.add('')
            for l, m in triangle(2, hi, back):
                f.line(t, l, m)
            go(kind, file, t, f, title, scale, default, tag=f',{file}' + (',reversed' if back else ''), **({} if i in (0, 5) else {'cuts': ((None, None), (3, 2))}))
    t = Text()
    go('ICE6G', 'Stokes_G_Rot_60_I6_A_VM5a', t, pairs(t, 6), 'ICE6G_VM5a', 1e-11, 60, cuts=((3, None), (4, 2), (6, 3), (3, 0)))
    t = Text()
    go('Wu10', 'wu.txt', t, column(t, 1, 6), 'Wu_2010', 1.0 / 6.371e9, 60, cuts=((3, None), (4, 2), (6, 3), (3, 0)))
    for back in (False, True):
        t = Text()
        go('Caron', 'GIA_maps_Caron.txt', t, signed(t, hi, back), 'Caron_expt', 1.0, 89, tag=',reversed' if back else '')
    for file, title in (('Stokes_trend_High_Res.txt', 'ICE6G-D_High_Res'), ('ICE-6G_High_Res_Stokes_trend.txt', 'ICE6G-D_High_Res')):
        t = Text()
        go('ICE6G-D', file, t, approximations(t, hi), title, 1.0, 256, tag=f',{file}')
    # plain lists of the coefficients
    for back in (False, True):
        t, f = Text(), Field()
        for l, m in triangle(0, hi, back):
            f.line(t, l, m, '{} {} @ @')
        go('ascii', 'any_model.txt', t, f, 'any_model', 1.0, 60, tag=',reversed' if back else '')
    # exponents as Fortran prints them
    t, f = Text('{:24.17D}'), Field()
    for l, m in triangle(2, hi):
        f.line(t, l, m)
    go('IJ05-R2', 'Stokes.R2_65_.2_1.5_L120', t, f, 'IJ05_R2_65_.2_1.5', 1e-11, 120, cuts=((3, 2),), tag=',D')
    reformatted(project, rep, fn, cl, hi)


FILED = '''
from gravity_toolkit.read_GIA_model import read_GIA_model, gia
from gravity_toolkit.harmonics import harmonics
import vfs
def ref(c, s):
    d = vfs.folder({{}})
    h = harmonics().from_dict(dict(clm=c, slm=s, l=np.arange({n}), m=np.arange({n})))
    h.to_file(d.joinpath('model.{end}'), format={kind!r}, date=False{names})
    return {call}
'''
WRITTEN = '''
from gravity_toolkit.read_GIA_model import read_GIA_model
import vfs
def ref(v):
    d = vfs.folder({{}})
    f = d.joinpath('grate_B.clm')
    fid = f.open(mode='w')
    {lines}
    w = read_GIA_model(f, GIA='W12a', LMAX={lmax}{more}, DATAFORM={kind!r})
    return {get}
'''
ENDS = {'ascii': 'txt', 'netCDF4': 'nc', 'HDF5': 'H5'}


def low(r, n):
    return {k: np.tril(r.arr(n, n)) * np.where(r.r.random((n, n)) < 0.5, -1.0, 1.0) for k in 'cs'}


def reformatted(project, rep, fn, cl, hi):
    """models written as plain fields, and read from them"""
    n = hi + 1
    kw = {'stand': store.stands(project), 'depth': 9, 'budget': 4000000, 'kwargs_open': False, 'models': 2, 'tol': 1e-11}
    for kind, end in ENDS.items():
        for lmax, mmax in ((None, None), (3, None), (4, 2), (6, 3)):
            top = 60 if lmax is None else lmax
            for k in (0, 1) if kind != 'ascii' else ():
                x = cl if k else fn
                for names in (('', ", title='ICE', reference='R. Author'")):
                    if k == 0:
                        call = f"read_GIA_model(d.joinpath('model.{end}'), GIA={kind!r}" + (f', LMAX={lmax}' if lmax else '') + (f', MMAX={mmax}' if mmax else '') + ')'
                    else:
                        call = f"gia({f'lmax={lmax}' if lmax else ''}).from_GIA(d.joinpath('model.{end}'), GIA={kind!r}" + (f', mmax={mmax}' if mmax else '') + ')'

                    def want(L, top=top, mmax=mmax, k=k, names=names, kind=kind):
                        w = {}
                        for a, b in (('clm', 'c'), ('slm', 's')):
                            big = np.zeros((max(top + 1, n), max(top + 1, n)))
                            big[:n, :n] = L[b]
                            w[a] = big[:top + 1, :(top if mmax is None else mmax) + 1]
                        w.update(l=np.arange(top + 1), m=np.arange(w['clm'].shape[1]))
                        w.update({'title': 'ICE', 'reference': 'R. Author'} if names else {})
                        return {(f'.{i}' if k else f'[{i}]'): y for i, y in w.items()}
                    num.check(project, rep, 'models', x.short, lambda r: low(r, n), want, func=spec.ref_func(project, FILED.format(n=n, end=end, kind=kind, names=names, call=call)),
                        where=f'{x.module.rel}:{x.node.lineno}', tag=f'{x.short}[{kind},{"-" if lmax is None else lmax},{"-" if mmax is None else mmax}{",named" if names else ""}]', **kw)
        for more, lmax in (('', 3), (', MMAX=2', 4)):
            t, f = Text(), Field()
            for l, m in triangle(0, hi):
                f.line(t, l, m)
            get = {'file': f"harmonics().from_file(d.joinpath('stokes_W12a_Best_L{lmax}.{end}'), format={kind!r}, date=False)", 'result': 'w'}
            for g, text in get.items():
                mmax = 2 if more and g == 'result' else None

                def both(L, g=g, mmax=mmax, lmax=lmax, f=f):
                    w = f.arrays(L['v'], 1.0, lmax, mmax)
                    return {(f'.{i}' if g == 'file' else f'[{i}]'): y for i, y in w.items() if i in ('clm', 'slm', 'l', 'm')}
                body = WRITTEN.format(lines='\n    '.join(f'print({x}, file=fid)' for x in t.lines), lmax=lmax, more=more, kind=kind, get=text)
                num.check(project, rep, 'models', fn.short, lambda r: {'v': r.arr(t.n)}, both,
                    func=spec.ref_func(project, 'from gravity_toolkit.harmonics import harmonics\n' + body),
                    where=f'{fn.module.rel}:{fn.node.lineno}', tag=f'{fn.short}[to {kind}{more},{g}]', **kw)
