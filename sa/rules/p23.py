"""Level-2 GRACE/GRACE-FO files: coefficients, dates, drift and pole tide."""
import datetime
import numpy as np
from .. import num, spec, store
from .p22 import TIMELINE

READ = '''
from gravity_toolkit.read_GRACE_harmonics import read_GRACE_harmonics
from pathlib import Path
import io
def pack(f, kind):
    f.packed = kind
    return f
def ref(c, s, ec, es, dc, ds):
    f = Path({name!r})
    fid = f.open(mode='w')
    {lines}
    {prep}
    r = read_GRACE_harmonics({source}, {args})
    {post}
    return r
'''
Q = 'read_GRACE_harmonics.read_GRACE_harmonics'
# terms of the file, in its order
TERMS = [(0, 0), (1, 0), (2, 0), (3, 0), (4, 0), (1, 1), (2, 1), (3, 1), (4, 1), (2, 2), (3, 2), (4, 2), (3, 3), (4, 3), (4, 4)]
DRIFT = [(2, 0), (2, 1), (4, 0), (3, 3)]
HEAD = {'yaml': ['header:', '  dimensions:', '    degree             : 4', '  global_attributes: ', '    summary : "GRACE: x"', '# End of YAML header'],
    'old': ['FIRST text  ', 'CMMNT  more text', '', 'SHM   4 4 1.00 fully normalized'],
    'gfc': ['modelname   X Y', 'radius 6378136.3', 'key L M C S', 'end_of_head ====']}


def name_of(dset, first, last, craft, centre, level, rel, end=''):
    return f'{dset}-2_{first[0]:04d}{first[1]:03d}-{last[0]:04d}{last[1]:03d}_{craft}_{centre}_{level}_{rel}{end}'


def days(year):
    return 366 if year % 4 == 0 and (year % 100 != 0 or year % 400 == 0) else 365


def julian(year, doy):
    return datetime.date(year, 1, 1).toordinal() - 1 + doy + 1721424.5


def middle(first, last):
    n = days(first[0])
    return first[0] + (first[1] + (last[0] - first[0]) * n + last[1]) / 2.0 / n


def pole_tide(centre, t):
    dt = t - 2000.0
    m1, m2 = 0.0, 0.0
    if centre in ('UTCSR', 'JPLEM', 'JPLMSC'):
        # IERS mean pole
        if t < 2010.0:
            a, b = (0.055974, 1.8243e-3, 1.8413e-4, 7.024e-6), (-0.346346, -1.7896e-3, 1.0729e-4, 0.908e-6)
        else:
            a, b = (0.023513, 7.6141e-3, 0.0, 0.0), (-0.358891, 0.6287e-3, 0.0, 0.0)
        m1 = sum(x * dt**i for i, x in enumerate(a))
        m2 = sum(x * dt**i for i, x in enumerate(b))
    elif centre not in ('EIGEN', 'GFZOP'):
        return 0.0, 0.0
    p, q = m1 - 0.62e-3 * dt, m2 + 3.48e-3 * dt
    return -1.551e-9 * p - 0.012e-9 * q, 0.021e-9 * p - 1.505e-9 * q


def case(project, rep, label, first, last, dset='GSM', craft='GRAC', centre='UTCSR', level='BA01', rel='0600', end='', head='yaml', lmax=4, mmax=None,
         pole=False, source='f', drift=False, terms=TERMS, prep='pass', flag='GRCOF2', number='{:22.14E}', made=None):
    fn = project.require('harmonics.harmonics.from_SHM' if made else Q)
    name = name_of(dset, first, last, craft, centre, level, rel, end)
    lines = [repr(x) for x in HEAD[head]]
    for i, (l, m) in enumerate(terms):
        lines.append(f"'{flag:6s} {l:5d} {m:5d} {number} {number} {number} {number} 20020405.0 nnnn'.format(c[{i}], s[{i}], ec[{i}], es[{i}])")
    if drift:
        for i, (l, m) in enumerate(DRIFT):
            lines.append(f"'GRDOTA {l:5d} {m:5d} {number} {number} 0.0 0.0 20000101.0'.format(dc[{i}], ds[{i}])")
    args = [f'{lmax}'] + ([f'MMAX={mmax}'] if mmax is not None else []) + (['POLE_TIDE=True'] if pole else [])
    text = READ.format(name=name, lines='\n    '.join(f'print({x}, file=fid)' for x in lines), prep=prep.format(name=name), source=source, args=', '.join(args),
        post="r['header'] = [r['header']['modelname'], r['header']['radius'], len(r['header'].keys())]" if end == '.gfc' else 'pass')
    if made:
        # the same file as an object
        text = text.replace('from gravity_toolkit.read_GRACE_harmonics import read_GRACE_harmonics', 'from gravity_toolkit.harmonics import harmonics')
        text = text.replace('read_GRACE_harmonics(f, ' + ', '.join(args), made.format(name='f', args=''.join(f', {x}' for x in args[1:]), lmax=lmax, mmax=mmax))
    f = spec.ref_func(project, text)
    mm = lmax if mmax is None else mmax
    t = middle(first, last)

    def leaves(r):
        L = {k: 1e-9 * (r.arr(n) - 1.0) for k, n in (('c', len(terms)), ('s', len(terms)), ('ec', len(terms)), ('es', len(terms)), ('dc', len(DRIFT)), ('ds', len(DRIFT)))}
        # one large value, so that differences are judged on its scale
        L['c'][0] = L['s'][0] = 1.0
        return L

    def ref(L):
        w = {}
        for k, x in (('clm', 'c'), ('slm', 's'), ('eclm', 'ec'), ('eslm', 'es')):
            w[k] = np.zeros((lmax + 1, mm + 1))
            if k == 'clm':
                w[k][0, 0] = 1.0
            for (l, m), v in zip(terms, L[x]):
                if l <= lmax and m <= mm:
                    w[k][l, m] = v
        if drift and rel == '0004' and 'GSM' in dset:
            for (l, m), a, b in zip(DRIFT, L['dc'], L['ds']):
                if l <= lmax and m <= mm:
                    w['clm'][l, m] += (t - 2003.3) * a
                    w['slm'][l, m] += (t - 2003.3) * b
        if pole and 'GSM' in dset:
            a, b = pole_tide(centre, t)
            # in units that the comparison resolves
            w['clm'][2, 1] -= a
            w['slm'][2, 1] -= b
        w.update(time=t, start=julian(*first), end=julian(*last), l=np.arange(lmax + 1), m=np.arange(mm + 1))
        w['header'] = {'old': [x.rstrip() for x in HEAD['old'] if x], 'yaml': '\n'.join(HEAD['yaml']).replace('GRACE: x', 'GRACE, x'),
            'gfc': ['X Y', '6378136.3', 2]}[head]
        if head == 'gfc' and end != '.gfc':
            w['header'] = [x.rstrip() for x in HEAD['gfc'] if x]
            if int(rel) >= 6:
                w['header'] = '\n'.join(HEAD['gfc'])
        if made:
            for k in ('eclm', 'eslm', 'start', 'end'):
                del w[k]
            return {f'.{k}': v for k, v in {**w, 'month': int(np.floor(12.0 * (t - 2002.0))) + 1}.items()}
        return {f'[{k}]': v for k, v in w.items()}
    return num.check(project, rep, 'object' if made else 'level 2', Q, leaves, ref, func=f, label=label, stand=store.stands(project), depth=9, budget=3000000,
        kwargs_open=False, where=f'{fn.module.rel}:{fn.node.lineno}', models=2, funcs=TIMELINE, tag=f'{fn.short}[{label}]', tol=1e-12)


GFC = '''
from gravity_toolkit.read_gfc_harmonics import read_gfc_harmonics
from pathlib import Path
def ref():
    m = read_gfc_harmonics(Path({name!r}){args})
    return (m['time'], m['start'], m['end'], m['tide'], m['flag'], m['zip'], m['file'], m['clm'])
'''
G = 'read_gfc_harmonics.read_gfc_harmonics'


def clock(y, mo, d, h=0, mi=0, s=0):
    """day of the year and Julian date of an instant"""
    day = (h + mi / 60.0 + s / 3600.0) / 24.0
    o = datetime.date(y, mo, d).toordinal()
    return o - datetime.date(y, 1, 1).toordinal() + 1 + day, o + 1721424.5 + day


def gfc(project, rep, name, start, end, tide=None, flag=None):
    fn = project.require(G)
    args = (f', TIDE={tide!r}' if tide else '') + (f', FLAG={flag!r}' if flag else '')
    n = days(start[0])
    (a, ja), (b, jb) = clock(*start), clock(*end)
    t = start[0] + (a + b + (end[0] - start[0]) * n) / 2.0 / n
    want = (t, ja, jb, tide, flag or 'gfc', name.upper().endswith('ZIP'), name, 'clm')
    num.check(project, rep, 'gfc', G, lambda r: {}, lambda L: {f'#{i}': x for i, x in enumerate(want)}, func=spec.ref_func(project, GFC.format(name=name, args=args)),
        label=name, stand=store.stands(project), depth=9, budget=3000000, kwargs_open=False, where=f'{fn.module.rel}:{fn.node.lineno}', models=1,
        funcs=TIMELINE, tag=f'{fn.short}[{name}{args}]', tol=1e-12)


def icgem(project, rep):
    rep.unit(project.require(G).short)
    for k, what in enumerate(('atmosphere', 'dealiasing', 'oceanBottomPressure', 'ocean', 'Grace2014', 'Grace2016', 'Grace2018', 'Grace_operational')):
        for y in (2003, 2004):
            for m in (1, 2, 3, 12):
                last = (datetime.date(y + m // 12, m % 12 + 1, 1) - datetime.timedelta(1)).day
                head, trunc = ('model', 'ITSG', 'AOD1B_RL06')[(k + m) % 3], ('', '_n60', '_n120')[(k + y) % 3]
                gfc(project, rep, f'{head}{"-_"[m % 2]}{what}{trunc}_{y}-{m:02d}.gfc', (y, m, 1), (y, m, last, 23, 59, 59))
    gfc(project, rep, 'ITSG-Grace2018_n60_2008-02.gfc', (2008, 2, 1), (2008, 2, 29, 23, 59, 59), tide='zero_tide', flag='abc')
    for end in ('.gfc', '.ZIP'):
        for dset in ('GAA', 'GAB', 'GAC', 'GAD'):
            gfc(project, rep, f'{dset}_Swarm_40_02_2016{end}', (2016, 2, 1), (2016, 2, 29, 23, 59, 59))
        for s, e in (((2013, 12, 1), (2013, 12, 31, 23, 59, 59)), ((2016, 2, 10, 6, 30, 15), (2016, 3, 9, 12, 15, 30)), ((2016, 12, 20), (2017, 1, 19, 18, 0, 0))):
            f = [f'{x[0]:04d}{x[1]:02d}{x[2]:02d}T' + ''.join(f'{y:02d}' for y in (tuple(x[3:]) + (0, 0, 0))[:3]) for x in (s, e)]
            gfc(project, rep, f'SW_OPER_EGF_SHA_2__{f[0]}_{f[1]}_0101{end}', s, e)


MODEL = """
import numpy as np
def model(path, TIDE=None, FLAG='gfc', ZIP=False):
    # the reader of an optional package
    return {'clm': np.array([[1.0, 0.0, 0.0], [0.25, 0.5, 0.0], [-0.125, 3.0, -2.0]]), 'slm': np.array([[0.0, 0.0, 0.0], [0.0, -1.5, 0.0], [0.0, 0.75, 4.0]]),
        'max_degree': '2', 'earth_gravity_constant': '3986004.5', 'radius': '6378.25', 'tide_system': TIDE or 'zero_tide', 'file': path.name}
"""
WHOLE = """
from gravity_toolkit.harmonics import harmonics
from pathlib import Path
def ref():
    f = Path({name!r})
    fid = f.open(mode='w')
    print('gfc', file=fid)
    return harmonics().{method}({name!r}{args})
"""


def whole(project, rep):
    """models and monthly files as objects"""
    rep.rule('object', 'the object made from a file has its coefficients, degrees, orders, parameters, date and month', floor=6)
    m = store.bind(project, None, MODEL)
    stand = {**store.stands(project), 'geoid_toolkit.read_ICGEM_harmonics': next(x for x in m.functions if x.name == 'model')}
    fn = project.require('harmonics.harmonics.from_gfc')
    rep.unit(fn.short)
    c = np.array([[1.0, 0.0, 0.0], [0.25, 0.5, 0.0], [-0.125, 3.0, -2.0]])
    s = np.array([[0.0, 0.0, 0.0], [0.0, -1.5, 0.0], [0.0, 0.75, 4.0]])
    for name, month in (('ITSG-Grace2018_n60_2008-02.gfc', (2008, 2)), ('ITSG-Grace_operational_n96_2019-12.gfc', (2019, 12)), ('ITSG-Grace2018_n60_2003-01.gfc', (2003, 1)), ('GAC_Swarm_40_07_2016.gfc', (2016, 7)), ('EIGEN-6C.gfc', None)):
        for args, tide in (('', 'zero_tide'), (", tide='mean_tide'", 'mean_tide')):
            w = {'.clm': c, '.slm': s, '.lmax': 2, '.mmax': 2, '.l': np.arange(3), '.m': np.arange(3), '.GM': 3986004.5, '.R': 6378.25, '.tide': tide}
            if month:
                args += ', date=True'
                n = days(month[0])
                first = datetime.date(*month, 1).toordinal() - datetime.date(month[0], 1, 1).toordinal()
                last = (datetime.date(month[0] + month[1] // 12, month[1] % 12 + 1, 1).toordinal() - datetime.date(month[0], 1, 1).toordinal())
                w['.time'] = month[0] + (first + 1 + last + 86399.0 / 86400.0) / 2.0 / n
                w['.month'] = 12 * (month[0] - 2002) + month[1]
            for method, more in (('from_gfc', ''), ('from_file', ", format='gfc'")):
                if method == 'from_file' and month:
                    continue
                num.check(project, rep, 'object', 'harmonics.harmonics.from_gfc', lambda r: {}, lambda L: w, func=spec.ref_func(project, WHOLE.format(name=name, method=method, args=more + args)), stand=stand,
                    depth=9, budget=3000000, kwargs_open=False, where=f'{fn.module.rel}:{fn.node.lineno}', models=1, funcs=TIMELINE, tag=f'{fn.short}[{name},{method}{more}{args}]', tol=1e-12, fold=True)


def run(project, rep):
    rep.rule('level 2', 'a Level-2 file gives its coefficients and standard deviations at their degrees and orders up to the truncation, the dates of '
        'its name, and the corrections that apply to its release and centre', floor=60)
    rep.assume('files hold the lines written to them and gzip what it is given (contract in sa/store.py); the YAML header is parsed by its library')
    rep.unit(project.require(Q).short)
    rep.rule('gfc', 'the dates of a monthly model come from its name, and the model is read with the options given', floor=60)
    icgem(project, rep)
    A = ((2004, 32), (2004, 60))
    B, C = ((2003, 335), (2004, 5)), ((2011, 60), (2011, 90))
    centres = ('UTCSR', 'EIGEN', 'GFZOP', 'JPLEM', 'JPLMSC', 'GRGS', 'COSTG')

    def go(label, dates=A, **kw):
        case(project, rep, label, *dates, **kw)
    for centre in centres:
        for dates in (A, C):
            kw = {'head': 'gfc', 'flag': 'gfc'} if centre == 'COSTG' else {}
            go(f'{centre},{dates[0][0]}', dates, centre=centre, **kw)
            go(f'{centre},{dates[0][0]},pole tide', dates, centre=centre, pole=True, **kw)
    go('pole tide,2009', ((2009, 335), (2009, 364)), pole=True)
    go('pole tide,2010', ((2010, 1), (2010, 30)), pole=True)
    for dset in ('GSM', 'GAA', 'GAB', 'GAC', 'GAD'):
        go(f'{dset},pole tide', dset=dset, pole=True)
        go(f'{dset},release 4', B, dset=dset, centre='EIGEN', rel='0004', head='old', drift=dset == 'GSM')
    for rel in ('0003', '0005', '0006', '0601'):
        go(f'release {rel}', rel=rel, head='old' if rel in ('0003', '0005') else 'yaml')
    go('follow-on', ((2019, 1), (2019, 31)), craft='GRFO', rel='0601')
    for lmax, mmax in ((4, None), (4, 2), (3, 3), (2, 1), (2, 0), (6, None), (6, 5)):
        go(f'{lmax}x{mmax}', lmax=lmax, mmax=mmax)
        go(f'{lmax}x{mmax},drift', lmax=lmax, mmax=mmax, centre='EIGEN', rel='0004', head='old', drift=True)
    for dates in (B, ((2004, 336), (2005, 10)), ((2000, 336), (2000, 366)), ((2003, 1), (2003, 31)), ((2004, 366), (2005, 1))):
        go(f'{dates[0][0]}-{dates[0][1]:03d}-{dates[1][0]}-{dates[1][1]:03d}', dates)
    go('no degree zero', terms=TERMS[2:])
    go('reversed terms', terms=TERMS[::-1])
    go('gzip', end='.gz', prep="pack(f, 'gzip')")
    go('text', end='.txt')
    go('gfc', end='.gfc', head='gfc', flag='gfc')
    go('bytes', source='b', prep='b = io.BytesIO(f); b.filename = {name!r}')
    # filtered by DDK and combined solutions
    go('ddk', dset='kfilter_DDK5_GSM', head='gfc', flag='gfc', end='.gfc')
    go('ddk,text', dset='kfilter_DDK5_GSM', head='old', flag='gfc', rel='0005', pole=True)
    whole(project, rep)
    for made in ('harmonics(lmax={lmax}, mmax={mmax}).from_SHM({name}{args}', "harmonics(lmax={lmax}, mmax={mmax}).from_file({name}, format='SHM'{args}"):
        for k, kw in enumerate(({'lmax': 4, 'mmax': 4}, {'lmax': 3, 'mmax': 2}, {'lmax': 4, 'mmax': 4, 'pole': True, 'head': 'old', 'rel': '0005'})):
            go(f'object,{k},{made[34:43]}', made=made, **kw)
