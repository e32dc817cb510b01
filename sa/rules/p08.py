"""Monthly series: files of the months, replaced low degrees, geocenter and corrections."""
import ast
import pathlib
import zlib
from types import SimpleNamespace
import numpy as np
from .. import effects, ev, num, spec, store
from ..project import External

MODULES = ('grace_input_months',)
F = 'grace_input_months.grace_input_months'
BASE = '/data'


# what the readers give for a file (any function of all of their arguments)
def rng(*key):
    return np.random.default_rng(zlib.crc32(repr(key).encode()))


def files(base_dir, PROC='', DREL='', DSET='', OUTPUT=True, MODE=0o775):
    return {m: f'{base_dir}/{PROC}/{DREL}/{DSET}/{DSET}-2_{int(m):03d}_{PROC}_{DREL}.gz' for m in range(1, 300)}


def monthly(infile, size, *key):
    r = rng(str(infile), *key)
    d = {k: r.random((size[0] + 1, size[1] + 1)) for k in ('clm', 'slm', 'eclm', 'eslm')}
    return {**d, 'time': 2002.0 + 20.0 * r.random()}


def level2(infile, LMAX, MMAX=None, POLE_TIDE=False):
    return monthly(infile, (int(LMAX), int(LMAX if MMAX is None else MMAX)), bool(POLE_TIDE))


def icgem(infile, TIDE=None, FLAG='gfc'):
    return monthly(infile, (9, 9), TIDE, FLAG)


SKIP = ()


def table(name, *key):
    r = rng(name, *key)
    months = np.array([m for m in r.permutation(260) + 1 if m not in SKIP])
    return r, months


def zonal(kind):
    def read(SLR_file, MEAN=0.0, DATE=None, HEADER=True):
        r, months = table(kind, str(SLR_file), None if DATE is None else np.round(DATE, 9).tolist(), MEAN, HEADER)
        return {'month': months, 'data': r.random(len(months)), 'error': r.random(len(months)), 'time': r.random(len(months))}
    return read


def c20(SLR_file, AOD=True, HEADER=True):
    return zonal('C20')(SLR_file, AOD, None, HEADER)


def c30(SLR_file, C30_MEAN=0.0, HEADER=True):
    return zonal('C30')(SLR_file, None, None, HEADER)


def c40(SLR_file, C40_MEAN=0.0, DATE=None, HEADER=True):
    return zonal('C40')(SLR_file, C40_MEAN, DATE, HEADER)


def c50(SLR_file, C50_MEAN=0.0, DATE=None, HEADER=True):
    return zonal('C50')(SLR_file, C50_MEAN, DATE, HEADER)


def cs2(SLR_file, ORDER=1, DATE=None, HEADER=True):
    r, months = table('CS2', str(SLR_file), int(ORDER), None if DATE is None else np.round(DATE, 9).tolist(), HEADER)
    return {'month': months, **{k: r.random(len(months)) for k in ('C2m', 'S2m', 'eC2m', 'eS2m', 'time')}}


def centre(kind):
    def read(geocenter_file, **kw):
        r, months = table(kind, str(geocenter_file), sorted((k, str(v)) for k, v in kw.items() if k not in ('header', 'columns')))
        return SimpleNamespace(month=months, time=2002.0 + months / 12.0, **{k: r.random(len(months)) for k in ('C10', 'C11', 'S11')})
    return read


def jumps(base_dir, LMAX, months, MMAX=None):
    n = (int(LMAX) + 1, int(LMAX if MMAX is None else MMAX) + 1, len(months))
    r = rng('atm', str(base_dir), n)
    return {'clm': r.random(n), 'slm': r.random(n), 'files': ['TN-08', 'TN-09', 'TN-10']}


def fit(t_in, d_in, t_out, ORDER=2, CYCLES=None, RELATIVE=0.0):
    t_in, t_out = np.squeeze(t_in), np.atleast_1d(np.squeeze(t_out))
    ref = RELATIVE or np.mean(t_in)

    def design(t):
        cols = [(t - ref)**o for o in range(int(ORDER) + 1)]
        for c in CYCLES:
            cols += [np.sin(2.0 * np.pi * t / c), np.cos(2.0 * np.pi * t / c)]
        return np.transpose(cols)
    return design(t_out) @ np.linalg.lstsq(design(t_in), np.squeeze(d_in), rcond=-1)[0]


OPAQUE = {'grace_date.grace_date': files, 'read_GRACE_harmonics.read_GRACE_harmonics': level2, 'read_gfc_harmonics.read_gfc_harmonics': icgem,
    'SLR.C20.C20': c20, 'SLR.C30.C30': c30, 'SLR.C40.C40': c40, 'SLR.C50.C50': c50, 'SLR.CS2.CS2': cs2,
    **{f'geocenter.geocenter.from_{k}': centre(k) for k in ('tellus', 'SLR', 'UCI', 'swenson', 'gravis')},
    'grace_input_months.read_ecmwf_corrections': jumps, 'grace_input_months.regress_model': fit}


# the files of the replaced coefficients
def replaced(opt, source, drel):
    """file, source name, reader"""
    g = 'GRAVIS-2B_GFZOP_GRACE+SLR_LOW_DEGREES_0003.dat'
    five, week = 'CSR_Monthly_5x5_Gravity_Harmonics.txt', 'gsfc_slr_5x5c61s61.txt'
    who = {'GFZ': 'GFZ GravIS', 'LARES': 'CSR LARES'}.get(source, source)
    if opt == 'SLR_C20':
        f = {'CSR': {'RL04': 'TN-05_C20_SLR.txt', 'RL05': 'TN-07_C20_SLR.txt', 'RL06': 'C20_RL06.txt'}.get(drel), 'GFZ': f'GFZ_{drel}_C20_SLR.dat',
            'GSFC': 'TN-14_C30_C20_GSFC_SLR.txt'}[source]
        return f, source, c20
    if opt in ('SLR_21', 'SLR_22'):
        m = int(opt[-1])
        f = {'CSR': f'C2{m}_S2{m}_{drel}.txt', 'GFZ': g, 'GSFC': week}[source]
        return f, who, lambda p, t: cs2(p, m, t) if source == 'GSFC' else cs2(p)
    deg = int(opt[-2])
    f = {'CSR': five, 'LARES': f'C{deg}0_LARES_filtered.txt', 'GFZ': g, 'GSFC': 'TN-14_C30_C20_GSFC_SLR.txt' if deg == 3 else week}[source]
    read = {3: c30, 4: c40, 5: c50}[deg]
    return f, who, lambda p, t: read(p, DATE=t) if source == 'GSFC' and deg > 3 else read(p)


def geocenter(deg1, proc, drel, given):
    """file, source, reader"""
    old = drel in ('RL04', 'RL05')
    f = {'Tellus': f'deg1_coef_{drel}.txt' if old else f'TN-13_GEOC_{proc}_{drel}.txt', 'SLR': 'gct2est.220_5s', 'UCI': f'{proc}_{drel}_MPIOM_SLF_iter.txt',
        'SLF': f'{proc}_{drel}_MPIOM_SLF_iter.txt', 'Swenson': f'gad_gsm.{drel}.txt', 'GFZ': 'GRAVIS-2B_GFZOP_GEOCENTER_0003.dat'}[deg1]
    who = {'Tellus': 'JPL Tellus', 'SLR': 'CSR SLR', 'SLF': 'UCI', 'GFZ': 'GFZ GravIS'}.get(deg1, deg1)
    kind = {'Tellus': 'tellus', 'SLF': 'UCI', 'Swenson': 'swenson', 'GFZ': 'gravis'}.get(deg1, deg1)
    more = {'Tellus': {'JPL': not old}, 'SLR': {'AOD': True, 'release': drel}}.get(deg1, {})
    path = given if given else f'{BASE}/geocenter/{f}'
    return path, who, centre(kind)(path, **more)


def series(opts):
    """the published assembly of a monthly series"""
    def ref(L):
        proc, drel, dset = opts['PROC'], opts['DREL'], opts['DSET']
        lmax = L['LMAX']
        mmax = L.get('MMAX')
        mmax = lmax if mmax is None else mmax
        base = L['base_dir']
        months = [m for m in range(L['start_mon'], L['end_mon'] + 1) if m not in list(L['missing'])]
        at = files(base, proc, drel, dset)
        pt = opts.get('POLE_TIDE', False)
        out = {k: np.zeros((lmax + 1, mmax + 1, len(months))) for k in ('clm', 'slm', 'eclm', 'eslm')}
        time = np.zeros(len(months))
        for i, m in enumerate(months):
            y = icgem(at[m], TIDE='tide_free') if proc in ('GRAZ', 'Swarm') else level2(at[m], lmax, mmax, pt)
            for k in out:
                out[k][:, :, i] = y[k][:lmax + 1, :mmax + 1]
            time[i] = y['time']
        attrs = {'lineage': [pathlib.PurePath(at[m]).stem for m in months]}
        flags = []
        for opt in ('SLR_C20', 'SLR_21', 'SLR_22', 'SLR_C30', 'SLR_C40', 'SLR_C50'):
            source = opts.get(opt)
            if not source:
                continue
            name, who, read = replaced(opt, source, drel)
            d = read(f'{base}/{name}') if opt == 'SLR_C20' else read(f'{base}/{name}', time)
            attrs[opt.replace('_', ' ')] = (who, name)
            flags.append(f'_w{source}_{opt[4:]}')
            for i, m in enumerate(months):
                k = np.flatnonzero(d['month'] == m)
                if len(k) == 0 or (opt != 'SLR_C20' and m < 177):
                    continue
                k = k[0]
                if opt in ('SLR_21', 'SLR_22'):
                    o = int(opt[-1])
                    for a, b in (('clm', 'C2m'), ('slm', 'S2m'), ('eclm', 'eC2m'), ('eslm', 'eS2m')):
                        out[a][2, o, i] = d[b][k]
                else:
                    out['clm'][int(opt[-2]), 0, i] = d['data'][k]
                    out['eclm'][int(opt[-2]), 0, i] = d['error'][k]
        deg1 = opts.get('DEG1')
        if deg1:
            path, who, g = geocenter(deg1, proc, drel, L.get('DEG1_FILE'))
            attrs['geocenter'] = (who, pathlib.PurePath(path).name)
            flags.append(f'_w{deg1}_DEG1')
            for k, key, at1 in (('C10', 'clm', (1, 0)), ('C11', 'clm', (1, 1)), ('S11', 'slm', (1, 1))):
                model = fit(g.time, getattr(g, k), time, 2, [0.5, 1.0], 2003.3) if opts.get('MODEL_DEG1') else None
                for i, m in enumerate(months):
                    j = np.flatnonzero(g.month == m)
                    out[key][at1 + (i,)] = getattr(g, k)[j[0]] if len(j) else model[i]
        if opts.get('ATM'):
            flags.append('_wATM')
            attrs['atmospheric_correction'] = 'Fagiolini et al. (2015)'
            d = jumps(base, lmax, months, mmax)
            attrs['lineage'] = attrs['lineage'] + d['files']
            sign = {'GSM': -1.0, 'GAC': 1.0, 'GAA': 1.0}.get(dset, 0.0)
            for l in range(lmax + 1):
                for m in range(min(l, mmax) + 1):
                    out['clm'][l, m] += sign * d['clm'][l, m]
                    out['slm'][l, m] += sign * d['slm'][l, m]
        if pt:
            flags.append('_wPT')
            attrs['pole_tide_correction'] = 'Wahr et al. (2015)'
        out.update(time=time, month=np.array(months), l=np.arange(lmax + 1), m=np.arange(mmax + 1), title=''.join(flags),
            directory=pathlib.PurePosixPath(base, proc, drel, dset), attributes=attrs)
        return {f'[{k}]': v for k, v in out.items()}
    return ref


def draw(lo, hi, missing=(), lmax=6, **more):
    def leaves(r):
        return {'base_dir': BASE, 'LMAX': lmax, 'start_mon': lo, 'end_mon': hi, 'missing': list(missing), **more}
    return leaves


SPAN = (174, 181, (175, 179))
BOTH = {'.exists': lambda m, a, kw: True}


def assembly(project, rep, label, leaves, PROC='CSR', DREL='RL06', DSET='GSM', DEG1='', SLR_C20='', skip=(), must=False, **opts):
    global SKIP
    SKIP = tuple(skip)
    given = {'PROC': PROC, 'DREL': DREL, 'DSET': DSET, 'DEG1': DEG1, 'SLR_C20': SLR_C20, **opts}
    case = {k: num.leaf(k) for k in ('base_dir', 'LMAX', 'start_mon', 'end_mon', 'missing')}
    L = leaves(num.Rng(0))
    case.update({k: v for k, v in given.items() if k not in opts})
    case.update({f'**{k}': v for k, v in opts.items()})
    case.update({f'**{k}': num.leaf(k) for k in ('MMAX', 'DEG1_FILE') if k in L})
    num.check(project, rep, 'series', F, leaves, series(given), case=case, label=label, opaque=OPAQUE, funcs=BOTH, kwargs_open=False, models=2)


JUMPS = '''
from gravity_toolkit.grace_input_months import read_ecmwf_corrections
from pathlib import Path
class Folder(object):
    def __init__(self, table):
        self.table = table
    def joinpath(self, *names):
        return self.table[names[-1]]
def ref(c, s, first):
    table = {{}}
    for name in {names!r}:
        f = Path(name)
        fid = f.open(mode='w')
        print('FIRST  header GRCOF2', file=fid)
        table[name] = f
        {lines}
        f.packed = 'gzip'
    return read_ecmwf_corrections(Folder(table), {args})
'''
NAMES = ['TN-08_GAE-2_2006032-2010031_0000_EIGEN_G---_0005.gz', 'TN-09_GAF-2_2010032-2015131_0000_EIGEN_G---_0005.gz',
    'TN-10_GAG-2_2015132-2099001_0000_EIGEN_G---_0005.gz']
TERMS = [(2, 0), (3, 0), (4, 0), (1, 1), (2, 1), (4, 1), (2, 2), (3, 3), (4, 4)]


def corrections(project, rep, label, months, lmax, mmax=None):
    q = 'grace_input_months.read_ecmwf_corrections'
    fn = project.require(q)
    lines = []
    for i, (l, m) in enumerate(TERMS):
        for j, name in enumerate(NAMES):
            k = j * len(TERMS) + i
            lines.append(f"if name == {name!r}:\n            print('GRCOF2 {l:5d} {m:5d} {{:19.12E}} {{:19.12E}} 0.0 0.0'.format(c[{k}], s[{k}]), file=fid)")
    args = f'{lmax}, {months!r}' + (f', MMAX={mmax}' if mmax is not None else '')
    f = spec.ref_func(project, JUMPS.format(names=NAMES, lines='\n        '.join(lines), args=args))
    mm = lmax if mmax is None else mmax

    def ref(L):
        out = {k: np.zeros((lmax + 1, mm + 1, len(months))) for k in ('clm', 'slm')}
        for n, mon in enumerate(months):
            j = None if mon < 50 else 0 if mon < 98 else 1 if mon < 162 else 2
            if j is None:
                continue
            for i, (l, m) in enumerate(TERMS):
                if l <= lmax and m <= mm:
                    out['clm'][l, m, n] = L['c'][j * len(TERMS) + i]
                    out['slm'][l, m, n] = L['s'][j * len(TERMS) + i]
        return {'[clm]': out['clm'], '[slm]': out['slm'], '[files]': NAMES}
    rep.unit(fn.short)
    num.check(project, rep, 'jumps', q, lambda r: {'c': r.arr(27), 's': r.arr(27)}, ref, func=f, label=label, stand=store.stands(project), depth=9,
        budget=3000000, kwargs_open=False, where=f'{fn.module.rel}:{fn.node.lineno}', models=2, tag=f'{fn.short}[{label}]')


def modelled(project, rep):
    q = 'grace_input_months.regress_model'
    lf = num.leaf

    def leaves(order, cycles, ref, n=1):
        def go(r):
            t = np.sort(2002.0 + 10.0 * r.arr(20))
            return {'t_in': t, 'd_in': r.arr(20), 't_out': np.sort(2002.0 + 10.0 * r.arr(n)) if n else 2009.5, 'ORDER': order, 'CYCLES': list(cycles), 'RELATIVE': ref}
        return go
    names = ('t_in', 'd_in', 't_out', 'ORDER', 'CYCLES', 'RELATIVE')

    def ref(L):
        return {'return': fit(*[L[k] for k in names]), **{f'@{k}': L[k] for k in names[:3]}}
    for label, lv in (('usual', leaves(2, (0.5, 1.0), 2003.3, 4)), ('linear', leaves(1, (1.0,), 2003.3, 3)), ('about the mean', leaves(2, (0.5, 1.0), 0.0, 4)),
            ('one date', leaves(2, (0.5, 1.0), 2003.3, 1)), ('a number', leaves(2, (0.5, 1.0), 2003.3, 0)), ('no cycles', leaves(3, (), 2003.3, 2))):
        num.check(project, rep, 'model', q, lv, ref, case={k: lf(k) for k in names}, label=label, models=2, kwargs_open=False)


def refused(project, rep, label, leaves, why, **opts):
    """months without a replacement are refused"""
    global SKIP
    SKIP = (180,)
    f = project.require(F)
    case = {k: num.leaf(k) for k in ('base_dir', 'LMAX', 'start_mon', 'end_mon', 'missing')}
    given = {'PROC': 'CSR', 'DREL': 'RL06', 'DSET': 'GSM', 'DEG1': '', 'SLR_C20': '', **opts}
    case.update({(k if k in f.params else f'**{k}'): v for k, v in given.items()})
    impl, inline = num.meanings(project, OPAQUE)
    con = f'{f.short}[{label}]'
    try:
        out = num.outcome(project, f, case, kwargs_open=False, inline=inline)
    except (RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError) as exc:
        rep.unknown('refused', con, f'summary: {type(exc).__name__}: {exc}')
        return
    if out is None:
        rep.unknown('refused', con, 'analysis budget')
        return
    open_ = False
    for c, at, first in out.I.refused:
        m = ev.Model(1, leaves=leaves(num.Rng(1)), funcs={**impl, **BOTH})
        try:
            if not first and num.grounded(c, m.leaves) and m.truth(c, ()):
                rep.ok('refused', con)
                return
        except (ev.Opaque, ev.Fault, TypeError, ValueError):
            open_ = True
    if open_:
        rep.unknown('refused', con, 'a condition that is not decided')
    else:
        rep.bad('refused', con, why, f'{f.module.rel}:{f.node.lineno}')


def single(project, rep):
    """x, = nonzero(...); A[i] = B[x]: one value is stored, not an array of one"""
    n = 0
    for f in project.all_functions(scripts=True):
        arrays, sel = {}, set()
        for s in ast.walk(f.node):
            if not isinstance(s, ast.Assign) or len(s.targets) != 1:
                continue
            t, v = s.targets[0], s.value
            if isinstance(t, ast.Tuple) and len(t.elts) == 1 and isinstance(t.elts[0], ast.Name) and isinstance(v, ast.Call) and \
                    dotted(project, f, v.func) in ('numpy.nonzero', 'numpy.where') and len(v.args) == 1:
                sel.add(t.elts[0].id)
            if isinstance(t, ast.Name) and isinstance(v, ast.Call) and dotted(project, f, v.func) in ('numpy.zeros', 'numpy.ones', 'numpy.full', 'numpy.empty') and v.args:
                a = v.args[0]
                arrays[t.id] = len(a.elts) if isinstance(a, ast.Tuple) else 1
            elif isinstance(t, ast.Name) and isinstance(v, ast.Call) and dotted(project, f, v.func) in ('numpy.full_like', 'numpy.zeros_like') and v.args \
                    and isinstance(v.args[0], ast.Name) and v.args[0].id in SERIES:
                arrays[t.id] = 1
        if not sel:
            continue
        count = {x for s in ast.walk(f.node) if isinstance(s, ast.For) for x in loop_counter(s)}
        for s in ast.walk(f.node):
            if not isinstance(s, ast.Assign) or len(s.targets) != 1 or not isinstance(s.targets[0], ast.Subscript):
                continue
            t = s.targets[0]
            ix = t.slice.elts if isinstance(t.slice, ast.Tuple) else [t.slice]
            if not isinstance(t.value, ast.Name) or arrays.get(t.value.id) != len(ix) or not all(isinstance(x, ast.Name) and x.id in count for x in ix):
                continue
            n += 1
            con = f'{f.short} {ast.unparse(t)}'
            uses = [x for x in ast.walk(s.value) if isinstance(x, ast.Subscript) and any(isinstance(y, ast.Name) and y.id in sel
                for y in (x.slice.elts if isinstance(x.slice, ast.Tuple) else [x.slice]))]
            if uses:
                rep.bad('single', con, f'an array, {ast.unparse(uses[0])}, is stored in one element', f'{f.module.rel}:{s.lineno}')
            else:
                rep.ok('single', con)


SERIES = ('months',)


def dotted(project, f, node):
    e = project.resolve_expr(f.module, node)
    return e.name if isinstance(e, External) else None


def loop_counter(s):
    if isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'range' and isinstance(s.target, ast.Name):
        return [s.target.id]
    if isinstance(s.iter, ast.Call) and isinstance(s.iter.func, ast.Name) and s.iter.func.id == 'enumerate' and isinstance(s.target, ast.Tuple) and isinstance(s.target.elts[0], ast.Name):
        return [s.target.elts[0].id]
    return []


def run(project, rep):
    rep.rule('series', 'every coefficient, error, date and attribute of a monthly series is that of its source', floor=40)
    rep.rule('unchanged', 'no statement reached from the assembly changes the storage of its arguments', floor=1)
    rep.rule('jumps', 'the corrections of a month are those of the file of its period', floor=4)
    rep.rule('model', 'modelled values are those of the least-squares fit', floor=4)
    rep.rule('single', 'one value, not an array of one, is stored in one element')
    rep.rule('refused', 'months without replacement values are refused')
    effects.unchanged(project, rep, [f for f in project.all_functions(scripts=False) if effects.public(f) and f.module.name.rsplit('.', 1)[-1] in MODULES])
    span = draw(*SPAN)
    for proc in ('CSR', 'GRAZ', 'Swarm'):
        assembly(project, rep, proc, span, PROC=proc)
    assembly(project, rep, 'one month', draw(10, 10))
    assembly(project, rep, 'fewer orders', draw(*SPAN, MMAX=3), DEG1='Tellus', SLR_C20='GSFC')
    assembly(project, rep, 'pole tide', span, POLE_TIDE=True)
    for source in ('CSR', 'GFZ', 'GSFC'):
        assembly(project, rep, f'C20 {source}', span, SLR_C20=source)
    for rel in ('RL04', 'RL05'):
        assembly(project, rep, f'C20 CSR {rel}', span, SLR_C20='CSR', DREL=rel, DEG1='Tellus')
    for opt, sources in (('SLR_21', ('CSR', 'GFZ', 'GSFC')), ('SLR_22', ('CSR', 'GSFC')), ('SLR_C30', ('CSR', 'GFZ', 'GSFC', 'LARES')),
            ('SLR_C40', ('CSR', 'GSFC', 'LARES')), ('SLR_C50', ('CSR', 'GSFC', 'LARES'))):
        for source in sources:
            assembly(project, rep, f'{opt} {source}', span, **{opt: source})
    for deg1 in ('Tellus', 'SLR', 'UCI', 'SLF', 'Swenson', 'GFZ'):
        assembly(project, rep, f'geocenter {deg1}', span, DEG1=deg1)
        assembly(project, rep, f'geocenter {deg1} modelled', span, DEG1=deg1, MODEL_DEG1=True, skip=(176, 180))
    for deg1 in ('Tellus', 'UCI', 'Swenson', 'GFZ'):
        assembly(project, rep, f'geocenter {deg1} from a file', draw(*SPAN, DEG1_FILE='/elsewhere/my.txt'), DEG1=deg1)
    for dset in ('GSM', 'GAC', 'GAA', 'GAD'):
        assembly(project, rep, f'jumps {dset}', draw(*SPAN, MMAX=4), DSET=dset, ATM=True)
    assembly(project, rep, 'everything', span, SLR_C20='GSFC', SLR_21='CSR', SLR_22='CSR', SLR_C30='GSFC', SLR_C40='GSFC', SLR_C50='GSFC', DEG1='Tellus', ATM=True, POLE_TIDE=True)
    corrections(project, rep, 'all periods', [40, 49, 50, 97, 98, 161, 162, 200], 4)
    corrections(project, rep, 'lower degree', [60, 120, 170], 3)
    corrections(project, rep, 'fewer orders', [60, 120, 170], 4, 2)
    modelled(project, rep)
    single(project, rep)
    for opt, source in (('SLR_C20', 'GSFC'), ('SLR_21', 'CSR'), ('SLR_22', 'CSR'), ('SLR_C30', 'GSFC'), ('SLR_C40', 'GSFC'), ('SLR_C50', 'GSFC'), ('DEG1', 'Tellus')):
        refused(project, rep, f'{opt} without a month', span, 'a month without replacement values is accepted', **{opt: source})
