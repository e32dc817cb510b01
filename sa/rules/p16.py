"""Tables of monthly solutions: names of files, dates, months."""
import calendar
import datetime
import numpy as np
from .. import num, spec, store
from .p14 import calendar as civil, grace
from .p22 import TIMELINE

MODULES = ('grace_date', 'grace_find_months', 'grace_months_index', 'time')


def serial(year, month, day, hour=0.0, minute=0.0, second=0.0, epoch=(1992, 1, 1, 0, 0, 0), scale=1.0):
    a, b = [datetime.date(int(float(np.squeeze(y))), int(float(np.squeeze(m))), 1).toordinal() + float(np.squeeze(d)) - 1.0 for y, m, d in ((year, month, day), epoch[:3])]
    h = [sum(float(np.squeeze(x)) / s for x, s in zip(t, (24.0, 1440.0, 86400.0))) for t in ((hour, minute, second), epoch[3:])]
    return scale * (a - b + h[0] - h[1])


def settle(months):
    """pairs of equal months: the one without a solution next to them is theirs"""
    m = np.atleast_1d(np.array(months, dtype=int))
    out = m.copy()
    for j in range(len(m) - 1):
        if m[j] == m[j + 1]:
            before, after = (m[j - 1] if j else None), (m[j + 2] if j + 2 < len(m) else None)
            if before == m[j] - 1 or (before is None and after != m[j] + 1):
                out[j + 1] = m[j] + 1
            else:
                out[j] = m[j] - 1
    return np.squeeze(out)


TIME = {'time.convert_calendar_dates': serial, 'time.convert_julian': civil, 'time.calendar_to_grace': grace, 'time.adjust_months': settle}


# -- months ------------------------------------------------------------------------

# the special months: accelerometer shutoffs
SERIES = ([4, 5, 8, 9], [116, 117, 118, 118, 120, 121], [117, 118, 118, 120], [118, 119, 121, 121, 123], [119, 121, 121, 123, 124], [159, 160, 160, 163],
    [158, 159, 160, 160, 163, 164], [201, 203, 203, 204], [203, 203, 204, 205], [118, 118], [160, 160], [5], [116, 117, 118, 118, 120, 121, 123, 159, 160, 160, 163, 201, 203, 203, 204],
    [118, 119, 121, 121], [117, 118, 118], [301, 302, 303], [118, 118, 119], [110, 118, 118])


def months(project, rep):
    rep.rule('months', 'solutions sharing a month are given the neighbouring month that has none, all others keep theirs', floor=10)
    for s in SERIES:
        for n in ((False, True) if len(s) == 1 else (False,)):
            num.check(project, rep, 'months', 'time.adjust_months', lambda r, s=s, n=n: {'grace_month': s[0] if n else np.array(s)}, lambda L, s=s: {'return': settle(s)},
                models=1, label=('single,' if n else '') + ','.join(map(str, s)), fold=True)


# -- names ---------------------------------------------------------------------------

LEVEL2 = (('GSM-2_{}-{}_GRAC_UTCSR_BA01_0600.gz', 'CSR'), ('GSM-2_{}-{}_GRFO_UTCSR_BB01_0602', 'CSR'), ('GSM-2_{}-{}_0031_UTCSR_0096_0005.gz', 'CSR'),
    ('GSM-2_{}-{}_0027_EIGEN_G---_0005.gz', 'GFZ'), ('GSM-2_{}-{}_GRFO_GFZOP_BA01_0601.gz', 'GFZ'), ('GAD-2_{}-{}_GRAC_GFZOP_BC01_0600.gfc', 'GFZ'),
    ('GAC-2_{}-{}_GRAC_JPLEM_BC01_0600.gz', 'JPL'), ('GSM-2_{}-{}_0030_JPLMSC_0001_0005.txt', 'JPL'), ('GSM-2_{}-{}_GRFO_COSTG_BF01_0100.gfc', 'COSTG'),
    ('GSM-2_{}-{}_GRAC_GRGS_BA01_0500.gfc', 'GRGS'), ('GAA-2_{}-{}_GRAC_GFZOP_BC01_0600.gz', 'GFZ'))
NAME = '''
from gravity_toolkit.time import {name}
import vfs
def ref(v):
    {body}
    return {call}
'''


def name(form, k):
    """the text of a name: years and days of its dates are values"""
    return f"{form.format('{:04d}{:03d}', '{:04d}{:03d}')!r}.format({', '.join(f'v[{4 * k + i}]' for i in range(4))})"


def period(r):
    """dates of a month: year and day of the first and last days"""
    y, m = r.int(2002, 2030), r.int(1, 12)
    a = datetime.date(y, m, 1) + datetime.timedelta(r.int(-12, 5))
    b = a + datetime.timedelta(r.int(12, 40))
    return [a.year, a.timetuple().tm_yday, b.year, b.timetuple().tm_yday]


def names(project, rep, kw):
    rep.rule('names', 'the dates of a file are those of its name', floor=10)
    f = project.require('time.parse_grace_file')
    rep.unit(f.short)
    for form, _ in LEVEL2:
        for where in ('', 'file'):
            n = name(form, 0)
            body = f'n = {n}' if not where else f'n = vfs.folder({{}}).joinpath({n})'
            num.check(project, rep, 'names', f.short, lambda r: {'v': np.array(period(r))}, lambda L: {'return': L['v'].astype(float)},
                func=spec.ref_func(project, NAME.format(name='parse_grace_file', body=body + '; a, b = parse_grace_file(n)', call='[np.float64(a[0]), np.float64(a[1]), np.float64(b[0]), np.float64(b[1])]')),
                where=f'{f.module.rel}:{f.node.lineno}', tag=f'{f.short}[{form}{where}]', **kw)
    g = project.require('time.parse_gfc_file')
    rep.unit(g.short)
    monthly = [('GRAZ', d, form) for d, form in (('GSM', 'ITSG-Grace2014_n60_{}-{}.gfc'), ('GSM', 'ITSG-Grace2016_n60_{}-{}.gfc'), ('GSM', 'ITSG-Grace2018_n96_{}-{}.gfc'),
        ('GSM', 'ITSG-Grace_operational_n60_{}-{}.gfc'), ('GAA', 'AOD1B_RL06_atmosphere_n60_{}-{}.gfc'), ('GAB', 'AOD1B_RL06_ocean_n60_{}-{}.gfc'), ('GAC', 'AOD1B_RL06_dealiasing_n60_{}-{}.gfc'),
        ('GAD', 'AOD1B_RL06_oceanBottomPressure_n60_{}-{}.gfc'), ('GAC', 'model_dealiasing_n60_{}-{}.gfc'), ('GAD', 'model_oceanBottomPressure_{}-{}.gfc'))]
    for proc, dset, form in monthly:
        n = f"{form.format('{:04d}', '{:02d}')!r}.format(v[0], v[1])"
        month(project, rep, g, proc, dset, n, form, kw)
    for dset in ('GAA', 'GAB', 'GAC', 'GAD'):
        n = f"'{dset}_Swarm_40_{{:02d}}_{{:04d}}.gfc'.format(v[1], v[0])"
        month(project, rep, g, 'Swarm', dset, n, f'{dset}_Swarm', kw)
    for a, b in (('20131201T000000', '20131231T235959'), ('20200201T000000', '20200229T235959')):
        want = [[int(x) for x in (t[:4], t[4:6], t[6:8], t[9:11], t[11:13], t[13:])] for t in (a, b)]
        for end in ('ZIP', 'gfc'):
            n = f"'SW_OPER_EGF_SHA_2__{a}_{b}_0101.{end}'"
            num.check(project, rep, 'names', g.short, lambda r: {'v': np.zeros(1)}, lambda L, want=want: {'#0': want[0], '#1': want[1]},
                func=spec.ref_func(project, NAME.format(name='parse_gfc_file', body='pass', call=f"parse_gfc_file({n}, 'Swarm', 'GSM')")),
                where=f'{g.module.rel}:{g.node.lineno}', tag=f'{g.short}[Swarm,GSM,{a},{end}]', **kw)


def month(project, rep, g, proc, dset, n, label, kw):
    num.check(project, rep, 'names', g.short, lambda r: {'v': np.array([(2004, 2019, 2000, 2030)[r.seed % 4], r.int(1, 12)])},
        lambda L: {'#0': [*L['v'], 1, 0, 0, 0], '#1': [*L['v'], calendar.monthrange(*map(int, L['v']))[1], 23, 59, 59]},
        func=spec.ref_func(project, NAME.format(name='parse_gfc_file', body='pass', call=f'parse_gfc_file({n}, {proc!r}, {dset!r})')),
        where=f'{g.module.rel}:{g.node.lineno}', tag=f'{g.short}[{label}]', **kw)


# -- tables --------------------------------------------------------------------------

def days(y):
    return 366 if calendar.isleap(int(y)) else 365


def rows(v, proc, drel):
    """the columns of the table"""
    out = []
    for sy, sd, ey, ed in np.reshape(v, (-1, 4)):
        last = (ey - sy) * days(sy) + ed
        mid = (sd + last) / 2.0
        since = sum(days(y) for y in range(2002, int(sy)))
        at = datetime.date(int(sy), 1, 1) + datetime.timedelta(float(mid) - 1.0)
        out.append([sy + mid / days(sy), 12 * (at.year - 2002) + at.month, sy, sd, ey, ed, since + mid])
    t = np.array(out, dtype=float)
    t[:, 1] = settle(t[:, 1]) if not (proc == 'CNES' and drel in ('RL01', 'RL02')) else settle(np.round(1.0 + (t[:, 6] - t[0, 6]) / 10.0))
    return t


TABLE = '''
from gravity_toolkit.grace_date import grace_date
import vfs
def ref(v):
    d = vfs.folder({{'index.txt': [{lines}]}})
    g = grace_date(d, PROC={proc!r}, DREL={drel!r}, DSET={dset!r}{more})
    {body}
'''
READ = '''f = d.joinpath({proc!r}, {drel!r}, {dset!r}, '{proc}_{drel}_DATES.txt')
    t = np.loadtxt(f, skiprows=1, dtype={{'names': ('a', 'b', 'c', 'd', 'e', 'f', 'g')}})
    return np.array([np.atleast_1d(t['a']), np.atleast_1d(t['b']), np.atleast_1d(t['c']), np.atleast_1d(t['d']), np.atleast_1d(t['e']), np.atleast_1d(t['f']), np.atleast_1d(t['g'])])'''
RECORDS = {'plain': [(2002, 95, 2002, 120), (2002, 123, 2002, 137), (2002, 213, 2002, 243), (2003, 1, 2003, 31), (2003, 335, 2004, 3)],
    'leap': [(2004, 32, 2004, 60), (2004, 335, 2005, 1), (2008, 61, 2008, 92), (2011, 365, 2012, 31)],
    'special': [(2011, 274, 2011, 304), (2011, 289, 2011, 319), (2011, 351, 2012, 14), (2012, 32, 2012, 60)],
    'fourth': [(2015, 60, 2015, 90), (2015, 91, 2015, 120), (2015, 102, 2015, 131), (2015, 183, 2015, 212)],
    'follow-on': [(2018, 152, 2018, 181), (2018, 182, 2018, 199), (2018, 295, 2018, 322), (2018, 305, 2018, 334), (2018, 335, 2018, 365)],
    'single': [(2010, 32, 2010, 59)]}


def tables(project, rep, kw):
    rep.rule('table', 'every solution of the index is listed under its month with its dates', floor=10)
    f = project.require('grace_date.grace_date')
    rep.unit(f.short)
    kw = {**kw, 'opaque': TIME, 'models': 1, 'fold': True, 'where': f'{f.module.rel}:{f.node.lineno}'}
    for key, record in RECORDS.items():
        v = np.array(record, dtype=int).ravel()
        for proc, drel, dset, form in (('CSR', 'RL06', 'GSM', LEVEL2[0][0]), ('GFZ', 'RL05', 'GAD', LEVEL2[3][0]), ('CNES', 'RL01', 'GSM', LEVEL2[9][0]), ('CNES', 'RL05', 'GSM', LEVEL2[9][0])):
            lines = ', '.join(name(form, k) for k in range(len(record)))
            args = dict(lines=lines, proc=proc, drel=drel, dset=dset)
            want = rows(v, proc, drel)

            def table(L, want=want):
                w = want.copy()
                w[:, 0] = [float(f'{x:13.8f}') for x in w[:, 0]]
                w[:, 6] = [float(f'{x:8.0f}') for x in w[:, 6]]
                return {'return': w.T}

            def files(L, want=want, form=form, record=record):
                return {'#0': want[:, 1], '#1': [form.format(*(f'{a:04d}{b:03d}' for a, b in (x[:2], x[2:]))) for x in record]}
            num.check(project, rep, 'table', f.short, lambda r, v=v: {'v': v}, table, func=spec.ref_func(project, TABLE.format(**args, more='', body=READ.format(**args))),
                tag=f'{f.short}[{proc},{drel},{key}]', **kw)
            for out in ('', ', OUTPUT=False'):
                num.check(project, rep, 'table', f.short, lambda r, v=v: {'v': v}, files,
                    func=spec.ref_func(project, TABLE.format(**args, more=out, body='return [list(g.keys()), [x.name for x in g.values()]]')),
                    tag=f'{f.short}[{proc},{drel},{key},files{out}]', **kw)
    # solutions of whole months
    for proc, drel, form in (('GRAZ', 'Grace2016', 'ITSG-Grace2016_n60_{}-{}.gfc'), ('Swarm', 'RL01', 'GSM_Swarm_40_{1}_{0}.gfc')):
        dset = 'GSM' if proc == 'GRAZ' else 'GAB'
        form = form.replace('GSM', dset)
        for key, record in {'plain': [(2014, 3), (2014, 4), (2015, 12), (2016, 1)], 'leap': [(2016, 2), (2016, 3), (2016, 12), (2020, 2)]}.items():
            v = np.array(record, dtype=int).ravel()
            n = form.replace('{}', '{0}', 1).replace('{}', '{1}', 1).replace('{0}', '{0:04d}').replace('{1}', '{1:02d}')
            lines = ', '.join(f'{n!r}.format(v[{2 * k}], v[{2 * k + 1}])' for k in range(len(record)))
            want = []
            for y, m in record:
                first = datetime.date(y, m, 1).timetuple().tm_yday
                last = first + calendar.monthrange(y, m)[1] - 1.0 / 86400.0
                mid = (first + last) / 2.0
                want.append([float(f'{y + mid / days(y):13.8f}'), 12 * (y - 2002) + m, y, first, y, float(f'{sum(days(x) for x in range(2002, y)) + mid:8.0f}')])
            body = READ.format(proc=proc, drel=drel, dset=dset).replace("np.atleast_1d(t['f']), ", '')
            num.check(project, rep, 'table', f.short, lambda r, v=v: {'v': v}, lambda L, want=np.array(want): {'return': want.T},
                func=spec.ref_func(project, TABLE.format(lines=lines, proc=proc, drel=drel, dset=dset, more='', body=body)), tag=f'{f.short}[{proc},{drel},{key}]', **kw)


# -- granules ------------------------------------------------------------------------

GRANULES = '''
from gravity_toolkit.utilities import compile_regex_pattern
def ref():
    rx = compile_regex_pattern({proc!r}, {drel!r}, {dset!r}{more})
    return [bool(rx.match(n)) for n in {names!r}]
'''
SPAN = '2004001-2004031'


def release6(proc, dset, mission, solution, release, version, end):
    who = {'CSR': 'UTCSR', 'GFZ': 'GFZOP', 'JPL': 'JPLEM'}[proc]
    return f'{dset}-2_{SPAN}_{mission}_{who}_{solution}_{release}{version}{end}'


def granules(project, rep, kw):
    rep.rule('granules', 'the pattern of a product finds its granules and no others', floor=10)
    f = project.require('utilities.compile_regex_pattern')
    rep.unit(f.short)
    kw = {**kw, 'models': 1, 'where': f'{f.module.rel}:{f.node.lineno}'}

    def go(proc, drel, dset, more, good, bad):
        ns = list(good) + list(bad)
        num.check(project, rep, 'granules', f.short, lambda r: {}, lambda L: {'return': [True] * len(good) + [False] * len(bad)},
            func=spec.ref_func(project, GRANULES.format(proc=proc, drel=drel, dset=dset, more=more, names=ns)), tag=f'{f.short}[{proc},{drel},{dset}{more}]', **kw)
    for proc in ('CSR', 'GFZ', 'JPL'):
        every = [((m, s, r, v), release6(proc, 'GSM', m, s, r, v, e)) for m in ('GRAC', 'GRFO') for s in ('BA01', 'BB01') for r, v in (('06', '00'), ('06', '01'), ('05', '00'))
            for e in ('', '.gz')]
        other = [release6(p, d, 'GRAC', 'BA01', '06', '00', '.gz') for p in ('CSR', 'GFZ', 'JPL') for d in ('GSM', 'GAD') if (p, d) != (proc, 'GSM')] + \
            [every[0][1] + '.txt', every[0][1] + '.gz.part', every[0][1] + '.md5']
        for mission in (None, 'GRAC', 'GRFO'):
            for solution in (None, 'BB01'):
                for version in ('', '00', '1', None):
                    opts = (f', mission={mission!r}' if mission else '') + (f', solution={solution!r}' if solution else '') + (f', version={version!r}' if version != '' else '')
                    fit = lambda k: k[0] in (mission or k[0],) and k[1] == (solution or 'BA01') and k[2] == '06' and (version in ('', None) or int(k[3]) == int(version))  # noqa: E731,B023
                    go(proc, 'RL06', 'GSM', opts, [n for k, n in every if fit(k)], [n for k, n in every if not fit(k)] + other)
        # dealiasing products
        for dset in ('GAA', 'GAB', 'GAC', 'GAD'):
            names = {(d, m): [release6(proc, d, m, 'BC01', '06', '00', e) for e in ('', '.gz')] for d in ('GAA', 'GAB', 'GAC', 'GAD', 'GSM') for m in ('GRAC', 'GRFO')}
            for mission in (None, 'GRAC', 'GRFO'):
                fit = lambda k: k[0] == dset and k[1] in (mission or k[1],)  # noqa: E731,B023
                go(proc, 'RL06', dset, f', mission={mission!r}' if mission else '', sum((n for k, n in names.items() if fit(k)), []), sum((n for k, n in names.items() if not fit(k)), []))
    old = {('CSR', 'RL04'): ['UTCSR_0060_0004'], ('CSR', 'RL05'): ['UTCSR_0060_0005'], ('GFZ', 'RL04'): ['EIGEN_G---_0004'], ('GFZ', 'RL05'): ['EIGEN_G---_005a', 'EIGEN_GK2-_005a'],
        ('JPL', 'RL04'): ['JPLEM_0001_0004'], ('JPL', 'RL05'): ['JPLEM_0001_0005']}
    tails = sorted(set(sum(old.values(), [])) | {'UTCSR_0096_0005', 'UTCSR_0180_0004', 'EIGEN_GK2-_0004', 'JPLEM_0000_0005'})
    for (proc, drel), mine in old.items():
        ns = {t: [f'GSM-2_{SPAN}_0027_{t}{e}' for e in ('', '.gz')] for t in tails}
        go(proc, drel, 'GSM', '', sum((ns[t] for t in mine), []), sum((ns[t] for t in tails if t not in mine), []) + [ns[t][0] + '.txt' for t in mine] + [ns[t][0].replace('GSM', 'GAC') for t in mine])
    for dset in ('GSM', 'GAC'):
        go('CNES', 'RL05', dset, '', [f'{dset}-2_{SPAN}_0000_GRGS_0080_0500{e}' for e in ('', '.txt', '.gz', '.txt.gz')], [f'{d}-2_{SPAN}_0000_{w}_0080_0500' for d, w in
            (('GAB', 'GRGS'), (dset, 'UTCSR'), (dset, 'EIGEN'))])

    # laser ranging interferometer
    for drel, mark in (('RL06.1_LRI', '0601'), ('RL06.3_LRI', '0603')):
        every = {(m, v): [f'GSM-2_{SPAN}_{m}_UTCSR_EA01_{v}{e}' for e in ('', '.gz')] for m in ('GRAC', 'GRFO') for v in ('0601', '0603', '0600')}
        for mission in (None, 'GRFO'):
            go('CSR', drel, 'GSM', f', mission={mission!r}' if mission else '', sum((n for (m, v), n in every.items() if v == mark and m in (mission or m,)), []),
                sum((n for (m, v), n in every.items() if v != mark or (mission and m != mission)), []) + [f'GSM-2_{SPAN}_GRFO_UTCSR_BA01_{mark}.gz'])


# -- newest versions -------------------------------------------------------------------

NEWEST = '''
from gravity_toolkit.time import reduce_by_date
import vfs
def ref():
    {body}
'''
LISTS = ([(1, 'BA01', '00', '.gz'), (1, 'BA01', '02', '.gz'), (1, 'BA01', '01', '.gz'), (0, 'BA01', '03', '.gz')], [(2, 'BA01', '03', ''), (1, 'BA01', '01', ''), (0, 'BA01', '00', ''), (2, 'BA01', '09', '')],
    [(0, 'BA01', '10', '.gz'), (0, 'BA01', '09', '.gz'), (1, 'BA01', '00', '.gz'), (2, 'BA01', '02', '.gz'), (2, 'BA01', '01', '.gz')], [(0, 'BB01', '01', '.gz')], [], [(0, 'BC01', '03', '.gfc'), (0, 'BC01', '04', '.gfc')],
    [(2, 'BA01', '00', '.gz'), (1, 'BA01', '00', '.gz'), (0, 'BA01', '00', '.gz')])
SPANS = ('2003335-2003365', '2004001-2004031', '2004032-2004060')


def newest(project, rep, kw):
    rep.rule('newest', 'of the files of a date only the newest version is kept', floor=10)
    f = project.require('time.reduce_by_date')
    rep.unit(f.short)
    for who in ('UTCSR', 'GFZOP', 'JPLEM'):
        for k, spec_ in enumerate(LISTS):
            ns = [f'GSM-2_{SPANS[d]}_GRAC_{who}_{s}_06{v}{e}' for d, s, v, e in spec_]
            best = {}
            for n, (d, _, v, _) in zip(ns, spec_):
                if d not in best or v > best[d][0]:
                    best[d] = (v, n)
            want = [best[d][1] for d in sorted(best)]
            for body in (f'return reduce_by_date({ns!r})', f'return [n.name for n in reduce_by_date([vfs.folder({{}}).joinpath(n) for n in {ns!r}])]'):
                num.check(project, rep, 'newest', f.short, lambda r: {}, lambda L, want=want: {'return': want}, func=spec.ref_func(project, NEWEST.format(body=body)),
                    where=f'{f.module.rel}:{f.node.lineno}', tag=f'{f.short}[{who},{k}{",file" if "vfs" in body else ""}]', **{**kw, 'models': 1})


# -- months of a product -----------------------------------------------------------------

FIND = '''
from gravity_toolkit.grace_find_months import grace_find_months
import vfs
def ref(v):
    d = vfs.folder({{'index.txt': [{lines}]}})
    {first}
    t = grace_find_months(d, {proc!r}, {drel!r}{dset})
    return [t['months'], t['start'], t['end'], t['missing']{time}]
'''


def found(project, rep, kw):
    rep.rule('found', 'the months of a product are those of its table; those without a solution are missing', floor=10)
    f = project.require('grace_find_months.grace_find_months')
    rep.unit(f.short)
    kw = {**kw, 'opaque': TIME, 'models': 1, 'fold': True, 'where': f'{f.module.rel}:{f.node.lineno}'}
    for key, record in RECORDS.items():
        v = np.array(record, dtype=int).ravel()
        for proc, drel, dset, form in (('CSR', 'RL06', 'GSM', LEVEL2[0][0]), ('GFZ', 'RL05', 'GAD', LEVEL2[3][0]), ('CNES', 'RL01', 'GSM', LEVEL2[9][0]), ('CNES', 'RL05', 'GSM', LEVEL2[9][0])):
            lines = ', '.join(name(form, k) for k in range(len(record)))
            mon = rows(v, proc, drel)[:, 1].astype(int)
            at = np.array([float(f'{x:.8f}') for x in rows(v, proc, drel)[:, 0]])
            missing = [m for m in range(1 if proc == 'CNES' and drel == 'RL01' else 4, max(mon)) if m not in mon]
            for first in ('pass', f'from gravity_toolkit.grace_date import grace_date; grace_date(d, PROC={proc!r}, DREL={drel!r}, DSET={dset!r})'):
                num.check(project, rep, 'found', f.short, lambda r, v=v: {'v': v}, lambda L, mon=mon, missing=missing, at=at: {'#0': mon, '#1': min(mon), '#2': max(mon), '#3': np.array(missing, dtype=float), '#4': at},
                    func=spec.ref_func(project, FIND.format(lines=lines, proc=proc, drel=drel, dset='' if dset == 'GSM' else f', DSET={dset!r}', first=first if 'grace_date' not in first else first.split(';')[0] + '\n    ' + first.split('; ')[1], time=", t['time']")),
                    tag=f'{f.short}[{proc},{drel},{key}{",table" if first != "pass" else ""}]', **kw)


# -- index of the months -------------------------------------------------------------------

INDEX = '''
from gravity_toolkit.grace_months_index import grace_months_index
import pathlib
import vfs
def ref(v):
    d = vfs.folder({{}})
    {write}
    grace_months_index(d{more})
    with pathlib.Path(d).joinpath('GRACE_months.txt').open(mode='r') as f:
        return f.read().splitlines()
'''


def index(project, rep, kw):
    rep.rule('index', 'the index lists every month with the dates of each center or that it is missing', floor=3)
    f = project.require('grace_months_index.grace_months_index')
    rep.unit(f.short)
    kw = {**kw, 'opaque': TIME, 'models': 1, 'fold': True, 'where': f'{f.module.rel}:{f.node.lineno}'}
    sets = ({('CSR', 'RL06'): 'plain', ('JPL', 'RL06'): 'single'}, {('GFZ', 'RL06'): 'special', ('CSR', 'RL06'): 'leap', ('GSFC', 'rl06v2.0'): 'plain'}, {('JPL', 'RL05'): 'leap', ('CSR', 'RL05'): 'plain', ('CSR', 'RL06'): 'single'})
    for k, tables_ in enumerate(sets):
        drels = ('RL06', 'rl06v2.0') if k < 2 else ('RL05',)
        more = '' if k < 2 else ", DREL=['RL05']"
        write, want = [], {}
        for (pr, rl), key in tables_.items():
            t = rows(np.array(RECORDS[key]).ravel(), pr, rl)
            text = ''.join(f'{a:13.8f} {int(m):03d} {int(b):8d} {int(c):03d} {int(d):8d} {int(e):03d} {g:8.0f}\n' for a, m, b, c, d, e, g in t)
            write.append(f"p = pathlib.Path(d).joinpath({pr!r}, {rl!r}, 'GSM')\n    p.mkdir(mode=0o775, parents=True, exist_ok=True)\n    f = p.joinpath('{pr}_{rl}_DATES.txt').open(mode='w')\n    " + '\n    '.join(f'print({x!r}, file=f)' for x in ['Mid-date  month'] + text.splitlines()) + '\n    f.close()')
            if rl in drels:
                want[f'{pr}_{rl}'] = t
        names = sorted(want)
        last = int(max(t[:, 1].max() for t in want.values()))
        lines = [f'{"MONTH":^11}  ' + ''.join(f'{n:^21}' for n in names)]
        for m in range(4, last + 1):
            cells = []
            for n in names:
                i = [i for i, x in enumerate(want[n][:, 1]) if int(x) == m]
                cells.append('{:04d}_{:03d}--{:04d}_{:03d}'.format(*map(int, want[n][i[0], 2:6])) if i else ' ** missing **   ')
            lines.append(f'{m:03d} {calendar.month_abbr[(m - 1) % 12 + 1]:>3}{2002 + (m - 1) // 12:4d} ' + ' '.join(f'{c:>20}' for c in cells))
        num.check(project, rep, 'index', f.short, lambda r: {'v': np.zeros(1)}, lambda L, lines=lines: {'return': lines},
            func=spec.ref_func(project, INDEX.format(write='\n    '.join(write), more=more)), tag=f'{f.short}[{k}]', **kw)


def run(project, rep):
    kw = {'stand': store.stands(project), 'depth': 9, 'budget': 4000000, 'kwargs_open': False, 'models': 4, 'funcs': TIMELINE}
    months(project, rep)
    names(project, rep, kw)
    tables(project, rep, kw)
    granules(project, rep, kw)
    newest(project, rep, kw)
    found(project, rep, kw)
    index(project, rep, kw)
