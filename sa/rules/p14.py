"""Files of replaced coefficients: satellite laser ranging, geocenter."""
import datetime
import numpy as np
from .. import num, spec, store, values as V

MODULES = ('SLR', 'read_SLR_harmonics', 'geocenter')
READ = '''
from {module} import {name}
from pathlib import Path
import numpy as np
def ref(v):
    f = Path({file!r})
    fid = f.open(mode='w')
    {lines}
    return {call}
'''


# -- the calendar (decided under its own properties) -------------------------------------

def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def decimal(year, month, day=None, hour=None, minute=None, second=None, DofY=None):
    y, m = int(float(np.squeeze(year))), int(float(np.squeeze(month)))
    n = 366 if leap(y) else 365
    first = datetime.date(y, m, 1).toordinal() - datetime.date(y, 1, 1).toordinal()
    if day is None:
        last = (datetime.date(y + m // 12, m % 12 + 1, 1) - datetime.timedelta(1)).day
        d = last / 2.0
    else:
        d = float(np.squeeze(day)) - 1.0
    h = sum(float(np.squeeze(x)) / s for x, s in ((hour, 24.0), (minute, 1440.0), (second, 86400.0)) if x is not None)
    return np.array([y + (first + d + h) / n])


def grace(year, month=1, around=None):
    t = 12.0 * (np.asarray(year, float) - 2002.0)
    t = np.round(t) if 'round' in getattr(around, '__name__', str(around)) else np.floor(t)
    return np.array(t + np.asarray(month, float), dtype=int)


def calendar(JD, **kw):
    jd = np.atleast_1d(np.asarray(JD, float))
    out = []
    for x in jd:
        o = int(np.floor(x - 1721424.5))
        day = datetime.date.fromordinal(o)
        s = (x - 1721424.5 - o) * 24.0
        out.append((day.year, day.month, day.day, np.floor(s), np.floor(s % 1 * 60), 0.0))
    cols = [np.array(c) if np.ndim(JD) else c[0] for c in zip(*out)]
    names = ('year', 'month', 'day', 'hour', 'minute', 'second')
    return tuple(cols) if kw.get('format', kw.get('FORMAT', 'dict')) == 'tuple' else dict(zip(names, cols))


def julian(t):
    t = np.asarray(t, float)
    y = np.floor(t)
    n = np.where(leap(int(y)), 366.0, 365.0)
    return datetime.date(int(y), 1, 1).toordinal() + 1721424.5 + n * (t - y)


def adjusted(months):
    """doubled months belong to the neighbouring months without a solution"""
    m = np.atleast_1d(np.array(months, dtype=int))
    for j in range(1, len(m)):
        if m[j] == m[j - 1]:
            m[j] += 1
    return np.squeeze(m)


TIME = {'time.convert_calendar_decimal': decimal, 'time.calendar_to_grace': grace, 'time.convert_julian': calendar, 'time.calendar_to_julian': julian,
    'time.adjust_months': adjusted}


def mjd_time(mjd):
    y, mo, d, h, mi, s = calendar(mjd + 2400000.5, format='tuple')
    return float(decimal(y, mo, d, h)[0])


# -- lines -----------------------------------------------------------------------------

class Text:
    """lines of constants and values; '@' stands for the next value"""

    def __init__(self, number='{:24.17E}'):
        self.lines, self.n, self.number = [], 0, number

    def add(self, line):
        parts = line.split('@')
        args = [f'v[{self.n + i}]' for i in range(len(parts) - 1)]
        text = self.number.join(p.replace('{', '{{').replace('}', '}}') for p in parts)
        self.lines.append(f'{text!r}.format({", ".join(args)})' if args else repr(line))
        at = list(range(self.n, self.n + len(args)))
        self.n += len(args)
        return at


def case(project, rep, rule, qual, label, text, call, want, file, module=None, name=None, **kw):
    fn = project.require(qual)
    rep.unit(fn.short)
    body = READ.format(module=module or 'gravity_toolkit.' + qual.rpartition('.')[0], name=name or qual.rpartition('.')[2], file=file, call=call,
        lines='\n    '.join(f'print({x}, file=fid)' for x in text.lines) or 'pass')

    def leaves(r):
        return {'v': r.arr(max(text.n, 1)) * np.where(r.r.random(max(text.n, 1)) < 0.5, -1.0, 1.0), **kw.get('more', lambda r: {})(r)}
    opts = {k: v for k, v in kw.items() if k not in ('more', 'stand')}
    stand = {**store.stands(project), **kw.get('stand', {})}
    num.check(project, rep, rule, qual, leaves, lambda L: want(L['v'], L), func=spec.ref_func(project, body), label=label,
        stand=stand, depth=9, budget=3000000, kwargs_open=False, models=2, opaque=TIME, fold=True,
        where=f'{fn.module.rel}:{fn.node.lineno}', tag=f'{fn.short}[{label}]', tol=1e-11, **opts)


HEAD = {'PRODUCT': ['Title', 'notes 1.0 2.0', 'PRODUCT:'], 'Product': ['Title', 'notes 1.0', 'more', 'Product: 1.0']}
DAYS = (52379.0, 52409.0, 52439.5, 53371.0, 53400.0)


def columns(project, rep):
    """files of named columns"""
    rep.rule('columns', 'the columns of a file of low degree coefficients are read as its documentation names them', floor=30)
    scale = 1e-10

    def go(qual, label, file, head, cols, days=DAYS, notes=(), opts='', of_time=False, keep=None, extra=()):
        """cols: number of columns, {output: (column, scale)}"""
        ncol, outs = cols
        t = Text()
        for h in head:
            t.add(h)
        rows = []
        for k, d in enumerate(days):
            y = mjd_time(d)
            note = notes[k] if k < len(notes) else ''
            fields = [f'{d:.1f}', f'{y:.4f}'] + ['@'] * (ncol - 2)
            at = t.add('  '.join(fields) + f'   {note}')
            if keep is None or keep(note):
                rows.append((float(f'{y:.4f}') if of_time else y, at))
            for e in extra:
                t.add(e)
        mon = adjusted([grace(r[0], around='round') for r in rows])

        def want(v, L):
            w = {'[time]': np.array([r[0] for r in rows]), '[month]': mon}
            for k, (c, s) in outs.items():
                w[f'[{k}]'] = np.array([v[r[1][c - 2]] * s for r in rows])
            return w
        case(project, rep, 'columns', qual, label, t, f'{qual.rpartition(".")[2]}(f{opts})', want, file)
    C20, C30, C50, CS2 = 'SLR.C20.C20', 'SLR.C30.C30', 'SLR.C50.C50', 'SLR.CS2.CS2'
    up, low = HEAD['PRODUCT'], HEAD['Product']
    two = {'data': (2, 1.0), 'error': (4, scale)}
    special = (55845.0, 55850.0, 55905.0, 55935.0)
    for file in ('TN-11_C20_SLR.txt', 'TN-14_C30_C20_GSFC_SLR.txt'):
        for h in (up, low):
            go(C20, f'{file[:5]},{h[-1][:7]}', file, h, (10, two))
        go(C20, f'{file[:5]},special months', file, up, (10, two), days=special)
        go(C20, f'{file[:5]},no header', file, [], (10, two), opts=', HEADER=False')
        go(C20, f'{file[:5]},blank lines', file, up, (10, two), extra=('', 'note'))
    # a month of two solutions has the flagged one
    apart = DAYS[:4] + (53435.0,)
    half = (55845.0, 55850.0, 55875.0, 55880.0, 55935.0)
    for file in ('TN-05_C20_SLR.txt', 'TN-07_C20_SLR.txt'):
        go(C20, f'{file[:5]}', file, up, (5, two), days=apart)
        go(C20, f'{file[:5]},no header', file, [], (5, two), days=apart, opts=', HEADER=False', extra=('',))
        for flags in (('*', '', '', '*', ''), ('', '*', '*', '', '')):
            for blank in ((), ('', ' ')):
                go(C20, f'{file[:5]},flags {"".join(f or "-" for f in flags)}' + (',blank lines' if blank else ''), file, up, (5, two), days=half, notes=flags[:4] + ('only',), keep=bool, extra=blank)
    g20 = 'GFZ_RL06_C20_SLR.dat'
    go(C20, 'GFZ', g20, up, (5, two), notes=('G*', 'Gm', '', 'G*', 'Gm'), keep=bool, of_time=True)
    gv = 'GRAVIS-2B_GFZOP_GRACE+SLR_LOW_DEGREES_0003.dat'
    for days, l in ((DAYS, ''), (special, ',special months')):
        go(C20, 'GravIS' + l, gv, up, (14, two), of_time=True, days=days)
        go(C30, 'GravIS' + l, gv, up, (14, {'data': (5, 1.0), 'error': (7, scale)}), of_time=True, days=days)
        go(CS2, 'GravIS' + l, gv, up, (14, {'C2m': (8, 1.0), 'eC2m': (10, scale), 'S2m': (11, 1.0), 'eS2m': (13, scale)}), of_time=True, days=days)
        go(C30, 'TN-14' + l, 'TN-14_C30_C20_GSFC_SLR.txt', low, (10, {'data': (5, 1.0), 'error': (7, scale)}), days=days)
        go(C30, 'TN-14,blank lines' + l, 'TN-14_C30_C20_GSFC_SLR.txt', low, (10, {'data': (5, 1.0), 'error': (7, scale)}), days=days, extra=('', 'note'))
        go(C50, 'GSFC,blank lines' + l, 'GSFC_SLR_C20_C30_C50_GSM_replacement.txt', low, (15, {'data': (10, 1.0), 'error': (12, scale)}), days=days, extra=('', 'note'))
        go(C50, 'GSFC' + l, 'GSFC_SLR_C20_C30_C50_GSM_replacement.txt', low, (15, {'data': (10, 1.0), 'error': (12, scale)}), days=days)
    # lines without a degree three solution
    t, rows = Text(), []
    for h in low:
        t.add(h)
    for k, d in enumerate(DAYS):
        tail = f'{d + 30:.1f} {mjd_time(d) + 1 / 12:.4f}'
        at = t.add(f'{d:.1f} {mjd_time(d):.4f} @ @ @ {"NaN NaN NaN" if k in (1, 3) else "@ @ @"} {tail}')
        if len(at) > 3:
            rows.append((d, at))

    def some(v, L, rows=rows):
        tm = np.array([mjd_time(d) for d, _ in rows])
        return {'[time]': tm, '[month]': adjusted(grace(tm, around='round')), '[data]': np.array([v[a[3]] for _, a in rows]),
            '[error]': scale * np.array([v[a[5]] for _, a in rows])}
    case(project, rep, 'columns', C30, 'TN-14,absent', t, 'C30(f)', some, 'TN-14_C30_C20_GSFC_SLR.txt')

    # formal release files: deltas, deviations and the removed background model
    for n in (4, 1):
        for rel in ('RL05', 'RL06'):
            for opts, aod in (('', 1.0), (', AOD=True', 1.0), (', AOD=False', 0.0)):
                t, rows = Text(), []
                t.add('# comment')
                for k in range(n):
                    rows.append((2003.0 + (k + 1.5) / 12.0, t.add(f'{2003.0 + (k + 1.5) / 12.0:.5f} @ @ @ @ {2003.0 + k / 12.0:.5f} {2003.0 + (k + 1) / 12.0:.5f}')))
                times = np.array([float(f'{x[0]:.5f}') for x in rows])

                def formal(v, L, rows=rows, times=times, aod=aod, n=n):
                    a = np.array([v[r[1]] for r in rows]).T
                    w = {'time': times, 'month': adjusted(grace(times)), 'data': a[0] - aod * scale * a[3], 'error': scale * a[2]}
                    return {f'[{k}]': x if n > 1 else np.squeeze(x) for k, x in w.items()}
                case(project, rep, 'columns', C20, f'CSR,{rel},{n}{opts}', t, f'C20(f{opts})', formal, f'C20_{rel}.txt')
    for m, rel in ((1, 'RL06'), (2, 'RL05')):
        t, rows = Text(), []
        for k in range(4):
            rows.append((2003.0 + (k + 1.5) / 12.0, t.add(f'{2003.0 + (k + 1.5) / 12.0:.5f} @ @ @ @ @ @ {2003.0 + k / 12.0:.5f} {2003.0 + (k + 1) / 12.0:.5f}')))
        times = np.array([float(f'{x[0]:.5f}') for x in rows])

        def axis(v, L, rows=rows, times=times):
            a = np.array([v[r[1]] for r in rows]).T
            return {'[time]': times, '[month]': adjusted(grace(times)), '[C2m]': a[0] - scale * a[4], '[S2m]': a[1] - scale * a[5],
                '[eC2m]': scale * a[2], '[eS2m]': scale * a[3]}
        case(project, rep, 'columns', CS2, f'CSR,{rel}', t, 'CS2(f)', axis, f'C2{m}_S2{m}_{rel}.txt')
    # filtered anomalies about a mean
    for q, mean in ((C30, 9.57173957733e-07), ('SLR.C40.C40', 0.0), (C50, 0.0)):
        n = q[-3:]
        for opts in ('', f', {n}_MEAN=mean'):
            t, rows = Text(), []
            t.add('time value')
            for k in range(4):
                rows.append(t.add(f'{2003.0 + (k + 1.5) / 12.0:.5f} @ @'))
            times = np.array([float(f'{2003.0 + (k + 1.5) / 12.0:.5f}') for k in range(4)])

            def filtered(v, L, rows=rows, times=times, mean=mean, opts=opts):
                a = np.array([v[r] for r in rows]).T
                return {'[time]': times, '[month]': adjusted(grace(times)), '[data]': scale * a[0] + (L['v'][-1] if opts else mean), '[error]': np.zeros(4)}
            last = t.n
            t.n += 1
            case(project, rep, 'columns', q, f'LARES{opts[:6]}', t, f'{n}(f{opts.replace("=mean", f"=v[{last}]")})', filtered, f'{n}_LARES_filtered.txt')


# -- low degree fields -------------------------------------------------------------------

TERMS = [(l, m) for l in range(2, 6) for m in range(l + 1)] + [(6, 1)]
WEEK = 'gsfc_slr_5x5c61s61.txt'
MONTH = 'CSR_Monthly_5x5_Gravity_Harmonics.txt'


def weekly(n, terms=TERMS):
    """arcs of seven days"""
    t, rows = Text(), []
    for h in ('Title', 'Product: 1.0'):
        t.add(h)
    for k in range(n):
        mjd = 52640.0 + 7.0 * k
        time = f'{2003.0 + (7.0 * k + 3.5) / 365.25:.6f}'
        t.add(f'{mjd:.1f} {time}')
        rows.append((mjd, float(time), [t.add(f'{l} {m} @ @') for l, m in terms]))
    return t, rows


def monthly(n, terms=TERMS, first=(2003, 11)):
    """a mean field and monthly anomalies"""
    t, rows = Text(), []
    t.add('Title')
    t.add('=' * 80)
    mean = [t.add(f'{l} {m} @ @ @ @') for l, m in terms]
    t.add('end of header')
    y, mo = first
    for k in range(n):
        a, b = datetime.date(y, mo, 1).toordinal(), datetime.date(y + mo // 12, mo % 12 + 1, 1).toordinal()
        t.add(f'{k + 1} SLR 1.0 {y} {mo:02d} {a - 678576.0:.1f} {b - 678576.0:.1f}')
        rows.append((y, mo, (a + b) / 2.0 - 678576.0, [t.add(f'{l} {m} @ @ 0.0 0.0 @ @') for l, m in terms]))
        y, mo = y + mo // 12, mo % 12 + 1
    return t, mean, rows


def field(v, rows, col, size=7, terms=TERMS):
    out = np.zeros((size, size, len(rows)))
    for d, row in enumerate(rows):
        for (l, m), at in zip(terms, row[-1]):
            out[l, m, d] = v[at[col]]
    return out


def month_field(v, mean, rows, scale):
    base = [field(v, [(mean,)], c) for c in range(4)]
    w = [field(v, rows, c) * scale for c in range(4)]
    return {'clm': base[0] + w[0], 'slm': base[1] + w[1], 'eclm': np.sqrt(base[2]**2 + w[2]**2), 'eslm': np.sqrt(base[3]**2 + w[3]**2),
        'time': np.array([decimal(r[0], r[1])[0] for r in rows]), 'MJD': np.array([r[2] for r in rows]),
        'month': np.array([12 * (r[0] - 2002) + r[1] for r in rows])}


def arcs(t, d, dates, n=28):
    """mean of the nearest days of weekly values"""
    days = np.repeat(t, 7) + (np.arange(7 * len(t)) % 7 - 3.5) / 365.25
    at = [np.argsort((days - x)**2)[:n] for x in dates]
    return np.array([days[i].mean() for i in at]), np.array([np.repeat(d, 7)[i].mean() for i in at])


def fields(project, rep):
    rep.rule('fields', 'the low degree fields of a file and the averages of their weekly arcs are those of the month', floor=30)
    q = 'read_SLR_harmonics.'
    for terms in (TERMS, TERMS[::-1]):
        tag = '' if terms is TERMS else ',reversed'
        t, rows = weekly(3, terms)
        for opts, s in (('', 1.0), (', SCALE=1e-3', 1e-3)):
            def week(v, L, rows=rows, s=s, terms=terms):
                return {'[MJD]': np.array([r[0] for r in rows]), '[time]': np.array([r[1] for r in rows]), '[clm]': field(v, rows, 0, terms=terms) * s,
                    '[slm]': field(v, rows, 1, terms=terms) * s}
            case(project, rep, 'fields', q + 'read_GSFC_weekly_6x1', f'weekly{opts}{tag}', t, f'read_SLR_harmonics(f{opts})', week, WEEK,
                module='gravity_toolkit.read_SLR_harmonics', name='read_SLR_harmonics')
    t, mean, rows = monthly(3)
    for opts, s in (('', 1e-10), (', SCALE=1e-3', 1e-3)):
        def month(v, L, s=s):
            w = month_field(v, mean, rows, s)
            return {'[MJD]': w['MJD'], '[time]': w['time'], '[clm]': w['clm'], '[slm]': w['slm'], '[error][clm]': w['eclm'], '[error][slm]': w['eslm']}
        case(project, rep, 'fields', q + 'read_CSR_monthly_6x1', f'monthly{opts}', t, f'read_SLR_harmonics(f{opts})', month, MONTH,
            module='gravity_toolkit.read_SLR_harmonics', name='read_SLR_harmonics')
    tw, wrows = weekly(12)
    dates = (2003.049, 2003.1313)
    give = f'np.array([{dates[0]}, {dates[1]}])'
    for n in (3, 4, 5):
        z = f'SLR.C{n}0.C{n}0'

        def zonal(v, L, n=n):
            w = month_field(v, mean, rows, 1e-10)
            return {'[time]': w['time'], '[data]': w['clm'][n, 0], '[error]': w['eclm'][n, 0], '[month]': adjusted(w['month'])}
        case(project, rep, 'fields', z, 'CSR', t, f'C{n}0(f)', zonal, MONTH)
        if n > 3:
            def average(v, L, n=n):
                tm, d = arcs(np.array([r[1] for r in wrows]), field(v, wrows, 0)[n, 0], dates)
                return {'[time]': tm, '[data]': d, '[error]': np.zeros(2), '[month]': adjusted(grace(tm))}
            case(project, rep, 'fields', z, 'GSFC arcs', tw, f'C{n}0(f, DATE={give})', average, WEEK)
    for m in (1, 2):
        def axis(v, L, m=m, one=m == 1):
            c, s = field(v, wrows, 0)[2, m], field(v, wrows, 1)[2, m]
            tm, a = arcs(np.array([r[1] for r in wrows]), c, dates)
            return {'[time]': tm, '[C2m]': a, '[S2m]': arcs(np.array([r[1] for r in wrows]), s, dates)[1], '[eC2m]': np.zeros(2), '[eS2m]': np.zeros(2),
                '[month]': adjusted(grace(tm))}
        for opts in ('', 'ORDER=1, ') if m == 1 else ('ORDER=2, ',):
            case(project, rep, 'fields', 'SLR.CS2.CS2', f'GSFC arcs,{m},{opts}', tw, f'CS2(f, {opts}DATE={give})', axis, WEEK)
        tg, at = Text(), []
        for k in range(12):
            at.append((float(f'{2003.0 + (7.0 * k + 3.5) / 365.25:.6f}'), tg.add(f'{2003.0 + (7.0 * k + 3.5) / 365.25:.6f} @ @')))

        def pairs(v, L, at=at):
            x = np.array([r[0] for r in at])
            tm, a = arcs(x, np.array([v[r[1][0]] for r in at]), dates)
            return {'[time]': tm, '[C2m]': a, '[S2m]': arcs(x, np.array([v[r[1][1]] for r in at]), dates)[1], '[eC2m]': np.zeros(2), '[eS2m]': np.zeros(2),
                '[month]': adjusted(grace(tm))}
        case(project, rep, 'fields', 'SLR.CS2.CS2', f'GSFC pairs,{m}', tg, f'CS2(f, ORDER={m}, DATE={give})', pairs, f'GSFC_C2{m}_S2{m}.txt')
    for n in (28, 14):
        def conv(L, n=n):
            tm, d = arcs(L['t'], L['d'], L['D'], n)
            return {'[time]': tm, '[data]': d, '[month]': adjusted(grace(tm))}
        num.check(project, rep, 'fields', q + 'convert_weekly', lambda r: {'t': 2003.0 + np.arange(12) * 7.01 / 365.25, 'd': r.arr(12), 'D': np.array(dates)}, conv,
            case={'t_in': num.leaf('t'), 'd_in': num.leaf('d'), 'DATE': num.leaf('D'), **({'NEIGHBORS': n} if n != 28 else {})}, label=f'{n}', opaque=TIME,
            defaults=True, models=2)


# -- geocenter ---------------------------------------------------------------------------

G = 'geocenter.geocenter.'
A_AXIS, FLAT = 6378137.0, 1.0 / 298.257223563
MM = 1000.0 * A_AXIS * (1.0 - FLAT)**(1.0 / 3.0) * np.sqrt(3.0)
CMWE = 5.517 * 6.371e8
DEG1 = ('C10', 'C11', 'S11')
LEDGER = """
def ref(text, Loader):
    return {{'header': {{'variables': {{'mid-epoch_time': {{'comment': '1st column'}}, {columns}, 'month': {{'comment': 'last column'}}}}}}}}
"""


def centre(project, rep, reader, label, text, want, file, opts='', stand=None, call=None):
    keep = {'module': 'gravity_toolkit.geocenter', 'name': 'geocenter'}
    case(project, rep, 'geocenter', G + reader, label, text, call or f'geocenter().{reader}(f{opts})', want, file, stand=stand or {}, **keep)


def background(kind):
    """lines of the daily background model of a month"""
    r = np.random.default_rng(kind)
    # in single precision without rounding
    return r.integers(-200, 200, (4, 3)) / 64.0


def geocenters(project, rep):
    rep.rule('geocenter', 'degree one coefficients and their deviations are those of the columns of the file, in its units, with the month of each line', floor=30)
    special = (55845.0, 55850.0, 55905.0, 55935.0)
    for days, l in ((DAYS, ''), (special, ',special months')):
        for head, opts in ((HEAD['PRODUCT'], ''), ([], ', header=False')):
            t, rows = Text(), []
            for h in head:
                t.add(h)
            for d in days:
                y = f'{mjd_time(d):.5f}'
                rows.append((float(y), t.add(f'{d:.1f} {y} ' + ' '.join(['@'] * 9) + f' {d + 30:.1f} {y}')))
                t.add('')

            def gravis(v, L, rows=rows):
                a = np.array([v[r[1]] for r in rows]).T
                w = {**dict(zip(DEG1, a[[0, 3, 6]])), **{'e' + k: 1e-10 * x for k, x in zip(DEG1, a[[2, 5, 8]])}}
                tm = np.array([r[0] for r in rows])
                return {'.time': tm, '.month': adjusted(grace(tm, around='round')), **{f'.{k}': x for k, x in w.items()}}
            centre(project, rep, 'from_gravis', f'GFZ{l}{opts}', t, gravis, 'GRAVIS-2B_GFZOP_GEOCENTER_0003.dat', opts)
    # columns in any order, with or without the daily background model
    for cols, n in ((('time', 'X', 'Y', 'Z', 'X_sigma', 'Y_sigma', 'Z_sigma'), 0), (('time', 'Z_sigma', 'Y', 'X_sigma', 'X', 'Y_sigma', 'Z'), 3)):
        for aod in (False, True):
            t, rows = Text(), []
            for k in range(n):
                t.add(f'header {k}')
            months = [(2003, 12), (2004, 1), (2004, 2)]
            for y, m in months:
                tm = f'{y + (m - 0.5) / 12.0:.4f}'
                rows.append((float(tm), t.add(tm + ' @' * 6)))
            daily = {f'AOD1B_RL05 glo_{y:4.0f}_{m:02.0f}.txt': ['# daily'] + [f'{y}-{m:02d}-{d + 1:02d}T00:00:00 ' + ' '.join(f'{x:.6f}' for x in row)
                for d, row in enumerate(background(12 * y + m))] for y, m in months}

            def slr(v, L, rows=rows, cols=cols, aod=aod, months=months):
                a = {c: np.array([v[r[1][i]] for r in rows]) for i, c in enumerate(cols[1:])}
                w = {}
                for k, c in zip(DEG1, 'ZXY'):
                    mean = np.array([background(12 * y + m)[:, 'XYZ'.index(c)].mean() for y, m in months])
                    w[k] = (a[c] - (mean if aod else 0.0)) / MM
                    w['e' + k] = a[c + '_sigma'] / MM
                return {'.time': np.array([r[0] for r in rows]), '.month': np.array([12 * (y - 2002) + m for y, m in months]), **{f'.{k}': x for k, x in w.items()}}
            for opts in ((f', header={n}, release="RL05", AOD=True',) if aod else (f', header={n}, AOD=False, release="RL05"', f', header={n}') + ((', release=None',) if not n else ())):
                centre(project, rep, 'from_SLR', f'CSR,{n}{opts}', t, slr, 'GCN_RL05.txt', f', columns={list(cols)!r}{opts}',
                    stand=store.stands(project, daily))
    # columns named by the header
    for cols in ({'C10': 2, 'C11': 3, 'S11': 4, 'eC10': 5, 'eC11': 6, 'eS11': 7}, {'S11': 2, 'eC10': 3, 'C10': 4, 'C11': 5}):
        t, rows = Text(), []
        for h in ('header:', '  variables:', '    x: y', '# End of YAML header'):
            t.add(h)
        months = (4, 5, 24, 160)
        for m in months:
            tm = f'{2002 + (m - 0.5) / 12.0:.4f}'
            rows.append((float(tm), t.add(f'{tm} ' + ' '.join(['@'] * len(cols)) + f' {m:03d}')))
        ends = {1: 'st', 2: 'nd', 3: 'rd'}
        head = spec.ref_func(project, LEDGER.format(columns=', '.join(f"{k!r}: {{'comment': '{c}{ends.get(c, 'th')} column'}}" for k, c in cols.items())))

        def uci(v, L, rows=rows, cols=cols, months=months):
            return {'.time': np.array([r[0] for r in rows]), '.month': np.array(months), **{f'.{k}': np.array([v[r[1][c - 2]] for r in rows]) for k, c in cols.items()}}
        centre(project, rep, 'from_UCI', f'{len(cols)} columns', t, uci, 'CSR_RL06_MPIOM_SLF_iter.txt', stand={'yaml.load': head})
    for given in (True, False):
        t, rows = Text(), []
        for h in ('degree one', 'Time C10 C11 S11'):
            t.add(h)
        months = (4, 5, 24, 160, 160)
        for k, m in enumerate(months):
            tm = f'{2002 + (m - 0.5) / 12.0:.4f}'
            rows.append((float(tm), t.add(f'{tm} @ @ @' + (f' {m:03d}' if given else ''))))

        def swenson(v, L, rows=rows, months=months):
            a = np.array([v[r[1]] for r in rows]).T
            return {'.time': np.array([r[0] for r in rows]), '.month': adjusted(months), **{f'.{k}': 0.1 * x / CMWE for k, x in zip(DEG1, a)}}
        centre(project, rep, 'from_swenson', f'{"month" if given else "no month"}', t, swenson, 'gad_gsm.rl05.txt')
    # variables of a file or of a group of it
    for group in ('', 'release'):
        for packed in ('', 'gzip'):
            lines, call = Text(), 'geocenter().from_netCDF4(f' + (f', group={group!r}' if group else '') + (f', compression={packed!r}' if packed else '') + ')'
            lines.lines = ['']
            names = DEG1 + tuple('e' + k for k in DEG1)
            body = ['from gravity_toolkit.geocenter import geocenter', 'import netCDF4', 'from pathlib import Path', 'def ref(v, t, m):', "    f = Path('degree1.nc')",
                "    fid = netCDF4.Dataset(f, mode='w')"]
            for at in ('fid', 'sub') if group else ('fid',):
                if at == 'sub':
                    body += ["    sub = netCDF4.Dataset(Path('other.nc'), mode='w')", f'    fid.groups[{group!r}] = sub']
                body.append(f"    {at}.createDimension('time', 3)")
                for k, x in enumerate(names + ('time', 'month')):
                    body.append(f"    {at}.createVariable({x!r}, 'f8', ('time',))")
                    val = {'time': 't', 'month': 'm'}.get(x, f'v[{k}]') if not group or at == 'sub' else 'np.zeros(3)'
                    body.append(f"    {at}.variables[{x!r}][:] = {val}")
            body += ([f'    f.packed = {packed!r}'] if packed else []) + [f'    return {call}']
            fn = project.require(G + 'from_netCDF4')
            rep.unit(fn.short)
            num.check(project, rep, 'geocenter', G + 'from_netCDF4', lambda r: {'v': r.arr(6, 3), 't': 2003.0 + r.arr(3), 'm': np.array([4, 9, 12])},
                lambda L: {'.time': L['t'], '.month': L['m'], **{f'.{k}': L['v'][i] for i, k in enumerate(names)}},
                func=spec.ref_func(project, '\n'.join(body)), stand=store.stands(project), depth=9, kwargs_open=False, models=2,
                where=f'{fn.module.rel}:{fn.node.lineno}', tag=f'{fn.short}[{group},{packed}]')
    spans = (((2003, 12, 1), (2003, 12, 31)), ((2004, 1, 3), (2004, 2, 3)), ((2004, 2, 10), (2004, 3, 8)), ((2004, 12, 20), (2005, 1, 18)))
    for jpl, opts in ((True, ''), (True, ', JPL=True'), (False, ', JPL=False')):
        t, rows = Text(), []
        for h in ('title', 'end of header ====') if jpl else ('title', "'(a6,2i3)"):
            t.add(h)
        for a, b in spans:
            dates = [f'{x[0]:04d}{x[1]:02d}{x[2]:02d}.0000' for x in (a, b)]
            at = []
            for m in (0, 1):
                at += t.add((f'GRCOF2 1 {m} @ @ @ @ {dates[0]} {dates[1]}' if jpl else f'{dates[0][:6]} 1 {m} @ @ @ @'))
            if jpl:
                tm = (decimal(*a)[0] + decimal(*b)[0]) / 2.0
                month = int(12 * (tm % 1) + 1) + 12 * (int(tm) - 2002)
            else:
                tm, month = decimal(*a[:2])[0], 12 * (a[0] - 2002) + a[1]
            rows.append((tm, month, at))

        def tellus(v, L, rows=rows):
            a = np.array([v[r[2]] for r in rows]).T
            w = dict(zip(('C10', 'eC10', 'C11', 'S11', 'eC11', 'eS11'), a[[0, 2, 4, 5, 6, 7]]))
            return {'.time': np.array([r[0] for r in rows]), '.month': adjusted([r[1] for r in rows]), **{f'.{k}': x for k, x in w.items()}}
        centre(project, rep, 'from_tellus', f'Tellus{opts}', t, tellus, 'TN-13_GEOC_CSR_RL06.txt', opts)


def run(project, rep):
    columns(project, rep)
    fields(project, rep)
    geocenters(project, rep)
