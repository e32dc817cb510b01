"""Calendar, Julian-day and GRACE-month conversions."""
import datetime
from types import SimpleNamespace
import numpy as np
from .. import num, spec, store, values as V

LEAP = np.array([31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31.0])
STND = np.array([31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31.0])
YEARS = np.array([1896, 1900, 1904, 1999, 2000, 2001, 2002, 2004, 2100, 2103, 2400])
FIELDS = ('year', 'month', 'day', 'hour', 'minute', 'second')


def isleap(y):
    return (y % 4 == 0) & (y % 100 != 0) | (y % 400 == 0)


def dates(n, full=True):
    """calendar fields of n dates (0: one scalar date)"""
    def leaves(r):
        k = n or 1
        L = {'year': r.r.choice(YEARS, k), 'month': r.r.integers(1, 13, k), 'day': r.r.integers(1, 29, k), 'hour': r.r.integers(0, 24, k),
            'minute': r.r.integers(0, 60, k), 'second': r.r.integers(0, 60, k), 'DofY': r.r.integers(1, 366, k), 'scale': 1.0 + r.num()}
        L['year'][0] = (2000, 1900, 2004, 2001)[r.seed % 4]
        L['month'][0] = (2, 12, 3, 2)[r.seed % 4]
        L['year'] = L['year'].astype(float)
        for i, name in enumerate(('e0', 'e1', 'e2', 'e3', 'e4', 'e5')):
            L[name] = (r.int(1990, 2020), r.int(1, 12), r.int(1, 28), r.int(0, 23), r.int(0, 59), r.int(0, 59))[i]
        if not n:
            L = {k: (v[0] if isinstance(v, np.ndarray) else v) for k, v in L.items()}
        return L
    return leaves


def days(y, m, d, h=0, mi=0, s=0):
    return datetime.date(int(y), int(m), int(d)).toordinal() + h / 24.0 + mi / 1440.0 + s / 86400.0


# instants on the continuous time line, in days; text dates by their parsed fields and offset from UTC
def parsed(text):
    if len(text) == 15 and text[8] == 'T':
        # compact form
        f = [int(text[i:j]) for i, j in ((0, 4), (4, 6), (6, 8), (9, 11), (11, 13), (13, 15))]
        return SimpleNamespace(**dict(zip(FIELDS, f)), tzinfo=None, at=days(*f))
    f = [int(x) for x in text.split('T')[0].split('-')] + [int(x) for x in text.split('T')[1][:8].split(':')]
    return SimpleNamespace(**dict(zip(FIELDS, f)), tzinfo=text[19:] or None, at=days(*f) - (float(text[19:]) / 24.0 if text[19:] else 0.0))


def replaced(m, a, kw):
    if kw == {'tzinfo': None}:
        # drops the offset without moving the clock
        return SimpleNamespace(**{**vars(a[0]), 'tzinfo': None, 'at': days(*(getattr(a[0], k) for k in FIELDS))})
    raise NotImplementedError


def utc(m, a, kw):
    d = a[0]
    sec = int(round((d.at % 1) * 86400.0))
    day = datetime.date.fromordinal(int(d.at))
    return SimpleNamespace(year=day.year, month=day.month, day=day.day, hour=sec // 3600, minute=sec // 60 % 60, second=sec % 60, tzinfo='0', at=d.at)


TIMELINE = {
    'datetime.datetime': lambda m, a, kw: days(*a),
    'dateutil.parser.parse': lambda m, a, kw: parsed(a[0]),
    '.replace': replaced,
    '.astimezone': utc,
    'numpy.datetime64': lambda m, a, kw: getattr(a[0], 'at', a[0]),
    'numpy.timedelta64': lambda m, a, kw: a[0] * {'s': 1.0 / 86400.0, 'D': 1.0, 'h': 1.0 / 24.0, 'm': 1.0 / 1440.0}[a[1]],
}


def mjd(L):
    e = days(*(L[f'e{i}'] for i in range(6)))
    f = [np.atleast_1d(L[k]) for k in FIELDS]
    v = np.array([days(*x) - e for x in zip(*f)])
    return {'return': L['scale'] * (v if np.ndim(L['year']) else v[0])}


def decimal(use):
    def ref(L):
        y, m, d, h, mi, s, doy = [np.atleast_1d(L[k]) for k in FIELDS + ('DofY',)]
        out = []
        for i in range(len(y)):
            lp = isleap(y[i])
            dpm = LEAP if lp else STND
            k = int(m[i]) - 1
            if use == 'DofY':
                t = doy[i] - 1.0
            else:
                t = dpm[:k].sum() + (d[i] - 1.0 if use == 'day' else dpm[k] / 2.0)
            if use != 'month':
                t += h[i] / 24.0 + mi[i] / 1440.0 + s[i] / 86400.0
            out.append(y[i] + t / dpm.sum())
        return {'return': np.array(out)}
    return ref


def julian(n):
    def leaves(r):
        jd = r.r.uniform(2299161.0, 2500000.0, n or 1)
        if n:
            # both sides of the Gregorian reform
            jd[0] = r.r.uniform(2200000.0, 2299160.0)
        return {'JD': jd if n else jd[0]}
    return leaves


def clock(text):
    u = utc(None, [parsed(text)], {})
    return tuple(getattr(u, k) for k in FIELDS)


def calendar(form, whole=False):
    def ref(L):
        out = []
        for jd in np.atleast_1d(L['JD']):
            z = np.floor(jd + 0.5)
            t = jd + 0.5 - z
            a = int(z)
            if a >= 2299161:
                al = int((a - 1867216.25) / 36524.25)
                a = a + 1 + al - al // 4
            b = a + 1524
            c = int((b - 122.1) / 365.25)
            d = int(365.25 * c)
            e = int((b - d) / 30.6001)
            day = b - d - int(30.6001 * e)
            month = e - 1 if e < 14 else e - 13
            year = c - 4716 if month > 2 else c - 4715
            hour = np.floor(24.0 * t)
            minute = np.floor(1440.0 * (t - hour / 24.0))
            out.append((year, month, day, hour, minute, 86400.0 * (t - hour / 24.0 - minute / 1440.0)))
        cols = [np.array(x, dtype=float) for x in zip(*out)]
        if whole:
            cols = [x.astype(int) for x in cols]
        if np.ndim(L['JD']) == 0:
            cols = [x[0] for x in cols]
        return {(f'[{k}]' if form == 'dict' else f'#{i}'): cols[i] for i, k in enumerate(FIELDS)}
    return ref


def jd(L):
    y = int(np.floor(L['year_decimal']))
    n = 366.0 if isleap(y) else 365.0
    # Julian date of the first day of the year at midnight
    first = datetime.date(y, 1, 1).toordinal() + 1721424.5
    return {'return': first + n * (L['year_decimal'] - y)}


SECONDS = {'microseconds': 1e-6, 'milliseconds': 1e-3, 'seconds': 1.0, 'minutes': 60.0, 'hours': 3600.0, 'days': 86400.0,
    'common_years': 31536000.0, 'years': 31557600.0}
ALIAS = {'microseconds': 'microsecond microsec microsecs', 'milliseconds': 'millisecond millisec millisecs msec msecs ms',
    'seconds': 'second sec secs s', 'minutes': 'minute min mins', 'hours': 'hour hr hrs h', 'days': 'day d',
    'common_years': 'common_year', 'years': 'year'}


# dates as text: a date, a clock and an offset from UTC
SINCE = '''
class Moment(object):
    def __init__(self, fields, offset=None):
        self.year, self.month, self.day, self.hour, self.minute, self.second = fields
        self.fields = fields
        self.offset = offset
        self.tzinfo = None if offset is None else offset[0] + ':'

    def astimezone(self, zone=None):
        hour = self.hour
        minute = self.minute
        if self.offset is not None:
            sign = -1 if self.offset[0] == '-' else 1
            hour = hour - sign * int(self.offset[1:3])
            minute = minute - sign * int(self.offset[4:6])
        return Moment([self.year, self.month, self.day, hour, minute, self.second], '+00:00')

    def replace(self, tzinfo=None):
        return Moment(self.fields, tzinfo)


def moment(text):
    parts = text.replace('T', ' ').split()
    if len(parts[0].split('-')) != 3:
        raise ValueError(text)
    fields = [int(x) for x in parts[0].split('-')]
    if len(parts) > 1:
        fields.extend([int(x) for x in parts[1].split(':')])
    else:
        fields.extend([0, 0, 0])
    return Moment(fields, parts[2] if len(parts) > 2 else None)
'''


def run(project, rep):
    rep.rule('formula', 'each conversion is the published calendar relation, for dates in ordinary, leap and century years', floor=60)
    rep.rule('inverse', 'converting to the other numbering and back yields the input', floor=3)
    t = 'time.'
    f0 = project.require('time.parse_date_string')

    def chk(q, leaves, ref, **kw):
        num.check(project, rep, kw.pop('rule', 'formula'), t + q, leaves, ref, funcs=TIMELINE, **{'models': 8, **kw})

    def sub(q, leaves, ref, form, **kw):
        # seconds carry the rounding of Julian days
        last = '[second]' if form == 'dict' else '#5'
        chk(q, leaves, lambda L: {k: v for k, v in ref(L).items() if k != last}, tol=1e-9, **kw)
        chk(q, leaves, lambda L: {k: v for k, v in ref(L).items() if k == last}, tol=1e-3, **kw)

    for y in (1900, 1996, 2000, 2001, 2002, 2004, 2100, 2400):
        chk('calendar_days', lambda r, y=y: {'year': y}, lambda L: {'return': LEAP if isleap(L['year']) else STND}, label=str(y), models=1)
    # months since the start of 2002
    for n in (0, 5):
        chk('calendar_to_grace', lambda r, n=n: {'year': r.r.integers(1990, 2030, n) if n else r.int(1990, 2030), 'month': r.r.integers(1, 13, n) if n else r.int(1, 12)},
            lambda L: {'return': 12 * (L['year'] - 2002) + L['month']}, case={'month': num.leaf('month'), 'year': num.leaf('year')}, defaults=True, label=f'calendar year,{n}')
        chk('calendar_to_grace', lambda r, n=n: {'year': r.r.uniform(1990, 2030, n) if n else float(r.r.uniform(1990, 2030))},
            lambda L: {'return': np.floor(12.0 * (L['year'] - 2002.0)).astype(int) + 1}, case={'year': num.leaf('year')}, defaults=True, label=f'decimal year,{n}')
        chk('grace_to_calendar', lambda r, n=n: {'grace_month': np.append(r.r.integers(-60, 400, n), [12, 24, 0]) if n else (12, 13, 24, 0, 7, 30, 1, 121)[r.seed % 8]},
            lambda L: {'#0': 2002 + (L['grace_month'] - 1) // 12, '#1': (L['grace_month'] - 1) % 12 + 1}, label=f'{n}')
    chk('calendar_to_julian', lambda r: {'year_decimal': (1900.3, 2000.9, 2004.1, 2001.4, 1999.99, 2100.5, 1996.02, 2002.5)[r.seed % 8]}, jd, tol=1e-10)
    none = None
    for n in (0, 12):
        for use in ('day', 'DofY', 'month'):
            case = {k: num.leaf(k) for k in ('hour', 'minute', 'second') if use != 'month'}
            if use != 'month':
                case[use] = num.leaf(use)
            case.update({'year': num.leaf('year'), 'month': num.leaf('month')})
            assume = [V.b_not(V.cmp('is', V.sym(x), V.NONE)) for x in ('day', 'hour', 'minute', 'second', 'DofY')]
            chk('convert_calendar_decimal', dates(n), decimal(use), case=case, defaults=True, assume=assume, label=f'{use},{n}', tol=1e-10)
    epoch = {'epoch': V.mk('tuple', tuple(V.sym(f'e{i}') for i in range(6)))}
    for n in (0, 12):
        chk('convert_calendar_dates', dates(n), mjd, case=epoch, label=f'{n}', tol=1e-9)
        chk('convert_calendar_dates', dates(n), lambda L: mjd({**L, 'hour': 0.0 * L['hour'], 'minute': 0.0 * L['hour'], 'second': 0.0 * L['hour'], 'scale': 1.0,
            **dict(zip((f'e{i}' for i in range(6)), (1992, 1, 1, 0, 0, 0)))}), defaults=True, case={k: num.leaf(k) for k in ('year', 'month', 'day')},
            label=f'defaults,{n}', tol=1e-9)
        for form in ('dict', 'tuple'):
            sub('convert_julian', julian(n), calendar(form), form, case={'**format': form, '**astype': none}, label=f'{form},{n}', kwargs_open=False)
        num.check(project, rep, 'formula', t + 'convert_julian', julian(n), lambda L: {k: v for k, v in calendar('tuple', True)(L).items() if k != '#5'},
            case={'**format': 'tuple', '**astype': V.mk('ext', 'int')}, label=f'tuple,int,{n}', kwargs_open=False)
        sub('convert_julian', julian(n), calendar('dict'), 'dict', case={'JD': num.leaf('JD')}, label=f'defaults,{n}', defaults=True)
    ep = {k: V.mk('tuple', tuple(V.sym(f'{k}{i}') for i in range(6))) for k in ('epoch1', 'epoch2')}
    order = lambda r: {f'{k}{i}': (r.int(1970, 2020), r.int(1, 12), r.int(1, 28), r.int(0, 23), r.int(0, 59), r.int(0, 59))[i]  # noqa: E731
        for k in ep for i in range(6)}
    at = lambda L, k: days(*(L[f'{k}{i}'] for i in range(6)))  # noqa: E731
    chk('convert_delta_time', lambda r: {**order(r), 'delta_time': 1e8 * r.arr(4), 'scale': r.num()}, lambda L: {'return': L['scale'] * (L['delta_time'] -
        86400.0 * (at(L, 'epoch2') - at(L, 'epoch1')))}, case=ep)
    chk('convert_datetime', lambda r: {**order(r), 'date': 730000.0 + 1000 * r.arr(3)}, lambda L: {'return': 86400.0 * (L['date'] - at(L, 'epoch1'))},
        case={'epoch': ep['epoch1']})
    # epochs given as text, with and without an offset from UTC
    texts = ('1992-01-01T00:00:00', '2000-01-01T12:00:00-5', '2002-04-17T18:30:00', '1999-12-31T21:00:00+2', '1980-01-06T00:00:00')
    tx = lambda r: {**{k: texts[(r.seed + i) % 5] for i, k in enumerate(('epoch', 'epoch1', 'epoch2', 'date_string'))}}  # noqa: E731
    chk('convert_delta_time', lambda r: {**tx(r), 'delta_time': 1e8 * r.arr(4), 'scale': r.num()}, lambda L: {'return': L['scale'] * (L['delta_time'] -
        86400.0 * (parsed(L['epoch2']).at - parsed(L['epoch1']).at))}, label='text')
    chk('convert_delta_time', lambda r: {**tx(r), 'delta_time': 1e8 * r.arr(4)}, lambda L: {'return': L['delta_time'] -
        86400.0 * (parsed(L['epoch2']).at - parsed(L['epoch1']).at)}, label='text,defaults', defaults=True,
        case={k: num.leaf(k) for k in ('epoch1', 'epoch2')})
    chk('convert_datetime', lambda r: {**tx(r), 'date': 730000.0 + 1000 * r.arr(3)}, lambda L: {'return': 86400.0 * (L['date'] - parsed(L['epoch']).at)},
        label='text')
    chk('convert_datetime', lambda r: {'date': 730000.0 + 1000 * r.arr(3)}, lambda L: {'return': 86400.0 * (L['date'] - days(1970, 1, 1))},
        label='defaults', defaults=True)
    chk('convert_calendar_dates', lambda r: {**dates(5)(r), **tx(r)}, lambda L: {'return': mjd({**L, **dict(zip((f'e{i}' for i in range(6)),
        clock(L['epoch'])))})['return']}, label='text', tol=1e-9)
    chk('datetime_to_list', tx, lambda L: {'return': list(clock(L['date_string']))}, label='parsed', func=spec.ref_func(project,
        'def ref(date_string):\n    return datetime_to_list(parse(date_string))\n', 'from gravity_toolkit.time import datetime_to_list, parse\n'))
    chk('parse_date_string', tx, lambda L: {'#0': list(clock(L['date_string'])), '#1': 0.0}, label='date')
    # units since an epoch
    since = store.bind(project, None, SINCE)
    when = {'dateutil.parser.parse': next(x for x in since.functions if x.name == 'moment')}
    for text, want, factor in (('days since 2000-01-01T12:00:00', (2000, 1, 1, 12, 0, 0), 86400.0), ('Seconds  since\t1980-01-06 00:00:30', (1980, 1, 6, 0, 0, 30), 1.0),
            ('HOURS since 1992-01-01', (1992, 1, 1, 0, 0, 0), 3600.0), ('minutes since 2001-12-31 23:59:58', (2001, 12, 31, 23, 59, 58), 60.0),
            ('1999-12-31 21:00:00 +02:00', (1999, 12, 31, 19, 0, 0), 0.0), ('days since 2003-06-15 01:30:00 -05:00', (2003, 6, 15, 6, 30, 0), 86400.0)):
        body = f'def ref():\n    return parse_date_string({text!r})\n'
        num.check(project, rep, 'formula', t + 'parse_date_string', lambda r: {}, lambda L, w=want, c=factor: {'#0': list(w), '#1': c}, func=spec.ref_func(project, body, 'from gravity_toolkit.time import parse_date_string\n'),
            stand=when, kwargs_open=False, models=1, fold=True, where=f'{f0.module.rel}:{f0.node.lineno}', tag=f'{f0.short}[{text}]')
    for text, why in (('days 2000', 'format'), ('fortnights since 2000-01-01', 'units')):
        body = f'def ref():\n    try:\n        parse_date_string({text!r})\n    except ValueError:\n        return 1\n    return 0\n'
        num.check(project, rep, 'formula', t + 'parse_date_string', lambda r: {}, lambda L: {'return': 1}, func=spec.ref_func(project, body, 'from gravity_toolkit.time import parse_date_string\n'),
            stand=when, kwargs_open=False, models=1, fold=True, where=f'{f0.module.rel}:{f0.node.lineno}', tag=f'{f0.short}[{why}]')
    # scale factors of the time units
    f = project.require(t + 'parse_date_string')
    if project.resolve_name(f.module, '_to_sec') is not None:
        for u, s in SECONDS.items():
            for a in (u + ' ' + ALIAS[u]).split():
                rf = spec.ref_func(project, f'def ref():\n    return _to_sec["{a}"]', imports='from gravity_toolkit.time import _to_sec\n')
                chk('parse_date_string', lambda r: {}, lambda L, s=s: {'return': s}, func=rf, label=f'seconds per {a}', models=1,
                    where=f'{f.module.rel}:{f.node.lineno}')
    imp = 'from gravity_toolkit.time import calendar_to_grace, grace_to_calendar\n'
    there = spec.ref_func(project, 'def ref(year, month):\n    return grace_to_calendar(calendar_to_grace(year, month=month))\n', imp)
    back = spec.ref_func(project, 'def ref(grace_month):\n    y, m = grace_to_calendar(grace_month)\n    return calendar_to_grace(y, month=m)\n', imp)
    g = project.require(t + 'grace_to_calendar')
    pos = f'{g.module.rel}:{g.node.lineno}'
    chk('grace_to_calendar', lambda r: {'year': r.int(1990, 2030), 'month': (1, 12, 6, 2)[r.seed % 4]}, lambda L: {'#0': L['year'], '#1': L['month']},
        func=there, rule='inverse', label='calendar_to_grace, grace_to_calendar', where=pos)
    chk('grace_to_calendar', lambda r: {'grace_month': r.r.integers(-60, 400, 9)}, lambda L: {'return': L['grace_month']}, func=back, rule='inverse',
        label='grace_to_calendar, calendar_to_grace', where=pos)
    chk('datetime_to_list', lambda r: {f'date.{k}': i + 3 for i, k in enumerate(FIELDS)}, lambda L: {'return': [L[f'date.{k}'] for k in FIELDS]})
