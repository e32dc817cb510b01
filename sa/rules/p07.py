"""What is written to a file is what is read back."""
import numpy as np
from .. import net, num, spec, store, values as V

FORMATS = ('netCDF4', 'HDF5')
DRIVER = '''
from gravity_toolkit.{cls} import {cls}
from pathlib import Path
import io
import numpy as np
def pack(f, kind):
    f.packed = kind
    return f
def ref(self, title):
    f = Path('x')
    {prep}
    self.{to}
    heading = None
    {between}
    b = {opened}
    r = {cls}().{fr}
    r.heading = heading
    return r
'''


META = {
    'harmonics': ("units='U', time_units='V', time_longname='W', months_units='X', months_longname='Y', title='T', source='S', reference='R'",
        {'clm': ('U', None), 'slm': ('U', None), 'time': ('V', 'W'), 'month': ('X', 'Y')}),
    'spatial': ("units='U', longname='Z', time_units='V', time_longname='W', title='T', source='S', reference='R'",
        {'data': ('U', 'Z'), 'time': ('V', 'W')})}
ROOT = {'title': 'T', 'source': 'S', 'reference': 'R', 'note': 'N'}
LABELS = '''
from gravity_toolkit.{cls} import {cls}
from pathlib import Path
def ref(self):
    f = Path('x')
    {prep}
    self.attributes = dict(ROOT=dict(note='N'))
    self.{to}
    r = {cls}().{fr}
    out = {{}}
    {collect}
    return out
'''
INDEX = '''
from gravity_toolkit.{cls} import {cls}
from pathlib import Path
def ref(self):
    f = Path('i')
    names = [Path('a'), Path('b'), Path('c')]
    {prep}
    self.{to}
    f.lines.insert(1, '# a comment')
    f.lines.insert(2, '')
    r = {cls}().{fr}
    r.titles = [names[0].content.attrs['title'], names[2].content.attrs['title']]
    return r
'''


# an object is made by its class, so that it has no attributes but the usual
GRIDS = '''
from gravity_toolkit.spatial import {cls}
from pathlib import Path
import io
def pack(f, kind):
    f.packed = kind
    return f
def ref(self):
    f = Path('x')
    w = {cls}(fill_value=-9999.0)
    w.data, w.mask, w.lon, w.lat = (self.data, self.mask, self.lon, self.lat)
    {prep}
    w.{to}
    b = {opened}
    return {cls}(fill_value=-9999.0).{fr}
'''
GRIDSERIES = '''
from gravity_toolkit.{cls} import {cls}
from pathlib import Path
def ref(self):
    f = Path('i')
    names = [Path('a'), Path('b'), Path('c')]
    w = {cls}(fill_value=-9999.0)
    w.data, w.mask, w.lon, w.lat = (self.data, self.mask, self.lon, self.lat)
    {prep}
    w.{to}
    return {cls}().{fr}
'''
SERIES = '''
from gravity_toolkit.{cls} import {cls}
from pathlib import Path
def ref(self):
    f = Path('i')
    names = [Path('a'), Path('b'), Path('c')]
    {prep}
    self.{to}
    return {cls}().{fr}
'''
DICT = '''
from gravity_toolkit.{cls} import {cls}
def ref(self):
    {prep}
    D = self.{to}
    return {cls}().{fr}
'''


def point(nt):
    def leaves(r):
        num = (lambda: r.arr(nt)) if nt else r.num
        L = {f'self.{k}': num() for k in ('C10', 'C11', 'S11', 'eC10', 'eC11', 'eS11', 'X', 'Y', 'Z', 'X_sigma', 'Y_sigma', 'Z_sigma')}
        L.update({'self.time': num() + 2003.0, 'self.month': np.arange(nt) + 15 if nt else 15})
        return L
    return leaves


def adjust(Xmonths):
    return np.asarray(Xmonths) + 100


def coefficients(nt, lm, date=True):
    def leaves(r):
        L = {}
        sh = (lm[0] + 1, lm[1] + 1) + ((nt,) if nt else ())
        l, m = np.indices(sh[:2])
        for k in ('clm', 'slm'):
            a = r.arr(*sh) * np.where(r.arr(*sh) > 1, 1, -1)
            a[(m > l) | ((k == 'slm') & (m == 0))] = 0.0
            L[f'self.{k}'] = a
        L.update({'self.lmax': lm[0], 'self.mmax': lm[1], 'self.l': np.arange(lm[0] + 1), 'self.m': np.arange(lm[1] + 1)})
        L['self.time'] = 2003.0 + np.sort(r.arr(nt)) if nt else 2003.0 + r.num()
        L['self.month'] = np.arange(nt) + 15 if nt else 15
        L.update({'self.flattened': False, 'self.filename': None})
        return L
    return leaves


def back(nt, date, again=lambda x: x):
    def ref(L):
        q = (lambda x: np.squeeze(x))  # noqa: E731
        out = {'.clm': q(L['self.clm']), '.slm': q(L['self.slm']), '.lmax': L['self.lmax'], '.mmax': L['self.mmax'],
            '.l': L['self.l'], '.m': L['self.m'], '.flattened': False}
        if date:
            out.update({'.time': q(L['self.time']), '.month': again(adjust(q(L['self.month']))) if again else L['self.month']})
        return out
    return ref


def grid(nt, fill, shape=(3, 4), error=False, loose=False):
    def leaves(r):
        L = {}
        sh = shape + ((nt,) if nt else ())
        d = r.arr(*sh) * np.where(r.arr(*sh) > 1, 1, -1)
        mask = np.zeros(sh, dtype=bool)
        if fill is not None:
            mask[1, 2] = True
            mask[(0, 1) + ((0,) if nt else ())] = True
            d[mask] = fill
            if loose:
                mask[2, 1] = True
        L.update({'self.data': d, 'self.mask': mask, 'self.fill_value': fill, 'self.lon': 10.0 + 2.0 * np.arange(shape[1]),
            'self.lat': np.arange(shape[0]) - 1.0, 'self.filename': None})
        if error:
            L['self.error'] = np.where(mask, fill, r.arr(*sh)) if fill is not None else r.arr(*sh)
        L['self.time'] = 2003.0 + np.sort(r.arr(nt)) if nt else 2003.0 + r.num()
        L['self.month'] = np.arange(nt) + 15 if nt else 15
        return L
    return leaves


def gridback(nt, fill, date, error, again=lambda x: x):
    def ref(L):
        q = (lambda x: np.squeeze(x))  # noqa: E731
        out = {'.data': q(L['self.data']), '.mask': q(L['self.mask']), '.lon': L['self.lon'], '.lat': L['self.lat'],
            '.fill_value': fill}
        if error:
            out['.error'] = q(L['self.error'])
        if date:
            out['.time'] = q(L['self.time'])
            out['.month'] = again(adjust(np.array(np.floor(12.0 * (q(L['self.time']) - 2002.0)) + 1, dtype=int)))
        return out
    return ref


def rounded(leaves, *drop, **at):
    """values as the columns of an ascii file keep them"""
    def out(r):
        L = leaves(r)
        L.update({'self.' + k: v for k, v in at.items()})
        for k, v in L.items():
            if isinstance(v, float) or getattr(v, 'dtype', None) == float:
                L[k] = np.round(v, 12 if k in ('self.clm', 'self.slm') else 4)
        for k in drop:
            L.pop('self.' + k)
        return L
    return out


def ascii_month(L):
    return adjust(np.array(np.floor(12.0 * (L['self.time'] - 2002.0)) + 1, dtype=int))


def asciiback(lm, date, again=lambda x: x):
    """an ascii file keeps no months"""
    def ref(L):
        out = {'.clm': L['self.clm'], '.slm': L['self.slm'], '.lmax': lm[0], '.mmax': lm[1], '.l': np.arange(lm[0] + 1), '.m': np.arange(lm[1] + 1)}
        if date:
            out.update({'.time': L['self.time'], '.month': again(ascii_month(L))})
        return out
    return ref


def scalings(r):
    L = rounded(grid(None, -9999.0, error=True, loose=True))(r)
    L.update({'self.magnitude': np.round(r.arr(3, 4), 4), 'self.lon': 2.0 * np.arange(4), 'self.lat': 90.0 - np.arange(3)})
    return L


def listed(keys, fill=-9999.0, value=-9999.0):
    """points that are not listed in the file are masked"""
    def ref(L):
        out = {'.' + k: np.where(L['self.mask'], fill, L['self.' + k]) for k in keys}
        return {**out, '.mask': L['self.mask'], '.lon': L['self.lon'], '.lat': L['self.lat'], '.fill_value': value}
    return ref


def rk(nt):
    n = 3 if nt else 2
    return {'self.data': n, 'self.mask': n, 'self.error': n}


def labels(project, rep, cls, fmt, leaves, prep='pass', ranks=None):
    opts, fields = META[cls]
    lines, want = [], {}
    for k, v in ROOT.items():
        lines.append(f"out['{k}'] = r.attributes['ROOT']['{k}']")
        want[f'[{k}]'] = v
    for k, (u, n) in fields.items():
        for i, (w, x) in enumerate((('units', u), ('long_name', n))):
            if x is not None:
                lines.append(f"out['{k} {w}'] = r.attributes['{k}'][{i if cls == 'harmonics' else repr(w)}]")
                want[f'[{k} {w}]'] = x
    text = LABELS.replace('{collect}', '\n    '.join(lines))
    trip(project, rep, cls, leaves, lambda L: dict(want), f'to_{fmt}(f, {opts})', f'from_{fmt}(f)', f'{fmt},attributes', prep, ranks, driver=text)


def trip(project, rep, cls, leaves, ref, to, fr, label, prep='pass', ranks=None, opened=None, driver=DRIVER, between='pass'):
    f = spec.ref_func(project, driver.format(cls=cls, to=to, fr=fr, prep=prep, between=between, opened='io.BytesIO(f)' if opened == 'bytes' else f'pack(f, {opened!r})' if opened else 'f'))
    home = 'spatial' if cls == 'scaling_factors' else cls
    to = project.require(f'{home}.{cls}.{to.split("(")[0]}')
    rep.unit(to.short)
    rep.unit(project.require(f'{home}.{cls}.{fr.split("(")[0]}').short)
    num.check(project, rep, 'trip', f'{home}.{cls}', leaves, ref, func=f, label=label, opaque={'time.adjust_months': adjust},
        case={'self': num.inst(project, f'{home}.{cls}', 'self')}, stand=store.stands(project), depth=9, budget=2000000,
        kwargs_open=False, where=f'{to.module.rel}:{to.node.lineno}', models=2, ranks=ranks, tag=f'{to.short}[{label}]')


NODATE = 'self.time = None; self.month = None'
EMPTY = 'self.attributes = dict(ROOT=dict())'
HEAD = "heading = f.content.attrs['title']"


def more(ref, **extra):
    return lambda L: {**ref(L), **extra}


def shuffled(leaves):
    def out(r):
        L = leaves(r)
        # months repeat, and need not be in the order of the dates
        L['self.time'] = L['self.time'][[2, 0, 1]]
        L['self.month'] = np.array([14, 14, 12])
        return L
    return out


def ordered(ref, date):
    """files of an index are put in order of their dates"""
    def out(L):
        o = np.argsort(L['self.time'])
        return ref({k: v[..., o] if date and isinstance(v, np.ndarray) and v.shape[-1:] == (3,) and k not in ('self.lat', 'self.lon', 'self.l', 'self.m')
            else v for k, v in L.items()})
    return out


def texts(project, rep):
    """ascii files: each value to the digits of its column"""
    def lims(lm):
        return f'self.lmax = {lm[0]}; self.mmax = {lm[1]}'
    drop = ('lmax', 'mmax')
    for lm in ((2, 1), (3, 3)):
        for date in (True, False):
            args = f'f, date={date}'
            trip(project, rep, 'harmonics', rounded(coefficients(None, lm), *drop), asciiback(lm, date), f'to_ascii({args})', f'from_ascii({args})',
                f'ascii,{lm[0]}x{lm[1]},date={date}', lims(lm) + ('' if date else '; ' + NODATE))
    lm = (2, 1)
    H, HB = rounded(coefficients(None, lm), *drop), asciiback(lm, True)
    for z in ('gzip', 'zip', 'bytes'):
        trip(project, rep, 'harmonics', H, HB, 'to_ascii(f)', f"from_ascii(b, compression='{z}')", f'ascii,{z}', lims(lm), opened=z)
        trip(project, rep, 'harmonics', H, HB, 'to_ascii(f)', f"from_file(b, format='ascii', compression='{z}')", f'ascii,file,{z}', lims(lm), opened=z)
    for date in (True, False):
        args = f"f, format='ascii', date={date}"
        trip(project, rep, 'harmonics', H, asciiback(lm, date), f'to_file({args})', f'from_file({args})', f'ascii,file,date={date}', lims(lm) + ('' if date else '; ' + NODATE))
    trip(project, rep, 'harmonics', H, HB, 'to_ascii(f)', 'from_ascii(f)', 'ascii,again', lims(lm), between='self.to_ascii(f)')
    G = {'lon': 2.0 * np.arange(4), 'lat': 90.0 - np.arange(3)}
    R = {'lon': 10.0 + 2.0 * np.arange(4), 'lat': 60.0 - np.arange(3)}
    none = listed(('data',))
    # from_file makes an object that has no fill value
    new = listed(('data',), 0.0, None)
    dated = lambda ref: lambda L: {**ref(L), '.time': L['self.time'], '.month': ascii_month(L)}  # noqa: E731
    S, sp = rounded(grid(None, -9999.0, loose=True), **G), 'spacing=[2.0,1.0], nlat=3, nlon=4'
    T = 'w.time = self.time'
    for z in (None, 'gzip', 'zip', 'bytes'):
        trip(project, rep, 'spatial', S, dated(none), 'to_ascii(f)', f"from_ascii(b, compression={z!r}, {sp})", f'ascii,{z}', T, rk(None), z, GRIDS)
        trip(project, rep, 'spatial', S, dated(new), 'to_ascii(f)', f"from_file(b, format='ascii', compression={z!r}, {sp})", f'ascii,file,{z}', T, rk(None), z, GRIDS)
    for name, leaves, opts in (('spacing', S, sp), ('extent', rounded(grid(None, -9999.0, loose=True), **R), 'extent=[10.0,16.0,58.0,60.0], spacing=[2.0,1.0]'),
            ('limits', rounded(grid(None, -9999.0, loose=True), **R), 'extent=[10.0,16.0,58.0,60.0], nlat=3, nlon=4')):
        trip(project, rep, 'spatial', leaves, dated(none), 'to_ascii(f)', f'from_ascii(f, {opts})', f'ascii,{name}', T, rk(None), driver=GRIDS)
        trip(project, rep, 'spatial', leaves, none, 'to_ascii(f, date=False)', f'from_ascii(f, date=False, {opts})', f'ascii,{name},date=False', 'w.time = None', rk(None), driver=GRIDS)
        trip(project, rep, 'spatial', leaves, new, "to_file(f, format='ascii', date=False)", f"from_file(f, format='ascii', date=False, {opts})",
            f'ascii,file,{name},date=False', 'w.time = None', rk(None), driver=GRIDS)
        cols = "columns=['lon','lat','data','error','time']"
        trip(project, rep, 'spatial', more_leaves(leaves), dated(none), 'to_ascii(f)', f'from_ascii(f, {cols}, {opts})', f'ascii,{name},error', T + '; w.error = self.error', rk(None),
            driver=GRIDS)
        trip(project, rep, 'spatial', more_leaves(leaves), none, 'to_ascii(f, date=False)', f'from_ascii(f, {cols}, date=False, {opts})', f'ascii,{name},error,date=False',
            'w.time = None; w.error = self.error', rk(None), driver=GRIDS)
        trip(project, rep, 'scaling_factors', lambda r, c=leaves: {**scalings(r), **{k: c(r)[k] for k in ('self.lon', 'self.lat')}}, listed(('data', 'error', 'magnitude')),
            'to_ascii(f)', f'from_ascii(f, {opts})', f'ascii,{name}', 'w.error = self.error; w.magnitude = self.magnitude', {**rk(None), 'self.magnitude': 2}, driver=GRIDS)
    for date in (True, False):
        w, r = f"f, names, format='ascii', date={date}", f"f, format='ascii', date={date}"
        trip(project, rep, 'harmonics', shuffled(rounded(coefficients(3, lm), *drop)), ordered(asciiback(lm, date, adjust), date), f'to_index({w})', f'from_index({r})',
            f'ascii,index,date={date}', lims(lm) + ('' if date else '; ' + NODATE), driver=SERIES)
        w, r = f"f, names, format='ascii', date={date}", f"f, format='ascii', date={date}, {sp}"
        trip(project, rep, 'spatial', shuffled(rounded(grid(3, -9999.0), **G)), ordered((lambda L: {**new(L), '.time': L['self.time'], '.month': adjust(ascii_month(L))}) if date else new, date),
            f'to_index({w})', f'from_index({r})', f'ascii,index,date={date}', 'w.time, w.month = (self.time, self.month)' if date else 'pass', rk(3), driver=GRIDSERIES)
    for z in ('gzip', 'zip', 'bytes'):
        trip(project, rep, 'scaling_factors', scalings, listed(('data', 'error', 'magnitude')), 'to_ascii(f)', f"from_ascii(b, compression='{z}', {sp})", f'ascii,{z}',
            'w.error = self.error; w.magnitude = self.magnitude', {**rk(None), 'self.magnitude': 2}, z, GRIDS)


def more_leaves(leaves):
    return lambda r: {**leaves(r), 'self.error': np.round(r.arr(3, 4), 4)}



FOUND = '''
from gravity_toolkit.{mod} import {cls}
import vfs
def ref():
    d = vfs.disk({given!r})
    f = {cls}()
    try:
        g = f.case_insensitive_filename(d.joinpath({name!r}))
    except FileNotFoundError:
        return ['missing']
    return [f.filename.name, f.filename.content, g.filename.name]
'''
GIVEN = {'Second_002.NC': 'two', 'first_001.txt': 'one', 'FIRST_002.TXT': 'three', 'other.txt': 'four', 'third.tx': 'five'}


def found(project, rep):
    rep.rule('found', 'a file is the one of the name given, else the one of that name in another case, else it is reported missing', floor=9)
    for mod, cls in (('harmonics', 'harmonics'), ('spatial', 'spatial'), ('geocenter', 'geocenter')):
        fn = project.require(f'{mod}.{cls}.case_insensitive_filename')
        rep.unit(fn.short)
        for name, there in (('first_001.txt', 'first_001.txt'), ('second_002.nc', 'Second_002.NC'), ('First_002.txt', 'FIRST_002.TXT'), ('Other.TXT', 'other.txt'), ('Third.txt', None)):
            want = [there, GIVEN[there], there] if there else ['missing']
            num.check(project, rep, 'found', f'{mod}.{cls}.case_insensitive_filename', lambda r: {}, lambda L, w=want: {'return': w}, func=spec.ref_func(project, FOUND.format(mod=mod, cls=cls, given=GIVEN, name=name)),
                stand=net.stands(project, {}), kwargs_open=False, depth=9, models=1, fold=True, where=f'{fn.module.rel}:{fn.node.lineno}', tag=f'{fn.short}[{name}]')


def run(project, rep):
    rep.rule('trip', 'an object read from a file or dictionary has the values the object written to it had', floor=100)
    rep.assume('netCDF4 and h5py keep the variables and attributes they are given (contract stated in sa/store.py)')
    H, S = coefficients(5, (4, 3)), grid(5, -9999.0)
    HB, SB = back(5, True), gridback(5, -9999.0, True, False)
    FILL = 'self.fill_value = -9999.0'
    for fmt in FORMATS:
        for nt, lm, date in ((None, (4, 3), True), (None, (3, 3), True), (None, (4, 2), False), (5, (4, 3), True), (1, (3, 2), True), (2, (2, 2), True)):
            args = f'f, date={date}'
            trip(project, rep, 'harmonics', coefficients(nt, lm), back(nt, date), f'to_{fmt}({args})', f'from_{fmt}({args})',
                f'{fmt},{lm[0]}x{lm[1]},n={nt},date={date}', 'pass' if date else NODATE)
        for z in ('gzip', 'zip', 'bytes'):
            trip(project, rep, 'harmonics', H, HB, f'to_{fmt}(f)', f"from_{fmt}(b, compression='{z}')", f'{fmt},{z}', opened=z)
            trip(project, rep, 'spatial', S, SB, f'to_{fmt}(f)', f"from_{fmt}(b, compression='{z}')", f'{fmt},{z}', FILL, rk(5), opened=z)
            trip(project, rep, 'harmonics', H, HB, f'to_{fmt}(f)', f"from_file(b, format='{fmt}', compression='{z}')", f'{fmt},file,{z}', opened=z)
            trip(project, rep, 'spatial', S, SB, f'to_{fmt}(f)', f"from_file(b, format='{fmt}', compression='{z}')", f'{fmt},file,{z}', FILL, rk(5), opened=z)
        args = f"f, format='{fmt}'"
        to = f"to_file({args}, title='T')"
        trip(project, rep, 'harmonics', H, more(HB, **{'.heading': 'T'}), to, f'from_file({args})', f'{fmt},file', EMPTY, between=HEAD)
        trip(project, rep, 'spatial', S, more(SB, **{'.heading': 'T'}), to, f'from_file({args})', f'{fmt},file', f'{FILL}; {EMPTY}', rk(5), between=HEAD)
        args += ', date=False'
        none = "heading = 'time' in f.content.variables"
        trip(project, rep, 'harmonics', coefficients(None, (4, 3)), more(back(None, False), **{'.heading': False}), f'to_file({args})', f'from_file({args})',
            f'{fmt},file,date=False', NODATE, between=none)
        trip(project, rep, 'spatial', grid(None, -9999.0), more(gridback(None, -9999.0, False, False), **{'.heading': False}), f'to_file({args})', f'from_file({args})',
            f'{fmt},file,date=False', f'{FILL}; {NODATE}', rk(None), between=none)
        # a second write replaces the first
        trip(project, rep, 'harmonics', H, HB, f'to_{fmt}(f)', f'from_{fmt}(f)', f'{fmt},again', between=f'self.to_{fmt}(f)')
        trip(project, rep, 'spatial', S, SB, f'to_{fmt}(f)', f'from_{fmt}(f)', f'{fmt},again', FILL, rk(5), between=f'self.to_{fmt}(f)')
        # grids stored with longitude first
        trip(project, rep, 'spatial', grid(None, -9999.0), gridback(None, -9999.0, True, False), f'to_{fmt}(f)', f'from_{fmt}(f)', f'{fmt},transposed',
            FILL, rk(None), between="f.content.variables['z'].data = np.transpose(f.content.variables['z'].data)")
        for fill in (None, -9999.0):
            for nt, date, shape in ((None, True, (3, 4)), (None, False, (3, 4)), (5, True, (3, 4)), (1, True, (3, 4)), (None, True, (4, 4)), (None, True, (4, 3))):
                args = f'f, date={date}'
                trip(project, rep, 'spatial', grid(nt, fill, shape), gridback(nt, fill, date, False), f'to_{fmt}({args})', f'from_{fmt}({args})',
                    f'{fmt},{shape[0]}x{shape[1]},n={nt},date={date},fill={fill}', f'self.fill_value = {fill}{"" if date else "; " + NODATE}', rk(nt))
            m = "f, field_mapping=dict(lon='x', lat='y', data='z', error='e', time='t')"
            trip(project, rep, 'spatial', grid(5, fill, error=True), gridback(5, fill, True, True), f'to_{fmt}({m})', f'from_{fmt}({m})',
                f'{fmt},fields,fill={fill}', f'self.fill_value = {fill}', rk(5))
            n = "f, varname='h', lonname='x', latname='y', timename='t'"
            trip(project, rep, 'spatial', grid(5, fill), gridback(5, fill, True, False), f'to_{fmt}({n})', f'from_{fmt}({n})',
                f'{fmt},names,fill={fill}', f'self.fill_value = {fill}', rk(5))
        n = f"f, format='{fmt}', varname='h', lonname='x'"
        trip(project, rep, 'spatial', S, SB, f'to_file({n})', f'from_file({n})', f'{fmt},file,names', FILL, rk(5))
        labels(project, rep, 'harmonics', fmt, H)
        labels(project, rep, 'spatial', fmt, S, FILL, rk(5))
        T = {'.titles': ['T', 'T']}
        for date in (True, False):
            w, r = f"f, names, format='{fmt}', title='T'", f"f, format='{fmt}'"
            if not date:
                w, r = f'{w}, date=False', f'{r}, date=False'
            trip(project, rep, 'harmonics', shuffled(coefficients(3, (4, 3))), more(ordered(back(3, date, adjust), date), **T), f'to_index({w})', f'from_index({r})',
                f'{fmt},index,date={date}', 'pass' if date else NODATE, driver=INDEX)
            if date:
                trip(project, rep, 'harmonics', shuffled(coefficients(3, (4, 3))), more(back(3, True, adjust), **T), f'to_index({w})', f'from_index({r}, sort=False)',
                    f'{fmt},index,unsorted', driver=INDEX)
            w, r = f"{w}, varname='h'", f"{r}, varname='h'"
            if date:
                trip(project, rep, 'spatial', shuffled(grid(3, -9999.0)), more(gridback(3, -9999.0, True, False, adjust), **T), f'to_index({w})', f'from_index({r}, sort=False)',
                    f'{fmt},index,unsorted', FILL, rk(3), driver=INDEX)
            trip(project, rep, 'spatial', shuffled(grid(3, -9999.0)), more(ordered(gridback(3, -9999.0, date, False, adjust), date), **T), f'to_index({w})', f'from_index({r})',
                f'{fmt},index,date={date}', FILL if date else f'{FILL}; {NODATE}', rk(3), driver=INDEX)
    texts(project, rep)
    for nt in (None, 5):
        L = coefficients(nt, (4, 3))
        trip(project, rep, 'harmonics', L, back(nt, True, None), 'to_dict()', 'from_dict(D)', f'dict,n={nt}', driver=DICT)
        trip(project, rep, 'geocenter', point(nt), lambda L: {'.' + k[5:]: v for k, v in L.items()}, 'to_dict()', 'from_dict(D)', f'dict,n={nt}', driver=DICT)
    found(project, rep)
