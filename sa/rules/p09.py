"""Load Love numbers: reading, completion of degrees, reference frames, formats."""
import os
import re
import numpy as np
from .. import num, spec, store
from ..project import AnalysisError

READ = '''
from gravity_toolkit.read_love_numbers import read_love_numbers
from pathlib import Path
import io
def ref(h, k, s):
    f = Path('x')
    fid = f.open(mode='w')
    for i in range({header}):
        print('  0 header 1.0', file=fid)
    {lines}
    return read_love_numbers({source}, {args})
'''
ZIP = READ.replace('return read', 'r = read') + '''    w = np.zeros((NUM, 3))
    for i, (a, b, c) in enumerate(r):
        w[i, 0], w[i, 1], w[i, 2] = (a, b, c)
    return w
'''
OBJECT = '''
from gravity_toolkit.read_love_numbers import love_numbers
def ref(h, k, s):
    r = love_numbers().from_dict(dict(hl=h, kl=k, ll=s))
    {does}
'''
DATA = '''
from gravity_toolkit.read_love_numbers import load_love_numbers
def ref():
    return load_love_numbers({args})
'''
NAMES = {'h': 'hl', 'k': 'kl', 's': 'll'}
PLAIN = ['l', 'hl', 'kl', 'll']
INF = 100000


def alpha(frame, h, s):
    return {'CF': (h + 2.0 * s) / 3.0, 'CL': s, 'CH': h, 'CM': 1.0, 'CE': 0.0}[frame]


def complete(degrees, x, lmax):
    """values at every degree up to lmax"""
    last = max(degrees)
    v = np.interp(np.arange(lmax + 1), degrees, x)
    for l in range(last + 1, lmax + 1):
        v[l] = 2.0 * v[l - 1] - v[l - 2]
    return v


def numbers(r, degrees):
    return {c: r.arr(len(degrees)) * np.where(r.arr(len(degrees)) > 1, 1, -1) for c in NAMES}


def expected(L, degrees, lmax, frame):
    out = {n: complete(degrees, L[c], lmax) for c, n in NAMES.items()}
    if lmax:
        a = alpha(frame, out['hl'][1], out['ll'][1])
        for n in out:
            out[n][1] -= a
    return out


def read(project, rep, label, degrees, form, lmax=None, frame='CE', columns=PLAIN, header=2, source='f', number='{:22.14f}', given=None):
    """print a table, read it and compare the numbers with those of the table"""
    lines = []
    for i, l in enumerate(degrees):
        fmt, vals = [], []
        for c in columns:
            if c == 'l':
                fmt.append('{:>8s}')
                vals.append(repr('inf' if l == INF else str(l)))
            elif c in NAMES.values():
                fmt.append(number)
                vals.append(f"{ {v: k for k, v in NAMES.items()}[c]}[{i}]")
            else:
                fmt.append('{:12.4f}')
                vals.append('7.5')
        lines.append(f"print('{' '.join(fmt)}'.format({', '.join(vals)}), file=fid)")
    layout = '' if columns is PLAIN and header == 2 else f'HEADER={header}, COLUMNS={list(columns)}, '
    args = layout + f"LMAX={lmax}, REFERENCE='{given or frame}', FORMAT='{form}'"
    if lmax is None:
        args = args.replace('LMAX=None, ', '')
        lmax = max(degrees)
    f = spec.ref_func(project, (READ if form != 'zip' else ZIP.replace('NUM', str(lmax + 1))).format(header=header, lines='\n    '.join(lines), args=args, source=source))

    def ref(L):
        w = expected(L, degrees, lmax, frame)
        if form == 'dict':
            return {f'[{n}]': w[n] for n in w}
        if form == 'tuple':
            return {f'#{i}': w[n] for i, n in enumerate(('hl', 'kl', 'll'))}
        if form == 'zip':
            return {'return': np.array([w[n] for n in ('hl', 'kl', 'll')]).T}
        return {**{f'.{n}': w[n] for n in w}, '.lmax': lmax, '.l': np.arange(lmax + 1)}
    go(project, rep, 'read_love_numbers.read_love_numbers', label, f, lambda r: numbers(r, degrees), ref)


def go(project, rep, qual, label, f, leaves, ref, rule='values', files=None):
    fn = project.require(qual)
    rep.unit(fn.short)
    num.check(project, rep, rule, qual, leaves, ref, func=f, label=label, stand=store.stands(project, files), depth=9, budget=3000000,
        kwargs_open=False, where=f'{fn.module.rel}:{fn.node.lineno}', models=2, tag=f'{fn.short}[{label}]')


def table(project, name, keep):
    """columns, number of header lines and degrees of a file of the package"""
    with open(os.path.join(project.root, 'gravity_toolkit', 'data', name), encoding='utf8') as f:
        lines = f.read().splitlines()
    row = re.compile(r'\s*\d+(\s+[-+]?\d*\.\d*([DE][-+]\d+)?)+\s*$')
    head = next(i for i, x in enumerate(lines) if row.match(x))
    words = [x.split() for x in lines[:head]]
    # the line with the names of the columns
    names = next(w for w in words if {'h', 'k'} <= set(w))
    names = [x for x in names if x not in ('#',)]
    cols = ['l'] + [{'h': 'hl', 'k': 'kl', 'l': 'll'}.get(x, x) for x in names[1:]]
    rows = [[float(y.replace('D', 'E')) for y in x.split()] for x in lines[head:]]
    return lines[:head + keep], cols, rows


# what the documentation says about each choice of the Love numbers
MODELS = {0: ('love_numbers', 'PREM', 'Han and Wahr (1995)'), 1: ('Load_Love2_CE.dat', 'PREM', 'Gegout et al. (2010)'),
    2: ('PREM-LLNs-truncated.dat', 'PREM', 'Wang et al. (2012)'), 3: ('PREMhard-LLNs-truncated.dat', 'PREMhard', 'Wang et al. (2012)'),
    4: ('PREMsoft-LLNs-truncated.dat', 'PREMsoft', 'Wang et al. (2012)')}
FRAMES = ('CF', 'CL', 'CH', 'CM', 'CE')


def packaged(project, rep, k, frame, form, keep=7, lmax=5):
    name, model, citation = MODELS[k]
    lines, cols, rows = table(project, name, keep)
    if not rows:
        raise AnalysisError(f'no rows in {name}')
    args = f"{lmax}, LOVE_NUMBERS={k}, REFERENCE='{frame}', FORMAT='{form}'"
    if (k, frame, form) == (0, 'CF', 'tuple'):
        args = f'{lmax}'
    f = spec.ref_func(project, DATA.format(args=args))

    def ref(L):
        deg = [int(x[0]) for x in rows]
        w = {n: complete(deg, [x[cols.index(n)] for x in rows], lmax) for n in NAMES.values()}
        a = alpha(frame, w['hl'][1], w['ll'][1])
        for n in w:
            w[n][1] -= a
        if form == 'class':
            return {**{f'.{n}': w[n] for n in w}, '.lmax': lmax, '.model': model, '.citation': citation, '.reference': frame, '.filename': name}
        return {f'#{i}': w[n] for i, n in enumerate(('hl', 'kl', 'll'))}
    go(project, rep, 'read_love_numbers.load_love_numbers', f'{k},{frame},{form}', f, lambda r: {}, ref, rule='package data', files={name: lines})


def objects(project, rep, n=4):
    q = 'read_love_numbers.love_numbers.'

    def whole(L, frame='CE'):
        w = {NAMES[c]: L[c].copy() for c in NAMES}
        a = alpha(frame, w['hl'][1], w['ll'][1])
        for k in w:
            w[k][1] -= a
        return w

    def on(label, name, does, ref):
        go(project, rep, q + name, label, spec.ref_func(project, OBJECT.format(does=does)), lambda r: numbers(r, range(n)), ref, rule='objects')
    for frame in FRAMES:
        for given in (frame, frame.lower()):
            on(given, 'transform', f"return r.transform('{given}')", lambda L, frame=frame, given=given: {
                **{'.' + k: v for k, v in whole(L, frame).items()}, '.reference': given})
    on('', 'from_dict', 'return r', lambda L: {**{'.' + k: v for k, v in whole(L).items()}, '.lmax': n - 1, '.l': np.arange(n)})
    on('', 'to_dict', 'return r.to_dict()', lambda L: {f'[{k}]': v for k, v in whole(L).items()})
    order = lambda L: {f'#{i}': whole(L)[k] for i, k in enumerate(('hl', 'kl', 'll'))}  # noqa: E731
    on('', 'to_tuple', 'return r.to_tuple()', order)
    on('', '__iter__', 'a, b, c = r\n    return (a, b, c)', order)
    on('', '__getitem__', "return (r['hl'], r['kl'], r['ll'])", order)
    on('', '__len__', 'return len(r)', lambda L: {'return': n})
    # the object has its own numbers
    on('own', 'from_dict', 'r.transform("CM")\n    return (h, k, s)', lambda L: {f'#{i}': L[c] for i, c in enumerate('hks')})


def run(project, rep):
    rep.rule('values', 'a table of Love numbers that is read gives the numbers of the table at its degrees, linear values between and beyond them '
        'and degree one in the reference frame', floor=60)
    rep.rule('package data', 'each choice of Love numbers is the first degrees of its file in the package, read by the names of its columns', floor=20)
    rep.rule('objects', 'the Love number object transforms, converts and iterates as documented', floor=20)
    rep.assume('numbers keep the digits of the table; files hold the lines written to them (contract in sa/store.py)')
    full, gaps, part = [0, 1, 2, 3, 4], [0, 1, 2, 3, 5, 9], [1, 2, 3, 5]
    for frame in FRAMES:
        read(project, rep, frame, full, 'dict', 4, frame)
        read(project, rep, frame.lower(), gaps, 'dict', 9, frame, given=frame.lower())
    for form in ('dict', 'tuple', 'zip', 'class'):
        for lmax in (None, 3, 4, 7, 9, 12):
            read(project, rep, f'{form},lmax={lmax}', gaps, form, lmax, 'CF')
        read(project, rep, f'{form},lmax=0', full, form, 0, 'CF')
    for lmax in (None, 1, 2, 4, 6, 7):
        read(project, rep, f'lmax={lmax}', full, 'dict', lmax, 'CF')
        read(project, rep, f'from degree one,lmax={lmax}', part, 'dict', lmax, 'CF')
    for columns in (['l', 'hl', 'll', 'kl'], ['l', 'hl', 'll', 'kl', 'nl', 'nk'], ['kl', 'l', 'x', 'hl', 'll']):
        read(project, rep, ' '.join(columns), gaps, 'dict', 7, 'CF', columns)
    for header in (0, 1, 3):
        read(project, rep, f'header={header}', gaps, 'dict', 7, 'CF', header=header)
    for number in ('{:22.14e}', '{:22.14D}', '{:22.14E}'):
        read(project, rep, number[1:-1], gaps, 'dict', 7, 'CF', number=number)
    read(project, rep, 'bytes', gaps, 'dict', 7, 'CF', source='io.BytesIO(f)')
    read(project, rep, 'infinite degree', [0, 1, 2, 3, 5, INF], 'dict', 12, 'CF')
    for k in MODELS:
        for frame in ('CF', 'CM', 'CE'):
            packaged(project, rep, k, frame, 'tuple')
        packaged(project, rep, k, 'CF', 'class')
    objects(project, rep)
