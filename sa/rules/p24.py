"""Time-series estimates equal their defining formulas."""
import itertools
import math
from types import SimpleNamespace
import numpy as np
from .. import effects, num, values as V


def ppf(p, nu, loc=0.0, scale=1.0):
    return 1.7 * np.asarray(p) + 3.0 / (nu + 2.0) * (loc + scale)


def erf(x):
    return math.erf(float(x))


def scargle(t, d, w, **kw):
    return np.array([abs(np.sum(d * np.exp(1j * x * t)))**2 for x in w]) / len(t) * (0.5 if kw.get('normalize') else 1.0)


FUNCS = {
    'scipy.stats.t.ppf': lambda m, a, kw: ppf(*a, **kw), 'scipy.special.erf': lambda m, a, kw: erf(*a),
    'math.erf': lambda m, a, kw: erf(*a), 'scipy.special.factorial': lambda m, a, kw: float(math.factorial(int(a[0]))),
    'math.factorial': lambda m, a, kw: float(math.factorial(int(a[0]))), 'scipy.signal.lombscargle': lambda m, a, kw: scargle(*a, **kw)}


def series(n=40, **more):
    def leaves(r):
        t = 3.0 + np.arange(n) / 12.0 + 0.02 * r.arr(n)
        L = {'t_in': t, 'd_in': r.arr(n) + 0.3 * (t - 4.0)}
        for k, v in more.items():
            L[k] = v(r, L) if callable(v) else v
        return L
    return leaves


def harmonics(L, t):
    out = []
    for c in L.get('CYCLES', [0.5, 1.0]):
        out += [np.sin(2.0 * np.pi * t / c), np.cos(2.0 * np.pi * t / c)]
    return out + list(L.get('TERMS', []))


def statistics(L, X, trend, aicc, weighted):
    t, d, n = L['t_in'], L['d_in'], len(L['t_in'])
    e = L.get('DATA_ERR', 0)
    if weighted:
        e = np.where(e == 0.0, L.get('eps', np.finfo(np.float64).eps), e)
    w = 1.0 / e**2 if weighted else np.ones(n)
    C = np.linalg.inv(X.T @ (w[:, None] * X))
    b = C @ (X.T @ (w * d)) if weighted else np.linalg.lstsq(X, d, rcond=-1)[0]
    res = d - X @ b
    k, nu = len(b), n - len(b)
    total, rest = np.sum((d - d.mean())**2), np.sum(res**2)
    p = k + 1.0
    ll = 0.5 * (np.sum(np.log(w)) - n * (np.log(2.0 * np.pi) + 1.0 - np.log(n) + np.log(np.sum(w * res**2))))
    aic = 2.0 * p - 2.0 * ll + (2.0 * p * (p + 1.0) / (n - p - 1.0) if aicc else 0.0)
    out = {'[beta]': b, '[R2]': 1.0 - rest / total, '[R2Adj]': 1.0 - rest / total * (n - 1.0) / nu, '[AIC]': aic,
        '[BIC]': np.log(n) * p - 2.0 * ll, '[LOGLIK]': ll, '[model]': X @ b, '[residual]': res, '[N]': k, '[DOF]': nu, '[cov_mat]': C,
        '@t_in': t, '@d_in': d}
    N = C @ (X * w[:, None]).T
    if weighted:
        out['[error]'] = np.sqrt(np.sum((N * e)**2, axis=1))
        out['[WSSE]'] = np.sum((w * res)**2) / nu
        out['@DATA_ERR'] = L['DATA_ERR']
    elif np.any(e):
        out['[error]'] = np.sqrt(np.sum((N * e)**2, axis=1))
        out['[MSE]'] = rest / nu
    else:
        out['[MSE]'] = rest / nu
        out['[NRMSE]'] = np.sqrt(rest / nu) / (d.max() - d.min())
        out['[std_err]'] = np.sqrt(rest / nu * np.diag(C))
        out['[error]'] = quantile(L, nu) * out['[std_err]']
    return out


def quantile(L, nu):
    if L.get('STDEV'):
        alpha = 1.0 - erf(L['STDEV'] / np.sqrt(2.0))
    else:
        alpha = 1.0 - (L['CONF'] if L.get('CONF') else 0.95)
    return ppf(1.0 - alpha / 2.0, nu)


def regress(L):
    t = L['t_in']
    rel = L.get('RELATIVE', Ellipsis)
    t0 = t.mean() if rel is Ellipsis else float(rel) if np.ndim(rel) == 0 else t[rel].mean()
    order = L.get('ORDER', 1)
    X = np.array([(t - t0)**o for o in range(order + 1)] + harmonics(L, t)).T
    out = statistics(L, X, order + 1, L.get('AICc', True), L.get('WEIGHT', False))
    out['[simple]'] = X[:, :order + 1] @ out['[beta]'][:order + 1]
    out['[season]'] = out['[model]'] - out['[simple]']
    return out


def piecewise(L):
    t = L['t_in']
    if 'BREAKPOINT' in L:
        n0, t0 = L['BREAKPOINT'], t[L['BREAKPOINT']]
    else:
        n0, t0 = np.argmin(np.abs(t - L['BREAK_TIME'])), L['BREAK_TIME']
    ramp = np.where(np.arange(len(t)) >= n0, t - t0, 0.0)
    X = np.array([t**0, t, ramp] + harmonics(L, t)).T
    weighted = L.get('WEIGHT', False)
    out = statistics(L, X, 3, L.get('AICc', False), weighted)
    b = out['[beta]']
    if '[NRMSE]' in out:
        out['[simple]'] = X[:, :3] @ b[:3]
    # the second rate is the sum of the first rate and its change
    out['[beta]'] = np.concatenate([b[:2], [b[1] + b[2]], b[3:]])
    for k in ('[error]', '[std_err]'):
        if k in out:
            e = out[k]
            out[k] = np.concatenate([e[:2], [np.hypot(e[1], e[2])], e[3:]])
    return out


def window(L, i, h):
    t = L['t_in'][i:i + 2 * h + 1]
    X = np.array([t**0, t, np.sin(2 * np.pi * t), np.cos(2 * np.pi * t), np.sin(4 * np.pi * t), np.cos(4 * np.pi * t)]).T
    d = L['d_in'][i:i + 2 * h + 1]
    return X, d, np.linalg.lstsq(X, d, rcond=-1)[0]


def smooth(L):
    t, d, h = L['t_in'], L['d_in'], L.get('HFWTH', 6)
    n = len(t) - 2 * h
    out = {'[time]': t[h:len(t) - h], '@t_in': t, '@d_in': d}
    if L.get('MOVING'):
        w = np.ones(2 * h + 1)
        w[0] = w[-1] = 0.5
        out['[data]'] = np.array([np.sum(w * d[i:i + 2 * h + 1]) for i in range(n)]) / (2 * h)
        return out
    names = ('data', 'trend', 'error', 'seasonal', 'annual', 'annphase', 'annamp', 'semiann', 'semiphase', 'semiamp', 'noise', 'reduce')
    if L.get('WEIGHT'):
        out['[time]'] = t
        if L['WEIGHT'] == 1:
            w = h + 1.0 - np.abs(np.arange(2 * h + 1) - h)
        else:
            w = np.exp(-(np.arange(2 * h + 1) - h)**2 / 8.0) / (2.0 * np.sqrt(2.0 * np.pi))
        tot = np.zeros(len(t))
        S = {k: np.zeros(len(t)) for k in ('data', 'seasonal', 'annual', 'annamp', 'annphase', 'semiann', 'semiamp', 'semiphase')}
        for i in range(n):
            X, _, b = window(L, i, h)
            j = slice(i, i + 2 * h + 1)
            for k, v in parts(X, b).items():
                S[k][j] += w * v
            tot[j] += w
        for k in S:
            out[f'[{k}]'] = S[k] / tot
        out['[weight]'] = tot
        out['[noise]'] = d - out['[data]'] - out['[seasonal]']
        return out
    S = {k: np.zeros(n) for k in names}
    for i in range(n):
        X, dd, b = window(L, i, h)
        for k, v in parts(X, b).items():
            S[k][i] = v[h] if np.ndim(v) else v
        S['trend'][i] = b[1]
        C = np.linalg.inv(X.T @ X)
        if L.get('DATA_ERR'):
            S['error'][i] = np.sqrt(np.sum(((C @ X.T)[1] * L['DATA_ERR'])**2))
        else:
            nu = 2 * h + 1 - 6
            S['error'][i] = quantile(L, nu) * np.sqrt(np.sum((dd - X @ b)**2) / nu * C[1, 1])
        S['reduce'][i] = dd[h]
        S['noise'][i] = dd[h] - S['data'][i] - S['seasonal'][i]
    out.update({f'[{k}]': v for k, v in S.items()})
    return out


def parts(X, b):
    deg = 180.0 / np.pi
    return {'data': X[:, :2] @ b[:2], 'seasonal': X[:, 2:] @ b[2:], 'annual': X[:, 2:4] @ b[2:4], 'annamp': np.hypot(b[2], b[3]),
        'annphase': deg * np.arctan2(b[3], b[2]), 'semiann': X[:, 4:] @ b[4:], 'semiamp': np.hypot(b[4], b[5]),
        'semiphase': deg * np.arctan2(b[5], b[4])}


def savitzky(L):
    t, y, order, der = L['t_in'], L['y_in'], L.get('ORDER', 2), L.get('DERIV', 0)
    win = L.get('WINDOW') or order - (order % 2) + 3
    h = (win - 1) // 2
    out, err = [], []
    for i in range(h, len(t) - h):
        dt = t[i - h:i + h + 1] - t[i]
        B = np.array([dt**k for k in range(order + 1)]).T
        w = np.linalg.pinv(B)[der] * L.get('RATE', 1)**der * math.factorial(der)
        out.append(w @ y[i - h:i + h + 1])
        err.append(np.sqrt(np.sum(w**2)) * L.get('DATA_ERR', 0))
    return {'[data]': np.array(out), '[error]': np.array(err), '[time]': t[h:len(t) - h], '@t_in': t, '@y_in': y}


def lomb(L):
    t, d = L['t_in'], L['d_in']
    n = len(t)
    if 'OMEGA' in L:
        w = np.asarray(L['OMEGA'])
    elif 'FREQUENCY' in L:
        w = 2.0 * np.pi * np.asarray(L['FREQUENCY'])
    else:
        w = 2.0 * np.pi / np.asarray(L['PERIOD'])
    w = np.linspace(w[0], w[1], int(L.get('N', 1000)))
    p = scargle(t - t[0], (d - d.mean()) / d.std(), w, normalize=L.get('NORMALIZE', False))
    m = max(np.round(-6.362 + 1.193 * n + 0.00098 * n**2), 1)
    lev = np.asarray(L.get('p', [0.05, 0.01, 0.001, 1e-4, 1e-5, 1e-6]))
    per = 2.0 * np.pi / w
    return {'[PowerDensity]': p, '[Probability]': 1.0 - (1.0 - np.exp(-p))**m, '[frequency]': w / (2.0 * np.pi), '[period]': per,
        '[contour]': -np.log(1.0 - (1.0 - lev)**(1.0 / m)), '[Nyquist]': 1.0 / (2.0 * np.mean(np.diff(t))), '[peak]': per[np.argmax(p)],
        '[centroid]': np.sum(per * p) / np.sum(p)}


def run(project, rep):
    rep.rule('fit', 'regression coefficients, uncertainties and goodness-of-fit measures equal their least-squares formulas', floor=60)
    rep.rule('unchanged', 'no statement reached from a time-series function changes the storage of its arguments', floor=20)
    effects.unchanged(project, rep, [f for f in project.all_functions(scripts=False) if effects.public(f) and '.time_series.' in f.module.name + '.'])
    rep.rule('smooth', 'smoothed series and their components equal the formulas of the moving or Loess window', floor=20)
    rep.rule('spectrum', 'periodogram quantities equal their formulas', floor=8)
    rep.rule('component', 'amplitude, phase and aliasing terms equal their formulas', floor=3)
    lf = num.leaf
    ts = {'t_in': lf('t_in'), 'd_in': lf('d_in')}
    two = lambda r, L: [r.arr(len(L['t_in'])), r.arr(len(L['t_in']))]  # noqa: E731
    errs = lambda r, L: r.arr(len(L['t_in']))  # noqa: E731
    some = lambda r, L: np.where(np.arange(len(L['t_in'])) == 3, 0.0, r.arr(len(L['t_in'])))  # noqa: E731

    one = lambda r, L: r.num()  # noqa: E731
    axes = {
        'errors': {'': {}, 'data error': {'DATA_ERR': one}, 'weighted': {'DATA_ERR': errs, 'WEIGHT': True}},
        'terms': {'': {}, 'terms': {'TERMS': two}, 'cycles': {'CYCLES': [0.25, 0.5, 1.0]}, 'no cycles': {'CYCLES': []},
            'cycles and terms': {'CYCLES': [1.0], 'TERMS': two}},
        'criterion': {'': {}, 'AICc': {'AICc': True}, 'AIC': {'AICc': False}},
        'level': {'': {}, 'standard deviations': {'STDEV': one}, 'confidence': {'CONF': lambda r, L: 0.5 + 0.2 * r.num()}},
        'order': {'': {}, 'order 0': {'ORDER': 0}, 'order 2': {'ORDER': 2}},
        'epoch': {'': {}, 'relative': {'RELATIVE': lambda r, L: 5.0}, 'relative to list': {'RELATIVE': lambda r, L: [1, 2, 5]}},
        'break': {'': {'BREAK_TIME': lambda r, L: 4.4}, 'breakpoint': {'BREAKPOINT': 13}}}
    many = ('errors', 'terms', 'order', 'break')
    for q, ref, use in (('time_series.regress.regress', regress, ('errors', 'terms', 'criterion', 'level', 'order', 'epoch')),
            ('time_series.piecewise.piecewise', piecewise, ('errors', 'terms', 'criterion', 'level', 'break'))):
        combos = []
        for pick in itertools.product(*[axes[a] for a in use]):
            off = [a for a, k in zip(use, pick) if k]
            if 'no cycles' in pick and 'order 0' in pick:
                continue
            # pairs of options, the main ones in every combination
            if len(off) <= 2 or all(a in many for a in off) or rep.tier == 'thorough':
                combos.append(pick)
        for pick in combos:
            more = {}
            for a, k in zip(use, pick):
                more.update(axes[a][k])
            label = ', '.join(k for k in pick if k) or 'defaults'
            case, given, assume = {**ts}, {}, []
            for k, v in more.items():
                if k == 'TERMS':
                    case[k] = [V.sym('TERMS.a'), V.sym('TERMS.b')]
                    given.update({'TERMS.a': errs, 'TERMS.b': errs})
                    continue
                case[k] = v if isinstance(v, (bool, list)) else lf(k)
                given[k] = v
                if k in ('DATA_ERR', 'STDEV', 'CONF') and not (k == 'DATA_ERR' and 'WEIGHT' in more):
                    assume.append(V.b_not(V.cmp('==', V.sym(k), V.ZERO)))
            if 'RELATIVE' in more and label.endswith('relative'):
                case['RELATIVE'] = 5
            num.check(project, rep, 'fit', q, series(**given),
                lambda L, ref=ref: ref({**L, 'TERMS': [L['TERMS.a'], L['TERMS.b']]} if 'TERMS.a' in L else L),
                case=case, label=label, defaults=True, funcs=FUNCS, assume=assume, tol=1e-7, models=2)
        # a vanishing uncertainty is regularised without changing the array of the caller
        num.check(project, rep, 'fit', q, series(DATA_ERR=some, BREAK_TIME=4.4, WEIGHT=True, eps=0.25), ref,
            case={**ts, 'DATA_ERR': lf('DATA_ERR'), 'WEIGHT': True, **({'BREAK_TIME': lf('BREAK_TIME')} if q.endswith('piecewise') else {})}, label='vanishing uncertainty',
            defaults=True, funcs={**FUNCS, 'numpy.finfo': lambda m, a, kw: SimpleNamespace(eps=0.25)})
    f = 'time_series.smooth.smooth'
    for label, more in (('defaults', {}), ('width', {'HFWTH': 7}), ('moving', {'MOVING': True, 'HFWTH': 5}), ('triangular', {'WEIGHT': 1}), ('gaussian', {'WEIGHT': 2, 'HFWTH': 7}),
            ('data error', {'DATA_ERR': lambda r, L: r.num()}), ('standard deviations', {'STDEV': lambda r, L: r.num()}), ('confidence', {'CONF': lambda r, L: 0.5 + 0.2 * r.num()})):
        case = {**ts, **{k: v if k in ('MOVING', 'WEIGHT') else lf(k) for k, v in more.items()}}
        assume = [V.b_not(V.cmp('==', V.sym(k), V.ZERO)) for k in ('DATA_ERR', 'STDEV', 'CONF') if k in more]
        num.check(project, rep, 'smooth', f, series(18, **more), smooth, case=case, label=label, defaults=True, funcs=FUNCS, assume=assume, tol=1e-7)
    f = 'time_series.savitzky_golay.savitzky_golay'
    rename = lambda fn: lambda r: (lambda L: {**{k: v for k, v in L.items() if k != 'd_in'}, 'y_in': L['d_in']})(fn(r))  # noqa: E731
    for label, more in (('defaults', {}), ('window', {'WINDOW': 7, 'ORDER': 3}), ('derivative', {'DERIV': 1, 'WINDOW': 7, 'RATE': 3}), ('cubic', {'ORDER': 3}), ('curvature', {'DERIV': 2, 'WINDOW': 7, 'RATE': 2}),
            ('data error', {'DATA_ERR': lambda r, L: r.num()})):
        case = {'t_in': lf('t_in'), 'y_in': lf('y_in'), **{k: v if not callable(v) else lf(k) for k, v in more.items()}}
        assume = [V.b_not(V.cmp('==', V.sym(k), V.ZERO)) for k in ('DATA_ERR',) if k in more]
        num.check(project, rep, 'smooth', f, rename(series(14, **more)), savitzky, case=case, label=label, defaults=True, funcs=FUNCS, assume=assume, tol=1e-7)
    f = 'time_series.lomb_scargle.lomb_scargle'
    for label, more in (('OMEGA', {'OMEGA': [0.5, 30.0]}), ('FREQUENCY', {'FREQUENCY': [0.1, 5.0]}), ('PERIOD', {'PERIOD': [0.2, 4.0]}),
            ('normalised', {'PERIOD': [0.2, 4.0], 'NORMALIZE': True, 'N': 50})):
        num.check(project, rep, 'spectrum', f, series(30, **more), lomb, case={**ts, **{'**' + k: v for k, v in more.items()}}, label=label,
            defaults=True, funcs=FUNCS, tol=1e-6)
    num.check(project, rep, 'component', 'time_series.amplitude.amplitude', lambda r: {'bsin': r.arr(6) - 1.0, 'bcos': r.arr(6) - 1.0},
        lambda L: {'#0': np.hypot(L['bsin'], L['bcos']), '#1': np.degrees(np.arctan2(L['bcos'], L['bsin']))},
        case={'bsin': lf('bsin'), 'bcos': lf('bcos')})

    def alias(L):
        t, p = L['t_in'], L.get('period', 161.0)
        early = t < 2018.0
        a = 2.0 * np.pi * 365.25 / p * t
        return {f'#{i}': f(a) * (early if i < 2 else ~early) for i, f in enumerate((np.sin, np.cos, np.sin, np.cos))}
    for label, more in (('defaults', {}), ('period', {'period': 120.0})):
        num.check(project, rep, 'component', 'time_series.fit.aliasing_terms', lambda r, more=more: {'t_in': 2014.0 + 8.0 * np.sort(r.arr(12) - 0.4), **more}, alias,
            case={'t_in': lf('t_in'), **{k: lf(k) for k in more}}, label=label, defaults=True)
