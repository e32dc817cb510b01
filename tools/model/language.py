import numpy as np
import itertools
import functools
def f1(c):
    t = 0
    for j, x in enumerate(c, 1):
        t += j*x
    return t
def f2(c):
    t = 0
    for j, x in enumerate(c, start=2):
        t += j*x
    return t
def f3(c):
    return sum(j*x for j, x in enumerate([c[0], c[1]], 1))
def f4(c):
    t = 0
    for x in reversed(c):
        t = t*2 + x
    return t
def f5(c):
    t = 0
    for j in reversed(range(4)):
        t = t*2 + c[j]
    return t
def f6(c):
    t = 0
    for j in range(3, -1, -1):
        t = t*2 + c[j]
    return t
def f7(c):
    t = 0
    for x in sorted(c, reverse=True):
        t = t*2 + x
    return t
def f8(c):
    t = 0
    for x in c[::-1]:
        t = t*2 + x
    return t
def f9(c):
    t = 0
    for x, y in zip(c, c[1:]):
        t = t*2 + x*y
    return t
def f10(c):
    t = 0
    for x, y in zip(c, reversed(c)):
        t = t*2 + x*y
    return t
def f11(c):
    t = 0
    for k in sorted(range(4), key=lambda j: -j):
        t = t*2 + c[k]
    return t
def f12(c):
    t = 0
    it = iter(c)
    for x in it:
        t = t*2 + x
    return t
def f13(c):
    it = iter(c)
    t = next(it)
    for x in it:
        t = t*2 + x
    return t
def f14(c):
    t = 0
    for s in 'ab':
        t += 1 if s == 'a' else 2
    return t
def f15(c):
    d = {}
    for k, x in zip(['a', 'b', 'a', 'b'], c):
        d.setdefault(k, []).append(x)
    return np.array(d['a'])
def f16(c):
    d = {'a': 1.0, 'b': 2.0}
    t = 0
    for k in ('a', 'b', 'z'):
        t += d.get(k, 5.0)
    return t
def f17(c):
    d = {j: c[j] for j in range(4)}
    t = 0
    for j in range(4):
        t += d.get(j, 0)*j
    return t
def f18(c, i):
    d = {0: 1.0, 1: 2.0}
    t = 0
    for j in i:
        t += d.get(j, 7.0)
    return t
def f19(c, i):
    d = {}
    for j in i:
        d[j] = d.get(j, 0) + 1
    return d[0]
def f20(c):
    def f(x, n=3):
        return 1 if n == 0 else x*f(x, n-1)
    return f(c)
def f21(c, k):
    t = 1
    while k > 0:
        t *= c[k]
        k -= 1
    return t
def f22(c):
    lo, hi = 0, 3
    while lo < hi:
        c[lo], c[hi] = c[hi], c[lo]
        lo += 1
        hi -= 1
    return c
def f23(a):
    out = np.zeros(3)
    for j in range(3):
        for k in range(4):
            if k > j:
                continue
            out[j] += a[j, k]
    return out
def f24(a):
    out = np.zeros(3)
    for j in range(3):
        for k in range(4):
            if k > j:
                break
            out[j] += a[j, k]
    return out
def f25(a):
    out = []
    for j in range(3):
        for k in range(j+1):
            out.append(a[j, k])
    return np.array(out)
def f26(a):
    return np.array([a[j, k] for j in range(3) for k in range(j+1)])
def f27(a):
    return np.array([x for row in a for x in row])
def f28(a):
    return np.array([row[k] for k, row in enumerate(a)])
def f29(a):
    return [x.max() for x in a.T][1]
def f30(c):
    out = [0]*4
    for j, x in enumerate(c):
        out[j] = x + (out[j-1] if j else 0)
    return np.array(out)
def f31(c):
    out = [c[0]]
    for x in c[1:]:
        out.append(out[-1] + x)
    return np.array(out)
def f32(c):
    return np.array(list(itertools.accumulate(c)))
def f33(c):
    return np.array([x for x in itertools.chain(c, c)])
def f34(c):
    return sum(itertools.islice(c, 2))
def f35(c):
    a, b, *_ = c
    return a - b
def f36(c):
    (a, b), (x, y) = c[:2], c[2:]
    return a*x - b*y
def f37(c):
    x = y = 0
    for v in c:
        x, y = y + v, x
    return x, y
def f38(c, s):
    p = 0
    for v in c[::-1]:
        p = p*s + v
    return p
def f39(c):
    s = 0
    n = len(c)
    for j in range(n//2):
        s += c[j]*c[n - 1 - j]
    return s
def f40(a):
    n, m = a.shape
    return np.array([[a[j, k] for j in range(n)] for k in range(m)])
def f41(a):
    n, m = np.shape(a)
    out = np.empty((m, n))
    for j in range(n):
        out[:, j] = a[j]
    return out
def f42(a):
    out = np.empty_like(a)
    out[...] = a
    out[1:] -= a[:-1]
    return out
def f43(a, c):
    b = np.broadcast_to(c, a.shape)
    return a*b
def f44(c):
    m = c > 0.6
    return c[m].sum() + c[~m].sum()*2
def f45(c):
    m = np.zeros(4, dtype=bool)
    m[1:3] = True
    return np.where(m, c, np.nan)
def f46(c):
    return c[(c > 0.2) & (c < 0.8)]
def f47(c):
    return [float(x) for x in c]
def f48(c):
    return {'a': c, 'b': 2}['a']
def f49(c):
    s = set()
    for x in (1, 2, 2):
        s.add(x)
    return len(s)
def f50(c):
    b = bool(len(c)) and c[0] > -100
    return c if b else None
def f51(c):
    x = None
    x = x or c[0]
    return x
def f52(c):
    return c[0] if c is not None else 0
def f53(c):
    assert len(c) == 4
    return c*2
def f54(c):
    if not (c > 100).any():
        return c
    raise ValueError('x')
def f55(c):
    try:
        x = c[0]
    except IndexError:
        x = 0
    finally:
        y = 1
    return x + y
def f56(c):
    with np.errstate(all='ignore'):
        return c/2
def f57(c):
    k = 0
    while k < 3 and c[k] > -1:
        k += 1
    return k
def f58(c):
    return functools.partial(np.multiply, 2)(c)
def f59(c):
    f = functools.partial(lambda x, y: x - 2*y, y=c)
    return f(c*5)
def f60(c):
    fs = {'a': np.sin, 'b': np.cos}
    return fs['a'](c), fs['b'](c)
def f61(c):
    fs = [lambda x, k=k: x*k for k in range(3)]
    return fs[0](c), fs[2](c)
def f62(c):
    return getattr(np, 'sin')(c), getattr(c, 'sum')()
def f63(c):
    return np.add.reduce(c), np.multiply.reduce(c), np.add.accumulate(c)
def f64(a):
    return np.sum(a, 0), a.sum(-1), np.sum(a, axis=(0, 1)), a.sum(axis=0, keepdims=True)
def f65(c):
    x = c.tolist()
    x.sort()
    return np.array(x)
def f66(c):
    x = sorted(c.tolist(), reverse=True)
    return x[0]
def f67(c):
    x = list(c)
    x.insert(0, 9.0)
    x.pop()
    return np.array(x)
def f68(c):
    x = list(c)
    x += [1.0, 2.0]
    del x[0]
    return np.array(x)
def f69(c):
    x = [*c, *c]
    return np.array(x)
def f70(c):
    x = [0.0 for _ in range(4)]
    for j in range(4):
        x[j] += c[j]
    return np.array(x)
def f71(c):
    d = dict(a=c)
    d['b'] = d['a']*2
    d['a'] = None
    return d['b']
def f72(c):
    d = {**{'a': 1}, **{'b': c}}
    return d['b']
def f73(c):
    d = {'a': 1} | {'b': c}
    return d['b']
def f74(c):
    match len(c):
        case 4:
            return c
        case _:
            return 0
def f75(c):
    x = c.copy()
    x[x < 0.5], x[x > 0.8] = 0, 1
    return x
def f76(c):
    x, y = divmod(c, 0.3)
    return x, y
def f77(c):
    s = slice(1, 3)
    return c[s], c[np.s_[1:]], c[slice(None, None, -1)]
def f78(c):
    return np.array(list(filter(lambda x: x > 0.5, c)))
def f79(c):
    return np.array([*map(lambda x, y: x*y, c, c)])
def f80(c):
    return functools.reduce(lambda x, y: x*2 + y, c, 1.0)
def f81(c):
    global ZZ
    ZZ = c
    return ZZ
def f82(c):
    n = 0
    def inc():
        nonlocal n
        n += 1
        return n
    return inc() + inc()*c
def f83(c):
    cache = {}
    def g(k):
        if k not in cache:
            cache[k] = c*k
        return cache[k]
    return g(2) + g(2) + g(3)
def f84(c):
    x = np.zeros((2, 4))
    x[0], x[1] = c, c*2
    return x
def f85(c):
    x = np.zeros(4)
    x[[0, 2]] = c[[1, 3]]
    x[[1]] += 3
    return x
def f86(a):
    a[a > 0.5] = 0
    a[:, 0] = a[:, 1] + 1
    return a
def f87(a):
    a[1:, 1:] += a[:-1, :-1]
    return a
def f88(c):
    for j in range(1, 4):
        c[j] += c[j-1]
    return c
def f89(c):
    for j in range(4):
        c[j], = [c[j]*2]
    return c
def f90(s, t):
    return s if s > t else t, min(s, t), max([s, t]), min((s, t), key=lambda x: -x)
def f91(s):
    return int(7.9), int(-7.9), 7//2, -7//2, -7 % 3, 7.5 % 2
def f92(s):
    return round(2.5), round(3.5), np.round(2.5), float('1e3'), int('12')
def f93(k):
    return k << 1, k >> 1, k & 1, k | 1, k ^ 3, ~k
def f94(k):
    return 2**k, (-1)**k, k**-1, k/2, 1e-3*k
def f95(s):
    return s == s, s != s, 0 < s < 10, not s
def f96(k):
    return (1 <= k <= 3) + 1, True + True, k*True
def f97(c):
    return c.size, c.shape, c.ndim, len(c), c.dtype.kind
def f98(a):
    return a.shape[0], a.shape[-1], a.T.shape, a[0].shape, a[:, None].shape
def f99(c):
    return c.any(), (c > 0).all(), c.max() - c.min(), c.argmax()
