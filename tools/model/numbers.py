import numpy as np
import copy
import itertools
import functools
from collections import namedtuple, OrderedDict, defaultdict
def f1(a, b):
    return np.where(a > 0, a, b)
def f2(a):
    return np.array([[x*2 for x in row] for row in a])
def f3(a):
    out = []
    for row in a:
        out.append(row.sum())
    return np.array(out)
def f4(a):
    return np.einsum('ij,ij->i', a, a)
def f5(a, sq):
    return a @ sq
def f6(a, sq):
    return np.matmul(a, sq)
def f7(a, c):
    return np.tensordot(a, c, axes=1)
def f8(a):
    return np.apply_along_axis(lambda r: r.sum(), 1, a)
def f9(c):
    return functools.reduce(lambda x, y: x*y, c)
def f10(c):
    return sum(x**2 for x in c)
def f11(c):
    return max(c), min(c)
def f12(a):
    return np.stack([a, a*2], axis=-1)
def f13(a):
    return np.concatenate([a, a[:, :1]], axis=1)
def f14(a):
    return np.hstack((a, a)), np.vstack((a, a))
def f15(a):
    return np.c_[a, a]
def f16(c, d):
    x, y = np.meshgrid(c, d)
    return x*y
def f17(c, d):
    return np.outer(c, d)
def f18(c, d):
    return c[:, None]*d[None, :]
def f19(c, d):
    return np.multiply.outer(c, d)
def f20(c):
    return np.diff(c), np.cumsum(c)
def f21(c):
    return np.gradient(c)
def f22(c, s):
    return np.interp(s, np.sort(c), c)
def f23(c, d):
    return np.convolve(c, d, mode='same')
def f24(a):
    return np.roll(a, 1, axis=0)
def f25(a):
    return np.ma.array(a, mask=a > 0.5).sum()
def f26(c):
    return np.isclose(c, 1.0), np.allclose(c, 1.0)
def f27(c):
    i, = np.nonzero(c > 0.5)
    return c[i]
def f28(c):
    return c[np.flatnonzero(c > 0.5)]
def f29(c):
    return np.argmax(c), np.argmin(c), np.argsort(c)
def f30(c):
    return np.clip(c, 0.2, 0.8)
def f31(c):
    return np.pad(c, 1)
def f32(a):
    return np.triu(a), np.tril(a)
def f33(a):
    return a.T.dot(a)
def f34(sq):
    return np.linalg.inv(sq)
def f35(sq, c):
    return np.linalg.solve(sq, c)
def f36(sq):
    return np.trace(sq), np.diag(sq)
def f37(c):
    return np.polyfit(np.arange(4), c, 1)
def f38(c):
    return np.polyval(c, 2.0)
def f39(c):
    return np.digitize(c, [0.2, 0.5])
def f40(c):
    return np.searchsorted(np.sort(c), 0.5)
def f41(c):
    return np.unique(np.round(c))
def f42(i):
    return np.bincount(i)
def f43(a):
    return np.linalg.norm(a)
def f44(a):
    return a.max(axis=0), a.mean(axis=1), a.std(), a.var(axis=0, ddof=1)
def f45(c):
    P = namedtuple('P', 'x y')
    p = P(c[0], c[1])
    return p.x - p.y
def f46(c):
    d = defaultdict(list)
    for j in range(4):
        d[j % 2].append(c[j])
    return np.array(d[0]), np.array(d[1])
def f47(c):
    d = dict(zip('abcd', c))
    return d['b'] + d['d']
def f48(c):
    d = {k: v for k, v in zip('abcd', c)}
    d.update(a=3.0)
    return sum(d.values())
def f49(c):
    first, *rest = c
    return first*2 - sum(rest)
def f50(c):
    return [x for x, y in itertools.product(c, c) if x is not y][0] if False else c
def f51(c):
    return np.array([x + y for x, y in itertools.combinations(c, 2)])
def f52(c):
    return np.array([x*y for x, y in zip(c[:-1], c[1:])])
def f53(c):
    it = iter(c)
    a = next(it)
    b = next(it)
    return a - b
def f54(c):
    def gen():
        for x in c:
            yield x*2
    return np.array(list(gen()))
def f55(c):
    j, tot = 0, 0.0
    while j < len(c):
        tot += c[j]
        j += 1
    return tot
def f56(c):
    j = 0
    while True:
        if j >= 3:
            break
        j += 1
    return c[j]
def f57(c):
    for j, x in enumerate(c):
        if x > 100:
            break
    else:
        return -1
    return j
def f58(c):
    return np.fromiter((x*2 for x in c), dtype=float)
def f59(c):
    return np.array(list(map(lambda x: x*2, c)))
def f60(c):
    return np.vectorize(lambda x: x*2)(c)
def f61(a):
    return np.ndindex(*a.shape) and sum(a[j, k] for j, k in np.ndindex(3, 4))
def f62(a):
    return sum(x for _, x in np.ndenumerate(a))
def f63(a):
    t = 0
    for x in np.nditer(a):
        t = t + x
    return t
def f64(c):
    return c[-1], c[::-1], c[1::2], c[-2:]
def f65(a):
    return a[..., 1], a[1, ...], a[:, [0, 2]], a[np.ix_([0, 1], [1, 2])]
def f66(a, i):
    return np.take(a, i, axis=0), a.take(i, axis=0)
def f67(a):
    return np.compress([True, False, True], a, axis=0)
def f68(a):
    return np.delete(a, 1, axis=0)
def f69(a, s):
    return np.insert(a, 1, s, axis=0)
def f70(c, s):
    return np.append(c, s)
def f71(a):
    return np.split(a, [1], axis=0)[1]
def f72(c):
    return np.piecewise(c, [c < 0.5, c >= 0.5], [0, 1])
def f73(c):
    return np.select([c < 0.2, c < 0.6], [1, 2], 3)
def f74(c):
    return np.heaviside(c, 0.5), np.sign(c), np.trunc(c), np.rint(c)
def f75(c, s):
    return divmod(7, 3), pow(s, 2), abs(-s), round(s, 2)
def f76(c):
    return np.logical_xor(c > 0.5, c < 0.7), (c > 0.5) ^ (c < 0.7)
def f77(c):
    return ~(c > 0.5), -(c)
def f78(c):
    return np.any(c > 0.5), np.all(c > 0), np.count_nonzero(c > 0.5)
def f79(c):
    return np.full(4, c[0]), np.full_like(c, 2.0), np.eye(3), np.identity(2)
def f80(c):
    return np.linspace(0, 1, 5), np.logspace(0, 1, 3), np.arange(0, 1, 0.25), np.geomspace(1, 8, 4)
def f81(q):
    return np.moveaxis(q, -1, 0), np.swapaxes(q, 0, 1), np.rollaxis(q, 2)
def f82(q):
    return q.transpose(2, 0, 1), np.transpose(q, (1, 0, 2))
def f83(q):
    return q.reshape(3, -1), q.reshape((-1,)), np.ravel(q, order='F')
def f84(a):
    return np.nansum(a), np.nanmean(a, axis=0), np.nanmax(a)
def f85(a, b):
    return np.cross(a[:, :3], b[:, :3])
def f86(c):
    return np.average(c, weights=c)
def f87(c, d):
    return np.kron(c, d)
def f88(a):
    return np.rot90(a), np.flipud(a), np.fliplr(a), np.flip(a)
def f89(c):
    x = c.copy()
    x, y = x*2, x
    return x, y
def f90(c):
    return np.median(c), np.percentile(c, 50)
def f91(c):
    try:
        return c['x']
    except (IndexError, KeyError, TypeError):
        return c*2
def f92(c, s):
    return (lambda x, y=2: x*y)(s), (lambda *a: sum(a))(1, 2, s)
def f93(s):
    return f'{s:.2f}' and s
def f94(c):
    d = {}
    for k, x in zip('abab', c):
        d.setdefault(k, []).append(x)
    return np.array(d['a'])
def f95(c):
    s = slice(1, 3)
    return c[s]
def f96(a):
    idx = (slice(None), 1)
    return a[idx]
def f97(a):
    idx = [slice(None)]*2
    idx[1] = 2
    return a[tuple(idx)]
def f98(c):
    return np.sum([c, c], axis=0), np.mean([c, c*2], axis=0)
def f99(c):
    return np.dot(c, c), np.vdot(c, c), np.inner(c, c)
