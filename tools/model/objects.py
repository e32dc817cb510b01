import numpy as np
import copy, collections, functools, itertools, operator, math
class Pt:
    scale = 2.0
    def __init__(self, x, y=None, **kw):
        self.x = x
        self.y = x if y is None else y
        for k, v in kw.items():
            setattr(self, k, v)
    def add(self, o):
        self.x = self.x + o.x
        return self
    @property
    def norm(self):
        return self.x**2 + self.y**2
    @norm.setter
    def norm(self, v):
        self.x = self.y = v
    @classmethod
    def make(cls, v):
        return cls(v, v*2)
    @staticmethod
    def twice(v):
        return v*2
    def copy(self):
        t = Pt(self.x)
        for k in ('x', 'y'):
            setattr(t, k, getattr(self, k))
        return t
    def __getitem__(self, k):
        return getattr(self, k)
    def __len__(self):
        return len(self.x)
    def __iter__(self):
        self.i = 0
        return self
    def __next__(self):
        if self.i >= len(self.x):
            raise StopIteration
        v = self.x[self.i]
        self.i += 1
        return v
    def __call__(self, z):
        return self.x*z
    def __add__(self, o):
        return Pt(self.x + o.x, self.y + o.y)
    def __contains__(self, v):
        return v in self.x
    def __eq__(self, o):
        return np.all(self.x == o.x)
class Sub(Pt):
    scale = 3.0
    def add(self, o):
        super().add(o)
        self.x = self.x*self.scale
        return self
def f1(c):
    return Pt(c).add(Pt(c*2)).x
def f2(c):
    return Sub(c).add(Pt(c*2)).x
def f3(c):
    p = Pt.make(c)
    return p.norm, Pt.twice(c)
def f4(c):
    p = Pt(c); q = p.copy(); q.x = q.x + 1
    return p.x, q.x
def f5(c):
    p = Pt(c); p.norm = c*3
    return p.x + p.y
def f6(c):
    p = Pt(c, z=c*2)
    return p.z
def f7(c):
    return Pt(c)['x']
def f8(c):
    return sum(v for v in Pt(c))
def f9(c):
    return Pt(c)(3.0)
def f10(c):
    return (Pt(c) + Pt(c)).x
def f11(c):
    p = q = Pt(c)
    p.x = c*5
    return q.x
def f12(c):
    p = Pt(c); q = copy.copy(p); q.x = c*2
    return p.x
def f13(c):
    p = Pt(c); q = copy.deepcopy(p); q.x[0] = 7.0
    return p.x
def f14(c):
    p = Pt(c); q = copy.copy(p); q.x[0] = 7.0
    return p.x
def f15(c):
    ps = [Pt(c*k) for k in range(3)]
    return sum(p.x for p in ps)
def f16(c):
    ps = {k: Pt(c*k) for k in range(3)}
    for k, p in ps.items():
        p.x = p.x + k
    return ps[2].x
def f17(c):
    p = Pt(c)
    del p.y
    return hasattr(p, 'y'), hasattr(p, 'x')
def f18(c):
    p = Pt(c)
    p.__dict__.update(z=c)
    return vars(p)['z']
def f19(c):
    p = Pt(c)
    return {k: v for k, v in p.__dict__.items()}['y']
def f20(c):
    f = operator.mul
    return f(c, 2), operator.itemgetter(1)(c), operator.attrgetter('x')(Pt(c))
def f21(c):
    return [m for m in (Pt(c).norm,)][0]
def f22(c):
    def deco(f):
        @functools.wraps(f)
        def inner(*a, **k):
            return f(*a, **k)*2
        return inner
    @deco
    def g(x):
        return x + 1
    return g(c)
def f23(c):
    x, y = (c, c*2) if c.ndim == 1 else (c*3, c)
    return x + y
def f24(c, m, a):
    z = a.copy()
    z[m] = 0
    z[~m] *= 2
    return z
def f25(a, m):
    return np.where(m, a, 0).sum(axis=1)
def f26(a, m):
    z = np.ma.array(a, mask=m)
    return z.sum(axis=0).filled(0), z.mean()
def f27(a, m):
    z = np.ma.zeros(a.shape)
    z.data[:] = a
    z.mask = m
    return np.ma.filled(z, -1)
def f28(a):
    jj, ii = np.nonzero(a > 0)
    z = np.zeros_like(a)
    z[jj, ii] = 1
    return z
def f29(a):
    z = np.zeros((3, 4))
    for i in range(3):
        z[i, :] = a[i, :]*i
    return z
def f30(a):
    z = np.zeros((3, 4))
    for i, row in enumerate(a):
        z[i] = row*i
    return z
def f31(a):
    z = np.empty((3, 4)); z[...] = a; z[:, ::2] += 1
    return z
def f32(a):
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            if j > i:
                continue
            a[i, j] = 0.0
    return a
def f33(c):
    n = len(c); t = 0.0
    i = 0
    while True:
        t += c[i]*i
        i += 1
        if i >= n:
            break
    return t
def f34(c):
    z = []
    for i, x in enumerate(c):
        if i % 2:
            continue
        z.append(x)
    return np.array(z)
def f35(c):
    z = [0.0]
    for x in c:
        z.append(z[-1] + x)
    return np.array(z)
def f36(c):
    z = np.zeros(5)
    for i, x in enumerate(c):
        z[i+1] = z[i] + x
    return z
def f37(c):
    best = None
    for x in c:
        if best is None or x > best:
            best = x
    return best
def f38(c):
    for i, x in enumerate(c):
        if x == max(c):
            return i
    return -1
def f39(c):
    found = False
    for x in c:
        if x > 100:
            found = True
            break
    else:
        return c
    return found
def f40(c):
    try:
        x = c[10]
    except IndexError:
        x = 0.0
    return x + c[0]
def f41(c):
    d = dict(a=c, b=2)
    d.pop('b')
    x = d.pop('z', 3)
    return d['a']*x, len(d), 'a' in d, list(d)
def f42(c):
    d = {}
    for k in ('x', 'y'):
        d[k] = c*len(d)
    return d['y'], sorted(d), list(d.keys())
def f43(c):
    d = {'a': {'b': c}}
    d['a']['b'] = d['a']['b']*2
    e = copy.deepcopy(d)
    e['a']['b'] = 0
    return d['a']['b']
def f44(c):
    d = {'a': {'b': c}}
    e = d.copy()
    e['a']['b'] = c*9
    return d['a']['b']
def f45(c):
    d = {**{'a': c}, 'b': c*2}
    return sum(d.values()), [v for k, v in d.items() if k == 'b'][0]
def f46(c):
    x = [c, c*2]
    y = x
    y[0] = c*5
    return x[0]
def f47(c):
    x = [[]]*2
    x[0].append(c)
    return len(x[1])
def f48(c):
    x = [[] for _ in range(2)]
    x[0].append(c)
    return len(x[1]), len(x[0])
def f50(c):
    return '{0:0.2f}'.format(2.5), '%s-%d' % ('a', 3), f'{3:03d}', 'a,b'.split(','), ' x '.strip()
def f51(s):
    return math.floor(3.7), math.sqrt(4.0), math.pi, math.fabs(s), math.degrees(s), math.atan2(s, 1), math.hypot(s, 1), math.isnan(s), math.copysign(1, s), math.trunc(2.5)
def f52(c):
    return np.sum([x*2 for x in c]), np.prod(np.arange(1, 5)), np.max([c[0], c[1]])
def f53(a):
    return a.sum(axis=1, keepdims=True)/a.shape[1], a.mean(0), a.max(axis=(0, 1))
def f54(a):
    return np.array([np.dot(r, r) for r in a]), a @ a.T, np.matmul(a, a.T)
def f55(a, b):
    return np.einsum('ij,ij->i', a, b), np.tensordot(a, b, axes=([0, 1], [0, 1]))
def f56(c):
    l = np.arange(len(c)); 
    return np.sum(c*(2*l + 1)), (c[None, :]*l[:, None]).sum()
def f57(c):
    z = np.array([*c, 1.0]); z[-1] = 3; z[:-1] -= 1
    return z
def f58(k):
    return [x for x in range(k + 3) if x not in (1,)], list(range(0, 10, k)), [*range(k)]
def f59(c):
    t = np.float64(0)
    for x in reversed(c):
        t = t*2 + x
    return t
def f60(c):
    z = c[::-1].copy(); z.sort()
    return z, np.sort(c)[::-1], np.argsort(-c)
def f61(c):
    return np.r_[c, 1.0, c], np.append(c, [1, 2]), np.hstack((c, 5))
def f62(a):
    return a.reshape(-1), a.flatten('F'), a.ravel(order='F'), a.reshape(4, 3, order='F')
def f63(a):
    return a.astype(int), a.astype('f4').astype('f8').dtype == np.float64, a.tolist()[0]
def f64(c):
    x = c.copy()
    x += 1
    y = x
    y *= 2
    return x
def f65(c):
    x = c
    x = x + 1
    return c
def f66(c):
    x = c
    x += 1
    return c
def f67(sq):
    return np.triu(sq, 1), np.diag(sq), np.diag(np.diag(sq)), np.linalg.solve(sq, sq), np.trace(sq)
def f68(c, d):
    x, y = np.meshgrid(c, d, indexing='ij')
    return x + y, np.add.outer(c, d)
def f69(c):
    with np.errstate(all='ignore'):
        return np.log(np.abs(c))
def f70(c):
    return np.nan_to_num(np.array([np.nan, 1.0])), np.isclose(c, c).all(), np.any(np.isnan(c)), np.nanmean(c)
def f71(c, s):
    if s > 0: r = c
    elif s < 0: r = -c
    else: r = c*0 + 1
    return r
def f72(c):
    r = c if False else None
    if r is None: r = c*2
    return r
def f73(c, s):
    assert s is not None
    return (lambda v, w=2: v*w)(c)
def f74(c):
    a, (b, d) = c[0], (c[1], c[2])
    a, b = b, a
    return a - 2*b + d
def f75(c):
    z = c.copy()
    z[0], z[1] = z[1], z[0]
    return z
def f76(c):
    return [(i, x) for i, x in enumerate(c) if i > 1][0][1], {i: x for i, x in enumerate(c)}[3]
def f77(c):
    it = zip(c[:-1], c[1:])
    return sum((y - x)*(i+1) for i, (x, y) in enumerate(it))
def f78(c):
    n = collections.Counter(['a', 'b', 'a'])
    return n['a']
def f79(c):
    D = collections.namedtuple('D', ['u', 'v'])
    d = D(c, v=c*2)
    u, v = d
    return d.u + d.v, u - v, d._replace(u=1).u
def f80(c):
    d = collections.defaultdict(list)
    d['x'].append(c)
    return d['x'][0], len(d)
def f81(c):
    d = collections.defaultdict(float)
    for i, x in enumerate(c):
        d[i % 2] += x
    return d[0], d[1]
def f82(c):
    from types import SimpleNamespace
    p = SimpleNamespace(x=c, y=2)
    p.x = p.x*p.y
    return p.x
def f83(c):
    r = range(2, 8, 2)
    return r[1], len(r), 4 in r, r.stop, list(r)[-1]
def f84(c):
    x = np.full(3, np.nan); x[1] = 5
    return np.nansum(x), np.count_nonzero(np.isnan(x))
def f85(c):
    return np.where(c > 0)[0].size, np.flatnonzero(c > -99)[-1], np.argmax(c), (c > -99).all()
def f86(c):
    i, = np.nonzero(np.arange(4) == 2)
    return c[i[0]], c[i]
def f87(c):
    return np.piecewise(c, [c < 0, c >= 0], [0, 1])
def f88(c):
    f = np.vectorize(lambda x: x*2 if x > 0 else 0.0)
    return f(c)
def f89(a):
    return np.apply_along_axis(np.sum, 1, a)
def f90(a):
    return np.array(list(map(lambda r: r.sum(), a)))
def f91(c):
    return sorted(c, key=lambda x: -x), max(c, key=abs), sorted(range(4), key=lambda i: c[i])
def f92(c):
    x, y = c.copy(), c.copy()
    for k in range(len(c)):
        x[k], y[k] = y[k]*2, x[k]*3
    return x, y
def f93(c):
    p, q = 1.0, 2.0
    for x in c:
        p, q = q, p + x
    return p, q
def f94(a):
    out = np.zeros(a.shape[::-1])
    out.T[:] = a
    return out
def f95(c):
    z = np.concatenate([c[i:i+1] for i in range(4)])
    return z
def f96(c):
    return np.array([c, c*2]).T, np.array([c, c*2])[1], np.stack([c, c]).shape
def f97(q):
    return q[..., 0] + q[:, :, 1], q.sum(-1), np.moveaxis(q, -1, 0)[0], q[:, :, ::-1]
def f98(q):
    return np.squeeze(q[:, :1, :]), q[0][1][1], q[0, 1, 1], q.transpose(2, 0, 1).shape
def f99(c):
    return bool(c.size), int(2.7), float('3'), str(2), round(2.567, 1), abs(-2), pow(2, 3), sum([1, 2], 3), all([1, 0]), any([])
