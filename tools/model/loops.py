import re
import numpy as np
def outer(f):
    def g(x):
        return f(x)*2
    return g
@outer
def h(x):
    return x + 1
def f1(c):
    return h(c)
def f2(c):
    for i, x in enumerate(c):
        if x < 100:
            return i
    return -1
def f3(c):
    n = len(c); t = 0.0
    i = 0
    while i < n:
        t += c[i]*i
        i += 1
    return t
def f4(c):
    t = 0.0; i = 0
    while True:
        t += c[i]
        i += 1
        if i == 4:
            break
    return t
def f5(c):
    i = 0
    while i < 4 and c[i] < 100:
        i += 1
    return i
def f6(c):
    i = len(c) - 1; t = 0
    while i >= 0:
        t = t*2 + c[i]
        i -= 1
    return t
def f7(c):
    p, q = 1.0, 2.0
    for x in c:
        p, q = q + x, p
    return p, q
def f8(a):
    def row(r):
        for x in r:
            if x > 100: return x
        return r[0]
    return [row(r) for r in a][0]
def f9(c, s):
    if s > 100:
        return c
    x = c*2
    if s > 50:
        return x
    return x + 1
def f10(c):
    z = None
    for x in c:
        if z is None:
            z = x
        else:
            z = z*2 + x
    return z
def f11(c):
    return any(x > 100 for x in c), all(x < 100 for x in c), next((x for x in c if x < 100), None)
def f12(c):
    i = np.argmax(c < 100)
    return c[i]
def f13(a):
    i, j = np.unravel_index(np.argmax(a), a.shape)
    return a[i, j]
def f14(a):
    z = []
    for i in range(3):
        for j in range(4):
            z.append(a[i, j])
    return np.array(z).reshape(3, 4)
def f15(a):
    return [[x*2 for x in r] for r in a][1][2], sum(x for r in a for x in r)
def f16(a):
    z = np.zeros((3, 4))
    k = 0
    for i in range(3):
        for j in range(4):
            z[i, j] = k
            k += 1
    return z
def f17(a):
    z = np.zeros(12)
    k = 0
    for i in range(3):
        for j in range(4):
            z[k] = a[i, j]
            k += 1
    return z
def f18(c):
    d = {}
    for i, x in enumerate(c):
        d.setdefault('k', []).append(x*i)
    return np.array(d['k'])
def f19(c):
    out = {}
    for k in ['a', 'b']:
        out[k] = []
        for x in c:
            out[k].append(x)
    return np.array(out['b'])
def f20(c):
    z = list()
    z.extend(x*2 for x in c)
    z += [1.0]
    return np.array(z)
def f21(c):
    z = ()
    for x in c:
        z += (x,)
    return np.array(z)
def f22(c):
    s = ''
    for k in ['a', 'b']:
        s += k
    return c if s == 'ab' else 0
def f23(c):
    lo = min(c[0], c[1]); hi = max(c[0], c[1])
    return np.clip(c, lo, hi), np.minimum(np.maximum(c, lo), hi)
def f24(a, m):
    z = a.copy()
    for i in range(3):
        for j in range(4):
            if m[i, j]:
                z[i, j] = -1
    return z
def f25(a):
    t = np.zeros(4)
    for r in a:
        t += r
    return t
def f26(a):
    t = 0
    for r in a:
        t = t + r
    return t
def f27(a):
    return sum(a), sum(a.T), sum([r.sum() for r in a])
def f28(c):
    n = 0
    for x in c:
        if x > -100: n += 1
    return n
def f29(c):
    k = 0; z = np.zeros(4)
    for i in range(4):
        if i % 2 == 0:
            z[k] = c[i]; k += 1
    return z[:k], k
def f30(c):
    lo, hi = 0, 4
    while lo < hi:
        mid = (lo + hi)//2
        if mid < 2: lo = mid + 1
        else: hi = mid
    return c[lo]
def f31(c):
    prev = c[0]; z = []
    for x in c[1:]:
        z.append(x - prev)
        prev = x
    return np.array(z)
def f32(c):
    try:
        for x in c:
            if x > 100: raise ValueError
        y = 1
    except ValueError:
        y = 2
    return y*c
def f33(c):
    acc = {}
    for i, x in enumerate(c):
        acc[i] = x
    return sum(acc.values()), len(acc)
def f34(c):
    acc = {'p': 0.0, 'q': 0.0}
    for i, x in enumerate(c):
        acc['p' if i % 2 == 0 else 'q'] += x
    return acc['p'], acc['q']
def f35(c, k):
    it = iter(range(k))
    return [next(it) for _ in range(2)]
def f36(c):
    global_ = [0]
    def inc(v): global_[0] += v
    for x in c: inc(x)
    return global_[0]
def f37(c):
    t = 0
    def inc(v):
        nonlocal t
        t += v
    for x in c: inc(x)
    return t
def f38(c):
    def gen(n):
        for i in range(n):
            yield i, c[i]
    return sum(i*x for i, x in gen(4))
def f39(c):
    def gen():
        yield c[0]
        yield from c[1:]
    return np.array(list(gen()))
def f40(c):
    x = c if c.ndim else np.array([c])
    return np.atleast_1d(x)
def clen(t, m, h, n):
    s = t*h[n-1]
    for l in range(n-2, m-1, -1):
        s = t*s + h[l]
    return s
def f_unrolled_d(c, d):
    h = c.copy()
    for j in range(1, 6+1):
        n = len(c)
        t = np.zeros((len(d), n+1))
        for m in range(n-1, -1, -1):
            t[:,m] = clen(d, m, h, n)
        s = d*t[:,n-1]
        for m in range(n-2, 0, -1):
            s = s*m + t[:,m]
        h = h*np.sum(s)
        if np.sum(s) < 0.3:
            break
    return s
def f_unrolled_e(c, d):
    h = c.copy()
    for j in range(1, 6+1):
        n = len(c)
        t = np.zeros((len(d), n+1))
        for m in range(n-1, -1, -1):
            t[:,m] = clen(d, m, h, n)
        s = d*t[:,n-1]
        h = h*np.sum(t)
        if np.sum(s) < 0.3:
            break
    return s
def f_unrolled_f(c, d):
    h = c.copy()
    for j in range(1, 6+1):
        n = len(c)
        t = clen(d, 0, h, n)
        h = h*np.sum(t)
        if np.sum(t) < 0.3:
            break
    return t
def f_unrolled_g(c, d):
    h = c.copy()
    for j in range(1, 6+1):
        n = len(c)
        s = d*h[n-1]
        for m in reversed(range(1, n-2)):
            s = s*m + h[m]
        h = h*np.sum(s)
        if np.sum(s) < 0.3:
            break
    return s
def f_iterator1(s):
    it = iter(['a 1', 'b 2', 'c 3', 'd 4'])
    for line in it:
        if line.startswith('b'):
            break
    return [x for x in it]
def f_iterator2(s):
    it = iter(['a 1', 'b 2', 'c 3', 'd 4'])
    for line in it:
        if re.match('b', line):
            break
    return [x for x in it]
def f_iterator3(s):
    it = iter('a 1\nb 2\nc 3\nd 4'.splitlines())
    if s > 1000.0 or True:
        for line in it:
            if re.match('b', line):
                break
    return [(x, re.findall(r'\d', x)) for x in it]
def f_iterator4(c):
    it = iter(c)
    x = next(it)
    for y in it:
        break
    return x, y, list(it)
def f_iterator5(s):
    it = iter(['a 1', 'b 2', 'c 3', 'd 4'])
    h = next(it)
    for line in it:
        if line.startswith('b'):
            break
    n = 0
    for line in it:
        n += 1
    return n
def f_iterator6(s):
    it = iter(['a 1', 'b 2', 'c 3', 'd 4'])
    for k, line in enumerate(it):
        if line.startswith('b'):
            break
    return k, list(it), list(it)
def f_iterator7(s):
    it = iter(['a', '1', 'b', '2'])
    return [x + y for x, y in zip(it, it)]
def f_iterator8(s):
    it = iter(['a', '1', 'b', '2'])
    out = []
    for x in it:
        out.append(x + next(it))
    return out
def f_iterator9(c):
    it = iter(c)
    first = next(it)
    total = 0.0
    for y in it:
        total = total + y
    return first, total
def f_iterator10(s):
    import itertools
    it = iter(['a', '1', 'b', '2'])
    head = list(itertools.islice(it, 2))
    return head, list(it)
def f_iterator11(s):
    it = iter([1, 2, 3, 4])
    return sum(it), sum(it)
def f_iterator12(s):
    it = iter([1, 2, 3, 4])
    for x in it:
        if x*s > 2.5*s:
            break
    return [y for y in it]
def f_iterator13(s, t):
    it = iter([1, 2, 3, 4])
    for x in it:
        if s > t:
            break
    return x
def f_iterator14(s, t):
    it = iter([1, 2, 3, 4])
    for x in it:
        if x*s > t:
            break
    return x, list(it)
def f_iterator15(c):
    it = iter(c)
    return list(it), list(it)
