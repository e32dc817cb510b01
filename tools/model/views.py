import numpy as np
def f_putmask(a, m, s):
    np.putmask(a, m, s)
    return a
def f_putmask2(a, b, m):
    np.putmask(a, m, b)
    return a
def f_copyto(a, b):
    np.copyto(a, b)
    return a
def f_copyto_where(a, b, m):
    np.copyto(a, b, where=m)
    return a
def f_place(a, m, s):
    np.place(a, m, [s])
    return a
def f_filldiag(sq, s):
    np.fill_diagonal(sq, s)
    return sq
def f_out(a, b):
    np.add(a, b, out=a)
    return a
def f_out2(a, b):
    c = np.zeros_like(a)
    np.multiply(a, b, out=c)
    return c
def f_out3(a, b):
    np.subtract(a, b, a)
    return a
def f_outwhere(a, b, m):
    c = np.ones_like(a)
    np.divide(a, b, out=c, where=m)
    return c
def f_sqrt_out(a):
    a = np.abs(a)
    np.sqrt(a, out=a)
    return a
def f_fill(a, s):
    a.fill(s)
    return a
def f_sort(c):
    c.sort()
    return c
def f_sortaxis(a):
    a.sort(axis=0)
    return a
def f_row(a, c):
    for j in range(3):
        row = a[j]
        row *= 2
    return a
def f_row2(a, c):
    row = a[1, :]
    row[:] = c
    return a
def f_row3(a, c):
    row = a[1]
    row[2] = 7.0
    return a
def f_view(a, s):
    v = a[:, 1:3]
    v += s
    return a
def f_view2(q, s):
    v = q[:, :, 0]
    v[v > 0] = s
    return q
def f_T(a, s):
    v = a.T
    v[0, 1] = s
    return a
def f_copyrow(a, c):
    row = a[1].copy()
    row *= 2
    return a
def f_ravel(a, s):
    v = a.ravel()
    v[3] = s
    return a
def f_flat(a, s):
    a.flat[3] = s
    return a
def f_reshape(a, s):
    v = a.reshape(4, 3)
    v[1, 1] = s
    return a
def f_sqz(q, s):
    v = np.squeeze(q)
    v[0, 0, 0] = s
    return q
def f_ext(q, s):
    v = q[..., None]
    v[0] = s
    return q
def f_dview(a, s):
    d = {'x': a, 'y': a[0]}
    d['y'][:] = s
    d['x'][1, 1] = 5.0
    return a
def f_listview(a, s):
    l = [a[j] for j in range(3)]
    l[1][:] = s
    return a
def f_iter(a, s):
    for row in a:
        row[0] = s
    return a
def f_iter2(a, c):
    for row, x in zip(a, c):
        row += x
    return a
def f_iter3(a, c):
    for j, row in enumerate(a):
        row -= c[j]
    return a
def f_nan(a):
    a[0, 0] = np.nan
    np.nan_to_num(a, copy=False, nan=3.0)
    return a
def f_addat(a, i, s):
    np.add.at(a, i, s)
    return a
def f_swap(a):
    a[0], a[1] = a[1].copy(), a[0].copy()
    return a
def f_swap2(a):
    a[[0, 1]] = a[[1, 0]]
    return a
def f_rev(a):
    a[:] = a[::-1].copy()
    return a
def f_multi(a, s):
    x = y = a
    x += s
    return y
def f_alias2(a, s):
    x = a
    x = x + s
    return a
def f_put(c, s):
    np.put(c, [0, 2], s)
    return c
def f_putm(c, s):
    c.put([0, 2], s)
    return c
def f_resize(c):
    c.shape = (2, 2)
    return c
def f_aug_idx(a, i):
    a[i, 0] += 1
    return a
def f_aug_mask(a, m):
    a[m] *= -1
    return a
def f_helper(a, s):
    def scale(x):
        x *= s
    scale(a)
    return a
def f_helper2(a, s):
    def scale(x):
        x[...] = x*s
    for j in range(3):
        scale(a[j])
    return a
def f_setitem_call(a, s):
    def pick():
        return a
    pick()[1] = s
    return a
def f_mapinplace(a, s):
    list(map(lambda r: r.fill(s), a))
    return a
def f_vk(a, k):
    row = a[k]
    row *= 2
    return a
def f_vs(a, t):
    j = int(abs(t)*0)
    row = a[j]
    row[:] = 3
    return a
def f_fancy(a, i):
    row = a[i]
    row *= 2
    return a
def f_chain(a, s):
    a[0][1] = s
    return a
def f_stale(a):
    x = a[1, 1]
    a[1, 1] = 9.0
    x += 1
    return a, x
def f_stale2(a):
    x = a[1]
    a[1, 1] = 9.0
    x += 1
    return a, x
def f_two(a, s):
    r0, r1 = a[0], a[1]
    r0 += r1
    r1 -= r0
    return a
def f_same(a):
    x = a*2
    y = a*2
    x[0] = 1.0
    return y
def f_loopv(a, c):
    out = np.zeros((3, 4))
    for j in range(3):
        row = out[j]
        for k in range(4):
            row[k] = a[j, k]*c[k]
    return out
def f_loopv2(a, c):
    out = np.zeros((3, 4))
    for row, src in zip(out, a):
        row[:] = src*c
    return out
def f_loopacc(a, c):
    tot = np.zeros(4)
    for row in a:
        tot += row*c
    return tot
def f_scal(c):
    x = c[0]
    for j in range(1, 4):
        x += c[j]
    return x, c
def f_scal2(a):
    tot = a[0, 0]
    tot *= 3
    tot -= 1
    return tot, a
def f_attr(a, s):
    class T: pass
    return a
def f_swapbad(a):
    t = a[0]
    a[0] = a[1]
    a[1] = t
    return a
def f_realimag(a, b):
    z = np.zeros((3, 4), dtype=complex)
    z.real = a
    z.imag = b
    return z
def f_realimag2(a, b):
    z = np.zeros((3, 4), dtype=complex)
    z.real[:] = a
    z.imag[...] = b
    return z
def f_flip(c, s):
    v = c[::-1]
    v[0] = s
    return c
def f_cond(a, b, s):
    v = a if s > 10 else b
    v[0] = 1.0
    return a, b
def f_condrow(a, s):
    v = a[0] if s > 0.5 else a[1]
    v += 5
    return a
def f_walrus(a):
    if (r := a[1]) is not None:
        r += 2
    return a
