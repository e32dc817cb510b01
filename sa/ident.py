"""Identity test for value numbers (random interpretation).

Two normal forms that are not syntactically equal may still denote the same
function (trigonometric identities, reassociation across opaque operators).
They are compared as formal expressions: every atom is interpreted by a fixed
pseudo random number and every operator by its mathematical meaning (or by a
fixed smooth function when it is opaque).  Equal functions always receive equal
interpretations, so a difference refutes the identity.  Arrays are read
pointwise: generic positions (full slices, loop indices) are dropped, constant
or shifted positions are kept.
"""
import cmath
import hashlib
import math
import sys
from fractions import Fraction
from . import values as V

sys.setrecursionlimit(100000)


NUM = (int, float, complex, Fraction)
REAL = (int, float, Fraction)


class Opaque(Exception):
    pass


def _h(*key):
    d = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return int.from_bytes(d, 'big') / 2.0 ** 64


def _r(x):
    """stable rounding used in keys"""
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, tuple):
        return tuple(_r(y) for y in x)
    if isinstance(x, complex):
        if abs(x.imag) < 1e-12 * max(1.0, abs(x.real)):
            x = x.real
        else:
            return ('c', _r(x.real), _r(x.imag))
    if isinstance(x, REAL):
        if x == 0:
            return 0.0
        return float(f'{x:.7g}')
    return x


LINEAR_ID = {'mean', 'squeeze', 'numpy.nanmean', 'numpy.ma.mean', 'numpy.squeeze', 'float', 'numpy.flip', 'numpy.flipud',
    'numpy.fliplr', 'numpy.rot90', 'numpy.roll_', 'numpy.ma.filled', 'complex_'}
SUMS = {'sum', 'accum', 'numpy.nansum', 'numpy.ma.sum', 'numpy.sum'}
MATH = {'sin', 'cos', 'tan', 'exp', 'log', 'log10', 'arcsin', 'arccos', 'arctan', 'arctan2', 'abs', 'floor', 'ceil',
    'mod', 'floordiv', 'real', 'imag', 'conj', 'exp2', 'sign', 'hypot', 'maximum', 'minimum', 'pow', 'round', 'int',
    'div', 'where', 'dot', 'len', 'iota', 'iotav', 'complex', 'arcsinh', 'isnan', 'min', 'max', 'numpy.tensordot',
    'numpy.einsum', 'isfinite', 'bool'}


class Model:
    """one interpretation; ``n`` is the common length of the axes"""

    def __init__(self, seed, n=1.0, strict=False, domain=None):
        self.seed, self.n, self.strict = seed, n, strict
        self.domain = domain or {}
        self.memo = {}
        self.kinds = set()
        self.opaque = set()
        self.reds = set()
        self.axes = set()
        self.rho = 0.31830988 + 0.1 * _h(seed, 'rho')

    def rnd(self, *key):
        return 0.4 + 1.2 * _h(self.seed, *key)

    # keys ---------------------------------------------------------------------
    def path(self, e):
        """stable key of a location"""
        if e.op == 'sym':
            return ('s', e.args[0])
        if e.op == 'attr':
            return ('a', self.path(e.args[0]), e.args[1])
        if e.op == 'idx':
            return ('i', self.path(e.args[0]), self.ikey(e.args[1]))
        if e.op in ('obj', 'carry', 'func', 'class', 'module', 'ext'):
            return (e.op,) + tuple(str(a) for a in e.args)
        return ('v', _r(self.ev(e)))

    def ikey(self, ix):
        parts = ix.args[0] if ix.op == 'tuple' else (ix,)
        out = []
        for p in parts:
            k = self.ipart(p)
            if k is not None:
                out.append(k)
        while out and out[-1] == '*':
            out.pop()
        return tuple(out)

    def ipart(self, p):
        if p is V.NONE or p is V.const(Ellipsis):
            return None
        if p.op == 'slice':
            a, b, c = p.args
            full = (a in (V.NONE, V.ZERO)) and b is V.NONE
            off = (V.is_num(a) and V.cval(a) != 0) or (V.is_num(b) and V.cval(b) < 0) or \
                (V.is_num(b) and V.is_num(a))
            if off or (V.is_num(c) and V.cval(c) < 0 and False):
                self.kinds.add('offset-slice')
                return ('s',) + tuple(None if x is V.NONE else _r(self.ev(x)) for x in (a, b))
            self.kinds.add('slice')
            return '*'
        if p.op == 'call' and p.args[0] in ('iota', 'iotav'):
            self.kinds.add(p.args[0])
            if not self.strict:
                return '*'
            return _r(self.ev(p))
        if p.op == 'const' and p.args[0] == 'num':
            return float(p.args[1])
        q = p.args[0] if p.op == 'idx' else p
        if q.op == 'call' and q.args[0] in ('numpy.tril_indices', 'numpy.nonzero', 'numpy.triu_indices', 'numpy.indices') \
                or q.op == 'idx' and q.args[0].op == 'call' and q.args[0].args[0] in ('numpy.tril_indices', 'numpy.nonzero'):
            # arrays of generic positions
            self.kinds.add('positions')
            return '*'
        if V.is_str(p):
            return p.args[1]
        v = self.ev(p)
        if isinstance(v, bool):
            return ('b', v)
        self.kinds.add('computed-index')
        return _r(v)

    # evaluation ------------------------------------------------------------------
    def ev(self, e):
        m = self.memo.get(e)
        if m is not None:
            if isinstance(m, Opaque):
                raise m
            return m[0]
        try:
            v = self._ev(e)
        except (ZeroDivisionError, OverflowError, ValueError) as exc:
            err = Opaque(f'arithmetic: {exc}')
            self.memo[e] = err
            raise err
        except Opaque as exc:
            self.memo[e] = exc
            raise
        if isinstance(v, complex) and v.imag == 0:
            v = v.real
        if isinstance(v, float) and (v != v or v in (math.inf, -math.inf)):
            err = Opaque('not finite')
            self.memo[e] = err
            raise err
        self.memo[e] = (v,)
        return v

    def num(self, e):
        v = self.ev(e)
        if isinstance(v, bool):
            return float(v)
        if isinstance(v, NUM):
            return v
        raise Opaque(f'not a number: {V.show(e, 3)}')

    def boolean(self, c):
        v = self.ev(c)
        if isinstance(v, bool):
            return v
        if isinstance(v, NUM):
            return bool(v)
        raise Opaque('condition')

    def _ev(self, e):
        op = e.op
        if op == 'const':
            t, v = e.args
            if t == 'num':
                return v if self.domain else float(v)
            if t == 'bool':
                return bool(v)
            if t == 'NoneType':
                return None
            if t == 'str':
                return v
            if t == 'float':
                return self.rnd('const', v)
            if t == 'complex':
                return complex(v)
            return ('const', t, str(v))
        if op == 'sym':
            if e is V.PI:
                return math.pi
            if str(e.args[0]).startswith('?'):
                raise Opaque(f'unknown value {e.args[0]}')
            d = self.domain.get(e.args[0])
            if d is not None:
                if isinstance(d, (list, tuple)) and len(d) == 3 and d[0] == 'int':
                    return Fraction(d[1] + int(_h(self.seed, 's', e.args[0]) * (d[2] - d[1] + 1)))
                if isinstance(d, (list, tuple)) and len(d) == 3 and d[0] == 'real':
                    return d[1] + _h(self.seed, 's', e.args[0]) * (d[2] - d[1])
                return d
            return self.rnd('s', e.args[0])
        if op == 'poly':
            tot = Fraction(0) if self.domain else 0.0
            for m, c in e.args[0]:
                t = c if self.domain else float(c)
                for a, x in m:
                    b = self.num(a)
                    if x.denominator == 1:
                        t = t * b ** int(x)
                    else:
                        t, b = (float(t) if isinstance(t, Fraction) else t), (float(b) if isinstance(b, Fraction) else b)
                        if isinstance(b, complex) or b < 0:
                            t *= complex(b) ** float(x)
                        else:
                            t *= b ** float(x)
                tot += t
            return tot
        if op == 'attr':
            if e.args[1] in ('real', 'imag'):
                return self.call(e.args[1], [self.num(e.args[0])], {}, e)
            return self.rnd(*self.path(e))
        if op == 'idx':
            return self.index(e)
        if op == 'store':
            return self.store(e)
        if op == 'phi':
            c = self.boolean(e.args[0])
            return self.ev(e.args[1] if c else e.args[2])
        if op == 'not':
            return not self.boolean(e.args[0])
        if op == 'and':
            vs = [self.boolean(x) for x in e.args[0]]
            return all(vs)
        if op == 'or':
            vs = [self.boolean(x) for x in e.args[0]]
            return any(vs)
        if op == 'truthy':
            return _h(self.seed, 'truthy', self.path(e.args[0])) < 0.5
        if op == 'has':
            return _h(self.seed, 'has', self.path(e.args[0]), str(e.args[1])) < 0.5
        if op == 'isinst':
            return _h(self.seed, 'isinst', self.path(e.args[0]), str(e.args[1:])) < 0.5
        if op == 'cmp':
            return self.cmp(e)
        if op in ('tuple', 'list'):
            return tuple(self.ev(x) for x in e.args[0])
        if op == 'many':
            return self.ev(e.args[0])
        if op == 'fstr':
            return ('fstr',) + tuple(_r(self.ev(x)) for x in e.args[0])
        if op == 'call':
            name = e.args[0]
            args = []
            for x in e.args[1]:
                args.append(self.ev(x))
            kw = {k: self.ev(x) for k, x in e.args[2]}
            return self.call(name, args, kw, e)
        if op == 'carry':
            return self.rnd('carry', str(e.args[1]))
        if op in ('unbound', 'absent', 'join', 'super', 'opaque', 'boundm'):
            raise Opaque(op)
        if op == 'slice':
            return ('slice',) + tuple(self.ev(x) for x in e.args)
        if op in ('ext', 'func', 'class', 'module'):
            return (op, str(e.args[0]))
        if op == 'obj':
            return ('obj', e.args[0])
        raise Opaque(op)

    def index(self, e):
        b, ix = e.args
        # positions of a stored array
        if b.op == 'store' and self.masked(b.args[1]) is None:
            key, skey = self.ikey(ix), self.ikey(b.args[1])
            if key == skey:
                return self.ev(b.args[2])
        key = self.ikey(ix)
        if b.op in ('sym', 'attr', 'obj', 'carry') or (b.op == 'idx' and self._loc(b)):
            if b.op == 'idx':
                # nested generic positions collapse
                p, k0 = b, []
                while p.op == 'idx':
                    k0.append(self.ikey(p.args[1]))
                    p = p.args[0]
                flat = tuple(x for k in reversed(k0) for x in k) + key
                while flat and flat[-1] == '*':
                    flat = flat[:-1]
                if not flat:
                    return self.rnd(*self.path(p))
                return self.rnd('i', self.path(p), flat)
            if not key:
                return self.ev(b)
            return self.rnd('i', self.path(b), key)
        v = self.ev(b)
        if not key:
            return v
        if isinstance(v, tuple):
            if len(key) == 1 and isinstance(key[0], REAL) and key[0] == int(key[0]) and -len(v) <= key[0] < len(v):
                return v[int(key[0])]
            raise Opaque('tuple index')
        if isinstance(v, NUM):
            # element of a computed array: linear in the array
            return v * self.rnd('elem', key)
        raise Opaque('index')

    def _loc(self, e):
        while e.op == 'idx':
            e = e.args[0]
        return e.op in ('sym', 'attr', 'obj', 'carry')

    def store(self, e):
        base, ix, val = e.args
        if ix.op in ('cmp', 'not', 'and', 'or'):
            return self.ev(val) if self.boolean(ix) else self.ev(base)
        mask = self.masked(ix)
        if mask is not None:
            return self.ev(val) if mask else self.ev(base)
        key = self.ikey(ix)
        if not key:
            return self.ev(val)
        b, v = self.ev(base), self.ev(val)
        if isinstance(b, NUM) and isinstance(v, NUM):
            w = self.rnd('pos', key)
            return b + w * (v - b)
        raise Opaque('store')

    def masked(self, ix):
        """truth of a position set given by a condition, or None"""
        q = ix
        while q.op == 'idx':
            q = q.args[0]
        if q.op == 'call' and q.args[0] in ('numpy.nonzero', 'numpy.flatnonzero', 'numpy.where') and len(q.args[1]) == 1:
            c = q.args[1][0]
            if V.is_bool(c) or c.op == 'call' and c.args[0] in ('bitand', 'bitor', 'invert', 'isnan', 'isfinite', 'logical_and'):
                try:
                    return self.boolean(c)
                except Opaque:
                    return None
        return None

    def cmp(self, e):
        k, a, b = e.args
        x, y = self.ev(a), self.ev(b)
        numeric = all(isinstance(z, REAL) and not isinstance(z, bool) for z in (x, y))
        if k == '<' and numeric:
            return x < y
        if k == 'is':
            if x is None or y is None:
                return x is None and y is None
            if isinstance(x, bool) and isinstance(y, bool):
                return x == y
        if k == '==':
            if isinstance(x, (str, bool, type(None))) and isinstance(y, (str, bool, type(None))):
                return x == y
            if numeric:
                if abs(x - y) <= 1e-12 * max(abs(x), abs(y), 1e-3):
                    return True
                if a.op == 'const' or b.op == 'const' or self.domain:
                    return False
                # equality of two computed quantities: a fixed predicate of their difference
                return _h(self.seed, 'eq', _r(abs(x - y))) < 0.5
        return _h(self.seed, 'cmp', k, _r(x), _r(y)) < 0.5

    def smooth(self, name, args, kw):
        flat = []

        def go(tag, x):
            if isinstance(x, tuple):
                for i, y in enumerate(x):
                    go((tag, i), y)
            elif isinstance(x, bool) or x is None or isinstance(x, str):
                flat.append((tag, _h(self.seed, 'k', x)))
            elif isinstance(x, complex):
                flat.append(((tag, 're'), x.real))
                flat.append(((tag, 'im'), x.imag))
            else:
                flat.append((tag, float(x)))
        for i, x in enumerate(args):
            go(i, x)
        for k in sorted(kw):
            go(k, kw[k])
        v = self.rnd('f', name)
        for t, x in flat:
            a, b = self.rnd('fa', name, t), self.rnd('fb', name, t)
            v += 0.3 * math.sin(a * x + b) + 0.05 * math.atan(x) * b
        return v

    def call(self, name, a, kw, e):
        if name.startswith('.') and name[1:] in ('sum', 'mean', 'copy', 'squeeze'):
            name = name[1:]
        if name in SUMS or name in LINEAR_ID or name in ('max', 'min', 'any', 'all', 'median', 'std', 'cumsum'):
            ax = kw.get('axis', a[1] if len(a) > 1 and name not in ('max', 'min', 'accum') else None)
            if isinstance(ax, REAL):
                self.axes.add(ax)
            kw = {k: v for k, v in kw.items() if k != 'axis'}
        if name in ('bitand', 'bitor', 'invert', 'numpy.logical_and', 'numpy.logical_or', 'numpy.logical_not') and \
                all(isinstance(x, bool) for x in a):
            return {'a': all(a), 'o': any(a), 'i': not a[0], 'n': not a[0]}[
                'a' if 'and' in name else 'n' if 'not' in name else 'i' if name == 'invert' else 'o']
        if name in SUMS and a and isinstance(a[0], tuple) and all(isinstance(x, REAL) for x in a[0]):
            return sum(a[0])
        if name in SUMS:
            self.reds.add('sum' if name != 'accum' else 'accum')
            if not isinstance(a[0], NUM):
                raise Opaque('sum of non numbers')
            return self.n * a[0]
        if name in ('numpy.trace',):
            self.reds.add('sum')
        if name in LINEAR_ID:
            if name in ('mean', 'numpy.nanmean', 'numpy.ma.mean'):
                self.reds.add('mean')
            return a[0]
        if name == 'dot' or name == 'numpy.tensordot':
            self.reds.add('sum')
            if all(isinstance(x, NUM) for x in a[:2]):
                return self.n * a[0] * a[1]
        if name == 'numpy.einsum' and len(a) >= 2:
            self.reds.add('accum')
            v = self.n
            for x in a[1:]:
                if not isinstance(x, NUM):
                    raise Opaque('einsum')
                v = v * x
            return v
        if name == 'len':
            self.reds.add('len')
            if isinstance(a[0], NUM):
                return self.n
        if name in ('iota', 'iotav'):
            lo, hi, step = a[:3]
            if all(isinstance(x, REAL) for x in (lo, hi, step)):
                if step < 0:
                    return lo + 1 - self.rho
                return hi - self.rho
            raise Opaque('range')
        if name == 'where' and len(e.args[1]) == 3:
            c = self.boolean(e.args[1][0])
            return a[1] if c else a[2]
        if all(isinstance(x, NUM) for x in a) and not kw:
            f = NUMERIC.get((name, len(a)))
            if f is not None:
                r = f(*a)
                if r is not None:
                    return r
            if name == 'pow' and len(a) == 2:
                return complex(a[0]) ** complex(a[1]) if not (isinstance(a[0], REAL) and a[0] > 0) else float(a[0]) ** complex(a[1])
        if name == 'loop':
            self.opaque.add('loop')
        if name not in MATH:
            self.opaque.add(name)
        return self.smooth(name, a, kw)


def _real(f):
    def g(*a):
        if any(isinstance(x, Fraction) for x in a):
            try:
                r = f(*a)
                return r if isinstance(r, Fraction) else Fraction(r) if isinstance(r, int) else float(r)
            except (ValueError, OverflowError, TypeError):
                return None
        if any(isinstance(x, complex) for x in a):
            return None
        try:
            return float(f(*a))
        except (ValueError, OverflowError):
            return None
    return g


NUMERIC = {
    ('sin', 1): cmath.sin, ('cos', 1): cmath.cos, ('tan', 1): cmath.tan, ('exp', 1): cmath.exp,
    ('log', 1): lambda x: cmath.log(x), ('log10', 1): lambda x: cmath.log(x) / math.log(10),
    ('arcsin', 1): cmath.asin, ('arccos', 1): cmath.acos, ('arctan', 1): cmath.atan,
    ('arctan2', 2): _real(math.atan2), ('abs', 1): abs, ('floor', 1): _real(math.floor), ('ceil', 1): _real(math.ceil),
    ('mod', 2): _real(lambda x, y: x - y * math.floor(x / y)), ('floordiv', 2): _real(lambda x, y: math.floor(x / y)),
    ('real', 1): lambda x: x.real, ('imag', 1): lambda x: x.imag if isinstance(x, complex) else 0.0,
    ('conj', 1): lambda x: x.conjugate(), ('exp2', 1): _real(lambda x: 2.0 ** x), ('hypot', 2): _real(math.hypot),
    ('maximum', 2): _real(max), ('minimum', 2): _real(min), ('max', 2): _real(max), ('min', 2): _real(min),
    ('int', 1): _real(math.trunc), ('div', 2): lambda x, y: x / y, ('complex', 2): lambda x, y: x + 1j * y,
    ('sign', 1): _real(lambda x: (x > 0) - (x < 0)), ('arcsinh', 1): _real(math.asinh),
    ('round', 1): _real(round),
}


def same(x, y, tol=1e-7):
    if isinstance(x, tuple) or isinstance(y, tuple):
        return isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y) and all(same(p, q, tol) for p, q in zip(x, y))
    num = NUM
    if isinstance(x, num) and isinstance(y, num):
        return abs(x - y) <= tol * max(abs(x), abs(y), 1e-30)
    return x == y


EQUAL, DIFFER, UNKNOWN = 'equal', 'differ', 'unknown'


def compare(got, want, seeds=(1, 2, 3, 4, 5), allow=(), domain=None):
    """(verdict, reason) for the identity got == want

    DIFFER is returned only when the interpretation of every operator of ``got``
    is shared with ``want`` or has a fixed mathematical meaning.
    """
    if got is want:
        return EQUAL, 'identical normal forms'
    if V.eq(got, want):
        return EQUAL, 'equal as rational functions'
    decided = 0
    why = ''
    for s in seeds:
        try:
            a, b = Model(s, 1.0, domain=domain), Model(s, 1.0, domain=domain)
            x, y = a.ev(got), b.ev(want)
        except Opaque as exc:
            why = str(exc)
            continue
        extra = a.opaque - b.opaque - set(allow)
        if extra or 'loop' in a.opaque:
            return UNKNOWN, f'operators without a fixed meaning: {sorted(extra) or ["loop"]}'
        if ('offset-slice' in a.kinds) != ('offset-slice' in b.kinds):
            if not same(x, y):
                return UNKNOWN, 'shifted slices on one side only'
        decided += 1
        if not same(x, y):
            return DIFFER, f'{V.show(got, 7)[:300]}  is not  {V.show(want, 7)[:300]}'
        if a.axes and b.axes and a.axes != b.axes and min(a.axes | b.axes) >= 0:
            return DIFFER, f'reduced over axis {sorted(a.axes)} instead of {sorted(b.axes)}: {V.show(got, 7)[:300]}'
        # lengths: only comparable when reductions are written with the same operators
        try:
            c, d = Model(s, 3.7, domain=domain), Model(s, 3.7, domain=domain)
            x, y = c.ev(got), d.ev(want)
            if not same(x, y) and 'accum' not in c.reds | d.reds:
                return DIFFER, f'reductions differ: {V.show(got, 7)[:300]}  is not  {V.show(want, 7)[:300]}'
        except Opaque:
            pass
        try:
            c, d = Model(s, 1.0, strict=True, domain=domain), Model(s, 1.0, strict=True, domain=domain)
            x, y = c.ev(got), d.ev(want)
            if not same(x, y) and c.kinds == d.kinds and 'slice' not in c.kinds and 'offset-slice' not in c.kinds:
                return DIFFER, f'positions differ: {V.show(got, 7)[:300]}  is not  {V.show(want, 7)[:300]}'
        except Opaque:
            pass
    if decided:
        return EQUAL, f'{decided} interpretations agree'
    return UNKNOWN, why
