"""Identity test of normal forms by random interpretation over finite index sets.

Two closed-form normal forms denote the same function of their leaves only if
every interpretation of the leaves gives them the same value.  Leaves are
interpreted by pseudo random arrays of small random shape, loop indices by the
(small) index sets they range over, operators by their mathematical meaning.
A disagreement refutes the identity; agreement on several interpretations is
accepted (Schwartz-Zippel).  Operators without a fixed meaning make the
comparison undecided.
"""
import calendar
import hashlib
import itertools
import math
import warnings
from fractions import Fraction
from pathlib import PurePath, PurePosixPath
from types import SimpleNamespace
import numpy as np
from . import values as V

warnings.filterwarnings('ignore')
np.seterr(all='ignore')


class Opaque(Exception):
    pass


class Fault(Exception):
    """an operation that cannot be performed (shape or index error)"""


def hseed(*key):
    return int.from_bytes(hashlib.blake2b(repr(key).encode(), digest_size=8).digest(), 'big')


def ptext(e, deepness=8):
    """text of a location, or None"""
    if e.op == 'sym':
        return str(e.args[0])
    if e.op == 'attr':
        b = ptext(e.args[0])
        return None if b is None else f'{b}.{e.args[1]}'
    if e.op == 'idx' and e.args[1].op == 'const' and V.is_str(e.args[1]):
        b = ptext(e.args[0])
        return None if b is None else f'{b}[{V.cval(e.args[1])}]'
    return None


def guards(e):
    """whether a condition asks what exists rather than what it is worth"""
    while e.op == 'not':
        e = e.args[0]
    return e.op in ('isinst', 'has') or e.op == 'cmp' and e.args[0] == 'is'


_io = {}


def iotas(e):
    """loop indices occurring in a term"""
    r = _io.get(e)
    if r is None:
        stack = [e]
        while stack:
            x = stack[-1]
            if x in _io:
                stack.pop()
                continue
            ch = [c for c in V.children(x) if c not in _io]
            if ch:
                stack.extend(ch)
                continue
            stack.pop()
            s = frozenset()
            for c in V.children(x):
                s |= _io[c]
            if x.op == 'carry' or x.op == 'call' and x.args[0] == 'iotav':
                s |= {x}
            _io[x] = s
        r = _io[e]
    return r


SAFE = {'numpy.' + n for n in '''squeeze atleast_1d atleast_2d atleast_3d transpose expand_dims broadcast_to reshape ravel tile repeat outer
    kron array asarray asanyarray nonzero tril_indices triu_indices meshgrid where unique isin in1d argsort sort argmin argmax
    count_nonzero linspace einsum tensordot cross trace diag eye identity tri tril triu flip flipud fliplr rot90 roll diff gradient
    concatenate append vstack hstack stack dstack column_stack interp searchsorted logical_and logical_or logical_not logical_xor
    nan_to_num clip median std var prod cumprod cumsum full full_like array_equal allclose isclose any all average percentile
    histogram ptp dot matmul inner vdot polyfit polyval flatnonzero argwhere take split array_split delete insert
    abs sign trunc rint sinh cosh tanh log2 log1p expm1 cbrt iscomplexobj isreal real imag angle ndim shape size intersect1d union1d setdiff1d
    nansum nanmean nanmax nanmin nanstd amin amax max min sum mean result_type finfo zeros ones mod divmod fix
    linalg.inv linalg.lstsq linalg.det linalg.solve linalg.norm linalg.pinv fft.fft fft.ifft fft.fftfreq logspace bincount digitize
    correlate convolve cov corrcoef around floor_divide deg2rad rad2deg degrees radians pad moveaxis swapaxes rollaxis compress select
    heaviside geomspace ix_ extract choose lexsort partition argpartition broadcast_arrays hsplit vsplit dsplit block fmax fmin square
    positive negative reciprocal float_power fabs copysign nextafter ldexp logaddexp sinc unwrap ediff1d trapezoid nanmedian nanvar
    nanprod nancumsum nanargmin nanargmax take_along_axis unravel_index ravel_multi_index indices bitwise_and bitwise_or bitwise_xor left_shift right_shift
    isinf isneginf isposinf signbit setxor1d resize poly roots polyadd polymul polyder polyint vander quantile nanpercentile nanquantile
    linalg.eig linalg.eigh linalg.eigvals linalg.svd linalg.qr linalg.cholesky linalg.matrix_rank linalg.matrix_power linalg.multi_dot
    fft.rfft fft.irfft fft.fft2 fft.ifft2 fft.fftshift fft.ifftshift fft.rfftfreq array2string equal not_equal less less_equal greater greater_equal
    add subtract multiply divide true_divide power remainder fmod absolute arctanh arccosh broadcast_shapes isscalar mask_indices
    diag_indices diag_indices_from tril_indices_from triu_indices_from array_equiv iscomplex isrealobj empty_like'''.split()}
SAFE |= {'numpy.ma.' + n for n in 'array masked_array zeros ones masked_where masked_equal masked_invalid filled sum mean max min std getmaskarray count dot concatenate'.split()}
ITER = {'chain', 'chain.from_iterable', 'accumulate', 'islice', 'combinations', 'permutations', 'product', 'combinations_with_replacement', 'compress', 'pairwise', 'zip_longest'}
METH = {'squeeze', 'transpose', 'reshape', 'flatten', 'ravel', 'swapaxes', 'repeat', 'dot', 'argmin', 'argmax', 'argsort', 'nonzero',
    'conjugate', 'conj', 'ptp', 'var', 'round', 'clip', 'cumprod', 'diagonal', 'trace', 'take', 'compress', 'sum', 'mean', 'max', 'min',
    'std', 'any', 'all', 'cumsum', 'prod', 'filled', 'copy', 'astype', 'index', 'count', 'item'}
UF = {'sin': np.sin, 'cos': np.cos, 'tan': np.tan, 'exp': np.exp, 'log': np.log, 'log10': np.log10, 'arcsin': np.arcsin,
    'arccos': np.arccos, 'arctan': np.arctan, 'arctan2': np.arctan2, 'abs': np.abs, 'floor': np.floor, 'ceil': np.ceil,
    'round': np.round, 'isnan': np.isnan, 'isfinite': np.isfinite, 'real': np.real, 'imag': np.imag, 'maximum': np.maximum,
    'minimum': np.minimum, 'mod': np.mod, 'conj': np.conj, 'exp2': np.exp2, 'sign': np.sign, 'floordiv': np.floor_divide,
    'arcsinh': np.arcsinh, 'hypot': np.hypot, 'dot': np.dot, 'ndim': np.ndim, 'concatenate': np.concatenate,
    'sum': np.sum, 'mean': np.mean, 'max': np.max, 'min': np.min, 'median': np.median, 'std': np.std, 'prod': np.prod,
    'cumsum': np.cumsum, 'any': np.any, 'all': np.all, 'invert': np.logical_not}


class Held:
    """value of a carried location at one iteration"""

    def __init__(self, model, term, env):
        self.todo, self.value, self.error = (model, term, env), None, None

    def settle(self):
        if self.todo is not None:
            (model, term, env), self.todo = self.todo, None
            try:
                self.value = model.ev(term, env)
            except (Opaque, Fault) as exc:
                self.error = exc

    def get(self):
        self.settle()
        if self.error is not None:
            raise self.error
        return self.value


class Model:
    def __init__(self, seed, leaves=None, funcs=None, facts=None, rand=None):
        self.seed = seed
        self.leaves = leaves or {}
        self.funcs = funcs or {}
        self.memo = {}
        self.opaque = set()
        self.steps = 0

    def rnd(self, *key):
        return 0.4 + 1.2 * (hseed(self.seed, *key) / 2.0 ** 64)

    def ev(self, e, env=()):
        """env: tuple of (iota, value) bindings"""
        fr = self.free(e)
        if env and fr:
            env = tuple((k, v) for k, v in env if k in fr)
        elif env:
            env = ()
        key = (e, env)
        m = self.memo.get(key)
        if m is not None:
            if isinstance(m[0], Exception):
                raise m[0]
            return m[0]
        self.steps += 1
        if self.steps > 300000:
            raise Opaque('evaluation budget')
        try:
            v = self._ev(e, env)
        except (Opaque, Fault) as exc:
            self.memo[key] = (exc,)
            raise
        except (IndexError, ValueError, np.linalg.LinAlgError) as exc:
            f = Fault(f'{type(exc).__name__}: {exc} in {V.show(e, 4)[:160]}')
            self.memo[key] = (f,)
            raise f
        except (TypeError, KeyError, AttributeError, ZeroDivisionError, OverflowError, RecursionError, NotImplementedError) as exc:
            o = Opaque(f'{type(exc).__name__}: {exc} in {V.show(e, 3)[:120]}')
            self.memo[key] = (o,)
            raise o
        self.memo[key] = (v,)
        return v

    def truth(self, e, env):
        v = self.ev(e, env)
        if isinstance(v, np.ndarray):
            if v.size != 1:
                raise Opaque('truth of an array')
            return bool(v.reshape(-1)[0])
        return bool(v)

    def leaf(self, e, name):
        if name in self.leaves:
            v = self.leaves[name]
            return v
        if name.startswith('?never:'):
            raise Fault(f'{name[7:]} is read and never set')
        if name.startswith('?'):
            raise Opaque(f'unknown value {name}')
        return self.rnd('leaf', name)

    def _ev(self, e, env):
        op = e.op
        if op == 'const':
            t, v = e.args
            if t == 'num':
                return int(v) if v.denominator == 1 else float(v)
            if t == 'bool':
                return bool(v)
            if t == 'NoneType':
                return None
            if t == 'float':
                return float(v)
            if t == 'complex':
                return complex(v)
            if t == 'ellipsis':
                return Ellipsis
            return v
        if op == 'carry':
            for k, v in env:
                if k is e:
                    return v.get()
            raise Opaque('a value carried by a loop')
        if op == 'sym':
            if e is V.PI:
                return math.pi
            return self.leaf(e, str(e.args[0]))
        if op == 'attr':
            p = ptext(e)
            if p is not None and p in self.leaves:
                return self.leaves[p]
            n = e.args[1]
            if e.args[0].op == 'attr' and e.args[0].args[1] in ('dtype', 'flags'):
                raise Opaque(f'attribute {n} of {e.args[0].args[1]}')
            if n in ('shape', 'ndim', 'size', 'real', 'imag', 'T', 'mask', 'data', 'dtype'):
                q = ptext(e.args[0])
                if q is None or q in self.leaves:
                    b = self.ev(e.args[0], env)
                    if isinstance(b, SimpleNamespace):
                        return getattr(b, n)
                    if n in ('mask',):
                        if isinstance(b, np.ma.MaskedArray):
                            return np.ma.getmaskarray(b)
                        raise Opaque('mask')
                    if n == 'data':
                        return np.ma.getdata(b)
                    return getattr(np.asanyarray(b), n)
            if p is not None:
                return self.leaf(e, p)
            b = self.ev(e.args[0], env)
            if isinstance(b, (SimpleNamespace, np.finfo, PurePath)) and hasattr(b, n):
                return getattr(b, n)
            raise Opaque(f'attribute {n}')
        if op == 'poly':
            tot = None
            # over a common denominator, so that whole numbers are added without rounding
            over = math.lcm(*[c.denominator for _, c in e.args[0]]) if len(e.args[0]) > 1 else 1
            over = over if over < 10**6 and all(x == 1 for m, _ in e.args[0] for _, x in m) else 1
            for m, c in e.args[0]:
                c = c * over
                t = int(c) if c.denominator == 1 else float(c)
                for a, x in m:
                    b = self.ev(a, env)
                    if b is None:
                        raise Fault(f'arithmetic on None in {V.show(e, 3)[:120]}')
                    if isinstance(b, (str, dict)):
                        raise Opaque('arithmetic on a non number')
                    if isinstance(b, (list, tuple)):
                        b = np.array(b)
                    if isinstance(b, (bool, np.bool_)):
                        b = int(b)
                    elif isinstance(b, np.ndarray) and b.dtype == bool:
                        b = b.astype(int)
                    if x == 1:
                        t = t * b
                    elif x.denominator == 1 and x > 0:
                        t = t * b ** int(x)
                    elif x.denominator == 1:
                        if isinstance(b, np.ndarray):
                            t = t / (b.astype(complex if np.iscomplexobj(b) else float) ** int(-x))
                        else:
                            if b == 0:
                                t = t * np.divide(1.0, np.float64(0.0))
                            else:
                                t = t / b ** int(-x)
                    else:
                        t = t * np.emath.power(b if isinstance(b, np.ndarray) else np.asarray(b)[()], float(x))
                tot = t if tot is None else tot + t
            return tot if over == 1 else tot / over
        if op == 'idx':
            p = ptext(e)
            if p is not None and p in self.leaves:
                return self.leaves[p]
            if p is not None and ptext(e.args[0]) not in self.leaves and e.args[0].op in ('sym', 'attr', 'idx'):
                return self.leaf(e, p)
            b = self.ev(e.args[0], env)
            if V.is_num(e.args[0]) and not isinstance(b, np.ndarray) and e.args[1].op != 'slice':
                raise Fault('index of the number ' + V.show(e.args[0]))
            return self.index(b, e.args[1], env)
        if op in ('store', 'gstore', 'lstore'):
            return self.store(e, env)
        if op == 'phi':
            c = self.ev(e.args[0], env)
            if isinstance(c, np.ndarray) and c.size != 1:
                raise Opaque('branch on an array')
            return self.ev(e.args[1] if bool(c) else e.args[2], env)
        if op == 'not':
            v = self.ev(e.args[0], env)
            return np.logical_not(v) if isinstance(v, np.ndarray) else not v
        if op in ('and', 'or'):
            out = None
            # what exists decides before what is computed from it
            for x in sorted(e.args[0], key=lambda z: not guards(z)):
                v = self.ev(x, env)
                if isinstance(v, np.ndarray) and v.ndim:
                    out = v if out is None else (np.logical_and(out, v) if op == 'and' else np.logical_or(out, v))
                    continue
                v = bool(v)
                if out is None:
                    out = v
                elif isinstance(out, np.ndarray):
                    out = np.logical_and(out, v) if op == 'and' else np.logical_or(out, v)
                else:
                    out = (out and v) if op == 'and' else (out or v)
                if op == 'and' and out is False:
                    return False
                if op == 'or' and out is True:
                    return True
            return out
        if op == 'truthy':
            h = e.args[0]
            if h.op == 'call' and h.args[0] == 'hasattr':
                q = ptext(V.attr(h.args[1][0], V.cval(h.args[1][1]))) if V.is_str(h.args[1][1]) else None
                if q is None or q.count('.') > 1:
                    b = self.ev(h.args[1][0], env)
                    if isinstance(b, SimpleNamespace):
                        return hasattr(b, V.cval(h.args[1][1]))
                if q is None:
                    raise Opaque('hasattr')
                return q in self.leaves
            q = ptext(e.args[0])
            h = e.args[0]
            own = h.op == 'attr' and h.args[1] in ('size', 'ndim', 'shape') and ptext(h.args[0]) in self.leaves
            if q is not None and q not in self.leaves and not own:
                return hseed(self.seed, 'truthy', q) % 2 == 0
            v = self.ev(e.args[0], env)
            return bool(v) if not isinstance(v, np.ndarray) or v.size == 1 else True
        if op == 'isinst':
            return self.isinst(e, env)
        if op == 'has':
            return hseed(self.seed, 'has', V.show(e)) % 2 == 0
        if op == 'cmp':
            return self.cmp(e, env)
        if op == 'tuple':
            return tuple(self.ev(x, env) for x in e.args[0])
        if op == 'list':
            return [self.ev(x, env) for x in e.args[0]]
        if op == 'slice':
            return slice(*[self.pos(self.ev(x, env)) for x in e.args])
        if op == 'fstr':
            return ''.join(str(scalar(self.ev(x, env))) for x in e.args[0])
        if op == 'call':
            return self.call(e, env)
        if op == 'ext' and e.args[0] in ('calendar.month_abbr', 'calendar.month_name'):
            return list(getattr(calendar, e.args[0].split('.')[1]))
        if op in ('ext', 'func', 'class', 'module'):
            return e
        if op in ('absent', 'unbound'):
            raise Fault('a value that was never set')
        raise Opaque(op)

    @staticmethod
    def pos(v):
        if isinstance(v, (float, np.floating)):
            if v != int(v):
                raise Opaque('fractional position')
            return int(v)
        if isinstance(v, np.ndarray) and v.ndim == 0:
            return Model.pos(v[()])
        return v

    def part(self, v):
        if isinstance(v, tuple):
            return tuple(self.part(x) for x in v)
        if isinstance(v, np.ndarray) and v.dtype.kind == 'f' and v.size and np.all(v == np.floor(v)):
            return v.astype(int)
        if isinstance(v, np.ndarray) and v.size == 0 and v.dtype.kind == 'f':
            return v.astype(int)
        return self.pos(v)

    def index(self, b, ix, env):
        i = self.part(self.ev(ix, env))
        if isinstance(b, (list, tuple)):
            if isinstance(i, (int, np.integer)):
                return b[int(i)]
            if isinstance(i, slice):
                return b[i]
            b = np.array(b)
        if isinstance(b, dict):
            return b[i]
        if isinstance(b, str):
            return b[i]
        if b is None:
            raise Fault('index of None')
        if not isinstance(b, np.ndarray):
            if isinstance(b, (int, float, complex, np.generic)):
                parts = i if isinstance(i, tuple) else (i,)
                if any(isinstance(p, slice) or p is Ellipsis for p in parts) or any(p is None for p in parts):
                    return b
                raise Opaque('index of a scalar')
            if isinstance(b, V.E) and b.op == 'ext' and b.args[0] in ('numpy.c_', 'numpy.r_'):
                return getattr(np, b.args[0][6:])[i]
            raise Opaque('index of a non array')
        return b[i]

    def store(self, e, env):
        # a run of assignments made by the same loop is replayed in order
        run = [e]
        if e.op == 'lstore':
            while run[-1].args[0].op == 'lstore' and e.args[4].args[0] and run[-1].args[0].args[4].args[0][:1] == e.args[4].args[0][:1]:
                run.append(run[-1].args[0])
        base = self.ev(run[-1].args[0], env)
        if isinstance(base, (list, tuple)):
            base = np.array(base)
        if base is None:
            raise Fault(f'store into None: {V.show(e, 3)[:120]}')
        if not isinstance(base, np.ndarray):
            raise Opaque('store into a scalar')
        box = [base.copy(), True]
        jobs = [(x.args[4].args[0] if x.op == 'lstore' else (), x) for x in reversed(run)]
        self.replay(jobs, env, box)
        return box[0]

    def replay(self, jobs, env, box):
        i = 0
        while i < len(jobs):
            bs, x = jobs[i]
            if not bs:
                self.put(x, env, box)
                i += 1
                continue
            j = i
            while j < len(jobs) and jobs[j][0] and jobs[j][0][0] is bs[0]:
                j += 1
            part = [(b[1:], y) for b, y in jobs[i:j]]
            rest = tuple((k, v) for k, v in env if k is not bs[0])
            for b in self.assignments({bs[0]}, rest):
                self.replay(part, b, box)
            i = j

    def put(self, x, b, box):
        ix, val = x.args[1], x.args[2]
        if x.op in ('gstore', 'lstore') and x.args[3] is not V.TRUE and not self.truth(x.args[3], b):
            return
        i = self.part(self.ev(ix, b))
        v = self.ev(val, b)
        if v is None:
            raise Fault(f'None stored in an array of numbers: {V.show(x, 3)[:120]}')
        out = box[0]
        if isinstance(v, str) and out.dtype != object:
            raise Opaque('stored value')
        if np.iscomplexobj(v) and not np.iscomplexobj(out):
            out = out.astype(complex)
        elif box[1] and out.dtype.kind in 'iub' and np.asarray(v).dtype.kind in 'fiu' and out.dtype != np.asarray(v).dtype and \
                not isinstance(v, (bool, np.bool_)):
            out = out.astype(float)
        box[1] = False
        if x.op == 'lstore' and V.cval(x.args[5]) == 'add':
            out[i] = out[i] + v
        else:
            out[i] = v
        box[0] = out

    _fr = {}

    def free(self, e):
        r = self._fr.get(e)
        if r is not None:
            return r
        if not iotas(e):
            r = frozenset()
        elif e.op == 'call' and e.args[0] == 'iotav':
            r = frozenset({e})
            for c in e.args[1][:3]:
                r |= self.free(c)
        elif e.op == 'carry':
            r = frozenset({e})
        elif e.op == 'call' and e.args[0] == 'fold':
            its, names, inits, nexts, going, last = e.args[1]
            r = (self.free(nexts) | self.free(going) | self.free(last)) - frozenset(names.args[0]) - frozenset(its.args[0]) | self.free(inits)
            for i in its.args[0]:
                for c in i.args[1][:3]:
                    r |= self.free(c) - frozenset(its.args[0])
        elif e.op == 'call' and e.args[0] in ('accum', 'comp', 'comp*', 'flatcomp'):
            own = self.own(e.args[1][-1])
            r = frozenset()
            for c in e.args[1][:-1]:
                r |= self.free(c)
            for i in own:
                for c in i.args[1][:3]:
                    r |= self.free(c)
            r = r - own
        elif e.op == 'call' and e.args[0] == 'prefix':
            r = self.free(e.args[1][0]) | self.free(e.args[1][1])
        elif e.op == 'lstore':
            own = frozenset(e.args[4].args[0])
            r = frozenset()
            for c in e.args[1:4]:
                r |= self.free(c)
            for i in own:
                for c in i.args[1][:3]:
                    r |= self.free(c)
            r = (r - own) | self.free(e.args[0])
        else:
            r = frozenset()
            for c in V.children(e):
                r |= self.free(c)
        self._fr[e] = r
        return r

    def own(self, elem):
        """loop indices bound by a sum or comprehension"""
        if elem.op == 'call' and elem.args[0] == 'iotav':
            return {elem}
        if elem.op == 'tuple':
            return set(elem.args[0])
        return set()

    def assignments(self, fr, env, given=()):
        """every binding of the given loop indices, outer ranges first"""
        fr = set(fr)
        # ranges may mention other loop indices
        grew = True
        bound = {k for k, _ in env}
        while grew:
            grew = False
            for x in list(fr):
                for c in x.args[1][:3]:
                    for y in self.free(c):
                        if y.op == 'call' and y not in fr and y not in bound:
                            fr.add(y)
                            grew = True
        order = sorted(fr, key=lambda x: (len(iotas(x)), x.id))
        if given and set(given) == fr:
            order = list(given)

        def go(k, b):
            if k == len(order):
                yield b
                return
            x = order[k]
            lo, hi, step = [self.pos(self.ev(c, b)) for c in x.args[1][:3]]
            if step == 0:
                raise Opaque('range')
            if isinstance(hi, float) or isinstance(lo, float) or not isinstance(lo, (int, np.integer)) or not isinstance(hi, (int, np.integer)):
                raise Opaque('range bounds')
            if abs(hi - lo) > 400:
                raise Opaque('range size')
            for v in range(int(lo), int(hi), int(step)):
                yield from go(k + 1, b + ((x, v),))
        yield from go(0, env)

    def isinst(self, e, env):
        v = self.ev(e.args[0], env)
        t = e.args[1]
        if t.op != 'ext':
            return False if isinstance(v, (int, float, complex, np.ndarray, str, list, tuple, np.generic)) else \
                hseed(self.seed, 'isinst', V.show(e)) % 2 == 0
        n = str(t.args[0])
        m = {'numpy.ndarray': np.ndarray, 'list': list, 'tuple': tuple, 'str': str, 'dict': dict, 'int': int, 'float': float,
            'numpy.float64': np.float64, 'numpy.int_': np.int_, 'numpy.int64': np.int64, 'bool': bool, 'complex': complex,
            'numpy.ma.MaskedArray': np.ma.MaskedArray, 'numpy.float_': np.float64, 'numpy.ma.core.MaskedArray': np.ma.MaskedArray}.get(n)
        if m is None:
            return False if v is None or isinstance(v, (np.ndarray, float, int)) else hseed(self.seed, 'isinst', V.show(e)) % 2 == 0
        return isinstance(v, m)

    def cmp(self, e, env):
        k, a, b = e.args
        x, y = self.ev(a, env), self.ev(b, env)
        if k == 'is':
            return x is y if x is None or y is None or x is Ellipsis or y is Ellipsis or isinstance(x, bool) else x is y
        if k == '==':
            if isinstance(x, str) or isinstance(y, str):
                if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
                    raise Opaque('string comparison')
                return x == y
            if x is None or y is None or x is Ellipsis or y is Ellipsis:
                return x is y
            if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
                return list(x) == list(y)
            r = np.isclose(x, y, rtol=1e-12, atol=1e-14) if not (isinstance(x, (int, bool)) and isinstance(y, (int, bool))) else x == y
            return r if isinstance(r, np.ndarray) else bool(r)
        if k == '<':
            r = np.asarray(x) < np.asarray(y)
            return r if isinstance(r, np.ndarray) and r.ndim else bool(r)
        if k == 'in':
            if isinstance(y, (list, tuple, str, dict, set)):
                return x in y
            if isinstance(y, np.ndarray):
                return bool(np.any(y == x))
        raise Opaque(f'comparison {k}')

    def seq(self, v):
        if isinstance(v, np.ndarray) and v.ndim:
            return list(v)
        if isinstance(v, (list, tuple)):
            return list(v)
        raise Opaque('sequence')

    def call(self, e, env):
        name, args, kws = e.args
        if name in self.funcs:
            return self.funcs[name](self, [x if x.op == 'obj' else self.ev(x, env) for x in args], {k: self.ev(x, env) for k, x in kws})
        if name == 'iotav':
            for k, v in env:
                if k is e:
                    return v
            raise Opaque('index outside its loop')
        if name == 'concat':
            x, y = (self.ev(a, env) for a in args)
            return tuple(x) + tuple(y) if isinstance(x, (tuple, list)) and isinstance(y, (tuple, list)) else np.add(x, y)
        if name in ('totuple', 'aslist'):
            x = self.seq(self.ev(args[0], env))
            return tuple(x) if name == 'totuple' else x
        if name == 'zipitem':
            # the item that goes with a known one, if there are that many
            try:
                return self.index(self.ev(args[0], env), args[1], env)
            except IndexError:
                raise Opaque('length of a sequence')
        if name in ('vread', 'vstore'):
            # what shares storage is an array: a single value does not
            base = self.ev(args[0], env)
            x = self.index(base, args[1], env)
            at = self.ev(args[1], env) if args[1].op not in ('slice', 'tuple') else None
            ats = [self.ev(y, env) for y in args[1].args[0] if y.op != 'slice'] if args[1].op == 'tuple' else [at]
            if not (isinstance(x, np.ndarray) and x.ndim) or any(isinstance(y, (list, np.ndarray)) and np.ndim(y) for y in ats):
                return base if name == 'vstore' else self.ev(args[2], env)
            return x if name == 'vread' else self.store(V.mk('store', *args), env)
        if name == 'changed':
            kind, b, *a = [self.ev(x, env) for x in args]
            kw = {k: self.ev(x, env) for k, x in kws}
            if not isinstance(b, np.ndarray):
                raise Opaque('change of what is not an array')
            b = np.array(b)
            try:
                if kind == 'itemset':
                    b[a[0] if len(a) > 1 else Ellipsis] = a[-1]
                elif kind == 'resize':
                    b = np.resize(b, a[0] if len(a) == 1 else tuple(a)) if b.size >= np.prod(a) else None
                elif kind in ('fill', 'sort', 'put', 'partition'):
                    getattr(b, kind)(*a, **kw)
                elif kind.endswith('.at'):
                    getattr(np, kind.split('.')[1]).at(b, *a)
                elif kind in ('putmask', 'place', 'copyto', 'fill_diagonal', 'put_along_axis'):
                    getattr(np, kind)(b, *a, **kw)
                else:
                    raise Opaque(f'change {kind}')
            except (ValueError, IndexError, TypeError) as exc:
                raise Fault(f'{kind}: {exc}')
            if b is None:
                raise Opaque('resized')
            return b
        if name == 'text':
            # the number that is read from a printed value
            x = self.ev(args[0], env)
            if isinstance(x, np.ndarray) and x.ndim == 0:
                x = x[()]
            try:
                return float(format(x, self.ev(args[1], env)))
            except (TypeError, ValueError) as exc:
                raise Fault(f'printing: {exc}')
        if name == 'iota':
            lo, hi, step = [self.ev(x, env) for x in args[:3]]
            return np.arange(lo, hi, step)
        if name == 'fold':
            its, names, inits, nexts = [x.args[0] for x in args[:4]]
            going, last = args[4:]
            env = tuple((k, v) for k, v in env if k not in its)
            cur = {n: Held(self, x, env) for n, x in zip(names, inits)}
            for b in self.assignments(set(its), env) if its else itertools.repeat(env, 5000):
                b = tuple((k, v) for k, v in b if k not in cur) + tuple(cur.items())
                if going is not V.TRUE and not self.truth(going, b):
                    break
                stop = last is not V.FALSE and self.truth(last, b)
                old, cur = cur, {n: Held(self, x, b) for n, x in zip(names, nexts)}
                for h in cur.values():
                    h.settle()
                if stop:
                    break
                if not its and all(h.error is None and old[n].error is None and same(h.value, old[n].value, 0.0) for n, h in cur.items()):
                    raise Fault('a loop that never ends')
            else:
                if not its:
                    raise Opaque('loop without end')
            return cur[names[0]].get()
        if name == 'accum':
            d, elem = args
            own = self.own(elem)
            if not own:
                raise Opaque('loop over unknown values')
            env = tuple((k, v) for k, v in env if k not in own)
            tot = 0
            for b in self.assignments(own, env):
                tot = tot + self.ev(d, b)
            return tot
        if name == 'prefix':
            d, i = args
            cur = dict(env).get(i)
            if cur is None:
                raise Opaque('index outside its loop')
            rest = tuple((k, v) for k, v in env if k is not i)
            tot = 0
            for b in self.assignments({i}, rest):
                if dict(b)[i] == cur:
                    break
                tot = tot + self.ev(d, b)
            return tot
        if name in ('comp', 'comp*', 'flatcomp'):
            elem = args[-1]
            own = self.own(elem)
            if not own:
                raise Opaque('comprehension')
            env = tuple((k, v) for k, v in env if k not in own)
            out = []
            for b in self.assignments(own, env, elem.args[0] if elem.op == 'tuple' else ()):
                if name == 'flatcomp':
                    for s in args[:-1]:
                        out.extend(self.seq(self.ev(s, b)))
                    continue
                if args[1] is not V.TRUE and not self.truth(args[1], b):
                    continue
                v = self.ev(args[0], b)
                if name == 'comp*':
                    out.extend(v)
                else:
                    out.append(v)
            return out
        if name == 'concatseq':
            out = []
            for x in args:
                out.extend(self.seq(self.ev(x, env)))
            return out
        if name == 'append':
            return self.seq(self.ev(args[0], env)) + [self.ev(args[1], env)]
        if name == 'where' and len(args) == 3:
            return np.where(*[self.ev(x, env) for x in args])
        if name == 'lookup':
            k = self.ev(args[0], env)
            for a, b in zip(args[1::2], args[2::2]):
                if self.ev(a, env) == k:
                    return self.ev(b, env)
            raise Opaque('lookup')
        if name == 'repeat':
            return self.seq(self.ev(args[0], env)) * int(self.pos(self.ev(args[1], env)))
        if name == 'strjoin':
            return self.ev(args[0], env).join(self.seq(self.ev(args[1], env)))
        if name == 'fmt':
            return format(scalar(self.ev(args[0], env)), self.ev(args[1], env))
        if name == 'strformat':
            return self.ev(args[0], env).format(*[scalar(self.ev(x, env)) for x in args[1:]], **{k: scalar(self.ev(x, env)) for k, x in kws})
        if name == 'mapping':
            out = {}
            for k, x in zip(args[::2], args[1::2]):
                while x.op == 'phi':
                    x = x.args[1] if self.truth(x.args[0], env) else x.args[2]
                if x is not V.ABSENT:
                    out[self.ev(k, env)] = self.ev(x, env)
            return out
        a = [self.ev(x, env) for x in args]
        kw = {k: self.ev(x, env) for k, x in kws}
        if name == 'len':
            if isinstance(a[0], (np.ndarray,)) and a[0].ndim == 0:
                raise Opaque('length of a scalar')
            return len(a[0])
        if name == 'int':
            return np.asarray(a[0]).astype(int)[()] if isinstance(a[0], np.ndarray) else int(a[0])
        if name == 'bool':
            return np.asarray(a[0]).astype(bool)[()]
        if name == 'numpy.finfo' and name not in self.funcs:
            # the precision argument is a type or an array type
            return np.finfo(np.float32 if args and '32' in V.show(args[0]) else np.float64)
        if name == 'full':
            sh = a[0]
            sh = tuple(int(self.pos(x)) for x in sh) if isinstance(sh, (tuple, list, np.ndarray)) and np.ndim(sh) else int(self.pos(sh))
            like = np.dtype(a[2]) if len(a) > 2 and isinstance(a[2], str) else np.asarray(a[2]).dtype if len(a) > 2 else None
            return np.full(sh, a[1], dtype=like if like is not None and like.kind in 'bciu' else bool if isinstance(a[1], bool) else float)
        if name == 'full_like':
            return np.full(np.shape(a[0]), a[1], dtype=bool if isinstance(a[1], bool) or np.asarray(a[0]).dtype == bool else complex if np.iscomplexobj(a[0]) else float)
        if name in ('bitand', 'bitor'):
            f = np.logical_and if name == 'bitand' else np.logical_or
            if any(x is None for x in a):
                raise Fault(f'bitwise operation on None in {V.show(e, 3)[:120]}')
            if any(np.asarray(x).dtype != bool for x in a):
                if any(np.asarray(x).dtype.kind == 'f' for x in a):
                    raise Fault(f'bitwise operation on a real number in {V.show(e, 3)[:120]}')
                return (np.bitwise_and if name == 'bitand' else np.bitwise_or)(*a)
            r = f(*a)
            return r if isinstance(r, np.ndarray) and r.ndim else bool(r)
        if name == 'div':
            return np.divide(a[0], a[1])
        if name == 'pow':
            x, y = np.asarray(a[0]), np.asarray(a[1])
            if x.dtype.kind == 'c' or np.all(x >= 0) or np.all(y == np.floor(np.real(y))):
                return np.power(x.astype(float) if x.dtype.kind in 'iub' else x, y)[()]
            return np.emath.power(x, y)[()]
        if name == 'complex':
            return complex(*a) if not any(np.ndim(x) for x in a) else np.asarray(a[0]) + 1j*np.asarray(a[1] if len(a) > 1 else 0)
        if name == 'str':
            return str(a[0])
        if name == 'rest':
            return list(a[0])[a[1]:]
        if name in ('divmod', 'lshift', 'rshift', 'bitxor') and len(a) == 2:
            f = {'divmod': np.divmod, 'lshift': np.left_shift, 'rshift': np.right_shift, 'bitxor': np.bitwise_xor}[name]
            return f(*a)
        if name in ('numpy.ndindex', 'numpy.ndenumerate', 'numpy.fromiter', 'numpy.nditer'):
            if name == 'numpy.fromiter':
                return np.array(self.seq(a[0]))
            return list(np.ndindex(*a)) if name == 'numpy.ndindex' else list(np.ndenumerate(a[0])) if name == 'numpy.ndenumerate' else list(np.asarray(a[0]).flat)
        if name.startswith('itertools.') and name.split('.', 1)[1] in ITER and not any(isinstance(x, V.E) for x in a) and not any(isinstance(x, V.E) for x in kw.values()):
            f = itertools
            for part in name.split('.')[1:]:
                f = getattr(f, part)
            return list(f(*a, **kw))
        if name.startswith('numpy.') and name.count('.') == 2 and name.rsplit('.')[2] in ('reduce', 'accumulate', 'outer') and isinstance(getattr(np, name.split('.')[1], None), np.ufunc):
            return getattr(getattr(np, name.split('.')[1]), name.split('.')[2])(*a, **kw)
        if name == 'set' and a and isinstance(a[0], (list, tuple)) and any(isinstance(x, tuple) for x in a[0]):
            return sorted(set(a[0]))
        if name == 'set':
            return sorted(set(np.asarray(a[0]).ravel().tolist())) if a else []
        if name == 'setop':
            x, y = set(a[1]), set(a[2])
            return sorted({'Sub': x - y, 'BitAnd': x & y, 'BitOr': x | y, 'BitXor': x ^ y}[a[0]])
        if name in ('sortby', 'bestby'):
            xs, keys = list(a[0]), list(a[1])
            if len(xs) != len(keys):
                raise Opaque(name)
            if name == 'sortby':
                return [xs[i] for i in sorted(range(len(xs)), key=lambda i: keys[i], reverse=bool(a[2]))]
            return xs[(max if a[2] else min)(range(len(xs)), key=lambda i: keys[i])]
        if name == 'sorted' and not set(kw) - {'reverse'}:
            return sorted(self.seq(a[0]), reverse=bool(kw.get('reverse')))
        if name in UF:
            if name in ('max', 'min') and 'default' in kw and len(a) == 1:
                xs = self.seq(a[0])
                return (max if name == 'max' else min)(xs) if len(xs) else kw['default']
            if name in ('max', 'min') and len(a) > 1:
                return (max if name == 'max' else min)(a)
            if 'dtype' in kw:
                kw.pop('dtype')
            return UF[name](*[list(x) if isinstance(x, tuple) and name == 'concatenate' else x for x in a], **kw)
        if name in ('min', 'max'):
            return (min if name == 'min' else max)(*a)
        if name == '.filled' and a and not isinstance(a[0], np.ma.MaskedArray):
            return np.array(a[0])
        if name.startswith('math.') and all(isinstance(x, (int, float, np.number)) for x in a) and not kw and hasattr(math, name[5:]):
            try:
                return getattr(math, name[5:])(*a)
            except ValueError as exc:
                raise Fault(f'{name}: {exc}')
        if name in SAFE:
            f = np
            for part in name.split('.')[1:]:
                f = getattr(f, part)
            kw.pop('dtype', None) if not isinstance(kw.get('dtype'), (str, type)) else None
            a = [x for x in a if not isinstance(x, V.E)]
            return f(*a, **kw)
        if name == 'pathlib.Path':
            return PurePosixPath(*a)
        if name.startswith('.') and a and isinstance(a[0], PurePath):
            # names of files, without looking at the disk
            if name in ('.expanduser', '.absolute', '.resolve'):
                return a[0]
            if name in ('.joinpath', '.with_name', '.with_suffix', '.as_posix'):
                return getattr(a[0], name[1:])(*a[1:])
        if name.startswith('.') and name[1:] in METH:
            if isinstance(a[0], (list, tuple)) and name in ('.index', '.count'):
                return getattr(list(a[0]), name[1:])(*a[1:])
            return getattr(np.asanyarray(a[0]), name[1:])(*a[1:], **kw)
        self.opaque.add(name)
        raise Opaque(f'operator {name}')


def scalar(x):
    return x[()] if isinstance(x, np.ndarray) and x.ndim == 0 else x


EQUAL, DIFFER, UNKNOWN = 'equal', 'differ', 'unknown'


def numeric(x):
    # integers beyond 64 bits are held as objects
    if x.dtype == object and x.size and all(isinstance(i, int) for i in x.ravel()):
        return x.astype(float)
    return x


def same(x, y, tol=1e-8):
    if x is None or y is None:
        return x is y
    if isinstance(x, (str, bool)) and isinstance(y, (str, bool)):
        return x == y
    if isinstance(x, dict) or isinstance(y, dict):
        return isinstance(x, dict) and isinstance(y, dict) and x.keys() == y.keys() and all(same(x[k], y[k], tol) for k in x)
    if isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)):
        try:
            if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)) and len(x) != len(y):
                return False
            if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
                return all(same(a, b, tol) for a, b in zip(x, y))
        except TypeError:
            return False
    if isinstance(x, str) != isinstance(y, str):
        return False
    try:
        x, y = np.asanyarray(x), np.asanyarray(y)
        if x.shape != y.shape:
            return False
        x, y = numeric(x), numeric(y)
        if isinstance(x, np.ma.MaskedArray) or isinstance(y, np.ma.MaskedArray):
            mx, my = np.ma.getmaskarray(x), np.ma.getmaskarray(y)
            if mx.shape == my.shape and not np.array_equal(mx, my):
                return False
            x, y = np.ma.filled(x, 0), np.ma.filled(y, 0)
        if x.dtype.kind in 'SU' or y.dtype.kind in 'SU' or x.dtype == object or y.dtype == object:
            return bool(np.all(x == y))
        scale = max(float(np.nanmax(np.abs(y))) if y.size else 0.0, 1e-300)
        if not np.isfinite(scale):
            scale = 1.0
        return bool(np.all(np.isclose(x, y, rtol=tol, atol=tol * 1e-3 * scale, equal_nan=True)))
    except (TypeError, ValueError):
        return False


def compare(got, want, models, tol=1e-8):
    """models: callables seed -> Model; (verdict, reason)"""
    if got is want:
        return EQUAL, 'identical normal forms'
    agree = 0
    why = 'no interpretation'
    faults = 0
    for mk in models:
        m1, m2 = mk(), mk()
        try:
            y = m2.ev(want)
        except (Opaque, Fault) as exc:
            why = f'reference: {exc}'
            continue
        try:
            x = m1.ev(got)
        except Opaque as exc:
            why = str(exc)
            continue
        except Fault as exc:
            faults += 1
            why = f'fault: {exc}'
            continue
        if not same(x, y, tol):
            return DIFFER, f'{brief(x)} instead of {brief(y)} for {V.show(got, 6)[:260]}'
        agree += 1
    if faults >= 2 and not agree:
        return DIFFER, why
    if agree:
        return EQUAL, f'{agree} interpretations agree'
    return UNKNOWN, why


def brief(x):
    x = np.asarray(x) if not isinstance(x, (str, dict, list, tuple, type(None))) else x
    if isinstance(x, np.ndarray):
        return f'array{x.shape} {np.array2string(x.ravel()[:4], precision=4)}' if x.ndim else f'{x[()]:.6g}' if x.dtype.kind in 'fiu' else str(x)
    return str(x)[:80]
