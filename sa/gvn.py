"""Gated value numbering over the Python syntax tree.

A flow-sensitive dataflow analysis: each variable, object attribute, dictionary
entry and array is mapped to a canonical value number (see ``values``).
Control-flow joins produce gated phi nodes; loops are summarised by one generic
iteration with loop-carried placeholders.  There is no path enumeration, no
solver and nothing of the analysed program is executed.
"""
import ast
import itertools
import types
from fractions import Fraction
from . import values as V
from .values import E, mk, const
from .project import Module, Class, Func, External, ValueBinding, PKG


# classes of which no text, number, tuple or None is an instance
NOTCONST = {'io.IOBase', 'io.RawIOBase', 'io.BufferedIOBase', 'io.TextIOBase', 'io.BytesIO', 'io.StringIO', 'io.TextIOWrapper', 'pathlib.Path', 'pathlib.PurePath', 'os.PathLike',
    'numpy.ndarray', 'datetime.datetime', 'datetime.date', 'datetime.timedelta'}


class HObj:
    """abstract heap record (immutable by convention: replace to update)"""
    __slots__ = ('kind', 'cls', 'slots', 'open', 'base', 'origin')

    def __init__(self, kind, cls=None, slots=None, open=None, base=None, origin=None):
        self.kind, self.cls = kind, cls
        self.slots = slots or {}
        self.open, self.base, self.origin = open, base, origin

    def with_slot(self, k, v):
        d = dict(self.slots)
        d[k] = v
        return HObj(self.kind, self.cls, d, self.open, self.base, self.origin)

    def without(self, k):
        d = dict(self.slots)
        d.pop(k, None)
        return HObj(self.kind, self.cls, d, self.open, self.base, self.origin)


class State:
    __slots__ = ('env', 'heap', 'pc', 'facts')

    def __init__(self, env, heap, pc, facts):
        self.env, self.heap, self.pc, self.facts = env, heap, pc, facts

    def clone(self):
        return State(dict(self.env), dict(self.heap), list(self.pc), self.facts.copy())

    def assume(self, c):
        if c is V.TRUE:
            return
        self.pc.append(c)
        self.facts.add(c)


class Frame:
    def __init__(self, func, module, cls=None, parent=None, callnode=None):
        self.func, self.module, self.cls = func, module, cls
        self.parent, self.callnode = parent, callnode
        self.returns = []
        self.raises = []
        self.loops = []
        self.depth = 0 if parent is None else parent.depth + 1
        self.iotas = list(parent.iotas) if parent else []
        self.yields = []
        self.globals_env = None

    @property
    def name(self):
        return self.func.qual if self.func else self.module.name

    def chain(self):
        out = []
        f = self
        while f is not None:
            out.append(f.name)
            f = f.parent
        return out[::-1]


class Result:
    def __init__(self, value, state, frame):
        self.value, self.state, self.frame = value, state, frame


HEAP_EVENTS = {'extmethod', 'call', 'extcall', 'nokey', 'store', 'return', 'raise'}


class Event:
    __slots__ = ('kind', 'frame', 'node', 'data', 'pc', 'facts', 'heap', 'caught')

    def __init__(self, kind, frame, node, data, state):
        self.kind, self.frame, self.node, self.data = kind, frame, node, data
        self.pc = tuple(state.pc) if state is not None else ()
        self.facts = state.facts if state is not None else None
        self.caught = frozenset()
        self.heap = dict(state.heap) if state is not None and kind in HEAP_EVENTS else None


IDENT_FUNCS = {
    'numpy.copy', 'numpy.array', 'numpy.asarray', 'numpy.ascontiguousarray', 'numpy.squeeze',
    'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.atleast_3d', 'numpy.float64',
    'numpy.float32', 'numpy.longdouble', 'numpy.int64', 'numpy.int32', 'numpy.int_', 'numpy.float_',
    'copy.copy', 'copy.deepcopy', 'numpy.transpose', 'numpy.expand_dims',
    'numpy.broadcast_to', 'numpy.reshape', 'numpy.ravel', 'numpy.asanyarray',
    'numpy.ma.array', 'numpy.ma.asarray', 'numpy.ma.masked_array', 'numpy.nan_to_num_',
    'numpy.tile', 'numpy.repeat',
}
FRESH_FUNCS = {'numpy.copy', 'numpy.array', 'copy.copy', 'copy.deepcopy', 'numpy.ma.array',
    'numpy.float64', 'numpy.float32', 'numpy.int64', 'numpy.tile', 'numpy.repeat'}
IDENT_METHODS = {'copy', 'astype', 'squeeze', 'flatten', 'ravel', 'reshape', 'transpose',
    'view', 'item', 'tolist', 'filled', 'swapaxes', 'conjugate_', 'repeat'}
FRESH_METHODS = {'copy', 'astype', 'flatten', 'repeat', 'filled', 'tolist'}
INPLACE = {'numpy.putmask', 'numpy.place', 'numpy.put', 'numpy.copyto', 'numpy.fill_diagonal', 'numpy.put_along_axis', 'numpy.random.shuffle'}
# functions of one and of two arrays: an array that follows these takes the result
ONES = {f'numpy.{x}' for x in ('sin cos tan exp log log10 arcsin arccos arctan abs fabs absolute floor ceil sqrt square negative radians degrees deg2rad '
    'rad2deg conjugate exp2 sign reciprocal rint trunc isnan isfinite logical_not invert cosh sinh tanh log1p expm1').split()}
TWOS = {f'numpy.{x}' for x in ('add subtract multiply divide true_divide power mod remainder fmod floor_divide maximum minimum arctan2 hypot '
    'logical_or logical_and bitwise_or bitwise_and fmax fmin').split()}
ZERO_FUNCS = {'numpy.zeros', 'numpy.zeros_like', 'numpy.ma.zeros', 'numpy.empty', 'numpy.empty_like',
    'numpy.ma.empty', 'numpy.ma.zeros_like'}
ONE_FUNCS = {'numpy.ones', 'numpy.ones_like', 'numpy.ma.ones'}
UFUNC = {'numpy.sin': 'sin', 'numpy.cos': 'cos', 'numpy.tan': 'tan', 'numpy.exp': 'exp',
    'numpy.log': 'log', 'numpy.log10': 'log10', 'numpy.arcsin': 'arcsin', 'numpy.arccos': 'arccos',
    'numpy.arctan': 'arctan', 'numpy.arctan2': 'arctan2', 'numpy.abs': 'abs', 'numpy.fabs': 'abs',
    'numpy.absolute': 'abs', 'numpy.floor': 'floor', 'numpy.ceil': 'ceil', 'numpy.round': 'round',
    'numpy.around': 'round', 'numpy.isnan': 'isnan', 'numpy.isfinite': 'isfinite',
    'numpy.real': 'real', 'numpy.imag': 'imag', 'numpy.maximum': 'maximum', 'numpy.minimum': 'minimum',
    'math.sin': 'sin', 'math.cos': 'cos', 'math.tan': 'tan', 'math.exp': 'exp', 'math.log': 'log',
    'math.floor': 'floor', 'math.ceil': 'ceil', 'math.atan2': 'arctan2', 'math.fabs': 'abs',
    'abs': 'abs', 'numpy.mod': 'mod', 'numpy.remainder': 'mod', 'numpy.fmod': 'mod',
    'numpy.conjugate': 'conj', 'numpy.conj': 'conj', 'numpy.exp2': 'exp2', 'numpy.sign': 'sign',
    'numpy.floor_divide': 'floordiv', 'math.asin': 'arcsin', 'math.acos': 'arccos', 'math.atan': 'arctan',
    'numpy.arcsinh': 'arcsinh', 'numpy.hypot': 'hypot'}
REDUCE = {'numpy.sum': 'sum', 'numpy.mean': 'mean', 'numpy.nansum': 'sum', 'numpy.max': 'max',
    'numpy.min': 'min', 'numpy.median': 'median', 'numpy.std': 'std', 'numpy.prod': 'prod',
    'numpy.cumsum': 'cumsum', 'numpy.any': 'any', 'numpy.all': 'all', 'numpy.nanmean': 'mean'}


class Limit(Exception):
    pass


SETS = {'add', 'discard', 'remove', 'update', 'clear', 'difference_update'}


def cases(ix):
    """the constants that a value may be, each with its condition"""
    if ix.op == 'const':
        return [(ix, V.TRUE)]
    if ix.op != 'phi':
        return None
    a, b = cases(ix.args[1]), cases(ix.args[2])
    if a is None or b is None or {k for k, _ in a} & {k for k, _ in b}:
        return None
    return [(k, V.b_and(ix.args[0], c)) for k, c in a] + [(k, V.b_and(V.b_not(ix.args[0]), c)) for k, c in b]


HARMLESS_DECORATORS = {'functools.wraps', 'wraps', 'functools.lru_cache', 'functools.cache', 'lru_cache', 'cache', 'staticmethod', 'classmethod', 'property'}


class Interp:
    exact = False

    def __init__(self, project, inline=None, max_depth=6, observers=(), budget=400000):
        self.p = project
        self.inline = inline or (lambda func, frame: True)
        self.opaque = {}
        self.max_depth = max_depth
        self.events = []
        self.dry = 0
        self.ids = itertools.count(1)
        self.closures = {}
        self.observers = observers
        self.steps = 0
        self.budget = budget
        self.record = True
        self.modenv = {}
        self.catching = []
        self.thrown = []
        self.no_exc = False
        self.folds = {}
        self.rt_cache = {}
        self.stand = {}
        self.escaped = []
        self.cur_loop = '0'

    # -- utilities ---------------------------------------------------------
    def event(self, kind, frame, node, state, **data):
        if self.dry or not self.record:
            return
        e = Event(kind, frame, node, data, state)
        if self.catching:
            e.caught = frozenset(x for s in self.catching for x in s)
        self.events.append(e)

    def new(self, st, kind, **kw):
        i = next(self.ids)
        st.heap[i] = HObj(kind, **kw)
        return mk('obj', i)

    def rec(self, st, v):
        if v.op == 'obj':
            return st.heap.get(v.args[0])
        return None

    def setrec(self, st, v, rec):
        st.heap[v.args[0]] = rec

    def put(self, st, v, new, sure=True):
        """other values for all of an array"""
        r = self.rec(st, v)
        if r is not None:
            self.setrec(st, v, r.with_slot('v', new))
            return True
        if self.arrays(st, v):
            c, x, y = v.args
            for z, cc in ((x, c), (y, V.b_not(c))):
                self.put(st, z, V.phi(cc, new, self.deref(st, z)), sure)
            return True
        if V.is_const(v) or v.op not in ('attr', 'sym', 'poly', 'call', 'idx', 'store', 'carry', 'phi'):
            return False
        # an array without a name of its own: everything that holds it
        c, hit = self.cell(st, new), False
        for k, x in list(st.env.items()):
            if x is v:
                st.env[k] = c
                hit = True
        for h, rr in list(st.heap.items()):
            for k, x in rr.slots.items():
                if x is v and rr.kind != 'cell':
                    st.heap[h] = st.heap[h].with_slot(k, c)
                    hit = True
        if hit:
            self.moved(st, v, c)
        return hit

    def arrays(self, st, v):
        """whether a value is one of several arrays"""
        if v.op == 'phi':
            return all(self.arrays(st, x) for x in v.args[1:])
        r = self.rec(st, v)
        return r is not None and r.kind == 'cell'

    def inplace(self, name, args, kw, st, fr, n):
        """functions and methods that change an array they are given"""
        b = st.facts.resolve(args[0])
        r = self.rec(st, b)
        if r is not None and r.kind != 'cell':
            return
        d = self.deep(st, b)
        a = [self.deep(st, x) for x in args[1:]]
        ks = {k: self.deep(st, x) for k, x in kw.items()}
        if name == 'numpy.copyto' and len(a) == 1 and 'where' not in ks or name == 'fill' and len(a) == 1:
            new = self.mkstore(d, mk('slice', V.NONE, V.NONE, V.NONE), a[0])
        elif name == 'numpy.putmask' and len(a) == 2 and V.is_const(a[1]):
            new = self.mkstore(d, a[0], a[1])
        else:
            new = mk('call', 'changed', (const(name.rsplit('.', 1)[-1] if not name.endswith('.at') else name), d, *a), tuple(sorted(ks.items())))
        self.event('store', fr, n, st, target=b, index=None, value=new, aug=True)
        if not self.put(st, b, new):
            self.lost(st, b, n)

    def moved(self, st, b, c):
        """an array got a cell of its own"""

    def lost(self, st, b, node):
        """values are given to an array that is not followed"""

    def cell(self, st, value, shape=None):
        slots = {'v': value}
        if shape is not None:
            slots['shape'] = shape
        return self.new(st, 'cell', slots=slots)

    def deref(self, st, v):
        """value number of an array cell"""
        v = st.facts.resolve(v)
        if v.op == 'obj':
            r = st.heap.get(v.args[0])
            if r is not None and r.kind == 'cell':
                return st.facts.resolve(r.slots['v'])
        elif v.op == 'phi':
            a, b = self.deref(st, v.args[1]), self.deref(st, v.args[2])
            if a is not v.args[1] or b is not v.args[2]:
                return V.phi(v.args[0], a, b)
        return v

    def deep(self, st, v, depth=0):
        """replace cells and displayed containers by their contents"""
        v = self.deref(st, v)
        if v.op == 'obj' and depth < 4:
            r = st.heap.get(v.args[0])
            if r is not None and r.kind == 'list' and 'items' in r.slots:
                return mk('tuple', tuple(self.deep(st, x, depth + 1) for x in r.slots['items'].args[0]))
            if r is not None and r.kind == 'list' and 'many' in r.slots:
                return mk('many', self.deep(st, r.slots['many'], depth + 1))
        if v.op == 'tuple' and depth < 4:
            return mk('tuple', tuple(self.deep(st, x, depth + 1) for x in v.args[0]))
        if v.op == 'phi' and depth < 4:
            return V.phi(v.args[0], self.deep(st, v.args[1], depth + 1), self.deep(st, v.args[2], depth + 1))
        return v

    # -- entry points ----------------------------------------------------------
    def run(self, func, args=None, self_value=None, assume=(), kwargs_open=True, prep=None):
        """analyse a function as an entry point with symbolic parameters"""
        args = dict(args or {})
        st = State({}, {}, [], V.Facts())
        fr = Frame(func, func.module, func.cls)
        params = func.params + func.kwonly
        first = func.params[0] if func.params else None
        is_method = func.cls is not None and not func.is_static
        defaults = func.defaults()
        for p in params:
            if is_method and p == first:
                if func.is_classmethod:
                    st.env[p] = mk('class', func.cls.qual)
                    self.closures[st.env[p]] = func.cls
                elif self_value is not None:
                    st.env[p] = self_value(self, st) if callable(self_value) else self_value
                else:
                    st.env[p] = self.new(st, 'inst', cls=func.cls, open='attr', base=V.sym('self'))
                continue
            if p in args:
                v = args[p]
                st.env[p] = v(self, st) if callable(v) else v
            else:
                st.env[p] = V.sym(p)
        if func.vararg:
            v = args.get('*' + func.vararg)
            st.env[func.vararg] = (v(self, st) if callable(v) else v) if v is not None else V.sym(func.vararg)
        if func.kwarg:
            slots = {}
            for k, v in args.items():
                if k.startswith('**'):
                    slots[const(k[2:])] = v(self, st) if callable(v) else v
            st.env[func.kwarg] = self.new(st, 'dict', slots=slots,
                open='entry' if kwargs_open else None, base=V.sym(func.kwarg))
        # names of the function that a nested one is written in
        outer = func.outer
        while outer is not None:
            for p in self.locals_of(outer) | set(outer.params + outer.kwonly) | {outer.vararg, outer.kwarg}:
                if p and p not in st.env and p not in self.locals_of(func):
                    st.env[p] = V.sym(f'{outer.name}:{p}')
            outer = outer.outer
        if prep:
            prep(self, st)
        for a in assume:
            st.assume(a)
        self.entry = dict(st.env)
        self.entry_frame = fr
        return self.exec_function(func, st, fr)

    def body(self, func):
        return func.node.body

    def exec_function(self, func, st, fr):
        end = self.block(self.body(func), st, fr)
        rets = list(fr.returns)
        if end is not None:
            rets.append((V.NONE, end))
        if fr.yields:
            val = mk('call', 'generator', tuple(fr.yields), ())
            rets = [(val, s) for _, s in rets]
        if not rets:
            return Result(None, None, fr)
        v, s = self.merge_many(rets)
        return Result(v, s, fr)

    # -- merging ------------------------------------------------------------------
    def merge_many(self, items):
        """items: list of (value, state) -> merged (value, state)"""
        if len(items) == 1:
            return items[0]
        states = [s for _, s in items]
        n = 0
        first = states[0].pc
        while all(len(s.pc) > n for s in states) and all(s.pc[n] is first[n] for s in states):
            n += 1
        forms = [V.b_and(*s.pc[n:]) for s in states]
        val, cur = items[-1]
        acc = forms[-1]
        for (v, s), f in zip(reversed(items[:-1]), reversed(forms[:-1])):
            cond = f
            # simplify the gate when the alternatives are complementary
            gate = self._gate(f, acc)
            cur = self.merge2(s, cur, gate)
            val = V.phi(gate, v, val)
            acc = V.b_or(f, acc)
        base = State(cur.env, cur.heap, list(first[:n]), V.Facts())
        for c in base.pc:
            base.facts.add(c)
        if acc is not V.TRUE:
            acc = self._simplify_or(acc)
            base.assume(acc)
        return val, base

    @staticmethod
    def _simplify_or(acc):
        # (c and X) or (not c and Y)  with X, Y trivially true collapse in b_or
        return acc

    @staticmethod
    def _gate(f, other):
        """shortest literal of f that is refuted by the other alternative"""
        if f.op == 'and':
            for lit in f.args[0]:
                neg = V.b_not(lit)
                if other is neg or (other.op == 'and' and neg in other.args[0]):
                    return lit
                if other.op == 'or' and all(x is neg or (x.op == 'and' and neg in x.args[0]) for x in other.args[0]):
                    return lit
        return f

    def merge2(self, s1, s2, cond):
        env = {}
        for k in set(s1.env) | set(s2.env):
            a, b = s1.env.get(k, V.UNBOUND), s2.env.get(k, V.UNBOUND)
            env[k] = a if a is b else V.phi(cond, a, b)
        heap = {}
        for k in set(s1.heap) | set(s2.heap):
            a, b = s1.heap.get(k), s2.heap.get(k)
            if a is None or b is None or a is b:
                heap[k] = a or b
                continue
            slots = {}
            for s in set(a.slots) | set(b.slots):
                x, y = a.slots.get(s, V.ABSENT), b.slots.get(s, V.ABSENT)
                if x is y:
                    slots[s] = x
                elif s == 'items' and x is not V.ABSENT and y is not V.ABSENT and len(x.args[0]) == len(y.args[0]):
                    slots[s] = mk('list', tuple(p if p is q else V.phi(cond, p, q) for p, q in zip(x.args[0], y.args[0])))
                elif s in ('items', 'many'):
                    slots.pop('items', None)
                    slots['many'] = mk('join', V.ZERO if x is V.ABSENT else x, V.ZERO if y is V.ABSENT else y)
                else:
                    slots[s] = V.phi(cond, x, y)
            if 'many' in slots:
                slots.pop('items', None)
            heap[k] = HObj(a.kind, a.cls, slots, a.open or b.open, a.base, a.origin)
        return State(env, heap, s1.pc, s1.facts)

    # -- statements -----------------------------------------------------------------
    def block(self, stmts, st, fr):
        for s in stmts:
            if st is None:
                return None
            self.steps += 1
            if self.steps > self.budget:
                raise Limit(f'analysis budget exceeded in {fr.name}')
            st = self.stmt(s, st, fr)
            if st is not None and st.facts.bad:
                return None
        return st

    def stmt(self, s, st, fr):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.event('unsupported', fr, s, st)
            return st
        return m(s, st, fr)

    def s_Pass(self, s, st, fr):
        return st

    def s_Import(self, s, st, fr):
        for al in s.names:
            name = al.asname or al.name.split('.')[0]
            ent = self.p.module_entity(al.name if al.asname else al.name.split('.')[0])
            st.env[name] = self.entity_value(ent)
        return st

    def s_ImportFrom(self, s, st, fr):
        base = self.p._absolute(fr.module, s)
        m = self.p.modules.get(base)
        for al in s.names:
            ent = self.p.resolve_name(m, al.name) if m else External(f'{base}.{al.name}')
            st.env[al.asname or al.name] = self.entity_value(ent)
        return st

    def s_Global(self, s, st, fr):
        return st

    s_Nonlocal = s_Global

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            if s.value.value is not None:
                fr.yields.append(self.deep(st, self.ev(s.value.value, st, fr)))
            return st
        if isinstance(s.value, ast.Constant):
            return st
        self.ev(s.value, st, fr)
        return st

    def s_FunctionDef(self, s, st, fr):
        f = None
        for g in fr.module.functions:
            if g.node is s:
                f = g
        v = mk('func', f'{fr.name}.<local>.{s.name}@{s.lineno}')
        f = f or Func(fr.module, s, outer=fr.func)
        self.closures[v] = (f, st.env, fr, {p: self.ev(d, st, fr) for p, d in f.defaults().items()})
        for d in reversed(s.decorator_list if self.exact else []):
            if ast.unparse(d).split('(')[0] not in HARMLESS_DECORATORS:
                v = self.apply(self.ev(d, st, fr), [v], {}, False, st, fr, d)
        st.env[s.name] = v
        return st

    def s_ClassDef(self, s, st, fr):
        st.env[s.name] = V.sym(f'localclass:{s.name}')
        return st

    def s_Return(self, s, st, fr):
        v = self.ev(s.value, st, fr) if s.value is not None else V.NONE
        if not st.facts.bad:
            fr.returns.append((v, st))
        self.event('return', fr, s, st, value=v)
        return None

    def s_Raise(self, s, st, fr):
        exc = self.ev(s.exc, st, fr) if s.exc is not None else V.NONE
        fr.raises.append((exc, tuple(st.pc), s))
        self.event('raise', fr, s, st, exc=exc)
        return None

    def s_Assert(self, s, st, fr):
        c = V.truthy(self.deep(st, self.ev(s.test, st, fr)))
        v = st.facts.eval(c)
        if v is False:
            return None
        st.assume(c)
        return st

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env[t.id] = V.UNBOUND
            elif isinstance(t, ast.Attribute):
                b = st.facts.resolve(self.ev(t.value, st, fr))
                r = self.rec(st, b)
                if self.exact and r is not None and r.kind == 'inst' and t.attr in r.slots:
                    self.setrec(st, b, r.without(t.attr))
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st, fr)
                k = self.index(t.slice, st, fr)
                r = self.rec(st, b)
                if r is not None and r.kind == 'dict':
                    self.setrec(st, b, r.with_slot(k, V.ABSENT))
                elif r is not None and r.kind == 'list' and self.exact:
                    self.drop(st, b, r, k)
        return st

    def drop(self, st, b, r, k):
        """a list without some of its items"""
        whole = k.op == 'slice' and k.args[2] in (V.NONE, V.ONE) and all(x is V.NONE or V.is_num(x) for x in k.args)
        if 'items' in r.slots and (V.is_num(k) or whole):
            it = list(r.slots['items'].args[0])
            try:
                del it[int(V.cval(k)) if V.is_num(k) else slice(*[None if x is V.NONE else int(V.cval(x)) for x in k.args])]
                self.setrec(st, b, r.with_slot('items', mk('list', tuple(it))))
                return
            except IndexError:
                pass
        if 'seq' in r.slots and k in (V.ZERO, const(-1)):
            ix = mk('slice', V.ONE, V.NONE, V.NONE) if k is V.ZERO else mk('slice', V.NONE, k, V.NONE)
            self.setrec(st, b, r.with_slot('seq', self.plain_idx(r.slots['seq'], ix)))
            return
        self.setrec(st, b, HObj('list', r.cls, {'many': mk('opaque', 'del')}, r.open, r.base, r.origin))

    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr, s)
        return st

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr, s)
        return st

    def s_AugAssign(self, s, st, fr):
        t = s.target
        given = self.ev(s.value, st, fr)
        def result(cur):
            v = self.operated(s.op, cur, given, st, fr, s)
            return self.binop(s.op, self.deref(st, cur), self.deref(st, given), st) if v is None else v
        if isinstance(t, ast.Name):
            cur = self.load(t.id, st, fr, t)
            r = self.rec(st, cur)
            if r is not None and r.kind == 'list' and isinstance(s.op, ast.Add):
                self.list_extend(st, cur, given)
                return st
            val = result(cur)
            if self.arrays(st, cur):
                self.put(st, cur, val, sure=False)
                self.event('store', fr, s, st, target=cur, index=None, value=val, aug=True)
            else:
                st.env[t.id] = val
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st, fr)
            cur = self.getattr(base, t.attr, st, fr, t)
            r = self.rec(st, cur)
            if r is not None and r.kind == 'list' and isinstance(s.op, ast.Add):
                self.list_extend(st, cur, given)
                return st
            val = result(cur)
            if self.arrays(st, cur):
                self.put(st, cur, val, sure=False)
            else:
                self.setattr(base, t.attr, val, st, fr, s)
            self.event('augattr', fr, s, st, base=base, attr=t.attr, value=val)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, fr)
            ix = self.index(t.slice, st, fr)
            cur = self.getitem(base, ix, st, fr, t)
            val = result(cur)
            r = self.rec(st, cur)
            if self.arrays(st, cur):
                self.put(st, cur, val, sure=False)
            else:
                self.setitem(base, ix, val, st, fr, s)
        return st

    def assign(self, t, v, st, fr, stmt):
        if isinstance(t, ast.Name):
            if v is V.UNBOUND:
                v = V.sym('?unbound')
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = st.facts.resolve(v)
            d = self.deref(st, v)
            r = self.rec(st, v)
            items = None
            if d.op == 'tuple':
                items = list(d.args[0])
            elif r is not None and r.kind == 'list' and 'items' in r.slots:
                items = list(r.slots['items'].args[0])
            elif d.op == 'phi':
                items = self._split_phi(d, len(t.elts), st)
            elif r is not None and r.kind == 'inst' and r.cls is not None:
                items = self.iterate_instance(v, r, st, fr, stmt)
            elif d.op == 'call' and d.args[0] in ('zip', 'enumerate', 'dictitems', 'dictkeys', 'dictvalues'):
                items = self.known_items(d, st)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            self.event('unpack', fr, stmt, st, value=d, n=len(t.elts), star=bool(star),
                have=None if items is None else len(items))
            if d in self.opaque:
                self.event('resultkey', fr, stmt, st, base=d, key=None, n=len(t.elts), star=bool(star), decided=st.facts.copy())
            if items is not None and not star and len(items) == len(t.elts):
                for e, x in zip(t.elts, items):
                    self.assign(e, x, st, fr, stmt)
            elif items is not None and len(star) == 1 and len(items) >= len(t.elts) - 1:
                k, n = star[0], len(t.elts) - 1 - star[0]
                for e, x in zip(t.elts[:k], items):
                    self.assign(e, x, st, fr, stmt)
                self.assign(t.elts[k].value, self.new(st, 'list', slots={'items': mk('list', tuple(items[k:len(items) - n]))}), st, fr, stmt)
                for e, x in zip(t.elts[k + 1:], items[len(items) - n:]):
                    self.assign(e, x, st, fr, stmt)
            elif items is not None and (len(items) != len(t.elts) or star) and self.missing(st, fr, stmt, 'ValueError'):
                return
            elif d is V.NONE and self.missing(st, fr, stmt, 'TypeError'):
                return
            else:
                for i, e in enumerate(t.elts):
                    if isinstance(e, ast.Starred):
                        self.assign(e.value, mk('call', 'rest', (d, const(i)), ()), st, fr, stmt)
                    else:
                        if len(t.elts) == 1 and not (self.stand and d.op == 'idx'):
                            # single element unpacking keeps the value
                            self.assign(e, self.iter_elem(v, st, fr), st, fr, stmt)
                        else:
                            self.assign(e, self.getitem(v, const(i), st, fr, t), st, fr, stmt)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, st, fr)
            self.setattr(base, t.attr, v, st, fr, stmt)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, st, fr)
            ix = self.index(t.slice, st, fr)
            self.setitem(base, ix, v, st, fr, stmt)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr, stmt)

    def _split_phi(self, d, n, st):
        c, a, b = d.args
        xs = []
        for z in (a, b):
            z = self.deref(st, z)
            if z.op == 'tuple' and len(z.args[0]) == n:
                xs.append(list(z.args[0]))
            elif z.op == 'phi':
                w = self._split_phi(z, n, st)
                if w is None:
                    return None
                xs.append(w)
            else:
                xs.append([self.plain_idx(z, const(i)) for i in range(n)])
        return [V.phi(c, x, y) for x, y in zip(*xs)]

    # -- branching ----------------------------------------------------------------
    def cond(self, node, st, fr):
        """truth value (E boolean) of an expression, resolved with the facts"""
        v = self.ev(node, st, fr)
        return self.truth(v, st)

    def truth(self, v, st):
        c = self._truth(v, st, 12)
        k = st.facts.eval(c)
        if k is True:
            return V.TRUE
        if k is False:
            return V.FALSE
        return c

    def _truth(self, v, st, depth):
        d = self.deref(st, v)
        r = self.rec(st, d)
        if r is not None and r.kind == 'list' and 'items' in r.slots:
            return V.TRUE if r.slots['items'].args[0] else V.FALSE
        if r is not None and r.kind == 'list' and isinstance(r.slots.get('seq'), V.E):
            return V.truthy(r.slots['seq'])
        if r is not None and r.kind == 'dict' and r.open is None:
            vals = list(r.slots.values())
            if all(x is V.ABSENT for x in vals):
                return V.FALSE
            if any(x is not V.ABSENT and not (x.op == 'phi' and V.contains(x, V.ABSENT)) for x in vals):
                return V.TRUE
            return mk('truthy', d)
        if r is not None and r.kind == 'inst':
            return V.TRUE if not self.p.find_method(r.cls, '__len__') else mk('truthy', r.base or d)
        if d.op == 'phi' and depth:
            c, x, y = d.args
            return V.b_or(V.b_and(c, self._truth(x, st, depth - 1)),
                          V.b_and(V.b_not(c), self._truth(y, st, depth - 1)))
        return V.truthy(d)

    def alternatives(self, st, v):
        """[(extended facts, gate, alternative)] of a gated value, feasible ones only"""
        c, x, y = v.args
        out = []
        for lit, z in ((c, x), (V.b_not(c), y)):
            if z in (V.UNBOUND, V.ABSENT):
                continue
            f = st.facts.copy()
            f.add(lit)
            if not f.bad:
                out.append((f, lit, z))
        return out

    def per_alternative(self, st, v, fn):
        """apply fn to every feasible alternative of a phi and rejoin"""
        alts = self.alternatives(st, v)
        vals = []
        for f, lit, z in alts:
            saved, st.facts = st.facts, f
            n = len(st.pc)
            st.pc.append(lit)
            try:
                vals.append(fn(z))
            finally:
                bad = st.facts.bad
                st.facts = saved
                del st.pc[n:]
        if len(vals) == 1:
            return vals[0]
        if not vals:
            return V.sym('?infeasible')
        return V.phi(v.args[0], vals[0], vals[1])

    def s_If(self, s, st, fr):
        c = self.cond(s.test, st, fr)
        self.event('if', fr, s, st, cond=c)
        if c is V.TRUE:
            return self.block(s.body, st, fr)
        if c is V.FALSE:
            return self.block(s.orelse, st, fr)
        a, b = st, st.clone()
        a = a.clone()
        a.assume(c)
        b.assume(V.b_not(c))
        ra = None if a.facts.bad else self.block(s.body, a, fr)
        rb = None if b.facts.bad else self.block(s.orelse, b, fr)
        if ra is None:
            return rb
        if rb is None:
            return ra
        return self.merge_many([(V.NONE, ra), (V.NONE, rb)])[1]

    def s_Match(self, s, st, fr):
        subj = self.deref(st, self.ev(s.subject, st, fr))
        outs = []
        cur = st
        for case in s.cases:
            if cur is None:
                break
            c = self.pattern(case.pattern, subj, cur, fr)
            if case.guard is not None:
                c = V.b_and(c, self.cond(case.guard, cur, fr))
            a = cur.clone()
            a.assume(c)
            if not a.facts.bad:
                r = self.block(case.body, a, fr)
                if r is not None:
                    outs.append((V.NONE, r))
            if c is V.TRUE:
                cur = None
                break
            cur = cur.clone()
            cur.assume(V.b_not(c))
            if cur.facts.bad:
                cur = None
        if cur is not None:
            outs.append((V.NONE, cur))
        if not outs:
            return None
        return self.merge_many(outs)[1]

    def pattern(self, p, subj, st, fr):
        if isinstance(p, ast.MatchValue):
            return V.cmp('==', subj, self.deref(st, self.ev(p.value, st, fr)))
        if isinstance(p, ast.MatchSingleton):
            return V.cmp('is', subj, const(p.value))
        if isinstance(p, ast.MatchOr):
            return V.b_or(*[self.pattern(x, subj, st, fr) for x in p.patterns])
        if isinstance(p, ast.MatchAs):
            if p.name:
                st.env[p.name] = subj
            return V.TRUE if p.pattern is None else self.pattern(p.pattern, subj, st, fr)
        return mk('truthy', mk('call', 'match', (subj, V.sym(ast.unparse(p))), ()))

    def s_Try(self, s, st, fr):
        before = st.clone()
        c = mk('truthy', mk('call', 'exc', (V.sym(f'{fr.name}:{s.lineno}'),), ()))
        start = st.clone()
        nret, nraise = len(fr.returns), len(fr.raises)
        names = set()
        for h in s.handlers:
            if h.type is None:
                names.add('BaseException')
            else:
                for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
                    names |= {ast.unparse(t), ast.unparse(t).rsplit('.', 1)[-1]}
        self.catching.append(names)
        try:
            body = self.block(s.body, start, fr)
        finally:
            self.catching.pop()
        if self.no_exc and body is not None:
            # the body is taken to complete: handlers are not analysed
            if s.orelse:
                body = self.block(s.orelse, body, fr)
            if body is not None and s.finalbody:
                body = self.block(s.finalbody, body, fr)
            return body
        if self.no_exc and self.thrown and self.thrown[-1]:
            # every path of the body raises an error that is caught
            return None
        # an exception may leave the body anywhere: join entry and exit
        if body is not None:
            exc_state = self.merge2(before.clone(), body.clone(),
                mk('truthy', mk('call', 'excpoint', (V.sym(f'{fr.name}:{s.lineno}'),), ())))
            exc_state = State(exc_state.env, exc_state.heap, list(before.pc), before.facts.copy())
        else:
            exc_state = before.clone()
        outs = []
        ok = body
        if ok is not None:
            ok.assume(V.b_not(c))
            if s.orelse:
                ok = self.block(s.orelse, ok, fr)
        if ok is not None:
            outs.append((V.NONE, ok))
        for i, h in enumerate(s.handlers):
            hs = exc_state.clone()
            hs.assume(c)
            if i or len(s.handlers) > 1:
                hs.assume(mk('truthy', mk('call', 'handler', (V.sym(f'{fr.name}:{s.lineno}:{i}'),), ())))
            if h.name:
                hs.env[h.name] = V.sym('exc')
            self.event('handler', fr, h, hs, trynode=s)
            r = self.block(h.body, hs, fr)
            if r is not None:
                outs.append((V.NONE, r))
        if not outs:
            if s.finalbody:
                self.block(s.finalbody, before.clone(), fr)
            return None
        out = self.merge_many(outs)[1]
        if s.finalbody:
            out = self.block(s.finalbody, out, fr)
        return out

    s_TryStar = s_Try

    def s_With(self, s, st, fr):
        for it in s.items:
            v = self.ev(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr, s)
        return self.block(s.body, st, fr)

    s_AsyncWith = s_With

    # -- loops ----------------------------------------------------------------------
    def s_Break(self, s, st, fr):
        if fr.loops:
            fr.loops[-1]['breaks'].append(st)
        return None

    def s_Continue(self, s, st, fr):
        if fr.loops:
            fr.loops[-1]['continues'].append(st)
        return None

    def s_For(self, s, st, fr):
        it = self.iterable(self.ev(s.iter, st, fr), st, fr, s)
        seq = self.known_items(it, st)
        if seq is not None and len(seq) == 0:
            return self.block(s.orelse, st, fr) if s.orelse else st
        if seq is not None and len(seq) <= (200 if self.stand else 24) and self.unrollable(s, seq):
            return self.unroll(s, seq, st, fr)
        return self.loop(s, st, fr, it)

    def iterable(self, v, st, fr, node):
        return v

    def s_While(self, s, st, fr):
        return self.loop(s, st, fr, None)

    def unrollable(self, s, seq):
        n = sum(1 for _ in ast.walk(s))
        return n * len(seq) < (60000 if self.stand else 6000)

    def unroll(self, s, seq, st, fr):
        ctx = {'breaks': [], 'continues': [], 'unrolled': True}
        fr.loops.append(ctx)
        outs = []
        for x in seq:
            if st is None:
                break
            ctx['continues'] = []
            self.assign(s.target, x, st, fr, s)
            st = self.block(s.body, st, fr)
            ends = [(V.NONE, c) for c in ctx['continues']]
            if st is not None:
                ends.append((V.NONE, st))
            st = self.merge_many(ends)[1] if ends else None
        fr.loops.pop()
        if st is not None and s.orelse:
            st = self.block(s.orelse, st, fr)
        ends = [(V.NONE, b) for b in ctx['breaks']]
        if st is not None:
            ends.append((V.NONE, st))
        if not ends:
            return None
        return self.merge_many(ends)[1]

    def loop(self, s, st, fr, it):
        lid = f'{fr.name}:{s.lineno}:{s.col_offset}'
        isfor = isinstance(s, ast.For)
        nio = len(fr.iotas)
        elem = self.iter_elem(it, st, fr) if isfor else None

        def once(state, carried):
            ctx = {'breaks': [], 'continues': []}
            fr.loops.append(ctx)
            if isfor:
                self.assign(s.target, elem, state, fr, s)
            else:
                c = self.cond(s.test, state, fr)
                self.event('while', fr, s, state, cond=c)
                if c is not V.TRUE and c is not V.FALSE:
                    state.assume(c)
            end = self.block(s.body, state, fr)
            fr.loops.pop()
            outs = [(V.NONE, c) for c in ctx['continues']]
            if end is not None:
                outs.append((V.NONE, end))
            return outs, [(V.NONE, b) for b in ctx['breaks']]

        if isfor:
            fr.iotas.append(elem)
        # pass 1: discover what the body changes
        self.dry += 1
        nr, nx, ny = len(fr.returns), len(fr.raises), len(fr.yields)
        probe = st.clone()
        outs, brks = once(probe, None)
        changed_env, changed_heap = set(), {}
        for _, o in outs + brks:
            for k, v in o.env.items():
                if k in st.env and st.env[k] is not v:
                    changed_env.add(k)
            for h, r in o.heap.items():
                if h in st.heap and st.heap[h] is not r:
                    for k in set(r.slots) | set(st.heap[h].slots):
                        if r.slots.get(k) is not st.heap[h].slots.get(k):
                            changed_heap.setdefault(h, set()).add(k)
        del fr.returns[nr:], fr.raises[nx:], fr.yields[ny:]
        self.dry -= 1
        targets = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)} if isfor else set()
        # pass 2: generic iteration
        body = st.clone()
        carry = {}
        for k in changed_env:
            if k in targets:
                continue
            if st.env[k].op in ('func', 'class', 'module', 'ext'):
                continue
            c = mk('carry', lid, k)
            carry[('env', k)] = (c, st.env[k])
            if self._containerlike(st, st.env[k]):
                continue
            body.env[k] = c
        for h, ks in changed_heap.items():
            r = body.heap[h]
            for k in ks:
                init = r.slots.get(k, V.ABSENT)
                if k in ('items', 'many'):
                    continue
                c = mk('carry', lid, f'{h}.{k}')
                carry[('heap', h, k)] = (c, init)
                if init is V.ABSENT or self._containerlike(st, init):
                    continue
                r = r.with_slot(k, c)
            body.heap[h] = r
        # lists changed in the loop become sequences of a generic element
        for h, ks in changed_heap.items():
            r = body.heap[h]
            if r.kind == 'list' and ('items' in ks or 'many' in ks):
                d = dict(r.slots)
                items = d.pop('items', None)
                if items is not None and items.args[0]:
                    d['many'] = mk('join', *items.args[0][:1], V.ZERO) if len(items.args[0]) > 1 else items.args[0][0]
                elif 'many' not in d:
                    d['many'] = V.ABSENT
                body.heap[h] = HObj(r.kind, r.cls, d, r.open, r.base, r.origin)
        outs, brks = once(body, carry)
        if isfor:
            fr.iotas.pop()
        ends = outs + brks
        if not ends:
            # every iteration leaves the function: fall through when empty
            return st if isfor else None
        base_pc, base_facts = list(st.pc), st.facts
        if len(ends) == 1:
            fin = ends[0][1]
        else:
            fin = self.merge_many(ends)[1]
        fin = State(dict(fin.env), dict(fin.heap), base_pc, base_facts.copy())
        it_key = self.deref(st, it) if it is not None else V.sym('while')
        for key, (c, init) in carry.items():
            if key[0] == 'env':
                v = fin.env.get(key[1], V.UNBOUND)
                fin.env[key[1]] = self.close_carry(v, c, init, it_key, fin)
            else:
                r = fin.heap.get(key[1])
                if r is not None and key[2] in r.slots:
                    fin.heap[key[1]] = r.with_slot(key[2], self.close_carry(r.slots[key[2]], c, init, it_key, fin))
        # names first assigned under a condition that varies with the iteration
        for k, v in list(fin.env.items()):
            if k not in st.env and v.op == 'phi' and self._has_unbound(v):
                fin.env[k] = self.strip_varying(v, isfor)
        # remaining occurrences of the carries inside other values
        if isfor and s.orelse:
            fin = self.block(s.orelse, fin, fr)
        elif not isfor and s.orelse:
            fin = self.block(s.orelse, fin, fr)
        return fin

    def strip_varying(self, v, isfor):
        if v.op != 'phi' or not self._has_unbound(v):
            return v
        c, a, b = v.args
        varying = any(x.op == 'carry' or (x.op == 'call' and x.args[0] in
            ('iotav', 'anyof', 'anykey', 'anyval', 'elem', 'next')) or (x.op == 'sym' and str(x.args[0]).startswith('?'))
            for x in V.walk(c)) or not isfor
        a, b = self.strip_varying(a, isfor), self.strip_varying(b, isfor)
        if varying:
            if a is V.UNBOUND:
                return b
            if b is V.UNBOUND:
                return a
        return V.phi(c, a, b)

    def _containerlike(self, st, v):
        r = self.rec(st, v)
        return r is not None and r.kind != 'cell'

    def close_carry(self, v, c, init, it, st):
        """value after the loop of a variable whose generic body value is v"""
        if v is c:
            return init
        if not V.contains(v, c):
            return v
        if v.op == 'store' and v.args[0] is not c:
            inner = self.close_carry(v.args[0], c, init, it, st) if V.contains(v.args[0], c) else v.args[0]
            rest = (v.args[1], v.args[2])
            if not any(V.contains(x, c) for x in rest):
                return self.mkstore(inner, *rest)
        if v.op == 'store' and v.args[0] is c:
            if not V.contains(v.args[2], c):
                return self.mkstore(init, v.args[1], v.args[2])
            # accumulation into the same element: A[i] += e
            d = V.sub(v.args[2], self.plain_idx(c, v.args[1]))
            if not V.contains(d, c):
                base = self.plain_idx(init, v.args[1])
                return self.mkstore(init, v.args[1], V.add(base, d))
            return self.mkstore(init, v.args[1], V.subst(v.args[2], {c: init}))
        if v.op == 'phi' and not V.contains(v.args[0], c):
            a = self.close_carry(v.args[1], c, init, it, st)
            b = self.close_carry(v.args[2], c, init, it, st)
            return V.phi(v.args[0], a, b)
        d = V.sub(v, c)
        if not V.contains(d, c):
            return V.add(init, mk('call', 'accum', (d, it), ()))
        return mk('call', 'loop', (V.subst(v, {c: init if init is not V.UNBOUND else V.ZERO}), it), ())

    def known_items(self, it, st):
        v = self.deref(st, it)
        r = self.rec(st, v)
        if v.op == 'tuple':
            return list(v.args[0])
        if r is not None and r.kind == 'list' and 'items' in r.slots:
            return list(r.slots['items'].args[0])
        if v.op == 'call' and v.args[0] == 'set' and v.args[1] and v.args[1][0].op == 'tuple':
            return self.const_items(v.args[1][0], st)
        if self.exact and V.is_str(v) and len(V.cval(v)) <= 64:
            return [const(x) for x in V.cval(v)]
        if v.op == 'call' and v.args[0] == 'zip':
            cols = [self.known_items(x, st) for x in v.args[1]]
            if self.exact and any(c is not None for c in cols) and not all(c is not None for c in cols):
                k = min(len(c) for c in cols if c is not None)
                if k <= 16 and all(c is not None or self._seqlike(st, x) and self.deref(st, x).op != 'opaque' for c, x in zip(cols, v.args[1])):
                    cols = [c if c is not None else [mk('call', 'zipitem', (self.deep(st, self._basekey(st, x)), const(j)), ()) for j in range(k)] for c, x in zip(cols, v.args[1])]
            if all(c is not None for c in cols) and cols:
                return [mk('tuple', t) for t in zip(*cols)]
        if v.op == 'call' and v.args[0] == 'enumerate':
            col = self.known_items(v.args[1][0], st)
            if col is not None:
                lo = v.args[1][1] if len(v.args[1]) > 1 else V.ZERO
                return [mk('tuple', (V.add(lo, const(i)), x)) for i, x in enumerate(col)]
        if v.op == 'call' and v.args[0] in ('dictitems', 'dictkeys', 'dictvalues'):
            d = self.rec(st, v.args[1][0])
            if d is not None and d.kind == 'dict' and self.listed(d) and \
                    all(not (x.op == 'phi' and V.contains(x, V.ABSENT)) for x in d.slots.values()):
                ks = [(k, x) for k, x in d.slots.items() if x is not V.ABSENT]
                if v.args[0] == 'dictitems':
                    return [mk('tuple', (k, x)) for k, x in ks]
                return [k if v.args[0] == 'dictkeys' else x for k, x in ks]
        if r is not None and r.kind == 'dict' and r.open is None and \
                all(not (x.op == 'phi' and V.contains(x, V.ABSENT)) for x in r.slots.values()):
            return [k for k, x in r.slots.items() if x is not V.ABSENT]
        if v.op == 'call' and v.args[0] == 'iota':
            lo, hi, step = v.args[1][:3]
            if all(V.is_num(x) for x in (lo, hi, step)) and V.cval(step) != 0:
                n = (V.cval(hi) - V.cval(lo)) / V.cval(step)
                if n <= (64 if self.stand else 8) and V.cval(lo).denominator == 1 and V.cval(step).denominator == 1:
                    return [const(i) for i in range(int(V.cval(lo)), int(V.cval(hi)), int(V.cval(step)))]
        return None

    def iter_elem(self, it, st, fr):
        """generic element of an iterable"""
        v = self.deref(st, it)
        r = self.rec(st, v)
        if v.op == 'call':
            f, a = v.args[0], v.args[1]
            if f == 'iota':
                n = sum(1 for x in fr.iotas for y in V.walk(x) if y.op == 'call' and y.args[0] == 'iotav' and y.args[1][:3] == a[:3])
                return mk('call', 'iotav', a[:3] + (const(n),), ())
            if f == 'enumerate':
                i = mk('call', 'iotav', (V.ZERO, mk('call', 'len', (a[0],), ()), V.ONE, V.ZERO), ())
                e = self.iter_elem(a[0], st, fr) if len(a) else V.sym('?')
                return mk('tuple', (V.add(a[1], i) if len(a) > 1 else i, e))
            if f == 'zip':
                return mk('tuple', tuple(self.iter_elem(x, st, fr) for x in a))
            if f == 'dictitems':
                d = self.rec(st, a[0])
                src = (d.base if d is not None and d.base is not None else a[0])
                return mk('tuple', (mk('call', 'anykey', (src,), ()), mk('call', 'anyval', (src,), ())))
            if f in ('reversed', 'sorted', 'set', 'setop'):
                if a:
                    return self.iter_elem(a[0], st, fr)
        if r is not None and r.kind == 'list':
            if 'many' in r.slots:
                return r.slots['many'] if r.slots['many'] is not V.ABSENT else V.sym('?elem')
            items = r.slots['items'].args[0]
            if len(items) == 1:
                return items[0]
            return mk('call', 'anyof', tuple(self.deep(st, x) for x in items), ())
        if r is not None and r.kind == 'inst':
            nx = self.p.find_method(r.cls, '__next__')
            if nx is not None:
                # the documented element type of the iterator
                return self.new(st, 'inst', cls=r.cls, open='attr',
                    base=mk('call', 'next', (r.base or v,), ()))
            return mk('call', 'elem', (r.base or v,), ())
        if v.op == 'tuple':
            items = v.args[0]
            if len(items) == 1:
                return items[0]
            return mk('call', 'anyof', items, ())
        if v.op == 'many':
            return v.args[0]
        if v.op == 'const' and v.args[0] == 'str':
            return V.sym('?char')
        i = mk('call', 'iotav', (V.ZERO, mk('call', 'len', (v,), ()), V.ONE, V.ZERO), ())
        return self.plain_idx(v, i)

    # -- expressions -----------------------------------------------------------------
    def ev(self, n, st, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return mk('opaque', ast.unparse(n))
        return m(n, st, fr)

    def e_Constant(self, n, st, fr):
        return const(n.value)

    def e_Name(self, n, st, fr):
        return self.load(n.id, st, fr, n)

    def load(self, name, st, fr, node):
        if name in st.env:
            v = st.facts.resolve(st.env[name])
            if v is V.UNBOUND or (v.op == 'phi' and self._has_unbound(v)):
                v = self.check_unbound(name, v, st, fr, node)
                if v is None:
                    if self.missing(st, fr, node, 'UnboundLocalError'):
                        return V.sym('?noreturn')
                    return self.unset(name, fr)
                st.env[name] = v
            return v
        # function local never assigned on this path
        if fr.func is not None and name in self.locals_of(fr.func):
            self.event('unbound', fr, node, st, name=name, certain=True)
            if self.missing(st, fr, node, 'UnboundLocalError'):
                return V.sym('?noreturn')
            return self.unset(name, fr)
        return self.global_value(name, fr, st, node)

    def unset(self, name, fr):
        # certain when no loop of the function sets the name
        sure = fr.func is not None and name not in self.set_in_loops(fr.func)
        return V.sym(f'?never:{name}' if sure else f'?unbound:{name}')

    _sil = {}

    def set_in_loops(self, f):
        r = self._sil.get(f.node)
        if r is None:
            r = self._sil[f.node] = {y.id for x in ast.walk(f.node) if isinstance(x, (ast.For, ast.While)) for y in ast.walk(x)
                if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
        return r

    def _has_unbound(self, v, depth=0):
        if v is V.UNBOUND:
            return True
        if v.op == 'phi' and depth < 40:
            return self._has_unbound(v.args[1], depth + 1) or self._has_unbound(v.args[2], depth + 1)
        return False

    def check_unbound(self, name, v, st, fr, node):
        """report a feasible unassigned alternative; return the bound part"""
        bad = []

        def go(x, facts):
            if x is V.UNBOUND:
                bad.append(facts)
                return None
            if x.op != 'phi' or not self._has_unbound(x):
                return x
            c = x.args[0]
            fa = facts.copy()
            fa.add(c)
            fb = facts.copy()
            fb.add(V.b_not(c))
            a = None if fa.bad else go(x.args[1], fa)
            b = None if fb.bad else go(x.args[2], fb)
            if a is None:
                return b
            if b is None:
                return a
            return V.phi(c, a, b)
        out = go(v, st.facts)
        if bad and fr.iotas:
            bad = [b for b in bad if not self.first_iteration_refutes(b, fr)]
        if bad:
            self.event('unbound', fr, node, st, name=name, certain=out is None, bad=bad)
        return out

    def first_iteration_refutes(self, facts, fr):
        """a name that no enclosing iteration has assigned yet is read in the
        first iteration: the path literals must hold there"""
        sub = {}
        for it in fr.iotas:
            for x in V.walk(it):
                if x.op == 'call' and x.args[0] == 'iotav':
                    sub[x] = x.args[1][0]
        if not sub:
            return False
        for lit, want in [(x, True) for x in facts.true] + [(x, False) for x in facts.false]:
            if any(V.contains(lit, k) for k in sub):
                r = V.subst(lit, sub)
                if (r is V.FALSE and want) or (r is V.TRUE and not want):
                    return True
        return False

    def locals_of(self, func):
        c = getattr(func, '_locals', None)
        if c is None:
            c = set()
            glob = set()

            def visit(node):
                for ch in ast.iter_child_nodes(node):
                    if isinstance(ch, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                        c.add(ch.name)
                        continue
                    if isinstance(ch, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                        for w in ast.walk(ch):
                            if isinstance(w, ast.NamedExpr):
                                c.add(w.target.id)
                        continue
                    if isinstance(ch, ast.Name) and isinstance(ch.ctx, ast.Store):
                        c.add(ch.id)
                    if isinstance(ch, (ast.Import, ast.ImportFrom)):
                        for al in ch.names:
                            c.add(al.asname or al.name.split('.')[0])
                    if isinstance(ch, ast.ExceptHandler) and ch.name:
                        c.add(ch.name)
                    if isinstance(ch, (ast.Global, ast.Nonlocal)):
                        glob.update(ch.names)
                    visit(ch)
            for s in func.node.body:
                w = ast.Module(body=[s], type_ignores=[])
                visit(w)
            c -= glob
            func._locals = c
        return c

    def entity_value(self, ent):
        if ent is None:
            return V.sym('?module')
        if isinstance(ent, Module):
            v = mk('module', ent.name)
        elif isinstance(ent, Class):
            v = mk('class', ent.qual)
        elif isinstance(ent, Func):
            v = mk('func', ent.qual)
        elif isinstance(ent, External):
            return mk('ext', ent.name)
        else:
            return V.sym('?')
        self.closures[v] = ent
        return v

    def global_value(self, name, fr, st, node=None):
        ent = self.p.resolve_name(fr.module, name)
        if ent is None:
            # enclosing function scope
            if name in BUILTINS:
                return const(Ellipsis) if name == 'Ellipsis' else mk('ext', name)
            if name not in fr.module.bindings and name not in ('__name__', '__file__', '__doc__'):
                self.event('undefined', fr, node, st, name=name)
                if st is not None and self.missing(st, fr, node, 'UnboundLocalError'):
                    return V.sym('?noreturn')
            return V.sym(f'global:{name}')
        if isinstance(ent, ValueBinding):
            return self.module_value(ent, st)
        return self.entity_value(ent)

    def module_value(self, vb, st):
        if vb.node is None:
            return V.sym(f'global:{vb.module.name}.{vb.name}')
        if isinstance(vb.node, ast.Constant):
            return const(vb.node.value)
        key = (vb.module.name, vb.name)
        if isinstance(vb.node, (ast.List, ast.Tuple, ast.Dict, ast.BinOp, ast.UnaryOp)):
            fr = Frame(None, vb.module)
            tmp = State({}, st.heap, [], V.Facts())
            rec, self.record = self.record, False
            try:
                v = self.ev(vb.node, tmp, fr)
                # top-level element assignments extend the display
                for s in vb.module.tree.body:
                    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Subscript) \
                            and isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id == vb.name \
                            and s.lineno > vb.node.lineno:
                        r = self.rec(tmp, v)
                        k = self.ev(s.targets[0].slice, tmp, fr)
                        if r is not None and r.kind == 'dict' and k.op == 'const':
                            r.slots[k] = self.ev(s.value, tmp, fr)
            finally:
                self.record = rec
            return v
        return V.sym(f'global:{vb.module.name}.{vb.name}')

    def e_Attribute(self, n, st, fr):
        b = self.ev(n.value, st, fr)
        return self.getattr(b, n.attr, st, fr, n)

    def getattr(self, b, name, st, fr, node):
        b = st.facts.resolve(b)
        if b.op in ('module', 'class', 'func', 'ext'):
            ent = self.closures.get(b)
            if b.op == 'ext':
                full = f'{b.args[0]}.{name}'
                return ext_const(full)
            if isinstance(ent, Class):
                m = self.p.find_method(ent, name)
                if m is not None:
                    if m.is_static:
                        return self.entity_value(m)
                    if m.is_classmethod:
                        return mk('boundm', b, self._fv(m))
                    return self.entity_value(m)
                ca = self.p.find_class_attr(ent, name)
                if ca is not None:
                    return self.ev(ca[1], st, Frame(None, ca[0]))
                self.event('noattr', fr, node, st, base=b, attr=name, cls=ent)
                return mk('attr', b, name)
            if isinstance(ent, Module):
                r = self.p.resolve_name(ent, name)
                if r is None:
                    if name not in ent.bindings and not name.startswith('__'):
                        self.event('noattr', fr, node, st, base=b, attr=name, cls=ent)
                    return V.sym(f'global:{ent.name}.{name}')
                if isinstance(r, ValueBinding):
                    return self.module_value(r, st)
                return self.entity_value(r)
        r = self.rec(st, b)
        if r is not None:
            if r.kind == 'inst':
                return self.inst_attr(b, r, name, st, fr, node)
            if r.kind == 'cell':
                v = self.deref(st, b)
                if name == 'shape' and 'shape' in r.slots:
                    return r.slots['shape']
                if name == 'T':
                    return b
                if name in ('real', 'imag'):
                    return mk('call', name, (v,), ())
                if name == 'mask':
                    return mk('attr', v, 'mask')
                if name == 'data':
                    return b
                if name == 'ndim':
                    return self.x_numpy_ndim([b], [v], {}, st, fr, node)
                return mk('attr', v, name)
            if r.kind in ('dict', 'list'):
                return mk('attr', b, name)
        if b.op == 'phi':
            c, x, y = b.args
            if x is V.NONE or x is V.UNBOUND:
                return self.getattr(y, name, st, fr, node)
            if y is V.NONE or y is V.UNBOUND:
                return self.getattr(x, name, st, fr, node)
            rx, ry = self.rec(st, x), self.rec(st, y)
            if (rx and rx.kind in ('inst', 'cell')) or (ry and ry.kind in ('inst', 'cell')) or x.op == 'phi' or y.op == 'phi':
                return self.per_alternative(st, b, lambda z: self.getattr(z, name, st, fr, node))
        if name == 'T':
            return b
        if name == 'ndim' and b.op == 'attr' and b.args[1] in ARRAY_ATTRS:
            return self.x_numpy_ndim([b], [b], {}, st, fr, node)
        if b is V.NONE:
            self.event('noneattr', fr, node, st, attr=name)
        self.event('getattr', fr, node, st, base=b, attr=name)
        return mk('attr', b, name)

    def _fv(self, func):
        v = mk('func', func.qual)
        self.closures[v] = func
        return v

    def inst_attr(self, b, r, name, st, fr, node):
        if name in r.slots:
            v = st.facts.resolve(r.slots[name])
            if v is not V.ABSENT:
                if v.op == 'phi' and V.contains(v, V.ABSENT):
                    v = _strip(v, V.ABSENT, V.attr(r.base, name) if r.open and r.base is not None else None)
                if v is not r.slots[name] and b.op == 'obj':
                    self.setrec(st, b, r.with_slot(name, v))
                return v
        if name == '__class__':
            return mk('class', r.cls.qual)
        if name == '__dict__':
            return mk('attr', b, name)
        cls = r.cls
        m = self.p.find_method(cls, name)
        if m is not None:
            if m.is_property:
                base_key = r.base
                if r.open and base_key is not None and not self.inline_ok(m, fr):
                    return mk('attr', base_key, name)
                return self.call_func(m, [b], {}, st, fr, node, bound=True)
            if m.is_static:
                return self._fv(m)
            return mk('boundm', b, self._fv(m))
        ca = self.p.find_class_attr(cls, name)
        if ca is not None and not r.open:
            return self.ev(ca[1], st, Frame(None, ca[0]))
        if r.open:
            # lazily created attribute of an object of unknown history
            v = mk('attr', r.base, name)
            if name in ARRAY_ATTRS:
                c = self.cell(st, v)
                self.setrec(st, b, st.heap[b.args[0]].with_slot(name, c))
                return c
            return v
        if ca is not None:
            return self.ev(ca[1], st, Frame(None, ca[0]))
        self.event('noattr', fr, node, st, base=b, attr=name, cls=cls)
        if self.missing(st, fr, node, 'AttributeError', soft=cls.module.rel == '<store>'):
            return V.sym('?noreturn')
        return mk('attr', b, name)

    def missing(self, st, fr, node, exc, when=V.TRUE, soft=False):
        """an error that is certain on this path; true where the path ends here"""
        return False

    def setattr(self, b, name, v, st, fr, node):
        b = st.facts.resolve(b)
        r = self.rec(st, b)
        if r is not None and r.kind == 'inst':
            stt = self.p.find_setter(r.cls, name)
            m = self.p.find_method(r.cls, name)
            if stt is not None:
                self.call_func(stt, [b, v], {}, st, fr, node, bound=True)
                return
            if m is not None and 'property' in m.decorators:
                self.event('readonly', fr, node, st, attr=name, cls=r.cls)
                return
            self.event('setattr', fr, node, st, base=b, attr=name, value=v, old=r.slots.get(name))
            self.setrec(st, b, r.with_slot(name, v))
            return
        if b.op == 'phi':
            c, x, y = b.args
            for z, cc in ((x, c), (y, V.b_not(c))):
                rz = self.rec(st, z)
                if rz is not None and rz.kind == 'inst':
                    old = rz.slots.get(name, V.ABSENT)
                    self.setrec(st, z, rz.with_slot(name, V.phi(cc, v, old)))
            return
        self.event('setattr', fr, node, st, base=b, attr=name, value=v, old=None)
        if self.exact and name == 'mask' and (r is None or r.kind == 'cell'):
            new = mk('call', 'numpy.ma.array', (self.deref(st, b),), (('keep_mask', V.FALSE), ('mask', self.deep(st, v))))
            if not self.put(st, b, new):
                self.lost(st, b, node)

    # -- indexing -----------------------------------------------------------------
    def index(self, n, st, fr):
        if isinstance(n, ast.Slice):
            p = [self.deref(st, self.ev(x, st, fr)) if x is not None else V.NONE
                for x in (n.lower, n.upper, n.step)]
            return mk('slice', *p)
        if isinstance(n, ast.Tuple):
            return mk('tuple', tuple(self.index(x, st, fr) for x in n.elts))
        v = self.ev(n, st, fr)
        d = self.deref(st, v)
        r = self.rec(st, d)
        if r is not None and r.kind == 'list':
            d = self.deep(st, d)
            if d.op == 'tuple' and d.args[0] and not any(V.is_str(x) for x in d.args[0]):
                # a list selects several positions, not one position per axis
                d = mk('call', 'numpy.array', (d,), ())
        return d

    def e_Subscript(self, n, st, fr):
        b = self.ev(n.value, st, fr)
        ix = self.index(n.slice, st, fr)
        r = st.facts.resolve(b)
        if r in self.opaque:
            self.event('resultkey', fr, n, st, base=r, key=ix, decided=st.facts.copy())
        return self.getitem(b, ix, st, fr, n)

    def e_Slice(self, n, st, fr):
        return self.index(n, st, fr)

    def getitem(self, b, ix, st, fr, node):
        b = st.facts.resolve(b)
        r = self.rec(st, b)
        if r is not None and r.kind == 'dict':
            if ix in r.slots:
                v = st.facts.resolve(r.slots[ix])
                if v is not V.ABSENT:
                    self.event('key', fr, node, st, base=b, key=ix, value=v)
                    if v.op == 'phi' and V.contains(v, V.ABSENT):
                        if not r.open:
                            self.missing(st, fr, node, 'KeyError', _when(v, V.ABSENT))
                        if r.open and r.open != 'entry' and r.base is not None:
                            other = mk('idx', r.base, ix)
                        else:
                            # an unknown key may be that of another entry
                            other = mk('idx', b, ix) if ix.op != 'const' and len(r.slots) > 1 and any(
                                y.op == 'call' and y.args[0] in ('iotav', 'anyof', 'many', 'elem') for y in V.walk(ix)) else None
                        v = _strip(v, V.ABSENT, other)
                    return v
            if ix.op == 'const':
                if r.open == 'entry':
                    v = V.sym(V.cval(ix)) if V.is_str(ix) else mk('idx', r.base, ix)
                    return v
                if r.open:
                    return mk('idx', r.base or b, ix)
                if not r.slots.get('?'):
                    self.event('nokey', fr, node, st, base=b, key=ix, rec=r)
                    if self.missing(st, fr, node, 'KeyError'):
                        return V.sym('?noreturn')
                return mk('idx', b, ix)
            # dictionary indexed by an unknown key
            vals = [x for x in r.slots.values() if x is not V.ABSENT]
            self.event('dynkey', fr, node, st, base=b, key=ix, rec=r)
            if vals and not r.open and len(vals) <= 24:
                out = None
                for k, x in r.slots.items():
                    if x is V.ABSENT:
                        continue
                    out = x if out is None else V.phi(V.cmp('==', ix, k), x, out)
                return mk('call', 'lookup', (ix,) + tuple(t for k, x in r.slots.items()
                    for t in (k, self.deep(st, x))), ())
            return mk('idx', r.base or b, ix)
        if r is not None and r.kind == 'list':
            if 'items' in r.slots and V.is_num(ix):
                items = r.slots['items'].args[0]
                i = V.cval(ix)
                if i.denominator == 1 and -len(items) <= i < len(items):
                    return items[int(i)]
                self.event('badindex', fr, node, st, base=b, key=ix)
                if self.missing(st, fr, node, 'IndexError'):
                    return V.sym('?noreturn')
            if 'items' in r.slots and ix.op == 'slice' and all(x is V.NONE or V.is_num(x) for x in ix.args):
                sl = slice(*[None if x is V.NONE else int(V.cval(x)) for x in ix.args])
                return self.new(st, 'list', slots={'items': mk('list', r.slots['items'].args[0][sl])})
            if 'many' in r.slots and r.slots['many'] is not V.ABSENT:
                return r.slots['many']
            return mk('idx', self.deep(st, b), ix)
        if r is not None and r.kind == 'inst':
            m = self.p.find_method(r.cls, '__getitem__')
            if m is not None:
                return self.call_func(m, [b, ix], {}, st, fr, node, bound=True)
            return mk('idx', r.base or b, ix)
        if b.op == 'tuple':
            if V.is_num(ix):
                i = V.cval(ix)
                if i.denominator == 1 and -len(b.args[0]) <= i < len(b.args[0]):
                    return b.args[0][int(i)]
                self.event('badindex', fr, node, st, base=b, key=ix)
                if self.missing(st, fr, node, 'IndexError'):
                    return V.sym('?noreturn')
            if ix.op == 'slice' and all(x is V.NONE or V.is_num(x) for x in ix.args):
                sl = slice(*[None if x is V.NONE else int(V.cval(x)) for x in ix.args])
                return mk('tuple', b.args[0][sl])
        if b.op == 'phi':
            c, x, y = b.args
            rx, ry = self.rec(st, x), self.rec(st, y)
            if any(z is not None and z.kind in ('dict', 'list', 'inst') for z in (rx, ry)) or \
                    x.op in ('tuple', 'phi') or y.op in ('tuple', 'phi'):
                return self.per_alternative(st, b, lambda z: self.getitem(z, ix, st, fr, node))
        v = self.deref(st, b)
        return self.plain_idx(v, ix)

    def plain_idx(self, v, ix):
        if v is V.ZERO or v is V.ONE or V.is_num(v):
            return v
        if v.op == 'store':
            if v.args[1] is ix:
                return v.args[2]
            if _disjoint(v.args[1], ix):
                return self.plain_idx(v.args[0], ix)
        if v.op == 'tuple' and V.is_num(ix):
            i = int(V.cval(ix))
            if -len(v.args[0]) <= i < len(v.args[0]):
                return v.args[0][i]
        if v.op == 'call' and v.args[0] == 'iota' and ix.op == 'call' and ix.args[0] == 'iotav' \
                and v.args[1][0] is V.ZERO:
            return ix
        if v.op == 'phi':
            return V.phi(v.args[0], self.plain_idx(v.args[1], ix), self.plain_idx(v.args[2], ix)) \
                if v.args[1] is not V.UNBOUND and v.args[2] is not V.UNBOUND else mk('idx', v, ix)
        return mk('idx', v, ix)

    def mkstore(self, base, ix, val):
        if base.op == 'store' and base.args[1] is ix:
            return mk('store', base.args[0], ix, val)
        return mk('store', base, ix, val)

    def listed(self, d):
        """whether the keys of a dictionary are all there, one by one"""
        return d.open is None or d.open == 'dyn' and self.stand and \
            not any(looped(k) for k in d.slots if isinstance(k, V.E))

    def setitem(self, b, ix, v, st, fr, node):
        b = st.facts.resolve(b)
        r = self.rec(st, b)
        if r is not None and r.kind == 'dict':
            self.event('setkey', fr, node, st, base=b, key=ix, value=v)
            if ix.op == 'const':
                self.setrec(st, b, r.with_slot(ix, v))
            elif self.exact and (got := cases(ix)) is not None:
                # one of several keys
                for k, c in got:
                    r = r.with_slot(k, V.phi(c, v, r.slots.get(k, V.ABSENT)))
                self.setrec(st, b, r)
            else:
                d = dict(r.slots)
                d[ix] = v
                self.setrec(st, b, HObj(r.kind, r.cls, d, r.open or 'dyn', r.base, r.origin))
            return
        if r is not None and r.kind == 'list':
            if 'items' in r.slots and V.is_num(ix):
                items = list(r.slots['items'].args[0])
                i = int(V.cval(ix))
                if -len(items) <= i < len(items):
                    items[i] = v
                    self.setrec(st, b, r.with_slot('items', mk('list', tuple(items))))
                    return
            d = {k: x for k, x in r.slots.items() if k != 'items'}
            d['many'] = v
            self.setrec(st, b, HObj(r.kind, r.cls, d, r.open, r.base, r.origin))
            return
        if r is not None and r.kind == 'inst':
            m = self.p.find_method(r.cls, '__setitem__')
            if m is not None:
                self.call_func(m, [b, ix, v], {}, st, fr, node, bound=True)
            return
        val = self.deref(st, v)
        self.event('store', fr, node, st, target=b, index=ix, value=val, aug=isinstance(node, ast.AugAssign))
        if r is not None and r.kind == 'cell':
            self.put(st, b, val if _full(ix) else self.mkstore(self.deref(st, b), ix, val))
            return
        if b.op == 'phi':
            c, x, y = b.args
            for z, cc in ((x, c), (y, V.b_not(c))):
                rz = self.rec(st, z)
                if rz is not None and rz.kind == 'cell':
                    cur = self.deref(st, z)
                    new = val if _full(ix) else self.mkstore(cur, ix, val)
                    self.put(st, z, V.phi(cc, new, cur))
            return
        # store through a plain value: find the slots holding it
        if b.op in ('attr', 'sym', 'poly', 'call', 'idx', 'store', 'carry', 'const'):
            new = val if _full(ix) else self.mkstore(b, ix, val)
            c = self.cell(st, new)
            hit = False
            for k, x in list(st.env.items()):
                if x is b and not V.is_const(b):
                    st.env[k] = c
                    hit = True
            for h, rr in list(st.heap.items()):
                for k, x in rr.slots.items():
                    if x is b and rr.kind != 'cell' and not V.is_const(b):
                        st.heap[h] = st.heap[h].with_slot(k, c)
                        hit = True
            if not hit and node is not None:
                t = getattr(node, 'target', None) or (node.targets[0] if getattr(node, 'targets', None) else None)
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                    st.env[t.value.id] = c
                else:
                    self.lost(st, b, node)
            elif hit:
                self.moved(st, b, c)

    # -- operators ------------------------------------------------------------------
    def e_BinOp(self, n, st, fr):
        a = self.ev(n.left, st, fr)
        b = self.ev(n.right, st, fr)
        ra = self.rec(st, a)
        rb = self.rec(st, b)
        v = self.operated(n.op, a, b, st, fr, n)
        if v is not None:
            return v
        if isinstance(n.op, ast.Add) and ra is not None and ra.kind == 'list' and rb is not None and rb.kind == 'list' \
                and 'items' in ra.slots and 'items' in rb.slots:
            return self.new(st, 'list', slots={'items': mk('list', ra.slots['items'].args[0] + rb.slots['items'].args[0])})
        if isinstance(n.op, ast.Mult):
            for r, k in ((ra, b), (rb, a)):
                k = self.deref(st, k)
                if r is not None and r.kind == 'list' and 'items' in r.slots and V.is_num(k) and 0 <= V.cval(k) <= 64 and V.cval(k).denominator == 1:
                    return self.new(st, 'list', slots={'items': mk('list', r.slots['items'].args[0] * int(V.cval(k)))})
                if r is not None and r.kind == 'list' and 'items' in r.slots and not V.is_const(k) and self.rec(st, k) is None:
                    return self.repeated_list(st, r.slots['items'], k)
        return self.binop(n.op, self.deref(st, a), self.deref(st, b), st)

    def operated(self, op, a, b, st, fr, node):
        """an operator that the class of an operand defines"""
        name = OPERATORS.get(type(op))
        for x, y, method in ((a, b, f'__{name}__'), (b, a, f'__r{name}__')):
            r = self.rec(st, x)
            if r is not None and r.kind == 'inst' and r.cls is not None:
                m = self.p.find_method(r.cls, method)
                if m is not None:
                    return self.call_func(m, [x, y], {}, st, fr, node, bound=True)
        return None

    def repeated_list(self, st, items, k):
        return mk('call', 'mult', (self.deep(st, items), self.deep(st, k)), ())

    def binop(self, op, a, b, st):
        if a.op == 'tuple' and b.op == 'tuple' and isinstance(op, ast.Add):
            return mk('tuple', a.args[0] + b.args[0])
        if isinstance(op, ast.Add) and (sequence(a) or sequence(b)) and not V.is_num(a) and not V.is_num(b):
            return joined(a, b)
        if isinstance(op, ast.Mult) and (a.op == 'tuple' and V.is_num(b) or b.op == 'tuple' and V.is_num(a)):
            t, k = (a, b) if a.op == 'tuple' else (b, a)
            if V.cval(k).denominator == 1 and len(t.args[0])*V.cval(k) <= 200:
                return mk('tuple', t.args[0] * int(V.cval(k)))
        if V.is_str(a) and V.is_str(b) and isinstance(op, ast.Add):
            return const(V.cval(a) + V.cval(b))
        if isinstance(op, ast.Mult) and (V.is_str(a) and V.is_num(b) or V.is_num(a) and V.is_str(b)):
            t, k = (a, b) if V.is_str(a) else (b, a)
            if V.cval(k).denominator == 1 and V.cval(k) * len(V.cval(t)) <= 10000:
                return const(V.cval(t) * max(int(V.cval(k)), 0))
        if (V.is_str(a) or V.is_str(b) or a.op == 'fstr' or b.op == 'fstr') and isinstance(op, (ast.Add, ast.Mod)):
            return joint((a, b)) if isinstance(op, ast.Add) else mk('call', 'strmod', (a, b), ())
        if self.exact and isinstance(op, (ast.Sub, ast.BitAnd, ast.BitOr)) and any(x.op == 'call' and x.args[0] in ('dictkeys', 'dictitems') for x in (a, b)):
            # keys are a set
            sides = []
            for x in (a, b):
                items = self.known_items(x, st) if x.op == 'call' and x.args[0] == 'dictkeys' else None
                sides.append(x if items is None or not all(y.op == 'const' for y in items) else mk('call', 'set', (mk('tuple', tuple(items)),), ()))
            a, b = sides
        if isinstance(op, (ast.Sub, ast.BitAnd, ast.BitOr)) and all(x.op == 'call' and x.args[0] == 'set' for x in (a, b)):
            p, q = self.const_items(a, st), self.const_items(b, st)
            if p is not None and q is not None:
                r = [x for x in p if x not in q] if isinstance(op, ast.Sub) else [x for x in p if x in q] \
                    if isinstance(op, ast.BitAnd) else list(dict.fromkeys(p + q))
                return mk('call', 'set', (mk('tuple', tuple(r)),), ())
        if isinstance(op, (ast.Sub, ast.BitAnd, ast.BitOr, ast.BitXor)) and any(x.op == 'call' and x.args[0] in ('set', 'setop') for x in (a, b)):
            return mk('call', 'setop', (const(type(op).__name__), self.deep(st, a), self.deep(st, b)), ())
        if a.op == 'obj' or b.op == 'obj':
            return mk('call', type(op).__name__.lower(), (self.deep(st, a), self.deep(st, b)), ())
        if isinstance(op, ast.Add):
            return V.add(a, b)
        if isinstance(op, ast.Sub):
            return V.sub(a, b)
        if isinstance(op, ast.Mult):
            return V.mul(a, b)
        if isinstance(op, ast.Div):
            return V.div(a, b)
        if isinstance(op, ast.Pow):
            return V.powv(a, b)
        if isinstance(op, ast.FloorDiv):
            if V.is_num(a) and V.is_num(b) and V.cval(b) != 0:
                return const(V.cval(a) // V.cval(b))
            return mk('call', 'floordiv', (a, b), ())
        if isinstance(op, ast.Mod):
            if V.is_num(a) and V.is_num(b) and V.cval(b) != 0:
                return const(V.cval(a) % V.cval(b))
            return mk('call', 'mod', (a, b), ())
        if isinstance(op, (ast.BitAnd, ast.BitOr)):
            if V.is_bool(a) and V.is_bool(b) or (a.op in V.BOOLOPS and b.op in V.BOOLOPS):
                return V.b_and(a, b) if isinstance(op, ast.BitAnd) else V.b_or(a, b)
            n = 'and' if isinstance(op, ast.BitAnd) else 'or'
            if all(V.is_num(x) and not V.is_bool(x) and V.cval(x).denominator == 1 for x in (a, b)):
                x, y = int(V.cval(a)), int(V.cval(b))
                return const(Fraction(x & y if n == 'and' else x | y))
            for x, y in ((a, b), (b, a)):
                # the low bits of a whole number: x & 1 is x % 2
                if n == 'and' and V.is_num(y) and not V.is_bool(y) and V.cval(y).denominator == 1 and V.cval(y) > 0 \
                        and not int(V.cval(y)) & (int(V.cval(y)) + 1) and not V.is_bool(x) \
                        and (x.op == 'poly' or x.op == 'call' and x.args[0] in ('iotav', 'int', 'len', 'mod', 'floordiv')):
                    return mk('call', 'mod', (x, const(V.cval(y) + 1)), ())
            xs = sorted((a, b), key=lambda z: z.id)
            return mk('call', 'bit' + n, tuple(xs), ())
        if isinstance(op, ast.MatMult):
            return mk('call', 'dot', (a, b), ())
        return mk('call', type(op).__name__.lower(), (a, b), ())

    def e_UnaryOp(self, n, st, fr):
        v = self.ev(n.operand, st, fr)
        if isinstance(n.op, ast.Not):
            return V.b_not(self.truth(v, st))
        v = self.deref(st, v)
        if isinstance(n.op, ast.USub):
            return V.neg(v)
        if isinstance(n.op, ast.UAdd):
            return v
        if isinstance(n.op, ast.Invert):
            if V.is_num(v) and V.cval(v).denominator == 1:
                return const(-1 - int(V.cval(v)))
            return V.b_not(v) if V.is_bool(v) else mk('call', 'invert', (v,), ())
        return mk('call', 'unary', (v,), ())

    def e_BoolOp(self, n, st, fr):
        # value semantics of and/or with short circuit facts
        cur = None
        s2 = st
        vals = []
        conds = []
        state = st
        acc = None
        isand = isinstance(n.op, ast.And)
        work = st
        res = None
        stack = []
        for i, x in enumerate(n.values):
            v = self.ev(x, work, fr)
            t = self.truth(v, work)
            stack.append((t, v))
            if isand and t is V.FALSE or not isand and t is V.TRUE:
                break
            if i < len(n.values) - 1:
                nxt = work.clone()
                nxt.assume(t if isand else V.b_not(t))
                if nxt.facts.bad:
                    break
                # keep heap allocations made while evaluating
                work = nxt
        for k, r in work.heap.items():
            if k not in st.heap:
                st.heap[k] = r
        allbool = all(V.is_bool(self.deref(st, v)) for _, v in stack)
        if allbool:
            ts = [t for t, _ in stack]
            return V.b_and(*ts) if isand else V.b_or(*ts)
        t, v = stack[-1]
        res = v
        for t, v in reversed(stack[:-1]):
            res = V.phi(t, res, v) if isand else V.phi(t, v, res)
        return res

    def e_Compare(self, n, st, fr):
        left = self.ev(n.left, st, fr)
        out = V.TRUE
        for op, right in zip(n.ops, n.comparators):
            r = self.ev(right, st, fr)
            a, b = self.deref(st, left), self.deref(st, r)
            ra, rb = self.rec(st, a), self.rec(st, b)
            k = CMPOPS[type(op)]
            if k in ('in', 'not in') and rb is not None and rb.kind == 'dict':
                c = self.has_key(b, a, st)
                if k == 'not in':
                    c = V.b_not(c)
            elif k in ('in', 'not in') and b.op == 'call' and b.args[0] == 'dictkeys':
                c = self.has_key(b.args[1][0], a, st)
                if k == 'not in':
                    c = V.b_not(c)
            else:
                if rb is not None and rb.kind == 'list':
                    b = self.deep(st, b)
                if ra is not None and ra.kind == 'list':
                    a = self.deep(st, a)
                if k in ('is', 'is not') and (ra is not None or rb is not None) and (a is V.NONE or b is V.NONE):
                    c = V.FALSE if k == 'is' else V.TRUE
                else:
                    c = V.cmp(k, a, b)
            out = V.b_and(out, c)
            left = r
        return out

    def has_key(self, d, key, st):
        r = self.rec(st, d)
        if r is None:
            return V.cmp('in', key, d)
        if key in r.slots:
            v = st.facts.resolve(r.slots[key])
            if v is V.ABSENT:
                return V.FALSE
            if v.op == 'phi' and V.contains(v, V.ABSENT):
                return _present(v)
            return V.TRUE
        if r.open:
            return mk('has', r.base or d, key)
        if key.op == 'const':
            return V.FALSE
        return V.b_or(*[V.cmp('==', key, k) for k, x in r.slots.items() if x is not V.ABSENT])

    def e_IfExp(self, n, st, fr):
        c = self.cond(n.test, st, fr)
        if c is V.TRUE:
            return self.ev(n.body, st, fr)
        if c is V.FALSE:
            return self.ev(n.orelse, st, fr)
        a, b = st.clone(), st.clone()
        a.assume(c)
        b.assume(V.b_not(c))
        if a.facts.bad:
            return self.ev(n.orelse, st, fr)
        if b.facts.bad:
            return self.ev(n.body, st, fr)
        va = self.ev(n.body, a, fr)
        vb = self.ev(n.orelse, b, fr)
        mrg = self.merge2(a, b, c)
        st.heap.update(mrg.heap)
        for k, v in mrg.env.items():
            st.env[k] = v
        return V.phi(c, va, vb)

    def e_NamedExpr(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        st.env[n.target.id] = v
        return v

    def e_Lambda(self, n, st, fr):
        args = n.args.posonlyargs + n.args.args
        given = list(zip(args[len(args)-len(n.args.defaults):], n.args.defaults)) + [(a, d) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None]
        given = {a.arg: self.ev(d, st, fr) for a, d in given}
        name = f'{fr.name}.<lambda>@{n.lineno}:{n.col_offset}'
        for _ in range(64):
            # another function where the defaults are other ones
            v = mk('func', name)
            if v not in self.closures or self.closures[v][4] == given:
                break
            name += "'"
        self.closures[v] = ('lambda', n, st.env, fr, given)
        return v

    def e_JoinedStr(self, n, st, fr):
        parts = []
        for x in n.values:
            if isinstance(x, ast.Constant):
                parts.append(const(x.value))
            else:
                v = self.deep(st, self.ev(x.value, st, fr))
                spec = None
                if x.format_spec is not None:
                    spec = ''.join(y.value if isinstance(y, ast.Constant) else '?' for y in x.format_spec.values)
                self.event('format', fr, x, st, value=v, spec=spec)
                if spec and V.is_num(v) and '?' not in spec and (spec[-1] in 'feE' or spec[-1] == 'd' and V.cval(v).denominator == 1):
                    v = const(format(float(V.cval(v)) if spec[-1] != 'd' else int(V.cval(v)), spec))
                elif spec is None and x.conversion == -1 and V.is_num(v) and V.cval(v).denominator == 1 and 'vfs.disk' in getattr(self, 'stand', ()):
                    # counts are the only numbers of addresses
                    v = const(str(int(V.cval(v))))
                elif spec:
                    v = mk('call', 'fmt', (v, const(spec)), ())
                parts.append(v)
        return joint(parts)

    def e_FormattedValue(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def e_Tuple(self, n, st, fr):
        if any(isinstance(x, ast.Starred) for x in n.elts):
            return self._starred(n, st, fr)
        return mk('tuple', tuple(self.ev(x, st, fr) for x in n.elts))

    def _starred(self, n, st, fr):
        out = []
        for x in n.elts:
            if isinstance(x, ast.Starred):
                items = self.known_items(self.ev(x.value, st, fr), st)
                if items is None:
                    return mk('call', 'seq', tuple(self.deep(st, self.ev(y.value if isinstance(y, ast.Starred) else y, st, fr)) for y in n.elts), ())
                out.extend(items)
            else:
                out.append(self.ev(x, st, fr))
        return mk('tuple', tuple(out))

    def e_List(self, n, st, fr):
        if any(isinstance(x, ast.Starred) for x in n.elts):
            t = self._starred(n, st, fr)
            if t.op != 'tuple':
                return self.new(st, 'list', slots={'many': mk('call', 'anyof', (t,), ())})
            return self.new(st, 'list', slots={'items': mk('list', t.args[0])})
        items = tuple(self.ev(x, st, fr) for x in n.elts)
        return self.new(st, 'list', slots={'items': mk('list', items)})

    def e_Set(self, n, st, fr):
        return mk('tuple', tuple(self.ev(x, st, fr) for x in n.elts))

    def e_Dict(self, n, st, fr):
        slots = {}
        opened = None
        for k, v in zip(n.keys, n.values):
            val = self.ev(v, st, fr)
            if k is None:
                r = self.rec(st, val)
                if r is not None and r.kind == 'dict':
                    slots.update(r.slots)
                    opened = opened or r.open
                else:
                    opened = 'dyn'
            else:
                slots[self.deref(st, self.ev(k, st, fr))] = val
        return self.new(st, 'dict', slots=slots, open=opened, base=None, origin=n)

    def _comp(self, n, elt_nodes, st, fr):
        work = st.clone()
        conds = []
        nio = 0
        iters = []
        for g in n.generators:
            it = self.iterable(self.ev(g.iter, work, fr), work, fr, n)
            if nio:
                self.cur_loop = f'{n.lineno}:{n.col_offset}.{nio}'
            e = self.iter_elem(it, work, fr)
            iters.append((it, e))
            fr.iotas.append(e)
            nio += 1
            self.assign(g.target, e, work, fr, n)
            for c in g.ifs:
                cc = self.cond(c, work, fr)
                conds.append(cc)
                work.assume(cc)
        vals = [self.ev(x, work, fr) for x in elt_nodes]
        del fr.iotas[len(fr.iotas) - nio:]
        for k, r in work.heap.items():
            if k not in st.heap:
                st.heap[k] = r
        return vals, iters, conds

    def e_ListComp(self, n, st, fr):
        if len(n.generators) == 1:
            was = dict(st.heap)
            items = self.known_items(self.iterable(self.ev(n.generators[0].iter, st, fr), st, fr, n), st)
            if items is None or len(items) > (200 if self.stand else 40):
                # what an iterator or a file still has is read below
                st.heap = {**st.heap, **was}
            else:
                out, keeps = [], []
                ok = True
                for x in items:
                    w = st.clone()
                    self.assign(n.generators[0].target, x, w, fr, n)
                    keep = V.b_and(*[self.cond(c, w, fr) for c in n.generators[0].ifs])
                    if keep is V.FALSE:
                        continue
                    if keep is not V.TRUE:
                        ok = False
                        w.assume(keep)
                    keeps.append(keep)
                    out.append(self.ev(n.elt, w, fr))
                    if keep is V.TRUE and self.exact:
                        st.heap = dict(w.heap)
                    for k, r in w.heap.items():
                        if k not in st.heap:
                            st.heap[k] = r
                some = None if ok else self.partly(st, list(zip(keeps, out)))
                if some is not None:
                    return some
                if ok:
                    return self.new(st, 'list', slots={'items': mk('list', tuple(out))})
                st.heap = {**st.heap, **was}
        (v,), iters, conds = self._comp(n, [n.elt], st, fr)
        r = self.rec(st, v)
        if r is None or r.kind == 'cell':
            v = self.deref(st, v)
        slots = {'many': v}
        if len(iters) == 1 and not conds:
            slots['over'] = self.deep(st, iters[0][0])
        return self.new(st, 'list', slots=slots)

    def partly(self, st, pairs):
        return None

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, n, st, fr):
        items = self.known_items(self.iterable(self.ev(n.generators[0].iter, st, fr), st, fr, n), st) if len(n.generators) == 1 else None
        if items is not None and len(items) <= 40:
            slots = {}
            ok = True
            for x in items:
                w = st.clone()
                self.assign(n.generators[0].target, x, w, fr, n)
                keep = V.b_and(*[self.cond(c, w, fr) for c in n.generators[0].ifs])
                if keep is V.FALSE:
                    continue
                if keep is not V.TRUE:
                    w.assume(keep)
                k = self.deref(w, self.ev(n.key, w, fr))
                v = self.ev(n.value, w, fr)
                if keep is not V.TRUE:
                    if k.op != 'const':
                        ok = False
                        break
                    v = V.phi(keep, v, slots.get(k, V.ABSENT))
                slots[k] = v
                for kk, r in w.heap.items():
                    if kk not in st.heap:
                        st.heap[kk] = r
            if ok:
                return self.new(st, 'dict', slots=slots)
        (k, v), _, _ = self._comp(n, [n.key, n.value], st, fr)
        return self.new(st, 'dict', slots={self.deref(st, k): v}, open='dyn')

    def e_Starred(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def e_Await(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def e_Yield(self, n, st, fr):
        if n.value is not None:
            fr.yields.append(self.deep(st, self.ev(n.value, st, fr)))
        return V.sym('?sent')

    # -- calls ------------------------------------------------------------------------
    def e_Call(self, n, st, fr):
        # method call on an expression: evaluate the receiver once
        if isinstance(n.func, ast.Attribute):
            recv = self.ev(n.func.value, st, fr)
            recv = st.facts.resolve(recv)
            args, kw, star = self.call_args(n, st, fr)
            r = self.method(recv, n.func.attr, args, kw, star, st, fr, n)
            return r
        f = self.ev(n.func, st, fr)
        args, kw, star = self.call_args(n, st, fr)
        return self.apply(f, args, kw, star, st, fr, n)

    def call_args(self, n, st, fr):
        args, kw, star = [], {}, False
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                items = self.known_items(v, st)
                if items is None:
                    r = self.rec(st, v)
                    if r is not None and r.kind == 'inst':
                        items = self.iterate_instance(v, r, st, fr, n)
                if items is None:
                    star = True
                else:
                    args.extend(items)
            else:
                args.append(self.ev(a, st, fr))
        for k in n.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                r = self.rec(st, v)
                if r is not None and r.kind == 'dict':
                    for kk, x in r.slots.items():
                        if V.is_str(kk) and x is not V.ABSENT:
                            kw[V.cval(kk)] = x
                    if r.open:
                        kw['**'] = v
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        return args, kw, star

    def iterate_instance(self, v, r, st, fr, node):
        """items of *instance for the small fixed-size record classes"""
        it = self.p.find_method(r.cls, '__iter__')
        if it is not None and any(isinstance(x, ast.Yield) for x in ast.walk(it.node)):
            if any(isinstance(x, (ast.For, ast.While, ast.If, ast.Try, ast.YieldFrom)) for x in ast.walk(it.node)):
                return None
            g = self.call_func(it, [v], {}, st, fr, node, bound=True)
            return list(g.args[1]) if g.op == 'call' and g.args[0] == 'generator' else None
        ln = self.p.find_method(r.cls, '__len__')
        nx = self.p.find_method(r.cls, '__next__')
        if ln is None or nx is None:
            return None
        if it is not None:
            self.call_func(it, [v], {}, st, fr, node, bound=True)
        n = self.call_func(ln, [v], {}, st, fr, node, bound=True)
        n = self.deref(st, n)
        if not V.is_num(n) or V.cval(n) > 8:
            return None
        out = []
        for _ in range(int(V.cval(n))):
            out.append(self.call_func(nx, [v], {}, st, fr, node, bound=True))
        return out

    def method(self, recv, name, args, kw, star, st, fr, n):
        if recv.op in ('module', 'class', 'ext', 'func'):
            f = self.getattr(recv, name, st, fr, n.func)
            return self.apply(f, args, kw, star, st, fr, n)
        if recv.op == 'super':
            me, here = recv.args
            r = self.rec(st, me)
            mro = [c for c in self.p.mro(r.cls)] if r is not None else []
            past = [c for i, c in enumerate(mro) if any(isinstance(b, Class) and b.qual == here.args[0] for b in mro[:i])]
            for c in past:
                if not isinstance(c, Class):
                    break
                if name in c.methods:
                    return self.call_func(c.methods[name], [me] + args, kw, st, fr, n, bound=True, star=star, force=name == '__init__')
        r = self.rec(st, recv)
        if r is not None and r.kind == 'inst':
            f = self.inst_attr(recv, r, name, st, fr, n.func)
            return self.apply(f, args, kw, star, st, fr, n, recv=recv)
        if recv.op == 'phi':
            x, y = recv.args[1], recv.args[2]
            rx, ry = self.rec(st, x), self.rec(st, y)
            if x in (V.NONE, V.UNBOUND, V.ABSENT):
                return self.method(y, name, args, kw, star, st, fr, n)
            if y in (V.NONE, V.UNBOUND, V.ABSENT):
                return self.method(x, name, args, kw, star, st, fr, n)
            kinds = [z.kind for z in (rx, ry) if z is not None]
            if any(k == 'inst' for k in kinds) or x.op == 'phi' or y.op == 'phi' or 'list' in kinds or 'dict' in kinds:
                # evaluate under each gate and join the effects
                a, b = st.clone(), st.clone()
                a.assume(recv.args[0])
                b.assume(V.b_not(recv.args[0]))
                va = vb = None
                if not a.facts.bad:
                    va = self.method(x, name, args, kw, star, a, fr, n)
                if not b.facts.bad:
                    vb = self.method(y, name, args, kw, star, b, fr, n)
                if va is None and vb is None:
                    return V.sym('?')
                if va is None or vb is None:
                    src = b if va is None else a
                    st.env, st.heap = src.env, src.heap
                    return vb if va is None else va
                mrg = self.merge2(a, b, recv.args[0])
                st.env, st.heap = mrg.env, mrg.heap
                return V.phi(recv.args[0], va, vb)
        if r is not None and r.kind == 'dict':
            v = self.dict_method(recv, r, name, args, kw, st, fr, n)
            if v is not None:
                return v
        if r is not None and r.kind == 'list':
            v = self.list_method(recv, r, name, args, kw, st, fr, n)
            if v is not None:
                return v
        return self.value_method(recv, name, args, kw, st, fr, n)

    def dict_method(self, recv, r, name, args, kw, st, fr, n):
        a = [self.deref(st, x) for x in args]
        if name == 'setdefault' and a:
            dflt = args[1] if len(args) > 1 else V.NONE
            cur = r.slots.get(a[0], V.ABSENT)
            cur = st.facts.resolve(cur)
            if self.exact and (a[0].op != 'const' and cur is V.ABSENT or a[0].op == 'const' and any(k.op != 'const' for k in r.slots)):
                self.setrec(st, recv, HObj('dict', r.cls, {**r.slots, a[0]: mk('opaque', 'setdefault')}, r.open or 'dyn', r.base, r.origin))
                return mk('opaque', 'setdefault')
            self.event('setdefault', fr, n, st, base=recv, key=a[0], value=dflt, cur=cur, rec=r)
            if cur is V.ABSENT:
                if r.open == 'entry':
                    s = V.sym(V.cval(a[0])) if V.is_str(a[0]) else mk('idx', r.base, a[0])
                    val = s
                elif r.open:
                    val = V.phi(mk('has', r.base or recv, a[0]), mk('idx', r.base or recv, a[0]), dflt)
                else:
                    val = dflt
            elif cur.op == 'phi' and V.contains(cur, V.ABSENT):
                val = V.subst(cur, {V.ABSENT: dflt})
            else:
                val = cur
            self.setrec(st, recv, self.rec(st, recv).with_slot(a[0], val))
            return val
        if name in ('get', 'pop') and a:
            dflt = args[1] if len(args) > 1 else V.NONE
            cur = st.facts.resolve(r.slots.get(a[0], V.ABSENT))
            self.event('get', fr, n, st, base=recv, key=a[0])
            if a[0].op != 'const':
                return self.getitem(recv, a[0], st, fr, n)
            if cur is V.ABSENT:
                if r.open == 'entry':
                    val = V.sym(V.cval(a[0])) if V.is_str(a[0]) else mk('idx', r.base, a[0])
                elif r.open:
                    val = V.phi(mk('has', r.base or recv, a[0]), mk('idx', r.base or recv, a[0]), dflt)
                else:
                    val = dflt
            elif cur.op == 'phi' and V.contains(cur, V.ABSENT):
                val = V.subst(cur, {V.ABSENT: dflt})
            else:
                val = cur
            if name == 'pop':
                self.setrec(st, recv, self.rec(st, recv).with_slot(a[0], V.ABSENT))
            return val
        if name == 'items':
            return mk('call', 'dictitems', (recv,), ())
        if name == 'keys':
            return mk('call', 'dictkeys', (recv,), ())
        if name == 'values':
            return mk('call', 'dictvalues', (recv,), ())
        if name == 'copy':
            return self.new(st, 'dict', slots=dict(r.slots), open=r.open, base=r.base)
        if name == 'update':
            d = dict(r.slots)
            opened = r.open
            if args:
                o = self.rec(st, args[0])
                if o is not None and o.kind == 'dict':
                    d.update({k: v for k, v in o.slots.items() if v is not V.ABSENT})
                    opened = opened or o.open
                else:
                    opened = opened or 'dyn'
            for k, v in kw.items():
                d[const(k)] = v
            self.setrec(st, recv, HObj('dict', r.cls, d, opened, r.base, r.origin))
            return V.NONE
        return None

    def list_extend(self, st, recv, v):
        r = self.rec(st, recv)
        items = self.known_items(v, st)
        if items is not None and 'items' in r.slots:
            self.setrec(st, recv, r.with_slot('items', mk('list', r.slots['items'].args[0] + tuple(items))))
        else:
            d = {k: x for k, x in r.slots.items() if k not in ('items', 'over')}
            d['many'] = mk('call', 'anyof', (self.deep(st, v),), ())
            self.setrec(st, recv, HObj('list', r.cls, d, r.open, r.base, r.origin))

    def rearranged(self, recv, r, name, args, kw, st, fr, n):
        """a list whose items are put in another order, added or removed in place"""
        if 'items' not in r.slots:
            return
        it, new = r.slots['items'].args[0], None
        if not it and name in ('sort', 'reverse') or name == 'clear':
            new = ()
        elif name == 'reverse':
            new = it[::-1]
        elif name == 'sort':
            got = self.rec(st, self.x_sorted([recv], [self.deref(st, recv)], kw, st, fr, n))
            new = got.slots['items'].args[0] if got is not None and got.kind == 'list' and 'items' in got.slots else None
        elif name == 'insert' and len(args) == 2 and V.is_num(args[0]):
            k = int(V.cval(args[0]))
            new = it[:k] + (args[1],) + it[k:]
        elif name == 'remove' and len(args) == 1:
            x = self.deref(st, args[0])
            col = [self.deref(st, y) for y in it]
            if x.op == 'const' and all(y.op == 'const' for y in col) and x in col:
                k = col.index(x)
                new = it[:k] + it[k + 1:]
        if new is not None:
            self.setrec(st, recv, r.with_slot('items', mk('list', tuple(new))))
            return
        d = {k: x for k, x in r.slots.items() if k not in ('items', 'over')}
        d['many'] = mk('call', 'anyof', tuple(self.deep(st, x) for x in it), ())
        self.setrec(st, recv, HObj('list', r.cls, d, r.open, r.base, r.origin))

    def list_method(self, recv, r, name, args, kw, st, fr, n):
        if name == 'append' and args:
            if 'items' in r.slots and len(r.slots['items'].args[0]) < (400 if self.stand else 60):
                self.setrec(st, recv, r.with_slot('items', mk('list', r.slots['items'].args[0] + (args[0],))))
            else:
                d = {k: x for k, x in r.slots.items() if k not in ('items', 'over')}
                cur = d.get('many', V.ABSENT)
                x = args[0]
                d['many'] = x if cur is V.ABSENT or cur is x else mk('join', self.deep(st, cur), self.deep(st, x))
                self.setrec(st, recv, HObj('list', r.cls, d, r.open, r.base, r.origin))
            return V.NONE
        if name == 'extend' and args:
            self.list_extend(st, recv, args[0])
            return V.NONE
        if name == 'copy':
            return self.new(st, 'list', slots=dict(r.slots))
        if name in ('sort', 'reverse', 'insert', 'remove', 'clear'):
            self.rearranged(recv, r, name, args, kw, st, fr, n)
            return V.NONE
        if name == 'pop':
            if 'items' in r.slots and r.slots['items'].args[0]:
                it = r.slots['items'].args[0]
                if args and V.is_num(args[0]) and V.cval(args[0]).denominator == 1 and -len(it) <= V.cval(args[0]) < len(it):
                    k = int(V.cval(args[0])) % len(it)
                    self.setrec(st, recv, r.with_slot('items', mk('list', it[:k] + it[k + 1:])))
                    return it[k]
                if not args:
                    self.setrec(st, recv, r.with_slot('items', mk('list', it[:-1])))
                    return it[-1]
                if V.is_num(args[0]) and args[0] is V.ZERO:
                    self.setrec(st, recv, r.with_slot('items', mk('list', it[1:])))
                    return it[0]
            return mk('call', 'pop', (self.deep(st, recv),), ())
        return None

    def changed_set(self, v, name, args, st, n):
        """a set with other elements"""
        held = [k for k, x in st.env.items() if x is v] + [k for r in st.heap.values() for k, x in r.slots.items() if x is v]
        if len(held) != 1 or held[0] not in st.env or st.env[held[0]] is not v:
            self.escaped.append(f'a set changed, line {getattr(n, "lineno", 0)}')
            return mk('opaque', name)
        new = v
        if name == 'clear':
            new = self.x_set([], [], {}, st, None, n)
        for x in args:
            x = self.x_set([mk('tuple', (self.deep(st, x),)) if name in ('add', 'discard', 'remove') else x], [], {}, st, None, n)
            op = 'BitOr' if name in ('add', 'update') else 'Sub'
            if all(y.op == 'call' and y.args[0] == 'set' and y.args[1] and self.const_items(y.args[1][0], st) is not None for y in (new, x)):
                old, more = (self.const_items(y.args[1][0], st) for y in (new, x))
                items = dict.fromkeys([*old, *more]) if op == 'BitOr' else [y for y in old if y not in more]
                new = mk('call', 'set', (mk('tuple', tuple(items)),), ())
            else:
                new = mk('call', 'setop', (const(op), new, x), ())
        st.env[held[0]] = new
        return V.NONE

    def value_method(self, recv, name, args, kw, st, fr, n):
        v = self.deref(st, recv)
        a = [self.deref(st, x) for x in args]
        if name in ('fill', 'sort', 'put', 'partition', 'itemset', 'resize') and (self.rec(st, recv) is not None and self.rec(st, recv).kind == 'cell' or \
                name in ('fill', 'sort', 'put', 'partition', 'itemset') and v.op in ('sym', 'attr', 'idx', 'poly', 'store')):
            self.inplace(name, [recv, *args], kw, st, fr, n)
            return V.NONE
        if self.exact and (name in SETS and (v.op == 'call' and v.args[0] in ('set', 'setop') or v.op == 'carry' and len(args) == 1) and not kw):
            return self.changed_set(v, name, args, st, n)
        if name in IDENT_METHODS and not V.is_str(v):
            if name in FRESH_METHODS or self.rec(st, recv) is None:
                return self.cell(st, v)
            return recv
        if name in ('sum', 'mean', 'max', 'min', 'std', 'any', 'all', 'cumsum', 'prod') and v.op not in ('fstr',):
            return reduce_call(name, v, a, {k: self.deep(st, x) for k, x in kw.items()})
        if name == 'append' and v.op in ('call', 'attr', 'idx', 'sym'):
            self.event('opaque_append', fr, n, st, base=v, value=a[0] if a else None)
            return V.NONE
        if V.is_str(v):
            s = V.cval(v)
            try:
                if name in ('upper', 'lower', 'strip', 'capitalize', 'title') and not a:
                    return const(getattr(s, name)())
                if name == 'format':
                    if kw:
                        return mk('call', 'strformat', (v,) + tuple(self.deep(st, x) for x in args),
                            tuple(sorted((k, self.deep(st, x)) for k, x in kw.items())))
                    self.event('strformat', fr, n, st, fmt=v, args=[self.deep(st, x) for x in args])
                    return mk('call', 'strformat', (v,) + tuple(self.deep(st, x) for x in args), ())
                if name == 'zfill' and len(a) == 1 and V.is_num(a[0]):
                    return const(s.zfill(int(V.cval(a[0]))))
                if name == 'split' and len(a) <= 1 and all(V.is_str(x) for x in a):
                    return self.new(st, 'list', slots={'items': mk('list', tuple(const(x) for x in s.split(*[V.cval(x) for x in a])))})
                if name == 'join' and len(args) == 1:
                    return mk('call', 'strjoin', (v, self.deep(st, args[0])), ())
                if name in ('startswith', 'endswith') and len(a) == 1 and V.is_str(a[0]):
                    return V.TRUE if getattr(s, name)(V.cval(a[0])) else V.FALSE
            except Exception:
                pass
        self.event('extmethod', fr, n, st, recv=recv, name=name, args=args, kw=kw)
        self.escape('.' + name, [recv, *args, *kw.values()], st, n)
        return mk('call', '.' + name, (self.deep(st, recv),) + tuple(self.deep(st, x) for x in args),
            tuple(sorted((k, self.deep(st, x)) for k, x in kw.items())))

    def escape(self, name, values, st, node):
        """objects given to code that is not known"""

    def inline_ok(self, func, fr):
        if fr.depth >= self.max_depth:
            return False
        f = fr
        while f is not None:
            if f.func is func:
                return False
            f = f.parent
        return self.inline(func, fr)

    def apply(self, f, args, kw, star, st, fr, n, recv=None):
        f = st.facts.resolve(f)
        if f.op == 'boundm':
            ent = self.closures.get(f.args[1])
            return self.call_func(ent, [f.args[0]] + args, kw, st, fr, n, bound=True, star=star)
        if f.op == 'func':
            ent = self.closures.get(f)
            if isinstance(ent, Func):
                return self.call_func(ent, args, kw, st, fr, n, star=star)
            if isinstance(ent, tuple) and ent[0] == 'lambda':
                return self.call_lambda(ent, args, kw, st, fr)
            if isinstance(ent, tuple) and ent[0] == 'partial':
                return self.apply(ent[1], ent[2] + args, {**ent[3], **kw}, star, st, fr, n)
            if isinstance(ent, tuple):
                return self.call_func(ent[0], args, kw, st, fr, n, star=star, closure=ent)
        if f.op == 'class':
            ent = self.closures.get(f)
            if isinstance(ent, Class):
                return self.construct(ent, args, kw, st, fr, n, star)
        if f.op == 'ext':
            full = NP_ALIAS.get(f.args[0], f.args[0])
            k = 1 if full in ONES else 2 if full in TWOS else 99
            if 'out' in kw or len(args) == k + 1 and not star:
                # the result goes to an array that is there
                kw = dict(kw)
                out = kw.pop('out') if 'out' in kw else args[k]
                where = kw.pop('where', None)
                if out.op == 'tuple' and len(out.args[0]) == 1:
                    out = out.args[0][0]
                v = self.deep(st, self.ext_call(f.args[0], args[:k], kw, star, st, fr, n))
                if out is V.NONE:
                    return v if where is None else mk('call', 'somewhere', (self.deep(st, where), v), ())
                old = self.deep(st, out)
                v = self.mkstore(old, mk('slice', V.NONE, V.NONE, V.NONE), v) if where is None else mk('call', 'where', (self.deep(st, where), v, old), ())
                if not self.put(st, st.facts.resolve(out), v):
                    self.lost(st, out, n)
                return out
            return self.ext_call(f.args[0], args, kw, star, st, fr, n)
        if f.op == 'phi' and not any(x in (V.UNBOUND, V.ABSENT) for x in f.args[1:]):
            c = f.args[0]
            w, o = st.clone(), st.clone()
            w.assume(c)
            o.assume(V.b_not(c))
            va, vb = self.apply(f.args[1], args, kw, star, w, fr, n), self.apply(f.args[2], args, kw, star, o, fr, n)
            mrg = self.merge2(w, o, c)
            st.heap.update(mrg.heap)
            st.env.update(mrg.env)
            return V.phi(c, va, vb)
        if f.op == 'phi':
            va = self.apply(f.args[1], args, kw, star, st, fr, n) if f.args[1] not in (V.UNBOUND, V.ABSENT) else V.sym('?')
            vb = self.apply(f.args[2], args, kw, star, st, fr, n) if f.args[2] not in (V.UNBOUND, V.ABSENT) else V.sym('?')
            return V.phi(f.args[0], va, vb)
        self.event('unknowncall', fr, n, st, func=f, args=args, kw=kw)
        self.escape('a function that is not known', [f, *args, *kw.values()], st, n)
        return mk('call', 'apply', (f,) + tuple(self.deep(st, x) for x in args),
            tuple(sorted((k, self.deep(st, x)) for k, x in kw.items())))

    def enclosing(self, closure, st, fr):
        """the names around a nested function or lambda when it is called"""
        return dict(st.env if closure[2] is fr else closure[1])

    def call_lambda(self, ent, args, kw, st, fr):
        n = ent[1]
        saved, st.env = st.env, self.enclosing((None, ent[2], ent[3]), st, fr)
        st.env.update(ent[4])
        names = [a.arg for a in n.args.posonlyargs + n.args.args]
        st.env.update(zip(names, args))
        if n.args.vararg is not None:
            st.env[n.args.vararg.arg] = mk('tuple', tuple(args[len(names):]))
        st.env.update({k: v for k, v in kw.items() if k != '**'})
        out = self.ev(n.body, st, fr)
        st.env = saved
        return out

    def construct(self, cls, args, kw, st, fr, n, star):
        self.event('new', fr, n, st, cls=cls, args=args, kw=kw)
        obj = self.new(st, 'inst', cls=cls, origin=n)
        init = self.p.find_method(cls, '__init__')
        if self.p.foreign_base(cls):
            self.setrec(st, obj, HObj('inst', cls, {}, 'attr', mk('call', 'new:' + cls.qual, (V.sym(str(obj.args[0])),), ()), n))
        if init is not None:
            self.call_func(init, [obj] + args, kw, st, fr, n, bound=True, star=star, force=True)
        elif args or (kw and not self.p.foreign_base(cls)):
            self.event('badcall', fr, n, st, func=None, cls=cls, why='constructor takes no arguments')
        return obj

    def bind(self, func, args, kw, star, st, fr, n, bound):
        """parameter binding; returns dict or None and reports misuse"""
        a = func.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        problems = []
        env = {}
        rest = list(args)
        for p in pos:
            if rest:
                env[p] = rest.pop(0)
        extra = rest
        if extra and not func.vararg:
            problems.append(f'takes {len(pos) - (1 if bound else 0)} positional argument(s) but {len(args) - (1 if bound else 0)} were given')
        names = set(pos) | set(func.kwonly)
        extras_kw = {}
        for k, v in kw.items():
            if k == '**':
                continue
            if k in names:
                if k in env:
                    problems.append(f'multiple values for argument {k!r}')
                env[k] = v
            elif func.kwarg:
                extras_kw[k] = v
            else:
                problems.append(f'unexpected keyword argument {k!r}')
        dflt = func.defaults()
        missing = [p for p in pos + func.kwonly if p not in env and p not in dflt]
        if missing and not star and '**' not in kw:
            problems.append('missing required argument(s) ' + ', '.join(repr(m) for m in missing))
        return env, extra, extras_kw, problems

    def folded(self, func, args, kw, st):
        """value of a function of given meaning at known arguments"""
        def plain(x):
            x = self.deref(st, x)
            if x.op == 'ext':
                return types.SimpleNamespace(__name__=x.args[0])
            if x is V.NONE:
                return None
            items = None if x.op == 'const' else self.known_items(x, st)
            if items is not None:
                return [plain(y) for y in items]
            if x.op != 'const':
                raise KeyError
            v = V.cval(x)
            return (int(v) if v.denominator == 1 else float(v)) if isinstance(v, Fraction) else v

        def term(x):
            if isinstance(x, dict):
                return self.new(st, 'dict', slots={const(k): term(y) for k, y in x.items()})
            if isinstance(x, tuple):
                return mk('tuple', tuple(term(y) for y in x))
            if isinstance(x, list):
                return self.new(st, 'list', slots={'items': mk('list', tuple(term(y) for y in x))})
            if getattr(x, 'shape', None):
                if x.shape != (1,):
                    raise KeyError
                return mk('call', 'full', (mk('tuple', (V.ONE,)), const(x[0].item())), ())
            return const(x.item() if hasattr(x, 'item') else x)
        try:
            return term(self.folds[func.qual]([plain(x) for x in args], {k: plain(v) for k, v in kw.items()}))
        except (KeyError, TypeError, ValueError, IndexError, AttributeError):
            return None

    def call_func(self, func, args, kw, st, fr, n, bound=False, star=False, closure=None, force=False):
        env, extra, extras_kw, problems = self.bind(func, args, kw, star, st, fr, n, bound)
        self.event('call', fr, n, st, func=func, args=args, kw=kw, env=env, extra=extra,
            extras_kw=extras_kw, problems=problems, star=star)
        key = 'pkg:' + func.qual
        if func.qual in self.folds and not star:
            out = self.folded(func, args, kw, st)
            if out is not None:
                return out
        if not (self.inline_ok(func, fr) or (force and fr.depth < self.max_depth + 2 and not self._recursive(func, fr))):
            out = mk('call', key, tuple(self.deep(st, self._basekey(st, x)) for x in args),
                tuple(sorted((k, self.deep(st, self._basekey(st, v))) for k, v in kw.items())))
            out.meta = None
            self.opaque[out] = (func, {**extras_kw, **env}, star or '**' in kw)
            if bound and func.name == '__init__':
                # unknown constructor: the object becomes open
                o = args[0]
                r = self.rec(st, o)
                if r is not None:
                    self.setrec(st, o, HObj('inst', r.cls, r.slots, 'attr', out, r.origin))
                return V.NONE
            rt = self.rettype(func)
            if rt == 'self' and args:
                r = self.rec(st, args[0])
                if r is not None and r.kind == 'inst':
                    # in-place operation of unknown effect: forget the state
                    self.setrec(st, args[0], HObj('inst', r.cls, {}, 'attr', out, r.origin))
                    return args[0]
            if isinstance(rt, Class):
                return self.new(st, 'inst', cls=rt, open='attr', base=out)
            return out
        sub = Frame(func, func.module, func.cls, parent=fr, callnode=n)
        callee = State(self.enclosing(closure, st, fr) if closure else {}, dict(st.heap), list(st.pc), st.facts.copy())
        dflt = func.defaults() if closure is None else {}
        if closure is not None:
            callee.env.update(closure[3])
        for p in func.params + func.kwonly:
            if p in env:
                callee.env[p] = env[p]
            elif closure is not None and p in closure[3]:
                pass
            elif p in dflt:
                callee.env[p] = self.ev(dflt[p], State({}, callee.heap, [], V.Facts()), Frame(None, func.module))
            else:
                callee.env[p] = V.sym(f'?missing:{p}')
        if func.vararg:
            callee.env[func.vararg] = mk('tuple', tuple(extra)) if not star else mk('call', 'seq', tuple(self.deep(st, x) for x in extra), ())
        if func.kwarg:
            callee.env[func.kwarg] = self.new(callee, 'dict',
                slots={const(k): v for k, v in extras_kw.items()},
                open='dyn' if '**' in kw else None,
                base=self.deref(st, kw['**']) if '**' in kw else None)
        res = self.exec_function(func, callee, sub)
        if res.state is None:
            # the callee always raises on these arguments
            st.facts.bad = True
            return V.sym('?noreturn')
        # facts established by the callee about shared values
        st.heap = res.state.heap
        if closure is not None and closure[2] is fr:
            for x in func.node.body:
                if isinstance(x, ast.Nonlocal):
                    st.env.update({k: res.state.env[k] for k in x.names if k in res.state.env})
        common = len(st.pc)
        for c in res.state.pc[common:]:
            st.pc.append(c)
            st.facts.add(c)
        return res.value if res.value is not None else V.NONE

    def _basekey(self, st, x):
        r = self.rec(st, x)
        if r is not None and r.kind == 'inst' and r.base is not None:
            return r.base
        return x

    def _recursive(self, func, fr):
        f = fr
        while f is not None:
            if f.func is func:
                return True
            f = f.parent
        return False

    def rettype(self, func):
        """class instance returned by a function, 'self', or None"""
        if func in self.rt_cache:
            return self.rt_cache[func]
        self.rt_cache[func] = None
        out = set()
        assigned = {}
        for x in ast.walk(func.node):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                assigned.setdefault(x.targets[0].id, []).append(x.value)

        def ty(e, depth=0):
            if depth > 6:
                return None
            if isinstance(e, ast.Name):
                if func.cls is not None and func.params and e.id == func.params[0]:
                    return 'self'
                ts = {ty(v, depth + 1) for v in assigned.get(e.id, [])}
                return ts.pop() if len(ts) == 1 else None
            if isinstance(e, ast.Call):
                ent = self.p.resolve_expr(func.module, e.func)
                if isinstance(ent, Class):
                    return ent
                if isinstance(ent, Func) and ent is not func:
                    r = self.rettype(ent)
                    return r if isinstance(r, Class) else None
                if isinstance(e.func, ast.Attribute):
                    b = ty(e.func.value, depth + 1)
                    c = func.cls if b == 'self' else b
                    if isinstance(c, Class):
                        m = self.p.find_method(c, e.func.attr)
                        if m is not None and m is not func:
                            r = self.rettype(m)
                            if r == 'self':
                                return b
                            return r
            return None
        for x in ast.walk(func.node):
            if isinstance(x, ast.Return) and x.value is not None:
                out.add(ty(x.value))
        r = out.pop() if len(out) == 1 else None
        self.rt_cache[func] = r
        return r

    # -- external calls -----------------------------------------------------------------
    def ext_call(self, name, args, kw, star, st, fr, n):
        name = NP_ALIAS.get(name, name)
        if name in INPLACE and args and not star or name.endswith('.at') and name[:6] == 'numpy.' and len(args) > 1:
            self.event('extcall', fr, n, st, name=name, args=args, kw=kw)
            self.inplace(name, args, kw, st, fr, n)
            return V.NONE
        self.event('extcall', fr, n, st, name=name, args=args, kw=kw)
        a = [self.deref(st, x) for x in args]
        sub = self.stand.get(name)
        if sub is not None:
            if isinstance(sub, Class):
                return self.construct(sub, args, kw, st, fr, n, star)
            return self.call_func(sub, args, kw, st, fr, n, star=star, force=True)
        h = getattr(self, 'x_' + name.replace('.', '_'), None)
        if h is not None and not star:
            v = h(args, a, kw, st, fr, n)
            if v is not None:
                return v
        if name in IDENT_FUNCS and a:
            r = self.rec(st, args[0])
            if r is not None and r.kind == 'inst':
                if name in ('copy.copy', 'copy.deepcopy'):
                    i = self.new(st, 'inst', cls=r.cls, slots=dict(r.slots), open=r.open, base=r.base)
                    return i
                return args[0]
            if r is not None and r.kind == 'dict':
                return self.new(st, 'dict', slots=dict(r.slots), open=r.open, base=r.base)
            if r is not None and r.kind == 'list':
                if name in ('copy.copy', 'copy.deepcopy'):
                    return self.new(st, 'list', slots=dict(r.slots))
                return self.cell(st, self.deep(st, args[0]))
            if V.is_const(a[0]) and name not in ('numpy.array',):
                return a[0]
            if name in FRESH_FUNCS:
                sh = r.slots.get('shape') if r is not None else None
                return self.cell(st, a[0], sh if name in ('numpy.copy', 'copy.copy', 'copy.deepcopy') else None)
            return args[0]
        if name in ZERO_FUNCS:
            sh = None
            if a:
                if name.endswith('_like'):
                    r = self.rec(st, args[0])
                    sh = r.slots['shape'] if r is not None and 'shape' in r.slots else mk('attr', a[0], 'shape')
                else:
                    sh = self.deep(st, args[0])
            dt = kw.get('dtype')
            val = V.ZERO
            return self.cell(st, val, sh)
        if name in ONE_FUNCS:
            sh = self.deep(st, args[0]) if a else None
            return self.cell(st, V.ONE, sh)
        if name in UFUNC:
            return ufunc(UFUNC[name], a)
        if name in REDUCE:
            return reduce_call(REDUCE[name], self.deep(st, args[0]) if args else V.sym('?'), a[1:],
                {k: self.deep(st, x) for k, x in kw.items()})
        self.escape(name, [*args, *kw.values()], st, n)
        return mk('call', name, tuple(self.deep(st, self._basekey(st, x)) for x in args),
            tuple(sorted((k, self.deep(st, self._basekey(st, x))) for k, x in kw.items())))

    def x_numpy_sqrt(self, args, a, kw, st, fr, n):
        return V.sqrt(a[0])

    x_math_sqrt = x_numpy_sqrt

    def x_numpy_power(self, args, a, kw, st, fr, n):
        return V.powv(a[0], a[1])

    x_pow = x_numpy_power
    x_math_pow = x_numpy_power

    def x_numpy_square(self, args, a, kw, st, fr, n):
        return V.mul(a[0], a[0])

    def x_numpy_multiply(self, args, a, kw, st, fr, n):
        return V.mul(a[0], a[1])

    def x_numpy_divide(self, args, a, kw, st, fr, n):
        return V.div(a[0], a[1])

    x_numpy_true_divide = x_numpy_divide

    def x_numpy_add(self, args, a, kw, st, fr, n):
        return V.add(a[0], a[1])

    def x_numpy_subtract(self, args, a, kw, st, fr, n):
        return V.sub(a[0], a[1])

    def x_numpy_negative(self, args, a, kw, st, fr, n):
        return V.neg(a[0])

    def x_numpy_outer(self, args, a, kw, st, fr, n):
        return V.mul(self.deep(st, a[0]), self.deep(st, a[1]))

    x_numpy_kron = x_numpy_outer

    def x_numpy_radians(self, args, a, kw, st, fr, n):
        return V.mul(a[0], V.div(V.PI, const(180)))

    x_numpy_deg2rad = x_numpy_radians
    x_math_radians = x_numpy_radians

    def x_numpy_degrees(self, args, a, kw, st, fr, n):
        return V.mul(a[0], V.div(const(180), V.PI))

    x_numpy_rad2deg = x_numpy_degrees
    x_math_degrees = x_numpy_degrees

    def x_float(self, args, a, kw, st, fr, n):
        if not a:
            return V.ZERO
        if V.is_num(a[0]):
            return a[0]
        return a[0] if not V.is_str(a[0]) else mk('call', 'float', (a[0],), ())

    def x_int(self, args, a, kw, st, fr, n):
        if a and V.is_num(a[0]):
            return const(int(V.cval(a[0])))
        return mk('call', 'int', tuple(self.deep(st, x) for x in args), ())

    def x_str(self, args, a, kw, st, fr, n):
        return a[0] if a and V.is_str(a[0]) else mk('call', 'str', tuple(self.deep(st, x) for x in args), ())

    def x_bool(self, args, a, kw, st, fr, n):
        return self.truth(args[0], st) if a else V.FALSE

    def x_all(self, args, a, kw, st, fr, n):
        items = self.known_items(args[0], st) if args else None
        if items is None:
            return None
        return V.b_and(*[self.truth(x, st) for x in items])

    def x_any(self, args, a, kw, st, fr, n):
        items = self.known_items(args[0], st) if args else None
        if items is None:
            return None
        return V.b_or(*[self.truth(x, st) for x in items])

    def x_len(self, args, a, kw, st, fr, n):
        items = self.known_items(args[0], st) if a else None
        if items is not None:
            return const(len(items))
        r = self.rec(st, args[0])
        if r is not None and r.kind == 'inst':
            m = self.p.find_method(r.cls, '__len__')
            if m is not None:
                return self.call_func(m, [args[0]], {}, st, fr, n, bound=True)
        if r is not None and r.kind == 'cell' and 'shape' in r.slots:
            sh = r.slots['shape']
            return sh.args[0][0] if sh.op == 'tuple' and sh.args[0] else (sh if sh.op != 'attr' else mk('call', 'len', (a[0],), ()))
        if a[0].op == 'call' and a[0].args[0] == 'iota':
            lo, hi, step = a[0].args[1][:3]
            if step is V.ONE:
                return V.sub(hi, lo)
        if r is not None and r.kind == 'list' and 'over' in r.slots:
            return mk('call', 'len', (r.slots['over'],), ())
        return mk('call', 'len', (self.deep(st, self._basekey(st, args[0])),), ())

    def x_range(self, args, a, kw, st, fr, n):
        if len(a) == 1:
            t = (V.ZERO, a[0], V.ONE)
        elif len(a) == 2:
            t = (a[0], a[1], V.ONE)
        elif len(a) == 3:
            t = tuple(a)
        else:
            return None
        return mk('call', 'iota', t, ())

    def x_numpy_arange(self, args, a, kw, st, fr, n):
        return self.x_range(args, a, kw, st, fr, n)

    def x_enumerate(self, args, a, kw, st, fr, n):
        first = self.deref(st, kw['start']) if 'start' in kw else a[1] if len(a) > 1 else V.ZERO
        return mk('call', 'enumerate', (args[0],) if first is V.ZERO else (args[0], first), ())

    def x_reversed(self, args, a, kw, st, fr, n):
        if len(a) != 1:
            return None
        items = self.known_items(args[0], st)
        if items is not None:
            return mk('tuple', tuple(items[::-1]))
        v = a[0]
        if v.op == 'call' and v.args[0] == 'iota' and v.args[1][2] in (V.ONE, const(-1)):
            lo, hi, step = v.args[1][:3]
            return mk('call', 'iota', (V.sub(hi, step), V.sub(lo, step), V.neg(step)), ())
        r = self.rec(st, v)
        if v.op == 'call' and v.args[0] in ('iota', 'enumerate', 'zip', 'dictitems', 'dictkeys', 'dictvalues') or r is not None and r.kind != 'cell' and 'seq' not in r.slots:
            return None
        return self.plain_idx(v if r is None or r.kind == 'cell' else r.slots['seq'], mk('slice', V.NONE, V.NONE, const(-1)))

    # functions of functions ------------------------------------------------------
    def written(self, n, text, st, fr, *values):
        """the value of an expression over given values ($0, $1, ... in its text)"""
        made = n.__dict__.setdefault('_written', {})
        if text not in made:
            x = ast.parse(text.replace('$', 'given_'), mode='eval').body
            for y in ast.walk(x):
                if 'lineno' in y._attributes:
                    ast.copy_location(y, n)
            made[text] = x
        names = {f'given_{k}': v for k, v in enumerate(values)}
        old = {k: st.env.get(k) for k in names}
        st.env.update(names)
        v = self.ev(made[text], st, fr)
        for k, x in old.items():
            if x is None:
                st.env.pop(k, None)
            else:
                st.env[k] = x
        return v

    def x_map(self, args, a, kw, st, fr, n):
        if len(args) < 2 or kw:
            return None
        it = args[1] if len(args) == 2 else mk('call', 'zip', tuple(args[1:]), ())
        return self.written(n, '[$0(x_) for x_ in $1]' if len(args) == 2 else '[$0(*x_) for x_ in $1]', st, fr, args[0], it)

    def x_filter(self, args, a, kw, st, fr, n):
        if len(args) != 2 or kw:
            return None
        return self.written(n, '[x_ for x_ in $1 if x_]' if a[0] is V.NONE else '[x_ for x_ in $1 if $0(x_)]', st, fr, args[0], args[1])

    def x_itertools_starmap(self, args, a, kw, st, fr, n):
        return self.written(n, '[$0(*x_) for x_ in $1]', st, fr, *args) if len(args) == 2 and not kw else None

    def x_functools_partial(self, args, a, kw, st, fr, n):
        if not args or not all(k.isidentifier() for k in kw):
            return None
        ent = ('partial', args[0], list(args[1:]), dict(kw))
        name = f'{fr.name}.<partial>@{n.lineno}:{n.col_offset}'
        while self.closures.get(mk('func', name), ent) != ent:
            name += "'"
        v = mk('func', name)
        self.closures[v] = ent
        return v

    def x_functools_reduce(self, args, a, kw, st, fr, n):
        if len(args) not in (2, 3) or kw:
            return None
        items = self.known_items(args[1], st)
        if items is None:
            return self.reduced(args, st, fr, n)
        items = ([args[2]] if len(args) == 3 else []) + list(items)
        if not items or len(items) > 64:
            return None
        v = items[0]
        for x in items[1:]:
            v = self.apply(args[0], [v, x], {}, False, st, fr, n)
        return v

    def reduced(self, args, st, fr, n):
        if not self.exact:
            return None
        xs = self.x_list([args[1]], [self.deref(st, args[1])], {}, st, fr, n)
        r = None if xs is None else self.rec(st, xs)
        if r is None or r.kind != 'list' or 'seq' not in r.slots:
            return None
        if len(args) == 3:
            first = args[2]
        else:
            first = self.plain_idx(r.slots['seq'], V.ZERO)
            self.setrec(st, xs, r.with_slot('seq', self.plain_idx(r.slots['seq'], mk('slice', V.ONE, V.NONE, V.NONE))))
        made = n.__dict__.setdefault('_written', {})
        if 'reduce' not in made:
            x = ast.parse('for given_x in given_xs: given_v = given_f(given_v, given_x)').body[0]
            for y in ast.walk(x):
                if 'lineno' in y._attributes:
                    ast.copy_location(y, n)
            made['reduce'] = x
        st.env.update(given_xs=xs, given_v=first, given_f=args[0])
        out = self.s_For(made['reduce'], st, fr)
        if out is None:
            return None
        v = out.env['given_v']
        st.env, st.heap = out.env, out.heap
        for k in ('given_xs', 'given_x', 'given_v', 'given_f'):
            st.env.pop(k, None)
        return v

    def x_slice(self, args, a, kw, st, fr, n):
        if len(a) == 1:
            return mk('slice', V.NONE, a[0], V.NONE)
        return mk('slice', *a, *[V.NONE]*(3 - len(a))) if 1 < len(a) < 4 else None

    def x_iter(self, args, a, kw, st, fr, n):
        if len(a) != 1:
            return None
        r = self.rec(st, a[0])
        if r is not None and r.kind == 'list' and 'once' in r.slots:
            return args[0]
        items = self.known_items(args[0], st)
        if items is not None:
            return self.new(st, 'list', slots={'items': mk('list', tuple(items)), 'once': V.TRUE})
        if r is not None and r.kind == 'list' and 'seq' in r.slots:
            return self.new(st, 'list', slots={'seq': r.slots['seq'], 'once': V.TRUE})
        if self.exact and (r is None or r.kind == 'cell') and a[0].op not in ('call', 'opaque') and not V.is_const(a[0]):
            return self.new(st, 'list', slots={'seq': self.deep(st, a[0]), 'once': V.TRUE})
        return None

    def x_next(self, args, a, kw, st, fr, n):
        if not args:
            return None
        v = st.facts.resolve(args[0])
        r = self.rec(st, v)
        if r is None or r.kind != 'list':
            return None
        if 'items' in r.slots:
            it = r.slots['items'].args[0]
            if not it:
                return args[1] if len(args) > 1 else None
            self.setrec(st, v, r.with_slot('items', mk('list', it[1:])))
            return it[0]
        if 'seq' in r.slots and len(args) == 1:
            seq = r.slots['seq']
            self.setrec(st, v, r.with_slot('seq', self.plain_idx(seq, mk('slice', V.ONE, V.NONE, V.NONE))))
            return self.plain_idx(seq, V.ZERO)
        return None

    def x_zip(self, args, a, kw, st, fr, n):
        return mk('call', 'zip', tuple(args), ())

    def x_dict(self, args, a, kw, st, fr, n):
        slots = {const(k): v for k, v in kw.items() if k != '**'}
        opened = 'dyn' if '**' in kw else None
        if args:
            r = self.rec(st, args[0])
            if r is not None and r.kind == 'dict':
                s2 = dict(r.slots)
                s2.update(slots)
                slots = s2
                opened = opened or r.open
            else:
                items = self.known_items(args[0], st)
                if items is not None and all(x.op == 'tuple' and len(x.args[0]) == 2 for x in items):
                    s2 = {x.args[0][0]: x.args[0][1] for x in items}
                    s2.update(slots)
                    slots = s2
                else:
                    opened = 'dyn'
        return self.new(st, 'dict', slots=slots, open=opened)

    x_collections_OrderedDict = x_dict

    def x_list(self, args, a, kw, st, fr, n):
        if not args:
            return self.new(st, 'list', slots={'items': mk('list', ())})
        items = self.known_items(args[0], st)
        if items is not None:
            return self.new(st, 'list', slots={'items': mk('list', tuple(items))})
        return None

    def x_tuple(self, args, a, kw, st, fr, n):
        if not args:
            return mk('tuple', ())
        items = self.known_items(args[0], st)
        return mk('tuple', tuple(items)) if items is not None else None

    def const_items(self, v, st):
        """elements of a set or sequence of known constants"""
        items = self.known_items(v, st)
        if items is None:
            return None
        items = [self.deep(st, x) if self.stand and x.op != 'const' else x for x in items]
        return items if all(x.op == 'const' or self.stand and plain(x) is not None for x in items) else None

    def x_sorted(self, args, a, kw, st, fr, n):
        items = self.const_items(args[0], st)
        if items is not None and len({x.args[0] if x.op == 'const' else 'tuple' for x in items}) <= 1 and not kw:
            try:
                items = sorted(items, key=plain)
            except TypeError:
                items = None
            if items is not None:
                return self.new(st, 'list', slots={'items': mk('list', tuple(items))})
        return mk('call', 'sorted', (self.deep(st, args[0]),), tuple((k, self.deep(st, v)) for k, v in sorted(kw.items())) if isinstance(kw, dict) else tuple(kw))

    def x_set(self, args, a, kw, st, fr, n):
        items = self.const_items(args[0], st) if args else []
        if items is not None:
            return mk('call', 'set', (mk('tuple', tuple(dict.fromkeys(items))),), ())
        return mk('call', 'set', tuple(self.deep(st, x) for x in args), ())

    def x_getattr(self, args, a, kw, st, fr, n):
        if len(a) >= 2 and V.is_str(a[1]):
            r = self.rec(st, st.facts.resolve(args[0]))
            if r is not None and r.kind == 'inst':
                name = V.cval(a[1])
                known = name in r.slots or self.p.find_method(r.cls, name) or self.p.find_class_attr(r.cls, name)
                if not known and len(args) > 2 and not r.open:
                    return args[2]
            return self.getattr(args[0], V.cval(a[1]), st, fr, n)
        r = self.rec(st, st.facts.resolve(args[0]))
        base = r.base if r is not None and r.base is not None else a[0]
        self.event('dyngetattr', fr, n, st, base=args[0], name=a[1] if len(a) > 1 else None)
        return mk('call', 'getattr', (base, a[1]), ())

    def x_setattr(self, args, a, kw, st, fr, n):
        if len(a) == 3 and V.is_str(a[1]):
            self.setattr(args[0], V.cval(a[1]), args[2], st, fr, n)
        else:
            self.event('dynsetattr', fr, n, st, base=args[0], name=a[1] if len(a) > 1 else None, value=args[2] if len(args) > 2 else None)
        return V.NONE

    def x_hasattr(self, args, a, kw, st, fr, n):
        r = self.rec(st, st.facts.resolve(args[0]))
        if r is not None and r.kind == 'inst' and len(a) == 2 and V.is_str(a[1]):
            name = V.cval(a[1])
            if name in r.slots or self.p.find_method(r.cls, name) or self.p.find_class_attr(r.cls, name):
                return V.TRUE
            if not r.open:
                return V.FALSE
            if r.base is not None:
                return mk('truthy', mk('call', 'hasattr', (r.base, a[1]), ()))
        return mk('truthy', mk('call', 'hasattr', tuple(a), ()))

    def x_isinstance(self, args, a, kw, st, fr, n):
        r = self.rec(st, st.facts.resolve(args[0]))
        tys = [a[1]] if a[1].op != 'tuple' else list(a[1].args[0])
        v = a[0]
        outs = []
        for t in tys:
            if r is not None and r.kind == 'inst' and t.op == 'class':
                c = self.closures.get(t)
                if c in self.p.mro(r.cls):
                    return V.TRUE
                outs.append(V.FALSE)
                continue
            if t.op == 'class' and v.op in ('const', 'fstr'):
                outs.append(V.FALSE)
                continue
            if t.op == 'call' and t.args[0] == 'type' and t.args[1] == (V.NONE,):
                if v is V.NONE:
                    return V.TRUE
                if v.op == 'const' or r is not None and r.kind in ('inst', 'dict', 'list'):
                    outs.append(V.FALSE)
                    continue
            if t.op == 'ext' and v.op == 'fstr' and t.args[0] in ('str', 'int', 'float', 'bool', 'bytes', 'dict', 'list', 'tuple', 'set'):
                outs.append(V.TRUE if t.args[0] == 'str' else V.FALSE)
                continue
            if t.op == 'ext' and v.op == 'tuple' and t.args[0] in ('str', 'bytes', 'dict', 'list', 'set', 'tuple'):
                outs.append(V.TRUE if t.args[0] == 'tuple' else V.FALSE)
                continue
            if t.op == 'ext' and v.op in ('const', 'fstr', 'tuple') and t.args[0] in NOTCONST:
                outs.append(V.FALSE)
                continue
            if t.op == 'ext' and v.op == 'const':
                k = {'str': 'str', 'int': 'num', 'float': 'num', 'bool': 'bool', 'bytes': 'bytes'}.get(t.args[0])
                if k is not None:
                    outs.append(V.TRUE if v.args[0] == k else V.FALSE)
                    continue
                if t.args[0] in ('dict', 'list', 'tuple', 'set'):
                    outs.append(V.FALSE)
                    continue
            if t.op == 'ext' and r is not None and r.kind == 'inst':
                if r.cls.module.rel == '<store>' and any(t.args[0].rsplit('.', 1)[-1] == c.name for c in self.p.mro(r.cls) if isinstance(c, Class)):
                    return V.TRUE
                if any(isinstance(c, External) and c.name == t.args[0] for c in self.p.mro(r.cls)):
                    return V.TRUE
                if not self.p.foreign_base(r.cls) or r.cls.module.rel == '<store>':
                    outs.append(V.FALSE)
                    continue
            if t.op == 'ext' and r is not None and r.kind in ('dict', 'list'):
                outs.append(V.TRUE if t.args[0] == r.kind else V.FALSE)
                continue
            outs.append(mk('isinst', v, t))
        return V.b_or(*outs)

    def x_super(self, args, a, kw, st, fr, n):
        # super().__init__(...): a view of self typed by the next class
        me = None
        if fr.func is not None and fr.func.params:
            me = st.env.get(fr.func.params[0])
        r = self.rec(st, me) if me is not None else None
        if r is None or fr.cls is None:
            return None
        return mk('super', me, mk('class', fr.cls.qual))

    def x_numpy_where(self, args, a, kw, st, fr, n):
        if len(a) == 3:
            return mk('call', 'where', (a[0], a[1], a[2]), ())
        return None

    def x_numpy_dot(self, args, a, kw, st, fr, n):
        return mk('call', 'dot', (self.deep(st, args[0]), self.deep(st, args[1])), ())

    x_numpy_matmul = x_numpy_dot

    def x_numpy_ndim(self, args, a, kw, st, fr, n):
        if V.is_const(a[0]):
            return V.ZERO
        return mk('call', 'ndim', (a[0],), ())

    def x_numpy_shape(self, args, a, kw, st, fr, n):
        r = self.rec(st, args[0])
        if r is not None and 'shape' in r.slots:
            return r.slots['shape']
        return mk('attr', a[0], 'shape')

    def x_numpy_concatenate(self, args, a, kw, st, fr, n):
        return mk('call', 'concatenate', (self.deep(st, args[0]),) + tuple(a[1:]),
            tuple(sorted((k, self.deep(st, x)) for k, x in kw.items())))

    def x_numpy_append(self, args, a, kw, st, fr, n):
        return mk('call', 'concatenate', (mk('tuple', (a[0], a[1])),), ())

    def x_numpy_mean(self, args, a, kw, st, fr, n):
        return None


def _when(v, what):
    """the condition under which a conditional value is the given one"""
    if v is what:
        return V.TRUE
    if v.op != 'phi':
        return V.FALSE
    a, b = _when(v.args[1], what), _when(v.args[2], what)
    return V.b_or(V.b_and(v.args[0], a), V.b_and(V.b_not(v.args[0]), b))


def _strip(v, bad, sub=None):
    if v is bad and sub is not None:
        return sub
    if v.op == 'phi':
        a, b = _strip(v.args[1], bad, sub), _strip(v.args[2], bad, sub)
        if a is bad:
            return b
        if b is bad:
            return a
        return V.phi(v.args[0], a, b)
    return v


def _present(v):
    if v is V.ABSENT:
        return V.FALSE
    if v.op == 'phi':
        c = v.args[0]
        return V.b_or(V.b_and(c, _present(v.args[1])), V.b_and(V.b_not(c), _present(v.args[2])))
    return V.TRUE


def _full(ix):
    """index selecting the whole array"""
    if ix.op == 'slice':
        return ix.args[0] in (V.NONE, V.ZERO) and ix.args[1] is V.NONE and ix.args[2] in (V.NONE, V.ONE)
    if ix.op == 'tuple':
        return all(_full(x) or x is V.NONE for x in ix.args[0]) and bool(ix.args[0])
    if ix is const(Ellipsis):
        return True
    return False


def _disjoint(a, b):
    """indices that certainly differ in a constant position"""
    ta = a.args[0] if a.op == 'tuple' else (a,)
    tb = b.args[0] if b.op == 'tuple' else (b,)
    for x, y in zip(ta, tb):
        if V.is_const(x) and V.is_const(y) and x is not y and not (x is const(Ellipsis) or y is const(Ellipsis)) \
                and x is not V.NONE and y is not V.NONE:
            return True
    return False


def plain(e):
    """the known value of a term, or None"""
    if e.op == 'const':
        return V.cval(e)
    if e.op == 'tuple':
        out = tuple(plain(x) for x in e.args[0])
        return None if None in out else out
    return None


def looped(e):
    """whether a term depends on the turn of a loop around it"""
    stack, seen = [e], set()
    while stack:
        x = stack.pop()
        if x in seen or x.op == 'comp' or x.op == 'call' and x.args[0] in ('fold', 'comp', 'accum'):
            continue
        seen.add(x)
        if x.op == 'carry' or x.op == 'call' and x.args[0] == 'iotav':
            return True
        stack.extend(V.children(x))
    return False


def reduce_call(name, v, a, kw):
    # pull numeric factors out of linear reductions
    if name in ('sum', 'mean', 'cumsum') and v.op == 'poly' and len(v.args[0]) == 1:
        (m, c), = v.args[0]
        if c != 1:
            inner = V._norm({m: 1})
            return V.mul(const(c), mk('call', name, (inner,) + tuple(a), tuple(sorted(kw.items()))))
    if name in ('max', 'min') and v.op == 'call' and v.args[0] == 'iota' and not a and not kw and all(V.is_num(x) for x in v.args[1]):
        lo, hi, step = (V.cval(x) for x in v.args[1])
        if step == 1 and hi > lo:
            return const(hi - 1 if name == 'max' else lo)
    if name in ('max', 'min') and v.op == 'call' and v.args[0] == 'numpy.array' and len(v.args[1]) == 1 and not v.args[2] and v.args[1][0].op in ('tuple', 'list') \
            and not a and not kw and v.args[1][0].args[0] and all(V.is_num(x) for x in v.args[1][0].args[0]):
        return (max if name == 'max' else min)(v.args[1][0].args[0], key=V.cval)
    return mk('call', name, (v,) + tuple(a), tuple(sorted(kw.items())))


def ufunc(name, a):
    if name in ('cos', 'abs') and a and a[0].op == 'poly':
        # even functions: canonical sign
        lead = a[0].args[0][0][1]
        if lead < 0:
            return mk('call', name, (V.neg(a[0]),) + tuple(a[1:]), ())
    if name == 'sin' and a and a[0].op == 'poly':
        lead = a[0].args[0][0][1]
        if lead < 0:
            return V.neg(mk('call', name, (V.neg(a[0]),), ()))
    if name == 'mod' and V.is_num(a[0]) and V.is_num(a[1]) and V.cval(a[1]) != 0:
        return const(V.cval(a[0]) % V.cval(a[1]))
    if name == 'floor' and V.is_num(a[0]):
        import math
        return const(math.floor(V.cval(a[0])))
    return mk('call', name, tuple(a), ())


def ext_const(full):
    full = NP_ALIAS.get(full, full)
    if full in ('numpy.pi', 'math.pi', 'scipy.constants.pi'):
        return V.PI
    if full == 'numpy.newaxis':
        return V.NONE
    if full in ('numpy.nan', 'numpy.NaN', 'math.nan'):
        return mk('const', 'float', 'nan')
    if full in ('numpy.inf', 'math.inf'):
        return mk('const', 'float', 'inf')
    return mk('ext', full)


def sequence(v):
    """tuples, and the shapes of arrays"""
    if v.op == 'phi':
        return sequence(v.args[1]) or sequence(v.args[2])
    if v.op == 'idx':
        return v.args[1].op == 'slice' and sequence(v.args[0])
    return v.op == 'tuple' or v.op == 'attr' and v.args[1] == 'shape' or v.op == 'call' and v.args[0] in ('concat', 'numpy.shape')


def joint(parts):
    """text made of pieces of text and values"""
    out = []
    for q in parts:
        for p in (q.args[0] if q.op == 'fstr' else (q,)):
            if out and V.is_str(out[-1]) and V.is_str(p):
                out[-1] = const(V.cval(out[-1]) + V.cval(p))
            elif not V.is_str(p) or V.cval(p):
                out.append(p)
    if not out:
        return const('')
    if len(out) == 1 and V.is_str(out[0]):
        return out[0]
    return mk('fstr', tuple(out))


def joined(a, b):
    if a.op == 'tuple' and b.op == 'tuple':
        return mk('tuple', a.args[0] + b.args[0])
    if a.op == 'phi' and sequence(b):
        return V.phi(a.args[0], joined(a.args[1], b), joined(a.args[2], b))
    if b.op == 'phi' and sequence(a):
        return V.phi(b.args[0], joined(a, b.args[1]), joined(a, b.args[2]))
    return mk('call', 'concat', (a, b), ())


NP_ALIAS = {}
ARRAY_ATTRS = {'clm', 'slm', 'data', 'mask', 'error', 'magnitude', 'lon', 'lat'}
OPERATORS = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.FloorDiv: 'floordiv',
             ast.Mod: 'mod', ast.Pow: 'pow', ast.BitOr: 'or', ast.BitAnd: 'and', ast.BitXor: 'xor', ast.MatMult: 'matmul'}
CMPOPS = {ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=',
    ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in', ast.NotIn: 'not in'}
import builtins as _b
BUILTINS = set(dir(_b)) | {'__name__', '__file__'}
