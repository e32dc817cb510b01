"""Value numbering that keeps array structure.

``Interp`` identifies an array with its generic element.  Here shapes, positions
and loop ranges stay in the normal form: allocations are ``full``, element
assignments are ``store`` nodes whose loop indices range over explicit index
sets, accumulations are bounded sums, running counters become prefix sums and
lists filled by a loop become comprehensions.  No loop is iterated: every loop
is summarised by the closed form of its carried values, or left opaque.
"""
import ast
import calendar
import copy
import datetime
import itertools
import posixpath
import re
import time
from . import ev, gvn, text, values as V
from .gvn import HObj, State, const
from .values import mk

STRUCT = {'numpy.squeeze', 'numpy.atleast_1d', 'numpy.atleast_2d', 'numpy.atleast_3d', 'numpy.transpose', 'numpy.expand_dims',
    'numpy.broadcast_to', 'numpy.reshape', 'numpy.ravel', 'numpy.tile', 'numpy.repeat', 'numpy.outer', 'numpy.kron',
    'numpy.ma.array', 'numpy.ma.masked_array', 'numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.nan_to_num'}
SMETH = {'squeeze', 'transpose', 'reshape', 'flatten', 'ravel', 'swapaxes', 'repeat', 'dot', 'argmin', 'argmax', 'argsort',
    'nonzero', 'conjugate', 'conj', 'ptp', 'var', 'round', 'clip', 'cumprod', 'diagonal', 'trace', 'take', 'compress', 'item'}
def _strptime(line, form):
    try:
        return tuple(time.strptime(line, form))[:6]
    except ValueError:
        return ()


def _parsed(line):
    """seconds since 1970 (without a zone: of universal time), the format of the international standard, the zone and the parts of universal time"""
    for form in ('', '%d %b %Y %H:%M:%S', '%Y/%m/%d %H:%M:%S'):
        try:
            d = datetime.datetime.strptime(line, form) if form else datetime.datetime.fromisoformat(line)
        except ValueError:
            continue
        seconds = (d if d.tzinfo else d.replace(tzinfo=datetime.timezone.utc)).timestamp()
        return (int(seconds), d.isoformat(), bool(d.tzinfo)) + tuple(d.utctimetuple())[:6]
    return ()


def _strftime(form, line):
    return time.strftime(form, tuple(int(x) for x in line.split()) + (0, 1, 0))


def _timegm(line):
    return calendar.timegm(tuple(int(x) for x in line.split()))


FOLD = {'vfs.strptime': _strptime, 'vfs.parsed': _parsed, 'vfs.timegm': _timegm, 'vfs.strftime': _strftime, 'posixpath.join': posixpath.join, 'posixpath.split': posixpath.split, 'posixpath.basename': posixpath.basename, 'posixpath.dirname': posixpath.dirname,
    'posixpath.splitext': posixpath.splitext, 'posixpath.normpath': posixpath.normpath}
TEXT_ATTRS = {'posixpath.sep': '/', 'posixpath.pardir': '..', 'posixpath.curdir': '.'}
# calls that leave the objects they are given as they were
HARMLESS = {'str', 'repr', 'isinstance', 'issubclass', 'hasattr', 'print', 'id', 'type', 'callable', 'bool', 'len', 'format', 'hash', 'strformat'}
# functions that go through what they are given
ITERATES = {'list', 'tuple', 'set', 'sorted', 'enumerate', 'zip', 'map', 'filter', 'reversed', 'sum', 'max', 'min', 'any', 'all', 'iter', 'dict', 'itertools.islice', 'itertools.chain'}
TEXTS = ('replace', 'split', 'strip', 'lstrip', 'rstrip', 'startswith', 'endswith') + text.WORDS
WHOLE = ('floordiv', 'floor', 'ceil', 'rint', 'round', 'len', 'int', 'shape', 'numpy.around')
REALS = {'sin', 'cos', 'tan', 'exp', 'log', 'log10', 'exp2', 'arcsin', 'arccos', 'arctan', 'arctan2', 'hypot'}


def fractional(v, depth=12):
    """the value is computed by real functions or with fractions"""
    if v.op == 'const':
        return V.is_num(v) and V.cval(v).denominator != 1
    if v.op == 'call' and v.args[0] in WHOLE or v.op in ('idx', 'sym', 'attr', 'cmp', 'phi') or depth == 0:
        return False
    if v.op == 'call' and v.args[0] in REALS:
        return True
    return any(fractional(x, depth - 1) for x in V.children(v))


COMBINED = {'itertools.' + n for n in ('product', 'combinations', 'permutations', 'combinations_with_replacement', 'pairwise', 'zip_longest', 'chain', 'repeat')}
NUMBERS = {'numpy.float64', 'numpy.float32', 'numpy.longdouble', 'numpy.int64', 'numpy.int32', 'numpy.int_', 'numpy.float_', 'float', 'int'}
ACC = 'accum'
SET, ADD = const('set'), const('add')


def iotas(e):
    return [x for x in V.walk(e) if x.op == 'call' and x.args[0] == 'iotav']


FAMILY = {'ValueError': {'ValueError'}, 'KeyError': {'KeyError', 'LookupError'}, 'TypeError': {'TypeError'}, 'IndexError': {'IndexError', 'LookupError'}, 'AttributeError': {'AttributeError'},
    'UnboundLocalError': {'UnboundLocalError', 'NameError'}, 'ModuleNotFoundError': {'ModuleNotFoundError', 'ImportError'},
    **{k: {k, 'OSError', 'IOError', 'EnvironmentError'} for k in ('FileNotFoundError', 'FileExistsError', 'URLError')},
    'HTTPError': {'HTTPError', 'URLError', 'OSError', 'IOError', 'EnvironmentError'}}


def within(nodes):
    """the nodes of a piece of code, without the functions defined in it"""
    todo = list(nodes)
    while todo:
        x = todo.pop()
        yield x
        if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            todo += ast.iter_child_nodes(x)


def code(text, at):
    out = ast.parse(text).body
    for x in out:
        for y in ast.walk(x):
            if 'lineno' in y._attributes:
                ast.copy_location(y, at)
    return out


class Listed(ast.NodeTransformer):
    """a generator as a function that returns a list"""

    @classmethod
    def of(cls, nodes):
        t = cls()
        t.bad = False
        new = [t.visit(copy.deepcopy(x)) for x in nodes]
        new = [y for x in new for y in (x if isinstance(x, list) else [x])]
        if t.bad or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in within(new)):
            return None
        return code('yields_ = []', nodes[0]) + new + code('return yields_', nodes[-1])

    def visit_FunctionDef(self, n):
        return n
    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_Return(self, n):
        return code('return yields_', n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Yield):
            new = code('yields_.append(None)', n)
            if n.value.value is not None:
                new[0].value.args = [n.value.value]
            return new
        if isinstance(n.value, ast.YieldFrom):
            new = code('yields_.extend(None)', n)
            new[0].value.args = [n.value.value]
            return new
        return n


class Left(ast.NodeTransformer):
    """a loop that is left with what its function returns"""

    @classmethod
    def of(cls, s):
        inside = list(within(s.body))
        if not any(isinstance(x, ast.Return) for x in inside) or any(isinstance(x, (ast.Try, ast.With)) for x in inside):
            return False
        breaks = [x for x in inside if isinstance(x, ast.Break)]
        if s.orelse and breaks:
            return False
        t = cls()
        t.bad = False
        new = copy.copy(s)
        new.body = t.all(s.body)
        new.orelse = []
        new._left = False
        return False if t.bad else new

    def all(self, nodes):
        out = []
        for x in nodes:
            y = self.visit(copy.deepcopy(x))
            out += y if isinstance(y, list) else [y]
        return out

    def visit_FunctionDef(self, n):
        return n
    visit_Lambda = visit_ClassDef = visit_FunctionDef

    def visit_Return(self, n):
        new = ast.Assign([ast.Name('found^', ast.Store())], n.value or ast.Constant(None))
        ast.copy_location(new, n)
        for y in (new.targets[0], new.value):
            if not hasattr(y, 'lineno'):
                ast.copy_location(y, n)
        flag = ast.copy_location(ast.Assign([ast.copy_location(ast.Name('left^', ast.Store()), n)], ast.copy_location(ast.Constant(True), n)), n)
        return [new, flag, ast.copy_location(ast.Break(), n)]

    def visit_For(self, n):
        if not any(isinstance(x, ast.Return) for x in within(n.body)):
            return n
        if n.orelse:
            self.bad = True
            return n
        n.body = self.all(n.body)
        n._left = False
        test = ast.copy_location(ast.If(ast.copy_location(ast.Name('left^', ast.Load()), n), [ast.copy_location(ast.Break(), n)], []), n)
        return [n, test]
    visit_While = visit_For


KNOWN_DECORATORS = {'property', 'reify', 'staticmethod', 'classmethod', 'setter', 'deleter', 'getter', 'cached_property', 'lru_cache', 'cache', 'wraps', 'contextmanager',
    'abstractmethod', 'overload', 'singledispatch', 'deprecated', 'final', 'override'}
OPERATORS = {'add': '$0 + $1', 'sub': '$0 - $1', 'mul': '$0 * $1', 'truediv': '$0 / $1', 'floordiv': '$0 // $1', 'mod': '$0 % $1', 'pow': '$0 ** $1',
    'neg': '-$0', 'pos': '+$0', 'not_': 'not $0', 'invert': '~$0', 'abs': 'abs($0)', 'truth': 'bool($0)', 'eq': '$0 == $1', 'ne': '$0 != $1', 'lt': '$0 < $1',
    'le': '$0 <= $1', 'gt': '$0 > $1', 'ge': '$0 >= $1', 'and_': '$0 & $1', 'or_': '$0 | $1', 'xor': '$0 ^ $1', 'getitem': '$0[$1]', 'contains': '$1 in $0',
    'matmul': '$0 @ $1', 'is_': '$0 is $1', 'is_not': '$0 is not $1'}


class Precise(gvn.Interp):
    exact = True

    def iter_elem(self, it, st, fr):
        self._lid = getattr(self, '_lid', 0)
        lid = const(f'{fr.name}:{self.cur_loop}')
        v = self.deref(st, it)
        r = self.rec(st, v)
        if v.op == 'call' and v.args[0] == 'iota':
            return mk('call', 'iotav', v.args[1][:3] + (lid,), ())
        if v.op == 'call' and v.args[0] == 'enumerate' and v.args[1]:
            e = self.iter_elem(v.args[1][0], st, fr)
            i = self._counter(e, lid)
            if i is None:
                i = mk('call', 'iotav', (V.ZERO, mk('call', 'len', (self.deep(st, v.args[1][0]),), ()), V.ONE, lid), ())
            return mk('tuple', (V.add(v.args[1][1], i) if len(v.args[1]) > 1 else i, e))
        if v.op == 'call' and v.args[0] == 'zip':
            cols = [self.deep(st, self._basekey(st, x)) for x in v.args[1]]
            if all(self._seqlike(st, x) for x in v.args[1]):
                sizes = tuple(dict.fromkeys(mk('call', 'len', (x,), ()) for x in cols))
                i = mk('call', 'iotav', (V.ZERO, sizes[0] if len(sizes) == 1 else mk('call', 'min', sizes, ()), V.ONE, lid), ())
                return mk('tuple', tuple(self.plain_idx(x, i) for x in cols))
        if r is not None and r.kind == 'list' and 'seq' in r.slots:
            own = _made(r.slots['seq'])
            if own is not None:
                # the element that the other loop made at the same place
                e, x = own
                return V.subst(e, {x: mk('call', 'iotav', x.args[1][:3] + (lid,), ())})
            i = mk('call', 'iotav', (V.ZERO, mk('call', 'len', (r.slots['seq'],), ()), V.ONE, lid), ())
            return self.plain_idx(r.slots['seq'], i)
        if v.op == 'call' and (v.args[0] == 'sorted' or v.args[0] in ('set', 'setop') and v.args[1]) and not any(x.op == 'obj' for x in V.walk(v)):
            # the elements in their order
            i = mk('call', 'iotav', (V.ZERO, mk('call', 'len', (v,), ()), V.ONE, lid), ())
            return self.plain_idx(v, i)
        if r is not None and r.kind != 'cell' or v.op in ('tuple', 'many') or (v.op == 'call' and v.args[0] in
                ('dictitems', 'dictkeys', 'dictvalues', 'reversed', 'sorted', 'set')) or V.is_str(v):
            return super().iter_elem(it, st, fr)
        i = mk('call', 'iotav', (V.ZERO, mk('call', 'len', (v,), ()), V.ONE, lid), ())
        return self.plain_idx(v, i)

    cur_loop = '0'

    def run(self, *a, **kw):
        self.refused = []
        self.thrown = []
        return super().run(*a, **kw)

    def binop(self, op, a, b, st):
        if isinstance(op, ast.Pow) and b is V.ZERO and not V.is_const(a):
            # x**0 keeps the shape of x
            return mk('call', 'full_like', (a, V.ONE), ())
        return super().binop(op, a, b, st)

    def assign(self, t, v, st, fr, stmt):
        # unpacking a sequence of one element takes its only element
        if isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) == 1 and not isinstance(t.elts[0], ast.Starred):
            d = self.deref(st, st.facts.resolve(v))
            r = self.rec(st, v)
            if d.op == 'call' and (r is None or r.kind == 'cell'):
                self.event('unpack', fr, stmt, st, value=d, n=1, star=False, have=None)
                return self.assign(t.elts[0], self.plain_idx(d, V.ZERO), st, fr, stmt)
        return super().assign(t, v, st, fr, stmt)

    def _seqlike(self, st, x):
        r = self.rec(st, st.facts.resolve(x))
        return r is None or r.kind == 'cell' or (r.kind == 'list' and ('seq' in r.slots or 'items' in r.slots))

    def _counter(self, e, lid):
        for x in iotas(e):
            if x.args[1][3] is lid and x.args[1][0] is V.ZERO and x.args[1][2] is V.ONE:
                return x
        return None

    # refused arguments -----------------------------------------------------------
    def refuse(self, st, fr, node, extra=()):
        if self.dry or st.facts.bad or self.catching:
            return
        first = ()
        if self.repeated(fr):
            first = self.first(fr)
            if not first:
                return
        c = V.b_and(*[self.deep(st, x) for x in st.pc], *extra)
        if c is not V.FALSE:
            self.refused.append((c, f'{fr.module.rel}:{node.lineno}', first))

    def first(self, fr):
        """indices of the loops around a statement, all of which are over ranges"""
        n, f = 0, fr
        while f is not None:
            n += sum('unrolled' not in x for x in f.loops)
            f = f.parent
        its = frozenset(y for x in fr.iotas for y in iotas(x))
        return its if n <= len(its) == len(fr.iotas) else ()

    def repeated(self, fr):
        f = fr
        while f is not None:
            if f.iotas or any('unrolled' not in x for x in f.loops):
                return True
            f = f.parent
        return False

    def missing(self, st, fr, node, exc, when=V.TRUE, soft=False):
        if st.facts.bad:
            return True
        if fr.module is not None and fr.module.rel == '<store>':
            return False
        if self.repeated(fr):
            if not soft:
                self.refuse(st, fr, node, (when,))
            return False
        if when is V.TRUE and self.throw(st, fr, FAMILY[exc]):
            st.facts.bad = True
            return True
        if not self.catching and not soft:
            self.refuse(st, fr, node, (when,))
            if when is V.TRUE:
                st.facts.bad = True
                return True
        return False

    def throw(self, st, fr, kinds):
        """hand the error to the statement that catches it"""
        kinds = kinds | {'Exception', 'BaseException'}
        for names, thrown in zip(reversed(self.catching), reversed(self.thrown)):
            if names & kinds:
                thrown.append((st.clone(), fr, kinds))
                return True
        return False

    def s_Raise(self, s, st, fr):
        if self.catching and s.exc is not None and not self.repeated(fr):
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            name = e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else None
            if name is not None and self.throw(st, fr, FAMILY.get(name, {name})):
                fr.raises.append((V.sym('exc'), tuple(st.pc), s))
                return None
        self.refuse(st, fr, s)
        return super().s_Raise(s, st, fr)

    def s_Assert(self, s, st, fr):
        c = V.truthy(self.deep(st, self.ev(s.test, st, fr)))
        self.refuse(st, fr, s, (V.b_not(c),))
        return super().s_Assert(s, st, fr)

    # guarded attempts ------------------------------------------------------------
    def s_Try(self, s, st, fr):
        cond = None
        if self.no_exc and s.handlers and not s.finalbody and not s.orelse and all(
                len(h.body) == 1 and isinstance(h.body[0], ast.Pass) for h in s.handlers):
            first = s.body[0]
            for n in ast.walk(first):
                # removing an axis that is not singular leaves everything as it was
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'squeeze':
                    ax = [k.value for k in n.keywords if k.arg == 'axis'] + [x for x in n.args[1:]]
                    if len(ax) == 1 and n.args:
                        w = st.clone()
                        self.dry += 1
                        a, x = self.ev(n.args[0], w, fr), self.ev(ax[0], w, fr)
                        self.dry -= 1
                        cond = V.cmp('==', mk('idx', V.attr(self.deref(w, a), 'shape'), x), V.ONE)
                    break
        if cond is None or cond in (V.TRUE, V.FALSE):
            return self.attempt(s, st, fr)
        a, b = st.clone(), st.clone()
        a.assume(cond)
        b.assume(V.b_not(cond))
        r = super().s_Try(s, a, fr)
        return b if r is None else self.merge_many([(V.NONE, r), (V.NONE, b)])[1]

    def attempt(self, s, st, fr):
        if not self.no_exc:
            return super().s_Try(s, st, fr)
        env = dict(st.env)
        self.thrown.append([])
        try:
            out = super().s_Try(s, st, fr)
        finally:
            thrown = self.thrown.pop()
        outs = [] if out is None else [(V.NONE, out)]
        for at, f, kinds in thrown:
            if f is not fr:
                at = State(dict(env), at.heap, at.pc, at.facts)
            for h in s.handlers:
                names = {'BaseException'} if h.type is None else {x for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])
                    for x in (ast.unparse(t), ast.unparse(t).rsplit('.', 1)[-1])}
                if names & kinds:
                    if h.name:
                        at.env[h.name] = V.sym('exc')
                    at = self.block(h.body, at, fr)
                    break
            if at is not None and s.finalbody:
                at = self.block(s.finalbody, at, fr)
            if at is not None:
                outs.append((V.NONE, at))
        return self.merge_many(outs)[1] if outs else None

    # contexts ----------------------------------------------------------------
    def s_With(self, s, st, fr):
        opened = []
        for k, it in enumerate(s.items):
            v = self.ev(it.context_expr, st, fr)
            r = self.rec(st, v)
            c = it.context_expr
            if r is not None and r.kind == 'inst' and r.cls is not None and self.p.find_method(r.cls, '__exit__') is not None:
                opened.append(v)
                enter = self.p.find_method(r.cls, '__enter__')
                if enter is not None:
                    v = self.call_func(enter, [v], {}, st, fr, s, bound=True)
            elif isinstance(c, ast.Call) and ast.unparse(c.func).rsplit('.', 1)[-1] == 'suppress' and not opened:
                inner = [ast.With(items=s.items[k + 1:], body=s.body)] if s.items[k + 1:] else s.body
                kinds = c.args[0] if len(c.args) == 1 else ast.Tuple(elts=c.args, ctx=ast.Load())
                new = ast.Try(body=inner, handlers=[ast.ExceptHandler(type=kinds, name=None, body=[ast.Pass()])], orelse=[], finalbody=[])
                return self.stmt(ast.fix_missing_locations(ast.copy_location(new, s)), st, fr)
            elif isinstance(c, ast.Call) and ast.unparse(c.func).rsplit('.', 1)[-1] in ('closing', 'nullcontext') and len(c.args) == 1:
                v = self.ev(c.args[0], st, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr, s)
        st = self.block(s.body, st, fr)
        for v in reversed(opened):
            if st is None:
                break
            ex = self.p.find_method(self.rec(st, v).cls, '__exit__')
            self.call_func(ex, [v, V.NONE, V.NONE, V.NONE], {}, st, fr, s, bound=True)
        return st

    s_AsyncWith = s_With

    # loops -------------------------------------------------------------------
    def iterable(self, v, st, fr, node):
        """what an object gives when it is iterated over"""
        r = self.rec(st, v)
        if r is not None and r.kind == 'list' and 'once' in r.slots:
            # what is left of an iterator is gone after that
            self.setrec(st, v, HObj('list', r.cls, {'items': mk('list', ()), 'once': V.TRUE}, r.open, r.base, r.origin))
            return self.new(st, 'list', slots={k: x for k, x in r.slots.items() if k != 'once'})
        if self.stand and r is not None and r.kind == 'inst' and r.cls is not None:
            m = self.p.find_method(r.cls, '__iter__')
            if m is not None and (r.cls.module.rel == '<store>' or self.p.find_method(r.cls, '__next__') is None):
                got = self.call_func(m, [v], {}, st, fr, node, bound=True)
                if self.rec(st, got) is None or self.rec(st, got).kind != 'inst':
                    return got
        return v

    def combined(self, name, args, kw, st, fr, node):
        """what itertools makes of known items"""
        sizes, fill = [], V.NONE
        args = [self.deref(st, x) for x in args]
        kw = {k: self.deref(st, x) for k, x in kw.items()}
        if name in ('combinations', 'permutations', 'combinations_with_replacement'):
            sizes = args[1:] + list(kw.values())
            args = args[:1]
        elif name == 'product':
            sizes = list(kw.values())
        elif name == 'zip_longest':
            fill = kw.pop('fillvalue', V.NONE)
        elif name == 'repeat':
            if len(args) != 2 or not V.is_num(args[1]) or not 0 <= V.cval(args[1]) <= 200:
                return None
            return self.new(st, 'list', slots={'items': mk('list', (args[0],) * int(V.cval(args[1]))), 'once': V.TRUE})
        if any(not V.is_num(x) for x in sizes) or kw and not sizes:
            return None
        cols = [self.known_items(x, st) for x in args]
        if any(x is None for x in cols):
            return None
        cols = [self.known_items(self.iterable(x, st, fr, node), st) for x in args]
        if name == 'chain':
            out = [x for c in cols for x in c]
        else:
            more = {'fillvalue': fill} if name == 'zip_longest' else {}
            if name == 'product' and sizes:
                more, sizes = {'repeat': int(V.cval(sizes[0]))}, []
            it = getattr(itertools, name)(*cols, *[int(V.cval(x)) for x in sizes], **more)
            out = [mk('tuple', tuple(x)) for x in itertools.islice(it, 401)]
        if len(out) > 400:
            return None
        return self.new(st, 'list', slots={'items': mk('list', tuple(out)), 'once': V.TRUE})

    def left(self, v, st, fr, node):
        """how many items an iterator or a file still has"""
        r = self.rec(st, v)
        if r is None or 'many' in r.slots:
            return None
        if r.kind == 'list' and 'once' in r.slots and 'items' in r.slots:
            return len(r.slots['items'].args[0])
        m = self.p.find_method(r.cls, 'left') if r.kind == 'inst' and r.cls is not None and r.cls.module.rel == '<store>' else None
        if m is None:
            return None
        n = self.deref(st, self.call_func(m, [v], {}, st, fr, node, bound=True))
        return int(V.cval(n)) if V.is_num(n) else None

    def drawn(self, v, st, fr, node):
        """the next item of an iterator or a file"""
        r = self.rec(st, v)
        if r.kind == 'list':
            its = r.slots['items'].args[0]
            self.setrec(st, v, r.with_slot('items', mk('list', its[1:])))
            return its[0]
        return self.call_func(self.p.find_method(r.cls, '__next__'), [v], {}, st, fr, node, bound=True)

    def drawing(self, s, st, fr):
        """a loop over an iterator or a file, which keeps what the loop does not read"""
        e, k = s.iter, None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'enumerate' and len(e.args) == 1 and not e.keywords:
            e, k = e.args[0], 0
        if not isinstance(e, ast.Name):
            return False, None
        v = self.ev(e, st, fr)
        n = self.left(v, st, fr, s)
        if n is None:
            r = self.rec(st, v)
            if r is not None and r.kind == 'list' and 'once' in r.slots and any(isinstance(x, (ast.Break, ast.Return)) for x in ast.walk(s)):
                self.escaped.append(f'an iterator that is left, line {s.lineno}')
            return False, None
        if n > (200 if self.stand else 24) or not self.unrollable(s, range(n)):
            if any(isinstance(x, (ast.Break, ast.Return)) for x in ast.walk(s)):
                self.escaped.append(f'an iterator that is left, line {s.lineno}')
            return False, None
        ctx = {'breaks': [], 'continues': [], 'unrolled': True}
        fr.loops.append(ctx)
        while n:
            x = self.drawn(v, st, fr, s)
            if k is not None:
                x, k = mk('tuple', (const(k), x)), k + 1
            ctx['continues'] = []
            self.assign(s.target, x, st, fr, s)
            st = self.block(s.body, st, fr)
            ends = [(V.NONE, c) for c in ctx['continues']]
            if st is not None:
                ends.append((V.NONE, st))
            st = self.merge_many(ends)[1] if ends else None
            if st is None:
                break
            n = self.left(v, st, fr, s)
            if n is None:
                self.escaped.append(f'an iterator that is read on some paths, line {s.lineno}')
        fr.loops.pop()
        if st is not None and s.orelse:
            st = self.block(s.orelse, st, fr)
        ends = [(V.NONE, b) for b in ctx['breaks']]
        if st is not None:
            ends.append((V.NONE, st))
        return True, self.merge_many(ends)[1] if ends else None

    def s_For(self, s, st, fr):
        old, self.cur_loop = self.cur_loop, f'{s.lineno}:{s.col_offset}'
        try:
            done, out = self.drawing(s, st, fr)
            if done:
                return out
            if self.stand and any(isinstance(x, (ast.Return, ast.Break)) for x in ast.walk(s)):
                seq = self.counted(s.iter, st, fr)
                if seq is not None:
                    done, out = self.begun(s, seq, st, fr)
                    if done:
                        return out
            return super().s_For(s, st, fr)
        finally:
            self.cur_loop = old

    def escape(self, name, values, st, node):
        if not self.stand or self.dry or name in HARMLESS or name.rsplit('.', 1)[-1] in FAMILY or name.startswith(('logging.', 'warnings.', 'numpy.')):
            return
        seen, todo = set(), list(values)
        while todo:
            v = todo.pop()
            if v in seen:
                continue
            seen.add(v)
            r = self.rec(st, v)
            if r is None:
                todo += V.children(v)
            elif r.kind == 'inst' and r.cls is not None and r.cls.module.rel == '<store>':
                self.escaped.append(f'{r.cls.name} given to {name}, line {getattr(node, "lineno", 0)}')
                return
            elif r.kind in ('list', 'dict', 'cell') and len(seen) < 500:
                todo += [x for x in r.slots.values() if isinstance(x, V.E)]

    def counted(self, n, st, fr):
        """the first values of a long or endless count"""
        self.dry += 1
        it = self.deref(st, self.ev(n, st.clone(), fr))
        self.dry -= 1
        if it.op == 'call' and it.args[0] == 'iota' and len(it.args[1]) > 2 and all(V.is_num(x) for x in it.args[1][:3]):
            lo, hi, step = (V.cval(x) for x in it.args[1][:3])
            if step and abs(hi - lo) > 64 * abs(step):
                return [const(lo + k*step) for k in range(64)]
        if it.op == 'call' and it.args[0] == 'itertools.count' and all(V.is_num(x) for x in it.args[1]) and not it.args[2]:
            lo, step = ([V.cval(x) for x in it.args[1]] + [0, 1][len(it.args[1]):])[:2]
            return [const(lo + k*step) for k in range(64)]
        return None

    def begun(self, s, seq, st, fr):
        """a loop that is left on every path after some turns"""
        lists = [self.refused, self.events, fr.returns, fr.raises, fr.yields, *self.thrown]
        marks = [len(x) for x in lists]
        ctx = {'breaks': [], 'continues': [], 'unrolled': True}
        cur = st.clone()
        fr.loops.append(ctx)
        for x in seq:
            ctx['continues'] = []
            self.assign(s.target, x, cur, fr, s)
            cur = self.block(s.body, cur, fr)
            ends = [(V.NONE, c) for c in ctx['continues']]
            if cur is not None:
                ends.append((V.NONE, cur))
            cur = self.merge_many(ends)[1] if ends else None
            if cur is None:
                break
        fr.loops.pop()
        if cur is not None:
            for x, n in zip(lists, marks):
                del x[n:]
            return False, None
        ends = [(V.NONE, b) for b in ctx['breaks']]
        return True, self.merge_many(ends)[1] if ends else None

    def s_While(self, s, st, fr):
        """repeat the body while its condition is known, as for the lines of a known file"""
        if not self.stand:
            return super().s_While(s, st, fr)
        lists = [self.refused, self.events, fr.returns, fr.raises, fr.yields, *self.thrown]
        marks = [len(x) for x in lists]
        ctx = {'breaks': [], 'continues': [], 'unrolled': True}
        cur, known = st.clone(), True
        fr.loops.append(ctx)
        for _ in range(self.turns):
            c = self.cond(s.test, cur, fr)
            if c is V.FALSE:
                break
            if c is not V.TRUE:
                known = False
                break
            ctx['continues'] = []
            cur = self.block(s.body, cur, fr)
            ends = [(V.NONE, x) for x in ctx['continues']]
            if cur is not None:
                ends.append((V.NONE, cur))
            cur = self.merge_many(ends)[1] if ends else None
            if cur is None:
                break
        else:
            known = False
        fr.loops.pop()
        if not known:
            for x, n in zip(lists, marks):
                del x[n:]
            return self.loop(s, st, fr, None)
        if cur is not None and s.orelse:
            cur = self.block(s.orelse, cur, fr)
        ends = [(V.NONE, b) for b in ctx['breaks']]
        if cur is not None:
            ends.append((V.NONE, cur))
        return self.merge_many(ends)[1] if ends else None

    turns = 200

    def _comp(self, n, elt_nodes, st, fr):
        old, self.cur_loop = self.cur_loop, f'{n.lineno}:{n.col_offset}'
        try:
            return super()._comp(n, elt_nodes, st, fr)
        finally:
            self.cur_loop = old

    def e_ListComp(self, n, st, fr):
        was = dict(st.heap)
        out = super().e_ListComp(n, st, fr)
        r = self.rec(st, out)
        if r is not None and r.kind == 'list' and 'many' in r.slots:
            w = st.clone()
            w.heap = {**w.heap, **was}
            (v,), its, conds = self._comp(n, [n.elt], w, fr)
            vr = self.rec(w, v)
            inner = vr.slots.get('seq', vr.slots.get('items')) if vr is not None and vr.kind == 'list' else None
            if inner is not None and inner.op == 'list':
                inner = mk('list', tuple(self.deref(w, x) for x in inner.args[0]))
            if vr is None or vr.kind == 'cell' or inner is not None:
                own = []
                for k, (_, e) in enumerate(its):
                    lid = const(f'{fr.name}:{n.lineno}:{n.col_offset}' + (f'.{k}' if k else ''))
                    mine = [x for x in iotas(e) if x.args[1][3] is lid]
                    if len(mine) != 1:
                        return out
                    own += mine
                guard = V.b_and(*conds)
                e = own[0] if len(own) == 1 else mk('tuple', tuple(own))
                self.setrec(st, out, HObj('list', None, {'seq': mk('call', 'comp', (self.deref(w, v) if inner is None else inner, guard, e), ())}, None, None, None))
        return out

    e_GeneratorExp = e_ListComp

    def body(self, func):
        """generators give the list of what they yield"""
        nodes = func.node.body
        made = func.node.__dict__.get('_listed')
        if made is None:
            made = nodes
            if func.name != '__iter__' and not any('contextmanager' in d for d in func.decorators) and any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in within(nodes)):
                made = Listed.of(nodes) or nodes
            func.node._listed = made
        return made

    def loop(self, s, st, fr, it):
        again = s.__dict__.get('_left')
        if again is None:
            again = s._left = Left.of(s)
        if again:
            # the loop is left, and what it found is returned
            st.env['left^'], st.env['found^'] = V.FALSE, V.NONE
            fin = self.loop(again, st, fr, it)
            if fin is None:
                return None
            c, v = fin.env.pop('left^'), fin.env.pop('found^')
            c = V.truthy(self.deref(fin, c))
            if c is not V.FALSE:
                a = fin.clone()
                a.assume(c)
                if not a.facts.bad:
                    fr.returns.append((v, a))
                    self.event('return', fr, s, a, value=v)
                if c is V.TRUE:
                    return None
                fin.assume(V.b_not(c))
            if s.orelse and fin is not None:
                fin = self.block(s.orelse, fin, fr)
            return fin
        lid = f'{fr.name}:{s.lineno}:{s.col_offset}'
        isfor = isinstance(s, ast.For)
        self.cur_loop = f'{s.lineno}:{s.col_offset}'
        elem = self.iter_elem(it, st, fr) if isfor else V.sym('while')

        tests = []

        def once(state):
            ctx = {'breaks': [], 'continues': []}
            fr.loops.append(ctx)
            if isfor:
                self.assign(s.target, elem, state, fr, s)
            else:
                c = self.cond(s.test, state, fr)
                tests.append(c)
                if c is not V.TRUE and c is not V.FALSE:
                    state.assume(c)
            end = self.block(s.body, state, fr)
            fr.loops.pop()
            outs = [(V.NONE, c) for c in ctx['continues']]
            if end is not None:
                outs.append((V.NONE, end))
            return outs, [(V.NONE, b) for b in ctx['breaks']]

        if isfor:
            fr.iotas.append(elem)
        self.dry += 1
        nr, nx, ny = len(fr.returns), len(fr.raises), len(fr.yields)
        probe = st.clone()
        outs, brks = once(probe)
        changed_env, changed_heap = set(), {}
        for _, o in outs + brks:
            for k, v in o.env.items():
                if k in st.env and st.env[k] is not v:
                    changed_env.add(k)
            for h, r in o.heap.items():
                if h in st.heap and st.heap[h] is not r:
                    for k in set(r.slots) | set(st.heap[h].slots):
                        if r.slots.get(k) is not st.heap[h].slots.get(k):
                            changed_heap.setdefault(h, set()).add(k)
        del fr.returns[nr:], fr.raises[nx:], fr.yields[ny:]
        self.dry -= 1
        # what the first iteration happens to leave as it was
        changed_env |= {n.id for x in s.body for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and V.is_num(st.env.get(n.id, V.NONE))}
        targets = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)} if isfor else set()
        body = st.clone()
        carry = {}
        for k in sorted(changed_env):
            if k in targets or st.env[k].op in ('func', 'class', 'module', 'ext'):
                continue
            init = st.env[k]
            r = self.rec(st, init)
            c = mk('carry', lid, k)
            if r is not None and r.kind == 'cell':
                # rebinding of an array variable: follow its value
                init = self.deref(st, init)
            elif r is not None:
                carry[('env', k)] = (c, init)
                if self._rebound(k, r, st, [o for _, o in outs + brks], changed_heap):
                    # every iteration binds the name to a new object: follow its attributes
                    slots = dict(r.slots)
                    for a, w in r.slots.items():
                        wr = self.rec(st, w)
                        if wr is None or wr.kind == 'cell':
                            slots[a] = mk('carry', lid, f'{k}.{a}')
                            carry[('attr', k, a)] = (slots[a], self.deref(st, w))
                    body.env[k] = self.new(body, 'inst', cls=r.cls, slots=slots, open=r.open)
                continue
            elif init.op == 'phi' and not self._containers(init, st):
                init = self.deref(st, init)
            carry[('env', k)] = (c, init)
            body.env[k] = c
        for h, ks in changed_heap.items():
            r = body.heap[h]
            if r.kind == 'list':
                if ks & {'items', 'seq', 'many'}:
                    seq = None
                    if 'items' in r.slots and not any(x.op == 'obj' and (self.rec(st, x) is None or self.rec(st, x).kind != 'cell')
                            for x in r.slots['items'].args[0]):
                        seq = mk('list', tuple(self.deep(st, x) for x in r.slots['items'].args[0]))
                    elif 'seq' in r.slots:
                        seq = r.slots['seq']
                    if seq is not None and not self._appends_objects(h, outs + brks, st):
                        c = mk('carry', lid, f'{h}.seq')
                        carry[('heap', h, 'seq')] = (c, seq)
                        body.heap[h] = HObj('list', r.cls, {'seq': c}, r.open, r.base, r.origin)
                    else:
                        d = dict(r.slots)
                        items = d.pop('items', None)
                        if items is not None and items.args[0]:
                            d['many'] = mk('join', *items.args[0][:1], V.ZERO) if len(items.args[0]) > 1 else items.args[0][0]
                        elif 'many' not in d:
                            d['many'] = V.ABSENT
                        body.heap[h] = HObj(r.kind, r.cls, d, r.open, r.base, r.origin)
                continue
            for k in ks:
                init = r.slots.get(k, V.ABSENT)
                if k == 'shape':
                    continue
                c = mk('carry', lid, f'{h}.{k}')
                if init is V.ABSENT and r.base is not None and r.kind == 'inst' and isinstance(k, str):
                    init = V.attr(r.base, k)
                elif init is V.ABSENT and r.base is not None and r.kind == 'dict' and isinstance(k, V.E):
                    init = mk('idx', r.base, k)
                if init.op == 'phi' and r.base is not None and r.kind == 'inst' and isinstance(k, str):
                    init = gvn._strip(init, V.ABSENT, V.attr(r.base, k))
                if init is not V.ABSENT:
                    ir = self.rec(st, init)
                    if ir is not None and ir.kind == 'cell':
                        init = self.deref(st, init)
                    elif ir is not None:
                        carry[('heap', h, k)] = (c, init)
                        continue
                    elif init.op == 'phi' and not self._containers(init, st):
                        init = self.deref(st, init)
                carry[('heap', h, k)] = (c, init)
                if init is V.ABSENT:
                    continue
                r = r.with_slot(k, c)
            body.heap[h] = r
        outs, brks = once(body)
        if isfor:
            fr.iotas.pop()
        ends = outs + brks
        if not ends:
            return st if isfor else None
        base_pc, base_facts = list(st.pc), st.facts
        fin = ends[0][1] if len(ends) == 1 else self.merge_many(ends)[1]
        fin = State(dict(fin.env), dict(fin.heap), base_pc, base_facts.copy())
        irregular = bool(brks) or not isfor or len(fr.returns) > nr
        its = [x for x in iotas(elem) if x.args[1][3] is const(f'{fr.name}:{s.lineno}:{s.col_offset}')] if isfor else []
        # a bound index stands for the loop element
        bound = its[0] if len(its) == 1 else mk('tuple', tuple(its))
        # values after one generic iteration
        nxt = {}
        for key, (c, init) in carry.items():
            if key[0] == 'env':
                v = fin.env.get(key[1], V.UNBOUND)
            elif key[0] == 'attr':
                r = self.rec(fin, fin.env.get(key[1], V.UNBOUND))
                v = r.slots.get(key[2]) if r is not None and r.kind == 'inst' else None
            else:
                r = fin.heap.get(key[1])
                v = r.slots.get(key[2]) if r is not None else None
                if v is None and r is not None and key[2] == 'seq' and 'many' in r.slots:
                    v = mk('call', 'loop', (r.slots['many'],), ())
            if v is None:
                continue
            vr = self.rec(fin, v)
            if vr is None or vr.kind == 'cell':
                v = self.deref(fin, v)
            nxt[key] = v
        cs = {c for c, _ in carry.values()}
        # when the loop goes on and when an iteration is its last one
        going, last = tests[-1] if tests else V.TRUE, V.b_or(*[V.b_and(*o.pc[len(st.pc):]) for _, o in brks]) if brks else V.FALSE
        seq = len(fr.returns) == nr and (its or not isfor)
        # induction variables: running value before iteration i is init + sum of the increments before i
        # a carried location that no iteration changes keeps its value
        table = {}
        while True:
            more = {}
            for key, v in nxt.items():
                c, init = carry[key]
                if c not in table and isinstance(init, V.E) and init is not V.ABSENT and init is not V.UNBOUND and \
                        (v is c or V.subst(v, table) is init):
                    more[c] = init
            if not more:
                break
            table.update(more)
        kept = set(table)
        nxt = {k: V.subst(v, table) if isinstance(v, V.E) else v for k, v in nxt.items()}
        cs = {c for c in cs if c not in table}
        own = self._own_elements(nxt, carry, its)
        if own:
            nxt = {k: V.subst(v, own) if isinstance(v, V.E) else v for k, v in nxt.items()}
        if not irregular and len(its) == 1:
            for key, v in nxt.items():
                c, init = carry[key]
                if c in table or v is c or not isinstance(v, V.E) or not V.contains(v, c) or init is V.ABSENT or init is V.UNBOUND:
                    continue
                if v.op in ('store', 'lstore', 'gstore', 'phi') or init.op in ('list', 'obj') or v.op == 'call':
                    continue
                d = V.sub(v, c)
                if any(x in cs for x in V.walk(d)):
                    continue
                lo, hi, step = its[0].args[1][:3]
                if V.is_num(d) and step is V.ONE:
                    table[c] = V.add(init, V.mul(d, V.sub(its[0], lo)))
                else:
                    table[c] = V.add(init, mk('call', 'prefix', (d, its[0]), ()))
        def sb(v):
            if not table or not isinstance(v, V.E):
                return v
            return V.subst(v, table)
        closed = {}
        for key, v in nxt.items():
            c, init = carry[key]
            if c in kept:
                w = init
            elif c in table:
                w = V.add(init, mk('call', ACC, (V.sub(v, c), bound), ()))
            elif irregular:
                w = init if v is c else mk('call', 'loop', (v, const(lid)), ())
                if v is not c and seq:
                    w = self.fold(c, {carry[k][0]: (carry[k][1], sb(n)) for k, n in nxt.items()}, its, sb(going), sb(last)) or w
            else:
                w = self.close(sb(v), c, init, bound, its, cs)
                if any(x in cs for x in V.walk(w)):
                    w = self.fold(c, {carry[k][0]: (carry[k][1], sb(n)) for k, n in nxt.items()}, its) or w
            closed[key] = w
        for k, v in list(fin.env.items()):
            if table and isinstance(v, V.E) and k not in st.env:
                fin.env[k] = sb(v)
        if table:
            for h, r in list(fin.heap.items()):
                if h in st.heap and st.heap[h] is r:
                    continue
                for k, v in list(r.slots.items()):
                    if isinstance(v, V.E) and v.op not in ('const', 'obj', 'sym'):
                        w = sb(v)
                        if w is not v:
                            r = r.with_slot(k, w)
                fin.heap[h] = r
        renewed = set()
        for key, w in closed.items():
            if key[0] == 'env':
                cur = fin.env.get(key[1])
                r = self.rec(fin, cur) if cur is not None else None
                if r is not None and r.kind != 'cell':
                    continue
                if r is not None and r.kind == 'cell':
                    w = self.cell(fin, w, r.slots.get('shape'))
                fin.env[key[1]] = w
            elif key[0] == 'attr':
                cur = fin.env[key[1]]
                r = fin.heap[cur.args[0]]
                if key[1] not in renewed:
                    # other names of the object of the last iteration keep it
                    renewed.add(key[1])
                    cur = fin.env[key[1]] = self.new(fin, 'inst', cls=r.cls, slots=dict(r.slots), open=r.open)
                    r = fin.heap[cur.args[0]]
                cr = self.rec(fin, r.slots[key[2]])
                if cr is not None and cr.kind == 'cell':
                    w = self.cell(fin, w, cr.slots.get('shape'))
                fin.heap[cur.args[0]] = r.with_slot(key[2], w)
            else:
                r = fin.heap.get(key[1])
                if r is not None and key[2] in r.slots:
                    cur = r.slots[key[2]]
                    cr = self.rec(fin, cur)
                    if cr is not None and cr.kind == 'cell':
                        w = self.cell(fin, w, cr.slots.get('shape'))
                    elif cr is not None:
                        continue
                    fin.heap[key[1]] = r.with_slot(key[2], w)
        for k, v in list(fin.env.items()):
            if k not in st.env and v.op == 'phi' and self._has_unbound(v):
                fin.env[k] = self.strip_varying(v, isfor)
        # names set by every iteration hold what the last one gave them
        at = {its[0]: V.sub(its[0].args[1][1], V.ONE)} if not irregular and len(its) == 1 and its[0].args[1][2] is V.ONE else None
        inner = {c for c, _ in carry.values()} | set(its)
        for k, v in list(fin.env.items()) if seq else ():
            if k in st.env and k not in targets:
                continue
            r = self.rec(fin, v)
            if r is not None and r.kind != 'cell':
                continue
            w = self.deref(fin, v)
            if not any(x in inner for x in V.walk(w)) or w.op == 'obj' or self._has_unbound(w):
                continue
            before = st.env.get(k, V.UNBOUND)
            if at and not any(x.op == 'carry' for x in V.walk(w)):
                lo, hi = its[0].args[1][:2]
                w = V.phi(V.cmp('<', lo, hi), V.subst(w, at), before)
            else:
                c = mk('carry', lid, f'{k}$')
                w = self.fold(c, {c: (before, w), **{carry[q][0]: (carry[q][1], sb(n)) for q, n in nxt.items()}}, its, sb(going), sb(last))
                if w is None:
                    continue
            fin.env[k] = w if r is None else self.cell(fin, w, r.slots.get('shape'))
        if s.orelse:
            fin = self.block(s.orelse, fin, fr)
        return fin

    def _rebound(self, k, r, st, ends, changed):
        if r.kind != 'inst' or r.base is not None or st.env[k].args[0] in changed:
            return False
        for o in ends:
            w = self.rec(o, o.env.get(k, V.UNBOUND))
            if w is None or w.kind != 'inst' or w.cls is not r.cls or o.env[k] is st.env[k] or w.base is not None:
                return False
        return True

    def _appends_objects(self, h, outs, st):
        for _, o in outs:
            r = o.heap.get(h)
            if r is None:
                continue
            for x in (r.slots['items'].args[0] if 'items' in r.slots else [r.slots.get('many'), r.slots.get('seq')]):
                if isinstance(x, V.E) and x.op == 'obj':
                    z = o.heap.get(x.args[0])
                    if z is not None and z.kind not in ('cell',):
                        return True
                if isinstance(x, V.E) and x.op in ('call',) and x.args[0] == 'append' and x.args[1][1].op == 'obj':
                    return True
        return False

    def fold(self, c, group, its, going=V.TRUE, last=V.FALSE):
        """value of c after the iterations, as a simultaneous recurrence with the locations it depends on"""
        if not its and going is V.TRUE and last is V.FALSE:
            return None
        need, todo = [], [y for w in (going, last) for y in V.walk(w) if y in group] + [c]
        while todo:
            x = todo.pop()
            if x in need:
                continue
            init, v = group[x]
            if not isinstance(v, V.E) or not isinstance(init, V.E) or v.op == 'obj' or init.op == 'obj':
                return None
            need.append(x)
            todo += [y for y in V.walk(v) if y in group]
        # a name of its own where the same loop was passed before (of an enclosing one that was unrolled)
        taken = {y for x in need for w in group[x] + (going, last) for y in V.walk(w) if y.op == 'carry'}
        for n in range(1, 100):
            names = {x: mk('carry', x.args[0], f'{x.args[1]}' + '^' * n) for x in need}
            if not any(y in taken for y in names.values()):
                break
        else:
            return None
        return mk('call', 'fold', (mk('tuple', tuple(its)), mk('tuple', tuple(names[x] for x in need)), mk('tuple', tuple(group[x][0] for x in need)),
            mk('tuple', tuple(V.subst(group[x][1], names) for x in need)), V.subst(going, names), V.subst(last, names)), ())

    def close(self, v, c, init, elem, its, cs, guard=V.TRUE):
        """closed form of the carried value after the loop; c stands for its value before an iteration"""
        if v is c:
            return init
        if not any(x in cs for x in V.walk(v)):
            return v if guard is V.TRUE else mk('call', 'loop', (v,), ())
        bad = mk('call', 'loop', (v,), ())
        free = lambda x: not any(y in cs for y in V.walk(x))  # noqa: E731
        if v.op in ('store', 'gstore', 'lstore'):
            base = self.close(v.args[0], c, init, elem, its, cs, guard)
            ix, val = v.args[1], v.args[2]
            inner = v.args[4].args[0] if v.op == 'lstore' else ()
            mode = v.args[5] if v.op == 'lstore' else SET
            g = guard if v.op == 'store' else V.b_and(guard, v.args[3])
            if not free(ix) or not free(g):
                return bad
            binders = mk('tuple', tuple(its) + tuple(inner))
            if mode is ADD:
                return mk('lstore', base, ix, val, g, binders, ADD) if free(val) and its else bad
            if free(val):
                return mk('lstore', base, ix, val, g, binders, SET)
            d = V.sub(val, self.plain_idx(c, ix))
            if free(d) and its:
                return mk('lstore', base, ix, d, g, binders, ADD)
            if self._injective(ix, its):
                w = V.subst(val, {self.plain_idx(c, ix): self.plain_idx(init, ix)})
                if free(w):
                    return mk('lstore', base, ix, w, g, binders, SET)
            return bad
        if v.op == 'phi':
            cond, a, b = v.args
            if free(cond):
                if not any(x in its for x in V.walk(cond)):
                    return V.phi(cond, self.close(a, c, init, elem, its, cs, guard), self.close(b, c, init, elem, its, cs, guard))
                sa, sb = self._chain(a, c), self._chain(b, c)
                if sa and sb:
                    # guarded element assignments; the two branches never both fire
                    x = self.close(a, c, init, elem, its, cs, V.b_and(guard, cond))
                    return self.close(b, c, x, elem, its, cs, V.b_and(guard, V.b_not(cond)))
                la, lb = self._append(a, c), self._append(b, c)
                if la is not None and lb is not None and guard is V.TRUE and (not la or not lb):
                    g, xs = (cond, la) if la else (V.b_not(cond), lb)
                    if all(free(x) for x in xs):
                        return mk('call', 'concatseq', (init,) + (mk('call', 'comp', (xs[0] if len(xs) == 1 else mk('tuple', tuple(xs)), g, elem), ()),), ())
                da, db = V.sub(a, c), V.sub(b, c)
                if free(da) and free(db) and its:
                    d = V.phi(cond, da, db)
                    if guard is not V.TRUE:
                        d = V.phi(guard, d, V.ZERO)
                    return V.add(init, mk('call', ACC, (d, elem), ()))
            return bad
        xs = self._append(v, c)
        if xs is not None and all(free(x) for x in xs) and guard is V.TRUE:
            return mk('call', 'concatseq', (init,) + tuple([mk('call', 'comp', (xs[0], V.TRUE, elem), ())] if len(xs) == 1 else
                [mk('call', 'comp*', (mk('tuple', tuple(xs)), V.TRUE, elem), ())]), ())
        if v.op == 'call' and v.args[0] == 'concatseq' and v.args[1][0] is c and free(mk('tuple', v.args[1][1:])) and guard is V.TRUE:
            return mk('call', 'concatseq', (init, mk('call', 'flatcomp', v.args[1][1:] + (elem,), ())), ())
        d = V.sub(v, c)
        if free(d) and its:
            if guard is not V.TRUE:
                d = V.phi(guard, d, V.ZERO)
            return V.add(init, mk('call', ACC, (d, elem), ()))
        return bad

    def _own_elements(self, nxt, carry, its):
        """reads of elements that only the same iteration writes see the value from before the loop"""
        out = {}
        for key, v in nxt.items():
            c, init = carry[key]
            if not isinstance(v, V.E) or v is c or not isinstance(init, V.E) or init in (V.ABSENT, V.UNBOUND):
                continue
            ixs = self._written(v, c)
            if not ixs:
                continue
            for p in range(min(len(x) for x in ixs)):
                if any(ixs[0][p] is i for i in its) and all(x[p] is ixs[0][p] for x in ixs):
                    for w in nxt.values():
                        for x in V.walk(w) if isinstance(w, V.E) else ():
                            if x.op == 'idx' and x.args[0] is c:
                                parts = x.args[1].args[0] if x.args[1].op == 'tuple' else (x.args[1],)
                                if len(parts) > p and parts[p] is ixs[0][p]:
                                    out[x] = self.plain_idx(init, x.args[1])
                    break
        return out

    def _written(self, v, c):
        if v is c:
            return []
        if v.op in ('store', 'gstore', 'lstore'):
            rest = self._written(v.args[0], c)
            ix = v.args[1]
            parts = ix.args[0] if ix.op == 'tuple' else (ix,)
            return None if rest is None or any(p is const(Ellipsis) or p is V.NONE for p in parts) else rest + [parts]
        if v.op == 'phi':
            a, b = self._written(v.args[1], c), self._written(v.args[2], c)
            return None if a is None or b is None else a + b
        return None

    def _chain(self, v, c):
        while v is not c:
            if v.op in ('store', 'gstore', 'lstore'):
                v = v.args[0]
            elif v.op == 'phi' and self._chain(v.args[1], c) and self._chain(v.args[2], c):
                return True
            else:
                return False
        return True

    def _append(self, v, c):
        xs = []
        while v is not c:
            if v.op == 'call' and v.args[0] == 'append':
                xs.append(v.args[1][1])
                v = v.args[1][0]
            else:
                return None
        return list(reversed(xs))

    def _injective(self, ix, its):
        parts = ix.args[0] if ix.op == 'tuple' else (ix,)
        for p in parts:
            for i in its:
                if p is i:
                    return True
                d = V.sub(p, i)
                if V.is_num(d):
                    return True
        return False

    # arrays --------------------------------------------------------------------
    def plain_idx(self, v, ix):
        if v.op == 'store' and v.args[1] is ix and not _sliced(ix):
            return v.args[2]
        if v.op == 'store' and v.args[1] is not ix and gvn._disjoint(v.args[1], ix):
            return self.plain_idx(v.args[0], ix)
        if v.op == 'tuple' and V.is_num(ix):
            i = int(V.cval(ix))
            if -len(v.args[0]) <= i < len(v.args[0]):
                return v.args[0][i]
        if v.op == 'call' and v.args[0] == 'iota' and ix.op == 'call' and ix.args[0] == 'iotav' and v.args[1][0] is V.ZERO \
                and v.args[1][2] is V.ONE:
            return ix
        if v.op == 'call' and v.args[0] == 'comp' and ix.op == 'call' and ix.args[0] == 'iotav' and v.args[1][1] is V.TRUE:
            pass
        if v.op == 'phi':
            return V.phi(v.args[0], self.plain_idx(v.args[1], ix), self.plain_idx(v.args[2], ix)) \
                if v.args[1] is not V.UNBOUND and v.args[2] is not V.UNBOUND else mk('idx', v, ix)
        return mk('idx', v, ix)

    def mkstore(self, base, ix, val):
        if base.op == 'store' and base.args[1] is ix and not _sliced(ix):
            return mk('store', base.args[0], ix, val)
        return mk('store', base, ix, val)

    def setitem(self, b, ix, v, st, fr, node):
        full = gvn._full
        gvn._full = lambda x: False
        try:
            rr = self.rec(st, st.facts.resolve(b))
            if rr is not None and rr.kind == 'list' and 'seq' in rr.slots:
                self.setrec(st, b, rr.with_slot('seq', self.mkstore(rr.slots['seq'], ix, self.deref(st, v))))
                return None
            b = st.facts.resolve(b)
            if b.op == 'phi' and not self._containers(b, st):
                # an array that is one of several values: the name is rebound to the updated array
                new = self.mkstore(self.deref(st, b), ix, self.deref(st, v))
                super().setitem(b, ix, v, st, fr, node)
                c = self.cell(st, new)
                for k, x in list(st.env.items()):
                    if x is b:
                        st.env[k] = c
                for h, q in list(st.heap.items()):
                    for k, x in q.slots.items():
                        if x is b and q.kind != 'cell':
                            st.heap[h] = st.heap[h].with_slot(k, c)
                return None
            return super().setitem(b, ix, v, st, fr, node)
        finally:
            gvn._full = full

    def _containers(self, v, st):
        if v.op == 'phi':
            return self._containers(v.args[1], st) or self._containers(v.args[2], st)
        r = self.rec(st, v)
        return r is not None and r.kind != 'cell' or v in (V.ABSENT, V.UNBOUND)

    def getitem(self, b, ix, st, fr, node):
        bb = st.facts.resolve(b)
        r = self.rec(st, bb)
        if r is not None and r.kind == 'list' and 'seq' in r.slots:
            if ix.op == 'slice' and ix.args[0] in (V.NONE, V.ZERO) and ix.args[1] is V.NONE and ix.args[2] in (V.NONE, V.ONE):
                return self.new(st, 'list', slots={'seq': r.slots['seq']})
            return self.plain_idx(r.slots['seq'], ix)
        if r is not None and r.kind == 'list' and 'items' in r.slots and ix.op not in ('const', 'slice', 'tuple'):
            items = r.slots['items'].args[0]
            if items and all((q := self.rec(st, st.facts.resolve(x))) is not None and q.kind == 'inst' for x in items):
                # one of several known objects
                return mk('pick', items, self.deep(st, ix))
        if V.is_num(ix) and (r is None or r.kind == 'cell') and bb.op not in ('tuple', 'const') and \
                any(not names or set(names) & {'IndexError', 'LookupError', 'Exception', 'BaseException'} for names in self.catching):
            return mk('call', 'zipitem', (self.deep(st, bb), ix), ())
        return super().getitem(b, ix, st, fr, node)

    def deep(self, st, v, depth=0):
        v = self.deref(st, v)
        if v.op == 'obj' and depth < 4:
            r = st.heap.get(v.args[0])
            if r is not None and r.kind == 'list' and 'seq' in r.slots:
                return r.slots['seq']
        return super().deep(st, v, depth)

    def getattr(self, b, name, st, fr, node):
        if b.op == 'pick':
            return mk('idx', mk('tuple', tuple(self.deep(st, self.getattr(x, name, st, fr, node)) for x in b.args[0])), b.args[1])
        if name == 'ndim' and self.ranks:
            k = self.rank(self.deref(st, b))
            if k is not None:
                return const(k)
        if name == 'T':
            bb = st.facts.resolve(b)
            r = self.rec(st, bb)
            if r is None or r.kind == 'cell':
                return mk('call', 'numpy.transpose', (self.deref(st, bb),), ())
        return super().getattr(b, name, st, fr, node)

    def repeated_list(self, st, items, k):
        return self.new(st, 'list', slots={'seq': mk('call', 'repeat', (self.deep(st, items), self.deep(st, k)), ())})

    def _starred(self, n, st, fr):
        out = mk('tuple', ())
        for x in n.elts:
            if not isinstance(x, ast.Starred):
                out = gvn.joined(out, mk('tuple', (self.ev(x, st, fr),)))
                continue
            v = self.ev(x.value, st, fr)
            items = self.known_items(v, st)
            out = gvn.joined(out, mk('tuple', tuple(items)) if items is not None else mk('call', 'totuple', (self.deep(st, v),), ()))
        return out

    def e_List(self, n, st, fr):
        if any(isinstance(x, ast.Starred) for x in n.elts):
            t = self._starred(n, st, fr)
            if t.op != 'tuple':
                return self.new(st, 'list', slots={'seq': t})
            return self.new(st, 'list', slots={'items': mk('list', t.args[0])})
        return super().e_List(n, st, fr)

    def partly(self, st, pairs):
        """a list whose items are there on conditions"""
        none = mk('list', ())
        return self.new(st, 'list', slots={'seq': mk('call', 'concatseq', tuple(
            V.phi(c, mk('list', (self.deep(st, x),)), none) for c, x in pairs), ())})

    def x_list(self, args, a, kw, st, fr, n):
        out = super().x_list(args, a, kw, st, fr, n)
        if out is None and args:
            r = self.rec(st, args[0])
            if r is not None and r.kind == 'list' and 'seq' in r.slots:
                return self.new(st, 'list', slots={'seq': r.slots['seq']})
            if r is None and a[0].op == 'sym' and not str(a[0].args[0]).startswith('?') or a[0].op == 'call' and (a[0].args[0] == 'iota' or a[0].args[0] in ev.SAFE or
                    a[0].args[0].startswith('itertools.')) or r is not None and r.kind == 'cell' or r is None and a[0].op in ('idx', 'poly'):
                return self.new(st, 'list', slots={'seq': mk('call', 'aslist', (self.deep(st, a[0]),), ())})
        return out

    def x_tuple(self, args, a, kw, st, fr, n):
        out = super().x_tuple(args, a, kw, st, fr, n)
        if out is None and args:
            return mk('call', 'totuple', (self.deep(st, args[0]),), ())
        return out

    def known_items(self, it, st):
        out = super().known_items(it, st)
        if out is None and self.stand:
            v = self.deref(st, it)
            if v.op == 'call' and v.args[0] == 'numpy.argsort' and v.args[1][0].op in ('tuple', 'list') and len(v.args[1][0].args[0]) <= 64:
                return [self.plain_idx(v, const(k)) for k in range(len(v.args[1][0].args[0]))]
        return out

    def list_extend(self, st, recv, v):
        r = self.rec(st, recv)
        items = self.known_items(v, st)
        if 'seq' not in r.slots:
            vr = self.rec(st, v)
            if items is not None or 'items' not in r.slots or not (vr is None and v.op in ('sym', 'idx', 'poly') or vr is not None and (vr.kind == 'cell' or vr.kind == 'list' and 'seq' in vr.slots)) or \
                    any(x.op == 'obj' and (self.rec(st, x) is None or self.rec(st, x).kind != 'cell') for x in r.slots['items'].args[0]):
                return super().list_extend(st, recv, v)
            seq = mk('list', tuple(self.deep(st, x) for x in r.slots['items'].args[0]))
            r = HObj('list', r.cls, {}, r.open, r.base, r.origin)
        else:
            seq = r.slots['seq']
        if items is None:
            seq = mk('call', 'concatseq', (seq, self.deep(st, v)), ())
        else:
            for x in items:
                seq = mk('call', 'append', (seq, self.deep(st, x)), ())
        self.setrec(st, recv, r.with_slot('seq', seq))

    def list_method(self, recv, r, name, args, kw, st, fr, n):
        if 'seq' in r.slots:
            seq = r.slots['seq']
            part = lambda lo, hi, step=V.NONE: self.plain_idx(seq, mk('slice', lo, hi, step))
            new = got = None
            if name == 'pop' and not args:
                new, got = part(V.NONE, const(-1)), self.plain_idx(seq, const(-1))
            elif name == 'pop' and args[0] is V.ZERO:
                new, got = part(V.ONE, V.NONE), self.plain_idx(seq, V.ZERO)
            elif name == 'insert' and len(args) == 2 and V.is_num(args[0]) and V.cval(args[0]) >= 0:
                new = mk('call', 'concatseq', (part(V.NONE, args[0]), mk('list', (self.deep(st, args[1]),)), part(args[0], V.NONE)), ())
            elif name == 'reverse':
                new = part(V.NONE, V.NONE, const(-1))
            elif name == 'sort' and not args:
                new = mk('call', 'sorted', (seq,), tuple((k, self.deep(st, v)) for k, v in sorted(kw.items())))
            if new is not None:
                self.setrec(st, recv, r.with_slot('seq', new))
                return V.NONE if got is None else got
            if name in ('sort', 'reverse', 'insert', 'remove', 'pop', 'clear'):
                self.setrec(st, recv, HObj('list', r.cls, {'many': mk('opaque', name)}, r.open, r.base, r.origin))
                return V.NONE if name != 'pop' else mk('opaque', name)
            if name == 'append' and args:
                self.setrec(st, recv, r.with_slot('seq', mk('call', 'append', (r.slots['seq'], self.deep(st, args[0])), ())))
                return V.NONE
            if name == 'extend' and args:
                self.setrec(st, recv, r.with_slot('seq', mk('call', 'concatseq', (r.slots['seq'], self.deep(st, args[0])), ())))
                return V.NONE
        if name == 'insert' and len(args) == 2 and 'items' in r.slots and V.is_num(args[0]):
            it = list(r.slots['items'].args[0])
            it.insert(int(V.cval(args[0])), args[1])
            self.setrec(st, recv, r.with_slot('items', mk('list', tuple(it))))
            return V.NONE
        if name == 'reverse' and 'items' in r.slots:
            self.setrec(st, recv, r.with_slot('items', mk('list', r.slots['items'].args[0][::-1])))
            return V.NONE
        if name == 'index' and len(args) == 1 and 'items' in r.slots:
            x = gvn.plain(self.deep(st, args[0]))
            vals = [gvn.plain(self.deep(st, y)) for y in r.slots['items'].args[0]]
            if x is not None and None not in vals:
                if x in vals:
                    return const(vals.index(x))
                self.missing(st, fr, n, 'ValueError')
        if name == 'count' and len(args) == 1 and 'items' in r.slots:
            x = gvn.plain(self.deep(st, args[0]))
            vals = [gvn.plain(self.deep(st, y)) for y in r.slots['items'].args[0]]
            if x is not None and None not in vals:
                return const(vals.count(x))
        return super().list_method(recv, r, name, args, kw, st, fr, n)

    def x_len(self, args, a, kw, st, fr, n):
        r = self.rec(st, args[0]) if args else None
        if r is not None and r.kind == 'list' and 'seq' in r.slots:
            return mk('call', 'len', (r.slots['seq'],), ())
        if self.stand and len(a) == 1 and V.is_str(a[0]):
            return const(len(V.cval(a[0])))
        return super().x_len(args, a, kw, st, fr, n)

    def value_method(self, recv, name, args, kw, st, fr, n):
        v = self.deref(st, recv)
        if name == 'filled' and not self.stand and (self.rec(st, recv) is not None or v.op == 'call'):
            return self.cell(st, mk('call', '.filled', (v, *[self.deep(st, x) for x in args]), tuple(sorted((k, self.deep(st, x)) for k, x in kw.items()))))
        if name in ('timetuple', 'utctimetuple') and not args and not kw and self.rec(st, recv) is None:
            fields = [mk('attr', v, k) for k in ('year', 'month', 'day', 'hour', 'minute', 'second')]
            return mk('tuple', (*fields, mk('call', '.weekday', (v,), ()), mk('call', 'yday', (v,), ()), const(0 if name[0] == 'u' else -1)))
        if v.op == 'tuple' and name in ('group', 'groups'):
            at = [int(V.cval(x)) if V.is_num(x) else -1 for x in args] or [0]
            if name == 'groups' and not args:
                return mk('tuple', v.args[0][1:])
            if name == 'group' and all(0 <= i < len(v.args[0]) for i in at):
                return v.args[0][at[0]] if len(at) == 1 else mk('tuple', tuple(v.args[0][i] for i in at))
        if v.op == 'call' and v.args[0] == 'text' and name in ('replace', 'strip', 'lower', 'upper', 'lstrip', 'rstrip'):
            # a printed number has none of the letters that are replaced
            return v
        if self.stand and (v.op == 'fstr' or V.is_str(v)) and name in TEXTS:
            c = [self.deref(st, x) for x in args] + [self.deref(st, kw[k]) for k in ('sep', 'maxsplit') if k in kw]
            if 'maxsplit' in kw and 'sep' not in kw and not args:
                c.insert(0, V.NONE)
            out = text.method(v, name, c)
            if isinstance(out, tuple):
                return self.new(st, 'list', slots={'items': mk('list', out)})
            if out is not None:
                return out
        if name == 'join' and V.is_str(v) and self.stand and len(args) == 1:
            items = self.known_items(args[0], st)
            ps = None if items is None else [text.parts(self.deref(st, x)) for x in items]
            if ps is not None and all(x is not None for x in ps):
                out = []
                for i, x in enumerate(ps):
                    out += ([(V.cval(v), None)] if i else []) + x
                return text.build(out) if out else const('')
        if name == 'format' and v.op == 'phi' and self.stand and not kw and all(V.is_str(x) for x in v.args[1:]):
            return V.phi(v.args[0], *[self.value_method(x, name, args, kw, st, fr, n) for x in v.args[1:]])
        if name == 'format' and V.is_str(v) and self.stand and not kw:
            if text.unprintable(V.cval(v), args):
                self.missing(st, fr, n, 'TypeError')
            f = text.formatted(V.cval(v), [self.deep(st, x) for x in args])
            if f is not None:
                return f
        if name in SMETH and not V.is_str(v) and v.op not in ('fstr',):
            return self.cell(st, mk('call', '.' + name, (self.deep(st, recv),) + tuple(self.deep(st, x) for x in args),
                tuple(sorted((k, self.deep(st, x)) for k, x in kw.items()))))
        if name == 'astype' and args and args[0].op == 'ext' and str(args[0].args[0]).rsplit('.', 1)[-1] in ('int', 'int64', 'int32', 'bool'):
            return self.cell(st, mk('call', 'bool' if 'bool' in args[0].args[0] else 'int', (v,), ()))
        return super().value_method(recv, name, args, kw, st, fr, n)

    def numbers(self, x, st, dtype):
        """text converted to numbers"""
        d = self.deref(st, dtype)
        if d.op == 'ext' and str(d.args[0]).endswith(('str', 'object', 'bytes')) or V.is_str(d) and V.cval(d)[:1] in 'USO':
            return x
        v = self.deref(st, x)
        r = self.rec(st, v)
        if v.op == 'fstr' or V.is_str(v):
            k = text.number(v)
            return x if k is None else k
        items = r.slots['items'].args[0] if r is not None and r.kind == 'list' and 'items' in r.slots else v.args[0] if v.op in ('tuple', 'list') else None
        if items is None or not any(self.deref(st, y).op in ('fstr', 'tuple', 'list') or V.is_str(self.deref(st, y)) or self.rec(st, y) is not None for y in items):
            return x
        new = tuple(self.numbers(y, st, dtype) for y in items)
        return mk('tuple', new) if v.op == 'tuple' else self.new(st, 'list', slots={'items': mk('list', new)})

    def ext_call(self, name, args, kw, star, st, fr, n):
        name = gvn.NP_ALIAS.get(name, name)
        if name == 'itertools.islice' and len(args) == 2 and not kw and V.is_num(self.deref(st, args[1])) and self.left(args[0], st, fr, n) is not None:
            k = min(self.left(args[0], st, fr, n), int(V.cval(self.deref(st, args[1]))))
            return self.new(st, 'list', slots={'items': mk('list', tuple(self.drawn(args[0], st, fr, n) for _ in range(k))), 'once': V.TRUE})
        if name == 'zip' and len(args) > 1 and not kw and all(x is args[0] for x in args) and self.left(args[0], st, fr, n) is not None:
            # the items in groups
            k = self.left(args[0], st, fr, n) // len(args)
            return self.new(st, 'list', slots={'items': mk('list', tuple(mk('tuple', tuple(self.drawn(args[0], st, fr, n) for _ in args)) for _ in range(k))), 'once': V.TRUE})
        if name == 'itertools.islice' and 1 < len(args) < 5 and not kw and not star:
            items = self.known_items(args[0], st)
            ends = [self.deref(st, x) for x in args[1:]]
            if items is not None and self.left(args[0], st, fr, n) is None and all(x is V.NONE or V.is_num(x) and V.cval(x).denominator == 1 for x in ends):
                ends = [None if x is V.NONE else int(V.cval(x)) for x in ends]
                return self.new(st, 'list', slots={'items': mk('list', tuple(itertools.islice(items, *ends))), 'once': V.TRUE})
        if name in COMBINED:
            got = self.combined(name[10:], args, kw, st, fr, n) if not star else None
            if got is not None:
                return got
        if name in ITERATES and self.stand:
            args = [self.iterable(x, st, fr, n) if name != 'iter' or self.left(x, st, fr, n) is None else x for x in args]
        elif name in ITERATES and name != 'iter':
            args = [self.iterable(x, st, fr, n) if self.rec(st, x) is not None and 'once' in self.rec(st, x).slots else x for x in args]
        if name in ('numpy.nansum', 'numpy.nanmean'):
            return mk('call', name, tuple(self.deep(st, x) for x in args), tuple(sorted((k, self.deep(st, x)) for k, x in kw.items())))
        if name.startswith('operator.') and name[9:] in OPERATORS and len(args) == (1 if name[9:] in ('neg', 'pos', 'not_', 'invert', 'abs', 'truth') else 2) and not kw and not star:
            return self.written(n, OPERATORS[name[9:]], st, fr, *args)
        if name in ('operator.attrgetter', 'operator.itemgetter') and len(args) == 1 and not kw and (name[9] == 'i' or V.is_str(self.deref(st, args[0]))):
            text_ = 'lambda given_, key_=$0: given_[key_]' if name[9] == 'i' else f'lambda given_: given_.{V.cval(self.deref(st, args[0]))}'
            return self.written(n, text_, st, fr, *args)
        if name in NUMBERS and len(args) == 1 and not kw:
            v = self.deref(st, args[0])
            v = text.number(v) if v.op == 'fstr' or V.is_str(v) else None
            if v is not None:
                args = [v]
        if name in FOLD and self.stand and not kw:
            got = self.texts(args, st)
            if got is not None:
                out = FOLD[name](*got)
                return mk('tuple', tuple(const(x) for x in out)) if isinstance(out, tuple) else const(out)
        if name in ('numpy.array', 'numpy.asarray') and args and 'dtype' in kw and self.stand:
            args = [self.numbers(args[0], st, kw['dtype'])] + list(args[1:])
        if name in ('numpy.int64', 'numpy.int32', 'numpy.int_') and len(args) == 1 and not kw:
            v = self.deep(st, args[0])
            # a number read from text need not be a whole one
            if not (v.op == 'call' and v.args[0] in WHOLE) and \
                    (any(x.op == 'call' and x.args[0] == 'text' for x in V.walk(v)) or fractional(v)):
                return self.cell(st, mk('call', 'int', (v,), ()))
        if name in STRUCT and args:
            r = self.rec(st, args[0])
            if r is None or r.kind == 'cell' or r.kind == 'list':
                a0 = self.deep(st, args[0])
                plain = name in ('numpy.array', 'numpy.asarray', 'numpy.asanyarray') and a0.op not in ('tuple', 'list', 'many') and \
                    not (r is not None and r.kind == 'list')
                if plain and len(args) == 1:
                    return self.cell(st, a0, r.slots.get('shape') if r is not None and r.kind == 'cell' else None)
                if a0.op == 'many':
                    a0 = mk('call', 'loop', (a0,), ())
                ks = tuple(sorted((k, self.deep(st, x)) for k, x in kw.items() if k not in ('copy',)))
                self.event('extcall', fr, n, st, name=name, args=args, kw=kw)
                return self.cell(st, mk('call', name, (a0,) + tuple(self.deep(st, x) for x in args[1:]), ks))
        if name in gvn.ZERO_FUNCS or name in gvn.ONE_FUNCS:
            base = super().ext_call(name, args, kw, star, st, fr, n)
            r = self.rec(st, base)
            fill = V.ZERO if name in gvn.ZERO_FUNCS else V.ONE
            dt = kw.get('dtype')
            if dt is not None and dt.op == 'ext' and 'bool' in str(dt.args[0]):
                fill = V.FALSE if fill is V.ZERO else V.TRUE
            if name.endswith('_like'):
                val = mk('call', 'full_like', (self.deep(st, args[0]), fill), ())
            else:
                dv = () if dt is None or dt.op != 'attr' or dt.args[1] != 'dtype' else (self.deref(st, dt.args[0]),)
                if dt is not None and dt.op == 'ext' and str(dt.args[0]).rsplit('.', 1)[-1].startswith(('int', 'uint', 'byte')):
                    dv = (const('int'),)
                val = mk('call', 'full', (self.deep(st, args[0]) if args else V.ONE, fill) + dv, ())
            if r is not None and r.kind == 'cell':
                self.setrec(st, base, r.with_slot('v', val))
                return base
        return super().ext_call(name, args, kw, star, st, fr, n)

    def x_sum(self, args, a, kw, st, fr, n):
        """the sum of what comes one after the other"""
        if not args or set(kw) - {'start'} or len(args) > 2:
            return None
        first = args[1] if len(args) > 1 else kw.get('start', V.ZERO)
        items = self.known_items(args[0], st)
        if items is not None and len(items) <= 64:
            tot = self.deref(st, first)
            for x in items:
                v = self.operated(ast.Add(), tot, x, st, fr, n)
                tot = self.binop(ast.Add(), self.deref(st, tot), self.deref(st, x), st) if v is None else v
            return tot
        r = self.rec(st, args[0])
        if first is not V.ZERO or r is not None and r.kind not in ('cell', 'list') or a[0].op == 'call' and a[0].args[0] in ('dictvalues', 'dictkeys', 'dictitems', 'zip', 'enumerate', 'generator'):
            return None
        return mk('call', 'sum', (self.deep(st, args[0]),), (('axis', V.ZERO),))

    def x_copy_deepcopy(self, args, a, kw, st, fr, n):
        if len(args) != 1 or kw:
            return None
        done = {}

        def clone(v):
            v = st.facts.resolve(v)
            if v in done:
                return done[v]
            if v.op == 'phi':
                return V.phi(v.args[0], clone(v.args[1]), clone(v.args[2]))
            if v.op == 'tuple':
                return mk('tuple', tuple(clone(x) for x in v.args[0]))
            r = self.rec(st, v)
            if r is None or r.cls is not None and r.cls.module.rel == '<store>':
                return v
            if r.kind == 'cell':
                c = done[v] = self.cell(st, self.deref(st, v), r.slots.get('shape'))
                return c
            c = done[v] = self.new(st, r.kind, cls=r.cls, slots={}, open=r.open, base=r.base)
            slots = {}
            for k, x in r.slots.items():
                if k == 'items' and r.kind == 'list':
                    slots[k] = mk('list', tuple(clone(y) for y in x.args[0]))
                else:
                    slots[k] = clone(x) if isinstance(x, V.E) else x
            self.setrec(st, c, HObj(r.kind, r.cls, slots, r.open, r.base, r.origin))
            return c
        r = self.rec(st, st.facts.resolve(args[0]))
        if r is None and args[0].op not in ('phi', 'tuple'):
            return None
        return clone(args[0])

    def inline_ok(self, func, fr):
        # recursion over given text ends as it would
        return super().inline_ok(func, fr) or self.settled and fr.depth < 40 and self.inline(func, fr)

    settled = False

    def call_func(self, func, args, kw, st, fr, n, *more, **other):
        if func.outer is None and any(d.split('(')[0].rsplit('.', 1)[-1] not in KNOWN_DECORATORS for d in func.decorators):
            self.escaped.append(f'decorators of {func.qual}')
        self.settled = bool(self.stand) and bool(args) and self.texts(args, st) is not None
        return super().call_func(func, args, kw, st, fr, n, *more, **other)

    def x_sorted(self, args, a, kw, st, fr, n):
        items = self.known_items(args[0], st) if self.stand and set(kw) <= {'key', 'reverse'} and kw and args else None
        if items is not None:
            key = kw.get('key', V.NONE)
            keys = [self.deref(st, x) if key is V.NONE else self.deref(st, self.apply(key, [x], {}, None, st, fr, n)) for x in items]
            down = self.deref(st, kw.get('reverse', V.FALSE))
            if all(x.op == 'const' for x in keys) and down in (V.TRUE, V.FALSE) and len({x.args[0] for x in keys}) <= 1:
                order = sorted(range(len(items)), key=lambda i: V.cval(keys[i]), reverse=down is V.TRUE)
                return self.new(st, 'list', slots={'items': mk('list', tuple(items[i] for i in order))})
        if self.stand and kw:
            return mk('call', 'order', (self.deep(st, args[0]),), ())
        if 'key' in kw and set(kw) <= {'key', 'reverse'} and args:
            got = self.compared(args[0], kw['key'], st, fr, n)
            if got is not None:
                return self.new(st, 'list', slots={'seq': mk('call', 'sortby', (*got, self.deep(st, kw.get('reverse', V.FALSE))), ())})
        return super().x_sorted(args, a, kw, st, fr, n)

    def compared(self, xs, key, st, fr, n):
        """the items of a sequence and what they are compared by"""
        if self.deref(st, key) is V.NONE:
            return None
        xs = self.written(n, '[x_ for x_ in $0]', st, fr, xs)
        keys = self.written(n, '[$1(x_) for x_ in $0]', st, fr, xs, key)
        got = [self.deep(st, x) for x in (xs, keys)]
        return got if not any(x.op in ('obj', 'many') for v in got for x in V.walk(v)) else None

    def x_max(self, args, a, kw, st, fr, n, first=True):
        if set(kw) != {'key'} or not args or self.stand:
            return None
        got = self.compared(args[0] if len(args) == 1 else mk('tuple', tuple(args)), kw['key'], st, fr, n)
        return None if got is None else mk('call', 'bestby', (*got, V.TRUE if first else V.FALSE), ())

    def x_min(self, args, a, kw, st, fr, n):
        return self.x_max(args, a, kw, st, fr, n, first=False)

    def texts(self, args, st):
        a = [self.deref(st, x) for x in args]
        return [V.cval(x) for x in a] if a and all(V.is_str(x) for x in a) else None

    def plain_idx(self, v, ix):
        if self.stand and V.is_str(v):
            if V.is_num(ix) and -len(V.cval(v)) <= V.cval(ix) < len(V.cval(v)):
                return const(V.cval(v)[int(V.cval(ix))])
            if ix.op == 'slice' and all(x is V.NONE or V.is_num(x) for x in ix.args):
                return const(V.cval(v)[slice(*[None if x is V.NONE else int(V.cval(x)) for x in ix.args])])
        return super().plain_idx(v, ix)

    statics = {}

    def module_value(self, vb, st):
        # tables of the stand-ins keep what is put into them
        if not self.stand or vb.module.rel != '<store>' or not isinstance(vb.node, ast.Dict) or vb.node.keys:
            return super().module_value(vb, st)
        if vb.name not in self.statics:
            self.statics = {**self.statics, vb.name: next(self.ids)}
        at = self.statics[vb.name]
        if at not in st.heap:
            r = self.rec(st, super().module_value(vb, st))
            if r is None:
                return super().module_value(vb, st)
            st.heap[at] = r
        return mk('obj', at)

    def e_Attribute(self, n, st, fr):
        v = super().e_Attribute(n, st, fr)
        if v.op == 'ext' and v.args[0] in TEXT_ATTRS:
            return const(TEXT_ATTRS[v.args[0]])
        return v

    def x_re_findall(self, args, a, kw, st, fr, n):
        if len(a) > 1 and a[0].op == 'ext':
            # a flag where the pattern belongs
            self.refuse(st, fr, n)
        if len(a) < 2 or not V.is_str(a[0]):
            return None
        items = text.tokens(V.cval(a[0]), a[1], a[2] if len(a) > 2 else V.NONE)
        return None if items is None else self.new(st, 'list', slots={'items': mk('list', items)})

    def x_re_sub(self, args, a, kw, st, fr, n):
        """unchanged when no rendering of the line has the pattern"""
        if len(a) not in (3, 4) or set(kw) - {'flags', 'count'} or not V.is_str(a[0]) or not self.stand:
            return None
        fl = text.flags(self.deep(st, kw['flags'])) if 'flags' in kw else 0
        most = a[3] if len(a) > 3 else self.deref(st, kw['count']) if 'count' in kw else V.ZERO
        # flags are numbers too
        most = int(V.cval(most)) if V.is_num(most) else int(text.flags(most) or 0)
        ex = text.examples(a[2])
        try:
            if V.is_str(a[2]) and V.is_str(a[1]):
                return const(re.sub(V.cval(a[0]), V.cval(a[1]), V.cval(a[2]), count=most, flags=fl))
            if ex is not None and not any(re.search(V.cval(a[0]), x, fl) for x in ex):
                return a[2]
        except re.error:
            pass
        return None

    def x_vfs_lines(self, args, a, kw, st, fr, n):
        """the lines of text that is written"""
        v = a[0] if V.is_str(a[1]) and not V.cval(a[1]) else a[1] if V.is_str(a[0]) and not V.cval(a[0]) else self.binop(ast.Add(), a[0], a[1], st)
        r = self.rec(st, args[1])
        if r is not None and r.kind == 'inst' and r.cls.name == 'Lines':
            got = self.getattr(args[1], 'lines', st, fr, n)
            items = self.known_items(got, st)
            out = None if items is None else tuple(items) + (const(''),)
        else:
            out = text.method(v, 'split', [const('\n')])
        if not isinstance(out, tuple):
            if not self.dry:
                self.escaped.append(f'text written, line {getattr(n, "lineno", 0)}')
            out = (v, const(''))
        return self.new(st, 'list', slots={'items': mk('list', out)})

    def x_re_matching(self, args, a, kw, st, fr, n):
        if a and a[0].op == 'ext':
            self.refuse(st, fr, n)
        # the names of stand-in paths are taken to match
        r = self.rec(st, args[1]) if len(a) == 4 else None
        if r is not None and r.kind == 'inst':
            return V.TRUE
        if len(a) == 4 and V.is_str(a[0]) and (V.is_str(a[1]) or a[1].op == 'fstr'):
            got = text.matching(V.cval(a[0]), a[1], a[2], V.cval(a[3]))
            if got is V.FALSE:
                return V.NONE
            if got is V.TRUE:
                groups = text.found(V.cval(a[0]), a[1], a[2], V.cval(a[3]))
                if groups is not None:
                    # true, and keeps what was found
                    return self.match_object(groups, V.cval(a[0]), st, fr)
            return got
        return None

    def match_object(self, groups, pattern, st, fr):
        c = next(c for c in fr.module.classes if c.name == 'Match')
        names = self.new(st, 'dict', slots={const(k): const(v) for k, v in text.names(pattern).items()})
        return self.new(st, 'inst', cls=c, slots={'found': mk('tuple', tuple(groups)), 'names': names})

    def x_re_matches(self, args, a, kw, st, fr, n):
        if len(a) == 3 and V.is_str(a[0]):
            got = text.all_found(V.cval(a[0]), a[1], a[2])
            if got is not None:
                return self.new(st, 'list', slots={'items': mk('list', tuple(self.match_object(g, V.cval(a[0]), st, fr) for g in got))})
        return None

    def x_re_split(self, args, a, kw, st, fr, n):
        most = a[2] if len(a) > 2 else self.deref(st, kw['maxsplit']) if 'maxsplit' in kw else V.ZERO
        flag = a[3] if len(a) > 3 else self.deref(st, kw['flags']) if 'flags' in kw else V.NONE
        if len(a) > 1 and V.is_str(a[0]) and V.is_str(a[1]) and V.is_num(most) and self.stand:
            try:
                got = re.split(V.cval(a[0]), V.cval(a[1]), maxsplit=int(V.cval(most)), flags=text.flags(flag))
            except re.error:
                return None
            return self.new(st, 'list', slots={'items': mk('list', tuple(const(x) for x in got))})
        return None

    def x_numpy_outer(self, args, a, kw, st, fr, n):
        return None

    x_numpy_kron = x_numpy_outer

    def x_numpy_append(self, args, a, kw, st, fr, n):
        if len(a) == 2 and not kw:
            return mk('call', 'numpy.append', (self.deep(st, args[0]), self.deep(st, args[1])), ())
        return None

    def x_hasattr(self, args, a, kw, st, fr, n):
        if a[0].op == 'pick':
            v = [super(Precise, self).x_hasattr([x, args[1]], [x, a[1]], kw, st, fr, n) for x in a[0].args[0]]
            return v[0] if all(x is v[0] for x in v) else mk('idx', mk('tuple', tuple(v)), a[0].args[1])
        return super().x_hasattr(args, a, kw, st, fr, n)

    ranks = {}

    def rank(self, v):
        """number of dimensions of a value, given those of the leaves"""
        p = ev.ptext(v)
        if p is not None and p in self.ranks:
            return self.ranks[p]
        if V.is_const(v):
            return 0
        if v.op in ('store', 'lstore'):
            return self.rank(v.args[0])
        if v.op == 'call' and v.args[0] == 'full' and v.args[1][0].op == 'tuple':
            return len(v.args[1][0].args[0])
        if v.op == 'call' and v.args[0] == 'numpy.squeeze' and len(v.args[1]) == 1:
            # leaves of two dimensions have no singular one
            n = self.rank(v.args[1][0])
            return n if n is not None and n <= 2 else None
        if v.op == 'idx' and v.args[0].op == 'tuple':
            n = {self.rank(x) for x in v.args[0].args[0]}
            return n.pop() if len(n) == 1 and v.args[1].op != 'slice' else None
        if v.op == 'idx':
            n = self.rank(v.args[0])
            ix = v.args[1]
            if n is None:
                return None
            for p in ix.args[0] if ix.op == 'tuple' else (ix,):
                if p is V.NONE:
                    n += 1
                elif p.op == 'call' and p.args[0] == 'iotav' or V.is_num(p):
                    n -= 1
                elif p.op != 'slice':
                    return None
            return n
        if v.op == 'phi':
            a, b = self.rank(v.args[1]), self.rank(v.args[2])
            return a if a == b else None
        return None

    def x_numpy_ndim(self, args, a, kw, st, fr, n):
        if V.is_const(a[0]):
            return V.ZERO
        if self.ranks:
            k = self.rank(self.deep(st, args[0]))
            if k is not None:
                return const(k)
        return mk('call', 'ndim', (self.deep(st, args[0]),), ())


def _made(seq):
    """(element, index) of a sequence that one loop filled with one value per iteration"""
    if seq.op == 'call' and seq.args[0] == 'concatseq' and len(seq.args[1]) == 2 and seq.args[1][0].op in ('list', 'tuple') and not seq.args[1][0].args[0]:
        seq = seq.args[1][1]
    if seq.op == 'call' and seq.args[0] == 'comp' and seq.args[1][1] is V.TRUE:
        e, _, x = seq.args[1]
        if x.op == 'call' and x.args[0] == 'iotav' and x.args[1][0] is V.ZERO and x.args[1][2] is V.ONE and not iotas(x.args[1][1]):
            return e, x
    return None


def _sliced(ix):
    parts = ix.args[0] if ix.op == 'tuple' else (ix,)
    return any(p.op == 'slice' or p is const(Ellipsis) for p in parts)
