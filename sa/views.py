"""Arrays that share storage.

Basic indexing, transposition and reshaping give arrays that are part of
another one: what is put into them is put into the other.  Names that are
changed in place (found in the syntax tree) hold such a part together with the
array it belongs to; every change goes back to the array, and reading it later
reads the array as it is then.
"""
import ast
from . import gvn, precise, values as V
from .values import mk, const

METHODS = {'fill', 'sort', 'put', 'partition', 'itemset', 'resize'}
SHAPED = {'reshape', 'ravel', 'squeeze', 'view', 'transpose', 'swapaxes', 'diagonal'}
ATTRS = {'T', 'flat', 'real', 'imag'}
FUNCS = {'squeeze', 'reshape', 'ravel', 'transpose', 'expand_dims', 'atleast_1d', 'atleast_2d', 'atleast_3d', 'asarray', 'swapaxes',
    'moveaxis', 'rollaxis', 'asanyarray', 'flip', 'flipud', 'fliplr', 'diagonal', 'split', 'array_split', 'hsplit', 'vsplit'}
INPLACE = {'putmask', 'place', 'put', 'copyto', 'fill_diagonal', 'put_along_axis', 'shuffle', 'at'}
ALL = mk('slice', V.NONE, V.NONE, V.NONE)


def root(n):
    """the name that an expression is part of"""
    while True:
        if isinstance(n, (ast.Subscript, ast.Attribute)):
            n = n.value
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in SHAPED:
            n = n.func.value
        elif isinstance(n, ast.Call) and n.args and isinstance(n.func, ast.Attribute) and n.func.attr in FUNCS:
            n = n.args[0]
        elif isinstance(n, ast.Starred):
            n = n.value
        else:
            return n.id if isinstance(n, ast.Name) else None


def short(f):
    return f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''


def named(t):
    return [x.id for x in ast.walk(t) if isinstance(x, ast.Name)]


def places(fn, changers):
    """expressions that are changed in place by a function"""
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                for x in ast.walk(t):
                    if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store):
                        yield x.value
                    elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == 'shape':
                        yield x.value
        elif isinstance(n, ast.AugAssign):
            yield n.target.value if isinstance(n.target, ast.Subscript) else n.target
            if isinstance(n.target, ast.Subscript):
                yield n.target
        elif isinstance(n, (ast.For, ast.comprehension)):
            for x in ast.walk(n.target):
                if isinstance(x, ast.Subscript):
                    yield x.value
        elif isinstance(n, ast.Call):
            f = short(n.func)
            if isinstance(n.func, ast.Attribute) and f in METHODS:
                yield n.func.value
            if f in INPLACE and isinstance(n.func, ast.Attribute) and n.args:
                yield n.args[0]
            for k in n.keywords:
                if k.arg == 'out':
                    yield k.value
                elif k.arg == 'copy' and f == 'nan_to_num' and n.args:
                    yield n.args[0]
            full = f'numpy.{f}'
            k = 1 if full in gvn.ONES else 2 if full in gvn.TWOS else 99
            if len(n.args) > k:
                yield n.args[k]
            if f in changers:
                yield from n.args
                yield from (k.value for k in n.keywords)


def changed(fn, changers):
    """names that are changed in place, and the nodes that give what is changed"""
    exprs = list(places(fn, changers))
    names = {root(x) for x in exprs} - {None}
    pairs = []
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts):
                    pairs += list(zip(t.elts, n.value.elts))
                else:
                    pairs.append((t, n.value))
        elif isinstance(n, (ast.AnnAssign, ast.NamedExpr)) and n.value is not None:
            pairs.append((n.target, n.value))
        elif isinstance(n, ast.withitem) and n.optional_vars is not None:
            pairs.append((n.optional_vars, n.context_expr))
    more = True
    while more:
        more = False
        for t, v in pairs:
            if isinstance(t, ast.Name) and t.id in names:
                for x in (v.body, v.orelse) if isinstance(v, ast.IfExp) else (v,):
                    r = root(x)
                    if r is not None and r not in names:
                        names.add(r)
                        more = True
    return exprs, names, pairs


def place(x):
    while isinstance(x, ast.Subscript) or isinstance(x, ast.Attribute) and x.attr in ATTRS:
        x = x.value
    return ast.unparse(x)


def wanted(fn, changers):
    """nodes whose value is a part of an array that is changed, and the loops over such parts"""
    exprs, names, pairs = changed(fn, changers)
    out = set()

    def want(x):
        if isinstance(x, ast.Subscript):
            out.add(id(x))
            want(x.value)
        elif isinstance(x, ast.Attribute):
            if x.attr in ATTRS:
                out.add(id(x))
            want(x.value)
        elif isinstance(x, ast.Call):
            f = short(x.func)
            if isinstance(x.func, ast.Attribute) and f in SHAPED | FUNCS:
                out.add(id(x))
                want(x.func.value)
                for y in x.args[:1]:
                    want(y)
        elif isinstance(x, ast.IfExp):
            want(x.body)
            want(x.orelse)
        elif isinstance(x, ast.NamedExpr):
            want(x.value)
    for x in exprs:
        want(x)
    stored = {place(x) for x in exprs}
    for t, v in pairs:
        if isinstance(t, ast.Attribute) or isinstance(t, ast.Name) and (t.id in names or place(v) in stored):
            want(v)
    # names that get new arrays, which are changed later
    subs = {x.value.id for x in ast.walk(fn) if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name)}
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id in subs for t in n.targets):
            out.add(id(n))
    loops = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.For, ast.comprehension)) and set(named(n.target)) & names:
            loops.add(id(n.iter))
    return out, loops


def vague(x):
    """an index that is a whole number or several"""
    return x.op in ('sym', 'attr', 'idx', 'carry', 'phi') or x.op == 'call' and x.args[0] in ('int', 'len', 'mod', 'floordiv')


def basic(ix):
    """whether an index gives a part of the array, and whether it can be a single value"""
    items = ix.args[0] if ix.op == 'tuple' else (ix,)
    sure = False
    if all(vague(x) or V.is_num(x) for x in items):
        return True, False
    for x in items:
        if x.op == 'slice' or x is V.NONE or x is const(Ellipsis):
            sure = True
        elif V.is_num(x) and V.cval(x).denominator == 1 or x.op == 'call' and x.args[0] == 'iotav' or x.op == 'poly' or vague(x):
            pass
        else:
            return False, False
    return True, sure


def open_index(ix):
    return any(vague(x) for x in (ix.args[0] if ix.op == 'tuple' else (ix,)))


class Viewed(precise.Precise):
    def run(self, func, *a, **kw):
        if not hasattr(self.p, '_changers'):
            self.p._changers, self.p._wanted = changers(self.p), {}
        return super().run(func, *a, **kw)

    def wants(self, fr):
        f = fr.func
        node = getattr(f, 'node', None)
        if node is None:
            return (), ()
        got = self.p._wanted.get(id(node))
        if got is None or got[0] is not node:
            got = self.p._wanted[id(node)] = (node, wanted(node, self.p._changers))
        return got[1]

    # -- parts ------------------------------------------------------------------
    def part(self, st, b, how, own, sure, at=None):
        """a part of the array b"""
        b = st.facts.resolve(b)
        r = self.rec(st, b)
        if r is not None and r.kind != 'cell' or V.is_const(b) or b.op in ('tuple', 'fstr', 'func', 'class', 'module', 'ext', 'pick', 'absent', 'unbound'):
            return own
        if V.is_const(own) or self.rec(st, own) is not None and self.rec(st, own).kind != 'cell':
            return own
        o = self.deref(st, own)
        return self.new(st, 'cell', slots={'of': b, 'how': how, 'own': o, 'at': self.deref(st, b) if at is None else at, 'sure': V.TRUE if sure else V.FALSE})

    def seen(self, st, r):
        """the values of a part as they are now"""
        base = self.deref(st, r.slots['of'])
        if base is r.slots['at']:
            return r.slots['own']
        how = r.slots['how']
        if how.op == 'tuple' and how.args[0][0] is const('ix'):
            ix = how.args[0][1]
            if r.slots['sure'] is V.TRUE and not open_index(ix):
                return self.plain_idx(base, ix)
            return mk('call', 'vread', (base, ix, r.slots['own']), ())
        f = how.args[0][1]
        return mk('call', f.args[0], (base,) + f.args[1][1:], f.args[2])

    def deref(self, st, v):
        v = st.facts.resolve(v)
        if v.op == 'obj':
            r = st.heap.get(v.args[0])
            if r is not None and r.kind == 'cell' and 'of' in r.slots:
                return st.facts.resolve(self.seen(st, r))
        return super().deref(st, v)

    def put(self, st, v, new, sure=True):
        r = self.rec(st, v)
        if r is None or 'of' not in r.slots:
            return super().put(st, v, new, sure)
        base = self.deref(st, r.slots['of'])
        how = r.slots['how'].args[0]
        sure = (sure or r.slots['sure'] is V.TRUE) and not (how[0] is const('ix') and open_index(how[1]))
        if how[0] is const('ix'):
            whole = self.mkstore(base, how[1], new) if sure else mk('call', 'vstore', (base, how[1], new), ())
        elif how[0] is const('T'):
            whole = mk('call', how[1].args[0], (new,) + how[1].args[1][1:], how[1].args[2])
        elif how[0] in (const('real'), const('imag')):
            other = mk('call', 'imag' if how[0] is const('real') else 'real', (base,), ())
            whole = mk('call', 'complex', (new, other) if how[0] is const('real') else (other, new), ())
        elif how[0] is const('unknown'):
            self.lost(st, base, None)
            return True
        else:
            whole = mk('call', 'numpy.reshape', (new, mk('attr', base, 'shape')), ())
        of = r.slots['of']
        if not self.put(st, of, whole):
            self.lost(st, of, None)
            return True
        r = self.rec(st, v)
        d = dict(r.slots)
        d.update(own=new, at=self.deref(st, d['of']))
        if sure:
            d['sure'] = V.TRUE
        self.setrec(st, v, gvn.HObj(r.kind, r.cls, d, r.open, r.base, r.origin))
        return True

    def moved(self, st, b, c):
        for h, r in list(st.heap.items()):
            if r.kind == 'cell' and r.slots.get('of') is b:
                st.heap[h] = r.with_slot('of', c)
        if b.op == 'idx' and not V.is_str(b.args[1]) and basic(b.args[1])[0] and self.held(st, b.args[0]):
            # a part that something else than a name holds
            self.lost(st, b, None)

    def keyed(self, node):
        """an entry of a dictionary that is not known"""
        t = getattr(node, 'target', None) or (node.targets[0] if getattr(node, 'targets', None) else None)
        return isinstance(t, ast.Subscript) and (isinstance(t.slice, ast.JoinedStr) or isinstance(t.slice, ast.Constant) and isinstance(t.slice.value, str))

    def held(self, st, b):
        return any(x is b for x in st.env.values()) or any(x is b for r in st.heap.values() for x in r.slots.values())

    def lost(self, st, b, node):
        if not self.dry and not V.is_const(b) and b.op not in ('sym',) and not self.keyed(node):
            self.escaped.append(f'part of an array changed, line {getattr(node, "lineno", 0)}')

    # -- where parts come from ------------------------------------------------------
    def e_Subscript(self, n, st, fr):
        if id(n) not in self.wants(fr)[0]:
            return super().e_Subscript(n, st, fr)
        b = self.ev(n.value, st, fr)
        ix = self.index(n.slice, st, fr)
        r = st.facts.resolve(b)
        if r in self.opaque:
            self.event('resultkey', fr, n, st, base=r, key=ix, decided=st.facts.copy())
        v = self.getitem(b, ix, st, fr, n)
        ok, sure = basic(ix)
        return self.part(st, b, mk('tuple', (const('ix'), ix)), v, sure) if ok else v

    def e_Attribute(self, n, st, fr):
        if n.attr not in ATTRS or id(n) not in self.wants(fr)[0]:
            return super().e_Attribute(n, st, fr)
        b = self.ev(n.value, st, fr)
        v = self.getattr(b, n.attr, st, fr, n)
        r = self.rec(st, st.facts.resolve(b))
        if r is not None and r.kind != 'cell':
            return v
        base = self.deref(st, b)
        if n.attr == 'T':
            f = mk('call', 'numpy.transpose', (base,), ())
            return self.part(st, b, mk('tuple', (const('T'), f)), f, True)
        if n.attr == 'flat':
            f = mk('call', 'numpy.ravel', (base,), ())
            return self.part(st, b, mk('tuple', (const('shape'), f)), f, True)
        f = mk('call', n.attr, (base,), ())
        return self.part(st, b, mk('tuple', (const(n.attr), f)), f, True)

    def e_Call(self, n, st, fr):
        if id(n) not in self.wants(fr)[0]:
            return super().e_Call(n, st, fr)
        f, name = n.func, short(n.func)
        recv = self.ev(f.value, st, fr)
        recv = st.facts.resolve(recv)
        args, kw, star = self.call_args(n, st, fr)
        v = self.method(recv, name, args, kw, star, st, fr, n)
        of = args[0] if recv.op in ('module', 'ext') and args else recv
        d = self.deref(st, v)
        if recv.op in ('class', 'func') or star or d.op != 'call' or not d.args[1] or d.args[1][0] is not self.deref(st, of):
            if d is self.deref(st, of) and name not in ('view',) and v.op == 'obj' and self.rec(st, v).kind == 'cell' and of is not v:
                return of
            return v
        return self.part(st, of, mk('tuple', (const(self.back(d)), d)), d, True)

    def back(self, d):
        name = d.args[0].rsplit('.', 1)[-1]
        if name == 'transpose' and len(d.args[1]) == 1 and not d.args[2] or name in ('swapaxes', 'flipud', 'fliplr', 'flip'):
            return 'T'
        if name in ('transpose', 'moveaxis', 'rollaxis', 'diagonal') or 'split' in name:
            return 'unknown'
        return 'shape'

    def loop(self, s, st, fr, it):
        if isinstance(s, ast.For) and id(s.iter) in self.wants(fr)[1]:
            self.its = {**self.its, id(s): (it, {})}
            self.bases(it, st, self.its[id(s)][1])
        return super().loop(s, st, fr, it)

    its = {}

    def assign(self, t, v, st, fr, stmt):
        if isinstance(stmt, ast.For) and t is stmt.target and id(stmt) in self.its and id(stmt.iter) in self.wants(fr)[1]:
            v = self.elements(*self.its[id(stmt)], v, st)
        if isinstance(t, ast.Name) and isinstance(stmt, ast.Assign) and isinstance(stmt.value, (ast.BinOp, ast.UnaryOp, ast.Compare)) and \
                v.op in ('poly', 'call', 'cmp', 'not', 'and', 'or', 'store', 'phi') and id(stmt) in self.wants(fr)[0]:
            # a new array that is changed later
            v = self.cell(st, v)
        return super().assign(t, v, st, fr, stmt)

    def bases(self, it, st, out):
        v = st.facts.resolve(it)
        if v.op == 'call' and v.args[0] in ('enumerate', 'zip'):
            for x in v.args[1]:
                self.bases(x, st, out)
        else:
            out[v] = self.deref(st, v)

    def elements(self, it, was, e, st):
        """the elements of an array that a loop runs over"""
        v = st.facts.resolve(it)
        r = self.rec(st, v)
        if v.op == 'call' and v.args[0] == 'enumerate' and e.op == 'tuple' and len(e.args[0]) == 2:
            return mk('tuple', (e.args[0][0], self.elements(v.args[1][0], was, e.args[0][1], st)))
        if v.op == 'call' and v.args[0] == 'zip' and e.op == 'tuple' and len(e.args[0]) == len(v.args[1]):
            return mk('tuple', tuple(self.elements(x, was, y, st) for x, y in zip(v.args[1], e.args[0])))
        if v in was and (r is not None and r.kind == 'cell' or r is None and v.op in ('sym', 'attr', 'idx', 'store', 'poly')):
            base = was[v]
            if e.op == 'idx' and e.args[0] is base:
                return self.part(st, v, mk('tuple', (const('ix'), e.args[1])), e, False, base)
            for x in V.walk(e):
                if x.op == 'call' and x.args[0] == 'iotav' and x.args[1][1].op == 'call' and x.args[1][1].args[0] == 'len' and self.plain_idx(base, x) is e:
                    return self.part(st, v, mk('tuple', (const('ix'), x)), e, False, base)
        return e

    def setattr(self, b, name, v, st, fr, node):
        bb = st.facts.resolve(b)
        r = self.rec(st, bb)
        if name == 'shape' and r is not None and r.kind == 'cell':
            new = mk('call', 'numpy.reshape', (self.deref(st, bb), self.deep(st, v)), ())
            if 'of' in r.slots:
                self.escaped.append('shape of a part changed')
            else:
                self.setrec(st, bb, r.without('shape').with_slot('v', new))
            return
        if name in ('real', 'imag') and r is not None and r.kind == 'cell':
            base = self.deref(st, bb)
            new = self.mkstore(mk('call', name, (base,), ()), ALL, self.deref(st, v))
            other = mk('call', 'imag' if name == 'real' else 'real', (base,), ())
            self.put(st, bb, mk('call', 'complex', (new, other) if name == 'real' else (other, new), ()))
            return
        super().setattr(b, name, v, st, fr, node)

    def ext_call(self, name, args, kw, star, st, fr, n):
        v = super().ext_call(name, args, kw, star, st, fr, n)
        if name == 'numpy.nan_to_num' and args and kw.get('copy') is V.FALSE:
            if not self.put(st, st.facts.resolve(args[0]), self.deref(st, v)):
                self.lost(st, args[0], n)
            return args[0]
        return v


def changers(project):
    """names of the functions that change what they are given"""
    fns = []
    for m in list(project.modules.values()) + list(project.scripts.values()):
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                fns.append(n)
    bound = {}
    for m in list(project.modules.values()) + list(project.scripts.values()):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Lambda):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        bound[id(n.value)] = t.id
    out, more = set(), True
    while more:
        more = False
        for n in fns:
            name = n.name if isinstance(n, ast.FunctionDef) else bound.get(id(n))
            if name is None or name in out or name.startswith('__'):
                continue
            a = n.args
            params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} - {'self', 'cls'}
            if params & direct(n, out):
                out.add(name)
                more = True
    return out


def direct(fn, changers):
    names = set()
    for x in places(fn, changers):
        while isinstance(x, ast.Subscript) or isinstance(x, ast.Attribute) and x.attr in ATTRS:
            x = x.value
        if isinstance(x, ast.Name):
            names.add(x.id)
    return names
