"""Storage effects: which storage a function changes and which storage its results share.

A flow-sensitive may-alias interpretation of each function over its syntax tree.
A value is a set of locations: storage reachable from an argument (``p`` with an
access path), an object created by the function (``n``), or nothing at all for
fresh storage.  Calls inside the package are applied through summaries.
"""
import ast
import zlib
from .project import Class, External, Func, Module

DEPTH = 3
VIEW = set('''squeeze atleast_1d atleast_2d atleast_3d asarray asanyarray reshape ravel transpose broadcast_to expand_dims real imag
    swapaxes moveaxis rollaxis ascontiguousarray diagonal flipud fliplr flip rot90 require'''.split())
INDEXERS = {'nonzero', 'where', 'flatnonzero', 'argsort', 'tril_indices', 'triu_indices', 'argwhere', 'unique', 'arange',
    'lexsort', 'isin', 'in1d', 'logical_and', 'logical_or', 'logical_not', 'isnan', 'isfinite', 'indices',
    'copy', 'array', 'asarray', 'zeros', 'ones', 'ix_', 'atleast_1d', 'flip', 'roll', 'sort', 'repeat', 'searchsorted', 'digitize', 'concatenate'}
NUMBERS_OF = {'lmax', 'mmax', 'ndim', 'size', 'newaxis', 'shape', 'pi', 'start', 'stop', 'step'}
VIEWM = set('squeeze reshape ravel transpose view swapaxes diagonal'.split())
MUTM = set('sort fill resize put append extend insert remove clear update setdefault popitem pop reverse itemset partition '
    'byteswap'.split())
MUTF = {'copyto': 0, 'put': 0, 'place': 0, 'putmask': 0, 'fill_diagonal': 0, 'put_along_axis': 0}
ELEM = set('get pop setdefault __getitem__'.split())
FRESHF = set('copy deepcopy'.split())


class Val:
    __slots__ = ('locs', 'items')

    def __init__(self, locs=frozenset(), items=None):
        self.locs, self.items = frozenset(locs), items

    def __or__(self, o):
        items = None
        if self.items is not None and o.items is not None and len(self.items) == len(o.items):
            items = [a | b for a, b in zip(self.items, o.items)]
        return Val(self.all() | o.all() if items is None else self.locs | o.locs, items)

    def all(self):
        if self.items is None:
            return self.locs
        return self.locs.union(*[i.all() for i in self.items]) if self.items else self.locs

    def key(self):
        return (self.locs, tuple(i.key() for i in self.items) if self.items is not None else None)


NOTHING = Val()


def step(loc, name):
    k, b, path = loc
    if len(path) >= DEPTH:
        return loc
    if name == '*' and path and path[-1] == '*':
        return loc
    return (k, b, path + (name,))


class State:
    def __init__(self, env=None, heap=None):
        self.env, self.heap = env if env is not None else {}, heap if heap is not None else {}

    def clone(self):
        return State(dict(self.env), {k: dict(v) for k, v in self.heap.items()})

    def join(self, o):
        for k in set(self.env) | set(o.env):
            self.env[k] = self.env.get(k, NOTHING) | o.env.get(k, NOTHING)
        for h in set(self.heap) | set(o.heap):
            a, b = self.heap.get(h), o.heap.get(h)
            if a is None or b is None:
                # untouched on one side: the attribute may still hold its original storage
                if h[0] == 'n':
                    self.heap[h] = dict(a if a is not None else b)
                    continue
                src = a if a is not None else b
                self.heap[h] = {k: v | Val({step(h, k)}) for k, v in src.items()}
                continue
            out = {}
            for k in set(a) | set(b):
                d = Val({step(h, k)}) if h[0] == 'p' else NOTHING
                out[k] = a.get(k, d) | b.get(k, d)
            self.heap[h] = out
        return self

    def key(self):
        return ({k: v.key() for k, v in self.env.items()}, {h: {k: v.key() for k, v in d.items()} for h, d in self.heap.items()})


class Effect:
    """one change of storage: where, what, the function whose statement does it, only on request of an option"""
    __slots__ = ('at', 'text', 'origin', 'optin')

    def __init__(self, at, text, origin, optin):
        self.at, self.text, self.origin, self.optin = at, text, origin, optin


class Summary:
    def __init__(self):
        self.mut = {}       # (location, attribute or '*' for elements) -> Effect
        self.ret = NOTHING
        self.heap = {}
        self.cls = {}       # object created -> class


class Alias:
    def __init__(self, project):
        self.p = project
        self.memo = {}
        self.active = []

    def summary(self, func):
        if func in self.memo:
            return self.memo[func]
        if func in self.active or len(self.active) > 25:
            return Summary()
        self.active.append(func)
        try:
            s = Walk(self, func).result()
        finally:
            self.active.pop()
        self.memo[func] = s
        return s


def argument_class(project, func, name):
    """class of the objects an argument stands for, from its documentation"""
    if func.cls is not None and func.params and name == func.params[0] and not func.is_static:
        return func.cls
    from . import docs
    rec = docs.parameters(func.doc).get(name)
    if rec is None or not any(w in rec['type'] for w in ('obj', 'class', 'instance')):
        return None
    text = rec['type'] + ' ' + rec['text']
    found = [c for m in project.modules.values() for c in m.classes if f'``{c.name}``' in text]
    if len(found) == 1:
        return found[0]
    if func.cls is not None and (not found or func.cls in found):
        return func.cls
    return found[0] if found else None


def scalar_type(text):
    t = text.lower()
    if any(w in t for w in ('array', 'list', 'obj', 'dict', 'set', 'series', 'tuple')):
        return False
    return any(w in t for w in ('int', 'float', 'bool', 'str', 'nonetype'))


class Walk:
    def __init__(self, owner, func):
        self.o, self.p, self.f = owner, owner.p, func
        self.s = Summary()
        self.rets = []
        self.cls = {}       # location -> Class of new objects
        from . import docs
        d = docs.parameters(func.doc)
        self.scalars = {p for p, r in d.items() if scalar_type(r['type'])}
        self.documented = set(d)
        dflt = func.defaults()
        for p in func.params + func.kwonly:
            n = dflt.get(p)
            if p not in d and isinstance(n, ast.Constant) and n.value is not None:
                self.scalars.add(p)
        # documented as a number but used as an array
        for n in ast.walk(func.node):
            x = None
            if isinstance(n, (ast.Subscript, ast.Attribute)):
                x = n.value
            elif isinstance(n, ast.Call) and len(n.args) >= 1 and (isinstance(n.func, ast.Name) and n.func.id in ('len', 'enumerate') or
                    isinstance(n.func, ast.Attribute) and n.func.attr in ('squeeze', 'count_nonzero', 'reshape', 'transpose', 'ravel')):
                x = n.args[0]
            if isinstance(x, ast.Name):
                self.scalars.discard(x.id)
        self.fancy = set()  # names of index arrays
        self.guards = 0     # enclosing tests of an option that is off unless asked for
        self.flags = {p for p in func.params + func.kwonly if isinstance(dflt.get(p), ast.Constant) and dflt[p].value is False}
        self.brk = []
        self.consts = {}    # loop variables over literal strings
        # names assigned once, to a literal sequence
        count, self.seqs = {}, {}
        self.locals = {n.id for n in ast.walk(func.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | set(func.params + func.kwonly)
        for n in ast.walk(func.node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                count[n.id] = count.get(n.id, 0) + 1
        for n in ast.walk(func.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and \
                    count.get(n.targets[0].id) == 1 and isinstance(n.value, (ast.List, ast.Tuple, ast.Set, ast.Dict, ast.ListComp, ast.Constant)):
                self.seqs[n.targets[0].id] = n.value
        # not if the list is extended
        for n in ast.walk(func.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr in MUTM:
                self.seqs.pop(n.value.id, None)

    def result(self):
        st = State()
        a = self.f.node.args
        for p in self.f.params + self.f.kwonly:
            st.env[p] = Val({('p', p, ())})
            c = argument_class(self.p, self.f, p)
            if c is not None and not self.f.is_classmethod:
                self.cls[('p', p, ())] = c
        if a.vararg:
            st.env[a.vararg.arg] = Val({('p', a.vararg.arg, ())})
        if a.kwarg:
            st.env[a.kwarg.arg] = Val({('p', '**', ())})
        end = self.block(self.f.node.body, st)
        outs = list(self.rets)
        if end is not None:
            outs.append((NOTHING, end))
        if outs:
            ret, fin = outs[0]
            fin = fin.clone()
            for v, s in outs[1:]:
                ret = ret | v
                fin.join(s.clone())
            self.s.ret, self.s.heap = ret, fin.heap
        self.s.cls = self.cls
        return self.s

    # -- statements ---------------------------------------------------------
    def block(self, stmts, st):
        for s in stmts:
            if st is None:
                return None
            st = self.stmt(s, st)
        return st

    def stmt(self, s, st):
        m = getattr(self, 's_' + type(s).__name__, None)
        return m(s, st) if m else st

    def s_Expr(self, s, st):
        self.ev(s.value, st)
        return st

    def s_Return(self, s, st):
        self.rets.append((self.ev(s.value, st) if s.value else NOTHING, st.clone()))
        return None

    def s_Raise(self, s, st):
        if s.exc:
            self.ev(s.exc, st)
        return None

    def s_Break(self, s, st):
        if self.brk:
            self.brk[-1].append(st.clone())
        return None

    s_Continue = s_Break

    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st, s)
        self.index_names(s)
        return st

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st, s)
        return st

    def index_names(self, s):
        for t in s.targets:
            if isinstance(t, (ast.Tuple, ast.List)) and isinstance(s.value, (ast.Tuple, ast.List)) and len(t.elts) == len(s.value.elts):
                pairs = list(zip(t.elts, s.value.elts))
            else:
                pairs = [(t, s.value)]
            for t, v in pairs:
                if self.is_fancy(v):
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            self.fancy.add(x.id)

    def is_fancy(self, p):
        """whether an index can be an array, which makes a copy"""
        if isinstance(p, (ast.List, ast.ListComp, ast.Compare)):
            return True
        if isinstance(p, ast.Name):
            return p.id in self.fancy
        if isinstance(p, ast.Call):
            f = p.func
            n = f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')
            if isinstance(f, ast.Attribute) and n in ('astype', 'flatten', 'ravel', 'squeeze', 'reshape'):
                return self.is_fancy(f.value) or any(self.is_fancy(x) for x in p.args)
            return n in INDEXERS
        if isinstance(p, ast.Attribute):
            return p.attr not in NUMBERS_OF and isinstance(p.value, ast.Name) and \
                (p.value.id in self.f.params[:1] and self.f.cls is not None or self.p.resolve_name(self.f.module, p.value.id) is None)
        if isinstance(p, ast.BinOp):
            return isinstance(p.op, (ast.BitAnd, ast.BitOr)) or self.is_fancy(p.left) or self.is_fancy(p.right)
        if isinstance(p, ast.UnaryOp):
            return isinstance(p.op, ast.Invert) or self.is_fancy(p.operand)
        if isinstance(p, ast.IfExp):
            return self.is_fancy(p.body) or self.is_fancy(p.orelse)
        if isinstance(p, ast.Subscript):
            return isinstance(p.value, (ast.Name, ast.Attribute)) and self.is_fancy(p.value)
        return False

    def s_AugAssign(self, s, st):
        self.ev(s.value, st)
        t = s.target
        if isinstance(t, ast.Name):
            cur = st.env.get(t.id, NOTHING)
            for loc in cur.all():
                if loc[0] == 'p' and not loc[2] and loc[1] in self.scalars:
                    continue
                if loc[0] == 'p' and not loc[2] and loc[1] not in self.documented and loc[1] != '**':
                    continue
                self.mutate(loc, s, f'{ast.unparse(t)} changed in place')
            if isinstance(s.op, ast.Add) and any(l[0] == 'p' and not l[2] and l[1] in self.scalars for l in cur.all()):
                st.env[t.id] = NOTHING
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            cur = self.attr(b, t.attr, st)
            for loc in b.all():
                self.mutate(loc, s, f'{ast.unparse(t)} changed', t.attr)
            for loc in cur.all():
                self.mutate(loc, s, f'{ast.unparse(t)} changed in place')
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            self.ev(t.slice, st)
            for loc in b.all():
                self.mutate(loc, s, f'{ast.unparse(t)} changed')
        return st

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, (ast.Subscript, ast.Attribute)):
                b = self.ev(t.value, st)
                for loc in b.all():
                    if loc != ('p', '**', ()):
                        self.mutate(loc, s, f'{ast.unparse(t)} deleted')
        return st

    def s_If(self, s, st):
        self.ev(s.test, st)
        a, b = st.clone(), st.clone()
        # a value that is None has no storage; isinstance tests do not matter here
        t = s.test
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and \
                isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            if isinstance(t.ops[0], ast.Is):
                a.env[t.left.id] = NOTHING
            elif isinstance(t.ops[0], ast.IsNot):
                b.env[t.left.id] = NOTHING
        on = isinstance(t, ast.Name) and t.id in self.flags
        self.guards += on
        a = self.block(s.body, a)
        self.guards -= on
        b = self.block(s.orelse, b)
        if a is None:
            return b
        return a if b is None else a.join(b)

    def literal(self, n, depth=4):
        """the expression a name or attribute stands for, if it is always the same"""
        while depth and isinstance(n, (ast.Name, ast.Attribute)):
            depth -= 1
            if isinstance(n, ast.Name):
                if n.id in self.seqs:
                    n = self.seqs[n.id]
                    continue
                if n.id in self.locals:
                    return n
                r = self.p.resolve_name(self.f.module, n.id)
            elif isinstance(n.value, ast.Name) and n.value.id in ('self', 'cls') and self.f.cls is not None:
                ca = self.p.find_class_attr(self.f.cls, n.attr)
                r = None if ca is None else ca[1]
            else:
                return n
            r = getattr(r, 'node', r) if not isinstance(r, ast.AST) else r
            if not isinstance(r, (ast.List, ast.Tuple, ast.Set, ast.Dict, ast.Constant, ast.Name, ast.Attribute, ast.BinOp, ast.Call)):
                return n
            n = r
        return n

    def rows(self, n):
        """what a loop runs over: one expression or tuple of expressions per iteration"""
        n = self.literal(n)
        if isinstance(n, (ast.Tuple, ast.List, ast.Set)):
            return list(n.elts)
        if isinstance(n, ast.Dict) and None not in n.keys:
            return list(n.keys)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            a, b = self.rows(n.left), self.rows(n.right)
            return None if a is None or b is None else a + b
        if isinstance(n, (ast.ListComp, ast.GeneratorExp, ast.SetComp)) and len(n.generators) == 1 and isinstance(n.elt, ast.Name) and \
                isinstance(n.generators[0].target, ast.Name) and n.elt.id == n.generators[0].target.id:
            return self.rows(n.generators[0].iter)
        if isinstance(n, ast.Call) and not n.keywords:
            f = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
            if f in ('list', 'tuple', 'set', 'frozenset', 'sorted', 'reversed', 'iter') and len(n.args) == 1:
                return self.rows(n.args[0])
            if f == 'filter' and len(n.args) == 2:
                return self.rows(n.args[1])
            if f == 'enumerate' and n.args:
                a = self.rows(n.args[0])
                return None if a is None else [ast.Tuple([ast.Constant(i), x], ast.Load()) for i, x in enumerate(a)]
            if f == 'zip' and n.args:
                cols = [self.rows(x) for x in n.args]
                k = [len(c) for c in cols if c is not None]
                if not k:
                    return None
                return [ast.Tuple([c[i] if c is not None else ast.Constant(None) for c in cols], ast.Load()) for i in range(min(k))]
            if isinstance(n.func, ast.Attribute) and not n.args and f in ('keys', 'items'):
                d = self.literal(n.func.value)
                if isinstance(d, ast.Dict) and None not in d.keys:
                    return list(d.keys) if f == 'keys' else [ast.Tuple([k, v], ast.Load()) for k, v in zip(d.keys, d.values)]
            if isinstance(n.func, ast.Attribute) and f == 'split' and not n.args and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
                return [ast.Constant(x) for x in n.func.value.value.split()]
        return None

    def strings(self, target, row):
        """names that a loop binds to strings"""
        row = self.literal(row)
        if isinstance(target, ast.Name):
            return {target.id: row.value} if isinstance(row, ast.Constant) and isinstance(row.value, str) else {}
        if isinstance(target, (ast.Tuple, ast.List)) and isinstance(row, (ast.Tuple, ast.List)) and len(target.elts) == len(row.elts):
            out = {}
            for t, r in zip(target.elts, row.elts):
                out.update(self.strings(t, r))
            return out
        return {}

    def const(self, n):
        if isinstance(n, ast.Name) and n.id in self.consts:
            return self.consts[n.id]
        if isinstance(n, ast.JoinedStr):
            parts = [x.value if isinstance(x, ast.Constant) else self.const(x.value) if x.format_spec is None and x.conversion == -1 else None for x in n.values]
            return None if None in parts else ''.join(str(x) for x in parts)
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
            a, b = self.const(n.left), self.const(n.right)
            return None if a is None or b is None else a + b
        n = self.literal(n)
        return n.value if isinstance(n, ast.Constant) and isinstance(n.value, str) else None

    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        rows = self.rows(s.iter)
        known = [self.strings(s.target, r) for r in rows] if rows and len(rows) <= 20 else []
        if any(known) and not any(set(k) & set(self.consts) for k in known):
            self.brk.append([])
            each = self.elements(s.iter, it, st)
            for r, k in zip(rows, known):
                self.assign(s.target, each, st, s)
                for name, v in k.items():
                    self.consts[name] = v
                    st.env[name] = NOTHING
                x = self.block(s.body, st)
                for name in k:
                    del self.consts[name]
                for b in self.brk[-1]:
                    x = b if x is None else x.join(b)
                self.brk[-1].clear()
                if x is None:
                    st = None
                    break
                st = x
            self.brk.pop()
            return self.block(s.orelse, st) if st is not None and s.orelse else st
        return self.loop(s, st, lambda x: self.assign(s.target, self.elements(s.iter, it, x), x, s))

    def s_While(self, s, st):
        return self.loop(s, st, lambda x: self.ev(s.test, x))

    def loop(self, s, st, head):
        self.brk.append([])
        cur = st.clone()
        for _ in range(4):
            before = cur.key()
            x = cur.clone()
            head(x)
            x = self.block(s.body, x)
            for b in self.brk[-1]:
                x = b if x is None else x.join(b)
            self.brk[-1].clear()
            if x is not None:
                cur.join(x)
            if cur.key() == before:
                break
        self.brk.pop()
        return self.block(s.orelse, cur) if s.orelse else cur

    def s_With(self, s, st):
        for i in s.items:
            v = self.ev(i.context_expr, st)
            if i.optional_vars is not None:
                self.assign(i.optional_vars, v, st, s)
        return self.block(s.body, st)

    def s_Try(self, s, st):
        before = st.clone()
        body = self.block(s.body, st)
        outs = []
        if body is not None:
            e = self.block(s.orelse, body.clone())
            if e is not None:
                outs.append(e)
        for h in s.handlers:
            x = before.clone()
            if body is not None:
                x.join(body.clone())
            x = self.block(h.body, x)
            if x is not None:
                outs.append(x)
        if not outs:
            self.block(s.finalbody, before)
            return None
        out = outs[0]
        for o in outs[1:]:
            out.join(o)
        return self.block(s.finalbody, out)

    def s_Match(self, s, st):
        self.ev(s.subject, st)
        out = st.clone()
        for c in s.cases:
            x = self.block(c.body, st.clone())
            if x is not None:
                out.join(x)
        return out

    # -- stores -------------------------------------------------------------
    def mutate(self, loc, node, text, aspect='*', origin=None, optin=False):
        if loc == ('p', '**', ()):
            return
        if loc[0] == 'p':
            new = Effect(f'{self.f.module.rel}:{node.lineno}', text, origin or self.f.qual, optin or bool(self.guards))
            old = self.s.mut.get((loc, aspect))
            if old is None or old.optin and not new.optin:
                self.s.mut[loc, aspect] = new

    def assign(self, t, v, st, s):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = any(isinstance(e, ast.Starred) for e in t.elts)
            if v.items is not None and not star and len(v.items) == len(t.elts):
                for e, x in zip(t.elts, v.items):
                    self.assign(e, x, st, s)
            else:
                x = self.elem(v, st)
                for e in t.elts:
                    self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, s)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, st), t.attr, v, st, s)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, st)
            self.ev(t.slice, st)
            key = self.const(t.slice) or '*'
            for loc in b.all():
                if loc == ('p', '**', ()):
                    st.heap.setdefault(loc, {})[key] = v
                    continue
                self.mutate(loc, s, f'{ast.unparse(t)} assigned')
                if v.all() and self.container(loc):
                    h = st.heap.setdefault(loc, {})
                    h[key] = h.get(key, NOTHING) | v
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, s)

    def container(self, loc):
        return loc[0] == 'n' and loc not in self.cls

    def setattr(self, b, name, v, st, s):
        locs = b.all()
        for loc in locs:
            self.mutate(loc, s, f'attribute {name} assigned', name)
            h = st.heap.setdefault(loc, {})
            if len(locs) == 1 and name != '?':
                c = self.cls.get(loc)
                f = self.p.find_setter(c, name) if c is not None else None
                if f is not None:
                    continue
                h[name] = v
            else:
                d = Val({step(loc, name)}) if loc[0] == 'p' else NOTHING
                h[name] = h.get(name, d) | v

    # -- expressions ----------------------------------------------------------
    def ev(self, n, st):
        if n is None:
            return NOTHING
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m:
            return m(n, st)
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.expr):
                self.ev(c, st)
        return NOTHING

    def e_Constant(self, n, st):
        return NOTHING

    def e_Name(self, n, st):
        return st.env.get(n.id, NOTHING)

    def e_NamedExpr(self, n, st):
        v = self.ev(n.value, st)
        self.assign(n.target, v, st, n)
        return v

    def e_Tuple(self, n, st):
        if any(isinstance(e, ast.Starred) for e in n.elts):
            return Val(frozenset().union(*[self.ev(e, st).all() for e in n.elts]))
        return Val(frozenset(), [self.ev(e, st) for e in n.elts])

    def e_List(self, n, st):
        loc = self.fresh(n)
        st.heap[loc] = {'*': Val(frozenset().union(*[self.ev(e, st).all() for e in n.elts]))}
        return Val({loc})

    e_Set = e_List

    def e_Starred(self, n, st):
        return self.elem(self.ev(n.value, st), st)

    def e_Dict(self, n, st):
        loc = self.fresh(n)
        h = {}
        for k, v in zip(n.keys, n.values):
            x = self.ev(v, st)
            key = self.const(k) or '*'
            h[key] = h.get(key, NOTHING) | x
        st.heap[loc] = h
        return Val({loc})

    def e_IfExp(self, n, st):
        self.ev(n.test, st)
        return self.ev(n.body, st) | self.ev(n.orelse, st)

    def e_BoolOp(self, n, st):
        out = NOTHING
        for v in n.values:
            out = out | self.ev(v, st)
        return out

    def e_Lambda(self, n, st):
        return NOTHING

    def e_ListComp(self, n, st):
        x = st.clone()
        for g in n.generators:
            it = self.ev(g.iter, x)
            self.assign(g.target, self.elements(g.iter, it, x), x, n)
        if isinstance(n, ast.DictComp):
            v = self.ev(n.value, x)
        else:
            v = self.ev(n.elt, x)
        if not v.all():
            return NOTHING
        loc = self.fresh(n)
        st.heap[loc] = {'*': Val(v.all())}
        return Val({loc})

    e_SetComp = e_GeneratorExp = e_DictComp = e_ListComp

    def fresh(self, n, tag=''):
        return ('n', (self.f.qual, n.lineno, n.col_offset, tag), ())

    def e_Attribute(self, n, st):
        ent = self.entity(n, st)
        if ent is not None:
            return NOTHING
        b = self.ev(n.value, st)
        if n.attr in ('T', 'real', 'imag', 'data', 'flat') and not any(l in self.cls for l in b.all()):
            return Val(b.all())
        if n.attr in ('shape', 'ndim', 'size', 'dtype', 'name', 'filename', 'stem', 'parent', 'suffix'):
            return NOTHING
        return self.attr(b, n.attr, st)

    def attr(self, b, name, st, raw=False):
        out = set()
        for loc in b.all():
            c = self.cls.get(loc)
            f = self.p.find_method(c, name) if c is not None else None
            if f is not None and f.is_property and not raw:
                out |= self.apply(f, [Val({loc})], {}, st, f.node).all()
                continue
            h = st.heap.get(loc, {})
            if name in h:
                out |= h[name].all()
            elif loc[0] == 'p':
                if f is None or raw:
                    out.add(step(loc, name))
            if '?' in h:
                out |= h['?'].all()
            if name == '?' and loc[0] == 'n':
                for v in h.values():
                    out |= v.all()
        return Val(out)

    def entity(self, n, st):
        """module level entity an expression denotes"""
        base = n
        while isinstance(base, ast.Attribute):
            base = base.value
        if not isinstance(base, ast.Name) or base.id in st.env:
            return None
        return self.p.resolve_expr(self.f.module, n)

    def e_Subscript(self, n, st):
        b = self.ev(n.value, st)
        self.ev(n.slice, st)
        if self.const(n.slice) is not None:
            return self.attr(b, self.const(n.slice), st)
        if b.items is not None and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, int) and \
                -len(b.items) <= n.slice.value < len(b.items):
            return b.items[n.slice.value]
        if self.copies(n.slice):
            return NOTHING
        return self.elem(b, st)

    def copies(self, s):
        return any(self.is_fancy(p) for p in (s.elts if isinstance(s, ast.Tuple) else [s]))

    def elem(self, v, st=None):
        if v.items is not None:
            out = Val(v.locs)
            for i in v.items:
                out = out | i
            return out
        out = set()
        for loc in v.locs:
            h = st.heap.get(loc, {}) if st is not None else {}
            if loc[0] == 'n':
                if st is not None:
                    for x in h.values():
                        out |= x.all()
            else:
                out.add(step(loc, '*'))
                if '*' in h:
                    out |= h['*'].all()
        return Val(out)

    def elements(self, it, v, st):
        if isinstance(it, ast.Call):
            n = it.func.id if isinstance(it.func, ast.Name) else it.func.attr if isinstance(it.func, ast.Attribute) else ''
            if n == 'enumerate':
                return Val(frozenset(), [NOTHING, self.elem(v, st)])
            if n == 'zip' and v.items is not None:
                return Val(frozenset(), [self.elem(x, st) for x in v.items])
            if n == 'items':
                return Val(frozenset(), [NOTHING, self.elem(v, st)])
            if n in ('keys', 'range', 'sorted'):
                return NOTHING
        return self.elem(v, st)

    def e_Call(self, n, st):
        args, star = [], False
        for a in n.args:
            if isinstance(a, ast.Starred):
                star = True
                args.append(self.elem(self.ev(a.value, st), st))
            else:
                args.append(self.ev(a, st))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, st)
            if k.arg is not None:
                kw[k.arg] = v
            else:
                kw['**'] = kw.get('**', NOTHING) | self.spread(v, st)
        f = n.func
        ent = self.entity(f, st) if isinstance(f, (ast.Name, ast.Attribute)) else None
        if isinstance(ent, Class):
            return self.construct(ent, args, kw, st, n)
        if isinstance(ent, Func):
            if ent.cls is not None and not ent.is_static and not ent.is_classmethod:
                return self.apply(ent, args, kw, st, n)
            if ent.is_classmethod:
                args = [NOTHING] + args
            return self.apply(ent, args, kw, st, n)
        if isinstance(ent, External):
            return self.external(ent.name, n, args, kw, st)
        if isinstance(f, ast.Name):
            if f.id in st.env:
                return NOTHING
            return self.builtin(f.id, n, args, kw, st)
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' and self.f.cls:
                for c in self.p.mro(self.f.cls)[1:]:
                    if isinstance(c, Class) and f.attr in c.methods:
                        me = st.env.get(self.f.params[0], NOTHING)
                        return self.apply(c.methods[f.attr], [me] + args, kw, st, n)
                return NOTHING
            return self.method(self.ev(f.value, st), f.attr, args, kw, st, n)
        self.ev(f, st)
        return NOTHING

    def spread(self, v, st):
        """values handed on through a dictionary of keyword arguments"""
        return v

    def construct(self, cls, args, kw, st, n):
        loc = self.fresh(n)
        self.cls[loc] = cls
        st.heap[loc] = {}
        me = Val({loc})
        f = self.p.find_method(cls, '__init__')
        if f is not None:
            self.apply(f, [me] + args, kw, st, n)
        return me

    def method(self, recv, name, args, kw, st, n):
        out = NOTHING
        known = False
        for loc in recv.all():
            c = self.cls.get(loc)
            f = self.p.find_method(c, name) if c is not None else None
            if f is not None:
                known = True
                out = out | self.apply(f, args if f.is_static else [Val({loc})] + args, kw, st, n)
        if known:
            return out
        if name in MUTM and not isinstance(n.func.value, ast.Constant):
            for loc in recv.locs:
                if loc == ('p', '**', ()):
                    continue
                if name in ('update', 'pop', 'remove', 'append', 'insert', 'extend', 'clear', 'setdefault', 'popitem', 'sort', 'reverse',
                        'fill', 'resize', 'put', 'itemset', 'partition', 'byteswap'):
                    self.mutate(loc, n, f'{ast.unparse(n.func)}() changes it')
                if self.container(loc):
                    h = st.heap.setdefault(loc, {})
                    for a in args:
                        h['*'] = h.get('*', NOTHING) | Val(a.all())
            if name in ('append', 'extend', 'insert'):
                if isinstance(n.func.value, ast.Name) and recv.items is not None or not recv.all():
                    if isinstance(n.func.value, ast.Name) and any(a.all() for a in args):
                        st.env[n.func.value.id] = Val(recv.all().union(*[a.all() for a in args]))
        if name in ELEM:
            a0 = n.args[0] if n.args else None
            key = self.const(a0) if a0 is not None else None
            v = self.attr(recv, key, st) if key else self.elem(recv, st)
            return v | (args[1] if len(args) > 1 else NOTHING)
        if name in ('items', 'values'):
            return self.elem(recv, st) if any(l[0] == 'n' and self.container(l) for l in recv.all()) else Val(recv.all())
        if name in VIEWM:
            return Val(recv.all())
        if name == 'astype' and 'copy' in kw:
            return Val(recv.all())
        return NOTHING

    def builtin(self, name, n, args, kw, st):
        if name in ('getattr', 'setattr', 'delattr') and len(n.args) > 1:
            k = n.args[1]
            key = self.const(k) or '?'
            if name == 'getattr':
                return self.attr(args[0], key, st) | (args[2] if len(args) > 2 else NOTHING)
            if name == 'setattr':
                self.setattr(args[0], key, args[2], st, n)
            return NOTHING
        if name == 'zip':
            return Val(frozenset(), args)
        if name in ('enumerate', 'reversed', 'iter', 'next', 'list', 'tuple', 'sorted', 'set', 'filter'):
            if not args:
                return NOTHING
            if name in ('list', 'tuple', 'sorted', 'set'):
                v = self.elem(args[0], st)
                if not v.all() or name == 'sorted':
                    return NOTHING
                # the elements stay the same objects, the container is new
                loc = self.fresh(n)
                st.heap[loc] = {'*': Val(v.all())}
                return Val({loc})
            return Val(args[0].all(), args[0].items)
        if name == 'dict':
            loc = self.fresh(n)
            h = {k: v for k, v in kw.items() if k != '**'}
            if args or '**' in kw:
                h['*'] = self.elem(args[0] if args else kw['**'], st)
            st.heap[loc] = h
            return Val({loc})
        if name in ('max', 'min', 'sum', 'abs', 'len', 'float', 'int', 'str', 'bool', 'round', 'range', 'isinstance', 'hasattr', 'print',
                'repr', 'any', 'all', 'type', 'open', 'map', 'divmod', 'id', 'hash', 'vars', 'format', 'super', 'complex', 'bytes'):
            return NOTHING
        return NOTHING

    def external(self, name, n, args, kw, st):
        short = name.rsplit('.', 1)[-1]
        root = name.split('.')[0]
        if root == 'copy' and short == 'copy' or short == 'deepcopy':
            return self.clone(args[0] if args else NOTHING, st, n, deep=short == 'deepcopy')
        if root == 'numpy':
            if 'out' in kw:
                for loc in kw['out'].all():
                    self.mutate(loc, n, 'given as output')
            if short in MUTF and args:
                for loc in args[0].all():
                    self.mutate(loc, n, f'{short}() changes it')
            if short == 'shuffle' and args:
                for loc in args[0].all():
                    self.mutate(loc, n, 'shuffled')
            if short in VIEW and args:
                return Val(args[0].all())
            if short == 'array' and any(k.arg == 'copy' and isinstance(k.value, ast.Constant) and k.value.value is not True for k in n.keywords):
                return Val(args[0].all() if args else ())
            if short in ('array', 'masked_array', 'masked_where', 'masked_equal', 'masked_invalid') and '.ma.' in name and args:
                keep = [k for k in n.keywords if k.arg == 'copy']
                if short in ('array', 'masked_array') and not (keep and isinstance(keep[0].value, ast.Constant) and keep[0].value.value is True):
                    return Val(args[0].all() | (kw.get('mask', NOTHING).all() if False else frozenset()))
            return NOTHING
        return NOTHING

    def clone(self, v, st, n, deep):
        """a copy is new storage; the objects a shallow copy holds stay shared"""
        out = set()
        for loc in v.all():
            c = self.cls.get(loc)
            if c is None:
                continue
            new = self.fresh(n, str(loc))
            self.cls[new] = c
            h = st.heap.get(loc, {})
            st.heap[new] = {} if deep else {**({'?': self.attr(Val({loc}), '?', st)} if loc[0] == 'p' else {}), **h}
            out.add(new)
        return Val(out)

    # -- calls through summaries -------------------------------------------------
    def apply(self, func, args, kw, st, n):
        s = self.o.summary(func)
        names = func.params + func.kwonly
        bind = dict(zip(func.params, args))
        extra = args[len(func.params):]
        for k, v in kw.items():
            if k in names:
                bind[k] = v
        rest = {k: v for k, v in kw.items() if k not in names and k != '**'}
        wild = kw.get('**', NOTHING)

        def site(i):
            tag = zlib.crc32(repr(i[1]).encode()) % 99991
            return ('n', (self.f.qual, getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0), tag), ())

        def tr(loc):
            """locations of the caller that a location of the callee stands for"""
            if loc[0] == 'n':
                b = Val({site(('n', loc[1], ()))})
                path = loc[2]
            else:
                path = loc[2]
                if loc[1] == '**':
                    if path and path[0] in rest:
                        b, path = rest[path[0]], path[1:]
                    elif path and path[0] in ('*', '?'):
                        b, path = Val(frozenset().union(*[x.all() for x in rest.values()]) if rest else frozenset()), path[1:]
                    elif path:
                        b = self.attr(wild, path[0], st) if wild.all() else NOTHING
                        path = path[1:]
                    else:
                        b = Val(frozenset())
                elif loc[1] == func.vararg:
                    b, path = Val(frozenset().union(*[x.all() for x in extra]) if extra else frozenset()), path[1:]
                else:
                    b = bind.get(loc[1], NOTHING)
            for x in path:
                b = self.elem(b, st) if x == '*' else self.attr(b, x, st, raw=True)
            return b

        def trv(v):
            out = set()
            for l in v.locs:
                out |= tr(l).all()
            return Val(out, None if v.items is None else [trv(i) for i in v.items])

        # original storage changed
        for (loc, aspect), e in s.mut.items():
            for l in tr(loc).all():
                self.mutate(l, n, e.text if e.text.startswith('through ') else f'through {e.at} {e.text}', aspect, e.origin, e.optin)
        # attributes and elements after the call
        new = {}
        for loc, h in s.heap.items():
            if loc == ('p', '**', ()):
                continue
            for l in tr(loc).all():
                new.setdefault(l, []).append({k: trv(v) for k, v in h.items()})
        for loc, c in s.cls.items():
            if loc[0] == 'n':
                self.cls[site(loc)] = c
        for l, hs in new.items():
            h = st.heap.setdefault(l, {})
            for x in hs:
                for k, v in x.items():
                    if len(hs) == 1 and k not in ('?', '*'):
                        h[k] = v
                    else:
                        h[k] = h.get(k, Val({step(l, k)}) if l[0] == 'p' else NOTHING) | v
        return trv(s.ret)
