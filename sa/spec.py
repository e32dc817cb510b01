"""Reference formulas compared with the value numbers of the code.

A reference is a small Python function (text) that states the published formula.
It is analysed by the same value numbering as the code under test; neither is
executed.  Outputs are compared by ``ident.compare``.
"""
import ast
import textwrap
from . import gvn, ident, values as V
from .project import Module, Func, AnalysisError

_PRE = 'import numpy as np\nimport copy\n'
_count = 0


def ref_func(project, text, imports=''):
    global _count
    _count += 1
    src = _PRE + imports + textwrap.dedent(text)
    m = Module(f'spec{_count}', '<spec>', '<spec>', ast.parse(src), src)
    project._bind(m)
    for f in m.functions:
        if f.name == 'ref':
            return f
    raise AnalysisError('reference without ref()')


def lift(v):
    if isinstance(v, list):
        return lambda I, st: I.new(st, 'list', slots={'items': V.mk('list', tuple(V.const(x) if not isinstance(x, V.E) else x for x in v))})
    return v if isinstance(v, V.E) or callable(v) else V.const(v)


class Outcome:
    strict = False

    def __init__(self, interp, result):
        self.I, self.r = interp, result
        self.value = result.value
        self.state = result.state

    def val(self, v):
        if v is None:
            return None
        st = self.state
        v = self.I.deep(st, st.facts.resolve(v))
        return V.resolve_deep(v, st.facts)

    def records(self, v):
        """feasible records of a value"""
        v = self.state.facts.resolve(v)
        if v.op == 'phi':
            return self.records(v.args[1]) + self.records(v.args[2])
        r = self.I.rec(self.state, v)
        return [(v, r)]

    def attr(self, name, obj=None):
        obj = self.value if obj is None else obj
        if obj is None:
            return None
        obj = self.state.facts.resolve(obj)
        if obj.op == 'phi':
            return V.phi(obj.args[0], self.attr(name, obj.args[1]), self.attr(name, obj.args[2]))
        r = self.I.rec(self.state, obj)
        if r is not None and r.kind == 'inst':
            if name in r.slots and r.slots[name] is not V.ABSENT:
                v = self.val(r.slots[name])
                if r.base is not None and V.contains(v, V.ABSENT):
                    v = V.subst(v, {V.ABSENT: V.attr(r.base, name)})
                return v
            if r.base is not None:
                return V.attr(r.base, name)
            return V.ABSENT if self.strict else None
        return V.attr(self.val(obj), name)

    def key(self, name, obj=None):
        obj = self.value if obj is None else obj
        r = self.I.rec(self.state, self.state.facts.resolve(obj)) if obj is not None else None
        if r is None or r.kind != 'dict':
            return None
        v = r.slots.get(V.const(name))
        return None if v is None else self.val(v)

    def form(self):
        """what kind of container the result is, when it is certain"""
        v = self.state.facts.resolve(self.value)
        if v.op == 'tuple':
            return 'sequence'
        if v.op == 'call' and v.args[0] in ('zip', 'enumerate'):
            return 'iterator'
        r = self.I.rec(self.state, v)
        return {'dict': 'dict', 'list': 'sequence'}.get(r.kind) if r is not None else None

    def closed(self, name):
        """the result is a dictionary of known keys without this one"""
        if self.value is None:
            return False
        v = self.state.facts.resolve(self.value)
        r = self.I.rec(self.state, v)
        return r is not None and r.kind == 'dict' and r.open is None and r.base is None and V.const(name) not in r.slots \
            and all(V.is_str(k) for k in r.slots)

    def keys(self, obj=None):
        obj = self.value if obj is None else obj
        r = self.I.rec(self.state, self.state.facts.resolve(obj)) if obj is not None else None
        if r is None or r.kind != 'dict':
            return None
        return [V.cval(k) for k in r.slots if V.is_str(k)]

    def arg(self, path):
        """final value of a field of an argument: 'self.clm'"""
        name, _, rest = path.partition('.')
        obj = self.I.entry.get(name)
        if obj is None or self.state is None:
            return None
        for a in rest.split('.') if rest else ():
            obj = self.attr(a, obj)
            if obj is None:
                return None
        return self.val(obj)

    def mapping(self, v):
        """a dictionary of known keys as one value"""
        r = self.I.rec(self.state, self.state.facts.resolve(v))
        if r is None or r.kind != 'dict' or r.open is not None or r.base is not None or not all(V.is_str(k) for k in r.slots):
            return None
        return V.mk('call', 'mapping', tuple(y for k, x in r.slots.items() for y in (k, self.val(x))), ())

    def item(self, i):
        v = self.val(self.value)
        if v is not None and v.op == 'tuple' and i < len(v.args[0]):
            return v.args[0][i]
        return None

    def get(self, name):
        """output by accessor text: 'return', '.attr', '[key]', '#i', 'arg.attr'"""
        if name == 'return':
            return self.val(self.value) if self.value is not None else None
        if name.startswith('.'):
            return self.attr(name[1:])
        if name.startswith('['):
            first, _, rest = name[1:-1].partition('][')
            r = self.I.rec(self.state, self.state.facts.resolve(self.value)) if self.value is not None else None
            raw = r.slots.get(V.const(first)) if r is not None and r.kind == 'dict' else None
            if rest:
                return self.key(rest, raw) if raw is not None else None
            m = self.mapping(raw) if raw is not None else None
            return m if m is not None else self.key(first)
        if name.startswith('#'):
            i, _, rest = name[1:].partition('.')
            v = self.value
            v = self.state.facts.resolve(v) if v is not None else None
            if v is None:
                return None
            r = self.I.rec(self.state, v)
            if r is not None and r.kind == 'list' and 'items' in r.slots:
                v = r.slots['items']
            if v.op in ('tuple', 'list') and int(i) < len(v.args[0]):
                x = v.args[0][int(i)]
                return self.attr(rest, x) if rest else self.val(x)
            return None
        raise AnalysisError(f'accessor {name}')


def run(project, func, case=None, assume=(), inline=None, depth=6, no_exc=True, self_value=None, prep=None, budget=400000,
        kwargs_open=True, defaults=False):
    I = gvn.Interp(project, inline=inline, max_depth=depth, budget=budget)
    I.no_exc = no_exc
    names = set(func.params + func.kwonly)
    args = {(k[2:] if k.startswith('**') and k[2:] in names else k): lift(v) for k, v in (case or {}).items()}
    if defaults:
        for p, d in func.defaults().items():
            args.setdefault(p, lambda I, st, d=d: I.ev(d, st, gvn.Frame(None, func.module)))
        kwargs_open = False
    try:
        r = I.run(func, args=args, assume=assume, self_value=self_value, prep=prep, kwargs_open=kwargs_open)
    except gvn.Limit:
        return None
    return Outcome(I, r)


def check(project, rep, rule, qual, ref, case=None, label='', assume=(), imports='', allow=(), post=None, func=None,
          only=None, refcase=None, domain=None, **kw):
    """compare every output named by the reference's returned dict"""
    f = func or project.require(qual)
    rep.unit(f.short)
    got = run(project, f, case, assume, **kw)
    rf = ref_func(project, ref, imports) if isinstance(ref, str) else ref
    rcase = {(k[2:] if k.startswith('**') else k): v for k, v in (case or {}).items()}
    rcase.update(refcase or {})
    want = run(project, rf, rcase, assume)
    if want is None or want.value is None:
        raise AnalysisError(f'reference for {qual} has no value')
    wrec = want.I.rec(want.state, want.value)
    if wrec is None or wrec.kind != 'dict':
        raise AnalysisError(f'reference for {qual} must return a dict')
    tag = f'{f.short}' + (f'[{label}]' if label else '')
    for k, v in wrec.slots.items():
        name = V.cval(k)
        if only and name not in only:
            continue
        con = f'{tag}{"" if name == "return" else " " + name}'
        if got is None:
            rep.unknown(rule, con, 'analysis budget')
            continue
        if got.value is None:
            rep.unknown(rule, con, 'no returning path')
            continue
        w = want.val(v)
        g = got.get(name)
        if post is not None:
            g = post(got, g)
        if g is None:
            rep.unknown(rule, con, 'output not found')
            continue
        verdict, why = ident.compare(g, w, allow=allow, domain=domain,
            seeds=range(1, 25) if domain else (1, 2, 3, 4, 5))
        if verdict == ident.EQUAL:
            rep.ok(rule, con)
        elif verdict == ident.DIFFER:
            rep.bad(rule, con, why, f'{f.module.rel}:{f.node.lineno}')
        else:
            rep.unknown(rule, con, why)
