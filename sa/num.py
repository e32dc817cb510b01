"""Summaries with array structure compared with reference formulas.

``check`` value-numbers one function with :class:`precise.Precise` (all paths,
loops in closed form) and compares every named output with a reference given as
a formula over the leaves of the term (parameters and fields of the operands).
"""
import inspect
import numpy as np
from . import ev, gvn, precise, spec, views, values as V
from .project import AnalysisError


class Rng:
    """deterministic values for the leaves of one interpretation"""

    def __init__(self, seed):
        self.r = np.random.default_rng(seed)
        self.seed = seed

    def arr(self, *shape, lo=0.4, hi=1.6):
        return self.r.uniform(lo, hi, shape)

    def num(self, lo=0.4, hi=1.6):
        return float(self.r.uniform(lo, hi))

    def int(self, lo, hi):
        return int(self.r.integers(lo, hi + 1))

    def perm(self, n):
        return self.r.permutation(n)


class Partial:
    """a value of which only some entries are part of the contract"""

    def __init__(self, value, keep):
        self.value, self.keep = np.asarray(value), np.asarray(keep)

    def of(self, x):
        x = np.asarray(x)
        return x[self.keep] if x.shape == self.value.shape else x

    @property
    def kept(self):
        return self.value[self.keep]


def inst(project, qual, name):
    """a symbolic instance of a class as an argument"""
    cls = next(c for m in project.modules.values() for c in m.classes if c.qual.endswith(qual))
    return lambda I, st: I.new(st, 'inst', cls=cls, open='attr', base=V.sym(name))


def leaf(name):
    return lambda I, st: V.sym(name)


def cell(name):
    return lambda I, st: I.cell(st, V.sym(name))


def outcome(project, f, case=None, assume=(), inline=None, depth=6, self_value=None, prep=None, budget=400000, kwargs_open=True,
            defaults=False, no_exc=True, stand=None, ranks=None, folds=None):
    I = views.Viewed(project, inline=inline, max_depth=depth, budget=budget)
    I.no_exc = no_exc
    I.stand = stand or {}
    I.folds = folds or {}
    I.ranks = ranks or {}
    names = set(f.params + f.kwonly)
    args = {(k[2:] if k.startswith('**') and k[2:] in names else k): spec.lift(v) for k, v in (case or {}).items()}
    if defaults:
        for p, d in f.defaults().items():
            if p not in args:
                args[p] = lambda I, st, d=d: I.ev(d, st, gvn.Frame(None, f.module))
        kwargs_open = False
    try:
        r = I.run(f, args=args, assume=assume, self_value=self_value, prep=prep, kwargs_open=kwargs_open)
    except gvn.Limit:
        return None
    o = spec.Outcome(I, r)
    o.strict = True
    return o


def check(project, rep, rule, qual, leaves, ref, case=None, label='', outs=None, funcs=None, models=4, tol=1e-8, func=None, out=None,
          where=None, must=True, opaque=None, tag=None, memo=None, fold=False, **kw):
    """leaves: Rng -> {path: value}; ref: dict of leaves -> {accessor: value}"""
    f = func or project.require(qual)
    if tag is None:
        rep.unit(f.short)
        tag = f.short + (f'[{label}]' if label else '')
    seeds = [rep.seed * 1000 + k for k in range(models * (3 if rep.tier == 'thorough' else 1))]
    draws = [leaves(Rng(s)) for s in seeds]
    wants = [ref(dict(d)) for d in draws]
    names = list(wants[0])
    if opaque:
        # calls of these functions stay uninterpreted; the reference gives them a meaning
        impl, kw['inline'] = meanings(project, opaque)
        if fold:
            kw['folds'] = {k[4:]: (lambda a, kw, fn=fn: fn(None, a, kw)) for k, fn in impl.items()}
        funcs = {**(funcs or {}), **impl}
    for n in names:
        # arguments whose final value is compared are cells of the caller
        a = n[1:]
        if n.startswith('@') and a.isidentifier() and isinstance(draws[0].get(a), np.ndarray) and case and callable(case.get(a)):
            case = {**case, a: cell(a)}
    try:
        if memo is not None:
            # the same function with the same given arguments has one summary
            done, key = memo
            out = done[key] if key in done else done.setdefault(key, outcome(project, f, case, **kw))
        got = out if out is not None or memo is not None else outcome(project, f, case, **kw)
    except AnalysisError:
        raise
    except (RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError) as exc:
        for n in names:
            rep.unknown(rule, f'{tag} {n}', f'summary: {type(exc).__name__}: {exc}')
        return None
    pos = where or f'{f.module.rel}:{f.node.lineno}'
    if got is not None:
        refusals(rep, rule, tag, got, seeds, draws, funcs)
    for n in names:
        con = f'{tag}{"" if n == "return" else " " + n}'
        if got is None or got.value is None and not n.startswith('@'):
            rep.unknown(rule, con, 'analysis budget' if got is None else 'no returning path')
            continue
        if got.value is V.NONE and n[0] in '.[#':
            rep.bad(rule, con, 'nothing is returned', pos)
            continue
        if n[0] in '.[#' and got.form() in {'.': ('dict', 'sequence', 'iterator'), '[': ('sequence', 'iterator'), '#': ('dict', 'iterator')}[n[0]]:
            rep.bad(rule, con, f'the result is a {got.form()}', pos)
            continue
        try:
            g = got.get(n) if not n.startswith('@') else got.arg(n[1:])
            if g is None and n.startswith('['):
                if got.closed(n[1:-1]):
                    rep.bad(rule, con, 'not among the keys of the result', pos)
                    continue
            if g is None:
                rep.unknown(rule, con, 'output not found')
                continue
            verdict, why = decide(g, seeds, draws, [w[n] for w in wants], funcs, tol)
        except (RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError) as exc:
            verdict, why = ev.UNKNOWN, f'{type(exc).__name__}: {exc}'
        if got.I.escaped:
            # what becomes of the objects is not known
            verdict, why = ev.UNKNOWN, got.I.escaped[0]
        if verdict == ev.DIFFER:
            rep.bad(rule, con, why, pos)
        elif verdict == ev.EQUAL:
            rep.ok(rule, con)
        else:
            rep.unknown(rule, con, why)
    return got


def refusals(rep, rule, tag, got, seeds, draws, funcs):
    """no path that raises an error is taken on the given arguments"""
    conds = got.I.refused
    if not conds:
        return
    left = 0
    for c, at, first in conds:
        for s, d in zip(seeds, draws):
            m = ev.Model(s, leaves=d, funcs=funcs)
            try:
                if not grounded(c, d):
                    raise ev.Opaque('free')
                # the first time round the loops the statement is in
                env = next(m.assignments(first, ()), None) if first else ()
                if env is None:
                    continue
                x = m.ev(c, env)
                if np.ndim(x) == 0 and bool(x):
                    rep.bad(rule, f'{tag} refused', f'raises an error on valid arguments: {V.show(c, 5)[:200]}', at)
                    return
            except (ev.Opaque, ev.Fault, TypeError, ValueError):
                left += 1
                break
    if left < len(conds):
        rep.ok(rule, f'{tag} refused')


def grounded(e, leaves, memo=None):
    memo = {} if memo is None else memo
    if e in memo:
        return memo[e]
    if e is V.PI:
        return True
    p = ev.ptext(e)
    if p is not None and p in leaves:
        ok = True
    elif e.op == 'sym':
        ok = False
    else:
        ok = all(grounded(c, leaves, memo) for c in V.children(e))
    memo[e] = ok
    return ok


def meanings(project, opaque):
    fs, tab = {}, {}
    for key, fn in opaque.items():
        f = project.require(key)
        tab[f.qual] = fn

        mine = list(inspect.signature(fn).parameters)

        def call(m, a, kw, f=f, fn=fn, mine=mine):
            # parameters of the meaning correspond to those of the function by position
            names = [p for p in f.params if p not in ('self', 'cls')] if f.cls is not None and not f.is_static else f.params
            if f.cls is not None and not f.is_static:
                a = a[1:]
            kw = {k: v for k, v in kw.items() if k != '**'}
            kw.update(zip(names, a))
            to = dict(zip(names, mine))
            return fn(**{to.get(k, k): v for k, v in kw.items()})
        fs['pkg:' + f.qual] = call
    return fs, lambda func, fr: func.qual not in tab


def decide(g, seeds, draws, wants, funcs=None, tol=1e-8):
    agree, why = 0, 'no interpretation'
    for s, d, w in zip(seeds, draws, wants):
        m = ev.Model(s, leaves=d, funcs=funcs)
        try:
            x = m.ev(g)
        except ev.Opaque as exc:
            why = str(exc)
            continue
        except ev.Fault as exc:
            return ev.DIFFER, f'fault: {exc}'
        if isinstance(w, Partial):
            x, w = w.of(x), w.kept
        if not ev.same(x, w, tol):
            return ev.DIFFER, f'{ev.brief(x)} instead of {ev.brief(w)}; {V.show(g, 5)[:240]}'
        agree += 1
    return (ev.EQUAL if agree else ev.UNKNOWN), why
