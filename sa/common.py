"""Shared helpers of the rules."""
import ast
import multiprocessing
import os
import threading
from . import cli, docs, gvn, values as V
from .project import Func, AnalysisError  # noqa: F401

NOINLINE = lambda fn, fr: False  # noqa: E731


def where(func, node):
    line = getattr(node, 'lineno', None)
    return f'{func.module.rel}:{line}' if line else func.module.rel


def site(e):
    """file:line of an event"""
    return where(e.frame.func, e.node) if e.frame.func else e.frame.module.rel


_CLI = {}


def scripts(project):
    key = id(project)
    if key not in _CLI:
        _CLI[key] = {n: cli.wiring(project, cli.script_model(project, m)) for n, m in project.scripts.items()}
    return _CLI[key]


def oneof(subject, values):
    return V.b_or(*[V.cmp('is', subject, V.const(v)) if v is None else V.cmp('==', subject, V.const(v))
                    for v in values])


def documented(func):
    """{parameter: allowed literals} from the docstring, with the default"""
    out = {}
    d = docs.parameters(func.doc)
    dflt = func.defaults()
    for p, rec in d.items():
        vals = list(rec['values'])
        if len(vals) < 2:
            continue
        t = rec['type'].lower()
        if 'list' in t or 'ndarray' in t or 'array' in t or 'tuple' in t:
            continue
        if p in dflt and isinstance(dflt[p], ast.Constant):
            vals.append(dflt[p].value)
        elif 'nonetype' in t and None not in vals:
            vals.append(None)
        out[p] = vals
    return out


def _choices(project, name, m):
    """allowed literals of the parameters that one script feeds from options with choices"""
    out = []
    s = cli.wiring(project, cli.script_model(project, m))
    for e in s.calls:
        fn = e.data['func']
        for p, v in (e.data.get('env') or {}).items():
            d = cli.ns_attr(v)
            o = s.options.get(d) if d else None
            if o is None or o.choices is None or o.nargs in ('+', '*') or o.action:
                continue
            vals = list(o.choices)
            if 'default' in o.kw:
                if o.default is KeyError:
                    continue
                vals.append(o.default)
            elif not (('required' in o.kw and o.kw['required'] is V.TRUE) or not o.flags[0].startswith('-')):
                vals.append(None)
            if o.type is not None and o.type.op == 'ext' and o.type.args[0] == 'int':
                vals = [int(x) if isinstance(x, (int, float)) else x for x in vals]
            out.append((fn.qual, p, vals))
    return out


def cli_choices(project):
    """{(function name, parameter): allowed literals} for values that come from argparse choices"""
    out = {}
    todo = sorted(project.scripts.items(), key=lambda x: -len(x[1].source))
    for r in sweep(lambda x: _choices(project, *x), todo):
        if isinstance(r, str):
            raise AnalysisError(f'command line analysis: {r}')
        for q, p, vals in r:
            out.setdefault((q, p), []).append(vals)
    # a parameter fed from several call sites accepts the union
    return {k: [x for vs in v for x in vs] for k, v in out.items()}


def enumerations(project, func, clic=None):
    out = documented(func)
    if clic is not None:
        for (fn, p), vals in clic.items():
            if fn == func.qual:
                out[p] = list(out.get(p, [])) + vals
    return out


def compared_constants(interp):
    """{subject: constants it is compared with} over all branch conditions"""
    out = {}
    for e in interp.events:
        if e.kind in ('if', 'while'):
            for x in V.walk(e.data['cond']):
                if x.op == 'cmp' and x.args[0] in ('==', 'is') and V.is_const(x.args[2]):
                    out.setdefault(x.args[1], set()).add(x.args[2])
    return out


def off_enumeration(facts, compared, depth=4):
    """the facts exclude every constant some dispatched subject is compared with"""
    for s, consts in compared.items():
        if len(consts) >= 2:
            nec = facts.nec.get(s, set())
            if consts <= nec:
                return s
    if depth and facts.clauses:
        count = {}
        for cl in facts.clauses:
            for atom in V.walk(cl):
                if atom.op in ('cmp', 'truthy') and facts.eval(atom) is None:
                    count[atom] = count.get(atom, 0) + 1
        if count:
            atom = max(count, key=lambda x: (count[x], -x.id))
            res = None
            for lit in (atom, V.b_not(atom)):
                f = facts.copy()
                f.add(lit)
                if f.bad:
                    continue
                res = off_enumeration(f, compared, depth - 1)
                if res is None:
                    return None
            return res
    return None


def roots(v):
    return {x.args[0] for x in V.walk(v) if x.op == 'sym'}


_work = None


def _one(i):
    fn, items = _work
    try:
        return fn(items[i])
    except (RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError) as exc:
        return f'{type(exc).__name__}: {exc}'


def sweep(fn, items, jobs=None):
    """fn over items in forked workers; results are plain data, errors are text"""
    global _work
    jobs = jobs or min(8, os.cpu_count() or 1)
    _work = (fn, items)
    if jobs == 1:
        return [_one(i) for i in range(len(items))]
    order = sorted(range(len(items)), key=lambda i: -size(items[i]))
    threading.stack_size(512 * 1024 * 1024)
    with multiprocessing.get_context('fork').Pool(jobs) as pool:
        res = pool.map(_one, order, chunksize=1)
    out = [None] * len(items)
    for i, r in zip(order, res):
        out[i] = r
    return out


def size(x):
    n = getattr(x, 'node', None)
    return (n.end_lineno - n.lineno) if n is not None else 0
