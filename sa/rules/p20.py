"""The documented calling interface is the implemented one."""
import ast
import re
from .. import common, docs, gvn, values as V

DEFAULT = re.compile(r',\s*(?:by\s+)?default:?\s+(.+)$')


def consumed(f, name):
    """a keyword argument is read from, or passed on with, the keyword dictionary"""
    for n in ast.walk(f.node):
        if isinstance(n, ast.Constant) and n.value == name and not docstring(f, n):
            return True
        if isinstance(n, ast.Call) and any(k.arg is None and isinstance(k.value, ast.Name) and k.value.id == f.kwarg for k in n.keywords):
            return True
        # iterated or stored as a whole
        if isinstance(n, (ast.For, ast.comprehension)) and any(isinstance(x, ast.Name) and x.id == f.kwarg for x in ast.walk(n.iter)):
            return True
        if isinstance(n, ast.Call) and any(isinstance(a, ast.Name) and a.id == f.kwarg for a in n.args):
            return True
    return False


def docstring(f, n):
    b = f.node.body
    return bool(b) and isinstance(b[0], ast.Expr) and b[0].value is n


def actual(I, f, heap_state, name):
    """(found, value) of the default of a parameter or of an optional keyword argument"""
    d = f.defaults()
    if name in d:
        try:
            return True, ast.literal_eval(d[name])
        except (ValueError, SyntaxError):
            return True, KeyError
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('setdefault', 'get', 'pop') and \
                isinstance(n.func.value, ast.Name) and n.func.value.id == f.kwarg and len(n.args) == 2 and \
                isinstance(n.args[0], ast.Constant) and n.args[0].value == name:
            try:
                return True, ast.literal_eval(n.args[1])
            except (ValueError, SyntaxError):
                return True, KeyError
    return False, None


def literal(text):
    t = text.strip().rstrip(',').strip().strip('`')
    try:
        return ast.literal_eval(t)
    except (ValueError, SyntaxError):
        return KeyError


def same(a, b):
    if type(a) in (bool, str, type(None)) or type(b) in (bool, str, type(None)):
        return type(a) is type(b) and a == b
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a == b


def accepts(project, f, p, v):
    """does a path of the function return when the parameter has the value"""
    name = p if p in f.params + f.kwonly else '**' + p
    I = gvn.Interp(project, inline=common.NOINLINE)
    try:
        res = I.run(f, args={name: V.const(v)})
    except gvn.Limit:
        return None
    return res.state is not None


def analyse(project, f):
    out = []
    d = docs.parameters(f.doc)
    where = common.where(f, f.node)
    sig = f.params + f.kwonly
    if d:
        order = [p for p in d if p in f.params]
        ok = order == [p for p in f.params if p in d]
        out.append(('order', f.short, '' if ok else 'documented parameters are not in the order of the signature', where))
    for p, rec in d.items():
        if p in sig or p in (f.vararg, f.kwarg):
            out.append(('accepted', f'{f.short} {p}', '', where))
        elif f.kwarg and (p == 'verbose' or consumed(f, p)):
            # reports change no result
            out.append(('accepted', f'{f.short} {p}', '', where))
        else:
            out.append(('accepted', f'{f.short} {p}', 'documented parameter is not accepted', where))
            continue
        m = DEFAULT.search(rec['type'])
        found, have = actual(None, f, None, p)
        if m:
            want = literal(m.group(1))
            if want is not KeyError and found and have is not KeyError:
                out.append(('default', f'{f.short} {p}', '' if same(want, have) else f'documented default {want!r}, actual default {have!r}', where))
            elif want is not KeyError and not found and p in sig:
                out.append(('default', f'{f.short} {p}', f'documented default {want!r}, but the argument is required', where))
        vals = rec['values']
        t = rec['type'].lower()
        if len(vals) > 1 and not any(x in t for x in ('list', 'array', 'tuple')):
            for v in vals:
                r = accepts(project, f, p, v)
                if r is not None:
                    out.append(('value', f'{f.short} {p}={v!r}', '' if r else 'documented value always ends in an error', where))
    return out


def run(project, rep):
    rep.rule('accepted', 'every documented parameter is accepted by the function', floor=400)
    rep.rule('order', 'documented parameters are listed in the order of the signature', floor=100)
    rep.rule('default', 'the documented default of a parameter is its default', floor=250)
    rep.rule('value', 'a path of the function returns for every documented value of an option', floor=100)
    funcs = [f for f in project.all_functions() if docs.parameters(f.doc)]
    for f, r in zip(funcs, common.sweep(lambda f: analyse(project, f), funcs)):
        rep.unit(f.short)
        if isinstance(r, str):
            rep.unknown('accepted', f.short, r)
            continue
        for rule, what, why, at in r:
            if why:
                rep.bad(rule, what, why, at)
            else:
                rep.ok(rule, what)
