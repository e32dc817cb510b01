"""Calls, attributes and keys refer to things that exist."""
import ast
from .. import common, external, gvn, values as V
from ..project import Class

KINDS = {'call', 'noattr', 'readonly', 'nokey', 'badindex', 'undefined', 'unpack', 'badcall', 'extcall', 'key', 'resultkey'}


def inventory(project):
    """attribute names stored anywhere, and the classes whose attributes are not enumerable"""
    stored, dynamic = set(), set()
    for m in project.all_modules():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                stored.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1:
                a = n.args[1]
                if isinstance(a, ast.Constant):
                    stored.add(a.value)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                # names given to setattr through tables of field names
                dynamic.add(n.value)
    return stored | dynamic


_contracts = {}


def contract(project, f, clic):
    """alternatives a function returns: ('dict', {key: condition}, open), ('tuple', n), ('other',) with their conditions"""
    if f in _contracts:
        return _contracts[f]
    _contracts[f] = None
    I = gvn.Interp(project, inline=common.NOINLINE)
    assume = [common.oneof(V.sym(p), vals) for p, vals in common.enumerations(project, f, clic).items()]
    try:
        res = I.run(f, assume=assume)
    except gvn.Limit:
        return None
    if res.state is None:
        return None
    out = []

    def alt(v, cond):
        v = res.state.facts.resolve(v)
        if v.op == 'phi':
            alt(v.args[1], cond + [v.args[0]])
            alt(v.args[2], cond + [V.b_not(v.args[0])])
            return
        r = I.rec(res.state, v)
        if r is not None and r.kind == 'dict':
            keys = {}
            for k, x in r.slots.items():
                if k == '?':
                    continue
                keys[k] = present(x)
            out.append((V.b_and(*cond), 'dict', keys, bool(r.open) or '?' in r.slots))
        elif r is not None and r.kind == 'list' and 'items' in r.slots:
            out.append((V.b_and(*cond), 'tuple', len(r.slots['items'].args[0]), False))
        elif v.op == 'tuple':
            out.append((V.b_and(*cond), 'tuple', len(v.args[0]), False))
        elif v is V.NONE:
            out.append((V.b_and(*cond), 'none', 0, False))
        elif v in I.opaque and contract(project, I.opaque[v][0], clic):
            # the result of another function: its conditions are not translated
            for c, kind, keys, is_open in contract(project, I.opaque[v][0], clic):
                if kind == 'dict':
                    keys = {k: x if x in (V.TRUE, V.FALSE) else V.sym('?sometimes') for k, x in keys.items()}
                out.append((V.b_and(*cond, *([] if c is V.TRUE else [V.sym('?sometimes')])), kind, keys, is_open))
        else:
            out.append((V.b_and(*cond), 'other', 0, True))
    if res.value is not None:
        alt(res.value, [])
    _contracts[f] = out
    return out


def present(x):
    if x is V.ABSENT:
        return V.FALSE
    if x.op == 'phi' and V.contains(x, V.ABSENT):
        return V.b_or(V.b_and(x.args[0], present(x.args[1])), V.b_and(V.b_not(x.args[0]), present(x.args[2])))
    return V.TRUE


def result(project, I, e, clic):
    """(rule, what, problem) of a read of a returned mapping or sequence, or None"""
    f, env, loose = I.opaque[e.data['base']]
    alts = contract(project, f, clic)
    if not alts:
        return None
    table = {}
    for p in set(f.params + f.kwonly) | set(env):
        if p in env:
            table[V.sym(p)] = env[p]
        elif not loose and p in f.defaults() and isinstance(f.defaults()[p], ast.Constant):
            table[V.sym(p)] = V.const(f.defaults()[p].value)
    facts, key = e.data['decided'], e.data['key']

    def holds(c):
        return facts.eval(facts.resolve(V.subst(c, table)))
    live = [a for a in alts if holds(a[0]) is not False]
    if not live or any(a[1] == 'other' or a[3] for a in live):
        return None
    if key is None:
        if e.data['star']:
            return None
        n = e.data['n']
        ok = any(a[1] == 'tuple' and a[2] == n or a[1] == 'dict' for a in live)
        have = sorted({str(a[2]) if a[1] == 'tuple' else 'None' for a in live})
        return 'unpack', f'{f.short} {n}', '' if ok else f'unpacks {" or ".join(have)} returned values into {n} names'
    if V.is_str(key):
        ok = any(a[1] == 'dict' and key in a[2] and holds(a[2][key]) is not False for a in live)
        return 'key', f'{f.short} {V.cval(key)}', '' if ok else 'no such key in the returned mapping'
    if V.is_num(key) and all(a[1] in ('tuple', 'none') for a in live):
        i = V.cval(key)
        ok = any(a[1] == 'tuple' and -a[2] <= i < a[2] for a in live)
        return 'key', f'{f.short} {i}', '' if ok else 'no such index in the returned sequence'
    return None


def analyse(project, f, clic, names):
    I = gvn.Interp(project, inline=common.NOINLINE)
    assume = [common.oneof(V.sym(p), vals) for p, vals in common.enumerations(project, f, clic).items()]
    try:
        I.run(f, assume=assume)
    except gvn.Limit:
        return 'analysis budget'
    out = set()
    lines = (f.node.lineno, f.node.end_lineno)
    for e in I.events:
        if e.kind not in KINDS or e.frame.func is not f:
            continue
        at, d = common.site(e), e.data
        if e.kind == 'call':
            t = d['func'].short
            for p in d['problems']:
                out.add(('bad', 'call', t, p, at))
            if not d['problems']:
                out.add(('ok', 'call', t, '', at))
        elif e.kind == 'badcall':
            out.add(('bad', 'call', d['cls'].qual, d['why'], at))
        elif e.kind == 'noattr':
            out.add(('bad', 'attribute', f"{getattr(d['cls'], 'qual', None) or d['cls'].name}.{d['attr']}", 'no such attribute', at))
        elif e.kind == 'readonly':
            out.add(('bad', 'attribute', f"{d['cls'].qual}.{d['attr']}", 'assigns a read-only property', at))
        elif e.kind == 'key':
            out.add(('ok', 'key', V.show(d['key'], 2), '', at))
        elif e.kind in ('nokey', 'badindex'):
            r = d.get('rec')
            o = r.origin if r is not None else None
            if e.kind == 'nokey' and (o is None or not lines[0] <= getattr(o, 'lineno', 0) <= lines[1]):
                continue
            out.add(('bad', 'key', V.show(d['key'], 3), 'no such key' if e.kind == 'nokey' else 'no such index', at))
        elif e.kind == 'resultkey':
            r = result(project, I, e, clic)
            if r:
                out.add(('bad' if r[2] else 'ok',) + r + (at,))
        elif e.kind == 'undefined':
            out.add(('bad', 'name', d['name'], 'undefined name', at))
        elif e.kind == 'unpack':
            if d['have'] is not None and not d['star']:
                ok = d['have'] == d['n']
                out.add(('ok' if ok else 'bad', 'unpack', str(d['n']), '' if ok else f"unpacks {d['have']} values into {d['n']} names", at))
        elif e.kind == 'extcall':
            n = d['name']
            if n.split('.')[0] in external.CHECKED and not any(k == '**' for k in d['kw']) and not d.get('star'):
                v, defs = external.find(n)
                why = 'no such name in the installed library' if v == 'no' else external.misuse(defs, len(d['args']), list(d['kw'])) if not starred(e.node) else None
                out.add(('bad' if why else 'ok', 'library', n, why or '', at))
    # attributes of the object itself
    if f.cls is not None and not f.is_static and f.params:
        own = members(project, f.cls)
        me = f.params[0]
        if own is not None:
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == me:
                    if not rebound(f.node, me):
                        ok = n.attr in own or n.attr in names or n.attr.startswith('__')
                        out.add(('ok' if ok else 'bad', 'attribute', f'{f.cls.qual}.{n.attr}', '' if ok else 'never assigned', f'{f.module.rel}:{n.lineno}'))
    return sorted(out)


def starred(node):
    return isinstance(node, ast.Call) and (any(isinstance(a, ast.Starred) for a in node.args) or any(k.arg is None for k in node.keywords))


def rebound(node, name):
    return any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == name for n in ast.walk(node))


def members(project, cls):
    """names defined by a class and its bases; None when a base is not in the sources"""
    out = set()
    for c in project.mro(cls):
        if not isinstance(c, Class) or project.foreign_base(c):
            return None
        out |= set(c.methods) | set(c.setters) | set(c.attrs)
    return out


def libnames(project, m):
    """dotted names of checked libraries read in a module"""
    bound = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                if a.name.split('.')[0] in external.CHECKED:
                    bound[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        elif isinstance(n, ast.ImportFrom) and not n.level and n.module and n.module.split('.')[0] in external.CHECKED:
            for a in n.names:
                bound[a.asname or a.name] = f'{n.module}.{a.name}'
                yield f'{n.module}.{a.name}', n
    outer = set()
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Attribute) and n not in outer:
            chain, x = [], n
            while isinstance(x, ast.Attribute):
                chain.append(x.attr)
                x = x.value
                if isinstance(x, ast.Attribute):
                    outer.add(x)
            if isinstance(x, ast.Name) and x.id in bound:
                yield '.'.join([bound[x.id]] + chain[::-1]), n


def run(project, rep):
    rep.rule('call', 'the arguments of a call of a package function, method or constructor bind to its parameters', floor=1000)
    rep.rule('attribute', 'an attribute read from an object, class or module of the package is defined; properties without setter are not assigned', floor=500)
    rep.rule('key', 'a constant key or index is present in a mapping or sequence built in the same function', floor=50)
    rep.rule('name', 'every global name is bound in its module', floor=400)
    rep.rule('unpack', 'the number of values unpacked is the number of names', floor=50)
    rep.rule('library', 'functions of numpy, scipy and matplotlib exist in the installed version and accept the arguments given', floor=500)
    clic = common.cli_choices(project)
    names = inventory(project)
    funcs = list(project.all_functions())
    for f, r in zip(funcs, common.sweep(lambda f: analyse(project, f, clic, names), funcs)):
        rep.unit(f.short)
        if isinstance(r, str):
            rep.unknown('call', f.short, r)
            continue
        rep.ok('name', f.short)
        for verdict, rule, what, why, at in r:
            if verdict == 'ok':
                rep.ok(rule, f'{f.short} {what}')
            else:
                rep.bad(rule, f'{f.short} {what}', why, at)
    for m in project.all_modules():
        for dotted, n in libnames(project, m):
            v, _ = external.find(dotted)
            if v == 'no':
                rep.bad('library', f'{m.name} {dotted}', 'no such name in the installed library', f'{m.rel}:{n.lineno}')
            else:
                rep.ok('library', f'{m.name} {dotted}')
