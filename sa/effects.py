"""Obligations on storage effects, decided on the summaries of sa.alias."""
import ast
from . import alias, docs
from .project import Class

STRUCT = {'l', 'm', 'lmax', 'mmax', 'ndim', 'shape', 'filename'}     # derived from the data, or where it was last read or written


# operations that give a new object
NEW = set('copy zeros_like flatten expand index subset scale power offset drift flip transpose mean sum max min destripe extend_matrix '
    '__next__'.split())


def engine(project):
    if not hasattr(project, '_alias'):
        project._alias = alias.Alias(project)
    return project._alias


def me(f):
    return f.params[0] if f.cls is not None and not f.is_static and f.params else None


def class_scalars(project, cls):
    out = set()
    for c in project.mro(cls):
        doc = ast.get_docstring(c.node) if isinstance(c, Class) else None
        if not doc:
            continue
        for name, rec in docs.parameters(doc.replace('Attributes\n', 'Parameters\n')).items():
            if alias.scalar_type(rec['type']) and 'ndarray' not in rec['type']:
                out.add(name)
    return out


def documented(project, f):
    return docs.parameters(f.doc)


def public(f):
    return f.name in NEW or not f.name.startswith('_') and not any(p.startswith('_') for p in f.qual.split('.'))


def in_place(f, s):
    """the function returns the very object it changes"""
    return {l[1] for l in s.ret.all() if l[0] == 'p' and not l[2]}


def closure(s, v, depth=4):
    """locations reachable from a value through containers the function created"""
    seen, todo = set(), [(l, 0) for l in v.all()]
    while todo:
        l, d = todo.pop()
        if l in seen:
            continue
        seen.add(l)
        if l[0] == 'n' and d < depth:
            for x in s.heap.get(l, {}).values():
                todo += [(y, d + 1) for y in x.all()]
    return seen


def scalar_loc(project, f, loc, scal):
    """the location holds an immutable value by its documentation"""
    d = documented(project, f)
    names = [n for n in loc[2] if n not in ('*', '?')]
    if loc[1] == '**':
        return bool(names) and names[0] in d and alias.scalar_type(d[names[0]]['type'])
    if names and (names[-1] in scal or names[-1] in STRUCT):
        return True
    if not names:
        # nor has it elements that can be changed
        n = f.defaults().get(loc[1])
        if loc[1] not in d and isinstance(n, ast.Constant) and n.value is not None:
            return True
        return loc[1] in d and alias.scalar_type(d[loc[1]]['type']) or loc[1] in scal
    return False


def label(loc):
    base = 'keyword arguments' if loc[1] == '**' else loc[1]
    return base + ''.join('[]' if n == '*' else '.*' if n == '?' else f'.{n}' for n in loc[2])


def short(f):
    return f.qual.replace('gravity_toolkit.', '', 1)


def unchanged(project, rep, funcs, rule='unchanged'):
    """no argument other than the object updated in place changes"""
    E = engine(project)
    for f in funcs:
        s = E.summary(f)
        ip = in_place(f, s)
        d = documented(project, f)
        own = me(f)
        args = [p for p in f.params + f.kwonly if p != own and not (f.is_classmethod and p == f.params[0])]
        if f.kwarg:
            args.append('**')
        scal = set().union(*[class_scalars(project, c) for c in s.cls.values()]) if s.cls else set()
        returns = bool(s.ret.all()) or any(getattr(n, 'value', None) is not None for n in f.returns())
        for p in args:
            if p in ip:
                continue
            # a procedure without a result works on what it is given
            if p != '**' and not returns:
                continue
            hit = None
            for (loc, aspect), e in s.mut.items():
                if loc[1] != p or e.optin:
                    continue
                if aspect in STRUCT or (aspect != '*' or loc[2]) and scalar_loc(project, f, loc, scal):
                    continue
                if hit is None or len(loc[2]) < len(hit[0][2]):
                    hit = (loc, aspect, e)
            rep.unit(f.qual)
            if hit is None:
                rep.ok(rule, f'{short(f)} {p}')
                continue
            loc, aspect, e = hit
            if e.origin != f.qual and reported(project, E, e.origin, funcs, loc, ip):
                continue
            rep.bad(rule, f'{short(f)} {label(loc)}', f'the argument is changed: {e.text}', e.at)


def reported(project, E, origin, funcs, loc, ip):
    """the function whose statement makes the change already reports it for its own argument"""
    for g in funcs:
        if g.qual == origin:
            s = E.summary(g)
            skip = in_place(g, s) | {me(g)}
            return any(e.origin == origin and l[1] not in skip and not e.optin for (l, _), e in s.mut.items())
    return False


def query(project, rep, funcs, rule='query'):
    """a method that returns something else, or only writes, leaves its object as it was"""
    E = engine(project)
    for f in funcs:
        own = me(f)
        if own is None or f.is_classmethod or f.name.startswith('__') and f.name not in NEW:
            continue
        s = E.summary(f)
        if own in in_place(f, s) and f.name not in NEW:
            continue
        scal = class_scalars(project, f.cls)
        returns = any(getattr(n, 'value', None) is not None for n in f.returns())
        writes = f.name.startswith('to_')
        if not returns and not writes:
            continue
        hit = None
        for (loc, aspect), e in s.mut.items():
            if loc[1] != own or e.optin:
                continue
            if aspect in STRUCT or aspect in scal or aspect.startswith('__') or any(n.startswith('__') for n in loc[2]):
                continue
            if (aspect != '*' or loc[2]) and scalar_loc(project, f, loc, scal):
                continue
            hit = (loc, aspect, e)
            break
        rep.unit(f.qual)
        if hit is None:
            rep.ok(rule, short(f))
            continue
        loc, aspect, e = hit
        if e.origin != f.qual and any(g.qual == e.origin and own_query(E, g) for g in funcs):
            continue
        what = label(loc) + ('' if aspect == '*' else f'.{aspect}')
        rep.bad(rule, f'{short(f)} {what}', f'computing or writing a result changes the object: {e.text}', e.at)


def own_query(E, g):
    return me(g) is not None and me(g) not in in_place(g, E.summary(g))


def owns(project, rep, funcs, rule='owns'):
    """the attributes of a returned object, or of an object updated in place, are not storage of another argument"""
    E = engine(project)
    for f in funcs:
        if f.name.startswith('__') and f.name not in NEW:
            continue
        s = E.summary(f)
        own = me(f)
        if own and f.name in NEW and ('p', own, ()) in s.ret.all():
            rep.bad(rule, short(f), 'the operation gives a new object, but the object itself is returned', f'{f.module.rel}:{f.node.lineno}')
            continue
        for obj in s.ret.all():
            new = obj[0] == 'n' and obj in s.cls
            if not new and obj != ('p', own, ()):
                continue
            scal = class_scalars(project, s.cls[obj] if new else f.cls)
            for k, v in s.heap.get(obj, {}).items():
                if k in scal or k in STRUCT:
                    continue
                bad = None
                for l in closure(s, v):
                    if l[0] != 'p' or (not new and l[1] == own):
                        continue
                    if scalar_loc(project, f, l, scal):
                        continue
                    if k == '?' and l[2] and l[2][-1] in scal:
                        continue
                    bad = l
                    break
                rep.unit(f.qual)
                name = 'attributes' if k == '?' else k
                if bad is None:
                    rep.ok(rule, f'{short(f)} {name}')
                else:
                    rep.bad(rule, f'{short(f)} {name}', f'{"the returned object" if new else "the object"} keeps storage of {label(bad)}: changing one '
                        f'changes the other', f'{f.module.rel}:{f.node.lineno}')
