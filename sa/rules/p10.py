"""Command-line options and named quantities reach the parameters they name."""
import ast
import collections
from .. import cli, common, docs, gvn, values as V

TYPES = {'int': {'int'}, 'float': {'float', 'int or float', 'int'}, 'bool': {'bool'}, 'str': {'str'}, 'list': {'list', 'tuple'}}
SITES, SHARE = 3, 0.8


def wired(project, name):
    """plain summary of one script: options, reads, undefined reads, option->parameter edges"""
    m = project.scripts[name]
    s = cli.wiring(project, cli.script_model(project, m))
    opts, reads, edges = {}, {}, []
    for d, o in s.options.items():
        kind = None
        if o.action in ('store_true', 'store_false'):
            kind = 'bool'
        elif o.action == 'count':
            kind = 'int'
        elif o.nargs in ('+', '*') or isinstance(o.nargs, int) and o.nargs > 1 or o.action in ('append', 'extend'):
            kind = 'list'
        elif o.type is not None and o.type.op == 'ext' and o.type.args[0] in ('int', 'float', 'str'):
            kind = o.type.args[0]
        elif o.type is not None and o.type.op == 'ext' and o.type.args[0].split('.')[-1] == 'Path':
            kind = 'path'
        opts[d] = (kind, f'{m.rel}:{o.node.lineno}')
    for d, es in s.reads.items():
        e = es[0]
        reads[d] = common.site(e)
    for e in s.calls:
        for p, v in {**e.data.get('extras_kw', {}), **(e.data.get('env') or {})}.items():
            d = cli.ns_attr(v)
            if d is not None:
                edges.append((e.data['func'].qual, p, d, common.site(e)))
    return {'parser': s.has_parser and s.main is not None, 'complete': s.complete, 'opts': opts, 'reads': reads, 'edges': edges}


def argument(node):
    """name carried by an argument expression"""
    if isinstance(node, ast.Name):
        return node.id
    if isinstance(node, ast.Attribute):
        return node.attr
    return None


def calls(project, f):
    """plain summary of the calls of package functions made by one function"""
    I = gvn.Interp(project, inline=common.NOINLINE)
    try:
        I.run(f)
    except gvn.Limit:
        return 'analysis budget'
    mine = {p: V.sym(p) for p in f.params + f.kwonly}
    out = []
    for e in I.events:
        if e.kind != 'call' or e.frame.func is not f or not isinstance(e.node, ast.Call):
            continue
        g = e.data['func']
        off = 1 if g.cls is not None and not g.is_static else 0
        loose = e.data['star'] or '**' in e.data['kw']
        named = {}
        for i, a in enumerate(e.node.args):
            if isinstance(a, ast.Starred):
                break
            if i + off < len(g.params):
                named[g.params[i + off]] = argument(a)
        for k in e.node.keywords:
            if k.arg:
                named[k.arg] = argument(k.value)
        given = {}
        for p, v in {**e.data['extras_kw'], **e.data['env']}.items():
            direct = [q for q, s in mine.items() if v is s]
            given[p] = direct[0] if direct else None
        out.append((g.qual, common.site(e), named, given, loose, id(e.node)))
    uniq = {}
    for c in out:
        uniq.setdefault((c[0], c[1], c[5]), c[:5])
    return list(uniq.values())


def swapped(named, params):
    """parameters of a call that receive each other's names"""
    low = {p.lower(): p for p in params}
    to = {}
    for p, n in named.items():
        if n is not None and n.lower() in low and low[n.lower()] != p:
            to[p] = low[n.lower()]
    for p in to:
        seen, q = [p], to[p]
        while q in to and q not in seen:
            seen.append(q)
            q = to[q]
        if q == p:
            return sorted(seen)
    return None


def compatible(kind, doc):
    """option type against the documented parameter type"""
    t = doc.split(', default')[0].split(', optional')[0].lower().strip()
    alts = {x.strip() for x in t.replace(' or ', '|').replace(',', '|').split('|')}
    plain = {'int', 'float', 'bool', 'str', 'list', 'tuple', 'dict', 'nonetype'}
    if not alts <= plain:
        return None
    if kind == 'path':
        return 'str' in alts
    if kind == 'list':
        return bool(alts & {'list', 'tuple'})
    if kind == 'int':
        return bool(alts & {'int', 'float', 'bool'})
    return kind in alts


def run(project, rep):
    rep.rule('defined', 'every attribute read from the parsed command line is declared by the parser', floor=300)
    rep.rule('used', 'every declared command-line option is read', floor=300)
    rep.rule('route', 'an option reaches the parameter that the same option reaches in the other scripts', floor=300)
    rep.rule('type', 'the type of an option is a documented type of the library parameter it reaches', floor=60)
    rep.rule('role', 'arguments named after parameters of the callee are not exchanged', floor=1000)
    rep.rule('forward', 'a script parameter that other callers pass on to the same-named optional parameter of a library function is passed on', floor=20)
    names = sorted(project.scripts)
    wires = dict(zip(names, common.sweep(lambda n: wired(project, n), names)))
    funcs = list(project.all_functions())
    byq = {f.qual: f for f in funcs}
    table = dict(zip([f.qual for f in funcs], common.sweep(lambda f: calls(project, f), funcs)))
    # declarations and reads
    toward, source = collections.defaultdict(collections.Counter), collections.defaultdict(collections.Counter)
    for n, w in wires.items():
        rep.unit(n)
        if isinstance(w, str):
            rep.unknown('used', n, w)
            continue
        if not w['parser'] or not w['complete']:
            rep.unknown('used', n, 'no statically known parser')
            continue
        for d, at in w['reads'].items():
            if d in w['opts'] or d.startswith('_'):
                rep.ok('defined', f'{n} {d}')
            else:
                rep.bad('defined', f'{n} {d}', 'read from the command line but not declared', at)
        for d, (kind, at) in w['opts'].items():
            if d in w['reads']:
                rep.ok('used', f'{n} {d}')
            else:
                rep.bad('used', f'{n} {d}', 'declared command-line option is never read', at)
        for q, p, d, at in w['edges']:
            toward[d][p.lower()] += 1
            source[p.lower()][d] += 1
    for n, w in wires.items():
        if isinstance(w, str):
            continue
        for q, p, d, at in w['edges']:
            key = p.lower()
            usual, k = source[key].most_common(1)[0]
            home, h = toward[d].most_common(1)[0]
            odd = usual != d and k >= SITES and source[key][d] * 4 <= k and home != key and h >= SITES and toward[d][key] * 4 <= h
            if odd:
                rep.bad('route', f'{n} {d} -> {p}', f'option {d!r} reaches {p!r}, which elsewhere receives {usual!r}', at)
            else:
                rep.ok('route', f'{n} {d} -> {p}')
        # options followed through parameters passed on unchanged
        todo = [(byq[q], p, d, at) for q, p, d, at in w['edges'] if q in byq]
        seen = set()
        while todo:
            f, p, d, at = todo.pop()
            if (f, p, d) in seen:
                continue
            seen.add((f, p, d))
            doc = docs.parameters(f.doc).get(p)
            kind = w['opts'].get(d, (None,))[0]
            if doc and kind:
                ok = compatible(kind, doc['type'])
                if ok is not None:
                    if ok:
                        rep.ok('type', f'{n} {d} -> {f.short} {p}')
                    else:
                        rep.bad('type', f'{n} {d} -> {f.short} {p}', f'option of type {kind} reaches a parameter documented as {doc["type"]}', at)
            cs = table.get(f.qual)
            for q, at2, named, given, loose in (cs if isinstance(cs, list) else []):
                for p2, src in given.items():
                    if src == p and q in byq:
                        todo.append((byq[q], p2, d, at2))
    # calls
    stats = collections.defaultdict(lambda: ([], []))
    for q, cs in table.items():
        f = byq[q]
        if isinstance(cs, str):
            rep.unknown('role', f.short, cs)
            continue
        mine = {p.lower(): p for p in f.params + f.kwonly}
        sent = collections.defaultdict(set)
        for g, at, named, given, loose in cs:
            for p in byq[g].defaults() if g in byq else ():
                if p in given:
                    sent[g, p].add(at)
        for g, at, named, given, loose in cs:
            if g not in byq:
                continue
            gf = byq[g]
            ring = swapped(named, gf.params + gf.kwonly)
            if ring:
                rep.bad('role', f'{f.short} {gf.short}', f'arguments exchanged between parameters {", ".join(ring)}', at)
            else:
                rep.ok('role', f'{f.short} {gf.short} {at.split(":")[0]}')
            if loose:
                continue
            for p in gf.defaults():
                own = mine.get(p.lower())
                if own is None:
                    continue
                if p not in given:
                    if not sent[g, p]:
                        stats[gf, p][1].append((f, at, 'not passed on'))
                elif given[p] is not None and given[p] != own and given[p].lower() in {x.lower() for x in gf.params}:
                    stats[gf, p][1].append((f, at, f'receives {given[p]!r}'))
                else:
                    stats[gf, p][0].append((f, at))
    for (gf, p), (yes, no) in stats.items():
        who = {f for f, _ in yes}
        for f, at in yes:
            rep.ok('forward', f'{f.short} {gf.short} {p}')
        firm = len(who) >= SITES and len(who) >= SHARE * len(who | {x[0] for x in no})
        for f, at, why in no:
            if firm and f.module.rel.startswith('scripts/'):
                rep.bad('forward', f'{f.short} {gf.short} {p}', f'parameter {p!r} of {gf.short}: {why}, unlike in the other callers', at)
            else:
                rep.ok('forward', f'{f.short} {gf.short} {p} (no rule)')
