"""Definite assignment on every feasible path."""
from .. import common, gvn, values as V


def run(project, rep):
    rep.rule('assigned', 'every read of a local name is preceded by an assignment on every path that '
        'the tests of the function, the documented option values and the argparse choices allow', floor=400)
    rep.rule('selftest', 'the rule reports a seeded example', floor=1)
    rep.assume('loops over data run at least once')
    rep.assume('an option holds one of its documented or argparse-declared values')
    clic = common.cli_choices(project)
    funcs = list(project.all_functions())
    for f, r in zip(funcs, common.sweep(lambda f: analyse(project, f, clic), funcs)):
        q = f.short
        rep.unit(q)
        if isinstance(r, str):
            rep.unknown('assigned', q, r)
            continue
        found = False
        for kind, name, text, at in r:
            if kind == 'bad':
                found = True
                rep.bad('assigned', f'{q}:{name}', text, at)
            else:
                rep.unknown('assigned', f'{q}:{name}', text)
        if not found:
            rep.ok('assigned', q)
    selftest(project, rep)


def analyse(project, f, clic):
    """undecided and violated reads of one function as plain data"""
    I = gvn.Interp(project, inline=common.NOINLINE)
    assume = [common.oneof(V.sym(p), vals) for p, vals in common.enumerations(project, f, clic).items()]
    try:
        I.run(f, assume=assume)
    except gvn.Limit:
        return 'analysis budget'
    ev = [e for e in I.events if e.kind == 'unbound']
    compared = common.compared_constants(I) if ev else {}
    out, seen = [], set()
    for e in ev:
        name = e.data['name']
        if name in seen:
            continue
        bad = e.data.get('bad')
        live = None
        if bad:
            for facts in bad:
                if common.off_enumeration(facts, compared) is None:
                    live = facts
                    break
            if live is None:
                out.append(('unknown', name, 'unassigned only for an option value outside the dispatched set', ''))
                continue
        elif bad is not None or not e.data['certain']:
            continue
        seen.add(name)
        path = describe(live) if live is not None else 'every path'
        out.append(('bad', name, f'local name {name!r} may be read before assignment ({path})', common.site(e)))
    return out


def describe(facts):
    lits = [V.show(x, 4) for x in list(facts.true)[:4]] + ['not ' + V.show(x, 4) for x in list(facts.false)[:4]]
    return 'when ' + ' and '.join(lits) if lits else 'some path'


def selftest(project, rep):
    import ast
    from ..project import Func
    src = 'def f(a, b):\n    if a:\n        x = 1\n    if b:\n        return x\n    return 0\n'
    node = ast.parse(src).body[0]
    m = project.modules['gravity_toolkit']
    fn = Func(m, node)
    I = gvn.Interp(project, inline=common.NOINLINE)
    I.run(fn)
    if any(e.kind == 'unbound' for e in I.events):
        rep.ok('selftest', 'conditional assignment')
