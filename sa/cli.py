"""Command-line model of the scripts: declared options and their wiring.

Built from the value-numbering events of the script's own functions: calls of
``add_argument`` give the options, attribute reads of the parsed namespace give
their uses, calls that receive such reads give the wiring.
"""
import ast
from . import gvn, values as V
from .project import Func


class Option:
    def __init__(self, flags, dest, kw, node, func):
        self.flags, self.dest, self.kw = flags, dest, kw
        self.node, self.func = node, func
        self.choices = None
        self.action = None
        self.nargs = None
        self.default = None
        self.type = None


class Script:
    def __init__(self, module):
        self.module = module
        self.options = {}
        self.multi = {}
        self.complete = True
        self.reads = {}        # dest -> [(func, node)]
        self.escapes = []      # namespace used as a whole for something real
        self.calls = []        # events
        self.has_parser = False
        self.main = None
        self.nsused = False


def pyval(I, st, v):
    """plain python value of a constant abstract value, or raise KeyError"""
    v = I.deep(st, v)
    if v.op == 'const':
        x = v.args[1]
        if v.args[0] == 'num':
            return int(x) if x.denominator == 1 else float(x)
        if v.args[0] in ('str', 'bool', 'NoneType'):
            return x
    if v.op in ('tuple', 'list'):
        return [pyval(I, st, x) for x in v.args[0]]
    raise KeyError


def is_ns(v):
    """value of a parsed namespace"""
    if v.op == 'idx' and v.args[0].op == 'call' and v.args[0].args[0] == '.parse_known_args' and v.args[1] is V.ZERO:
        return True
    return v.op == 'call' and v.args[0] == '.parse_args'


def ns_attr(v):
    if v.op == 'attr' and is_ns(v.args[0]):
        return v.args[1]
    return None


def script_model(project, module):
    s = Script(module)
    for f in module.functions:
        if f.outer is not None or not mentions(f, ('add_argument', 'ArgumentParser', 'add_subparsers', 'set_defaults')):
            continue
        I = gvn.Interp(project, inline=lambda fn, fr: False)
        try:
            I.run(f)
        except gvn.Limit:
            s.complete = False
            continue
        for e in I.events:
            if e.kind == 'extcall' and e.data['name'] == 'argparse.ArgumentParser':
                s.has_parser = True
                if 'parents' in e.data['kw']:
                    s.complete = False
            if e.kind == 'extmethod' and e.data['name'] == 'add_subparsers':
                s.complete = False
            if e.kind == 'extmethod' and e.data['name'] == 'set_defaults':
                s.complete = False
            if e.kind == 'extmethod' and e.data['name'] == 'add_argument':
                add_option(s, I, e, f)
    return s


def mentions(f, names):
    return any(isinstance(n, ast.Attribute) and n.attr in names for n in ast.walk(f.node))


def add_option(s, I, e, f):
    from .gvn import State
    st = e.data.get('state')
    flags = []
    for a in e.data['args']:
        if not V.is_str(a):
            s.complete = False
            return
        flags.append(V.cval(a))
    kw = e.data['kw']
    if '**' in kw or not flags:
        s.complete = False
        return
    dest = None
    if 'dest' in kw and V.is_str(kw['dest']):
        dest = V.cval(kw['dest'])
    elif flags[0].startswith('-'):
        long = [x for x in flags if x.startswith('--')]
        dest = (long[0] if long else flags[0]).lstrip('-').replace('-', '_')
    else:
        dest = flags[0]
    o = Option(flags, dest, kw, e.node, f)
    heap = e.heap

    class S:
        pass
    st = gvn.State({}, heap, [], V.Facts())

    def val(k):
        try:
            return pyval(I, st, kw[k])
        except KeyError:
            return KeyError
    if 'choices' in kw:
        c = val('choices')
        o.choices = c if isinstance(c, list) else None
        if o.choices is None:
            it = I.known_items(kw['choices'], st)
            if it is not None:
                try:
                    o.choices = [pyval(I, st, x) for x in it]
                except KeyError:
                    pass
    if 'action' in kw and V.is_str(kw['action']):
        o.action = V.cval(kw['action'])
    if 'nargs' in kw:
        o.nargs = val('nargs')
    if 'default' in kw:
        o.default = val('default')
    if 'type' in kw:
        o.type = kw['type']
    s.options.setdefault(dest, o)
    s.multi.setdefault(dest, []).append(o)


def wiring(project, s):
    """run the function that parses the command line and record the wiring"""
    mains = []
    for f in s.module.functions:
        if f.outer is not None or not mentions(f, ('parse_known_args', 'parse_args')):
            continue
        I = NsInterp(project, s.module)
        try:
            I.run(f)
        except gvn.Limit:
            s.complete = False
            continue
        if any(e.kind == 'extmethod' and e.data['name'] in ('parse_known_args', 'parse_args') for e in I.events
               if e.frame.func is f):
            s.main = f
            mains.append((f, I))
    for f, I in mains:
        for e in I.events:
            s.nsused = True
            if e.kind == 'getattr' and is_ns(e.data['base']):
                s.reads.setdefault(e.data['attr'], []).append(e)
            if e.kind == 'call':
                s.calls.append(e)
            if e.kind in ('extcall', 'extmethod', 'unknowncall'):
                vals = list(e.data.get('args') or []) + list((e.data.get('kw') or {}).values())
                for v in vals:
                    if is_ns(v):
                        s.escapes.append(e)
    return s


class NsInterp(gvn.Interp):
    """inlines only the script-local functions that receive the namespace"""

    def __init__(self, project, module):
        super().__init__(project, inline=None)
        self.module = module

    def call_func(self, func, args, kw, st, fr, n, bound=False, star=False, closure=None, force=False):
        vals = list(args) + list(kw.values())
        self.inline = lambda fn, f: fn.module is self.module and (
            any(is_ns(x) for x in vals) or not vals)
        return super().call_func(func, args, kw, st, fr, n, bound, star, closure, force)
