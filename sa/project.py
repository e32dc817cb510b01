"""Source model of the analysed repository.

Parses every module of the package and every command-line script below the
repository root and resolves names to the entities they denote (module,
class, function, external name).  Nothing is imported or executed.
"""
import ast
import os
import re

PKG = 'gravity_toolkit'


class Entity:
    kind = 'entity'


class Module(Entity):
    kind = 'module'

    def __init__(self, name, path, rel, tree, source, is_pkg=False):
        self.name, self.path, self.rel = name, path, rel
        self.tree, self.source, self.is_pkg = tree, source, is_pkg
        self.bindings = {}      # name -> list of binding tuples (in order)
        self.functions = []     # every Func, including methods and nested
        self.classes = []

    def __repr__(self):
        return f'<module {self.name}>'


class Class(Entity):
    kind = 'class'

    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.methods = {}       # name -> Func (getter for properties)
        self.setters = {}       # property setters
        self.attrs = {}         # class level assignments name -> value node
        self.bases = []         # resolved lazily

    @property
    def qual(self):
        return f'{self.module.name}.{self.name}'

    def __repr__(self):
        return f'<class {self.qual}>'


class Func(Entity):
    kind = 'func'

    def __init__(self, module, node, cls=None, outer=None):
        self.module, self.node, self.cls, self.outer = module, node, cls, outer
        self.name = node.name
        decs = []
        for d in node.decorator_list:
            decs.append(ast.unparse(d))
        self.decorators = decs

    @property
    def is_property(self):
        return any(d in ('property', 'reify') or d.endswith('.reify')
            or d.endswith('cached_property') for d in self.decorators)

    @property
    def is_static(self):
        return 'staticmethod' in self.decorators

    @property
    def is_classmethod(self):
        return 'classmethod' in self.decorators

    @property
    def qual(self):
        if self.cls is not None:
            return f'{self.module.name}.{self.cls.name}.{self.name}'
        if self.outer is not None:
            return f'{self.outer.qual}.{self.name}'
        return f'{self.module.name}.{self.name}'

    @property
    def short(self):
        q = self.qual
        return q[len(PKG) + 1:] if q.startswith(PKG + '.') else q

    @property
    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]

    @property
    def kwonly(self):
        return [x.arg for x in self.node.args.kwonlyargs]

    @property
    def vararg(self):
        v = self.node.args.vararg
        return v.arg if v else None

    @property
    def kwarg(self):
        v = self.node.args.kwarg
        return v.arg if v else None

    def returns(self):
        """return statements of the function itself"""
        out, todo = [], list(self.node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
                continue
            if isinstance(n, ast.Return):
                out.append(n)
            todo += ast.iter_child_nodes(n)
        return out

    def defaults(self):
        a = self.node.args
        pos = a.posonlyargs + a.args
        out = {}
        for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
            out[p.arg] = d
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                out[p.arg] = d
        return out

    @property
    def doc(self):
        return ast.get_docstring(self.node) or ''

    def __repr__(self):
        return f'<func {self.qual}>'


class External(Entity):
    kind = 'ext'

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'<ext {self.name}>'

    def __eq__(self, o):
        return isinstance(o, External) and o.name == self.name

    def __hash__(self):
        return hash(('ext', self.name))


class ValueBinding(Entity):
    kind = 'value'

    def __init__(self, module, node, name):
        self.module, self.node, self.name = module, node, name


class AnalysisError(Exception):
    """the analysis itself cannot answer (vanished anchor, parse failure)"""


class Project:
    def __init__(self, root='/repo', scripts=True):
        self.root = root
        self.modules = {}
        self.scripts = {}
        pkgdir = os.path.join(root, PKG)
        if not os.path.isdir(pkgdir):
            raise AnalysisError(f'package directory missing: {pkgdir}')
        for dirpath, dirs, files in sorted(os.walk(pkgdir)):
            dirs[:] = sorted(d for d in dirs if d != '__pycache__')
            for f in sorted(files):
                if f.endswith('.py'):
                    self._load(os.path.join(dirpath, f))
        sdir = os.path.join(root, 'scripts')
        if scripts and os.path.isdir(sdir):
            for f in sorted(os.listdir(sdir)):
                if f.endswith('.py'):
                    self._load(os.path.join(sdir, f), script=True)
        for m in list(self.modules.values()) + list(self.scripts.values()):
            self._bind(m)
        self._mro_cache = {}

    def _load(self, path, script=False):
        rel = os.path.relpath(path, self.root)
        with open(path, encoding='utf-8') as f:
            src = f.read()
        import warnings
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                tree = ast.parse(src, filename=rel)
        except SyntaxError as exc:
            raise AnalysisError(f'cannot parse {rel}: {exc}')
        if script:
            name = 'scripts.' + os.path.basename(path)[:-3]
            m = Module(name, path, rel, tree, src)
            self.scripts[name] = m
        else:
            name = rel[:-3].replace(os.sep, '.')
            is_pkg = name.endswith('.__init__')
            if is_pkg:
                name = name[:-9]
            m = Module(name, path, rel, tree, src, is_pkg)
            self.modules[name] = m
        return m

    # -- binding tables ----------------------------------------------------
    def _bind(self, m):
        def add(name, b):
            m.bindings.setdefault(name, []).append(b)

        def visit(stmts):
            for st in stmts:
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    fn = Func(m, st)
                    m.functions.append(fn)
                    self._nested(m, fn)
                    add(st.name, fn)
                elif isinstance(st, ast.ClassDef):
                    c = Class(m, st)
                    m.classes.append(c)
                    for s in st.body:
                        if isinstance(s, ast.FunctionDef):
                            fn = Func(m, s, cls=c)
                            m.functions.append(fn)
                            self._nested(m, fn)
                            if any(d.endswith('.setter') for d in fn.decorators):
                                c.setters[s.name] = fn
                            else:
                                c.methods[s.name] = fn
                        elif isinstance(s, ast.Assign):
                            for t in s.targets:
                                if isinstance(t, ast.Name):
                                    c.attrs[t.id] = s.value
                        elif isinstance(s, ast.AnnAssign) and s.value is not None:
                            if isinstance(s.target, ast.Name):
                                c.attrs[s.target.id] = s.value
                    add(st.name, c)
                elif isinstance(st, ast.Import):
                    for al in st.names:
                        if al.asname:
                            add(al.asname, ('import', al.name))
                        else:
                            add(al.name.split('.')[0], ('import', al.name.split('.')[0]))
                elif isinstance(st, ast.ImportFrom):
                    base = self._absolute(m, st)
                    for al in st.names:
                        if al.name == '*':
                            add('*', ('star', base))
                        else:
                            add(al.asname or al.name, ('from', base, al.name))
                elif isinstance(st, (ast.Assign, ast.AnnAssign)):
                    tgts = st.targets if isinstance(st, ast.Assign) else [st.target]
                    if st.value is None:
                        continue
                    for t in tgts:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                                val = st.value if isinstance(t, ast.Name) else None
                                add(n.id, ValueBinding(m, val, n.id))
                elif isinstance(st, ast.If):
                    visit(st.body)
                    visit(st.orelse)
                elif isinstance(st, ast.Try):
                    visit(st.body)
                    for h in st.handlers:
                        visit(h.body)
                    visit(st.orelse)
                    visit(st.finalbody)
                elif isinstance(st, (ast.For, ast.While, ast.With)):
                    if isinstance(st, ast.For):
                        for n in ast.walk(st.target):
                            if isinstance(n, ast.Name):
                                add(n.id, ValueBinding(m, None, n.id))
                    visit(st.body)
        visit(m.tree.body)

    def _nested(self, m, fn):
        for n in ast.walk(fn.node):
            if n is not fn.node and isinstance(n, ast.FunctionDef):
                m.functions.append(Func(m, n, outer=fn))

    def _absolute(self, m, st):
        if not st.level:
            return st.module
        parts = m.name.split('.')
        if not m.is_pkg:
            parts = parts[:-1]
        parts = parts[:len(parts) - (st.level - 1)]
        if st.module:
            parts.append(st.module)
        return '.'.join(parts)

    # -- resolution --------------------------------------------------------
    def resolve_name(self, m, name, _seen=None):
        """entity bound to a module level name, or None"""
        _seen = _seen or set()
        if (m.name, name) in _seen:
            return None
        _seen.add((m.name, name))
        bs = m.bindings.get(name)
        if bs:
            # the last definition wins; prefer concrete entity
            for b in reversed(bs):
                r = self._entity(m, b, _seen)
                if r is not None:
                    return r
        for b in reversed(m.bindings.get('*', [])):
            base = self.modules.get(b[1])
            if base is not None:
                r = self.resolve_name(base, name, _seen)
                if r is not None:
                    return r
        if m.is_pkg:
            sub = self.modules.get(f'{m.name}.{name}')
            if sub is not None:
                return sub
        return None

    def _entity(self, m, b, _seen):
        if isinstance(b, Entity):
            if isinstance(b, ValueBinding) and b.node is not None:
                ext = self._optional_dependency(b.node)
                if ext:
                    return External(ext)
            return b
        if b[0] == 'import':
            return self.module_entity(b[1])
        if b[0] == 'from':
            base = self.modules.get(b[1])
            if base is not None:
                r = self.resolve_name(base, b[2], _seen)
                if r is None and f'{b[1]}.{b[2]}' in self.modules:
                    return self.modules[f'{b[1]}.{b[2]}']
                return r
            if b[1] and b[1].split('.')[0] == PKG:
                return None
            return External(f'{b[1]}.{b[2]}')
        return None

    @staticmethod
    def _optional_dependency(node):
        if isinstance(node, ast.Call):
            f = ast.unparse(node.func)
            if f.split('.')[-1] == 'import_dependency' and node.args and \
                    isinstance(node.args[0], ast.Constant):
                return node.args[0].value
        return None

    def module_entity(self, dotted):
        if dotted in self.modules:
            return self.modules[dotted]
        if dotted.split('.')[0] == PKG:
            return None
        return External(dotted)

    def attr_entity(self, ent, name):
        if isinstance(ent, Module):
            return self.resolve_name(ent, name)
        if isinstance(ent, External):
            return External(f'{ent.name}.{name}')
        if isinstance(ent, Class):
            return self.find_method(ent, name)
        return None

    def resolve_expr(self, m, node):
        """entity denoted by a dotted name expression at module scope"""
        if isinstance(node, ast.Name):
            return self.resolve_name(m, node.id)
        if isinstance(node, ast.Attribute):
            base = self.resolve_expr(m, node.value)
            if base is None:
                return None
            return self.attr_entity(base, node.attr)
        return None

    # -- classes -----------------------------------------------------------
    def mro(self, cls):
        if cls in self._mro_cache:
            return self._mro_cache[cls]
        out = [cls]
        self._mro_cache[cls] = out
        for b in cls.node.bases:
            e = self.resolve_expr(cls.module, b)
            if e is None and isinstance(b, ast.Name) and b.id == 'bytes':
                e = External(b.id)
            if isinstance(e, Class):
                for c in self.mro(e):
                    if c not in out:
                        out.append(c)
            elif e is not None and not (isinstance(e, External) and e.name == 'object'):
                out.append(e)
        return out

    def find_method(self, cls, name):
        for c in self.mro(cls):
            if isinstance(c, Class) and name in c.methods:
                return c.methods[name]
        return None

    def find_setter(self, cls, name):
        for c in self.mro(cls):
            if isinstance(c, Class) and name in c.setters:
                return c.setters[name]
        return None

    def find_class_attr(self, cls, name):
        for c in self.mro(cls):
            if isinstance(c, Class) and name in c.attrs:
                return c.module, c.attrs[name]
        return None

    def foreign_base(self, cls):
        return any(not isinstance(c, Class) for c in self.mro(cls))

    # -- enumeration -------------------------------------------------------
    def all_modules(self, scripts=True):
        out = list(self.modules.values())
        if scripts:
            out += list(self.scripts.values())
        return out

    def all_functions(self, scripts=True):
        for m in self.all_modules(scripts):
            for f in m.functions:
                yield f

    def func(self, qual):
        """look up a public function or method: 'units.units.harmonic'"""
        full = f'{PKG}.{qual}' if not qual.startswith(('scripts.', PKG + '.')) else qual
        for f in self.all_functions():
            if f.qual == full and not any(d.endswith('.setter') for d in f.decorators):
                return f
        return None

    def require(self, qual):
        f = self.func(qual)
        if f is None:
            raise AnalysisError(f'anchor vanished: {qual}')
        return f

    def cls(self, qual):
        full = f'{PKG}.{qual}'
        for m in self.all_modules():
            for c in m.classes:
                if c.qual == full:
                    return c
        return None

    def require_cls(self, qual):
        c = self.cls(qual)
        if c is None:
            raise AnalysisError(f'anchor vanished: class {qual}')
        return c
