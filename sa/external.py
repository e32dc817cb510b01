"""Names and signatures of installed libraries, read from their sources and stubs (nothing is imported)."""
import ast
import glob
import os

ROOTS = sorted(glob.glob('/opt/venv/lib/python3*/site-packages'))
CHECKED = ('numpy', 'scipy', 'matplotlib')
_mods = {}


class Mod:
    def __init__(self, name, path, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg
        self.names, self.defs, self.open, self.stars = {}, {}, False, []
        with open(path, encoding='utf-8') as f:
            tree = ast.parse(f.read())
        self.visit(tree.body)

    def absolute(self, node):
        if not node.level:
            return node.module or ''
        parts = self.name.split('.')
        up = node.level - (1 if self.is_pkg else 0)
        parts = parts[:len(parts) - up] if up else parts
        return '.'.join(parts + ([node.module] if node.module else []))

    def visit(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if n.name == '__getattr__':
                    self.open = True
                self.names[n.name] = n
                self.defs.setdefault(n.name, []).append(n)
            elif isinstance(n, ast.ClassDef):
                self.names[n.name] = n
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if a.name == '*':
                        self.stars.append(self.absolute(n))
                    else:
                        self.names[a.asname or a.name] = (self.absolute(n), a.name)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.names[a.asname or a.name.split('.')[0]] = n
            elif isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            self.names[x.id] = n
                # names added to the module dictionary
                if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('globals', 'vars', 'locals') for x in ast.walk(n)):
                    self.open = True
            elif isinstance(n, ast.Expr):
                if any(isinstance(x, ast.Name) and x.id in ('globals', 'vars', 'locals', 'setattr') for x in ast.walk(n)):
                    self.open = True
            elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for k in ('body', 'orelse', 'finalbody'):
                    self.visit(getattr(n, k, []))
                for h in getattr(n, 'handlers', []):
                    self.visit(h.body)
                for x in ast.walk(getattr(n, 'target', None) or ast.Pass()):
                    if isinstance(x, ast.Name):
                        self.names[x.id] = n


def module(dotted):
    if dotted in _mods:
        return _mods[dotted]
    m = None
    rel = dotted.replace('.', '/')
    for root in ROOTS:
        # the source says which names exist; stubs add signatures and the names of compiled modules
        for suffix, pkg in (('/__init__.py', True), ('.py', False), ('/__init__.pyi', True), ('.pyi', False)):
            p = f'{root}/{rel}{suffix}'
            if os.path.exists(p):
                try:
                    x = Mod(dotted, p, pkg)
                except (SyntaxError, ValueError, OSError):
                    continue
                if m is None:
                    m = x
                else:
                    m.names.update({k: v for k, v in x.names.items() if k not in m.names or k in x.defs})
                    m.defs.update(x.defs)
                    m.open |= x.open
                    m.stars += x.stars
        if m is not None:
            break
    _mods[dotted] = m
    return m


def is_module(dotted):
    rel = dotted.replace('.', '/')
    return any(os.path.exists(f'{r}/{rel}{s}') for r in ROOTS for s in ('/__init__.py', '.py', '/__init__.pyi', '.pyi', '')) or any(
        glob.glob(f'{r}/{rel}.*.so') for r in ROOTS)


def find(dotted, depth=0):
    """'yes', 'no' or 'unknown' with the function definitions of a dotted name"""
    parts = dotted.split('.')
    # longest module prefix
    k = len(parts)
    while k and not is_module('.'.join(parts[:k])):
        k -= 1
    if k == 0:
        return 'unknown', []
    if k == len(parts):
        return 'yes', []
    m = module('.'.join(parts[:k]))
    if m is None:
        return 'unknown', []
    name = parts[k]
    if name in m.names:
        x = m.names[name]
        if isinstance(x, tuple) and depth < 8:
            if k + 1 < len(parts):
                return 'unknown', []
            v, d = find(f'{x[0]}.{x[1]}', depth + 1)
            return 'yes', d
        return 'yes', m.defs.get(name, []) if k + 1 == len(parts) else []
    for s in m.stars:
        if depth > 8:
            return 'unknown', []
        v, d = find('.'.join([s] + parts[k:]), depth + 1)
        if v != 'no':
            return v, d
    if m.open:
        return 'unknown', []
    return 'no', []


def misuse(defs, npos, kws):
    """reason why no overload accepts the call, or None"""
    if not defs:
        return None
    why = None
    for d in defs:
        a = d.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        named = {x.arg for x in a.args + a.kwonlyargs}
        bad = [k for k in kws if k not in named]
        if d.decorator_list and not all(ast.unparse(x) in ('overload', 'typing.overload') or 'dispatch' in ast.unparse(x) or
                'set_module' in ast.unparse(x) or 'finalize' in ast.unparse(x) for x in d.decorator_list):
            return None
        if bad and not a.kwarg:
            why = f'unexpected keyword argument {bad[0]!r}'
        elif npos > len(pos) and not a.vararg:
            why = f'takes {len(pos)} positional arguments but {npos} were given'
        else:
            return None
    return why
