"""Arguments stay unchanged and results own their storage."""
import ast
from .. import effects
from ..project import Project

SELFTEST = '''
import copy
import numpy as np
class box(object):
    """
    A container

    Attributes
    ----------
    data: np.ndarray
        values
    level: int
        a number
    """
    def __init__(self):
        self.data = None
        self.level = None
    def good(self):
        temp = box()
        temp.data = self.data.copy()
        temp.level = self.level
        return temp
    def shares(self):
        temp = box()
        temp.data = self.data[::-1]
        return temp
    def total(self):
        self.data *= 2.0
        return np.sum(self.data)
    def apply(self, other):
        self.data += other.data
        return self
def clean(x):
    y = np.copy(x)
    y[y < 0] += 360.0
    return y
def dirty(x):
    x[x < 0] += 360.0
    return np.sum(x)
def indirect(z):
    return dirty(np.squeeze(z))
def option(x, apply=False):
    if apply:
        x[0] = 0
    return np.sum(x)
def lists(a, b):
    out = [a]
    out.append(b)
    return out
'''


def module_functions(project):
    return [f for f in project.all_functions(scripts=False) if effects.public(f)]


def selftest(rep):
    import tempfile, os, shutil
    d = tempfile.mkdtemp(prefix='p05')
    try:
        os.makedirs(os.path.join(d, 'gravity_toolkit'))
        os.makedirs(os.path.join(d, 'scripts'))
        with open(os.path.join(d, 'gravity_toolkit', '__init__.py'), 'w') as f:
            f.write(SELFTEST)
        p = Project(d)
        class Rec:
            def __init__(self): self.b, self.o = set(), set()
            def ok(self, r, c, n=1): self.o.add((r, c))
            def bad(self, r, c, m, w=''): self.b.add((r, c.split(' ')[0]))
            def unit(self, n): pass
        r = Rec()
        fs = module_functions(p)
        effects.unchanged(p, r, fs)
        effects.query(p, r, fs)
        effects.owns(p, r, fs)
        got = {(a, b.rsplit('.', 1)[-1]) for a, b in r.b}
        want = {('unchanged', 'dirty'), ('owns', 'shares'), ('query', 'total')}
        if not want <= got or any(n in ('good', 'clean', 'lists', 'apply', 'option') for _, n in got):
            from ..project import AnalysisError
            raise AnalysisError(f'selftest of the storage analysis failed: {sorted(got)}')
    finally:
        shutil.rmtree(d)


def run(project, rep):
    rep.rule('unchanged', 'no statement reached from a function changes the storage of an array, list, dictionary or object it was given as an '
        'argument, other than the object it updates and returns', floor=200)
    rep.rule('query', 'a method that returns something other than its object, or that writes it to a file, does not change the data of the object',
        floor=20)
    rep.rule('owns', 'attributes of a returned object do not share storage with the object it was derived from nor with another argument', floor=60)
    rep.assume('storage is tracked through names, attributes, containers, numpy views and calls inside the package; results of other '
        'third-party calls are taken to be new storage')
    rep.assume('an option that is off by default and asks for the change (apply=True) may change its object')
    selftest(rep)
    fs = module_functions(project)
    effects.unchanged(project, rep, fs)
    effects.query(project, rep, fs)
    effects.owns(project, rep, fs)
