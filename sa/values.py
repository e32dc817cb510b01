"""Canonical value numbers.

Every abstract value is an interned expression node ``E``.  Arithmetic is kept
in a polynomial normal form with rational coefficients and rational exponents,
so that algebraically equal formulas written differently receive the same (or a
comparable) value number.  ``phi`` nodes are gated joins of control flow.
"""
from fractions import Fraction
import itertools

MAXTERMS = 160


class E:
    __slots__ = ('op', 'args', 'id', 'meta')
    _table = {}
    _count = itertools.count()

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op,) + args
    e = E._table.get(key)
    if e is None:
        e = E()
        e.op, e.args, e.meta = op, args, None
        e.id = next(E._count)
        E._table[key] = e
    return e


class _C:
    """hashable wrapper that keeps 1, 1.0 and True apart"""


def const(v):
    if isinstance(v, bool) or v is None or isinstance(v, (str, bytes)) or v is Ellipsis:
        return mk('const', type(v).__name__, v)
    if isinstance(v, int):
        return mk('const', 'num', Fraction(v))
    if isinstance(v, float):
        if v != v or v in (float('inf'), float('-inf')):
            return mk('const', 'float', repr(v))
        return mk('const', 'num', Fraction(repr(v)))
    if isinstance(v, Fraction):
        return mk('const', 'num', v)
    if isinstance(v, complex):
        return mk('const', 'complex', repr(v))
    return mk('const', type(v).__name__, repr(v))


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
ZERO = const(0)
ONE = const(1)
UNBOUND = mk('unbound')
ABSENT = mk('absent')
PI = mk('sym', 'π')


def is_const(e):
    return e.op == 'const'


def is_num(e):
    return e.op == 'const' and e.args[0] == 'num'


def is_str(e):
    return e.op == 'const' and e.args[0] == 'str'


def cval(e):
    return e.args[1]


def sym(name):
    return mk('sym', name)


def call(name, *args, **kw):
    return mk('call', name, tuple(args), tuple(sorted(kw.items())))


def attr(base, name):
    return mk('attr', base, name)


def idx(base, index):
    return mk('idx', base, index)


# -- polynomials -----------------------------------------------------------
# poly: dict mono -> Fraction ; mono: tuple of (E, Fraction) sorted by id

def _terms(e):
    """dict of terms for a value used in arithmetic"""
    if e.op == 'poly':
        return dict(e.args[0])
    if is_num(e):
        return {(): e.args[1]} if e.args[1] != 0 else {}
    if e is TRUE:
        return {(): Fraction(1)}
    if e is FALSE:
        return {}
    return {((e, Fraction(1)),): Fraction(1)}


def _norm(terms):
    terms = {m: c for m, c in terms.items() if c != 0}
    if not terms:
        return ZERO
    if len(terms) == 1:
        (m, c), = terms.items()
        if m == ():
            return const(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    key = tuple(sorted(terms.items(), key=lambda t: [(a.id, x) for a, x in t[0]]))
    return mk('poly', key)


def _mulmono(a, b):
    d = {}
    for at, x in a:
        d[at] = d.get(at, 0) + x
    for at, x in b:
        d[at] = d.get(at, 0) + x
    out = tuple(sorted(((at, x) for at, x in d.items() if x != 0), key=lambda t: t[0].id))
    return out


def add(a, b):
    ta = _terms(a)
    for m, c in _terms(b).items():
        ta[m] = ta.get(m, 0) + c
    return _norm(ta)


def neg(a):
    return _norm({m: -c for m, c in _terms(a).items()})


def sub(a, b):
    return add(a, neg(b))


def _expand_mono(m, c):
    """expand positive integer powers of sums inside a monomial"""
    for i, (at, x) in enumerate(m):
        if at.op == 'poly' and x.denominator == 1 and x > 0:
            rest = m[:i] + m[i + 1:]
            base = _norm({rest: c})
            for _ in range(int(x)):
                base = mul(base, at)
            return _terms(base)
    return {m: c}


def mul(a, b):
    ta, tb = _terms(a), _terms(b)
    if len(ta) * len(tb) > MAXTERMS:
        # too large to expand: keep both factors as atoms
        def atom(e):
            return {((e, Fraction(1)),): Fraction(1)} if e.op == 'poly' and len(e.args[0]) > 1 else _terms(e)
        ta, tb = atom(a), atom(b)
        out = {}
        for m1, c1 in ta.items():
            for m2, c2 in tb.items():
                m = _mulmono(m1, m2)
                out[m] = out.get(m, 0) + c1 * c2
        return _norm(out)
    out = {}
    for m1, c1 in ta.items():
        for m2, c2 in tb.items():
            m = _mulmono(m1, m2)
            for mm, cc in _expand_mono(m, c1 * c2).items():
                out[mm] = out.get(mm, 0) + cc
    return _norm(out)


def _frac_pow(c, x):
    """exact rational power or None"""
    if x.denominator == 1:
        if c == 0 and x < 0:
            return None
        return Fraction(c) ** int(x)
    if c < 0:
        return None
    r = x.denominator
    n = round(c.numerator ** (1.0 / r)) if c.numerator < 10**60 else None
    d = round(c.denominator ** (1.0 / r)) if c.denominator < 10**60 else None
    if n is None or d is None or n ** r != c.numerator or d ** r != c.denominator:
        return None
    return Fraction(n, d) ** x.numerator


def power(a, x):
    """a ** x with x a rational constant"""
    x = Fraction(x)
    if x == 0:
        return ONE
    if x == 1:
        return a
    t = _terms(a)
    if not t:
        return ZERO if x > 0 else mk('call', 'pow', (a, const(x)), ())
    if len(t) == 1:
        (m, c), = t.items()
        fc = _frac_pow(c, x)
        mono = tuple((at, e * x) for at, e in m)
        if fc is None:
            mono = _mulmono(mono, ((const(c), x),))
            fc = Fraction(1)
        out = {}
        for mm, cc in _expand_mono(mono, fc).items():
            out[mm] = out.get(mm, 0) + cc
        return _norm(out)
    if x.denominator == 1 and 0 < x <= 4 and len(t) ** int(x) <= MAXTERMS:
        r = a
        for _ in range(int(x) - 1):
            r = mul(r, a)
        return r
    # primitive part: divide out the content so that k*(a+b) normalises
    mono, content, prim = _content(t)
    fc = _frac_pow(content, x)
    if fc is None:
        prim = _norm(t)
        return _norm({((prim, x),): Fraction(1)})
    mono = tuple((at, e * x) for at, e in mono)
    return _norm({_mulmono(mono, ((prim, x),)): fc})


def _content(t):
    """(common monomial, rational content, primitive polynomial)"""
    items = sorted(t.items(), key=lambda z: [(a.id, x) for a, x in z[0]])
    common = dict(items[0][0])
    for m, _ in items[1:]:
        d = dict(m)
        for at in list(common):
            if at not in d:
                # an atom absent from a term has exponent zero
                v = min(common[at], Fraction(0))
            else:
                v = min(common[at], d[at])
            common[at] = v
        for at, x in d.items():
            if at not in common and x < 0:
                common[at] = x
    common = {at: x for at, x in common.items() if x != 0}
    from math import gcd
    num = 0
    den = 1
    for _, c in items:
        num = gcd(num, abs(c.numerator))
        den = den * c.denominator // gcd(den, c.denominator)
    content = Fraction(num, den)
    inv = tuple((at, -x) for at, x in common.items())
    prim = {}
    for m, c in items:
        mm = _mulmono(m, tuple(sorted(inv, key=lambda z: z[0].id)))
        prim[mm] = prim.get(mm, 0) + c / content
    mono = tuple(sorted(common.items(), key=lambda z: z[0].id))
    return mono, content, _norm(prim)


def div(a, b):
    if b is ZERO:
        return mk('call', 'div', (a, b), ())
    return mul(a, power(b, -1))


def powv(a, b):
    if is_num(b):
        return power(a, cval(b))
    return mk('call', 'pow', (a, b), ())


def sqrt(a):
    return power(a, Fraction(1, 2))


def numerator(e):
    """clear every negative exponent: polynomial N with e = N / D"""
    t = _terms(e)
    low = {}
    for m in t:
        for at, x in m:
            if x < 0:
                low[at] = min(low.get(at, Fraction(0)), x)
    if not low:
        return e
    out = ZERO
    up = tuple(sorted(((at, -x) for at, x in low.items()), key=lambda z: z[0].id))
    for m, c in t.items():
        mm = _mulmono(m, up)
        for m2, c2 in _expand_mono(mm, c).items():
            out = add(out, _norm({m2: c2}))
    return out


def eq(a, b):
    """algebraic equality of two values (as rational functions)"""
    if a is b:
        return True
    d = sub(a, b)
    for _ in range(6):
        if d is ZERO:
            return True
        n = numerator(d)
        if n is d:
            break
        d = n
    if d is ZERO:
        return True
    if d.op == 'const':
        return False
    return False


def close(a, b, tol=1e-9):
    """eq up to relative rounding of constants: ratio is a constant ~ 1"""
    if eq(a, b):
        return True
    if is_num(a) and is_num(b):
        x, y = float(cval(a)), float(cval(b))
        return abs(x - y) <= tol * max(abs(x), abs(y), 1e-300)
    r = ratio(a, b)
    return r is not None and abs(float(r) - 1.0) <= tol


def ratio(a, b):
    """constant c with a = c*b, or None"""
    if a is ZERO or b is ZERO:
        return None
    na = numerator(sub(mul(a, sym('ε')), b))
    # a*ε - b: match terms
    q = div(a, b)
    if is_num(q):
        return cval(q)
    # cross multiply
    ta, tb = _split(a), _split(b)
    l = mul(ta[0], tb[1])
    r = mul(tb[0], ta[1])
    t1, t2 = _terms(l), _terms(r)
    if set(t1) != set(t2) or not t1:
        return None
    rs = {t1[m] / t2[m] for m in t1}
    if len(rs) == 1:
        return rs.pop()
    lo, hi = min(rs), max(rs)
    if lo > 0 and float(hi / lo) - 1 < 1e-9:
        return lo
    return None


def _split(e):
    """(numerator, denominator) as polynomials"""
    t = _terms(e)
    low = {}
    for m in t:
        for at, x in m:
            if x < 0:
                low[at] = min(low.get(at, Fraction(0)), x)
    den = ONE
    for at, x in low.items():
        den = mul(den, power(at, -x))
    return numerator(e), den


def terms(e):
    return _terms(e)


# -- booleans ----------------------------------------------------------------

def b_not(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == 'not':
        return c.args[0]
    return mk('not', c)


def b_and(*cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        if c.op == 'and':
            out.extend(c.args[0])
        else:
            out.append(c)
    uniq = []
    for c in out:
        if c not in uniq:
            uniq.append(c)
    for c in uniq:
        if b_not(c) in uniq:
            return FALSE
    if not uniq:
        return TRUE
    if len(uniq) == 1:
        return uniq[0]
    uniq.sort(key=lambda z: z.id)
    return mk('and', tuple(uniq))


def b_or(*cs):
    out = []
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        if c.op == 'or':
            out.extend(c.args[0])
        else:
            out.append(c)
    uniq = []
    for c in out:
        if c not in uniq:
            uniq.append(c)
    for c in uniq:
        if b_not(c) in uniq:
            return TRUE
    if not uniq:
        return FALSE
    if len(uniq) == 1:
        return uniq[0]
    uniq.sort(key=lambda z: z.id)
    return mk('or', tuple(uniq))


BOOLOPS = ('not', 'and', 'or', 'cmp', 'truthy', 'isinst', 'has')


def is_bool(e):
    return e.op in BOOLOPS or e is TRUE or e is FALSE


def unequal(a, b):
    """whether two tuples are known to differ"""
    x, y = a.args[0], b.args[0]
    if len(x) != len(y):
        return True
    return any(p.op == q.op and (p.op == 'const' and not _ceq(p, q) or p.op == 'tuple' and unequal(p, q)) for p, q in zip(x, y))


def cmp(op, a, b):
    """comparison in canonical form: ==, is, <, in"""
    if op == '!=':
        return b_not(cmp('==', a, b))
    if op == 'is not':
        return b_not(cmp('is', a, b))
    if op == 'not in':
        return b_not(cmp('in', a, b))
    if op == '>':
        return cmp('<', b, a)
    if op == '>=':
        return b_not(cmp('<', a, b))
    if op == '<=':
        return b_not(cmp('<', b, a))
    # lift gated operands with constant leaves
    if a.op == 'phi' and _liftable(a) and (b.op == 'const' or b.op == 'tuple'):
        c, x, y = a.args
        return b_or(b_and(c, cmp(op, x, b)), b_and(b_not(c), cmp(op, y, b)))
    if b.op == 'phi' and _liftable(b) and a.op == 'const':
        c, x, y = b.args
        return b_or(b_and(c, cmp(op, a, x)), b_and(b_not(c), cmp(op, a, y)))
    if op == 'in' and b.op == 'tuple':
        return b_or(*[cmp('==', a, x) for x in b.args[0]])
    if op == 'is':
        if a is b and is_const(a):
            return TRUE
        if is_const(a) and is_const(b):
            return TRUE if a is b else FALSE
        if b is NONE and a.op in ('poly', 'obj', 'tuple', 'func', 'class', 'module', 'fstr'):
            return FALSE
        if b is NONE and a.op == 'call' and a.meta == 'nonnull':
            return FALSE
        if is_const(a):
            a, b = b, a
        return mk('cmp', 'is', a, b)
    if op == '==':
        if a is b:
            return TRUE
        if is_const(a) and is_const(b):
            return TRUE if _ceq(a, b) else FALSE
        if is_const(a) or (not is_const(b) and a.id > b.id):
            a, b = b, a
        if b.op == 'const' and a.op == 'tuple':
            return FALSE
        if a.op == 'tuple' and b.op == 'tuple' and unequal(a, b):
            return FALSE
        return mk('cmp', '==', a, b)
    if op == '<':
        if is_num(a) and is_num(b):
            return TRUE if cval(a) < cval(b) else FALSE
        return mk('cmp', '<', a, b)
    if op == 'in':
        if a.op == 'const' and b.op == 'const' and is_str(a) and is_str(b):
            return TRUE if cval(a) in cval(b) else FALSE
        return mk('cmp', 'in', a, b)
    return mk('cmp', op, a, b)


def _liftable(p, depth=6):
    if p.op != 'phi':
        return True
    if depth == 0:
        return False
    return any(leaf.op == 'const' for leaf in p.args[1:]) or \
        all(_liftable(x, depth - 1) for x in p.args[1:])


def _ceq(a, b):
    ta, tb = a.args[0], b.args[0]
    if ta == tb:
        return a.args[1] == b.args[1]
    num = {'num', 'bool'}
    if ta in num and tb in num:
        return Fraction(a.args[1]) == Fraction(b.args[1])
    return False


def truthy(e):
    if is_bool(e):
        return e
    if e.op == 'const':
        t, v = e.args
        if t == 'NoneType':
            return FALSE
        if t in ('num', 'str', 'bytes', 'bool'):
            return TRUE if v else FALSE
        return TRUE
    if e.op == 'tuple':
        return TRUE if e.args[0] else FALSE
    if e.op in ('func', 'class', 'module', 'ext'):
        return TRUE
    if e.op == 'phi':
        c, x, y = e.args
        return b_or(b_and(c, truthy(x)), b_and(b_not(c), truthy(y)))
    return mk('truthy', e)


def phi(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == 'not':
        return phi(c.args[0], b, a)
    if a.op == 'phi' and a.args[0] is c:
        a = a.args[1]
    if b.op == 'phi' and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk('phi', c, a, b)


# -- facts and feasibility --------------------------------------------------

class Facts:
    """literals known to hold; unit propagation over stored disjunctions"""

    def __init__(self, lits=()):
        self.true = set()       # literal nodes known true
        self.false = set()
        self.eqc = {}           # value -> constant it equals
        self.nec = {}           # value -> constants it differs from
        self.clauses = []
        self.bad = False
        for l in lits:
            self.add(l)

    def copy(self):
        f = Facts()
        f.true, f.false = set(self.true), set(self.false)
        f.eqc = dict(self.eqc)
        f.nec = {k: set(v) for k, v in self.nec.items()}
        f.clauses = list(self.clauses)
        f.bad = self.bad
        return f

    def add(self, c):
        if self.bad:
            return
        v = self.eval(c)
        if v is False:
            self.bad = True
            return
        if v is True:
            return
        if c.op == 'and':
            for x in c.args[0]:
                self.add(x)
            return
        if c.op == 'not':
            d = c.args[0]
            if d.op == 'or':
                for x in d.args[0]:
                    self.add(b_not(x))
                return
            if d.op == 'and':
                self.clauses.append(b_or(*[b_not(x) for x in d.args[0]]))
                self._propagate()
                return
            self.false.add(d)
            if d.op == 'cmp' and d.args[0] in ('==', 'is') and is_const(d.args[2]):
                self.nec.setdefault(d.args[1], set()).add(d.args[2])
        elif c.op == 'or':
            self.clauses.append(c)
        else:
            self.true.add(c)
            if c.op == 'cmp' and c.args[0] in ('==', 'is') and is_const(c.args[2]):
                self.eqc[c.args[1]] = c.args[2]
        self._propagate()

    def _propagate(self):
        changed = True
        n = 0
        while changed and not self.bad and n < 20:
            n += 1
            changed = False
            for cl in list(self.clauses):
                alive = []
                sat = False
                for x in cl.args[0] if cl.op == 'or' else (cl,):
                    v = self.eval(x)
                    if v is True:
                        sat = True
                        break
                    if v is None:
                        alive.append(x)
                if sat:
                    if cl in self.clauses:
                        self.clauses.remove(cl)
                    continue
                if not alive:
                    self.bad = True
                    return
                if len(alive) == 1:
                    if cl in self.clauses:
                        self.clauses.remove(cl)
                    self.add(alive[0])
                    changed = True

    def eval(self, c):
        if c is TRUE:
            return True
        if c is FALSE:
            return False
        if c in self.true:
            return True
        if c in self.false:
            return False
        op = c.op
        if op == 'not':
            v = self.eval(c.args[0])
            return None if v is None else (not v)
        if op == 'and':
            res = True
            for x in c.args[0]:
                v = self.eval(x)
                if v is False:
                    return False
                if v is None:
                    res = None
            return res
        if op == 'or':
            res = False
            for x in c.args[0]:
                v = self.eval(x)
                if v is True:
                    return True
                if v is None:
                    res = None
            return res
        if op == 'cmp':
            k, a, b = c.args
            if k in ('==', 'is') and is_const(b):
                if a in self.eqc:
                    k2 = self.eqc[a]
                    return True if _ceq(k2, b) else False
                if a in self.nec and any(_ceq(x, b) for x in self.nec[a]):
                    return False
                t = mk('truthy', a)
                if t in self.true and truthy(b) is FALSE:
                    return False
                if t in self.false and truthy(b) is TRUE:
                    return False
                if a.op == 'phi':
                    r = self.resolve(a)
                    if r is not a:
                        return self.eval(cmp(k, r, b))
            if k == '<' :
                if a in self.eqc or b in self.eqc:
                    a2, b2 = self.eqc.get(a, a), self.eqc.get(b, b)
                    if is_num(a2) and is_num(b2):
                        return cval(a2) < cval(b2)
                # b < a known  =>  not a < b
                if mk('cmp', '<', b, a) in self.true:
                    return False
            return None
        if op == 'truthy':
            a = c.args[0]
            if a in self.eqc:
                t = truthy(self.eqc[a])
                return True if t is TRUE else False if t is FALSE else None
            return None
        return None

    def resolve(self, e, depth=40):
        """drop phi alternatives that the facts decide"""
        while e.op == 'phi' and depth:
            v = self.eval(e.args[0])
            if v is True:
                e = e.args[1]
            elif v is False:
                e = e.args[2]
            else:
                break
            depth -= 1
        return e

    def feasible(self, extra=()):
        f = self.copy()
        for l in extra:
            f.add(l)
            if f.bad:
                return False
        return not f.bad


# -- traversal ----------------------------------------------------------------

def children(e):
    op = e.op
    if op in ('const', 'sym', 'unbound', 'absent', 'obj', 'func', 'class', 'module', 'ext', 'carry', 'bound'):
        return ()
    if op == 'poly':
        out = []
        for m, c in e.args[0]:
            out.extend(a for a, x in m)
        return tuple(out)
    if op in ('and', 'or', 'tuple', 'list', 'fstr'):
        return tuple(e.args[0])
    if op == 'call':
        return tuple(e.args[1]) + tuple(v for _, v in e.args[2])
    if op == 'slice':
        return tuple(e.args)
    return tuple(a for a in e.args if isinstance(a, E))


def rebuild(e, f):
    """apply f to every child and rebuild in normal form"""
    op = e.op
    if op in ('const', 'sym', 'unbound', 'absent', 'obj', 'func', 'class', 'module', 'ext', 'carry', 'bound'):
        return e
    if op == 'poly':
        out = ZERO
        changed = False
        new = []
        for m, c in e.args[0]:
            t = const(c)
            for a, x in m:
                b = f(a)
                changed |= b is not a
                t = (t, (b, x)) if False else t
                new.append
                t = mul(t, power(b, x))
            out = add(out, t)
        return out if changed else e
    if op in ('and', 'or'):
        xs = [f(x) for x in e.args[0]]
        return (b_and if op == 'and' else b_or)(*xs)
    if op in ('tuple', 'list', 'fstr'):
        return mk(op, tuple(f(x) for x in e.args[0]))
    if op == 'not':
        return b_not(f(e.args[0]))
    if op == 'phi':
        return phi(*[f(x) for x in e.args])
    if op == 'cmp':
        return cmp(e.args[0], f(e.args[1]), f(e.args[2]))
    if op == 'truthy':
        return truthy(f(e.args[0]))
    if op == 'call':
        if e.args[0] in ('mod', 'floordiv'):
            xs = [f(x) for x in e.args[1]]
            if all(is_num(x) for x in xs) and len(xs) == 2 and cval(xs[1]) != 0:
                x, y = cval(xs[0]), cval(xs[1])
                return const(x % y if e.args[0] == 'mod' else Fraction(x // y))
        n = mk('call', e.args[0], tuple(f(x) for x in e.args[1]),
            tuple((k, f(v)) for k, v in e.args[2]))
        n.meta = e.meta
        return n
    return mk(op, *[f(a) if isinstance(a, E) else a for a in e.args])


def transform(e, fn, memo=None):
    """bottom up rewriting; fn(node) -> node"""
    memo = {} if memo is None else memo

    def go(x):
        if x in memo:
            return memo[x]
        memo[x] = x
        y = rebuild(x, go)
        y = fn(y)
        memo[x] = y
        return y
    return go(e)


def subst(e, table):
    memo = {}

    def go(x):
        if x in table:
            return table[x]
        if x in memo:
            return memo[x]
        memo[x] = x
        y = rebuild(x, go)
        memo[x] = y
        return y
    return go(e)


def walk(e, seen=None):
    seen = set() if seen is None else seen
    stack = [e]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(children(x))


def contains(e, target):
    return any(x is target for x in walk(e))


def resolve_deep(e, facts):
    """resolve gated joins everywhere under the given facts"""
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        memo[x] = x
        y = facts.resolve(x)
        if y is not x:
            y = go(y)
        else:
            if is_bool(x):
                v = facts.eval(x)
                if v is not None:
                    memo[x] = TRUE if v else FALSE
                    return memo[x]
            y = rebuild(x, go)
            z = facts.resolve(y)
            if z is not y:
                y = go(z)
        memo[x] = y
        return y
    return go(e)


def show(e, depth=8):
    op = e.op
    if depth == 0:
        return '…'
    d = depth - 1
    if op == 'const':
        v = e.args[1]
        if isinstance(v, Fraction):
            if v.denominator == 1:
                return str(v.numerator)
            if v.denominator < 1000:
                return str(v)
            return repr(float(v))
        return repr(v)
    if op == 'sym':
        return str(e.args[0])
    if op == 'poly':
        ts = []
        for m, c in e.args[0]:
            fs = []
            if c != 1 or not m:
                fs.append(show(const(c)))
            for a, x in m:
                s = show(a, d)
                if a.op == 'poly':
                    s = f'({s})'
                fs.append(s if x == 1 else f'{s}^{x}')
            ts.append('*'.join(fs))
        return ' + '.join(ts)
    if op == 'attr':
        return f'{show(e.args[0], d)}.{e.args[1]}'
    if op == 'idx':
        return f'{show(e.args[0], d)}[{show(e.args[1], d)}]'
    if op == 'phi':
        return f'φ({show(e.args[0], d)} ? {show(e.args[1], d)} : {show(e.args[2], d)})'
    if op == 'call':
        a = [show(x, d) for x in e.args[1]] + [f'{k}={show(v, d)}' for k, v in e.args[2]]
        return f'{e.args[0]}({", ".join(a)})'
    if op == 'cmp':
        return f'{show(e.args[1], d)} {e.args[0]} {show(e.args[2], d)}'
    if op == 'not':
        return f'not {show(e.args[0], d)}'
    if op in ('and', 'or'):
        return '(' + f' {op} '.join(show(x, d) for x in e.args[0]) + ')'
    if op in ('tuple', 'list'):
        return '(' + ', '.join(show(x, d) for x in e.args[0]) + ')'
    if op == 'slice':
        return ':'.join('' if x is NONE else show(x, d) for x in e.args)
    if op in ('func', 'class', 'module', 'ext'):
        return f'<{op} {e.args[0]}>'
    if op == 'obj':
        return f'#{e.args[0]}'
    parts = ', '.join(show(x, d) if isinstance(x, E) else str(x) for x in e.args)
    return f'{op}({parts})'
