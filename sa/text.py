"""Text built from values: the fields of a line and what reads them back.

A line is a sequence of constant text and formatted values.  A pattern finds a
field when it matches every rendering of the value and nothing around it.
"""
import re
import string
from fractions import Fraction
from . import values as V
from .gvn import const
from .values import mk

SAMPLES = (0.0, 1.0, -1.0, 3.5, -2.25, 123.4567, -123.4567, 1.5e-12, -7.25e-11, 6.5e10, 2003.5417)
INTS = (0, 1, 7, 12, 60, 179)


def unprintable(fmt, args):
    """whether a number format is given nothing to print"""
    try:
        fields = [(f, spec) for _, f, spec, _ in string.Formatter().parse(fmt) if f is not None]
    except ValueError:
        return False
    for i, (f, spec) in enumerate(fields):
        k = i if f == '' else int(f) if f.isdigit() else None
        if spec and k is not None and k < len(args) and args[k] is V.NONE:
            return True
    return False


def formatted(fmt, args):
    """the text of a format string with positional fields"""
    out, auto = [], 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(fmt):
            if lit:
                out.append(const(lit))
            if field is None:
                continue
            if field == '':
                k, auto = auto, auto + 1
            elif field.isdigit():
                k = int(field)
            else:
                return None
            if conv or '{' in spec or k >= len(args):
                return None
            if args[k].op == 'const':
                s = printed(args[k], spec)
                if s is None:
                    return None
                out.append(const(s))
                continue
            out.append(mk('call', 'fmt', (args[k], const(spec)), ()) if spec else args[k])
    except ValueError:
        return None
    return build([(V.cval(x), None) if V.is_str(x) else (None, x) for x in out])


def printed(e, spec):
    """a constant as text"""
    v = V.cval(e)
    if isinstance(v, Fraction):
        v = int(v) if v.denominator == 1 and not spec.endswith(('e', 'f', 'E', 'D', 'g')) else float(v)
    try:
        return format(v, spec[:-1] + 'E').replace('E', 'D') if spec.endswith('D') else format(v, spec)
    except (TypeError, ValueError):
        return None


def flags(e):
    n = 0
    for x in V.walk(e):
        if x.op == 'ext' and x.args[0].startswith('re.'):
            n |= getattr(re, x.args[0][3:], 0)
    return n


def renderings(spec):
    ok = []
    # numbers padded by zeros have as many digits
    digits = int(spec[1:-1]) if spec[:1] == '0' and spec[1:-1].isdigit() and spec.endswith('d') else None
    for s in INTS if spec.endswith('d') else SAMPLES:
        if digits and s >= 10**digits:
            continue
        try:
            # exponents as Fortran prints them
            ok.append(format(s, spec[:-1] + 'E').replace('E', 'D') if spec.endswith('D') else format(s, spec))
        except ValueError:
            return None
    return ok


def matching(pattern, line, flag, mode):
    """whether a pattern matches every rendering, or none, of a line"""
    ex = examples(line)
    if ex is None:
        return None
    try:
        got = {getattr(re, mode)(pattern, s, flags(flag)) is not None for s in ex}
    except re.error:
        return V.FALSE
    if len(got) > 1:
        return None
    return V.TRUE if True in got else V.FALSE


def counted(pattern):
    """patterns that refer to their groups by number or must come first"""
    return re.search(r'\\[1-9]|\(\?\(|\(\?[aiLmsux]+\)', pattern) is not None


def names(pattern):
    return dict(re.compile(pattern).groupindex)


def all_found(pattern, line, flag):
    """every match of a pattern and its groups, or None"""
    if counted(pattern):
        return None
    got = tokens('(' + pattern + ')', line, flag)
    return None if got is None else [x.args[0] if x.op == 'tuple' else (x,) for x in got]


def found(pattern, line, flag, mode):
    """the text of a match and its groups, or None"""
    try:
        rx = re.compile(('\\A(' if mode == 'match' else '(') + pattern + ')', flags(flag))
        if counted(pattern):
            return None
    except re.error:
        return None
    if V.is_str(line):
        m = rx.search(V.cval(line))
        return tuple(const(x) for x in m.groups()) if m else None
    rows = grouped(rx, line)
    return rows[0].args[0] if rows else None


def tokens(pattern, line, flag):
    """what the pattern finds in a line, or None"""
    try:
        rx = re.compile(pattern, flags(flag))
    except re.error:
        return None
    if V.is_str(line):
        found = rx.findall(V.cval(line))
        return tuple(const(x) if isinstance(x, str) else mk('tuple', tuple(const(y) for y in x)) for x in found)
    if line.op != 'fstr':
        return None
    if rx.groups > 1:
        return grouped(rx, line)
    parts = line.args[0]
    out = []
    for i, p in enumerate(parts):
        if V.is_str(p):
            found = rx.findall(V.cval(p))
            if not all(isinstance(x, str) for x in found):
                return None
            # numbers of the surrounding text must not touch a value
            if V.cval(p) != V.cval(p).strip() or not found:
                out.extend(const(x) for x in found)
                continue
            return None
        spec = V.cval(p.args[1][1]) if p.op == 'call' and p.args[0] == 'fmt' else ''
        shown = renderings(spec)
        if shown is None or any(len(f) != 1 or isinstance(f[0], tuple) or f[0] != s.strip() for s, f in ((s, rx.findall(s)) for s in shown)):
            return None
        # neighbouring fields are separated by space
        if i and not (V.is_str(parts[i - 1]) and V.cval(parts[i - 1])[-1:].isspace()):
            return None
        if i + 1 < len(parts) and not (V.is_str(parts[i + 1]) and V.cval(parts[i + 1])[:1].isspace()):
            return None
        v = p.args[1][0] if spec else p
        if spec.endswith('d') and V.is_num(v):
            out.append(v)
        else:
            out.append(mk('call', 'text', (v, const(spec)), ()))
    return tuple(out)


def grouped(rx, line):
    """the groups of a pattern, when they fall on the same fields in every rendering"""
    ps = parts(line)
    cols = [[t] if p is None else field(p)[2] for t, p in ps]
    if any(c is None for c in cols):
        return None
    seen = None
    for i in range(max(len(c) for c in cols)):
        texts = [c[(i + k) % len(c)] for k, c in enumerate(cols)]
        at = [0]
        for x in texts:
            at.append(at[-1] + len(x))

        def place(n, end):
            # (piece, offset) of a position; inside constant text only
            for k, (t, p) in enumerate(ps):
                if p is None and at[k] < n < at[k + 1]:
                    return (k, n - at[k])
            if n not in at:
                return None
            k = at.index(n)
            return (k, 0)
        got = []
        for m in rx.finditer(''.join(texts)):
            row = []
            for g in range(1, rx.groups + 1):
                a, b = m.span(g)
                ends = (None, None) if a < 0 else (place(a, False), place(b, True))
                if a >= 0 and None in ends:
                    return None
                # an empty group is nowhere
                row.append(None if a < 0 or a == b else ends)
            got.append(tuple(row))
        if seen is not None and got != seen:
            return None
        seen = got
    out = []
    for row in seen:
        fields = []
        for ends in row:
            if ends is None:
                fields.append(const(''))
                continue
            (a, i), (b, j) = ends
            sub = []
            for k in range(a, min(b, len(ps) - 1) + 1):
                t, p = ps[k]
                if p is None:
                    x = t[i if k == a else 0:j if k == b else None]
                    if x:
                        sub.append((x, None))
                elif k < b:
                    sub.append((None, p))
            if len(sub) == 1 and sub[0][1] is not None:
                v, spec, _ = field(sub[0][1])
                fields.append(v if spec.endswith('d') and V.is_num(v) else mk('call', 'text', (v, const(spec)), ()))
            else:
                fields.append(build(sub))
        out.append(mk('tuple', tuple(fields)))
    return tuple(out)


# -- lines as sequences of fields -------------------------------------------------------

def parts(line):
    """[(text, None) or (None, field)] of a line"""
    if V.is_str(line):
        return [(V.cval(line), None)]
    if line.op == 'fstr':
        return [(V.cval(p), None) if V.is_str(p) else (None, p) for p in line.args[0]]
    return None


def field(p):
    """(value, renderings) of a formatted field"""
    spec = V.cval(p.args[1][1]) if p.op == 'call' and p.args[0] == 'fmt' else ''
    shown = renderings(spec)
    return (p.args[1][0] if spec else p), spec, shown


def build(ps):
    out = []
    for t, p in ps:
        if p is not None:
            out.append(p)
        elif t:
            if out and V.is_str(out[-1]):
                out[-1] = const(V.cval(out[-1]) + t)
            else:
                out.append(const(t))
    if not out:
        return const('')
    if len(out) == 1 and V.is_str(out[0]):
        return out[0]
    return mk('fstr', tuple(out))


def examples(line):
    """some renderings of a line"""
    ps = parts(line)
    if ps is None:
        return None
    cols = [[t] if p is None else field(p)[2] for t, p in ps]
    if any(c is None for c in cols):
        return None
    n = max(len(c) for c in cols)
    return [''.join(c[(i + k) % len(c)] for k, c in enumerate(cols)) for i in range(n)]


def number(line):
    """the value of a line that is one field surrounded by blanks"""
    if V.is_str(line):
        for kind in (int, float):
            try:
                x = kind(V.cval(line))
                return const(x) if x == x and abs(x) != float('inf') else None
            except (ValueError, OverflowError):
                pass
        return None
    ps = parts(line)
    if ps is None or sum(p is not None for _, p in ps) != 1 or any(t.strip() for t, p in ps if p is None):
        return None
    p = next(p for _, p in ps if p is not None)
    v, spec, shown = field(p)
    if shown is None:
        return None
    if spec.endswith('d') and V.is_num(v):
        return v
    return mk('call', 'text', (v, const(spec)), ())


def replaced(line, old, new):
    ps = parts(line)
    if ps is None or not old:
        return None
    out = []
    for t, p in ps:
        if p is None:
            out.append((t.replace(old, new), None))
            continue
        v, spec, shown = field(p)
        if shown is None:
            return None
        if any(old in s for s in shown):
            if spec.endswith('D') and (old, new) in (('D', 'E'), ('D', 'e')):
                p = mk('call', 'fmt', (v, const(spec[:-1] + new)), ())
            else:
                return None
        out.append((None, p))
    # an occurrence that spans two parts
    if any(old in s for s in (examples(line) or [''])) and any(old in s for s in (examples(build(out)) or [''])) and old not in new:
        return None
    return build(out)


def split(line, sep=None, limit=-1):
    """the fields between separators"""
    ps = parts(line)
    if ps is None:
        return None
    out, cur, n = [], [], 0
    blank = (lambda c: c.isspace()) if sep is None else (lambda c: c == sep)
    if sep is not None and len(sep) != 1:
        return None

    def end():
        nonlocal cur, n
        out.append(build(cur))
        cur = []
        n += 1
    for t, p in ps:
        if p is not None:
            v, spec, shown = field(p)
            if shown is None or any(blank(c) for s in shown for c in s.strip()):
                return None
            if sep is None and any(s != s.strip() for s in shown):
                # padding separates the field from what precedes it, when it is always there
                pad = all(s[:1].isspace() for s in shown)
                if cur:
                    if not pad:
                        return None
                    if limit < 0 or n < limit:
                        end()
                if any(s[-1:].isspace() for s in shown):
                    return None
            cur.append((None, p))
            continue
        for c in t:
            if blank(c) and (limit < 0 or n < limit):
                if sep is not None or cur:
                    end()
            elif not (sep is None and not cur and blank(c)):
                cur.append((c, None))
    if cur or sep is not None:
        out.append(build(cur))
    return tuple(out)


def lines(line):
    """parts between the ends of lines, of which values have none"""
    ps = parts(line)
    if ps is None:
        return None
    out = [[]]
    for t, p in ps:
        if p is not None:
            out[-1].append((None, p))
            continue
        first, *more = t.split('\n')
        out[-1] += [(first, None)] if first else []
        out += [[(x, None)] if x else [] for x in more]
    return tuple(build(x) if x else const('') for x in out)


def stripped(line, left=True, right=True):
    ps = parts(line)
    if ps is None:
        return None
    ps = list(ps)
    if left and ps and ps[0][1] is None:
        ps[0] = (ps[0][0].lstrip(), None)
    if right and ps and ps[-1][1] is None:
        ps[-1] = (ps[-1][0].rstrip(), None)
    return build(ps)


def cut(line, lo, hi):
    """a range of characters, when it falls between fields"""
    ps = parts(line)
    if ps is None:
        return None
    widths = []
    for t, p in ps:
        if p is None:
            widths.append(len(t))
            continue
        shown = field(p)[2]
        if shown is None or len({len(s) for s in shown}) != 1:
            return None
        widths.append(len(shown[0]))
    n = sum(widths)
    lo, hi, _ = slice(lo, hi).indices(n)
    out, at = [], 0
    for (t, p), w in zip(ps, widths):
        a, b = max(lo - at, 0), min(hi - at, w)
        if b > a:
            if p is None:
                out.append((t[a:b], None))
            elif (a, b) == (0, w):
                out.append((None, p))
            else:
                # only blanks may be cut off
                shown = field(p)[2]
                if all(not (s[:a] + s[b:]).strip() for s in shown):
                    out.append((None, p))
                elif all(not s[a:b].strip() for s in shown):
                    out.append((' ' * (b - a), None))
                else:
                    return None
        at += w
    return build(out)


WORDS = ('encode', 'decode', 'splitlines', 'lower', 'upper', 'title', 'capitalize', 'isdigit', 'isalpha', 'isnumeric')


def method(line, name, args):
    """a string method of a line: a term, a tuple of terms, or None"""
    c = [V.cval(x) if x.op == 'const' else None for x in args]
    if any(x.op != 'const' for x in args):
        return None
    if name == 'replace' and len(c) == 2:
        return replaced(line, c[0], c[1])
    if name == 'split' and len(c) <= 2:
        return split(line, *[int(x) if isinstance(x, Fraction) else x for x in c])
    if name in ('strip', 'lstrip', 'rstrip') and not c:
        return stripped(line, name != 'rstrip', name != 'lstrip')
    if name in WORDS and V.is_str(line) and not c:
        s = V.cval(line)
        got = s if name in ('encode', 'decode') else getattr(s, name)()
        return tuple(const(x) for x in got) if isinstance(got, list) else got if not isinstance(got, (str, bool)) else const(got)
    if name in ('encode', 'decode') and V.is_str(line) and len(c) == 1 and isinstance(c[0], str):
        return line
    if name in ('startswith', 'endswith') and len(c) == 1:
        ex = examples(line)
        got = {getattr(s, name)(c[0]) for s in ex} if ex else ()
        return (V.TRUE if got == {True} else V.FALSE) if len(got) == 1 else None
    return None
