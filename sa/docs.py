"""Documented enumerations: option values listed in numpy-style docstrings."""
import ast
import re

_PAR = re.compile(r'^(\s*)([*]{0,2}[A-Za-z_][\w, *]*?)\s*:\s*(.+)$')
_BUL = re.compile(r"^(\s*)- ``(.+?)``")


def literal(text):
    """documented literal: a quoted string, a number, None or Ellipsis"""
    try:
        v = ast.literal_eval(text)
    except (ValueError, SyntaxError):
        return KeyError
    if isinstance(v, (str, int, float)) or v is None:
        return v
    return KeyError


def parameters(doc):
    """{parameter: {'type': text, 'values': [literals], 'text': str}}"""
    out = {}
    section = None
    cur = None
    lines = doc.split('\n')
    for i, line in enumerate(lines):
        nxt = lines[i + 1] if i + 1 < len(lines) else ''
        if nxt.strip() and set(nxt.strip()) <= {'-'} and len(nxt.strip()) >= 3 and line.strip():
            section = line.strip().lower()
            cur = None
            continue
        if section != 'parameters':
            continue
        b = _BUL.match(line)
        if b and cur:
            v = literal(b.group(2))
            if v is not KeyError:
                for c in cur:
                    out[c]['values'].append(v)
            continue
        m = _PAR.match(line)
        if m and (not cur or len(m.group(1)) <= indent):
            names = [x.strip().lstrip('*') for x in m.group(2).split(',')]
            if all(re.fullmatch(r'[A-Za-z_]\w*', x) for x in names):
                indent = len(m.group(1))
                cur = names
                for c in cur:
                    out.setdefault(c, {'type': m.group(3), 'values': [], 'text': ''})
                continue
        if cur:
            for c in cur:
                out[c]['text'] += ' ' + line.strip()
    return out
