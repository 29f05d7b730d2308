"""Readable, deterministic rendering of value-graph nodes."""
from nodes import *

_memo = {}
LIMITS = [6000]
ADT_SHORT = {}
MU = {}      # digest hex -> (init, next, guard) for reports


def short(adt):
    return adt.split('::')[-1]


VARIANTS = {}


def vname(adt, v):
    vs = VARIANTS.get(adt)
    if vs and len(vs) > 1 and v < len(vs):
        return vs[v]
    return short(adt)


def show(n, depth=0):
    r = _memo.get(n)
    if r is None:
        r = _show(n)
        if len(r) > LIMITS[0]:
            r = r[:LIMITS[0]] + '...'
        _memo[n] = r
    return r


def _mono(m, c):
    body = '*'.join(show(x) if x.op not in ('poly',) else '(%s)' % show(x) for x in m)
    if not m:
        return str(c)
    if c == 1:
        return body
    if c == -1:
        return '-' + body
    return '%d*%s' % (c, body)


def _cond(a):
    if a.op == 'ge0':
        t = terms(a.a[0])
        pos = poly({m: c for m, c in t.items() if c > 0 and m})
        neg = poly({m: -c for m, c in t.items() if c < 0 and m})
        c0 = t.get((), 0)
        if c0 < 0:
            return '%s >= %s' % (show(pos), show(ADD(neg, C(-c0))))
        return '%s >= %s' % (show(ADD(pos, C(c0))), show(neg))
    if a.op == 'eq0':
        t = terms(a.a[0])
        pos = poly({m: c for m, c in t.items() if c > 0 and m})
        neg = poly({m: -c for m, c in t.items() if c < 0 and m})
        c0 = t.get((), 0)
        if c0 < 0:
            return '%s == %s' % (show(pos), show(ADD(neg, C(-c0))))
        return '%s == %s' % (show(ADD(pos, C(c0))), show(neg))
    return show(a)


def _show(n):
    op, a = n.op, n.a
    if op == 'c':
        return str(a[0])
    if op == 'T':
        return 'true'
    if op == 'F':
        return 'false'
    if op in ('sym', 'k'):
        return a[0]
    if op == 'str':
        return repr(a[0])
    if op == 'fl':
        return a[0]
    if op == 'poly':
        parts = sorted((_mono(m, c) for m, c in a), key=lambda s: (s.lstrip('-')[0:1].isdigit() and '*' not in s, s))
        s = ' + '.join(parts)
        return s.replace('+ -', '- ')if len(parts) > 1 else s
    if op == 'slice':
        return '%s[bits %d..%d]' % (show(a[0]), a[1], a[2])
    if op == 'ite':
        if a[1] is TRUE and a[2] is FALSE:
            return '(%s)' % _cond(a[0])
        if a[1] is FALSE and a[2] is TRUE:
            return '!(%s)' % _cond(a[0])
        return '{%s ? %s : %s}' % (_cond(a[0]), show(a[1]), show(a[2]))
    if op in ('ge0', 'eq0'):
        return _cond(n)
    if op == 'load':
        return '%s[%s]' % (show(a[0]), show(a[1]))
    if op == 'upd':
        return '%s<[%s]=%s>' % (show(a[0]), show(a[1]), show(a[2]))
    if op == 'view':
        return '%s[%s;+%s]' % (show(a[0]), show(a[1]), show(a[2]))
    if op == 'fill':
        return 'vec(%s;%s)' % (show(a[0]), show(a[1]))
    if op == 'arr':
        return '[%s]' % ', '.join(show(x) for x in a[0])
    if op == 'gk':
        return 'j%d' % a[0]
    if op == 'gen':
        return 'gen(%s: %s)' % (show(a[0]), show(a[1]))
    if op == 'push':
        return 'push(%s, %s)' % (show(a[0]), show(a[1]))
    if op == 'agg':
        if a[0] == 'tuple':
            return '(%s)' % ', '.join(show(x) for x in a[2])
        return '%s(%s)' % (vname(a[0], a[1]), ', '.join(show(x) for x in a[2])) if a[2] else vname(a[0], a[1])
    if op == 'op':
        nm = a[0]
        if nm == 'div':
            return '(%s)/%s' % (show(a[1]), show(a[2]))
        if nm == 'mod':
            return '(%s)%%%s' % (show(a[1]), show(a[2]))
        if nm in ('exits', 'kexit'):
            return '%s#%s' % (nm, a[3][:6])
        if nm == 'fld':
            return '%s.%s' % (show(a[1]), a[2])
        return '%s(%s)' % (nm, ', '.join(show(x) if isinstance(x, N) else str(x) for x in a[1:]))
    if op == 'mu':
        return 'mu#%s' % a[1][:6]
    if op == 'muexit':
        return 'after#%s(%s)' % (a[0].a[1][:6] if a[0].op == 'mu' else '?', show(a[1]))
    if op == 'opaque':
        return '<?%s>' % a[0]
    if op == 'ref':
        return '&%s%s' % (a[0], ''.join('.' + str(x) for x in a[1]))
    if op == 'seq':
        return 'seq(%s)' % ', '.join(show(x) if isinstance(x, N) else str(x) for x in a)
    return '%s(%s)' % (op, ', '.join(_s(x) for x in a))


def _s(x):
    if isinstance(x, N):
        return show(x)
    if isinstance(x, tuple):
        return '(' + ', '.join(_s(y) for y in x) + ')'
    return str(x)
