"""Which private data types are laid out differently in the reviewed program and the current one.

A change of scalar width under the same field name is not a change of layout: the values
that flow through it are compared as they are."""


def tystr(p, i, depth=0):
    t = p.types[i]
    k = t[0]
    if k in ('int', 'uint', 'float', 'bool', 'char'):
        return 'num'
    if k == 'adt':
        return t[1] + '<' + ','.join(tystr(p, x, depth + 1) for x in t[2] if isinstance(x, int)) + '>'
    if k in ('ref', 'slice', 'ptr', 'array'):
        return k + ':' + tystr(p, t[1], depth + 1) + (' %s' % t[2] if k == 'array' else '')
    if k == 'tuple':
        return 'tuple:(' + ','.join(tystr(p, y, depth + 1) for y in t[1]) + ')'
    return k


def layouts(p):
    out = {}
    for name, a in p.adts.items():
        if a.get('local'):
            out[name] = [(v['name'], [(f[0], tystr(p, f[1])) for f in v['fields']]) for v in a['variants']]
    return out


def inside(p, i, memo, depth=0):
    """local types reachable from a type"""
    if i in memo:
        return memo[i]
    memo[i] = set()
    out = set()
    t = p.types[i]
    if t[0] == 'adt':
        a = p.adts.get(t[1])
        if a and a.get('local'):
            out.add(t[1])
            for v in a['variants']:
                for f in v['fields']:
                    out |= inside(p, f[1], memo)
        for x in t[2]:
            if isinstance(x, int):
                out |= inside(p, x, memo)
    elif t[0] in ('ref', 'slice', 'ptr', 'array') and len(t) > 1 and isinstance(t[1], int):
        out |= inside(p, t[1], memo)
    elif t[0] == 'tuple':
        for x in t[1] if len(t) > 1 and isinstance(t[1], list) else []:
            out |= inside(p, x, memo)
    memo[i] = out
    return out


def changedtypes(a, b):
    """(types laid out differently, types that only gained fields)"""
    la, lb = layouts(a), layouts(b)
    other, grown = set(), set()
    for n in set(la) | set(lb):
        x, y = la.get(n), lb.get(n)
        if x == y:
            continue
        if x and y and len(x) == len(y) == 1 and set(x[0][1]) <= set(y[0][1]):
            grown.add(n)
        else:
            other.add(n)
    return other, grown


def builds(b, names):
    """does this body construct such a value?"""
    for bl in b.blocks:
        for s in bl['s']:
            if s[0] == '=' and s[2][0] == 'agg' and len(s[2][1]) > 1 and s[2][1][0] == 'adt' and s[2][1][1] in names:
                return True
    return False


def holders(p, other, grown):
    """functions with a parameter, result or local of a type laid out differently, or that build one that gained fields"""
    memo, out = {}, set()
    for q, bs in p.byqual.items():
        for b in bs:
            if (grown and builds(b, grown)) or any(inside(p, i, memo) & other for i in b.locals):
                out.add(q.split('::{closure')[0])
                break
    return out
