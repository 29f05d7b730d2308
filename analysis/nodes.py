"""Hash-consed value graph with a canonical form.

A value is an immutable node.  Integers are kept as polynomials over atoms with
integer coefficients, data words as vectors of source bits where every bit is
known, and values that depend on branches as ordered multi-terminal decision
diagrams over canonical condition atoms.  Two ways of writing the same
computation (statement order, helper functions, match vs if, shift-or vs
multiply-add, index vs iterator) therefore give the same node.
"""
import hashlib
from fractions import Fraction
from math import gcd

_table = {}


class N:
    __slots__ = ('op', 'a', 'ty', 'dig', 'loops', 'size', 'top', 'opq', '__weakref__')

    def __repr__(self):
        from pretty import show
        return show(self)


def _h(x):
    if isinstance(x, N):
        return x.dig
    if isinstance(x, tuple):
        return b'(' + b','.join(_h(y) for y in x) + b')'
    return repr(x).encode()


def mk(op, a=(), ty=None):
    key = (op, a, ty)
    n = _table.get(key)
    if n is not None:
        return n
    n = N()
    n.op, n.a, n.ty = op, a, ty
    n.dig = hashlib.blake2b(op.encode() + b'|' + _h(a) + b'|' + repr(ty).encode(), digest_size=12).digest()
    loops = frozenset()
    size = 1
    opq = op == 'opaque'
    for c in children(n):
        if c.loops:
            loops = loops | c.loops
        size += c.size
        opq = opq or c.opq
    if op in ('mu', 'k', 'gk'):
        loops = loops | frozenset([n.dig])
    n.loops = loops
    n.size = min(size, 10 ** 9)
    n.opq = opq
    n.top = a[0].dig if op == 'ite' else None
    _table[key] = n
    return n


def _kids(x):
    for y in x:
        if isinstance(y, N):
            yield y
        elif isinstance(y, tuple):
            yield from _kids(y)


def children(n):
    return _kids(n.a)


# ---------------------------------------------------------------- types
TYR = {'bool': (0, 1), 'char': (0, 0x10ffff)}
for _w in (8, 16, 32, 64, 128):
    TYR['u%d' % _w] = (0, 2 ** _w - 1)
    TYR['i%d' % _w] = (-2 ** (_w - 1), 2 ** (_w - 1) - 1)
TYR['usize'] = TYR['u64']
TYR['isize'] = TYR['i64']
WIDTH = {t: (128 if '128' in t else 64 if ('64' in t or 'size' in t) else 32 if '32' in t else 16 if '16' in t else 8)
         for t in TYR if t not in ('bool', 'char')}
WIDTH['char'] = 32


def isint(ty):
    return ty in WIDTH


# ---------------------------------------------------------------- basic
TRUE = mk('T')
FALSE = mk('F')
UNIT = mk('agg', ('tuple', 0, ()))


def C(v):
    return mk('c', (int(v),))


ZERO, ONE = C(0), C(1)


def isc(n):
    return n.op == 'c'


def sym(name, ty=None):
    return mk('sym', (name,), ty)


def kvar(name):
    return mk('k', (name,), 'usize')


def B(v):
    return TRUE if v else FALSE


_opaque_ctr = [0]
OPAQUE_WHY = {}


class Why(str):
    """why a value is not known, and which value it is (two unknown values are not equal)"""
    key = b''


def opaque(why, ty=None, *of):
    key = getattr(why, 'key', b'')
    if of:
        key = hashlib.blake2b(key + b'|'.join(x.dig for x in of), digest_size=12).digest()
    n = mk('opaque', (str(why), key), ty)
    OPAQUE_WHY[why] = OPAQUE_WHY.get(why, 0) + 1
    return n


def why_opaque(*xs):
    w = Why(_why(*xs))
    w.key = hashlib.blake2b(b'|'.join(x.dig for x in xs), digest_size=12).digest()
    return w


def _why(*xs):
    for x in xs:
        todo, seen = [x], set()
        while todo:
            y = todo.pop()
            if y.op == 'opaque':
                return y.a[0]
            if y in seen or not y.opq:
                continue
            seen.add(y)
            todo += list(children(y))
    return 'unknown'


# ---------------------------------------------------------------- decision diagrams
LIMIT = 10 ** 7
BUDGET = [4000000]


class TooBig(Exception):
    pass


def _lin(p, q):
    """q = s*p + c with s in (1,-1)?  returns (s,c) or None"""
    tp, tq = terms(p), terms(q)
    for s in (1, -1):
        c = tq.get((), 0) - s * tp.get((), 0)
        ok = len([m for m in tp if m]) == len([m for m in tq if m])
        if ok and all(tq.get(m) == s * v for m, v in tp.items() if m):
            return s, c
    return None


def implied(atom, val, other):
    """truth of `other` given atom==val: True/False/None"""
    if atom is other:
        return val
    if other.op == 'eq0' and atom.op == 'eq0':
        if not val:
            return None
        r = _lin(atom.a[0], other.a[0])
        if r:
            return r[1] == 0
        return None
    if other.op == 'ge0' and atom.op == 'eq0' and val:
        r = _lin(atom.a[0], other.a[0])
        return None if not r else r[1] >= 0
    if atom.op == 'ge0' and other.op in ('ge0', 'eq0'):
        r = _lin(atom.a[0], other.a[0])
        if not r:
            return None
        s, c = r
        # p>=0 or p<=-1 ;  q = s*p+c
        if val:
            lo, hi = (c, None) if s == 1 else (None, c)
        else:
            lo, hi = (None, c - 1) if s == 1 else (c + 1, None)
        if other.op == 'ge0':
            if lo is not None and lo >= 0:
                return True
            if hi is not None and hi < 0:
                return False
            return None
        if lo is not None and lo > 0:
            return False
        if hi is not None and hi < 0:
            return False
        return None
    if atom.op == 'op' and other.op == 'op' and val and atom.a[0] == 'exits' == other.a[0]:
        if atom.a[1:3] == other.a[1:3] and atom.a[4:] == other.a[4:]:
            return False
    if atom.op == 'op' and other.op == 'op' and val and atom.a[0] in FCMP and other.a[0] in FCMP:
        return False        # less, greater and equal exclude each other
    if atom.op == 'op' and other.op == 'op' and val and atom.a[0] == 'streq' == other.a[0]:
        if atom.a[1] is other.a[1] and atom.a[2].op == 'str' and other.a[2].op == 'str':
            return False
    return None


FCMP = ('flt', 'feq')
OKEY = [None]
_okmemo = {}


def okey(atom):
    """position of a condition in the variable order: independent of symbol names"""
    r = _okmemo.get(atom)
    if r is None:
        r = OKEY[0](atom)
        _okmemo[atom] = r
    return r


_rmemo = {}
# a cheap filter: can atom imply anything about other?
_subj = {}


def subject(atom):
    s = _subj.get(atom)
    if s is None:
        if atom.op in ('eq0', 'ge0'):
            s = frozenset(m for m in terms(atom.a[0]) if m)
        elif atom.op == 'op' and atom.a[0] == 'streq':
            s = frozenset([('streq', atom.a[1])])
        elif atom.op == 'op' and atom.a[0] == 'exits':
            s = frozenset([('exits', atom.a[1:3], atom.a[4:])])
        elif atom.op == 'op' and atom.a[0] in FCMP:
            s = frozenset([('fcmp',) + tuple(sorted(x.dig for x in atom.a[1:]))])
        else:
            s = frozenset([atom])
        _subj[atom] = s
    return s


def restrict(n, atom, val):
    if n.op != 'ite':
        return n
    v = n.a[0]
    if v is not atom and okey(v)[0] > okey(atom)[0]:
        return n            # conditions on one quantity stand together in the order
    key = (n, atom, val)
    r = _rmemo.get(key)
    if r is not None:
        return r
    imp = implied(atom, val, v) if (v is atom or subject(v) == subject(atom)) else None
    if imp is True:
        r = restrict(n.a[1], atom, val)
    elif imp is False:
        r = restrict(n.a[2], atom, val)
    else:
        a = restrict(n.a[1], atom, val)
        b = restrict(n.a[2], atom, val)
        r = n if (a is n.a[1] and b is n.a[2]) else mknode(v, a, b)
    _rmemo[key] = r
    return r


def mknode(v, hi, lo):
    if hi is lo:
        return hi
    if lo.op == 'ite' and restrict(lo, v, True) is hi:
        return lo
    if hi.op == 'ite' and restrict(hi, v, False) is lo:
        return hi
    if v.op == 'ge0' and 'poly' in (hi.op, lo.op) and not {'ite', 'c'} & {hi.op, lo.op}:
        # a minimum or maximum: where both values agree (p == -1) either test is right
        q = _padd(v.a[0], C(1))
        d = terms(_padd(hi, poly({m: -c for m, c in terms(lo).items()})))
        tq = terms(q)
        if len(d) == len(tq) and all(m in d for m in tq):
            m, c = next(iter(tq.items()))
            if d[m] % c == 0 and all(d[x] == d[m] // c * w for x, w in tq.items()):
                v = mk('ge0', (q,), 'bool')
    return mk('ite', (v, hi, lo))


_imemo = {}


def ITE(f, g, h):
    if f is TRUE:
        return g
    if f is FALSE:
        return h
    if g is h:
        return g
    if g is TRUE and h is FALSE:
        return f
    key = (f, g, h)
    r = _imemo.get(key)
    if r is not None:
        return r
    if f.op != 'ite':
        f = mk('ite', (f, TRUE, FALSE))
    # merge aggregates structurally
    if g.op == 'agg' and h.op == 'agg' and g.a[0] == h.a[0] and g.a[1] == h.a[1] and len(g.a[2]) == len(h.a[2]):
        r = mk('agg', (g.a[0], g.a[1], tuple(ITE(f, x, y) for x, y in zip(g.a[2], h.a[2]))))
        _imemo[key] = r
        return r
    if g.op == 'arr' and h.op == 'arr' and len(g.a[0]) == len(h.a[0]) <= 64:
        r = mk('arr', (tuple(ITE(f, x, y) for x, y in zip(g.a[0], h.a[0])),))
        _imemo[key] = r
        return r
    v = f.a[0]
    for x in (g, h):
        if x.op == 'ite' and okey(x.a[0]) < okey(v):
            v = x.a[0]
    hi = ITE(restrict(f, v, True), restrict(g, v, True), restrict(h, v, True))
    lo = ITE(restrict(f, v, False), restrict(g, v, False), restrict(h, v, False))
    r = mknode(v, hi, lo)
    BUDGET[0] -= 1
    if BUDGET[0] < 0 or ddsize(r) > LIMIT:
        raise TooBig()
    _imemo[key] = r
    return r


_dds = {}


def ddsize(n):
    if n.op != 'ite':
        return 1
    r = _dds.get(n)
    if r is None:
        r = 1 + ddsize(n.a[1]) + ddsize(n.a[2])
        _dds[n] = r
    return r


def asdd(c):
    """condition atom -> dd"""
    if c is TRUE or c is FALSE or c.op == 'ite':
        return c
    return mk('ite', (c, TRUE, FALSE))


def NOT(c):
    return ITE(asdd(c), FALSE, TRUE)


def AND(a, b):
    return ITE(asdd(a), asdd(b), FALSE)


def OR(a, b):
    return ITE(asdd(a), TRUE, asdd(b))


def leaves(n, cond=TRUE):
    """[(condition dd, leaf)]"""
    if n.op != 'ite':
        return [(cond, n)]
    out = {}
    def go(x, c):
        if c is FALSE:
            return
        if x.op != 'ite':
            out[x] = OR(out[x], c) if x in out else c
            return
        go(x.a[1], AND(c, x.a[0]))
        go(x.a[2], AND(c, NOT(x.a[0])))
    go(n, cond)
    return [(c, x) for x, c in out.items()]


def dleaves(n):
    """distinct terminals of a decision diagram"""
    seen, out, todo = set(), [], [n]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'ite':
            todo += [x.a[1], x.a[2]]
        else:
            out.append(x)
    return out


_cmemo = {}
CO = [800]
CSIZE = [400]


def constrain(f, c):
    """simplify f under care set c, to a form that depends on nothing but the values of f where c holds"""
    if c is TRUE or c is FALSE or f.op != 'ite' and f.op != 'agg':
        return f
    key = (f, c)
    r = _cmemo.get(key)
    if r is not None:
        return r
    if f.op == 'agg':
        r = mk('agg', (f.a[0], f.a[1], tuple(constrain(x, c) for x in f.a[2])))
    else:
        n = [CO[0]]
        r = _least(f, c, n) if ddsize(c) <= CSIZE[0] else None
        if r is None:
            r = _compact(f, c)
        if r.op == 'ite':
            # one variant left: its fields are told apart instead
            ls = dleaves(r)
            l = ls[0]
            if l.op == 'agg' and l.a[2] and all(x.op == 'agg' and x.a[:2] == l.a[:2] and len(x.a[2]) == len(l.a[2]) for x in ls):
                r = mk('agg', (l.a[0], l.a[1], tuple(constrain(lift(lambda x: x.a[2][i], r), c) for i in range(len(l.a[2])))))
    _cmemo[key] = r
    return r


_lmemo = {}
_amemo = {}


def _top(*xs):
    v = None
    for x in xs:
        if x.op == 'ite' and (v is None or okey(x.a[0]) < okey(v)):
            v = x.a[0]
    return v


def _agree(f, g, c, n):
    if f is g or c is FALSE:
        return True
    v = _top(f, g)
    if v is None:
        return False
    key = (f, g, c)
    r = _amemo.get(key)
    if r is not None:
        return r
    n[0] -= 1
    if n[0] < 0:
        return None
    w = _top(f, g, c)
    r = True
    for val in (True, False):
        x = _agree(restrict(f, w, val), restrict(g, w, val), restrict(c, w, val), n)
        if x is None:
            return None
        if not x:
            r = False
            break
    _amemo[key] = r
    return r


def _least(f, c, n):
    """a distinction that makes no difference where c holds is dropped, first things first"""
    if c is TRUE or c is FALSE or f.op != 'ite':
        return f
    key = (f, c)
    r = _lmemo.get(key)
    if r is not None:
        return r
    n[0] -= 1
    if n[0] < 0:
        return None
    v = _top(f, c)
    c1, c0 = restrict(c, v, True), restrict(c, v, False)
    f1, f0 = restrict(f, v, True), restrict(f, v, False)
    if c0 is FALSE:
        r = _least(f1, c1, n)
    elif c1 is FALSE:
        r = _least(f0, c0, n)
    elif f1 is f0:
        r = _least(f1, OR(c1, c0), n)
    else:
        ag = _agree(f1, f0, AND(c1, c0), n)
        if ag is None:
            return None
        if ag:
            r = _least(ITE(c1, f1, f0), OR(c1, c0), n)
        else:
            x = _least(f1, c1, n)
            y = _least(f0, c0, n) if x is not None else None
            r = None if y is None else mknode(v, x, y)
    if r is not None:
        _lmemo[key] = r
    return r


_pmemo = {}


def _compact(f, c):
    if c is TRUE or c is FALSE or f.op != 'ite':
        return f
    key = (f, c)
    r = _pmemo.get(key)
    if r is not None:
        return r
    v = c.a[0]
    if okey(f.a[0]) < okey(v):
        v = f.a[0]
    c1, c0 = restrict(c, v, True), restrict(c, v, False)
    f1, f0 = restrict(f, v, True), restrict(f, v, False)
    if c0 is FALSE:
        r = _compact(f1, c1)
    elif c1 is FALSE:
        r = _compact(f0, c0)
    elif f1 is f0:
        r = _compact(f1, OR(c1, c0))
    else:
        r = mknode(v, _compact(f1, c1), _compact(f0, c0))
    _pmemo[key] = r
    return r


CAP = 400


def lift(fn, *xs):
    """apply fn leafwise over decision diagrams"""
    if not any(x.op == 'ite' for x in xs):
        return fn(*xs)
    memo = {}

    def go(ys):
        r = memo.get(ys)
        if r is not None:
            return r
        BUDGET[0] -= 1
        if BUDGET[0] < 0:
            raise TooBig()
        tops = [y.a[0] for y in ys if y.op == 'ite']
        if not tops:
            r = fn(*ys)
        else:
            v = min(tops, key=okey)
            hi = go(tuple(restrict(y, v, True) for y in ys))
            lo = go(tuple(restrict(y, v, False) for y in ys))
            r = ITE(mk('ite', (v, TRUE, FALSE)), hi, lo)
        memo[ys] = r
        return r
    return go(tuple(xs))


# ---------------------------------------------------------------- polynomials
def terms(n):
    if n.op == 'c':
        return {(): n.a[0]} if n.a[0] else {}
    if n.op == 'poly':
        return dict(n.a)
    return {(n,): 1}


_dk = lambda m: tuple(x.dig for x in m)


def poly(t):
    t = {m: c for m, c in t.items() if c}
    if not t:
        return ZERO
    if len(t) == 1:
        (m, c), = t.items()
        if not m:
            return C(c)
        if c == 1 and len(m) == 1:
            return m[0]
    items = tuple(sorted(t.items(), key=lambda mc: _dk(mc[0])))
    return mk('poly', items)


def _padd(a, b):
    t = terms(a)
    for m, c in terms(b).items():
        t[m] = t.get(m, 0) + c
    return poly(t)


def _pmul(a, b):
    t = {}
    for m1, c1 in terms(a).items():
        for m2, c2 in terms(b).items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.dig))
            t[m] = t.get(m, 0) + c1 * c2
    return poly(t)


def scale(a, c):
    return poly({m: v * c for m, v in terms(a).items()})


def ADD(a, b, ty=None):
    def f(x, y):
        if x.opq or y.opq:
            return opaque(why_opaque(x, y), ty)
        return divsum(normsum(_padd(x, y)))
    return lift(f, a, b)


def SUB(a, b, ty=None):
    def f(x, y):
        if x.opq or y.opq:
            return opaque(why_opaque(x, y), ty)
        return divsum(_padd(x, scale(y, -1)))
    return lift(f, a, b)


def MUL(a, b, ty=None):
    def f(x, y):
        if x.opq or y.opq:
            return opaque(why_opaque(x, y), ty)
        return _pmul(x, y)
    return lift(f, a, b)


_bmemo = {}


def bounds(n):
    """interval of an integer node (mathematical value)"""
    r = _bmemo.get(n)
    if r is not None:
        return r
    inf = float('inf')
    if n.op == 'c':
        r = (n.a[0], n.a[0])
    elif n.op == 'slice':
        r = (0, 2 ** (n.a[2] - n.a[1]) - 1)
    elif n.op == 'poly':
        lo = hi = 0
        for m, c in n.a:
            ml, mh = 1, 1
            for x in m:
                xl, xh = bounds(x)
                cands = [_im(p, q) for p in (ml, mh) for q in (xl, xh)]
                ml, mh = min(cands), max(cands)
            a, b = _im(ml, c), _im(mh, c)
            lo += min(a, b)
            hi += max(a, b)
        r = (lo, hi)
    elif n.op == 'ite':
        l1, h1 = bounds(n.a[1])
        l2, h2 = bounds(n.a[2])
        r = (min(l1, l2), max(h1, h2))
    elif n.op == 'op' and n.a[0] == 'mod' and isc(n.a[2]):
        r = (0, n.a[2].a[0] - 1)
    elif n.op == 'op' and n.a[0] == 'div' and isc(n.a[2]) and n.a[2].a[0] > 0:
        l, h = bounds(n.a[1])
        c = n.a[2].a[0]
        r = (l // c if l > -inf else l, h // c if h < inf else h)
    elif n.op == 'op' and n.a[0] in ('min', 'max'):
        b = [bounds(x) for x in n.a[1:]]
        f = min if n.a[0] == 'min' else max
        r = (f(x[0] for x in b), f(x[1] for x in b))
    elif n.ty in TYR:
        r = TYR[n.ty]
    else:
        r = (-inf, inf)
    _bmemo[n] = r
    return r


def _im(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b


# ---------------------------------------------------------------- bit vectors
DATA = ('u8', 'u16', 'u32')


def isatom(n):
    return n.ty in DATA and n.op in ('load', 'op', 'sym', 'mu')


def hasdata(n):
    if n.op == 'slice' or isatom(n):
        return True
    return n.op == 'poly' and any(len(m) == 1 and (m[0].op == 'slice' or isatom(m[0])) for m, _ in n.a)


_bitmemo = {}


def bitsof(n):
    """list of bits LSB first (0, 1 or (atom, i)), or None"""
    if n.op == 'c':
        v = n.a[0]
        if v < 0:
            return None
        return [(v >> i) & 1 for i in range(v.bit_length())]
    if n.op == 'slice':
        return [(n.a[0], i) for i in range(n.a[1], n.a[2])]
    if isatom(n):
        return [(n, i) for i in range(WIDTH[n.ty])]
    if n.op != 'poly':
        return None
    if n in _bitmemo:
        return _bitmemo[n]
    out = {}
    for m, c in n.a:
        if c <= 0:
            out = None
            break
        if not m:
            b, sh = bitsof(C(c)), 0
        elif len(m) == 1 and c & (c - 1) == 0:
            b, sh = bitsof(m[0]), c.bit_length() - 1
        else:
            b = None
        if b is None:
            out = None
            break
        for i, x in enumerate(b):
            if x != 0:
                if i + sh in out:
                    out = None
                    break
                out[i + sh] = x
        if out is None:
            break
    r = None
    if out is not None:
        r = [out.get(i, 0) for i in range(max(out) + 1)]
    _bitmemo[n] = r
    return r


def mkslice(atom, lo, hi):
    if lo == 0 and hi >= WIDTH[atom.ty]:
        return atom
    return mk('slice', (atom, lo, hi))


def frombits(b):
    t = {}
    i = 0
    n = len(b)
    while i < n:
        x = b[i]
        if x == 0:
            i += 1
            continue
        if x == 1:
            t[()] = t.get((), 0) + (1 << i)
            i += 1
            continue
        j = i + 1
        while j < n and isinstance(b[j], tuple) and b[j][0] is x[0] and b[j][1] == x[1] + (j - i):
            j += 1
        s = mkslice(x[0], x[1], x[1] + (j - i))
        t[(s,)] = t.get((s,), 0) + (1 << i)
        i = j
    return poly(t)


def normsum(p):
    """merge bit slices of one source that an addition put side by side"""
    if p.op == 'poly' and any(len(m) == 1 and m[0].op == 'slice' for m, _ in p.a):
        b = bitsof(p)
        if b is not None:
            return frombits(b)
    return p


def _take(t, part, rest, k):
    """remove k * rest * part from the term table t; None unless every term of it is there in full"""
    u = dict(t)
    for m, c in terms(part).items():
        mm = tuple(sorted(m + rest, key=lambda x: x.dig))
        if u.get(mm, 0) != c * k:
            return None
        del u[mm]
    return u


def divsum(p):
    """x - c*(x/c) is x mod c; c*(x/c) + x mod c is x"""
    if p.op != 'poly':
        return p
    again = True
    while again and p.op == 'poly':
        again = False
        t = dict(p.a)
        for m, v in p.a:
            for i, q in enumerate(m):
                rest = m[:i] + m[i + 1:]
                x = None
                if q.op == 'op' and q.a[0] == 'div' and v % q.a[2].a[0] == 0:
                    x, k, mod = q.a[1], v // q.a[2].a[0], lambda q=q: fmod(q.a[1], q.a[2].a[0])
                    full = x
                elif q.op == 'op' and q.a[0] == 'udiv' and q.a[2] in rest:
                    x, k = q.a[1], v
                    r = list(rest)
                    r.remove(q.a[2])
                    rest = tuple(r)
                    mod = lambda q=q: mk('op', ('umod', q.a[1], q.a[2]), q.ty)
                elif q.op == 'slice' and q.a[1] > 0 and v % (1 << q.a[1]) == 0 and q.a[2] >= WIDTH.get(q.a[0].ty, 999):
                    x, k, mod = q.a[0], v >> q.a[1], lambda q=q: mkslice(q.a[0], 0, q.a[1])
                if x is None:
                    continue
                u = dict(t)
                del u[m]
                w = _take(u, x, rest, -k)
                if w is not None:
                    p = _padd(poly(w), _pmul(poly({rest: -k}), mod()))
                    again = True
                    break
                if q.op == 'op':
                    md = mod()
                    if not isc(md) and len(terms(md)) == 1:
                        w = _take(u, md, rest, k)
                        if w is not None:
                            p = _padd(poly(w), _pmul(poly({rest: k}), x))
                            again = True
                            break
            if again:
                break
    return p


def trunc(p, ty):
    """wrap a non-negative left shift to an unsigned type where the bits are known"""
    lo, hi = bounds(p)
    r = TYR.get(ty)
    if r is None or (lo >= r[0] and hi <= r[1]):
        return p
    if r[0] == 0:
        b = bitsof(p)
        if b is not None:
            return frombits(b[:WIDTH[ty]])
    return p


def SHL(a, b, ty):
    def f(x, y):
        if x.opq or y.opq:
            return opaque(why_opaque(x, y), ty)
        if isc(y) and 0 <= y.a[0] < 128:
            c = y.a[0]
            if isc(x):
                v = x.a[0] << c
                return C(wrapint(v, ty))
            return trunc(scale(x, 1 << c), ty)
        if isc(x) and x.a[0] == 0:
            return ZERO
        return mk('op', ('shl', x, y), ty)
    return lift(f, a, b)


def wrapint(v, ty):
    if ty not in WIDTH:
        return v
    w = WIDTH[ty]
    v &= (1 << w) - 1
    if TYR[ty][0] < 0 and v >> (w - 1):
        v -= 1 << w
    return v


def SHR(a, b, ty):
    def f(x, y):
        if x.opq or y.opq:
            return opaque(why_opaque(x, y), ty)
        if isc(y) and 0 <= y.a[0] < 128:
            c = y.a[0]
            if isc(x):
                return C(x.a[0] >> c)
            return fdiv(x, 1 << c)
        if isc(x) and x.a[0] == 0:
            return ZERO
        return mk('op', ('shr', x, y), ty)
    return lift(f, a, b)


def fdiv(x, c):
    """floor division by positive constant"""
    if c == 1:
        return x
    if isc(x):
        return C(x.a[0] // c)
    if c & (c - 1) == 0:
        b = bitsof(x)
        if b is not None:
            return frombits(b[c.bit_length() - 1:])
    t = terms(x)
    whole = {m: v // c for m, v in t.items() if v % c == 0}
    rest = {m: v for m, v in t.items() if v % c}
    # constant part: split into quotient and remainder
    if () in rest and len(rest) > 1:
        q, r = divmod(rest[()], c)
        rest[()] = r
        whole[()] = whole.get((), 0) + q
    w = poly(whole)
    if not rest:
        return w
    r = poly(rest)
    if isc(r):
        return _padd(w, C(r.a[0] // c))
    g = c
    for m, v in terms(r).items():
        g = gcd(g, v)
    if g > 1:
        r = poly({m: v // g for m, v in terms(r).items()})
        c //= g
        if c == 1:
            return _padd(w, r)
    # nested floor division
    if r.op == 'op' and r.a[0] == 'div' and isc(r.a[2]):
        return _padd(w, mk('op', ('div', r.a[1], C(r.a[2].a[0] * c)), r.ty))
    lo, hi = bounds(r)
    if 0 <= lo and hi < c:
        return w
    return _padd(w, mk('op', ('div', r, C(c)), 'usize' if lo >= 0 else 'isize'))


def fmod(x, c):
    if isc(x):
        return C(x.a[0] % c)
    if c & (c - 1) == 0:
        b = bitsof(x)
        if b is not None:
            return frombits(b[:c.bit_length() - 1])
    t = {m: v % c for m, v in terms(x).items()}
    r = poly(t)
    if isc(r):
        return C(r.a[0] % c)
    lo, hi = bounds(r)
    if lo >= 0 and hi < c:
        return r
    return mk('op', ('mod', r, C(c)), 'usize')


def DIV(a, b, ty):
    def f(x, y):
        if x.opq or y.opq:
            return opaque(why_opaque(x, y), ty)
        if isc(y) and y.a[0] > 0 and (bounds(x)[0] >= 0 or TYR.get(ty, (0, 0))[0] == 0):
            return fdiv(x, y.a[0])
        if isc(x) and isc(y) and y.a[0]:
            q = abs(x.a[0]) // abs(y.a[0])
            return C(q if (x.a[0] < 0) == (y.a[0] < 0) else -q)
        if isc(y) and y.a[0] == 1:
            return x
        # exact polynomial division by one monomial factor
        if TYR.get(ty, (0, 0))[0] == 0:
            ty_, = terms(y).items() if len(terms(y)) == 1 else (None,)
            if ty_ is not None and ty_[0]:
                m2, c2 = ty_
                out = {}
                for m, c in terms(x).items():
                    mm = list(m)
                    ok = c % c2 == 0
                    for z in m2:
                        if z in mm:
                            mm.remove(z)
                        else:
                            ok = False
                    if not ok:
                        out = None
                        break
                    out[tuple(mm)] = c // c2
                if out is not None:
                    return poly(out)
            if x.op == 'op' and x.a[0] == 'udiv':
                return mk('op', ('udiv', x.a[1], _pmul(x.a[2], y)), ty)
            return mk('op', ('udiv', x, y), ty)
        return mk('op', ('sdiv', x, y), ty)
    return lift(f, a, b)


def REM(a, b, ty):
    def f(x, y):
        if x.opq or y.opq:
            return opaque(why_opaque(x, y), ty)
        if isc(y) and y.a[0] > 0 and (bounds(x)[0] >= 0 or TYR.get(ty, (0, 0))[0] == 0):
            return fmod(x, y.a[0])
        if TYR.get(ty, (0, 0))[0] == 0:
            return mk('op', ('umod', x, y), ty)
        return mk('op', ('srem', x, y), ty)
    return lift(f, a, b)


def BITAND(a, b, ty):
    def f(x, y):
        if x.opq or y.opq:
            return opaque(why_opaque(x, y), ty)
        if isc(x) and isc(y):
            return C(x.a[0] & y.a[0])
        if isc(x):
            x, y = y, x
        if isc(y):
            m = y.a[0]
            if m == 0:
                return ZERO
            bx = bitsof(x)
            if bx is not None and m > 0:
                return frombits([bx[i] if (m >> i) & 1 else 0 for i in range(min(len(bx), m.bit_length()))])
            if m == -1:
                return x
            if m > 0 and m & (m + 1) == 0:
                return fmod(x, m + 1) if bounds(x)[0] >= 0 or True else None
            lo, hi = bounds(x)
        if x is y:
            return x
        bx, by = bitsof(x), bitsof(y)
        if bx is not None and by is not None and True:
            out = []
            for p, q in zip(bx, by):
                if p == 0 or q == 0:
                    out.append(0)
                elif p == 1:
                    out.append(q)
                elif q == 1 or p == q:
                    out.append(p)
                else:
                    out = None
                    break
            if out is not None:
                return frombits(out)
        x, y = sorted((x, y), key=lambda z: z.dig)
        return mk('op', ('and', x, y), ty)
    return lift(f, a, b)


def BITOR(a, b, ty):
    def f(x, y):
        if x.opq or y.opq:
            return opaque(why_opaque(x, y), ty)
        if isc(x) and isc(y):
            return C(x.a[0] | y.a[0])
        if isc(x) and x.a[0] == 0:
            return y
        if isc(y) and y.a[0] == 0 or x is y:
            return x
        bx, by = bitsof(x), bitsof(y)
        if bx is not None and by is not None:
            out = []
            for i in range(max(len(bx), len(by))):
                p = bx[i] if i < len(bx) else 0
                q = by[i] if i < len(by) else 0
                if p == 0:
                    out.append(q)
                elif q == 0 or p == q:
                    out.append(p)
                elif p == 1 or q == 1:
                    out.append(1)
                else:
                    out = None
                    break
            if out is not None:
                return frombits(out)
        # (2^n * stuff) | small  ==  sum
        for p, q in ((x, y), (y, x)):
            lo, hi = bounds(q)
            if lo >= 0 and hi < float('inf'):
                n = int(hi).bit_length()
                if n < 40 and all(c % (1 << n) == 0 for c in terms(p).values()):
                    return normsum(_padd(p, q))
        x, y = sorted((x, y), key=lambda z: z.dig)
        return mk('op', ('or', x, y), ty)
    return lift(f, a, b)


def BITXOR(a, b, ty):
    def f(x, y):
        if x.opq or y.opq:
            return opaque(why_opaque(x, y), ty)
        if isc(x) and isc(y):
            return C(x.a[0] ^ y.a[0])
        if x is y:
            return ZERO
        if isc(x) and x.a[0] == 0:
            return y
        if isc(y) and y.a[0] == 0:
            return x
        xs = []
        for z in (x, y):
            if z.op == 'op' and z.a[0] == 'xor':
                xs += list(z.a[1:])
            else:
                xs.append(z)
        xs.sort(key=lambda z: z.dig)
        return mk('op', ('xor',) + tuple(xs), ty)
    return lift(f, a, b)


def WRAP(x, ty):
    """a sum that may have wrapped in its type before something else looks at it"""
    if x.op == 'ite':
        return lift(lambda y: WRAP(y, ty), x)
    if x.op == 'poly' and WIDTH.get(ty, 64) < 64 and bounds(x)[1] > TYR[ty][1] \
            and not any(y.op in ('k', 'mu', 'muexit', 'ite') for m, c in x.a for y in m):
        return mk('op', ('cast:' + ty, x), ty)
    return x


def CAST(x, src, dst):
    """integer to integer"""
    def f(x):
        if x.opq:
            return opaque(why_opaque(x), dst)
        if x is TRUE or x is FALSE:
            return C(1 if x is TRUE else 0)
        if isc(x):
            return C(wrapint(x.a[0], dst))
        s = TYR.get(src)
        d = TYR.get(dst)
        if s is None or d is None:
            return mk('op', ('cast', x), dst)
        if s[1] < d[1] and d[0] <= s[0]:
            y = WRAP(x, src)
            if y is not x:
                return y
        lo, hi = bounds(x)
        lo, hi = max(lo, s[0]), min(hi, s[1])
        if d[0] <= lo and hi <= d[1]:
            return x
        if dst in ('u32', 'i32', 'isize', 'i64') and x.ty != 'u64' and all(len(m) <= 1 and all(y.op == 'k' for y in m) and abs(c) < 1 << 16 for m, c in terms(x).items()):
            return x       # loops do not run 2^31 times
        if d[0] == 0:
            b = bitsof(x)
            if b is not None:
                return frombits(b[:WIDTH[dst]])
            # drop inner casts that the outer one makes redundant
            while x.op == 'op' and x.a[0].startswith('cast:') and WIDTH.get(x.ty, 0) >= WIDTH[dst] and x.ty in WIDTH:
                x = x.a[1]
                lo, hi = bounds(x)
                if x.ty in TYR and d[0] <= lo and hi <= d[1]:
                    return x
        return mk('op', ('cast:' + dst, x), dst)
    if src == 'bool':
        return lift(f, asdd(x) if x.op not in ('T', 'F', 'ite') else x)
    if x.op == 'ite' and src in ('isize', 'i64', 'i32') and dst in ('usize', 'u64') and ddsize(x) <= 200:
        memo = {}

        def go(n, known):
            r = memo.get((n, known))
            if r is not None:
                return r
            if n.op != 'ite':
                r = n if any(q.op == 'c' and q.a[0] >= 0 for q in (_padd(n, scale(k, -1)) for k in known)) else f(n)
            else:
                v, hi, lo = n.a
                kt = kf = known
                if v.op == 'ge0':
                    kt = known | {v.a[0]}
                    kf = known | {_padd(scale(v.a[0], -1), C(-1))}
                r = ITE(mk('ite', (v, TRUE, FALSE)), go(hi, kt), go(lo, kf))
            memo[(n, known)] = r
            return r
        return go(x, frozenset())
    return lift(f, x)


# ---------------------------------------------------------------- conditions
def quot(x):
    """(q, c) when x is floor(q / c)"""
    if x.op == 'op' and x.a[0] == 'div' and isc(x.a[2]):
        return x.a[1], x.a[2].a[0]
    if x.op == 'slice' and x.a[1] > 0 and x.a[2] == 64 and x.a[0].ty in ('usize', 'u64'):
        return x.a[0], 1 << x.a[1]
    return None


LONG = [False]      # assume that the input slices of the function are as long as anything asked of them


def longsign(p):
    """1 / -1: p is beyond any bound because an input is; 0: not decided by that"""
    s = 0
    for m, c in terms(p).items():
        b = [x for x in m if _islong(x)]
        if b:
            if len(m) > 1:
                return 0
            d = 1 if c > 0 else -1
            if s not in (0, d):
                return 0
            s = d
    return s


def _islong(x):
    if x.op == 'op' and x.a[0] == 'len':
        return x.a[1].op == 'sym' and str(x.a[1].a[0])[:1] == 'a' and str(x.a[1].a[0])[1:].isdigit()
    if x.op == 'op' and x.a[0] in ('div', 'udiv') and isc(x.a[2]) and x.a[2].a[0] > 0 or x.op == 'op' and x.a[0] == 'max0':
        return longsign(x.a[1]) > 0
    if x.op == 'slice':
        return x.a[2] == 64 and longsign(x.a[0]) > 0
    return False


def GE0(p):
    def f(p):
        if p.opq:
            return asdd(opaque('comparison of opaque', 'bool', p))
        if LONG[0]:
            s = longsign(p)
            if s:
                return TRUE if s > 0 else FALSE
        lo, hi = bounds(p)
        if lo >= 0:
            return TRUE
        if hi < 0:
            return FALSE
        t = terms(p)
        ds = [(m[0], v) for m, v in t.items() if len(m) == 1 and quot(m[0])]
        if len(ds) == 1 and abs(ds[0][1]) == 1 and len(t) > 1:
            # floor(q/c) + r >= 0  <=>  q + c*r >= 0 ;  r - floor(q/c) >= 0  <=>  c*r - q + c-1 >= 0
            x, sg = ds[0]
            q, c = quot(x)
            r = poly({m: v for m, v in t.items() if m != (x,)})
            return GE0(ADD(scale(r, c), q) if sg > 0 else ADD(ADD(scale(r, c), scale(q, -1)), C(c - 1)))
        c0 = t.pop((), 0)
        g = 0
        for v in t.values():
            g = gcd(g, v)
        if g > 1:
            t = {m: v // g for m, v in t.items()}
            c0 = c0 // g
        if len(t) == 1:
            # a product of non-negative factors is positive when each of them is
            (m, v), = t.items()
            if len(m) > 1 and (v, c0) in ((1, -1), (-1, 0)) and all(bounds(x)[0] >= 0 for x in m):
                r = TRUE
                for x in m:
                    r = AND(r, GE0(_padd(x, C(-1))))
                return r if v == 1 else NOT(r)
        lead = max(t.items(), key=lambda mc: _dk(mc[0]))
        if lead[1] < 0:
            # p>=0  <=>  not(-p-1>=0)
            t = {m: -v for m, v in t.items()}
            t[()] = -c0 - 1
            return NOT(mk('ge0', (poly(t),), 'bool'))
        t[()] = c0
        return asdd(mk('ge0', (poly(t),), 'bool'))
    return lift(f, p)


def EQ0(p):
    def f(p):
        if p.opq:
            return asdd(opaque('comparison of opaque', 'bool', p, FALSE))
        if LONG[0] and longsign(p):
            return FALSE
        if isc(p):
            return B(p.a[0] == 0)
        lo, hi = bounds(p)
        if lo > 0 or hi < 0:
            return FALSE
        t = terms(p)
        c0 = t.pop((), 0)
        g = 0
        for v in t.values():
            g = gcd(g, v)
        if c0 % g:
            return FALSE
        lead = max(t.items(), key=lambda mc: _dk(mc[0]))
        s = -1 if lead[1] < 0 else 1
        t = {m: s * v // g for m, v in t.items()}
        c0 = s * c0 // g
        t[()] = c0
        if len(t) == 2 and not c0:
            m = next(m for m in t if m)
            if len(m) > 1:
                # a product is zero when one of its factors is
                r = FALSE
                for x in m:
                    r = OR(r, EQ0(x))
                return r
        # x >= 0 and only boundary value possible: x==0 <=> !(x>=1)
        q = poly(t)
        l2, h2 = bounds(q)
        if l2 == 0:
            return NOT(GE0(_padd(q, C(-1))))
        if h2 == 0:
            return NOT(GE0(_padd(scale(q, -1), C(-1))))
        return asdd(mk('eq0', (q,), 'bool'))
    return lift(f, p)


def CMP(op, a, b, ty):
    """op in Eq Ne Lt Le Gt Ge; ty operand type"""
    if ty in ('f32', 'f64'):
        def ff(x, y):
            if x.op == 'fl' and y.op == 'fl':
                u, v = float(x.a[0]), float(y.a[0])
                return B({'Eq': u == v, 'Ne': u != v, 'Lt': u < v, 'Le': u <= v, 'Gt': u > v, 'Ge': u >= v}[op])
            if op in ('Eq', 'Ne'):
                x, y = sorted((x, y), key=lambda z: z.dig)
                c = asdd(mk('op', ('feq', x, y), 'bool'))
                return NOT(c) if op == 'Ne' else c
            if op in ('Gt', 'Ge'):
                x, y = y, x
            c = asdd(mk('op', ('flt', x, y), 'bool'))
            if op in ('Le', 'Ge'):
                x, y = sorted((x, y), key=lambda z: z.dig)
                c = OR(c, asdd(mk('op', ('feq', x, y), 'bool')))
            return c
        return lift(ff, a, b)
    if ty == 'bool':
        x, y = asdd(a), asdd(b)
        eq = ITE(x, y, NOT(y))
        if op == 'Eq':
            return eq
        if op == 'Ne':
            return NOT(eq)
        return asdd(opaque('bool order'))
    d = SUB(a, b)
    if op == 'Eq':
        return EQ0(d)
    if op == 'Ne':
        return NOT(EQ0(d))
    if op == 'Ge':
        return GE0(d)
    if op == 'Lt':
        return NOT(GE0(d))
    d2 = SUB(b, a)
    if op == 'Le':
        return GE0(d2)
    return NOT(GE0(d2))


def MIN(a, b, ty='usize'):
    return _mm('min', a, b, ty)


def MAX(a, b, ty='usize'):
    return _mm('max', a, b, ty)


def _mm(nm, a, b, ty):
    def f(x, y):
        if x is y:
            return x
        d = _padd(x, scale(y, -1))
        lo, hi = bounds(d)
        if lo >= 0:
            return y if nm == 'min' else x
        if hi <= 0:
            return x if nm == 'min' else y
        # as a decision: the same form an explicit `if` produces
        c = GE0(d)
        return ITE(c, y, x) if nm == 'min' else ITE(c, x, y)
    return lift(f, a, b)


# ---------------------------------------------------------------- aggregates
def AGG(adt, variant, fields):
    return mk('agg', (adt, variant, tuple(fields)))


def load(arr, idx, ty):
    def f(a, i):
        return load1(a, i, ty)
    return lift(f, arr, idx)


def _arrlen(a):
    return length(a)


def load1(a, i, ty):
    while True:
        if a.op == 'upd':
            d = _padd(a.a[1], scale(i, -1)) if a.a[1].op != 'ite' else None
            if d is None:
                break
            if isc(d):
                if d.a[0] == 0:
                    return a.a[2]
                a = a.a[0]
                continue
            lo, hi = bounds(d)
            if lo > 0 or hi < 0:
                a = a.a[0]
                continue
            break
        if a.op == 'push':
            n = length(a.a[0])
            d = _padd(n, scale(i, -1)) if n.op != 'ite' else None
            if d is not None and isc(d):
                if d.a[0] == 0:
                    return a.a[1]
                a = a.a[0]
                continue
            break
        if a.op == 'view':
            i = _padd(i, a.a[1])
            a = a.a[0]
            if a.op == 'ite' or i.op == 'ite':
                return load(a, i, ty)
            continue
        if a.op == 'fill':
            return a.a[0]
        if a.op == 'gen':
            if i.loops & GKS and gendepth(a.a[1]):
                break       # would capture
            return subst(a.a[1], {GK(gendepth(a.a[1]) + 1): i})
        if a.op == 'arr' and isc(i):
            k = i.a[0]
            if 0 <= k < len(a.a[0]):
                return a.a[0][k]
            return opaque('constant index out of range', ty)
        if a.op == 'arr' and a.a[0] and all(x is a.a[0][0] for x in a.a[0]):
            return a.a[0][0]
        break
    if a.op == 'opaque':
        return opaque(why_opaque(a), ty)
    return mk('load', (a, i), ty)


def store(arr, idx, val):
    def f(a, i):
        if a.op == 'arr' and isc(i) and 0 <= i.a[0] < len(a.a[0]):
            l = list(a.a[0])
            l[i.a[0]] = val
            return mk('arr', (tuple(l),))
        if a.op == 'fill' and isc(i) and isc(a.a[1]) and a.a[1].a[0] <= 64 and i.a[0] < a.a[1].a[0]:
            l = [a.a[0]] * a.a[1].a[0]
            l[i.a[0]] = val
            return mk('arr', (tuple(l),))
        # canonical order for independent stores, overwrite for equal index
        if a.op == 'upd' and a.a[1].op != 'ite':
            d = _padd(a.a[1], scale(i, -1))
            if isc(d):
                if d.a[0] == 0:
                    return f(a.a[0], i)
                if a.a[1].dig > i.dig:
                    return covered(mk('upd', (f(a.a[0], i), a.a[1], a.a[2])))
        return covered(mk('upd', (a, i, val)))
    return lift(f, arr, idx)


def covered(u):
    """an array all of whose elements have been written"""
    es, a = {}, u
    while a.op == 'upd' and isc(a.a[1]):
        es.setdefault(a.a[1].a[0], a.a[2])
        a = a.a[0]
    if len(es) > 16 or a.op in ('upd', 'arr', 'fill', 'ite'):
        return u
    n = length(a)
    if isc(n) and n.a[0] == len(es) and set(es) == set(range(len(es))):
        return mk('arr', (tuple(es[i] for i in range(len(es))),))
    return u


def length(a):
    def f(a):
        while True:
            if a.op in ('upd', 'loopupd'):
                a = a.a[0]
                continue
            if a.op == 'op' and a.a[0] == 'blit':
                a = a.a[1]
                continue
            break
        if a.op == 'fill':
            return a.a[1]
        if a.op == 'gen':
            return a.a[0]
        if a.op == 'arr':
            return C(len(a.a[0]))
        if a.op == 'push':
            return _padd(length(a.a[0]), ONE)
        if a.op == 'view':
            return a.a[2]
        if a.op == 'str':
            return C(len(a.a[0].encode()))
        if a.op == 'opaque':
            return opaque('length of opaque', 'usize')
        if a.op == 'op' and a.a[0] == 'cut' and a not in LENOF:
            ls = {f(x) for x in dleaves(a.a[1])}
            if len(ls) == 1:
                return ls.pop()
        if a in LENOF:
            return LENOF[a]
        if isinstance(a.ty, str) and a.ty.startswith('array:'):
            return C(int(a.ty[6:]))
        return mk('op', ('len', a), 'usize')
    return lift(f, a)


LENOF = {}

# gen(n, e): the sequence of e for gk = 0..n-1; the bound variable is numbered by how deep such sequences nest in e
GKS = set()
_gdepth = {}


def GK(d):
    x = mk('gk', (d,), 'usize')
    GKS.add(x.dig)
    return x


def gendepth(e):
    r = _gdepth.get(e)
    if r is None:
        r = max([gendepth(x) for x in children(e)] or [0])
        if e.op == 'gen':
            r += 1
        _gdepth[e] = r
    return r


def FILL(v, n):
    if isc(n) and 0 < n.a[0] <= 16:
        return mk('arr', ((v,) * n.a[0],))
    return mk('fill', (v, n))


def GEN(n, k, e):
    if isc(n) and 0 < n.a[0] <= 16:
        return mk('arr', (tuple(subst(e, {k: C(i)}) for i in range(n.a[0])),))
    if k.dig not in e.loops:
        return FILL(e, n)
    return mk('gen', (n, subst(e, {k: GK(gendepth(e) + 1)})))


def view(x, off, ln):
    if x.op == 'view':
        return view(x.a[0], ADD(x.a[1], off), ln)
    if isc(off) and off.a[0] == 0 and x.op != 'ite' and ln is length(x):
        return x
    return mk('view', (x, off, ln))


# ---------------------------------------------------------------- substitution
def subst(n, m, memo=None):
    """replace nodes by map m (keys: loop symbols); rebuilds canonically"""
    if memo is None:
        memo = {}
    keys = frozenset(k.dig for k in m)

    def go(x):
        if x in m:
            return m[x]
        if not (x.loops & keys):
            return x
        r = memo.get(x)
        if r is not None:
            return r
        r = rebuild(x, go)
        memo[x] = r
        return r
    return go(n)


def _map(t, go):
    return tuple(go(y) if isinstance(y, N) else _map(y, go) if isinstance(y, tuple) else y for y in t)


def rebuild(x, go):
    op = x.op
    if op == 'poly':
        r = ZERO
        for m, c in x.a:
            t = C(c)
            for y in m:
                t = MUL(t, go(y))
            r = ADD(r, t)
        return r
    if op == 'slice':
        def fs(y):
            b = bitsof(y)
            if b is None:
                return fmod(fdiv(y, 1 << x.a[1]), 1 << (x.a[2] - x.a[1]))
            return frombits(b[x.a[1]:x.a[2]])
        return lift(fs, go(x.a[0]))
    if op == 'ite':
        c = go(x.a[0])
        return ITE(asdd(c), go(x.a[1]), go(x.a[2]))
    if op == 'ge0':
        return GE0(go(x.a[0]))
    if op == 'eq0':
        return EQ0(go(x.a[0]))
    if op == 'load':
        return load(go(x.a[0]), go(x.a[1]), x.ty)
    if op == 'upd':
        return store(go(x.a[0]), go(x.a[1]), go(x.a[2]))
    if op == 'view':
        return view(go(x.a[0]), go(x.a[1]), go(x.a[2]))
    if op == 'op':
        nm = x.a[0]
        xs = [go(y) if isinstance(y, N) else y for y in x.a[1:]]
        if nm == 'div':
            return lift(lambda p: fdiv(p, x.a[2].a[0]), xs[0])
        if nm == 'mod':
            return lift(lambda p: fmod(p, x.a[2].a[0]), xs[0])
        if nm == 'len':
            return length(xs[0])
        if nm == 'udiv':
            return DIV(xs[0], xs[1], x.ty or 'usize')
        if nm == 'umod':
            return REM(xs[0], xs[1], x.ty or 'usize')
        if nm == 'shl':
            return SHL(xs[0], xs[1], x.ty)
        if nm == 'shr':
            return SHR(xs[0], xs[1], x.ty)
        if nm.startswith('cast:'):
            return CAST(xs[0], None, x.ty) if False else lift(lambda p: _recast(p, x.ty), xs[0])
        r = mk('op', (nm,) + tuple(xs), x.ty)
        if x in LENOF and r not in LENOF:
            LENOF[r] = go(LENOF[x])
        return r
    r = mk(op, _map(x.a, go), x.ty)
    if x in LENOF and r not in LENOF:
        LENOF[r] = go(LENOF[x])
    return r


def _recast(p, dst):
    if p.opq:
        return opaque('cast', dst)
    if isc(p):
        return C(wrapint(p.a[0], dst))
    lo, hi = bounds(p)
    d = TYR[dst]
    if d[0] <= lo and hi <= d[1]:
        return p
    b = bitsof(p)
    if b is not None and d[0] == 0:
        return frombits(b[:WIDTH[dst]])
    return mk('op', ('cast:' + dst, p), dst)


# ---------------------------------------------------------------- comparisons that follow from others
def _nonneg(t):
    """lower bound of a linear combination {monomial: coefficient} is at least 0?"""
    lo = 0
    for m, c in t.items():
        ml, mh = 1, 1
        for x in m:
            xl, xh = bounds(x)
            cands = [_im(p, q) for p in (ml, mh) for q in (xl, xh)]
            ml, mh = min(cands), max(cands)
        lo += min(_im(ml, c), _im(mh, c))
    return lo >= 0


def follows(P, q):
    """P >= 0 implies q >= 0, as q = k*P + r with k > 0 and r >= 0?  (both: {monomial: coefficient})"""
    for m in P:
        if not m or m not in q:
            continue
        k = Fraction(q[m], P[m])
        if k <= 0:
            continue
        r = dict(q)
        for x, c in P.items():
            r[x] = r.get(x, 0) - k * c
        if _nonneg({x: c for x, c in r.items() if c}):
            return True
    return False


def _neg(t):
    r = {m: -c for m, c in t.items()}
    r[()] = r.get((), 0) - 1
    return r


def prune(n, size=600):
    """drop cases of a decision diagram that cannot arise because one comparison decides another"""
    if n.op == 'agg':
        return mk('agg', (n.a[0], n.a[1], tuple(prune(x) for x in n.a[2])))
    if n.op != 'ite' or ddsize(n) > size:
        return n

    def go(n, ctx):
        if n.op != 'ite':
            return n
        v = n.a[0]
        if v.op == 'ge0':
            q = terms(v.a[0])
            nq = _neg(q)
            for P in ctx:
                if follows(P, q):
                    return go(n.a[1], ctx)
                if follows(P, nq):
                    return go(n.a[2], ctx)
            return mknode(v, go(n.a[1], ctx + [q]), go(n.a[2], ctx + [nq]))
        return mknode(v, go(n.a[1], ctx), go(n.a[2], ctx))
    return go(n, [])
