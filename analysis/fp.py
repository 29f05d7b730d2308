"""Order-independent fingerprints of value-graph nodes.

The value graph is hash-consed and its decision diagrams are ordered by node
digests, so the digest of a node depends on the names of the symbols in it.
The fingerprint does not: it interprets a term in the field of integers modulo
a prime (Gulwani/Necula style interpretation of the *term algebra*; nothing of
the analysed program is evaluated).  Polynomials are evaluated, decision
diagrams are replaced by their expectation under a pseudo-random measure on
every tested quantity (x >= c, x == c, string equality, exit of a loop), and
all other operators are hashed.  Terms that denote the same function of their
leaves get the same fingerprint whatever the order of tests."""
import hashlib
from nodes import *
import nodes

P = 2 ** 127 - 1
COMM = {'feq', 'eq', 'streq', 'fmin', 'fmax', 'fadd', 'fmul', 'and', 'or', 'xor', 'wadd', 'wmul'}
TYPED = {'shl', 'shr', 'sdiv', 'srem'}
EXITFAM = {}


def H(*xs):
    return int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=16).digest(), 'big') % P


def inv(x):
    return pow(x, P - 2, P)


KPUSH, KPUSH2, KPUSH3 = H('push', 1), H('push', 2), H('push', 3)


class FP:
    def __init__(self, env=None, base=None):
        self.env = env or {}
        self.keys = frozenset(m.dig for m in self.env)
        self.base = base
        self.memo = {}
        self.dmemo = {}
        self.fam = {}
        self.famof = {}

    # ---- values
    def fp(self, n):
        return self.exp(n, ())

    def exp(self, n, ctx):
        """fingerprint given what the path already fixed.
        ctx: sorted tuple of (family key, state)"""
        if ctx:
            fs = self.fams(n)
            if not fs:
                ctx = ()
            else:
                ctx = tuple(x for x in ctx if x[0] in fs)
        if self.base is not None and not (n.loops & self.keys):
            return self.base.exp(n, ctx)
        if not ctx:
            r = self.memo.get(n)
            if r is None:
                r = self._exp(n, ctx)
                self.memo[n] = r
            return r
        key = (n, ctx)
        r = self.dmemo.get(key)
        if r is None:
            r = self._exp(n, ctx)
            self.dmemo[key] = r
        return r

    def _exp(self, n, ctx):
        op, a = n.op, n.a
        if op == 'c':
            return a[0] % P
        if op == 'T':
            return 1
        if op == 'F':
            return 0
        if op == 'mu':
            if n in self.env:
                return H('mu', self.env[n])
            return H('mu', a[1], sorted(self.exp(x, ctx) for x in a[2]))
        if op == 'k':
            return H('k', a[0])
        if op == 'poly':
            r = 0
            for m, c in a:
                v = c % P
                for x in m:
                    v = v * self.exp(x, ctx) % P
                r = (r + v) % P
            return r
        if op == 'ite':
            return self.expite(n, ctx)
        if op in ('ge0', 'eq0'):
            return self.expite(mk('ite', (n, TRUE, FALSE)), ctx)
        if op == 'upd':
            return self.updchain(n, ctx)
        if op == 'push':
            return (self.exp(a[0], ctx) * KPUSH + self.exp(a[1], ctx) * KPUSH2 + KPUSH3) % P
        if op == 'op':
            if a[0] in ('max0', 'cut'):
                return self.exp(a[1], ctx)
            xs = [self.exp(x, ctx) if isinstance(x, N) else self.tup(x, ctx) for x in a[1:]]
            if a[0] in COMM:
                xs = sorted(xs, key=repr)
            elif a[0] in ('exits', 'kexit'):
                xs = xs[1:3] + sorted(xs[3:])
            return H('op', a[0], xs, n.ty if a[0] in TYPED else None)
        return H(op, self.tup(a, ctx))

    def tup(self, x, ctx):
        if isinstance(x, N):
            return self.exp(x, ctx)
        if isinstance(x, tuple):
            return tuple(self.tup(y, ctx) for y in x)
        return x

    def updchain(self, n, ctx):
        """an array after stores: linear in the stored values, F(upd(m,i,v)) = F(m) + h(i)*(v - m[i]), so that a
        store after a decision equals a store in each branch, and stores that cannot alias commute"""
        r = 0
        x = n
        while x.op == 'upd':
            m, i, v = x.a
            old = nodes.load(m, i, v.ty)
            r = (r + H('at', self.exp(i, ctx)) * (self.exp(v, ctx) - self.exp(old, ctx))) % P
            x = m
        return (r + self.exp(x, ctx)) % P

    # ---- decision diagrams: expectation given what the path already fixed
    def family(self, atom):
        """(family key, predicate).  predicate: ('ge', c) | ('eq', c) | ('is', weight)"""
        r = self.fam.get(atom)
        if r is not None:
            return r
        if self.base is not None and not (atom.loops & self.keys):
            r = self.base.family(atom)
        elif atom.op in ('ge0', 'eq0'):
            t = terms(atom.a[0])
            c0 = t.pop((), 0)
            x = poly(t)
            fx = self.fp(x)
            neg = (-fx) % P
            if fx <= neg:
                key = ('x', fx)
                # x + c0 >= 0
                pred = ('ge', -c0, True) if atom.op == 'ge0' else ('eq', -c0, True)
            else:
                key = ('x', neg)
                # y = -x ;  -y + c0 >= 0  <=>  y <= c0  <=>  not (y >= c0+1)
                pred = ('ge', c0 + 1, False) if atom.op == 'ge0' else ('eq', c0, True)
            r = (key, pred)
        elif atom.op == 'op' and atom.a[0] == 'streq' and atom.a[2].op == 'str':
            s = self.fp(atom.a[1])
            r = (('s', s), ('is', H('streq', s, atom.a[2].a[0]), True))
        elif atom.op == 'op' and atom.a[0] in nodes.FCMP:
            fs = [self.fp(x) for x in atom.a[1:]]
            ss = tuple(sorted(fs))
            r = (('f',) + ss, ('is', H(atom.a[0], *(ss if atom.a[0] == 'feq' else fs)), True))
        elif atom.op == 'op' and atom.a[0] == 'exits':
            key = (atom.a[2], sorted(self.fp(x) for x in atom.a[4:]))
            r = (('e', key[0], tuple(key[1])), ('is', EXITFAM[atom.a[2]][atom.a[3]], True))
        else:
            r = (('b', self.fp(atom)), ('is', H('atom', self.fp(atom)), True))
        self.fam[atom] = r
        return r

    def fams(self, n):
        """tested quantities anywhere in n"""
        r = self.famof.get(n)
        if r is not None:
            return r
        if self.base is not None and not (n.loops & self.keys):
            return self.base.fams(n)
        s = set()
        if n.op == 'ite':
            s.add(self.family(n.a[0])[0])
            s |= self.fams(n.a[1])
            s |= self.fams(n.a[2])
        else:
            if n.op in ('ge0', 'eq0'):
                s.add(self.family(n)[0])
            for c in children(n):
                s |= self.fams(c)
        r = frozenset(s)
        self.famof[n] = r
        return r

    def G(self, key, c):
        return H('G', key, c)

    def meas(self, key, st):
        """measure of what is left of a family.  st: ('x', lo, hi, excluded) | ('w', taken)"""
        if st[0] == 'x':
            _, lo, hi, ex = st
            v = (1 if lo is None else self.G(key, lo)) - (0 if hi is None else self.G(key, hi + 1))
            for e in ex:
                v -= self.G(key, e) - self.G(key, e + 1)
            return v % P
        return (1 - sum(st[1])) % P

    def split(self, key, st, pred):
        """states after the predicate holds / does not hold (None: impossible)"""
        kind, c, pos = pred
        if kind == 'is':
            st = st or ('w', ())
            if st[0] == 'one':
                t, f = (st, None) if st[1] == c else (None, st)
            elif c in st[1]:
                t, f = None, st
            else:
                t, f = ('one', c), ('w', tuple(sorted(st[1] + (c,))))
        else:
            st = st or ('x', None, None, ())
            _, lo, hi, ex = st
            if kind == 'ge':
                if lo is not None and lo >= c:
                    t, f = st, None
                elif hi is not None and hi < c:
                    t, f = None, st
                else:
                    t = ('x', c, hi, tuple(e for e in ex if e >= c))
                    f = ('x', lo, c - 1, tuple(e for e in ex if e < c))
            else:
                if (lo is not None and c < lo) or (hi is not None and c > hi) or c in ex:
                    t, f = None, st
                elif lo is not None and lo == hi == c:
                    t, f = st, None
                else:
                    t = ('x', c, c, ())
                    f = ('x', lo, hi, tuple(sorted(ex + (c,))))
            t, f = self.tidy(t), self.tidy(f)
        return (t, f) if pos else (f, t)

    def tidy(self, st):
        if st is None or st[0] != 'x':
            return st
        _, lo, hi, ex = st
        ex = list(ex)
        while lo is not None and lo in ex:
            ex.remove(lo)
            lo += 1
        while hi is not None and hi in ex:
            ex.remove(hi)
            hi -= 1
        if lo is not None and hi is not None and lo > hi:
            return None
        return ('x', lo, hi, tuple(ex))

    def expite(self, n, ctx):
        fk, pred = self.family(n.a[0])
        d = dict(ctx)
        st = d.get(fk)
        t, f = self.split(fk, st, pred)
        if f is None:
            return self.exp(n.a[1], ctx)
        if t is None:
            return self.exp(n.a[2], ctx)
        tot = 1 if st is None else self.meas(fk, st)
        # share of the true branch
        if t[0] == 'one':
            pt = t[1]
        elif f[0] == 'one':
            pt = (tot - f[1]) % P
        else:
            pt = self.meas(fk, t)
        pt = pt * inv(tot) % P
        ct = dict(d)
        ct[fk] = t
        cf = dict(d)
        cf[fk] = f
        srt = lambda q: tuple(sorted(q.items(), key=repr))
        return (pt * self.exp(n.a[1], srt(ct)) + (1 - pt) * self.exp(n.a[2], srt(cf))) % P


BASE = FP()


def _okey(atom):
    key, pred = BASE.family(atom)
    return (H(key), pred[0], pred[1], atom.dig)


nodes.OKEY[0] = _okey


def fp(n):
    return BASE.fp(n)


def fph(n):
    return '%032x' % BASE.fp(n)
