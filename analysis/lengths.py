"""C07: how long is the pixel data?  Derived, not compared.

For every function that returns a vector the length of the result is derived
from its value graph as a polynomial over its parameters (a summary).  The
length of an image's data, with the lengths of what the callees return replaced
by their summaries, must be width * height * samples per pixel as a polynomial,
case by case."""
import nodes
from nodes import *
from facts import *
import re

PARAM = re.compile(r'^a\d+$')
VEC = 'alloc::vec::Vec'


def params_only(n, memo=None):
    if n.loops or n.opq:
        return False
    todo, seen = [n], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'sym' and not PARAM.match(str(x.a[0])) or x.op in ('mu', 'opaque', 'gk'):
            return False
        todo += list(children(x))
    return True


class Lengths:
    def __init__(self, world, extra=()):
        self.w = world
        self.memo = {}
        self.busy = set()
        self.names = {}
        for q in world.anchors:
            self.names[q] = q
            if q.startswith('decoders::'):
                self.names[q[len('decoders::'):]] = q
        self.used = set()

    def vecret(self, q):
        """kind of result: ret / val (inside a Result or Option) / None"""
        bs = self.w.p.byqual.get(q, [])
        if len(bs) != 1:
            return None
        p = self.w.p
        t = p.types[bs[0].locals[0]]
        if t[0] != 'adt' and t[0] != 'tuple':
            return None
        if t[0] == 'tuple':
            return 'ret'
        if t[1] == VEC:
            return 'ret'
        if t[1] in (RESULT, OPTION) and t[2] and p.types[t[2][0]][0] == 'adt' and p.types[t[2][0]][1] == VEC:
            return 'val'
        return None

    SIZED = (RAWIMAGE, 'rawloader::imageops::OpBuffer', 'rawloader::decoders::image::RGBImage', 'rawloader::decoders::image::SRGBImage')

    def isimage(self, q):
        bs = self.w.p.byqual.get(q, [])
        if len(bs) != 1:
            return None
        p = self.w.p
        t = p.types[bs[0].locals[0]]
        if t[0] == 'adt' and t[1] in (RESULT, OPTION) and t[2]:
            t = p.types[t[2][0]]
        return t[1].split('::')[-1] if t[0] == 'adt' and t[1] in self.SIZED else None

    def facts(self, q):
        return self.w.facts(q, frozenset(), 120)

    def summary(self, q, part):
        """value of a component of q's result over its parameters, or None"""
        k = (q, part)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy:
            return None
        self.busy.add(k)
        r = None
        try:
            f = self.facts(q).f
            if part.startswith('len:'):
                v = f.get(part[4:])
                if v is not None:
                    r = self.reduce(length(v))
            else:
                v = f.get(part)
                if v is not None:
                    r = self.reduce(v)
            if r is not None and not params_only(r):
                r = None
        except (Undetermined, TooBig):
            r = None
        self.busy.discard(k)
        self.memo[k] = r
        if r is not None:
            self.used.add(q)
        return r

    def callee(self, x):
        if x.op == 'op' and isinstance(x.a[0], str):
            q = self.names.get(x.a[0].split('!')[0])
            if q:
                return q, list(x.a[1:])
        return None, None

    def apply(self, s, args):
        m = {}
        def go(x):
            if x.op == 'sym' and PARAM.match(str(x.a[0])):
                i = int(str(x.a[0])[1:])
                return args[i] if i < len(args) else x
            if x in m:
                return m[x]
            r = rebuild(x, go) if list(children(x)) else x
            m[x] = r
            return r
        return go(s)

    def reduce(self, n):
        """callee results replaced by what their summaries say"""
        memo = {}
        def go(x):
            if x in memo:
                return memo[x]
            r = None
            if x.op == 'op' and x.a[0] == 'len':
                y = x.a[1]
                if y.op == 'op' and y.a[0] == 'cut':
                    r = memo[x] = go(length(y.a[1]))
                    return r
                part = 'len:ret'
                if y.op == 'op' and y.a[0] == 'vf':
                    y, part = y.a[1], 'len:val'
                if y.op == 'op' and y.a[0] == 'fld':
                    y, part = y.a[1], part + '.%s' % (y.a[2],)
                    if y.op == 'op' and y.a[0] == 'vf':
                        y, part = y.a[1], part.replace('ret', 'val')
                q, args = self.callee(y)
                if q and part.endswith('.data') and self.isimage(q):
                    # an image made by another function: that function's obligation
                    r = ONE
                    per = {'RawImage': 'cpp', 'OpBuffer': 'colors'}.get(self.isimage(q))
                    if per is None:
                        r = C(3)
                    for nm in ('width', 'height', per) if per else ('width', 'height'):
                        r = MUL(r, fixfld(mk('op', ('fld', x.a[1].a[1], nm))))
                    self.used.add(q)
                elif q:
                    s = self.summary(q, part)
                    if s is not None:
                        r = self.apply(s, args)
            elif x.op == 'op' and x.a[0] == 'fld':
                y, part = x.a[1], 'ret.%s' % (x.a[2],)
                if y.op == 'op' and y.a[0] == 'vf':
                    y, part = y.a[1], part.replace('ret', 'val')
                q, args = self.callee(y)
                if q and self.vecret(q) is not None:
                    s = self.summary(q, part)
                    if s is not None:
                        r = self.apply(s, args)
            if r is None:
                if x.op in ('poly', 'ite', 'ge0', 'eq0') or x.op == 'op' and x.a[0] in ('div', 'mod', 'max0', 'udiv', 'umod'):
                    r = rebuild(x, go)
                else:
                    r = x
            memo[x] = r
            return r
        return go(n)

    def sized(self, q):
        """obligations of a function that returns something with a width, a height and data:
        [(prefix, proved, length, product)]"""
        F = self.facts(q).f
        out = []
        for pre in ('img.', 'val.', 'ret.'):
            if pre + 'data' not in F or pre + 'width' not in F or pre + 'height' not in F:
                continue
            per = F.get(pre + 'cpp') or F.get(pre + 'colors')
            if per is None:
                per = C(3)      # the rendered images
            cond = F.get('ok', F.get('some', TRUE))
            ln = self.reduce(length(F[pre + 'data']))
            pr = MUL(MUL(self.reduce(F[pre + 'width']), self.reduce(F[pre + 'height'])), self.reduce(per))
            out.append((pre, self.same(ln, pr, cond), ln, pr))
        return out

    def same(self, ln, pr, cond):
        if ln is pr or dig(ln) == dig(pr):
            return True
        d = SUB(ln, pr)
        if d is ZERO:
            return True
        if d.opq or cond.opq:
            return False
        try:
            x = ITE(cond, d, ZERO) if ddsize(cond) < 20000 else d
        except TooBig:
            x = d
        if x is ZERO or prune(x) is ZERO:
            return True
        memo = {}
        ls = [terms(l) for l in dleaves(d) if l is not ZERO]
        atoms = {a for t in ls for m in t for a in m}

        def plus(eqs, p):
            """p == 0 is known: does it help?"""
            t = terms(p)
            if len(t) == 1:
                (m, c), = t.items()
                return eqs | {p} if len(m) == 1 and m[0] in atoms else eqs
            n = {m: -c for m, c in t.items()}
            return eqs | {p} if t in ls or n in ls else eqs

        def zero(v):
            """what a comparison that fails says is zero"""
            if v.op == 'ge0':
                p = ADD(v.a[0], ONE)
                if p.op not in ('c', 'ite') and bounds(p)[0] >= 0:
                    return p
            return None

        def go(n, eqs):
            """zero in every case, given what the case says is equal"""
            if n is ZERO:
                return True
            k = (n, eqs)
            if k in memo:
                return memo[k]
            if len(memo) > 400000:
                return False
            if n.op == 'ite':
                v = n.a[0]
                z = zero(v)
                r = go(n.a[1], plus(eqs, v.a[0]) if v.op == 'eq0' else eqs) and go(n.a[2], plus(eqs, z) if z is not None else eqs)
            else:
                t = t0 = terms(n)
                for e in eqs:
                    te = terms(e)
                    if te == t0 or {mm: -cc for mm, cc in te.items()} == t0:
                        t = {}
                    elif len(te) == 1:
                        (m, c), = te.items()
                        if len(m) == 1:
                            t = {mm: cc for mm, cc in t.items() if m[0] not in mm}
                r = not t
            memo[k] = r
            return r
        return go(x, frozenset())


# constructors that are handed the data: their callers answer for it; entry points that pass an image on
SKIP = re.compile(r"image::<RawImage>::new$|^decoders::ok_image|^decode$|<RawLoader>::decode(_safe)?$|from_rgb_str_vec$")


def todo(spec):
    out = []
    for q, f in spec['facts'].items():
        f = f or {}
        if not SKIP.search(q) and any(p + 'data' in f and p + 'width' in f and p + 'height' in f for p in ('img.', 'val.', 'ret.')):
            out.append(q)
    return sorted(out)


G = {}


def derive(q):
    """one function, in a worker"""
    if 'L' not in G:
        import compare
        G['L'] = Lengths(compare.G['new'])
    L = G['L']
    L.used = set()
    if not L.w.has(q):
        return q, None, [], 'missing'
    try:
        with limit(150):
            r = [(pre, ok, '%s' % dig(ln), '%s' % dig(pr), '' if ok else '%s  instead of  %s' % (show(ln), show(pr))) for pre, ok, ln, pr in L.sized(q)]
    except (Undetermined, TooBig) as e:
        return q, None, sorted(L.used), str(e)
    return q, r, sorted(L.used), ''


def show(n):
    s = pretty.show(n)
    return s if len(s) < 400 else s[:400] + '...'
