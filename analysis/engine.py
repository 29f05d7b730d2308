"""Abstract interpreter: MIR -> value graph.

Joins merge states with gated phis (decision diagrams), loops are summarised by
solving affine recurrences and naming the rest by the hash of their recurrence,
local functions and closures are inlined (or kept as uninterpreted symbols when
a rule asks for that).  Nothing is executed and no path is enumerated."""
import sys
from nodes import *
import nodes
from program import cfg, strip_generics
import pretty
import fp as fpm

sys.setrecursionlimit(20000)

RESULT = 'core::result::Result'
OPTION = 'core::option::Option'
ERR = sym('err')
for _i in range(1, 200):
    TYR['d%d' % _i] = (0, _i - 1)


class Diverged(Exception):
    pass


# RawImage::new(camera, width, height, wb, data): the fields it takes over as they are (a reviewed fact of its own)
NEWIMG = 'image::<RawImage>::new'
NEWFIELDS = {'width': 2, 'height': 3, 'cpp': 0, 'wb_coeffs': 4, 'data': 5}


class GiveUp(Exception):
    pass


class State:
    __slots__ = ('mem', 'guard')

    def __init__(self, mem, guard):
        self.mem, self.guard = mem, guard

    def copy(self):
        return State(dict(self.mem), self.guard)


def join(states):
    if len(states) == 1:
        return states[0]
    s = states[0]
    mem, g = s.mem, s.guard
    for t in states[1:]:
        ng = OR(g, t.guard)
        m2 = {}
        for r, v in mem.items():
            w = t.mem.get(r)
            if w is None:
                if r[0] == 'H':
                    m2[r] = v
                continue
            m2[r] = v if v is w else phi(g, v, t.guard, w, ng)
        for r, w in t.mem.items():
            if r[0] == 'H' and r not in mem:
                m2[r] = w
        mem, g = m2, ng
    return State(mem, g)


def phi(g1, v, g2, w, ng):
    if v is w:
        return v
    if v.op == 'agg' and w.op == 'agg' and v.a[:2] == w.a[:2] and len(v.a[2]) == len(w.a[2]):
        return mk('agg', (v.a[0], v.a[1], tuple(phi(g1, x, g2, y, ng) for x, y in zip(v.a[2], w.a[2]))))
    if v.op == 'arr' and w.op == 'arr' and len(v.a[0]) == len(w.a[0]):
        return mk('arr', (tuple(phi(g1, x, g2, y, ng) for x, y in zip(v.a[0], w.a[0])),))
    if v.op == 'iter' and w.op == 'iter' and v.a[0] is w.a[0]:
        return mk('iter', (v.a[0], phi(g1, v.a[1], g2, w.a[1], ng)))
    return cut(constrain(ITE(g1, v, w), ng))


CUT = [120]


def cut(v):
    """hide a very large case distinction behind an atom"""
    if v.op == 'ite' and ddsize(v) > CUT[0]:
        ls = dleaves(v)
        if any(l.op in ('ref', 'agg', 'closure', 'iter', 'seq', 'T', 'F') for l in ls):
            return v
        if v.opq:
            return opaque(why_opaque(v))
        if all(l.op == 'c' or (l.op == 'op' and l.a[0] == 'discr') for l in ls):
            return v
        ty = None
        for l in ls:
            if l.ty:
                ty = l.ty if ty in (None, l.ty) else 'i64' if isint(ty) and isint(l.ty) else None
        r = mk('op', ('cut', v), ty if ty else ('i64' if all(l.op in ('c', 'poly', 'slice') for l in ls) else None))
        return r
    return v


def deepconstrain(v, c):
    op = v.op
    if op == 'ite':
        return constrain(v, c)
    if op == 'agg':
        fs = tuple(deepconstrain(x, c) for x in v.a[2])
        return v if all(x is y for x, y in zip(fs, v.a[2])) else mk('agg', (v.a[0], v.a[1], fs))
    if op == 'arr' and len(v.a[0]) <= 64:
        fs = tuple(deepconstrain(x, c) for x in v.a[0])
        return v if all(x is y for x, y in zip(fs, v.a[0])) else mk('arr', (fs,))
    if op == 'iter' and v.a[1].op == 'ite':
        return mk('iter', (v.a[0], constrain(v.a[1], c)))
    return v


def vty(v):
    if v.ty:
        return v.ty
    if v.op == 'agg' and '::' in v.a[0]:
        return 'adt:' + v.a[0]
    if v.op == 'ite':
        for l in dleaves(v):
            t = vty(l)
            if t:
                return t
    return None


class Frame:
    __slots__ = ('body', 'fid', 'cfg', 'tsub')


class Engine:
    def __init__(self, prog, opaque_fns=(), watch=(), maxdepth=24):
        self.p = prog
        self.opaque_fns = opaque_fns      # callable(qual)->bool or set of suffixes
        self.fid = 0
        self.depth = 0
        self.maxdepth = maxdepth
        self.loopdepth = 0
        self.unroll = 0
        self.peeled = 0
        self.livemu = set()
        self.numb = {}
        self.lamdepth = 0
        self.stack = []
        self.effects = []
        self.callsites = []
        self.MU = pretty.MU
        self.heap = 0
        self.steps = 0
        self.maxsteps = 3000000
        self.constmemo = {}
        self.watch = watch
        self.notes = []
        pretty.VARIANTS.update(prog.adt_variants)
        import models
        self.models = models.MODELS
        self.tmodels = models.TRAIT_MODELS
        self.pump_call = models.pump_call
        self.pumps = True
        self.known_ext = None
        self.ext = set()
        self.gstack = []
        self.loopwhere = []
        self.loopinfo = {}     # (body id, header) -> bounded / unproven / infinite

    # ------------------------------------------------------------ types
    def tystr(self, t):
        x = self.p.types[t]
        k = x[0]
        if k in ('int', 'uint'):
            return x[2]
        if k == 'float':
            return 'f%d' % x[1]
        if k in ('bool', 'char', 'str'):
            return k
        if k in ('ref', 'ptr'):
            return self.tystr(x[1])
        if k == 'adt':
            if x[1] == 'alloc::boxed::Box' and x[2]:
                return self.tystr(x[2][0])
            if x[1] == 'alloc::string::String':
                return 'str'
            if x[1] == OPTION or x[1] == RESULT:
                return 'adt:' + x[1]
            return 'adt:' + x[1]
        if k == 'array':
            return 'array:%s' % x[2] if x[2] is not None else 'array'
        return None

    def celltype(self, root, vp):
        t = self.curtypes.get(root)
        if t is None:
            return None
        for kind, i in vp:
            x = self.p.types[t]
            if kind == 'F' and x[0] == 'tuple' and i < len(x[1]):
                t = x[1][i]
            elif kind == 'F' and x[0] == 'adt' and x[1] in self.p.adts and len(self.p.adts[x[1]]['variants']) == 1:
                t = self.p.adts[x[1]]['variants'][0]['fields'][i][1]
            elif kind == 'E' and x[0] == 'array':
                t = x[1]
            else:
                return None
            if not isinstance(t, int):
                return None
        x = self.p.types[t]
        return self.tystr(t) if x[0] not in ('ref', 'ptr') else None

    def elemty(self, t):
        """element type string of a (reference to) slice/array/Vec"""
        x = self.p.types[t]
        while x[0] in ('ref', 'ptr'):
            x = self.p.types[x[1]]
        if x[0] in ('slice', 'array'):
            return self.tystr(x[1])
        if x[0] == 'adt' and x[1].endswith('Vec') and x[2]:
            return self.tystr(x[2][0])
        return None

    # ------------------------------------------------------------ memory
    def newheap(self, st, v):
        self.heap += 1
        r = ('H', self.heap)
        st.mem[r] = v
        return mk('ref', (r, ()))

    def fieldname(self, v, i):
        ty = v.ty
        if isinstance(ty, str) and ty.startswith('adt:'):
            a = self.p.adts.get(ty[4:])
            if a and len(a['variants']) == 1 and i < len(a['variants'][0]['fields']):
                return a['variants'][0]['fields'][i][0]
        return str(i)

    def proj(self, v, e):
        if v.op == 'ite':
            return lift(lambda x: self.proj(x, e), v)
        k = e[0]
        if k == 'f':
            if v.op == 'agg':
                if e[1] < len(v.a[2]):
                    return v.a[2][e[1]]
                return opaque('field out of range')
            if v.op == 'ref':
                return v
            if v.op == 'closure':
                return v.a[1][e[1]]
            if v.op == 'opaque':
                return opaque(why_opaque(v), e[2])
            if v.op == 'op' and v.a[0] == 'as':
                return mk('op', ('vf', v.a[1], v.a[2], e[1]), e[2])
            nm = self.fieldname(v, e[1])
            if v.op == 'op' and v.a[0] == NEWIMG and nm in NEWFIELDS and len(v.a) == 6:
                x = NEWFIELDS[nm]
                return v.a[x] if x else ONE
            return mk('op', ('fld', v, nm), e[2])
        if k == 'd':
            if v.op == 'agg':
                if v.a[1] != e[1]:
                    return opaque('variant mismatch')
                return v
            if v.op == 'opaque':
                return v
            vn = str(e[1])
            if isinstance(v.ty, str) and v.ty.startswith('adt:'):
                vs = self.p.adt_variants.get(v.ty[4:])
                if vs and e[1] < len(vs):
                    vn = vs[e[1]]
            return mk('op', ('as', v, vn), v.ty)
        if k == 'i':
            return load(v, e[1], e[2])
        if k == 'r':
            return lift(lambda x: view(x, e[1], e[2]), v)
        if k == 's':
            return v
        return opaque('projection')

    def readpath(self, v, path):
        for e in path:
            v = self.proj(v, e)
        return v

    def read(self, st, ref):
        if ref.op == 'ite':
            return lift(lambda x: self.read(st, x), ref)
        if ref.op != 'ref':
            return ref
        v = st.mem.get(ref.a[0])
        if v is None:
            return opaque('uninitialised %s' % (ref.a[0],))
        return self.readpath(v, ref.a[1])

    def expand(self, v):
        """symbolic struct -> aggregate of its fields"""
        if isinstance(v.ty, str) and v.ty.startswith('adt:'):
            a = self.p.adts.get(v.ty[4:])
            if a and a['local'] and len(a['variants']) == 1:
                fs = tuple(self.proj(v, ('f', i, self.tystr(f[1]))) for i, f in enumerate(a['variants'][0]['fields']))
                return mk('agg', (v.ty[4:], 0, fs))
        return None

    def writepath(self, v, path, new):
        if not path:
            return new
        if v.op == 'ite':
            return lift(lambda x: self.writepath(x, path, new), v)
        e = path[0]
        if e[0] == 'f':
            if v.op == 'op' and v.a[0] == 'as':
                return opaque('write into variant')
            if v.op != 'agg':
                x = self.expand(v)
                if x is None:
                    if v.op == 'uninit':
                        return opaque('partial init')
                    return opaque('write into unknown struct')
                v = x
            fs = list(v.a[2])
            if e[1] >= len(fs):
                return opaque('field')
            fs[e[1]] = self.writepath(fs[e[1]], path[1:], new)
            return mk('agg', (v.a[0], v.a[1], tuple(fs)))
        if e[0] == 'd':
            return self.writepath(v, path[1:], new)
        if e[0] == 's':
            return self.writepath(v, path[1:], new)
        if e[0] == 'i':
            if len(path) > 1:
                new = self.writepath(load(v, e[1], e[2]), path[1:], new)
            return store(v, e[1], new)
        if e[0] == 'r':
            if len(path) == 1:
                return mk('op', ('blit', v, e[1], e[2], new), v.ty)
            return opaque('write into range')
        return opaque('write')

    def write(self, st, ref, new):
        if ref.op == 'ite':
            for c, r in leaves(ref):
                if r.op == 'ref':
                    old = self.read(st, r)
                    self.write(st, r, ITE(c, new, old))
            return
        if ref.op != 'ref':
            self.notes.append('write through unknown reference')
            return
        root, path = ref.a
        if not path:
            st.mem[root] = new
            return
        v = st.mem.get(root)
        if v is None:
            # field-wise initialisation of a local
            v = self.uninit(root)
        st.mem[root] = self.writepath(v, path, new)

    def uninit(self, root):
        if root[0] == 'L':
            t = self.p.types[root[3]] if len(root) > 3 else None
            x = self.curtypes.get(root)
            if x is not None:
                tt = self.p.types[x]
                if tt[0] == 'tuple':
                    return mk('agg', ('tuple', 0, tuple(opaque('uninit') for _ in tt[1])))
                if tt[0] == 'adt':
                    a = self.p.adts.get(tt[1])
                    if a and len(a['variants']) == 1:
                        return mk('agg', (tt[1], 0, tuple(opaque('uninit') for _ in a['variants'][0]['fields'])))
        return opaque('uninit')

    curtypes = {}

    def extend(self, ref, e):
        """append a path element to a reference"""
        if ref.op == 'ite':
            return lift(lambda x: self.extend(x, e), ref)
        if ref.op != 'ref':
            return self.proj(ref, e)
        root, path = ref.a
        if path and path[-1][0] == 'r':
            l = path[-1]
            if e[0] == 'i':
                return mk('ref', (root, path[:-1] + (('i', ADD(l[1], e[1]), e[2]),)))
            if e[0] == 'r':
                return mk('ref', (root, path[:-1] + (('r', ADD(l[1], e[1]), e[2]),)))
        return mk('ref', (root, path + (e,)))

    def slicelen(self, st, ref):
        def f(r):
            if r.op == 'ref':
                if r.a[1] and r.a[1][-1][0] == 'r':
                    return r.a[1][-1][2]
                v = self.read(st, r)
                if v.op in ('ref', 'ite'):
                    return self.slicelen(st, v)
                return length(v)
            return length(r)
        return lift(f, ref)

    def freeze(self, st, v, d=0):
        if d > 12:
            return opaque('deep freeze')
        if v.op == 'ite':
            return lift(lambda x: self.freeze(st, x, d + 1) if x.op != 'ite' else x, v)
        if v.op == 'ref':
            return self.freeze(st, self.read(st, v), d + 1)
        if v.op == 'agg':
            fs = tuple(self.freeze(st, x, d + 1) for x in v.a[2])
            if fs and all(x.op == 'op' and x.a[0] == 'fld' for x in fs):
                # all the fields of one struct, put back together
                w = fs[0].a[1]
                if w.ty == 'adt:' + v.a[0] and all(x.a[1] is w and x.a[2] == self.fieldname(w, i) for i, x in enumerate(fs)):
                    ad = self.p.adts.get(v.a[0])
                    if ad and len(ad['variants']) == 1 and len(ad['variants'][0]['fields']) == len(fs):
                        return w
            return mk('agg', (v.a[0], v.a[1], fs))
        if v.op == 'closure':
            return mk('closure', (v.a[0], tuple(self.freeze(st, x, d + 1) for x in v.a[1])))
        if v.op == 'iter':
            return mk('op', ('iter', self.freeze(st, v.a[0], d + 1), v.a[1]))
        if v.op == 'seq':
            return mk('seq', tuple(self.freeze(st, x, d + 1) if isinstance(x, N) else x for x in v.a))
        if v.op == 'push':
            return mk('push', (self.freeze(st, v.a[0], d + 1), self.freeze(st, v.a[1], d + 1)))
        if v.op == 'arr' and any(x.op in ('ref', 'agg', 'arr') for x in v.a[0][:4]):
            return mk('arr', (tuple(self.freeze(st, x, d + 1) for x in v.a[0]),))
        return v

    # ------------------------------------------------------------ places
    def lroot(self, fr, l):
        return ('L', fr.fid, l)

    def lplace(self, fr, st, p, borrow=False):
        root = self.lroot(fr, p[0])
        cur = mk('ref', (root, ()))
        t = fr.body.locals[p[0]]
        types = self.p.types
        for e in p[1]:
            k = e[0]
            if k == '*':
                v = self.read(st, cur)
                shared = borrow and t is not None and types[t][0] == 'ref' and not types[t][2]
                if v.op == 'ite' and shared:
                    cur = v
                elif v.op == 'ite':
                    c2 = cur
                    cur = lift(lambda x: x if x.op == 'ref' else c2, v)
                elif v.op == 'ref':
                    cur = v
                elif shared:
                    cur = v   # a shared reference to an already known value
                x = types[t] if t is not None else None
                if x and x[0] in ('ref', 'ptr'):
                    t = x[1]
                elif x and x[0] == 'adt' and x[1] == 'alloc::boxed::Box':
                    t = x[2][0]
                else:
                    t = None
            elif k == 'f':
                # fields of Box internals are transparent
                x = types[t] if t is not None else None
                if x and x[0] == 'adt' and (x[1] == 'alloc::boxed::Box' or x[1].startswith('core::ptr::') or x[1].startswith('core::mem::maybe_') or x[1].startswith('core::mem::manually_')):
                    t = x[2][0] if x[2] else None
                    # keep pointing at the box cell; its value is the pointer
                    t2 = e[2]
                    t = t2
                    continue
                cur = self.extend(cur, ('f', e[1], self.tystr(e[2])))
                t = e[2]
            elif k == 'i':
                iv = self.rd(fr, st, e[1])
                et = self.tystr(types[t][1]) if t is not None and types[t][0] in ('array', 'slice') else None
                cur = self.extend(cur, ('i', iv, et)) if iv.op != 'ite' or cur.op != 'ite' else self.extend(cur, ('i', iv, et))
                t = types[t][1] if t is not None and types[t][0] in ('array', 'slice') else None
            elif k == 'ci':
                et = self.tystr(types[t][1]) if t is not None and types[t][0] in ('array', 'slice') else None
                if e[3]:
                    n = self.slicelen(st, cur)
                    iv = SUB(n, C(e[1]))
                else:
                    iv = C(e[1])
                cur = self.extend(cur, ('i', iv, et))
                t = types[t][1] if t is not None and types[t][0] in ('array', 'slice') else None
            elif k == 'ss':
                n = self.slicelen(st, cur)
                to = SUB(n, C(e[2])) if e[3] else C(e[2])
                cur = self.extend(cur, ('r', C(e[1]), SUB(to, C(e[1]))))
            elif k == 'd':
                cur = self.extend(cur, ('d', e[1]))
            else:
                return opaque('place'), None
        return cur, t

    def rd(self, fr, st, l):
        v = st.mem.get(('L', fr.fid, l))
        return v if v is not None else opaque('uninit local')

    def operand(self, fr, st, o):
        if o[0] in ('copy', 'move'):
            p = o[1]
            if not p[1]:
                return self.rd(fr, st, p[0])
            r, t = self.lplace(fr, st, p)
            return self.read(st, r)
        if o[0] == 'const':
            return self.const(o[1], o[2])
        return FALSE if 'rtcheck' in o[0] else opaque('operand')

    def const(self, t, c):
        k = c[0]
        if k == 'i':
            return C(int(c[1]))
        if k == 'b':
            return B(c[1])
        if k == 'f':
            return mk('fl', (c[1],), self.tystr(t) if t is not None else None)
        if k == 'str':
            return mk('str', (c[1],), 'str')
        if k == 'arr':
            key = ('arr', id(c))
            r = self.constmemo.get(key)
            if r is None:
                r = mk('arr', (tuple(self.const(None, x) for x in c[1]),))
                self.constmemo[key] = r
            return r
        if k == 'tup':
            return mk('agg', ('tuple', 0, tuple(self.const(None, x) for x in c[1])))
        if k == 'adt':
            return self.agg(c[1], c[2], [self.const(None, x) for x in c[3]])
        if k == 'ref':
            return self.const(None, c[1])
        if k == 'closure':
            return mk('closure', (c[1], ()))
        if k == 'fn':
            f = c[1]
            if f['ctor']:
                return mk('ctor', (f['ctor'][0], f['ctor'][1]))
            r = mk('fn', (f['id'], f['res'] or ''))
            FNQ[r] = f
            return r
        if k == 'static':
            return self.evalconst(c[1], None)
        if k == 'uneval':
            return self.evalconst(c[1], c[2])
        if k == 'zst':
            return UNIT
        return mk('op', ('const', c[1]), self.tystr(t) if t is not None else None)

    def evalconst(self, did, prom):
        key = (did, prom)
        if key in self.constmemo:
            return self.constmemo[key]
        b = self.p.bodies.get(did) if prom is None else self.p.promoted.get(key)
        r = None
        if b is not None and len(b.blocks) < 4000:
            self.constmemo[key] = mk('op', ('const', did.split('::')[-1]))
            save = self.loopdepth
            try:
                st = State({}, TRUE)
                r = self.call_body(b, [], st, isconst=True)
                r = self.freeze(st, r)
            except (Diverged, GiveUp, TooBig):
                r = None
            self.loopdepth = save
        if r is None or r.opq:
            r = mk('op', ('const', did))
        self.constmemo[key] = r
        return r

    def agg(self, adt, variant, fields):
        if adt == RESULT and variant == 1:
            return mk('agg', (RESULT, 1, (ERR,)))
        if not fields and self.numbered(adt):
            # the number is what such an enum stands for, not the place in the declaration
            return mk('agg', (adt, 0, (C(int(self.p.adts[adt]['variants'][variant]['discr'])),)))
        return mk('agg', (adt, variant, tuple(fields)))

    def numbered(self, adt):
        r = self.numb.get(adt)
        if r is None:
            a = self.p.adts.get(adt)
            r = bool(a and a['kind'] == 'enum' and a['local'] and all(not v['fields'] for v in a['variants'])
                     and [int(v['discr']) for v in a['variants']] != list(range(len(a['variants']))))
            self.numb[adt] = r
        return r

    def lamify(self, st, v, d=0):
        """a function value handed to code outside: what it computes, not where it is written"""
        if d > 4:
            return v
        if v.op == 'ref':
            w = self.read(st, v)
            return self.lamify(st, w, d + 1) if w.op in ('closure', 'fn', 'iter') else v
        if v.op in ('iter', 'seq'):
            xs = tuple(self.lamify(st, x, d + 1) if isinstance(x, N) else x for x in v.a)
            return v if all(x is y for x, y in zip(xs, v.a)) else mk(v.op, xs)
        if v.op == 'fn':
            b = self.p.bodies.get(v.a[1]) or self.p.bodies.get(v.a[0])
            if b is None or self.isopaque(b):
                return v
            n, off = b.argc, 0
        elif v.op == 'closure':
            b = self.p.bodies.get(v.a[0])
            if b is None:
                return v
            n, off = b.argc - 1, 1
        else:
            return v
        s2 = State(dict(st.mem), TRUE)
        av = []
        self.lamdepth += 1
        try:
            for i in range(n):
                t = b.locals[i + 1 + off]
                nm = 'l%d.%d' % (self.lamdepth, i)
                ty = self.tystr(t)
                if self.p.types[t][0] == 'ref':
                    root = ('Y', self.lamdepth, i)
                    s2.mem[root] = sym(nm, ty)
                    av.append(mk('ref', (root, ())))
                else:
                    av.append(asdd(sym(nm, 'bool')) if ty == 'bool' else sym(nm, ty))
            marks = len(self.effects), len(self.callsites)
            try:
                r = self.freeze(s2, self.callvalue(s2, v, av))
                out = [r]
                for root in sorted((x for x in s2.mem if x in st.mem and s2.mem[x] is not st.mem[x]), key=str):
                    out.append(self.freeze(s2, s2.mem[root]))
            except (GiveUp, Diverged, RecursionError):
                out = [opaque('function value')]
            del self.effects[marks[0]:]
            del self.callsites[marks[1]:]
        finally:
            self.lamdepth -= 1
        return mk('op', ('lambda',) + tuple(out))

    # ------------------------------------------------------------ rvalues
    def rvalue(self, fr, st, r, dty):
        k = r[0]
        if k == 'use':
            return self.operand(fr, st, r[1])
        if k == 'ref':
            ref, t = self.lplace(fr, st, r[2], True)
            return ref
        if k == 'rawptr':
            ref, t = self.lplace(fr, st, r[1])
            return ref
        if k == 'repeat':
            v = self.operand(fr, st, r[1])
            if r[2] is None:
                return opaque('repeat')
            if r[2] <= 64:
                return mk('arr', ((v,) * r[2],))
            return nodes.FILL(v, C(r[2]))
        if k == 'bin':
            a = self.operand(fr, st, r[2])
            b = self.operand(fr, st, r[3])
            return self.binop(r[1], a, b, self.tystr(r[4]), st)
        if k == 'un':
            a = self.operand(fr, st, r[2])
            ty = self.tystr(r[3])
            if r[1] == 'Not':
                if ty == 'bool':
                    return NOT(a)
                return lift(lambda x: C(wrapint(~x.a[0], ty)) if isc(x) else mk('op', ('not', x), ty), a)
            if r[1] == 'Neg':
                if ty in ('f32', 'f64'):
                    return lift(lambda x: mk('fl', (repr(-float(x.a[0])),), ty) if x.op == 'fl' else mk('op', ('fneg', x), ty), a)
                return lift(lambda x: opaque('neg') if x.opq else scale(x, -1), a)
            if r[1] == 'PtrMetadata':
                return self.slicelen(st, a)
            return opaque('unop')
        if k == 'cast':
            a = self.operand(fr, st, r[2])
            kind = r[1]
            s, d = self.tystr(r[4]), self.tystr(r[3])
            if kind == 'IntToInt':
                return CAST(a, s, d)
            if kind == 'IntToFloat':
                def itf(x):
                    if isc(x):
                        return mk('fl', (repr(float(x.a[0])),), d)
                    return mk('op', ('tofloat', WRAP(x, s)), d)
                return lift(itf, a)
            if kind == 'FloatToInt':
                return lift(lambda x: mk('op', ('toint', x), d), a)
            if kind == 'FloatToFloat':
                return lift(lambda x: mk('fl', (x.a[0],), d) if x.op == 'fl' else mk('op', ('fcast', x), d), a)
            return a
        if k == 'discr':
            ref, t = self.lplace(fr, st, r[1])
            v = self.read(st, ref)
            return self.discr(v, r[2])
        if k == 'agg':
            fs = [self.operand(fr, st, o) for o in r[2]]
            kk = r[1]
            if kk[0] == 'array':
                return mk('arr', (tuple(fs),))
            if kk[0] == 'tuple':
                return mk('agg', ('tuple', 0, tuple(fs)))
            if kk[0] == 'adt':
                return self.agg(kk[1], kk[2], fs)
            if kk[0] == 'closure':
                return mk('closure', (kk[1], tuple(fs)))
            return opaque('aggregate')
        return opaque('rvalue')

    def discr(self, v, t=None):
        def f(x):
            if x.op == 'agg':
                a = self.p.adts.get(x.a[0])
                if self.numbered(x.a[0]):
                    return x.a[2][0]
                if a:
                    return C(int(a['variants'][x.a[1]]['discr']))
                return C(x.a[1])
            if x.op == 'opaque':
                return opaque('discriminant')
            n = None
            aty = x.ty[4:] if isinstance(x.ty, str) and x.ty.startswith('adt:') else None
            if aty is None and t is not None and self.p.types[t][0] == 'adt':
                aty = self.p.types[t][1]
            a = self.p.adts.get(aty)
            ty = 'isize'
            if a and [int(z['discr']) for z in a['variants']] == list(range(len(a['variants']))):
                ty = 'd%d' % len(a['variants']) if len(a['variants']) < 200 else 'isize'
            return mk('op', ('discr', x), ty)
        return lift(f, v)

    def binop(self, op, a, b, ty, st=None):
        op = op.replace('Unchecked', '')
        if ty in ('f32', 'f64'):
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return CMP(op, a, b, ty)

            def ff(x, y):
                if x.opq or y.opq:
                    return opaque('float op', ty)
                o = {'Add': 'fadd', 'Sub': 'fsub', 'Mul': 'fmul', 'Div': 'fdiv', 'Rem': 'frem'}[op]
                if x.op == 'fl' and y.op == 'fl' and op in ('Add', 'Sub', 'Mul', 'Div') and not (op == 'Div' and float(y.a[0]) == 0):
                    p, q = float(x.a[0]), float(y.a[0])
                    v = {'Add': p + q, 'Sub': p - q, 'Mul': p * q, 'Div': p / q if q else 0}[op]
                    if ty == 'f32':
                        import struct
                        v = struct.unpack('f', struct.pack('f', v))[0]
                    return mk('fl', (repr(v),), ty)
                # 0.0 + x and x - 0.0 differ from x in the sign of a zero at most
                if op in ('Add', 'Sub') and y.op == 'fl' and float(y.a[0]) == 0:
                    return x
                if op == 'Add' and x.op == 'fl' and float(x.a[0]) == 0:
                    return y
                if op in ('Mul', 'Div') and y.op == 'fl' and float(y.a[0]) == 1:
                    return x
                if op == 'Mul' and x.op == 'fl' and float(x.a[0]) == 1:
                    return y
                if op in ('Add', 'Mul'):
                    x, y = sorted((x, y), key=lambda z: z.dig)
                return mk('op', (o, x, y), ty)
            return lift(ff, a, b)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            return CMP(op, a, b, ty)
        if ty == 'bool':
            if op == 'BitAnd':
                return AND(a, b)
            if op == 'BitOr':
                return OR(a, b)
            if op == 'BitXor':
                return NOT(CMP('Eq', a, b, 'bool'))
        if op == 'Add':
            return ADD(a, b, ty)
        if op == 'Sub':
            r = SUB(a, b, ty)
            if ty == 'usize':
                NONNEG.add(r)
            return r
        if op == 'Mul':
            return MUL(a, b, ty)
        if op in ('Div', 'Rem', 'Shr') and not a.opq:
            a = WRAP(a, ty)
        if op == 'Div':
            return DIV(a, b, ty)
        if op == 'Rem':
            return REM(a, b, ty)
        if op == 'BitAnd':
            return BITAND(a, b, ty)
        if op == 'BitOr':
            return BITOR(a, b, ty)
        if op == 'BitXor':
            return BITXOR(a, b, ty)
        if op == 'Shl':
            return SHL(a, b, ty)
        if op == 'Shr':
            return SHR(a, b, ty)
        return opaque('binop ' + op, ty)

    # ------------------------------------------------------------ control
    def isopaque(self, body):
        f = self.opaque_fns
        if callable(f):
            return f(body.qual)
        return any(body.qual == s or body.qual.endswith('::' + s) for s in f)

    def call_body(self, body, args, st, isconst=False):
        """inline; mutates st; returns value"""
        if self.depth >= self.maxdepth or any(b is body for b in self.stack):
            raise GiveUp('recursion ' + body.qual)
        fr = Frame()
        fr.body = body
        self.fid += 1
        fr.fid = self.fid
        fr.cfg = cfg(body)
        for i, a in enumerate(args):
            st.mem[('L', fr.fid, i + 1)] = a
        for i, t in enumerate(body.locals):
            self.curtypes[('L', fr.fid, i)] = t
        self.depth += 1
        self.stack.append(body)
        try:
            self.gstack.append(st.guard)
            outs = self.run(fr, 0, State(dict(st.mem), TRUE), None, None)
        finally:
            self.depth -= 1
            self.stack.pop()
            self.gstack.pop()
        rets = [s for t, s in outs if t == 'ret']
        if not rets:
            raise Diverged(body.qual)
        s = join(rets)
        v = self.rescue(s, fr.fid, s.mem.get(('L', fr.fid, 0), UNIT))
        for r, x in list(s.mem.items()):
            if x.op != 'c' and st.mem.get(r) is not x and not (r[0] == 'L' and r[1] == fr.fid):
                s.mem[r] = self.rescue(s, fr.fid, x)
        g = st.guard
        if g is not TRUE and ddsize(g) <= 60:
            # what the caller knows, the callee may use
            v = deepconstrain(v, g)
            for r, x in s.mem.items():
                if x.op == 'ite' and st.mem.get(r) is not x and not (r[0] == 'L' and r[1] == fr.fid):
                    s.mem[r] = deepconstrain(x, g)
        st.mem = {r: x for r, x in s.mem.items() if not (r[0] == 'L' and r[1] == fr.fid)}
        st.guard = AND(st.guard, s.guard)
        return v

    def rescue(self, st, fid, v, d=0):
        """replace references into a frame that is about to end by the value"""
        if d > 6:
            return v
        op = v.op
        if op == 'ref':
            if v.a[0][0] == 'L' and v.a[0][1] == fid:
                return self.rescue(st, fid, self.read(st, v), d + 1)
            return v
        if op == 'ite':
            if any(l.op in ('ref', 'agg', 'closure', 'iter') for l in dleaves(v)):
                return lift(lambda x: self.rescue(st, fid, x, d + 1), v)
            return v
        if op == 'agg' and v.a[2]:
            fs = tuple(self.rescue(st, fid, x, d + 1) for x in v.a[2])
            return v if all(x is y for x, y in zip(fs, v.a[2])) else mk('agg', (v.a[0], v.a[1], fs))
        if op == 'closure':
            return mk('closure', (v.a[0], tuple(self.rescue(st, fid, x, d + 1) for x in v.a[1])))
        if op in ('iter', 'seq'):
            return mk(op, tuple(self.rescue(st, fid, x, d + 1) if isinstance(x, N) else x for x in v.a))
        return v

    def run(self, fr, entry, state, within, header):
        """process an acyclic region; returns list of (target, state)"""
        c = fr.cfg
        pend = {entry: [state]}
        outs = []
        first = True
        while pend:
            b = min(pend, key=lambda x: c.idx[x])
            sts = pend.pop(b)
            st = join(sts).copy() if len(sts) > 1 else sts[0]
            if st.guard is FALSE:
                continue
            if b in c.loops and not (first and b == header):
                res = self.loop(fr, b, st)
            else:
                res = self.block(fr, b, st)
            first = False
            for t, s in res:
                if s.guard is FALSE:
                    continue
                if t == 'ret' or t == header or (within is not None and t not in within):
                    outs.append((t, s))
                else:
                    pend.setdefault(t, []).append(s)
        return outs

    def prune(self, fr, st, b):
        live = fr.cfg.livein[b]
        addr = fr.cfg.addr
        fid = fr.fid
        return {r: v for r, v in st.mem.items()
                if not (r[0] == 'L' and r[1] == fid and r[2] not in live and r[2] not in addr and r[2] != 0)}

    def block(self, fr, b, st):
        bb = fr.body.blocks[b]
        for s in bb['s']:
            self.steps += 1
            if self.steps > self.maxsteps:
                raise GiveUp('step limit')
            if s[0] == '=':
                dp = s[1]
                v = self.rvalue(fr, st, s[2], None)
                if v.op == 'ite' and s[2][0] != 'discr':
                    v = cut(v)
                if not dp[1]:
                    st.mem[('L', fr.fid, dp[0])] = v
                else:
                    r, t = self.lplace(fr, st, dp)
                    self.write(st, r, v)
            elif s[0] == 'setd':
                r, t = self.lplace(fr, st, s[1])
                self.write(st, r, opaque('set discriminant'))
        t = bb['t']
        k = t[0]
        if k == 'goto':
            return [(t[1], st)]
        if k == 'drop':
            return [(t[2], st)]
        if k == 'assert':
            return [(t[4], st)]
        if k == 'return':
            return [('ret', st)]
        if k in ('unreachable', 'resume', 'terminate'):
            return []
        if k == 'switch':
            v = self.operand(fr, st, t[1])
            return self.switch(fr, st, v, t)
        if k == 'call':
            return self.callterm(fr, st, t, bb['sp'])
        return []

    def branch(self, fr, st, cond, target):
        g = AND(st.guard, cond)
        if g is FALSE:
            return None
        mem = {}
        live = fr.cfg.livein[target]
        addr = fr.cfg.addr
        fid = fr.fid
        for r, v in st.mem.items():
            if r[0] == 'L' and r[1] == fid and r[2] not in live and r[2] not in addr and r[2] != 0:
                continue
            mem[r] = deepconstrain(v, cond)
        return (target, State(mem, g))

    def switch(self, fr, st, v, t):
        ty = self.tystr(t[4])
        targets, other = t[2], t[3]
        out = []
        rest = TRUE
        for val, tg in targets:
            if ty == 'bool':
                c = asdd(v) if int(val) else NOT(v)
            else:
                vv = int(val)
                vv = wrapint(vv, ty) if ty in WIDTH else vv
                c = EQ0(SUB(v, C(vv)))
            c1 = AND(rest, c)
            rest = AND(rest, NOT(c))
            r = self.branch(fr, st, c1, tg)
            if r:
                out.append(r)
        if rest is not FALSE and fr.body.blocks[other]['t'][0] != 'unreachable':
            r = self.branch(fr, st, rest, other)
            if r:
                out.append(r)
        return out

    # ------------------------------------------------------------ loops
    def loop(self, fr, h, st):
        L = fr.cfg.loops[h]
        st = State(self.prune(fr, st, h), st.guard)

        def body(H):
            outs = self.run(fr, h, H, L, h)
            backs = [s for t, s in outs if t == h]
            exits = [(t, s) for t, s in outs if t != h]
            for s in backs:
                s.mem = self.prune(fr, s, h)
            return backs, exits
        self.loopwhere.append((fr.body, h))
        try:
            return self.genloop(st, body)
        finally:
            self.loopwhere.pop()

    def genloop(self, st0, body):
        """summarise a loop.  body(State)->(backs, exits)"""
        k = kvar('k%d' % self.loopdepth)
        self.loopdepth += 1
        saveeff = len(self.effects)
        savecs = len(self.callsites)
        outer = st0.guard
        self.gstack.append(outer)
        savelive = set(self.livemu)
        try:
            outs = self._genloop(State(st0.mem, TRUE), body, k, saveeff, savecs)
        finally:
            self.loopdepth -= 1
            self.gstack.pop()
            self.livemu = savelive
        for t, s in outs:
            s.guard = AND(outer, s.guard)
        return outs

    def _genloop(self, st0, body, k, saveeff, savecs):
        uid = [0]
        mus = {}       # mu node -> (root, vpath)
        solved = {}    # (root,vpath) -> closed form
        forced = set()  # cells that must stay opaque mu as a whole
        st0 = st0.copy()
        H = st0.copy()
        lenok = {}

        def newmu(root, vp, init):
            uid[0] += 1
            m = mk('mu', ('t%d.%d' % (self.loopdepth, _TMP(self)), '%x' % fpm.fp(self.freeze(st0, init)), ()), muty(root, vp, init))
            mus[m] = (root, vp)
            self.livemu.add(m)
            ln = length(init) if init.op in ('fill', 'arr', 'upd', 'view', 'gen') or (init in nodes.LENOF) or (init.op == 'sym' and isarr(init)) else None
            if ln is None and not init.opq and (init.op == 'ite' or init.op == 'op' and init.a[0] in ('cut', 'blit')) and all(
                    x.op in ('upd', 'loopupd', 'arr', 'fill', 'gen') or x in nodes.LENOF for x in dleaves(init if init.op == 'ite' else init.a[1])):
                ln = length(init)
                if ln.op == 'ite' or ln.opq:
                    ln = None
            if ln is not None:
                nodes.LENOF[m] = ln
                lenok[m] = ln
            return m

        def muty(root, vp, init):
            """declared type of the cell; the initial value's own type says nothing about later values"""
            t = self.celltype(root, vp)
            if t is not None:
                return t
            if init.op == 'sym' or init.ty not in WIDTH:
                return init.ty or guess(init)
            return 'int?'

        def guess(n):
            if n.op in ('c', 'poly', 'slice'):
                return 'int?'
            if n.op in ('T', 'F'):
                return 'bool'
            return vty(n)

        def isarr(n):
            return False

        def cells(v, vp=()):
            return v

        def gen(h, b, root, vp):
            if h is b or h in mus:
                return h
            if h.op == 'agg' and b.op == 'agg' and h.a[:2] == b.a[:2] and len(h.a[2]) == len(b.a[2]) and (root, vp) not in forced:
                return mk('agg', (h.a[0], h.a[1], tuple(gen(x, y, root, vp + (('F', i),)) for i, (x, y) in enumerate(zip(h.a[2], b.a[2])))))
            if h.op == 'arr' and b.op == 'arr' and len(h.a[0]) == len(b.a[0]) <= 16 and (root, vp) not in forced:
                return mk('arr', (tuple(gen(x, y, root, vp + (('E', i),)) for i, (x, y) in enumerate(zip(h.a[0], b.a[0]))),))
            if h.op == 'iter' and b.op == 'iter' and h.a[0] is b.a[0] and (root, vp) not in forced:
                return mk('iter', (h.a[0], gen(h.a[1], b.a[1], root, vp + (('I', 0),))))
            if h.op == 'iter' and b.op == 'iter' and h.a[0].op == 'seq' == b.a[0].op and (root, vp) not in forced \
                    and len(h.a[0].a) == len(b.a[0].a) and h.a[0].a[0] == b.a[0].a[0]:
                return mk('iter', (gen(h.a[0], b.a[0], root, vp + (('S', 0),)), gen(h.a[1], b.a[1], root, vp + (('I', 0),))))
            if h.op == 'ref' and b.op == 'ref' and h.a[0] == b.a[0] and len(h.a[1]) == len(b.a[1]) and (root, vp) not in forced \
                    and all(x[0] == y[0] and len(x) == len(y) and all((isinstance(p, N) and isinstance(q, N)) or p == q for p, q in zip(x, y)) for x, y in zip(h.a[1], b.a[1])):
                np = []
                for i, (x, y) in enumerate(zip(h.a[1], b.a[1])):
                    np.append(tuple(gen(p, q, root, vp + (('R', (i, j)),)) if isinstance(p, N) else p for j, (p, q) in enumerate(zip(x, y))))
                return mk('ref', (h.a[0], tuple(np)))
            if h.op == 'seq' and b.op == 'seq' and len(h.a) == len(b.a) and (root, vp) not in forced and all(
                    (isinstance(p, N) and isinstance(q, N)) or p == q for p, q in zip(h.a, b.a)):
                return mk('seq', tuple(gen(p, q, root, vp + (('Q', i),)) if isinstance(p, N) else p for i, (p, q) in enumerate(zip(h.a, b.a))))
            # a struct the loop writes into: one loop symbol per field
            if (root, vp) not in forced and h.op not in ('agg', 'ite') and not h.opq and any(
                    l.op == 'agg' for l in ([b] if b.op != 'ite' else [z for _, z in leaves(b)])) and get(st0.mem[root], vp) is h:
                x = self.expand(h)
                if x is not None:
                    st0.mem[root] = put(st0.mem[root], vp, x)
                    return gen(x, b, root, vp) if b.op == 'agg' else x
            # whole cell becomes one loop symbol
            forced.add((root, vp))
            init = get(st0.mem[root], vp)
            for m in [m for m, (r, p) in mus.items() if r == root and p[:len(vp)] == vp]:
                del mus[m]
            for c in [c for c in solved if c[0] == root and c[1][:len(vp)] == vp]:
                del solved[c]
            if init is None:
                return opaque('loop cell')
            return newmu(root, vp, init)

        def get(v, vp):
            for kind, i in vp:
                if kind == 'F':
                    if v.op != 'agg':
                        return None
                    v = v.a[2][i]
                elif kind == 'E':
                    if v.op != 'arr':
                        return None
                    v = v.a[0][i]
                elif kind == 'I':
                    if v.op != 'iter':
                        return None
                    v = v.a[1]
                elif kind == 'S':
                    if v.op != 'iter':
                        return None
                    v = v.a[0]
                elif kind == 'Q':
                    if v.op != 'seq' or i >= len(v.a) or not isinstance(v.a[i], N):
                        return None
                    v = v.a[i]
                elif kind == 'R':
                    if v.op != 'ref' or i[0] >= len(v.a[1]) or i[1] >= len(v.a[1][i[0]]) or not isinstance(v.a[1][i[0]][i[1]], N):
                        return None
                    v = v.a[1][i[0]][i[1]]
            return v

        def put(v, vp, new):
            if not vp:
                return new
            kind, i = vp[0]
            if kind == 'F':
                fs = list(v.a[2])
                fs[i] = put(fs[i], vp[1:], new)
                return mk('agg', (v.a[0], v.a[1], tuple(fs)))
            if kind == 'E':
                fs = list(v.a[0])
                fs[i] = put(fs[i], vp[1:], new)
                return mk('arr', (tuple(fs),))
            if kind == 'Q':
                fs = list(v.a)
                fs[i] = put(fs[i], vp[1:], new)
                return mk('seq', tuple(fs))
            if kind == 'R':
                pth = [list(x) for x in v.a[1]]
                pth[i[0]][i[1]] = put(pth[i[0]][i[1]], vp[1:], new)
                return mk('ref', (v.a[0], tuple(tuple(x) for x in pth)))
            if kind == 'S':
                return mk('iter', (put(v.a[0], vp[1:], new), v.a[1]))
            return mk('iter', (v.a[0], put(v.a[1], vp[1:], new)))

        def runbody(H):
            del self.effects[saveeff:]
            del self.callsites[savecs:]
            return body(State(dict(H.mem), H.guard))

        B = None
        nosolve = set()
        for it in range(60):
            backs, exits = runbody(H)
            if not backs:
                return exits        # never iterates
            B = join(backs)
            redo = False
            for (root, vp), (init, d) in list(solved.items()):
                nx = get(B.mem[root], vp) if root in B.mem else None
                if nx is not ADD(init, MUL(d, ADD(k, ONE))):
                    del solved[(root, vp)]
                    nosolve.add((root, vp))
                    H.mem[root] = put(H.mem[root], vp, newmu(root, vp, init))
                    redo = True
            if redo:
                continue
            for root in list(H.mem):
                if root not in B.mem:
                    continue
                h, b = H.mem[root], B.mem[root]
                if h is b:
                    continue
                for (r2, vp) in solved:
                    if r2 == root and get(b, vp) is not None:
                        b = put(b, vp, get(h, vp))
                nv = gen(h, b, root, ())
                if nv is not h:
                    H.mem[root] = nv
                    redo = True
            if redo:
                continue
            for m, (root, vp) in list(mus.items()):
                nx = get(B.mem[root], vp)
                init = get(st0.mem[root], vp)
                if nx is None or init is None:
                    continue
                if m in lenok and m in nodes.LENOF and length(nx) is not lenok[m]:
                    del nodes.LENOF[m]
                    redo = True
                    continue
                if (root, vp) in nosolve or init.opq or init.op == 'ite' or nx.op not in ('c', 'poly', 'slice', 'sym', 'k', 'op', 'load', 'mu', 'muexit'):
                    continue
                if not (isint(m.ty) or m.ty == 'int?' or init.op in ('c', 'poly', 'slice')):
                    continue
                d = SUB(nx, m)
                if d.op == 'ite' or d.opq:
                    continue
                if d.loops & (frozenset(x.dig for x in mus) | frozenset([k.dig])):
                    continue
                H.mem[root] = put(H.mem[root], vp, ADD(init, MUL(d, k)))
                solved[(root, vp)] = (init, d)
                del mus[m]
                redo = True
            if not redo:
                break
        else:
            raise GiveUp('loop does not settle')
        # canonical names for the remaining recurrences
        order = list(mus)
        inits = {m: get(st0.mem[mus[m][0]], mus[m][1]) for m in order}
        nexts = {m: get(B.mem[mus[m][0]], mus[m][1]) for m in order}
        for m in order:
            if nexts[m] is None:
                raise GiveUp('loop cell shape')
            inits[m] = self.freezeloop(st0, inits[m])
            nexts[m] = self.freezeloop(B, nexts[m])
        own = {m.dig for m in order} | {k.dig}
        ifp = {m: fpm.fp(inits[m]) for m in order}
        cls = {m: '%x' % ifp[m] for m in order}
        for rnd in range(min(len(order) + 1, 30)):
            F = fpm.FP(cls, fpm.BASE)
            new = {m: '%x' % fpm.H(ifp[m], F.fp(nexts[m])) for m in order}
            if len(set(new.values())) == len(set(cls.values())) and rnd > 0 and len(set(cls.values())) == len(order):
                cls = new
                break
            cls = new
        free = self.outersyms([x for m in order for x in (inits[m], nexts[m])], own)
        temp = any(x.op == 'mu' and x.a[0].startswith('t') for x in free)
        exact = {}
        seen = {}
        for m in order:
            exact[m] = cls[m]
            if temp:
                exact[m] = 'x' + _h2(inits[m].dig + subst(nexts[m], {q: mk('mu', (cls[q], cls[q], ()), q.ty) for q in order}).dig)
            if (exact[m], m.ty) in seen:
                seen[(exact[m], m.ty)] += 1
                exact[m] += '.%d' % seen[(exact[m], m.ty)]
            else:
                seen[(exact[m], m.ty)] = 0
        name = exact
        final = {m: mk('mu', (exact[m], cls[m], free), m.ty) for m in order}
        self.livemu |= set(final.values())
        for m in order:
            if m in nodes.LENOF:
                nodes.LENOF[final[m]] = subst(nodes.LENOF[m], final)
        for m in order:
            root, vp = mus[m]
            H.mem[root] = put(H.mem[root], vp, final[m])
        memo = {}
        for root in list(H.mem):
            if any(m.dig in H.mem[root].loops for m in order):
                H.mem[root] = subst(H.mem[root], final, memo)
        backs, exits = runbody(H)
        Bj = join(backs) if backs else None
        for m in order:
            root, vp = mus[m]
            nx = get(Bj.mem[root], vp) if Bj else None
            nx = self.freezeloop(Bj, nx) if nx is not None else None
            self.MU[name[m]] = (inits[m], nx, Bj.guard if Bj else None, k, final[m])
        # exits
        outs = []
        es = []
        for t, s in exits:
            es.append((t, s))
        conds = [constrain(s.guard, st0.guard) for t, s in es]
        if self.unroll:
            n = [t.a[0] for t in (self.trip(c, k, len(es), ('', ''), '', ()) for c in conds) if isc(t)]
            if n and min(n) <= self.unroll:
                r = self.peel(st0, body, min(n), saveeff, savecs)
                if r is not None:
                    return r
                runbody(H)
        allsym = [k] + list(final.values())
        cfp = ['%x' % fpm.fp(c) for c in conds]
        lcls = '%x' % fpm.H(sorted(cfp), sorted(cls.values()))
        free = self.outersyms(conds, {m.dig for m in final.values()} | {k.dig}, free)
        lh = (_h2(b''.join(sorted(c.dig for c in conds)) + b''.join(sorted(n.encode() for n in name.values()))), lcls) 
        LOOPMU.setdefault(lh[0], set()).update(final.values())
        if len(es) > 1:
            ws = [fpm.H('exit', lcls, c) for c in cfp]
            ti = fpm.inv(sum(ws) % fpm.P)
            fpm.EXITFAM[lcls] = {c: w * ti % fpm.P for c, w in zip(cfp, ws)}
        order_e = sorted(range(len(es)), key=lambda i: cfp[i])
        rest = st0.guard
        for pos, i in enumerate(order_e):
            t, s = es[i]
            if pos == len(order_e) - 1:
                g = rest
            else:
                # do different exits differ only in loop-invariant conditions?
                at = mk('op', ('exits', lh[0], lh[1], cfp[i]) + free, 'bool')
                g = AND(rest, at)
                rest = AND(rest, NOT(at))
                EXITS[at] = conds[i]
            ke = self.trip(conds[i], k, len(es), lh, cfp[i], free)
            mp = {k: ke}
            for m in final.values():
                x = self.built(m, ke, k, final)
                if x is None:
                    x = mk('muexit', (m, ke), m.ty)
                    if m in nodes.LENOF:
                        nodes.LENOF[x] = nodes.LENOF[m]
                mp[m] = x
            memo = {}
            mem = {}
            for r, v in s.mem.items():
                mem[r] = subst(v, mp, memo) if v.loops else v
            outs.append((t, State(mem, g)))
        self.classify(conds, k, final, self.MU, name, order, '%x' % fpm.H(sorted(cfp)))
        # effects recorded in the body belong to this loop
        return outs

    def peel(self, st0, body, n, saveeff, savecs):
        """the loop written out, when it runs a small fixed number of times"""
        self.peeled += n
        if self.peeled > 20000:
            return None
        self.loopdepth -= 1
        try:
            del self.effects[saveeff:]
            del self.callsites[savecs:]
            st, outs = State(dict(st0.mem), TRUE), []
            for _ in range(n + 1):
                backs, exits = body(st)
                outs += exits
                if not backs:
                    return outs
                st = join(backs)
        finally:
            self.loopdepth += 1
        return None

    def built(self, m, ke, k, final):
        """a vector filled element by element, each from its own index: the same whether pushed, collected or stored"""
        init, nx, g, _, _ = self.MU[m.a[0]]
        if nx is None or nx.opq:
            return None
        ls = dleaves(nx)
        if init.op == 'arr' and not init.a[0]:
            if not all(x.op == 'push' and x.a[0] is m for x in ls):
                return None
            e = lift(lambda x: x.a[1], nx)
        elif init.op in ('fill', 'gen', 'arr') and length(init) is ke:
            if not all(x.op == 'upd' and x.a[0] is m and x.a[1] is k for x in ls):
                return None
            e = lift(lambda x: x.a[2], nx)
        else:
            return None
        own = {x.dig for x in final.values()}
        if e.loops & own:
            return None
        return lift(lambda n: nodes.GEN(n, k, e), ke)

    def classify(self, conds, k, final, MU, name, order, lfp):
        """is the number of iterations bounded by a counter or cursor that only moves towards a fixed end?"""
        if not self.loopwhere:
            return
        b, h = self.loopwhere[-1]
        stay = TRUE
        for c in conds:
            stay = AND(stay, NOT(c))
        vary = {k.dig} | {m.dig for m in final.values()}
        v = 'unproven'
        if stay is FALSE:
            v = 'bounded'
        elif not (stay.loops & vary):
            v = 'infinite'
        else:
            step = {}
            for m in order:
                init, nx, g, _, f = MU[name[m]]
                if nx is not None and not nx.opq:
                    d = lift(lambda x: SUB(x, f), nx) if nx.op == 'ite' else SUB(nx, f)
                    lo, hi = bounds(d)
                    step[f] = 1 if lo >= 1 else -1 if hi <= -1 else 0
            step[k] = 1
            seen, todo = set(), [stay]
            while todo and v == 'unproven':
                x = todo.pop()
                if x in seen or x.op != 'ite':
                    continue
                seen.add(x)
                todo += [x.a[1], x.a[2]]
                a = x.a[0]
                if a.op != 'ge0' or not (a.loops & vary):
                    continue
                for pos in (True, False):
                    p = a.a[0] if pos else ADD(scale(a.a[0], -1), C(-1))
                    good = moving = True
                    moving = False
                    for mono, c in terms(p).items():
                        if not any(y.loops & vary for y in mono):
                            continue
                        if len(mono) == 1 and step.get(mono[0], 0) * c < 0:
                            moving = True
                        elif len([y for y in mono if y.loops & vary]) == 1 and c < 0 and all(bounds(y)[0] >= 0 for y in mono) \
                                and all(step.get(y, 0) > 0 or not (y.loops & vary) for y in mono):
                            pass
                        else:
                            good = False
                    if good and moving:
                        at = mk('ite', (a, TRUE, FALSE)) if pos else mk('ite', (a, FALSE, TRUE))
                        if AND(stay, NOT(at)) is FALSE:
                            v = 'bounded'
                            break
        key = (b.qual, h)
        rank = {'bounded': 0, 'unproven': 1, 'infinite': 2}
        old = self.loopinfo.get(key)
        if old is None or rank[old[0]] < rank[v]:
            self.loopinfo[key] = (v, lfp)

    def outersyms(self, xs, own, have=()):
        """loop symbols of enclosing loops that these values depend on"""
        out = {}
        seen = set()
        todo = list(xs) + list(have)
        while todo:
            x = todo.pop()
            if x in seen or not (x.loops - own):
                continue
            seen.add(x)
            if x.op == 'k':
                out[x] = 1
            elif x.op == 'mu':
                if x.dig not in own:
                    if x in self.livemu:
                        out[x] = 1
                todo += list(x.a[2])
                continue
            todo += list(children(x))
        return tuple(sorted(out, key=lambda x: (fpm.fp(x), x.dig)))

    def freezeloop(self, st, v):
        return self.freeze(st, v)

    def trip(self, cond, k, nexits, lh, cfp, free):
        """value of k on leaving through an exit with this condition"""
        lits = []

        def conj(c):
            """exit condition as a disjunction of !(N - c*k - 1 >= 0)"""
            if c is TRUE or c is FALSE:
                return None
            v = c.a[0]
            if v.op != 'ge0':
                return None
            for val, br, other in ((True, c.a[1], c.a[2]), (False, c.a[2], c.a[1])):
                b = bound(v, not val)
                if b is None:
                    continue
                if br is TRUE:
                    if other is FALSE:
                        return [b]
                    r = conj(other)
                    return [b] + r if r else None
            return None

        def bound(atom, stay):
            """loop stays while atom==stay; returns trip count"""
            p = atom.a[0]
            if not stay:
                p = ADD(scale(p, -1), C(-1))
            t = terms(p)
            ck = t.get((k,), 0)
            if ck >= 0 or any(k in m for m in t if m != (k,)):
                return None
            if any(k.dig in x.loops for m in t for x in m if x is not k):
                return None
            c = -ck
            n = dict(t)
            del n[(k,)]
            n[()] = n.get((), 0) + c  # p + c*k >= 0  <=>  k <= p/c ; count = floor(p/c)+1
            q = poly(n)
            q = fdiv(q, c)
            if q.loops and any(x in q.loops for x in []):
                return None
            lo, hi = bounds(q)
            if lo >= 0 or q in NONNEG:
                return q
            if all(len(m) == 1 and cc > 0 for m, cc in terms(q).items()):
                return q
            # x >= 0 by construction (difference of range ends): max(0, .)
            return mk('op', ('max0', q), 'usize')
        if cond is not TRUE and cond is not FALSE and cond.op == 'ite':
            r = conj(cond)
            if r:
                x = r[0]
                for y in r[1:]:
                    x = MIN(x, y)
                return x
        return mk('op', ('kexit', lh[0], lh[1], cfp) + free, 'usize')

    # ------------------------------------------------------------ calls
    def callterm(self, fr, st, t, span):
        f, args, dest, target, aty = t[1], t[2], t[3], t[4], t[5]
        av = [self.operand(fr, st, o) for o in args]
        r, dt = self.lplace(fr, st, dest)
        try:
            v = self.call(fr, st, f, av, aty, dt if dt is not None else fr.body.locals[dest[0]], span, target)
        except Diverged:
            return []
        if target is None:
            return []
        self.write(st, r, v)
        return [(target, st)]

    def call(self, fr, st, f, av, aty, dt, span, target):
        if f[0] != 'const' or f[2][0] != 'fn':
            fv = self.operand(fr, st, f)
            return self.callvalue(st, fv, av, span)
        q = f[2][1]
        if q['ctor']:
            return self.agg(q['ctor'][0], q['ctor'][1], av)
        dty = self.tystr(dt) if dt is not None else None
        path = strip_generics(q['path'])
        ctx = CallCtx(self, fr, st, q, av, aty, dty, dt, span, path)
        body = None
        if q['rlocal'] and q['res'] in self.p.bodies:
            body = self.p.bodies[q['res']]
        # panics
        if target is None:
            self.effects.append(('panic', path, tuple(self.gstack) + (st.guard,), span))
            raise Diverged(path)
        if self.pumps:
            r = self.pump_call(ctx, body)
            if r is not None:
                return r
        m = self.tmodels.get(q['id'])
        if m is not None and not (body is not None and q['id'] in LOCAL_FIRST):
            r = m(ctx)
            if r is not None:
                return r
        if body is None:
            m = self.models.get(path)
            if m is not None:
                r = m(ctx)
                if r is not None:
                    return r
        if body is None and q['trait'] and av:
            b2 = self.dispatch(st, q, av[0])
            if b2 is not None:
                body = b2
        if body is not None:
            if not self.isopaque(body):
                return self.inline(body, av, st, ctx)
            return self.uninterp(ctx, body.qual.split('::', 1)[1] if body.qual.startswith('decoders::') else body.qual)
        if self.known_ext is not None and path not in self.known_ext:
            self.notes.append('unmodelled ' + path)
            return self.uninterp(ctx, path, known=False)
        self.ext.add(path)
        return self.uninterp(ctx, path)

    def inline(self, body, av, st, ctx):
        snap = (st.copy(), len(self.effects), len(self.callsites))
        try:
            return self.call_body(body, av, st)
        except (GiveUp, RecursionError) as e:
            st.mem, st.guard = snap[0].mem, snap[0].guard
            del self.effects[snap[1]:]
            del self.callsites[snap[2]:]
            self.notes.append('not inlined %s: %s' % (body.qual, e))
            return self.uninterp(ctx, body.qual, known=False)

    def dispatch(self, st, q, recv):
        v = recv
        for _ in range(4):
            if v.op == 'ref':
                v = self.read(st, v)
        if v.op == 'agg':
            m = self.p.vt.get((q['id'], v.a[0]))
            if m:
                return self.p.bodies.get(m)
        if isinstance(v.ty, str) and v.ty.startswith('adt:'):
            m = self.p.vt.get((q['id'], v.ty[4:]))
            if m:
                return self.p.bodies.get(m)
        return None

    def callvalue(self, st, fv, av, span=None):
        """call a closure / fn item value with argument values"""
        v = fv
        for _ in range(4):
            if v.op == 'ref':
                w = self.read(st, v)
                if w.op in ('closure', 'fn', 'ref', 'ctor'):
                    v = w
                else:
                    v = w
                    break
        if v.op == 'ctor':
            return self.agg(v.a[0], v.a[1], av)
        if v.op == 'closure':
            b = self.p.bodies.get(v.a[0])
            if b is not None:
                # env argument: by-ref closures take &env
                t0 = self.p.types[b.locals[1]]
                env = fv if fv.op == 'ref' else v
                if t0[0] != 'ref':
                    env = v
                elif env is v:
                    env = self.newheap(st, v)
                return self.call_body(b, [env] + list(av), st)
        if v.op == 'ite' and all(x.op in ('fn', 'closure', 'ctor') for x in dleaves(v)) and len(dleaves(v)) <= 8:
            rs = []
            for want, w in ((asdd(v.a[0]), v.a[1]), (NOT(asdd(v.a[0])), v.a[2])):
                s = st.copy()
                s.guard = AND(st.guard, want)
                if s.guard is FALSE:
                    continue
                try:
                    r = self.callvalue(s, w, av, span)
                except Diverged:
                    continue
                rs.append((want, r, s))
            if not rs:
                raise Diverged('fn')
            j = join([s for _, _, s in rs]) if len(rs) > 1 else rs[0][2]
            st.mem, st.guard = j.mem, j.guard
            return rs[0][1] if len(rs) == 1 else ITE(rs[0][0], rs[0][1], rs[1][1])
        if v.op == 'fn':
            b = self.p.bodies.get(v.a[1]) or self.p.bodies.get(v.a[0])
            if b is not None and v in FNQ:
                n = b.argc
                return self.call(None, st, ('const', None, ('fn', FNQ[v])), list(av), b.locals[1:1 + n], b.locals[0], span, 0)
            if b is not None and not self.isopaque(b):
                return self.call_body(b, list(av), st)
            if b is None:
                return opaque('function value ' + v.a[0])
            return mk('op', (v.a[0].split('::')[-1],) + tuple(self.freeze(st, x) for x in av))
        return mk('op', ('callfn', self.freeze(st, v)) + tuple(self.freeze(st, x) for x in av))

    casewise = 1

    def applied(self, name, fz, ty):
        """value of an uninterpreted call; a call on one of a few alternatives may be told apart case by case"""
        if self.casewise > 1:
            n = 1
            for x in fz:
                if x.op == 'ite':
                    n *= len(dleaves(x))
            if 1 < n <= self.casewise:
                return lift(lambda *ys: asdd(mk('op', (name,) + ys, ty)) if ty == 'bool' else mk('op', (name,) + ys, ty), *fz)
        return mk('op', (name,) + fz, ty)

    def uninterp(self, ctx, name, known=True):
        st = ctx.st
        fz = tuple(self.freeze(st, self.lamify(st, a)) for a in ctx.av)
        if not known:
            fz = fz + (opaque('call ' + name),)
        if any(x.opq for x in fz):
            r = opaque(why_opaque(*fz), ctx.dty)
        else:
            r = self.applied(name, fz, ctx.dty)
        if ctx.dty == 'bool':
            r = asdd(r)
        self.callsites.append((name, fz, tuple(self.gstack) + (st.guard,), ctx.span, self.stack[-1].qual if self.stack else ''))
        # clobber &mut arguments
        for i, t in enumerate(ctx.aty):
            x = self.p.types[t]
            if x[0] == 'ref' and x[2] and ctx.av[i].op in ('ref', 'ite'):
                old = self.read(st, ctx.av[i])
                if old.op == 'agg' and old.a[0] == 'Pump':
                    px = opaque(why_opaque(*fz)) if any(y.opq for y in fz) else mk('op', ('%s!%d' % (name, i),) + fz, 'u64')
                    nv = mk('agg', ('Pump', 0, (old.a[2][0], px, FALSE)))
                elif any(y.opq for y in fz):
                    nv = opaque(why_opaque(*fz), old.ty)
                else:
                    nv = self.applied('%s!%d' % (name, i), fz, vty(old) or self.tystr(t))
                    if self.p.types[x[1]][0] in ('slice', 'array') and ctx.av[i].op == 'ref':
                        ln = self.slicelen(st, ctx.av[i])      # a slice keeps its length
                        if not ln.opq:
                            nodes.LENOF[nv] = ln
                self.write(st, ctx.av[i], nv)
        return r


_tmpc = [0]
import os as _os
_tmpbase = [int(_os.environ.get("TMPBASE", "0"))]


def _TMP(eng):
    _tmpc[0] += 1
    return _tmpc[0]


EXITS = {}
LOOPMU = {}
NONNEG = set()
LOCAL_FIRST = set()


def _h2(b):
    if isinstance(b, str):
        b = b.encode()
    return hashlib.blake2b(b, digest_size=8).hexdigest()


FNQ = {}


class CallCtx:
    def __init__(self, eng, fr, st, q, av, aty, dty, dt, span, path):
        self.eng, self.fr, self.st, self.q, self.av, self.aty = eng, fr, st, q, av, aty
        self.dty, self.dt, self.span, self.path = dty, dt, span, path

    def rd(self, i):
        """argument i, references followed to a value"""
        v = self.av[i]
        for _ in range(4):
            if v.op == 'ref' or (v.op == 'ite' and any(l.op == 'ref' for _, l in leaves(v))):
                v = self.eng.read(self.st, v)
            else:
                break
        return v


def summarise(eng, body, args=None, mem=None):
    """analyse a function with symbolic arguments.
    returns dict(ret, mem(param roots), guard, effects)"""
    p = eng.p
    NONNEG.clear()
    _tmpc[0] = _tmpbase[0]
    nodes.BUDGET[0] = 3000000
    st = State({}, TRUE)
    if mem:
        st.mem.update(mem)
    av = []
    prm = []
    for i in range(body.argc):
        t = body.locals[i + 1]
        if args is not None and args[i] is not None:
            av.append(args[i])
            continue
        x = p.types[t]
        nm = 'a%d' % i
        if x[0] == 'ref' or (x[0] == 'adt' and x[1] == 'alloc::boxed::Box'):
            root = ('P', i)
            st.mem[root] = sym(nm, eng.tystr(t))
            av.append(mk('ref', (root, ())))
            prm.append((i, root))
        elif eng.tystr(t) == 'bool':
            av.append(asdd(sym(nm, 'bool')))
        else:
            av.append(sym(nm, eng.tystr(t)))
    eng.effects = []
    eng.callsites = []
    ret = eng.call_body(body, av, st)
    ret = eng.freeze(st, ret)
    out = {}
    for i, root in prm:
        v = st.mem.get(root)
        if v is not None and v is not sym('a%d' % i, eng.tystr(body.locals[i + 1])):
            out['a%d' % i] = eng.freeze(st, v)
    return {'ret': ret, 'mem': out, 'guard': st.guard, 'effects': list(eng.effects), 'calls': list(eng.callsites)}
