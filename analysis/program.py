"""Loads the dump of the type-checked program and computes CFG facts."""
import gzip
import json
import re


class Body:
    pass


def strip_generics(p):
    # remove <...> groups (not the `<T as Trait>` prefix markers), keeping path segments
    out = []
    d = 0
    for ch in p:
        if ch == '<':
            d += 1
        elif ch == '>':
            d -= 1
        elif d == 0:
            out.append(ch)
    s = ''.join(out)
    while '::::' in s:
        s = s.replace('::::', '::')
    return s.strip(':')


class Prog:
    def __init__(self, path):
        d = json.load(gzip.open(path, "rt") if path.endswith(".gz") else open(path))
        self.crate = d['crate']
        self.types = d['types']
        self.adts = d['adts']
        self.impls = d['impls']
        self.unsafe = d['unsafe']
        self.isbin = d['bin']
        self.bodies = {}
        self.promoted = {}
        for b in d['bodies']:
            o = Body()
            o.prog = self
            o.id, o.path, o.kind, o.argc = b['id'], b['path'], b['kind'], b['argc']
            o.locals, o.blocks, o.span = b['locals'], b['blocks'], b['span']
            o.names = b['names']
            o.itrait, o.iself, o.pub, o.unsafe = b['itrait'], b['iself'], b['pub'], b['unsafe']
            o.promoted = b['promoted']
            o.cfg = None
            o.qual = self.qual(o)
            if b['promoted'] is None:
                self.bodies[o.id] = o
            else:
                self.promoted[(o.id, b['promoted'])] = o
        # items nested in a method of an impl (lazy_static initialisers): name them after the impl's type
        for o in self.bodies.values():
            m = re.match(r'^(.*\{impl#\d+\}::[a-z_]+)::(\w+)$', o.id)
            if o.iself is None and m and m.group(1) in self.bodies:
                o.qual = self.bodies[m.group(1)].qual + '::' + m.group(2)
        self.byqual = {}
        for o in self.bodies.values():
            self.byqual.setdefault(o.qual, []).append(o)
        # (trait method id, adt id) -> impl method id
        self.vt = {}
        for im in self.impls:
            t = self.types[im['self']]
            nm = self.tyname(im['self'])
            for tm, m in im['items']:
                self.vt[(tm, nm)] = m
        self.pumps = {self.tyname(im['self']) for im in self.impls
                      if any(tm.endswith('::pumps::BitPump::peek_bits') for tm, m in im['items'])}
        self.adt_variants = {k: [v['name'] for v in a['variants']] for k, a in self.adts.items()}

    def qual(self, o):
        """stable readable name: path with impl index replaced by the self type"""
        if o.iself is not None:
            nm = self.tyname(o.iself)
            nm = nm.split('::')
            mod = o.id.split('::{impl')[0]
            last = o.id.split('::')[-1]
            tr = ''
            if o.itrait:
                tr = ' as ' + o.itrait.split('::')[-1]
            return '%s::<%s%s>::%s' % (mod.replace(self.crate + '::', '', 1), nm[-1], tr, last)
        return o.id.replace(self.crate + '::', '', 1)

    def ty(self, i):
        return self.types[i]

    def tyname(self, i):
        t = self.types[i]
        k = t[0]
        if k in ('int', 'uint'):
            return t[2]
        if k == 'float':
            return 'f%d' % t[1]
        if k == 'adt':
            return t[1]
        if k == 'ref':
            return self.tyname(t[1])
        if k == 'closure':
            return t[1]
        return k

    def scalar(self, i):
        """scalar type name or None"""
        t = self.types[i]
        if t[0] in ('int', 'uint'):
            return t[2]
        if t[0] == 'float':
            return 'f%d' % t[1]
        if t[0] in ('bool', 'char'):
            return t[0]
        return None

    def find(self, suffix):
        """bodies whose qualified name ends with suffix"""
        return [o for o in self.bodies.values() if o.qual == suffix or o.qual.endswith('::' + suffix)]

    def one(self, suffix):
        r = self.find(suffix)
        return r[0] if len(r) == 1 else None


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [x[1] for x in t[2]] + [t[3]]
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    if k == 'assert':
        return [t[4]]
    return []


class CFG:
    def __init__(self, body):
        self.body = body
        n = len(body.blocks)
        self.succ = [succs(b['t']) for b in body.blocks]
        # switch otherwise that is unreachable
        self.pred = [[] for _ in range(n)]
        seen = set()
        order = []
        stack = [(0, iter(self.succ[0]))]
        seen.add(0)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                order.append(b)
                stack.pop()
        self.rpo = list(reversed(order))
        self.idx = {b: i for i, b in enumerate(self.rpo)}
        for b in self.rpo:
            for s in self.succ[b]:
                self.pred[s].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                x = ps[0]
                for p in ps[1:]:
                    y = p
                    while x != y:
                        while self.idx[x] > self.idx[y]:
                            x = idom[x]
                        while self.idx[y] > self.idx[x]:
                            y = idom[y]
                if idom.get(b) != x:
                    idom[b] = x
                    ch = True
        self.idom = idom
        # natural loops
        self.loops = {}
        for b in self.rpo:
            for s in self.succ[b]:
                if self.dom(s, b):
                    self.loops.setdefault(s, set([s]))
                    st = [b]
                    L = self.loops[s]
                    while st:
                        x = st.pop()
                        if x in L:
                            continue
                        L.add(x)
                        st += self.pred[x]
        # nesting-aware order: blocks of a loop stay together is guaranteed by idx within region processing
        self._live()

    def dom(self, a, b):
        while True:
            if a == b:
                return True
            if b == 0:
                return False
            b = self.idom[b]

    def reducible(self):
        for b in self.rpo:
            for s in self.succ[b]:
                if self.idx[s] <= self.idx[b] and not self.dom(s, b):
                    return False
        return True

    def _live(self):
        body = self.body
        self.addr = set()
        use = {}
        deff = {}

        def pl(p, u):
            u.add(p[0])
            for e in p[1]:
                if e[0] == 'i':
                    u.add(e[1])

        def opd(o, u):
            if o[0] in ('copy', 'move'):
                pl(o[1], u)
        for b in self.rpo:
            u, d = set(), set()

            def usev(x):
                for y in x:
                    if y not in d:
                        u.add(y)
            bb = body.blocks[b]
            for s in bb['s']:
                tmp = set()
                if s[0] == '=':
                    r = s[2]
                    self._rv(r, tmp, pl, opd)
                    if r[0] in ('ref', 'rawptr'):
                        p = r[-1]
                        if not any(e[0] == '*' for e in p[1]):
                            self.addr.add(p[0])
                    if s[1][1]:
                        pl(s[1], tmp)
                    usev(tmp)
                    if not s[1][1]:
                        d.add(s[1][0])
                elif s[0] == 'setd':
                    pl(s[1], tmp)
                    usev(tmp)
            t = bb['t']
            tmp = set()
            if t[0] == 'switch':
                opd(t[1], tmp)
            elif t[0] == 'call':
                opd(t[1], tmp)
                for o in t[2]:
                    opd(o, tmp)
                if t[3][1]:
                    pl(t[3], tmp)
            elif t[0] == 'assert':
                opd(t[1], tmp)
            elif t[0] == 'return':
                tmp.add(0)
            usev(tmp)
            if t[0] == 'call' and not t[3][1]:
                d.add(t[3][0])
            use[b], deff[b] = u, d
        self.livein = {b: set() for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                o = set()
                for s in self.succ[b]:
                    o |= self.livein[s]
                n = use[b] | (o - deff[b])
                if n != self.livein[b]:
                    self.livein[b] = n
                    ch = True

    @staticmethod
    def _rv(r, tmp, pl, opd):
        k = r[0]
        if k in ('use', 'repeat'):
            opd(r[1], tmp)
        elif k in ('ref',):
            pl(r[2], tmp)
        elif k == 'rawptr':
            pl(r[1], tmp)
        elif k == 'cast':
            opd(r[2], tmp)
        elif k == 'bin':
            opd(r[2], tmp)
            opd(r[3], tmp)
        elif k == 'un':
            opd(r[2], tmp)
        elif k == 'discr':
            pl(r[1], tmp)
        elif k == 'agg':
            for o in r[2]:
                opd(o, tmp)


def cfg(body):
    if body.cfg is None:
        body.cfg = CFG(body)
    return body.cfg
