"""Per-function facts: the normal form of what a function returns and writes.

A fact is one component of a function's summary: for a function returning
Result the condition for success and the value on success; for a decoder's
image() each field of the image; for everything else the returned value and the
final contents of what its &mut parameters point to."""
import gzip
import json
import os
import signal
import time
from nodes import *
import nodes
import engine as E
from engine import Engine, State, summarise, GiveUp, Diverged, RESULT, OPTION
from program import Prog, cfg
import pretty
import fp as fpm

RAWIMAGE = 'rawloader::decoders::image::RawImage'
RAWFIELDS = ['make', 'model', 'clean_make', 'clean_model', 'width', 'height', 'cpp', 'wb_coeffs', 'whitelevels',
             'blacklevels', 'xyz_to_cam', 'cfa', 'crops', 'orientation', 'data']
NEWIMG = 'image::<RawImage>::new'


class Undetermined(Exception):
    pass


class TimeLimit(BaseException):
    """not an Exception: nothing inside the analysis may swallow it"""


class limit:
    """time limit for a block; it keeps firing until the block is left.  Limits nest."""
    stack = []

    def __init__(self, seconds):
        self.end = time.time() + seconds

    @staticmethod
    def arm():
        if limit.stack:
            d = min(x.end for x in limit.stack) - time.time()
            signal.setitimer(signal.ITIMER_REAL, max(d, 0.01), 2.0)
        else:
            signal.setitimer(signal.ITIMER_REAL, 0)

    @staticmethod
    def fire(*a):
        if limit.stack and min(x.end for x in limit.stack) <= time.time():
            raise TimeLimit()

    def __enter__(self):
        signal.signal(signal.SIGALRM, limit.fire)
        limit.stack.append(self)
        limit.arm()
        return self

    def __exit__(self, t, v, tb):
        signal.setitimer(signal.ITIMER_REAL, 0)
        limit.stack.remove(self)
        limit.arm()
        if t is not None and issubclass(t, (TimeLimit, MemoryError)) and (self.end <= time.time() or t is MemoryError):
            raise Undetermined('time limit' if t is TimeLimit else 'memory limit') from None
        return False


def generic_args(p, b):
    for t in b.locals[1:b.argc + 1]:
        x = p.types[t]
        while x[0] in ('ref', 'ptr'):
            x = p.types[x[1]]
        if x[0] == 'param' and x[1] != 'Self':
            return True
        if x[0] == 'dyn' and 'Fn' in str(x):
            return True
    return False


def candidates(p):
    """functions of the program that carry facts"""
    for b in sorted(p.bodies.values(), key=lambda b: b.qual):
        if b.kind not in ('Fn', 'AssocFn'):
            continue
        q = b.qual
        if any(x in q for x in (' as Debug>', ' as Clone>', ' as PartialEq>', ' as FromPrimitive>', '__stability',
                                ' as LazyStatic>', ' as Deref>', ' as Copy>', ' as StructuralPartialEq>')) \
                and not q.endswith('__static_ref_initialize'):
            continue
        yield b


def default_anchors(p):
    """level-0 boundary: functions kept as symbols inside their callers"""
    withclosure = {b.id.split('::{closure')[0] for b in p.bodies.values() if '{closure' in b.id}
    out = set()
    for b in candidates(p):
        if generic_args(p, b) or '__static_ref_initialize' in b.qual:
            continue
        if len(b.blocks) <= 6 and not cfg(b).loops and b.id not in withclosure:
            continue
        out.add(b.qual)
    return out


# evaluated with smaller case distinctions from the start (larger ones do not fit)
SMALLCUT = {'decoders::srw::<SrwDecoder>::decode_srw3'}


class World:
    def __init__(self, prog, anchors, known_ext=None):
        self.p = prog
        self.anchors = anchors
        self.known_ext = known_ext
        self.memo = {}
        self.ext = set()

    def has(self, qual):
        return len(self.p.byqual.get(qual, [])) == 1

    def facts(self, qual, inline=frozenset(), seconds=120, unroll=0, cut=120, cases=1, long=False):
        key = (qual, inline, unroll, cut, cases, long)
        if key in self.memo:
            r = self.memo[key]
            if isinstance(r, Exception):
                raise r
            return r
        try:
            if cut == 120 and qual in SMALLCUT:
                cut = 30
            E.CUT[0] = cut
            nodes.LONG[0] = long
            try:
                r = self._facts(qual, inline, seconds, unroll, cases)
            except Undetermined as e:
                if cut != 120 or ' TooBig' not in str(e):
                    raise
                # smaller case distinctions
                E.CUT[0] = 30
                r = self._facts(qual, inline, seconds, unroll, cases)
        except Undetermined as e:
            self.memo[key] = e
            raise
        finally:
            E.CUT[0] = 120
            nodes.LONG[0] = False
        self.memo[key] = r
        return r

    def _facts(self, qual, inline, seconds, unroll=0, cases=1):
        bs = self.p.byqual.get(qual, [])
        if len(bs) != 1:
            raise Undetermined('%d functions named %s' % (len(bs), qual))
        b = bs[0]
        pset = self.anchors - inline
        e = Engine(self.p, lambda q: q in pset)
        e.known_ext = self.known_ext
        e.unroll = unroll
        e.casewise = cases
        if '::pumps::' in qual or 'BitPump' in qual:
            e.pumps = False

        try:
            with limit(seconds):
                try:
                    s = summarise(e, b)
                except Diverged:
                    s = {'ret': mk('op', ('diverges',)), 'mem': {}}
                self.ext |= e.ext
                f = {}
                ret = s['ret']
                retty = self.p.types[b.locals[0]]
                self.split(f, ret, retty)
                for k, v in s['mem'].items():
                    self.splitmem(f, k, v)
        except (GiveUp, TooBig, RecursionError, Undetermined) as x:
            raise Undetermined('%s: %s %s' % (qual, type(x).__name__, x))
        r = Facts(f, sorted(set(e.notes)), b, len(e.callsites))
        r.loops = dict(e.loopinfo)
        return r

    def splitmem(self, f, k, v):
        if v.op == 'agg' and v.a[0] in self.p.adts and len(self.p.adts[v.a[0]]['variants']) == 1:
            for (nm, t), x in zip(self.p.adts[v.a[0]]['variants'][0]['fields'], v.a[2]):
                f['%s.%s' % (k, nm)] = x
        else:
            f[k] = v

    def split(self, f, ret, ty):
        if ty[0] == 'adt' and ty[1] in (RESULT, OPTION):
            okv = 0 if ty[1] == RESULT else 1
            nm = 'ok' if ty[1] == RESULT else 'some'
            import models
            cond = models.isvar(self._eng(), ret, okv)
            f[nm] = cond
            if cond is FALSE:
                return
            val = models.payload(self._eng(), ret, okv, None)
            if cond is not TRUE:
                val = constrain(val, cond)
            inner = self.p.types[ty[2][0]] if ty[2] else ['?']
            if inner[0] == 'adt' and inner[1] == RAWIMAGE:
                for i, fn in enumerate(RAWFIELDS):
                    f['img.' + fn] = lift(lambda x: imgfield(self, x, i, fn), val)
                return
            self.splitval(f, 'val', val, cond)
            return
        if ty[0] == 'adt' and ty[1] == RAWIMAGE:
            for i, fn in enumerate(RAWFIELDS):
                f['img.' + fn] = lift(lambda x: imgfield(self, x, i, fn), ret)
            return
        self.splitval(f, 'ret', ret, TRUE)

    def splitval(self, f, nm, val, cond):
        if val.op == 'agg' and val.a[0] in self.p.adts and len(self.p.adts[val.a[0]]['variants']) == 1:
            for (fn, t), x in zip(self.p.adts[val.a[0]]['variants'][0]['fields'], val.a[2]):
                f['%s.%s' % (nm, fn)] = x
        elif val.op == 'agg' and val.a[0] == 'tuple':
            for i, x in enumerate(val.a[2]):
                f['%s.%d' % (nm, i)] = x
        else:
            f[nm] = val

    def _eng(self):
        if not hasattr(self, '_e'):
            self._e = Engine(self.p)
        return self._e


def imgfield(w, x, i, fn):
    """field of an image; RawImage::new(camera, w, h, wb, data) is understood"""
    if x.opq and x.op == 'opaque':
        return x
    if x.op == 'agg':
        v = x.a[2][i]
        return lift(fixfld, v)
    return fixfld(mk('op', ('fld', x, fn)))


def fixfld(v):
    if v.op == 'op' and v.a[0] == 'fld' and v.a[1].op == 'op' and v.a[1].a[0] == NEWIMG and len(v.a[1].a) == 6:
        _, cam, wd, ht, wb, data = v.a[1].a
        fn = v.a[2]
        if fn == 'width':
            return wd
        if fn == 'height':
            return ht
        if fn == 'cpp':
            return ONE
        if fn == 'wb_coeffs':
            return wb
        if fn == 'data':
            return data
        return lift(lambda c: mk('op', ('camera', c, fn)), cam)
    return v


class Facts:
    def __init__(self, f, notes, body, ncalls):
        self.f = f
        self.notes = notes
        self.body = body
        self.ncalls = ncalls
        self.lost = [n for n in notes if 'unknown reference' in n]


def hasopaque(n, seen=None):
    """does the meaning of n involve something the analysis gave up on?"""
    if seen is None:
        seen = set()
    todo = [n]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'opaque':
            return x.a[0]
        if x.op == 'mu' and x.a[0] in pretty.MU:
            i, nx, g, k, m = pretty.MU[x.a[0]]
            todo += [y for y in (i, nx) if y is not None]
        if x.op == 'op' and x.a[0] == 'exits' and x in E.EXITS:
            todo.append(E.EXITS[x])
        if x.op == 'op' and x.a[0] in ('exits', 'kexit'):
            todo += list(E.LOOPMU.get(x.a[1], ()))
        todo += list(children(x))
    return None


BOT = mk('op', ('bot',))


def masked(v, cond):
    """v where cond holds, nothing elsewhere: independent of how don't-care cases were filled"""
    if v.op == 'agg':
        return mk('agg', (v.a[0], v.a[1], tuple(masked(x, cond) for x in v.a[2])))
    if v.op == 'arr' and len(v.a[0]) <= 64:
        return mk('arr', (tuple(masked(x, cond) for x in v.a[0]),))
    return ITE(cond, v, BOT)


def dig(n):
    return fpm.fph(n)
