"""Decides whether a function still computes what the reviewed specification says.

The specification is a set of facts (normal forms) per function, reviewed once
and stored as fingerprints.  When a fact of the current tree has another
fingerprint, the reviewed program itself (specs/reference.json.gz, the same
analysis input) is consulted so that moving code across a function boundary is
recognised: functions whose own facts changed, that were added or removed are
inlined on both sides before the callers are compared."""
import re
import gzip
import json
import os
import resource
import time
import multiprocessing
import multiprocessing.connection
from facts import *
import facts as F
import layout
from structural import unwraps

HERE = os.path.dirname(os.path.abspath(__file__))
SPECS = os.path.join(os.path.dirname(HERE), 'specs')

# entry points: what a user of the crate can call or the trait a decoder implements
def isroot(q):
    if q in ('decode',) or q.endswith('as Decoder>::image'):
        return True
    # bit readers are seen through a model by their users, so their users cannot vouch for them
    if '::pumps::' in q or 'BitPump' in q:
        return True
    for x in ('decoders::<RawLoader>::decode', 'decoders::<RawLoader>::new', 'decoders::<RawLoader>::get_decoder',
              'decoders::cfa::<CFA>::', 'decoders::image::<RawImage>::to_', 'decoders::image::<RawImage>::cam_to_xyz',
              'decoders::image::<RawImage>::neutralwb', 'decoders::image::<RawImage>::is_monochrome',
              'decoders::image::<RawImage>::cropped_cfa', 'imageops::simple_decode', 'imageops::transform::rotate'):
        if q.startswith(x):
            return True
    return False


G = {}
UNROLL = 32


def spec():
    if 'spec' not in G:
        with open(os.path.join(SPECS, 'facts.json')) as f:
            G['spec'] = json.load(f)
    return G['spec']


def setup(dump):
    s = spec()
    G['p'] = Prog(dump)
    G['anch'] = set(s['anchors'])
    G['new'] = World(G['p'], G['anch'], set(s['ext']))
    G['ref'] = None
    G['deadline'] = time.time() + float(os.environ.get('VP_DEADLINE', '400'))


def refworld():
    if G.get('ref') is None:
        p = Prog(os.path.join(SPECS, 'reference.json.gz'))
        G['ref'] = World(p, G['anch'], None)
    return G['ref']


def level0(q):
    """facts of the current tree, as a plain record"""
    w = G['new']
    t = time.time()
    r = {'q': q, 'st': 'ok', 'facts': {}, 'opaque': {}, 'lost': [], 'loops': {}, 'calls': 0, 'why': None}
    if not w.p.byqual.get(q):
        r['st'] = 'missing'
        return r
    try:
        f = w.facts(q, frozenset(), G.get('secs', 150))
    except Undetermined as e:
        r['st'], r['why'] = 'undetermined', str(e)
        return r
    try:
        with limit(G.get('secs', 150)):
            for k, v in f.f.items():
                o = hasopaque(v)
                if o:
                    r['opaque'][k] = o
                r['facts'][k] = dig(v)
    except Undetermined as e:
        r['st'], r['why'], r['facts'] = 'undetermined', str(e), {}
        return r
    r['lost'], r['loops'], r['calls'] = f.lost, f.loops, f.ncalls
    r['t'] = time.time() - t
    return r


def mentioned(vals):
    """anchor functions a set of values refers to"""
    out, seen = set(), set()
    todo = list(vals)
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == 'op' and isinstance(x.a[0], str):
            nm = x.a[0].split('!')[0]
            for y in (nm, 'decoders::' + nm):
                if y in G['anch']:
                    out.add(y)
        elif x.op == 'agg' and x.a[0] in G['anch']:
            out.add(x.a[0])
        if x.op == 'mu' and x.a[0] in pretty.MU:
            i, nx, g, k, m = pretty.MU[x.a[0]]
            todo += [y for y in (i, nx) if y is not None]
        if x.op == 'op' and x.a[0] == 'exits' and x in E.EXITS:
            todo.append(E.EXITS[x])
        todo += list(children(x))
    return out


def callers(p, names):
    """name -> functions whose bodies (closures included) refer to it"""
    if not hasattr(p, '_callers'):
        c = {}
        for b in p.bodies.values():
            own = b.id.split('::{closure')[0]
            ob = p.bodies.get(own)
            oq = ob.qual if ob is not None else b.qual
            for q in refs(p, b):
                c.setdefault(q, set()).add(oq)
        p._callers = c
    return p._callers


def refs(p, b):
    """quals of local functions referenced from a body"""
    out = set()
    todo = [b.blocks]
    while todo:
        x = todo.pop()
        if isinstance(x, str):
            if x in p.bodies:
                out.add(p.bodies[x].qual)
        elif isinstance(x, (list, tuple)):
            todo += x
        elif isinstance(x, dict):
            todo += list(x.values())
    return out


def cmpfacts(rf, nf, only=None):
    """(equal?, undetermined?, differences)"""
    diffs, und = [], []
    keys = sorted(set(rf.f) | set(nf.f))
    for k in keys:
        if only and not only(k):
            continue
        a, b = rf.f.get(k), nf.f.get(k)
        if a is None or b is None:
            # an argument left as it was
            if k.startswith('a') and '.' not in k and (a is None or b is None):
                other = a if a is not None else b
                if other.op == 'sym' and other.a[0] == k:
                    continue
            diffs.append(k)
            continue
        o = hasopaque(b)
        if dig(a) == dig(b) or dig(prune(a)) == dig(prune(b)) or samewhereok(rf, nf, k):
            if o:
                und.append((k, o))
            continue
        if o and not hasopaque(a):
            und.append((k, o))
        else:
            diffs.append(k)
    if nf.lost and diffs:
        und += [(k, 'write through unknown reference') for k in diffs]
        diffs = []
    return diffs, und


def samewhereok(rf, nf, k):
    c = 'ok' if 'ok' in rf.f else 'some'
    if k == c or c not in rf.f or c not in nf.f or rf.f[c] is TRUE or dig(rf.f[c]) != dig(nf.f[c]) and dig(prune(rf.f[c])) != dig(prune(nf.f[c])):
        return False
    try:
        a, b = masked(rf.f[k], rf.f[c]), masked(nf.f[k], nf.f[c])
        return dig(a) == dig(b) or dig(prune(a)) == dig(prune(b))
    except TooBig:
        return False


def resolve(task):
    """a function whose level-0 facts differ: is the difference real?
    returns (q, verdict, detail) ; verdict in equal / differ / undetermined"""
    q, keys, changed = task
    keys = set(keys) if keys is not None else None
    only = (lambda k: k in keys) if keys else None
    changed = set(changed)
    R, N = refworld(), G['new']
    G['cur'] = q
    late = None
    try:
        held = bool(G.get('held')) and (q in G['held'] or heldby(q))
        if held:
            G['partial'](('%s' % q, 'undetermined', 'a private type it uses is laid out differently: ' + ', '.join(sorted(G['types'])), ''))
            G['cur'] = None
            late = G['deadline']
            G['deadline'] = min(late, time.time() + 60)
        v, d, t = judge(q, only, changed, frozenset(), 0)
        if v == 'differ' and held:
            return q, 'undetermined', 'a private type it uses is laid out differently: ' + ', '.join(sorted(G['types'])), ''
        return q, v, d, t
    except Exception:   # analysis failure is not a verdict
        import traceback
        return q, 'undetermined', traceback.format_exc()[-1500:], ''
    finally:
        if late:
            G['deadline'] = late


def heldby(q):
    """does it call, outside the reviewed set of anchors, something that deals with a type laid out differently?"""
    for W in (refworld(), G['new']):
        for b in W.p.byqual.get(q, []):
            if refs(W.p, b) & G['held']:
                return True
    return False


def both(q, X, secs=60, unroll=0, cut=120, cases=1, long=False):
    R, N = refworld(), G['new']
    left = G['deadline'] - time.time()
    if left < 5:
        raise Undetermined('out of time')
    secs = int(max(5, min(secs, left)))
    rf = R.facts(q, frozenset(x for x in X if R.has(x)), secs, unroll, cut, cases, long)
    nf = N.facts(q, frozenset(x for x in X if N.has(x)), secs, unroll, cut, cases, long)
    return rf, nf


def bothcmp(q, X, only, **kw):
    """both sides' facts and their comparison, within the time left"""
    rf, nf = both(q, X, **kw)
    left = G['deadline'] - time.time()
    with limit(max(5, min(60, left))):
        return (rf, nf) + cmpfacts(rf, nf, only)


# what these make of data that ends too early is not stated: zeros, or a failure
LONGFN = re.compile(r'^decoders::packed::|::decode_\w+$')


def equalwith(q, only, changed, X):
    """compare q with more and more changed functions inlined"""
    last = None
    for rnd in range(4):
        try:
            rf, nf, diffs, und = bothcmp(q, X, only)
        except Undetermined as e:
            if last:
                return 'differ', last[0], last[1] + '; with more inlining: %s' % e
            return 'undetermined', str(e), ''
        if diffs and rnd == 0 and G.get('cur') == q and not und:
            G.get('partial', id)((q, 'differ', diffs, 'closer comparison ran out of memory or time'))
        if diffs:
            # larger case distinctions kept; short loops written out on both sides
            kws = [{'cut': 3000}, {'cut': 3000, 'cases': 6}, {'unroll': UNROLL}, {'unroll': UNROLL, 'cut': 1000, 'cases': 6}]
            if LONGFN.search(q):
                kws = [{'long': True}] + kws
            for kw in kws:
                try:
                    _, _, d2, u2 = bothcmp(q, X, only, **kw)
                except Undetermined:
                    continue
                if not d2 and not u2:
                    diffs, und = [], []
                    break
        if not diffs:
            if und:
                return 'undetermined', '; '.join('%s: %s' % u for u in und), ''
            return 'equal', sorted(X), ''
        if rnd == 0:
            # functions that did not change, but whose body one side may have written out
            vals = [f.f[k] for f in (rf, nf) for k in diffs if k in f.f]
            plain = {x for x in mentioned(vals) if loopfree(x)} - {q}
            if plain - set(X):
                try:
                    _, _, d2, u2 = bothcmp(q, frozenset(X) | plain, only)
                    if not d2 and not u2:
                        return 'equal', sorted(frozenset(X) | plain), ''
                except Undetermined:
                    pass
        last = (diffs, '\n'.join('%s\n  reviewed: %s\n  current:  %s' % (
            k, short(rf.f.get(k)), short(nf.f.get(k))) for k in diffs[:4]))
        more = (mentioned([v for k, v in rf.f.items()]) | mentioned([v for k, v in nf.f.items()])) & changed
        more -= {q}
        if more <= set(X):
            break
        X = frozenset(X) | more
    return 'differ', last[0], last[1]


def loopfree(q):
    for w in (refworld(), G['new']):
        if w.has(q) and cfg(w.p.byqual[q][0]).loops:
            return False
    return True


def short(n, lim=700):
    if n is None:
        return '(absent)'
    s = pretty.show(n)
    return s if len(s) <= lim else s[:lim] + '...'


def judge(q, only, changed, X, depth):
    R, N = refworld(), G['new']
    if R.has(q) and N.has(q):
        v, d, txt = equalwith(q, only, changed, X)
        if v != 'differ':
            return v, d, txt
    else:
        v, d, txt = 'differ', ['function'], 'function %s' % ('is gone' if R.has(q) else 'is new')
    if isroot(q) or depth >= 3:
        return v, d, txt
    # a helper may change if nobody who uses it can tell
    cs = set()
    for W in (R, N):
        cs |= callers(W.p, None).get(q, set())
    cs.discard(q)
    cs = {c for c in cs if not c.endswith(' as Debug>::fmt')}
    if not cs:
        # nobody uses it
        return ('equal', ['unused'], '') if not (R.has(q) and callers(R.p, None).get(q)) else (v, d, txt)
    if v == 'differ' and 'ok' in d and N.has(q):
        # a caller that panics on failure says nothing about when the helper fails
        if any(unwraps(N.p, b, q) for b in N.p.bodies.values()):
            return v, d, txt
    for c in sorted(cs):
        if not (R.has(c) or N.has(c)):
            continue
        v2, d2, t2 = judge(c, None, changed | {q}, frozenset(X) | {q}, depth + 1) if not R.has(c) or not N.has(c) \
            else judge_caller(c, changed | {q}, frozenset(X) | {q}, depth + 1)
        if v2 == 'differ':
            return v, d, txt
        if v2 == 'undetermined':
            return (v, d, txt) if R.has(q) and N.has(q) else ('undetermined', d2, t2)
    return 'equal', ['callers agree: ' + ', '.join(sorted(cs))], ''


def judge_caller(c, changed, X, depth):
    v, d, t = equalwith(c, None, changed, X)
    if v == 'differ' and not isroot(c) and depth < 3:
        return judge(c, None, changed, X, depth)
    return v, d, t


def _serve(fn, conn, mem):
    """worker: takes items until told to stop; what it has found so far is sent along the way"""
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
    except (ValueError, OSError):
        pass
    G['partial'] = lambda r: conn.send(('partial', r))
    while True:
        try:
            item = conn.recv()
        except EOFError:
            return
        if item is None:
            return
        try:
            r = fn(item)
        except MemoryError:
            os._exit(3)
        conn.send(('done', r))


def run_pool(fn, items, lost):
    """fn over items in worker processes.  A worker that dies (memory) or hangs costs its item only:
    its last partial result counts, else lost(item)"""
    items = list(items)
    if not items:
        return []
    ctx = multiprocessing.get_context('fork')
    n = min(8, len(items))
    mem = min(10 << 30, (26 << 30) // n)
    todo = list(reversed(items))
    out, live = [], {}
    hard = float(os.environ.get('VP_HARD', '330'))

    def start():
        here, there = ctx.Pipe()
        pr = ctx.Process(target=_serve, args=(fn, there, mem), daemon=True)
        pr.start()
        there.close()
        live[here] = [pr, None, None, 0]
        give(here)

    def give(c):
        if not todo:
            try:
                c.send(None)
            except OSError:
                pass
            live.pop(c)
            return
        it = todo.pop()
        live[c][1:] = [it, None, time.time()]
        c.send(it)

    for _ in range(n):
        start()
    while live:
        for c in multiprocessing.connection.wait(list(live), 5):
            w = live[c]
            try:
                kind, r = c.recv()
            except (EOFError, OSError):
                out.append(w[2] if w[2] is not None else lost(w[1]))
                live.pop(c)
                if todo:
                    start()
                continue
            if kind == 'partial':
                w[2] = r
            else:
                out.append(r)
                give(c)
        for c, w in list(live.items()):
            if time.time() - w[3] > hard:
                w[0].kill()
                out.append(w[2] if w[2] is not None else lost(w[1]))
                live.pop(c)
                if todo:
                    start()
    return out


def lost0(q):
    return {'q': q, 'st': 'undetermined', 'facts': {}, 'opaque': {}, 'lost': [], 'loops': {}, 'calls': 0, 'why': 'out of memory or time'}


SLOW = ['<SrwDecoder as', 'decode_srw3', 'decode_arw1', '<RawLoader>::new', 'update_from_toml', 'get_decoder', 'decode_compressed',
        'dng::<DngDecoder as Decoder>::image', 'cr2::']


def sortslow(qs):
    def k(q):
        for i, s in enumerate(SLOW):
            if s in q:
                return (i, q)
        return (len(SLOW), q)
    return sorted(qs, key=k)


def st_missing(r):
    return r['st'] == 'missing'


def check(oblig):
    """oblig: {function: None (all facts) or set of fact names}.
    returns report dict"""
    s = spec()
    rep = {'functions': 0, 'facts': 0, 'matched': 0, 'equal_after_inlining': [], 'undetermined': [], 'violations': [], 'samples': []}
    t0 = time.time()
    rank = {'bounded': 0, 'unproven': 1, 'infinite': 2}
    rep['loops'] = {}
    rep['callsites'] = 0
    res = run_pool(level0, sortslow(oblig), lost0)
    differ = []
    for r in sorted(res, key=lambda r: r['q']):
        q = r['q']
        sf = s['facts'].get(q) or {}
        want = {k: v for k, v in sf.items() if oblig[q] is None or k in oblig[q]}
        rep['functions'] += 1
        rep['facts'] += len(want)
        rep['callsites'] += r['calls']
        for k, v in r['loops'].items():
            if k not in rep['loops'] or rank[rep['loops'][k][0]] < rank[v[0]]:
                rep['loops'][k] = v
        if r['st'] == 'ok':
            out = r['facts']
            bad = []
            for k, v in want.items():
                if out.get(k) == v['dig']:
                    rep['matched'] += 1
                    if len(rep['samples']) < 6:
                        rep['samples'].append({'function': q, 'fact': k, 'form': v['show'][:300]})
                else:
                    bad.append(k)
            extra = [k for k in out if k not in sf] if oblig[q] is None else []
            if bad or extra:
                differ.append((q, bad + extra))
        elif want or r['st'] == 'missing':
            differ.append((q, None if st_missing(r) else list(want)))
    if not differ:
        rep['wall'] = time.time() - t0
        return rep
    # which functions changed at all?
    rest = [q for q in sortslow(s['facts']) if q not in oblig]
    changed = {q for q, _ in differ}
    G['secs'] = 60
    for r in run_pool(level0, rest, lost0):
        q = r['q']
        if r['st'] != 'ok' or any(r['facts'].get(k) != v['dig'] for k, v in s['facts'][q].items()) or set(r['facts']) != set(s['facts'][q]):
            changed.add(q)
    other, grown = layout.changedtypes(refworld().p, G['p'])
    if other or grown:
        G['types'] = other | grown
        G['held'] = layout.holders(refworld().p, other, grown) | layout.holders(G['p'], other, grown)
        changed |= {q for q in G['held'] if q in G['anch']}
        rep['types_laid_out_differently'] = sorted(other | grown)
    rep['changed_functions'] = sorted(changed)
    for r in run_pool(resolve, [(q, k, sorted(changed)) for q, k in differ],
                      lambda t: (t[0], 'undetermined', 'out of memory or time', '')):
        q, v, d, txt = r
        if v == 'equal':
            rep['equal_after_inlining'].append({'function': q, 'how': d})
        elif v == 'undetermined':
            rep['undetermined'].append({'function': q, 'why': str(d)[:800]})
        else:
            rep['violations'].append({'function': q, 'facts': d, 'detail': txt})
    rep['wall'] = time.time() - t0
    return rep
