"""The rules of each property, on one dump of the program."""
import os
import json
import glob
import compare as C
import structural as S
import camdb
import lengths
import props
from program import Prog


class Ctx:
    def __init__(self, dumpdir, repo, tier, t0):
        self.d, self.repo, self.tier, self.t0 = dumpdir, repo, tier, t0
        C.setup(os.path.join(dumpdir, 'lib-rawloader.json'))
        if tier == 'thorough':
            C.G['secs'] = 600
        self.p = C.G['p']
        self._g = None

    @property
    def graph(self):
        if self._g is None:
            self._g = S.Graph(self.p)
        return self._g

    def bins(self):
        out = {}
        for f in glob.glob(os.path.join(self.d, 'bin-*.json')):
            n = os.path.basename(f)[4:-5]
            if n.startswith('build_script'):
                continue
            q = Prog(f)
            out[n] = (q, S.Graph(q))
        return out


def conv(vs):
    return [{'key': v.key(), 'rule': v.rule, 'where': v.where, 'what': v.what, 'at': v.span} for v in vs]


def spanof(p, q):
    bs = p.byqual.get(q)
    return bs[0].span if bs and getattr(bs[0], 'span', None) else ''


def run(pid, ctx):
    vs, cov, notes = [], {}, []
    spec = C.spec()
    ob = props.oblig(pid, spec)
    if pid == 'C03':
        # every function is needed for the loop bounds
        ob = {q: None for q in spec['facts']}
    rep = None
    if ob:
        rep = C.check(ob)
        cov['functions_analysed'] = rep['functions']
        cov['facts_required'] = rep['facts']
        cov['facts_identical'] = rep['matched']
        cov['call_sites_evaluated'] = rep['callsites']
        cov['loops_summarised'] = len(rep['loops'])
        cov['functions_equal_after_inlining'] = rep['equal_after_inlining'][:50]
        cov['functions_undetermined'] = rep['undetermined'][:50]
        cov['samples'] = rep['samples']
        for u in rep['undetermined']:
            notes.append('undetermined: %s: %s' % (u['function'], u['why'][:200]))
    if rep and pid != 'C03':
        for v in rep['violations']:
            vs.append({'key': 'fact|%s|%s' % (v['function'], ','.join(map(str, v['facts']))), 'rule': 'reviewed-form', 'where': v['function'],
                       'what': 'no longer computes the reviewed %s\n%s' % (', '.join(map(str, v['facts'][:6])), v['detail']), 'at': spanof(ctx.p, v['function'])})
    f = globals().get('rule_' + pid)
    if f:
        v2, c2 = f(ctx, rep)
        vs += v2
        cov.update(c2)
    return vs, cov, notes


def rule_C01(ctx, rep):
    with open(os.path.join(ctx.repo, 'Cargo.toml')) as f:
        v, n = S.contain(ctx.p, ctx.graph, f.read())
    return conv(v), n


def rule_C02(ctx, rep):
    v, n = S.memsafe(ctx.p, ctx.graph)
    return conv(v), n


def rule_C03(ctx, rep):
    vs = []
    with open(os.path.join(C.SPECS, 'loops.json')) as f:
        seen = {d for ds in json.load(f).values() for d in ds}
    un, n = S.loops(ctx.p, rep['loops'])
    bad = {v['function'] for v in rep['violations']}
    calls = C.callers(ctx.p, None)
    reviewed = 0
    unsure = []
    for own, ls in sorted(un.items()):
        for kind, digest, span in ls:
            if kind == 'infinite':
                vs.append(S.V('loop-never-ends', own, 'nothing the loop condition reads changes in the loop', span))
            elif digest in seen:
                reviewed += 1
            else:
                up, todo = set(), [own]
                while todo:
                    x = todo.pop()
                    if x in up:
                        continue
                    up.add(x)
                    if x not in C.spec()['facts']:
                        todo += list(calls.get(x, ()))
                if up & bad:
                    vs.append(S.V('loop-no-bound', own, 'no counter moves towards a bound of this loop (%s), and the function does not compute what it was reviewed to compute' % kind, span))
                else:
                    unsure.append('%s %s' % (own, span))
    n['reviewed_data_driven'] = reviewed
    n['unproven_but_equivalent_to_reviewed'] = unsure
    comps = S.recursion(ctx.p, ctx.graph)
    n['recursive_cycles'] = len(comps)
    for c in comps:
        if not S.depthguard(ctx.p, ctx.graph, c):
            names = sorted(S.owner(ctx.p, x) for x in c)
            vs.append(S.V('recursion-no-bound', names[0], 'recursive cycle %s has no call that both counts depth and is guarded by it' % ', '.join(names)))
    return conv(vs), n


def rule_C04(ctx, rep):
    v, n = S.determinism(ctx.p, ctx.graph)
    return conv(v), n


def rule_C07(ctx, rep):
    """length of the data derived as a polynomial; held against width*height*channels"""
    spec = C.spec()
    with open(os.path.join(C.SPECS, 'lengths.json')) as f:
        rev = json.load(f)
    vs, n = [], {'images': 0, 'proved': 0, 'as_reviewed': 0, 'unproved': [], 'summaries_used': set()}
    doubt = {}
    for q, r, used, why in C.run_pool(lengths.derive, C.sortslow(lengths.todo(spec)), lambda q: (q, None, [], 'out of memory or time')):
        n['summaries_used'] |= set(used)
        n['images'] += 1
        if r is not None and r and all(x[1] for x in r):
            n['proved'] += 1
        elif r is not None and r and all(x[1] or rev.get(q, {}).get(x[0]) == [x[2], x[3]] for x in r):
            n['as_reviewed'] += 1
        else:
            doubt[q] = (r, why)
    if doubt:
        # not derivable any more: is that because the code computes something else, or because it is written another way?
        ob = {}
        for q in doubt:
            ob[q] = {k for k in spec['facts'][q] if k.split('.')[-1] in ('data', 'width', 'height', 'cpp', 'colors')}
        for q in spec['facts']:
            if vecret(C.refworld().p, q):
                ob[q] = {k for k in spec['facts'][q] or {} if k.split('.')[0] in ('ret', 'val')} or None
        rp = C.check(ob)
        bad = {v['function']: v for v in rp['violations']}
        calls = C.callers(ctx.p, None)
        for q, (r, why) in sorted(doubt.items()):
            hit = [b for b in bad if b == q or reaches(calls, b, q)]
            txt = '; '.join(x[4] for x in r or [] if not x[1]) or why
            if hit:
                vs.append({'key': 'size|%s' % q, 'rule': 'data-length', 'where': q, 'at': spanof(ctx.p, hit[0]) or spanof(ctx.p, q),
                           'what': 'the data is not width*height*channels long: %s (changed: %s)' % (txt, ', '.join(hit))})
            else:
                n['unproved'].append('%s: %s' % (q, txt[:300]))
    n['summaries_used'] = len(n['summaries_used'])
    return vs, n


def vecret(p, q):
    bs = p.byqual.get(q, [])
    if len(bs) != 1:
        return False
    t = p.types[bs[0].locals[0]]
    if t[0] == 'adt' and t[1] in (lengths.RESULT, lengths.OPTION) and t[2]:
        t = p.types[t[2][0]]
    return t[0] == 'adt' and t[1] == lengths.VEC or t[0] == 'tuple' and any(p.types[x][0] == 'adt' and p.types[x][1] == lengths.VEC for x in t[1]) \
        or t[0] == 'adt' and t[1] in lengths.Lengths.SIZED


def reaches(calls, b, q):
    """does q call b, directly or not?"""
    seen, todo = set(), [b]
    while todo:
        x = todo.pop()
        if x == q:
            return True
        if x not in seen:
            seen.add(x)
            todo += list(calls.get(x, ()))
    return False


def rule_C09(ctx, rep):
    with open(os.path.join(C.SPECS, 'cameras.json')) as f:
        spec = json.load(f)
    v, n = camdb.check(ctx.repo, spec)
    return [{'key': 'camera|%s|%s' % x, 'rule': 'camera-table', 'where': x[0], 'what': x[1], 'at': x[0]} for x in v], n


def rule_C11(ctx, rep):
    v, n = S.swallowed(ctx.p, ctx.graph)
    return conv(v), n


def rule_C20(ctx, rep):
    v, n = S.effects(ctx.p, ctx.graph, ctx.bins())
    return conv(v), n
