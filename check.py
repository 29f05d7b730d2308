#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]

Rebuilds the type-checked program of /repo's working tree, applies the rules of
one property to it and writes evidence/<property>.json.
exit 0: held on everything analysed; 1: VIOLATION; 2: no answer (does not build)."""
import argparse
import hashlib
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'analysis'))
sys.setrecursionlimit(200000)
os.environ.setdefault('PYTHONHASHSEED', '0')
import build            # noqa: E402
import props            # noqa: E402


def known(pid):
    out = []
    try:
        for ln in open(os.path.join(HERE, 'known_findings.txt')):
            ln = ln.strip()
            if ln.startswith('finding: property=%s ' % pid):
                key, _, txt = ln[len('finding: property=%s ' % pid):].partition(' -- ')
                out.append((key.strip(), txt.strip()))
    except FileNotFoundError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--dump', help='use an existing dump directory')
    a = ap.parse_args()
    t0 = time.time()
    if a.tier == 'thorough':
        os.environ['VP_DEADLINE'] = '2400'
    else:
        os.environ.setdefault('VP_DEADLINE', '480')
    try:
        d = a.dump or build.dump()
    except build.BuildError as e:
        print('cannot analyse: ' + str(e))
        return 2
    import rules
    ctx = rules.Ctx(d, build.REPO, a.tier, t0)
    vs, cov, notes = rules.run(a.pid, ctx)
    kn = dict(known(a.pid))
    new = []
    for v in vs:
        k = v['key']
        if k in kn:
            print('KNOWN-FINDING: property=%s %s' % (a.pid, kn[k] or k))
        else:
            new.append(v)
    meta = props.META[a.pid]
    ev = {
        'property': a.pid,
        'tier': a.tier,
        'seed': int(os.environ.get('VERIF_SEED') or 1),
        'level': meta['level'],
        'coverage': dict(explanation=meta['rule'], **cov),
        'assumptions': props.ASSUME + meta.get('assume', []),
        'wall_s': round(time.time() - t0, 2),
        'violations': len(new),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', a.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')
    for n in notes:
        print('note: ' + n)
    if new:
        rp = os.path.join(HERE, 'build', 'replay')
        os.makedirs(rp, exist_ok=True)
        f = os.path.join(rp, '%s-%s.json' % (a.pid, hashlib.sha1(json.dumps([v['key'] for v in new]).encode()).hexdigest()[:10]))
        with open(f, 'w') as h:
            json.dump({'property': a.pid, 'command': 'python3 check.py %s --tier %s' % (a.pid, a.tier), 'violations': new}, h, indent=1)
        for v in new[:12]:
            print('  %s [%s] %s: %s' % (v.get('at', ''), v['rule'], v['where'], v['what'][:900]))
        print('VIOLATION property=%s replay=%s' % (a.pid, f))
        return 1
    print('%s: held; %s' % (a.pid, ', '.join('%s=%s' % (k, v) for k, v in cov.items() if isinstance(v, int))))
    return 0


if __name__ == '__main__':
    sys.exit(main())
