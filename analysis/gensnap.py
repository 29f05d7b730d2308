"""Generates specs/facts.json from a dump (used once, when the facts were
reviewed; the checks only read the result)."""
import sys, os, json, gzip, time
from multiprocessing import Pool
sys.path.insert(0, os.path.dirname(__file__))
from facts import *

P = None


def one(q):
    t = time.time()
    w = World(P, ANCH)
    try:
        f = w.facts(q)
    except Undetermined as e:
        return q, None, str(e), sorted(w.ext), time.time() - t
    out = {}
    for k, v in f.f.items():
        o = hasopaque(v)
        out[k] = {'dig': dig(v), 'opaque': o, 'show': pretty.show(v)[:1500]}
    return q, out, f.notes, sorted(w.ext), time.time() - t


if __name__ == '__main__':
    P = Prog(sys.argv[1])
    ANCH = default_anchors(P)
    qs = [b.qual for b in candidates(P)]
    res = {}
    ext = set()
    with Pool(8) as pool:
        for q, o, n, x, t in pool.imap_unordered(one, qs, chunksize=1):
            res[q] = o
            ext |= set(x)
            bad = [k for k, v in (o or {}).items() if v['opaque']]
            if o is None or bad or n or t > 5:
                print(q, '%.1f' % t, 'NONE' if o is None else '', [(k, o[k]['opaque']) for k in bad] if o else '', n)
    print(len(res), sum(len(o or {}) for o in res.values()), len(ext))
    if len(sys.argv) > 2:
        json.dump({'anchors': sorted(ANCH), 'ext': sorted(ext), 'facts': res}, open(sys.argv[2], 'w'), indent=1, sort_keys=True)
