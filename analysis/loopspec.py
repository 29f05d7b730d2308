"""Generates specs/loops.json: loops whose bound is not found automatically."""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
import compare as C
import structural as S
from program import cfg
if __name__ == '__main__':
    C.setup(sys.argv[1])
    p = C.G['p']
    r = C.check({q: None for q in C.spec()['facts']})
    out, n = S.loops(p, r['loops'])
    print(n)
    json.dump({k: sorted(x[1] for x in v) for k, v in sorted(out.items())}, open(sys.argv[2], 'w'), indent=1)
    for k, v in sorted(out.items()):
        print(k, v)
