"""Generates specs/lengths.json: the reviewed length and product of the images whose length is not proved automatically."""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000)
import compare as C
import lengths
if __name__ == '__main__':
    C.setup(sys.argv[1])
    out = {}
    for q, r, used, why in C.run_pool(lengths.derive, C.sortslow(lengths.todo(C.spec())), lambda q: (q, None, [], 'lost')):
        if r is None:
            print(q, 'not derived', why)
        for x in r or []:
            if not x[1]:
                out.setdefault(q, {})[x[0]] = [x[2], x[3]]
                print(q, x[0], 'not proved')
    json.dump(out, open(sys.argv[2], 'w'), indent=1, sort_keys=True)
