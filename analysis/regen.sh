#!/bin/bash
# Rewrites the reviewed specification from the current /repo (only after a review of what changed; no check calls this).
set -e
cd "$(dirname "$0")/.."
d=$(python3 analysis/build.py)
python3 analysis/gensnap.py $d/lib-rawloader.json specs/facts.json
python3 -c "
import gzip
b=open('$d/lib-rawloader.json','rb').read()
with open('specs/reference.json.gz','wb') as f:
    with gzip.GzipFile('', 'wb', 9, f, mtime=0) as g: g.write(b)
"
python3 analysis/loopspec.py $d/lib-rawloader.json specs/loops.json
python3 analysis/lenspec.py $d/lib-rawloader.json specs/lengths.json
