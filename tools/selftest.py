"""Determinism: the same seeds in processes with different PYTHONHASHSEED give the same histories.

python3 tools/selftest.py [N] [C01 ...]
"""
import json
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from dsim.run import spawn

n = sys.argv[1] if len(sys.argv) > 1 else '40'
props = sys.argv[2:] or [c['property'] for c in json.load(open(os.path.join(V, 'MANIFEST.json')))['checks']]
bad = 0
for p in props:
    ps = [spawn([p, '--digests', n, '--seed', '7'], h, stdout=subprocess.PIPE) for h in (0, 3, 3, 11)]
    outs = [x.communicate()[0] for x in ps]
    same = len(set(outs)) == 1 and outs[0].strip() != b'' and not any(x.returncode for x in ps)
    print('%s: %d histories, %s' % (p, len(outs[0].splitlines()), 'same' if same else 'DIFFERENT'))
    bad += not same
sys.exit(1 if bad else 0)
