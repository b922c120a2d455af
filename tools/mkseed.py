#!/usr/bin/env python3
"""development tool: mkseed.py ID PROPERTY FILE  (old/new/demo/needs/breaks read from a python file)"""
import json, os, subprocess, sys
RP = os.environ.get('SEED_REPO', '/repo')
OUT = os.environ.get('SEED_OUT', '/verif/seeded')
spec = {}
exec(open(sys.argv[1]).read(), spec)
for b in spec['BUGS']:
    d = f"{OUT}/{b['id']}"
    os.makedirs(d, exist_ok=True)
    for f, old, new, *nth in b['edits']:
        p = RP + '/' + f
        s = open(p).read()
        if nth:        # replace the nth occurrence only
            q = s.split(old)
            assert len(q) > nth[0] + 1, (b['id'], f, len(q))
            s = old.join(q[:nth[0] + 1]) + new + old.join(q[nth[0] + 1:])
        else:
            assert s.count(old) == b.get('count', 1), (b['id'], f, s.count(old))
            s = s.replace(old, new)
        open(p, 'w').write(s)
    diff = subprocess.run(['git', '-C', RP, 'diff'], capture_output=True, text=True).stdout
    subprocess.run(['git', '-C', RP, 'checkout', '--', '.'], check=True)
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.py', 'w').write(b['demo'])
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport HOME="${HOME:-/root}" PYTHONDONTWRITEBYTECODE=1 JAX_PLATFORMS=cpu MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    print('made', b['id'])
