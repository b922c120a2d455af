#!/usr/bin/env python3
"""Writes MANIFEST.json and the 'fixed:' lines of known_findings.txt (development tool)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {}
exec(open(os.path.join(V, 'tools', 'claims.py')).read())
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in CLAIMS:
        level, tech, note = CLAIMS[i]
        checks.append({'property': i, 'quick_cmd': f'bash bin/check {i} quick', 'thorough_cmd': f'bash bin/check {i} thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': tech, 'level': level, 'level_note': note})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'no check has been built for it yet')})
m = {'version': 1, 'setup_cmd': 'bash bin/setup', 'checks': checks, 'not_applicable': na,
     'notes': 'TLA+ specifications in spec/, checked with TLC; conformance by replaying generated cases into /repo and judging recorded traces with TLC. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
kf = os.path.join(V, 'known_findings.txt')
lines = [l for l in open(kf).read().splitlines() if not l.startswith('fixed:')]
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
for l in log:
    h, t = l.split(' ', 1)
    if t.startswith('fix:'):
        pid = next((v for k, v in FIXED.items() if k in t), '?')
        if pid == '?':
            print('unmapped fix', l)
        lines.append(f'fixed: property={pid} {h} {t[5:]}')
open(kf, 'w').write('\n'.join(lines) + '\n')
print(len(checks), 'checks', len(na), 'not applicable')
