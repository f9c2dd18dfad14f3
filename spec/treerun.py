#!/usr/bin/env python3
"""development aid: runs checks against another tree (a refactoring, for example).
usage: treerun.py TREE [property ...]; prints outcome, time and what was abandoned"""
import json, os, subprocess, sys, time
V = '/verif'
T = os.path.abspath(sys.argv[1])
props = sys.argv[2:] or [p for p in json.load(open(V + '/harness/props.json'))]
VV = T + '-verif'
os.makedirs(VV + '/evidence', exist_ok=True)
subprocess.run('rm -rf %s/harness; cp -a /verif/harness /verif/KNOWN_FINDINGS.jsonl %s/; sed -i "s,=> /repo$,=> %s," %s/harness/go.mod; ln -sfn /verif/symgo %s/symgo; cd /verif/symgo && . /opt/vp/env.sh && go build -o /tmp/treesymgo .' % (VV, VV, T, VV, VV), shell=True, check=True, executable='/bin/bash')
for p in props:
    t = time.time()
    r = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; exec /tmp/treesymgo check -verif %s -repo %s -prop %s' % (VV, T, p)], capture_output=True, text=True)
    v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
    try:
        e = json.load(open(VV + '/evidence/%s.json' % p))
        red = ['%s: %s' % (h['harness'], json.dumps(h['abandoned_paths'])[:300]) for h in e['coverage']['harnesses'] if h.get('abandoned_paths')]
    except Exception:
        red = []
    print(p, 'VIOLATION' if r.returncode == 1 else 'quiet' if r.returncode == 0 else 'EXIT %d' % r.returncode, '%.0fs' % (time.time() - t), (v or [''])[0][:200], r.stderr.strip()[-300:] if r.returncode not in (0, 1) else '', red, flush=True)
