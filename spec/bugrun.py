#!/usr/bin/env python3
"""development aid: runs checks against seeded changes (in a scratch copy of /repo).
usage: bugrun.py [-all] [id ...]"""
import json, os, subprocess, sys, shutil, time
V = '/verif'
ids = [a for a in sys.argv[1:] if not a.startswith('-')] or sorted(os.listdir(V + '/seeded'))
props = list(json.load(open(V + '/harness/props.json')))
W = '/tmp/bugrepo'
VV = '/tmp/bugverif'
if not os.path.exists(W):
    subprocess.run(['cp', '-a', '/repo', W], check=True)
os.makedirs(VV + '/evidence', exist_ok=True)
subprocess.run('rm -rf /tmp/bugverif/harness; cp -a /verif/harness /verif/KNOWN_FINDINGS.jsonl %s/; sed -i "s,=> /repo$,=> /tmp/bugrepo," /tmp/bugverif/harness/go.mod; cd /verif/symgo && . /opt/vp/env.sh && go build -o /tmp/bugsymgo .' % VV, shell=True, check=True, executable='/bin/bash')
subprocess.run('ln -sfn /verif/symgo /tmp/bugverif/symgo', shell=True)
for id in ids:
    subprocess.run('git -C %s fetch -q /repo && git -C %s checkout -q -f FETCH_HEAD && git -C %s clean -fdq && git -C %s apply %s/seeded/%s/patch.diff' % (W, W, W, W, V, id), shell=True, check=True)
    m = json.load(open(V + '/seeded/%s/meta.json' % id))
    ps = props if '-all' in sys.argv else [m['property']]
    for p in ps:
        t = time.time()
        r = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; exec /tmp/bugsymgo check -verif %s -repo %s -prop %s' % (VV, W, p)], capture_output=True, text=True)
        v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
        print(id, p, 'CAUGHT' if r.returncode == 1 and v else 'quiet' if r.returncode == 0 else 'EXIT %d' % r.returncode, '%.0fs' % (time.time() - t), (v or [''])[0][:160], r.stderr.strip()[-300:] if r.returncode not in (0, 1) else '', flush=True)
