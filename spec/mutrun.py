#!/usr/bin/env python3
"""development aid: runs the harnesses against small random changes of the code.
usage: mutrun.py MUTANTS.jsonl OUT SLOT [SLOTS [MINUTES]]"""
import json, os, random, subprocess, sys, time
src, out, slot = sys.argv[1], sys.argv[2], int(sys.argv[3])
slots = int(sys.argv[4]) if len(sys.argv) > 4 else 1
end = time.time() + 60 * float(sys.argv[5] if len(sys.argv) > 5 else 120)
T = '/tmp/mut%d' % slot
VV = T + '-verif'
env = '. /opt/vp/env.sh; cd %s; ' % T
subprocess.run('rm -rf %s %s; cp -a /repo %s; mkdir -p %s/evidence; cp -a /verif/harness /verif/KNOWN_FINDINGS.jsonl %s/; sed -i "s,=> /repo$,=> %s," %s/harness/go.mod; cd /verif/symgo && . /opt/vp/env.sh && go build -o %s/symgo .' % (T, VV, T, VV, VV, T, VV, VV), shell=True, check=True, executable='/bin/bash')
P1 = 'P1SoundWide Again P1UseTruncated P1UseBadPoint P1TransformMalformed P1Contribute P1HonestRef P1Transform P1Sound1 P1Sound2 P1Sound0 P1Chain P1SoundTransformed P1Infinity P1Bind P1Truncated P1TruncatedBase P1Header P1BadPoint P1Layout P1Trailing P1Full P1Missing P1Power P1Many P1TransformBad P1TransformLarge P1TransformChain P1Init P1BaseLarge P1Fresh RandFail IOLimit IOFull IODir IOOver IOAlias IOKeep IOMissing'
P2 = 'P1UseTruncated P1UseBadPoint P2SoundWide Again P2Layout P2Contribute P2HonestRef P2Init P2Sound1 P2SoundN P2Sound0 P2InitCommit LazyInit P2InitCoeffs PartedInit PartedCommit PartedLazyInit P2HeaderVerify P2HeaderOp P2Infinity P2Chain P2Bind P2Many P2Truncated P2TruncatedOrigin P2BadPoint P2Missing P2TooLarge PartedTooLarge PartedArgs PartedMissing PartedSame PartedSparse P2InitSparse P2InitBase P2Wide P2InitLarge PartedLarge P2Fresh RandFail IOLimit IOFull IODir IOOver IOCollide IOAlias IOKeep IOMissing'
KE = 'Again KeysExtract KeysSplit KeysReadable KeysTruncated KeysHeader KeysBadPoint KeysLength KeysMismatch KeysMissing KeysFresh KeysWide KeysLarge SolPipeline SolExport SolBad IOLimit IOFull IODir IOOver IOAlias IOKeep IOMissing RandFail'
sets = {'phase1': P1, 'phase2': P2, 'keys': KE, 'lagrange': 'LagG1 LagG2 LagSpecial LagSchedules LagRace P2Init', 'common': 'BitRev ParMany ParSpans ParEmpty ParSchedules P1Contribute P2Contribute P1Sound1 P1Sound2 P1Bind P2Sound1 P1HonestRef P2HonestRef P1Fresh P2Fresh IOAlias IOCollide IOKeep KeysExtract RandFail', 'actions.go': 'CLIWorks CLICount CLIPower CLITransform CLIParted CLIFails CLIUnknown'}
props = json.load(open('/verif/harness/props.json'))
spec = {h['name']: h for p in props.values() for h in p['harnesses']}
json.dump({k: dict(outside='', harnesses=[dict(spec[h], race=False, cli=k == 'actions.go') for h in v.split()]) for k, v in sets.items()}, open(VV + '/harness/props.json', 'w'))
ms = [json.loads(l) for l in open(src)]
ms = [m for m in ms if m['file'].split('/')[0] in sets]
random.Random(7).shuffle(ms)
done = set()
if os.path.exists(out):
    done = {l.split(' | ')[1].strip() for l in open(out) if ' | ' in l}
for m in ms[slot::slots]:
    if time.time() > end: break
    if m['What'] in done: continue
    p = T + '/' + m['file']
    good = open('/repo/' + m['file'], 'rb').read()
    open(p, 'wb').write(good[:m['From']] + m['Text'].encode() + good[m['To']:])
    t = time.time()
    b = subprocess.run(['bash', '-c', env + 'go build ./... && go vet ./common >/dev/null'], capture_output=True, text=True)
    if b.returncode != 0:
        res = 'nobuild'
    else:
        try:
            r = subprocess.run(['bash', '-c', env + 'exec %s/symgo check -verif %s -repo %s -prop %s' % (VV, VV, T, m['file'].split('/')[0])], capture_output=True, text=True, timeout=1500)
            v = [l for l in r.stdout.split('\n') if l.startswith('VIOLATION')]
            red = [l for l in r.stdout.split('\n') if l.startswith('REDUCED')]
            res = 'killed ' + v[0].split(' ', 3)[3][:120] if v else 'SURVIVED rc=%d %s %s' % (r.returncode, ' ; '.join(l[:100] for l in red)[:300], r.stderr[-100:].replace('\n', ' '))
        except subprocess.TimeoutExpired:
            res = 'TIMEOUT'
    open(p, 'wb').write(good)
    if res != 'nobuild':
        with open(out, 'a') as f:
            f.write('%-110s | %s | %.0fs\n' % (res, m['What'], time.time() - t))
