#!/usr/bin/env python3
"""Creates /verif/seeded/<id> from the entries in seeds*.py and confirms each one
(not part of any check).  usage: seed.py [-n] [id ...]   (-n: do not run the tests)"""
import glob, importlib, json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get('SEEDW', '/tmp/seedrepo')
sys.path.insert(0, V + '/spec')
SEEDS = {}
def seed(id, prop, needs, what, edits, demo=None, inpkg=None):
    assert id not in SEEDS, id
    SEEDS[id] = dict(prop=prop, needs=needs, what=what, edits=edits, demo=demo, inpkg=inpkg or {})
def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)
def reset():
    sh('git -C %s checkout -q -- . && git -C %s clean -fdq' % (W, W))
def main(args):
    notest = '-n' in args
    ids = [a for a in args if a != '-n'] or list(SEEDS)
    if not os.path.exists(W):
        sh(['cp', '-a', '/repo', W])
    head = sh('git -C /repo rev-parse HEAD').stdout.strip()
    sh('git -C %s fetch -q /repo && git -C %s checkout -q -f %s' % (W, W, head))
    bad = 0
    for id in ids:
        s = SEEDS[id]
        reset()
        d = V + '/seeded/' + id
        if os.path.exists(d):
            shutil.rmtree(d)
        os.makedirs(d)
        for f, old, new, *n in s['edits']:
            p = W + '/' + f
            t = open(p).read()
            want = n[0] if n else 1
            if t.count(old) != want:
                print(id, 'EDIT does not apply', f, t.count(old)); bad += 1
            open(p, 'w').write(t.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % W).stdout)
        orig = origin(open(d + '/patch.diff').read())
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['what']}, open(d + '/meta.json', 'w'), indent=1)
        shutil.copy(V + '/spec/seedlib/demo.sh', d + '/demo.sh')
        os.chmod(d + '/demo.sh', 0o755)
        if s['demo']:
            os.makedirs(d + '/demo')
            for g in glob.glob(V + '/spec/seedlib/*.go'):
                shutil.copy(g, d + '/demo/')
            open(d + '/demo/main.go', 'w').write(s['demo'].lstrip())
            sh(['gofmt', '-w', d + '/demo/main.go'])
        for pkg, src in s['inpkg'].items():
            os.makedirs(d + '/inpkg/' + pkg)
            open(d + '/inpkg/%s/zz_demo_test.go' % pkg, 'w').write(src.lstrip())
        env = '. /opt/vp/env.sh; cd %s; ' % W
        b = sh(['bash', '-c', env + 'go build ./... && go vet -copylocks=false . >/dev/null 2>&1; go build ./...'])
        r = sh(['bash', d + '/demo.sh'], cwd=W)
        ok = [b.returncode == 0, r.returncode != 0 and r.returncode != 3]
        msg = (r.stderr + r.stdout).strip().split('\n')[-1][:150]
        tests = None
        if not notest:
            t = open('/opt/vp/test.sh').read().replace('/repo', W).replace('/opt/vp/logs', '%s-logs' % W + '')
            open(W + '-test.sh', 'w').write(t)
            sh('bash %s-test.sh %s-test.json' % (W, W))
            try:
                res = json.load(open(W + '-test.json'))
                base = json.load(open('/opt/vp/BASELINE.json'))
                tests = missing(base, res)
            except Exception as e:
                tests = repr(e)
            ok.append(not tests)
        reset()
        r0 = sh(['bash', d + '/demo.sh'], cwd=W)
        ok.append(r0.returncode == 0)
        if not all(ok):
            bad += 1
        print('OK ' if all(ok) else 'BAD', id, 'build', b.returncode, 'demo', r.returncode, 'clean', r0.returncode, 'tests', tests, 'changed lines original/ours', orig, '|', msg, '|', '' if ok[-1] else (r0.stderr + r0.stdout)[-300:], b.stderr[-300:], flush=True)
    return bad
def origin(diff):
    """how many of the removed lines are the original repository's, and ours"""
    root = sh('git -C %s rev-list --max-parents=0 HEAD' % W).stdout.strip()
    n = [0, 0]
    f = None
    for l in diff.split('\n'):
        if l.startswith('--- a/'):
            f = l[6:]
            bl = sh(['git', '-C', W, 'blame', '-s', '-l', 'HEAD', '--', f]).stdout.split('\n')
        elif l.startswith('@@'):
            k = int(l.split()[1].split(',')[0][1:])
        elif l.startswith('-'):
            n[0 if bl[k-1].lstrip('^')[:39] == root[:39] else 1] += 1
            k += 1
        elif l.startswith(' '):
            k += 1
    return n
def missing(base, res):
    want = base.get('stable') or base.get('passed') or base
    def names(x):
        out = set()
        if isinstance(x, dict):
            for k in ('passed', 'pass', 'stable'):
                if k in x: return set(x[k])
            for k, v in x.items():
                if v in ('pass', 'passed', True): out.add(k)
        else:
            out = set(x)
        return out
    return sorted(names(base) - names(res))
if __name__ == '__main__':
    import seed
    for f in sorted(glob.glob(V + '/spec/seeds*.py')):
        importlib.import_module(os.path.basename(f)[:-3])
    sys.exit(1 if seed.main(sys.argv[1:]) else 0)
