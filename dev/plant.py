"""Development aid: plant.py <id> <property>: reads dev/seeds/<id>.py (FILE, OLD, NEW, NEEDS, BREAKS, DEMO) and writes seeded/<id>/;
then confirms in a scratch copy that the stable tests pass and the demo distinguishes.  plant.py --verify checks existing ones."""
import sys, os, json, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def sh(cmd, cwd=None, **k):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **k)

def write(i):
    ns = {}
    exec(open(f'{V}/dev/seeds/{i}.py').read(), ns)
    d = f'{V}/seeded/{i}'
    os.makedirs(d, exist_ok=True)
    base = tempfile.mkdtemp(prefix='plant')
    w = base + '/repo'
    sh(f'git -C /repo worktree add --detach {w} HEAD')
    try:
        for f, o, n in ns['EDITS']:
            p = f'{w}/{f}'
            s = open(p).read()
            assert s.count(o) == 1, (f, o, s.count(o))
            open(p, 'w').write(s.replace(o, n))
        diff = sh('git diff', cwd=w).stdout
    finally:
        sh(f'git -C /repo worktree remove --force {w}')
        shutil.rmtree(base, ignore_errors=True)
    open(d + '/patch.diff', 'w').write(diff)
    json.dump(dict(property=ns['PROPERTY'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n. /opt/vp/env.sh\nexec python "$(dirname "$0")/demo.py"\n')
    open(d + '/demo.py', 'w').write(open(f'{V}/dev/seeds/common.py').read() + '\n' + ns['DEMO'])

def verify(i, tests=True):
    """in a patched copy, which comes first on the module path"""
    d = f'{V}/seeded/{i}'
    tmp = tempfile.mkdtemp(prefix='demo')
    shutil.copytree(d, tmp + '/x')
    shutil.copytree('/repo', tmp + '/repo', ignore=shutil.ignore_patterns('.git', 'build'))
    r = {}
    a = sh(f'. /opt/vp/env.sh; PYTHONPATH={tmp}/repo python {tmp}/x/demo.py', cwd=tmp + '/repo', executable='/bin/bash')
    r['clean'] = a.returncode
    p = sh(f'git apply {d}/patch.diff', cwd=tmp + '/repo')
    assert p.returncode == 0, p.stderr
    b = sh(f'. /opt/vp/env.sh; PYTHONPATH={tmp}/repo python {tmp}/x/demo.py', cwd=tmp + '/repo', executable='/bin/bash')
    r['patched'] = b.returncode
    r['msg'] = (b.stdout + b.stderr)[-300:]
    if a.returncode:
        r['cleanmsg'] = (a.stdout + a.stderr)[-600:]
    if tests:
        o = sh(f'. /opt/vp/env.sh; PYTHONPATH={tmp}/repo python -m pytest test -q -n 4 -p no:cacheprovider --timeout=300 2>&1 | tail -3', cwd=tmp + '/repo', executable='/bin/bash')
        r['tests'] = o.stdout.strip().splitlines()[-1:]
    shutil.rmtree(tmp)
    return r

if __name__ == '__main__':
    ids = [x for x in sys.argv[1:] if not x.startswith('-')] or sorted(os.listdir(V + '/seeded'))
    for i in ids:
        if '--verify' not in sys.argv:
            write(i)
        print(i, verify(i, '--notest' not in sys.argv), flush=True)
