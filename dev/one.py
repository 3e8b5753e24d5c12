"""Development aid: one.py FILE LINE OLD NEW PROPS: applies a replacement on one line of a copy, runs the checks"""
import os, shutil, subprocess, sys, tempfile
f, line, old, new = sys.argv[1], int(sys.argv[2]), sys.argv[3], sys.argv[4]
tmp = tempfile.mkdtemp(prefix='one')
shutil.copytree('/repo/nosnoc', tmp + '/nosnoc')
p = f'{tmp}/nosnoc/{f}'
l = open(p).read().split('\n')
assert old in l[line - 1], l[line - 1]
l[line - 1] = l[line - 1].replace(old, new, 1)
open(p, 'w').write('\n'.join(l))
for c in sys.argv[5:]:
    r = subprocess.run([sys.executable, '/verif/check.py', c], env=dict(os.environ, VERIF_REPO=tmp, VERIF_EVIDENCE='/tmp/one_ev'), capture_output=True, text=True)
    print(c, r.returncode, r.stdout[:300], r.stderr[-300:])
    import json
    d = json.load(open(f'/tmp/one_ev/{c}.json'))['coverage']
    print([(k, v['undecided'][:3]) for k, v in d.items() if isinstance(v, dict) and 'undecided' in v])
shutil.rmtree(tmp)
