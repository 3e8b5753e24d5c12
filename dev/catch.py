"""Development aid: runs the check of every planted change's property on a patched copy of the package."""
import sys, os, json, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(V + '/seeded'))
for i in ids:
    m = json.load(open(f'{V}/seeded/{i}/meta.json'))
    d = tempfile.mkdtemp(prefix='catch')
    shutil.copytree('/repo/nosnoc', d + '/nosnoc')
    subprocess.run(['git', 'apply', f'{V}/seeded/{i}/patch.diff'], cwd=d, check=True)
    r = subprocess.run([sys.executable, 'check.py', m['property']], cwd=V, env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
    print('caught' if r.returncode == 1 else f'MISSED({r.returncode})', i, m['property'], (r.stdout + r.stderr)[:260].replace('\n', ' / '), flush=True)
    shutil.rmtree(d)
