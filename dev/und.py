"""und.py SEED UNIT FUNC 'ARGS': findings and undecided of one unit on a planted change"""
import sys, os, json, subprocess, tempfile, shutil
V = '/verif'
i, unit, fun, args = sys.argv[1:5]
d = tempfile.mkdtemp(prefix='und')
shutil.copytree('/repo/nosnoc', d + '/nosnoc')
if i != '-':
    subprocess.run(['git', 'apply', f'{V}/seeded/{i}/patch.diff'], cwd=d, check=True)
code = f'''
import sys; sys.path.insert(0, "/verif")
from analysis import configs, plan
from analysis.plan import *
cfg = configs.cfg
import analysis.units.{unit} as m
r = m.{fun}({args})
for k, v in r.items():
    print(k, ':', str(v)[:1500])
'''
r = subprocess.run([sys.executable, '-c', code], env=dict(os.environ, VERIF_REPO=d), capture_output=True, text=True)
print(r.stdout[-6000:], r.stderr[-2500:])
shutil.rmtree(d)
