"""Development aid: unitmut.py FILE FROM TO MODULE FUNC: mutants of some lines against one unit"""
import importlib, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dev import sweep
f, a, b, mod, fun = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), sys.argv[4], sys.argv[5]
src, ms = sweep.mutants('/repo/nosnoc/' + f)
for m in ms:
    if a <= m['line'] <= b:
        tmp = tempfile.mkdtemp(prefix='um')
        shutil.copytree('/repo/nosnoc', tmp + '/nosnoc')
        open(f'{tmp}/nosnoc/{f}', 'w').write(src[:m['a']] + m['new'] + src[m['b']:])
        r = subprocess.run([sys.executable, '-c', f'''
import sys; sys.path.insert(0, "/verif")
import importlib; m = importlib.import_module("analysis.units.{mod}")
try:
    r = m.{fun}(); print("caught" if r["findings"] else "MISSED", sorted({{x["prop"] for x in r["findings"]}}), r["undecided"][:1])
except Exception as e: print("EXC", repr(e)[:100])
'''], env=dict(os.environ, VERIF_REPO=tmp), capture_output=True, text=True)
        shutil.rmtree(tmp)
        print(m['line'], m['kind'], repr(m['old'][:50]), '->', repr(m['new'][:50]), r.stdout.strip() or r.stderr[-200:], flush=True)
