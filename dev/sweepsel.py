"""sweepsel.py FILE 'LINE:PROP[,PROP]' ...: checks the surviving mutants of these lines with these properties"""
import json, os, shutil, subprocess, sys, tempfile
sys.path.insert(0, '/verif')
f = sys.argv[1]
want = dict(x.split(':') for x in sys.argv[2:])
src = open('/repo/nosnoc/' + f).read()
for m in json.load(open(f'/tmp/sweep/{f}.json')):
    if m['survives'] and str(m['line']) in want and src[m['a']:m['b']] == m['old']:
        tmp = tempfile.mkdtemp(prefix='sel')
        shutil.copytree('/repo/nosnoc', tmp + '/nosnoc')
        open(f'{tmp}/nosnoc/{f}', 'w').write(src[:m['a']] + m['new'] + src[m['b']:])
        res = []
        for c in want[str(m['line'])].split(','):
            r = subprocess.run([sys.executable, '/verif/check.py', c], env=dict(os.environ, VERIF_REPO=tmp, VERIF_EVIDENCE='/tmp/sel_ev'), capture_output=True, text=True)
            res.append(f'{c}={r.returncode}')
            if r.returncode == 1:
                break
        print(m['line'], m['kind'], repr(m['old'][:60]), '->', repr(m['new'][:60]), res, r.stdout[:150].replace('\n', ' ') if r.returncode else '', flush=True)
        shutil.rmtree(tmp)
