"""Development aid: changes (and behaviour-preserving edits, property '-') and what the function units report.

usage: mutfn.py <group> [names]"""
import sys, os, shutil, tempfile, time, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
def main():
    g = importlib.import_module('mut_' + sys.argv[1])
    names = sys.argv[2:]
    for (n, prop, f, *edits) in g.M:
        if names and n not in names:
            continue
        d = tempfile.mkdtemp(prefix='mut')
        shutil.copytree('/repo/nosnoc', d + '/nosnoc')
        s = open(f'{d}/{f}').read()
        ok = True
        for old, new in zip(edits[::2], edits[1::2]):
            if s.count(old) < 1:
                print(n, 'PATTERN', s.count(old), repr(old[:60])); ok = False
            s = s.replace(old, new, 1)
        if ok:
            open(f'{d}/{f}', 'w').write(s)
            compile(s, f, 'exec')
            os.environ['VERIF_REPO'] = d
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                got, und = {}, []
                t = time.time()
                for (mod, fn, a) in g.JOBS:
                    u = importlib.import_module('analysis.units.' + mod)
                    try:
                        r = getattr(u, fn)(*a)
                    except Exception as e:
                        import traceback
                        und.append(f'{fn}{a}: {type(e).__name__}: {e}')
                        if os.environ.get('TB'): traceback.print_exc()
                        continue
                    for x in r['findings']:
                        got.setdefault(x['prop'], x['text'])
                    und += r['undecided']
                res = ('OK  ' if prop in got else 'MISS') if prop != '-' else ('quiet' if not got else 'FALSE')
                print(f'{n:18s} {prop} {res} {got} U={und[:2]} {time.time()-t:.0f}s'[:360])
                sys.stdout.flush(); os._exit(0)
            os.waitpid(pid, 0)
        shutil.rmtree(d)
main()
