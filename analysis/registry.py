"""Which units decide which property."""
import os, pickle, select, signal, sys, time, traceback
from . import run as R

class Timeout(Exception):
    pass

def _alarm(*a):
    raise Timeout()

LIMIT = {'quick': 150, 'thorough': 600}

def _call(job):
    """one job in a worker: (unit module, function, args, limit)"""
    mod, fn, args = job[:3]
    kw, limit = (job[3] if len(job) == 5 else {}), job[-1]
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        import importlib
        m = importlib.import_module('analysis.units.' + mod)
        return getattr(m, fn)(*args, **kw)
    except Timeout:
        return dict(undecided=[f'{mod}.{fn}{args}: no result within {limit} s'], findings=[], failed=True)
    except Exception as e:
        return dict(undecided=[f'{mod}.{fn}{args}: {type(e).__name__}: {e} {traceback.format_exc()[-400:]}'], findings=[], failed=True)
    finally:
        signal.alarm(0)

def _dead(job, why):
    return dict(undecided=[f'{job[0]}.{job[1]}{job[2]}: {why}'], findings=[], failed=True)

def parallel(jobs, tier):
    """one forked process per job, as many at a time as there are processors; results come back through pipes"""
    jobs = [j + (LIMIT[tier],) for j in jobs]
    out = [None] * len(jobs)
    try:
        R.program()             # parsed once, inherited by the children
    except Exception:
        pass
    n = min(8, os.cpu_count() or 1)
    run, todo = {}, list(range(len(jobs)))[::-1]
    sys.stdout.flush()
    sys.stderr.flush()
    while todo or run:
        while todo and len(run) < n:
            i = todo.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    data = pickle.dumps(_call(jobs[i]))
                    with os.fdopen(w, 'wb') as o:
                        o.write(data)
                finally:
                    os._exit(0)
            os.close(w)
            run[r] = (i, pid, [], time.time())
        for fd in select.select(list(run), [], [], 5)[0]:
            i, pid, buf, _ = run[fd]
            d = os.read(fd, 1 << 20)
            if d:
                buf.append(d)
                continue
            os.close(fd)
            os.waitpid(pid, 0)
            del run[fd]
            try:
                out[i] = pickle.loads(b''.join(buf))
            except Exception as e:      # the process died
                out[i] = _dead(jobs[i], f'worker: {type(e).__name__} {e}')
        for fd, (i, pid, _, t) in list(run.items()):
            if time.time() - t > jobs[i][-1] + 30:
                os.kill(pid, signal.SIGKILL)
                os.close(fd)
                os.waitpid(pid, 0)
                del run[fd]
                out[i] = _dead(jobs[i], 'no result')
    return out

def run(prop, tier, seed):
    from . import plan
    return plan.run(prop, tier, seed)
