PROPERTY = 'C29'
EDITS = [('nosnoc/problem.py', "            if self.lbw[i] > self.ubw[i]:\n", "            if self.lbw[i] >= self.ubw[i]:\n")]
NEEDS = 'a variable that is fixed by equal bounds, as with gamma_h = 0'
BREAKS = 'a fixed variable is reported as a bound error'
DEMO = '''
import io, contextlib
p = problem(options(gamma_h=0.0), model())
buf = io.StringIO()
with contextlib.redirect_stdout(buf):
    p.print()
if 'BOUND ERROR' in buf.getvalue():
    fail('a fixed step size is marked as bound error')
'''
