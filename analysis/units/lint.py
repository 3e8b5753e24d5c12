"""Name, member, call-shape, definite-assignment and result-key resolution (see analysis/lint.py)."""
from .. import run, lint
from ..program import Program

def check_lint():
    prog = Program(run.REPO)
    ix, found, counts = lint.run(prog)
    d = dict(config='package', identical=False, undecided=[], findings=[], compared=0, functions=[], obligations=sum(counts.values()),
             rules=[f'{k}: {v} uses' for k, v in counts.items()])
    for f in found:
        d['findings'].append(dict(prop='C27', site=f.site(), text=f.text, config='package', rule=f.rule))
    return d
