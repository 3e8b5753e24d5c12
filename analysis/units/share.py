"""Ownership of what is changed in place (see analysis/share.py)."""
from .. import run, share
from ..program import Program

RULES = ['attributes changed in place hold objects made for them (to the depth of the change)', 'arguments of public functions are not changed in place',
         'default arguments, class-level and module-level objects and defaults of fields are not shared']

def check_share():
    o = share.Own(Program(run.REPO)).run()
    d = dict(config='ownership over the package', identical=False, undecided=[], findings=[], compared=0, functions=[], obligations=o.sites + o.checked,
             rules=[f'{r}' for r in RULES] + [f'{o.sites} changes in place, {o.checked} values kept in attributes changed in place, defaults and class-level objects'])
    for f in o.out:
        d['findings'].append(dict(prop='C21', site=f.site(), text=f.text, config='package', rule=f.rule))
    return d
