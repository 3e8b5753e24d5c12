PROPERTY = 'C22'
EDITS = [('nosnoc/solver.py', "                    sigma_k**opts.homotopy_update_exponent))", "                    sigma_k**1.5))")]
NEEDS = 'the superlinear update rule with an exponent other than the default, in the range of sigma where the power is the smaller term'
BREAKS = 'the option homotopy_update_exponent has no effect'
DEMO = '''
s = nosnoc.NosnocSolver(options(homotopy_update_rule=nosnoc.HomotopyUpdateRule.SUPERLINEAR, homotopy_update_slope=0.5, homotopy_update_exponent=2.0, max_iter_homotopy=3), model())
v = s.homotopy_sigma_update(1e-2)
if abs(v - 1e-4) > 1e-12:
    fail(f'update of 1e-2 with exponent 2 gives {v}')
'''
