PROPERTY = 'C17'
EDITS = [('nosnoc/solver.py', "            return max(opts.sigma_N,\n                min(opts.homotopy_update_slope * sigma_k,\n                    sigma_k**opts.homotopy_update_exponent))", "            return min(opts.homotopy_update_slope * sigma_k,\n                max(opts.sigma_N, sigma_k**opts.homotopy_update_exponent))")]
NEEDS = 'the superlinear rule and a sigma within one factor of the slope of sigma_N'
BREAKS = 'sigma drops below sigma_N'
DEMO = '''
o = options(homotopy_update_rule=nosnoc.HomotopyUpdateRule.SUPERLINEAR, sigma_N=1e-3)
s = nosnoc.NosnocSolver(o, model())
for sig in (1.0, 0.1, 5e-3, 2e-3):
    v = s.homotopy_sigma_update(sig)
    w = max(1e-3, min(0.1 * sig, sig ** 1.5))
    if abs(v - w) > 1e-15:
        fail(f'update of {sig} is {v}, expected {w}')
'''
