PROPERTY = 'C03'
EDITS = [('nosnoc/problem.py', "            prev_fe = stage[-1]\n", "            prev_fe = stage[min(self.opts.Nfe_list) - 1]\n")]
NEEDS = 'control stages with different numbers of finite elements'
BREAKS = 'a control stage that follows a longer one starts from an inner element of it'
DEMO = '''
p = problem(options(N_stages=2, Nfe_list=[3, 2], n_s=2), model(n_u=1))
if p.stages[1][0].prev_fe is not p.stages[0][-1]:
    fail('the second control stage does not start at the end of the first')
'''
