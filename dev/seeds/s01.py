PROPERTY = 'C04'
EDITS = [('nosnoc/problem.py',
 "                for jj in range(opts.n_s):\n                    # within fe\n                    self.create_complementarity([self.Theta(stage=j)], self.Lambda(stage=jj),\n",
 "                for jj in range(opts.n_s):\n                    if abs(jj - j) > 1:\n                        continue\n                    # within fe\n                    self.create_complementarity([self.Theta(stage=j)], self.Lambda(stage=jj),\n")]
NEEDS = 'cross complementarity mode COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER with at least three stages'
BREAKS = 'pairs of stages that are not neighbours are no longer complementary to each other'
DEMO = '''
o = options(cross_comp_mode=nosnoc.CrossComplementarityMode.COMPLEMENT_ALL_STAGE_VALUES_WITH_EACH_OTHER, n_s=3)
p = problem(o, model())
fe = p.stages[0][1]
rows = [syms(fe.g[i]) for r in fe.ind_comp for i in r]
for j in range(3):
    for k in range(3):
        t, l = names(fe.Theta(stage=j))[0], names(fe.Lambda(stage=k))[0]
        if not any(t in r and l in r for r in rows):
            fail(f'{t} and {l} are not complementary')
'''
