PROPERTY = 'C01'
EDITS = [('nosnoc/problem.py', "        create_right_boundary_point = (opts.use_fesd and not opts.right_boundary_point_explicit and\n                                       fe_idx < opts.Nfe_list[ctrl_idx] - 1)",
 "        create_right_boundary_point = (opts.use_fesd and not opts.right_boundary_point_explicit and\n                                       fe_idx < min(opts.Nfe_list) - 1)")]
NEEDS = 'a scheme without explicit right boundary point (Gauss-Legendre) and control stages with different numbers of finite elements'
BREAKS = 'the later elements of the longer control stages have no multipliers at their boundary; the switching equations of the boundary state are imposed on the multipliers of the last stage'
DEMO = '''
o = options(N_stages=2, Nfe_list=[2, 3], n_s=2, irk_scheme=nosnoc.IrkSchemes.GAUSS_LEGENDRE)
p = problem(o, model(n_u=1))
for stage in p.stages:
    for fe in stage[:-1]:
        if len(fe.ind_lam) != 3:
            fail(f'element {fe.fe_idx} of stage {fe.ctrl_idx} has {len(fe.ind_lam)} sets of multipliers instead of 3')
'''
