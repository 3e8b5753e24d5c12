JOBS = [('auto', 'check_recursion', ()), ('auto', 'check_assembly', ())]
F = 'nosnoc/auto_model.py'
M = [
 ('alpha', 'C26', F, "eq_expr = 2*alpha - 1", "eq_expr = 1 - 2*alpha"),
 ('fresh', 'C26', F, """                alpha, fresh = self._find_matching_expr_nonlin(node.dep(0))
                if fresh:
                    self.c.append(node.dep(0))
                    self.alpha.append(alpha)""", """                alpha, fresh = self._find_matching_expr_nonlin(node.dep(0))
                if fresh and not self.c:
                    self.c.append(node.dep(0))
                    self.alpha.append(alpha)"""),
 ('min', 'C26', F, "return [node.dep(1), node.dep(0)], node.dep(0)-node.dep(1)", "return [node.dep(0), node.dep(1)], node.dep(0)-node.dep(1)"),
 ('minn', 'C26', F, "eq_expr = (1-alpha)*node.dep(0) + alpha*node.dep(1)", "eq_expr = alpha*node.dep(0) + (1-alpha)*node.dep(1)"),
 ('nest', 'C26', F, "                self._require_smooth(node.dep(0), node.dep(1))\n                return [node.dep(0), node.dep(1)]", "                return [node.dep(0), node.dep(1)]"),
 ('smooth', 'C26', F, "return l_smooth and r_smooth", "return l_smooth or r_smooth"),
 ('smooth2', 'C26', F, "            elif node.is_op(ca.OP_FMIN):\n                return False\n            else:\n                l_smooth", "            else:\n                l_smooth"),
 ('prod', 'C26', F, "for lc, rc in product(l_children, r_children)]", "for rc, lc in product(l_children, r_children)]"),
 ('both', 'C26', F, "                if l_c is not None and r_c is not None:\n                    raise NotImplementedError('products of switching functions are not supported.')\n", ""),
 ('sub', 'C26', F, "[node.unary(ca.OP_NEG, component) for component in self._find_nonlinear_components(node.dep(1))]", "self._find_nonlinear_components(node.dep(1))"),
 ('neg', 'C26', F, "return [node.unary(ca.OP_NEG, component) for component in self._find_nonlinear_components(node.dep(0))]", "return self._find_nonlinear_components(node.dep(0))"),
 ('unary', 'C26', F, "return [ca.SX.unary(node.op(), child) for child in children], c, S", "return children, c, S"),
 ('common', 'C26', F, "        self.F[0][:, 1] += f_common\n", ""),
 ('common2', 'C26', F, "for f in sm])", "for f in sm if f])"),
 ('fij', 'C26', F, "f_ij[0] += f[0]\n                    f_ij[1] += f[1]", "f_ij[0] = f[0]\n                    f_ij[1] = f[1]"),
 ('order', 'C26', F, "        for c_str, (c, S) in cS_map.items():\n            self.F.append(casadi_vertcat_list([f_i[c_str] for f_i in fs]))\n", "        for c_str in all_c:\n            self.F.append(casadi_vertcat_list([f_i[c_str] for f_i in fs]))\n        for c_str, (c, S) in sorted(cS_map.items(), reverse=True):\n"),
 ('S', 'C26', F, "return [ca.SX(1), ca.SX(-1)], node.dep(0), np.array([[1], [-1]])", "return [ca.SX(1), ca.SX(-1)], node.dep(0), np.array([[-1], [1]])"),
 ('sumlist', 'C26', 'nosnoc/utils.py', "    for v in input[1:]:\n        result += v", "    for v in input[2:]:\n        result += v"),
 ('swap', 'C26', F, "c=[casadi_vertcat_list(self.c)], alpha=[casadi_vertcat_list(self.alpha)]", "c=[casadi_vertcat_list(self.c)], alpha=[casadi_vertcat_list(self.alpha[::-1])]"),
 ('nou', 'C26', F, "c=self.c, S=self.S, x0=self.x0, u=self.u)", "c=self.c, S=self.S, x0=self.x0)"),
 ('r_max', '-', F, "eq_expr = alpha*node.dep(0) + (1-alpha)*node.dep(1)", "eq_expr = node.dep(1) + alpha*(node.dep(0) - node.dep(1))"),
 ('r_helper', '-', F, """                alpha, fresh = self._find_matching_expr_nonlin(node.dep(0))
                if fresh:
                    self.c.append(node.dep(0))
                    self.alpha.append(alpha)
""", """                alpha = self._new_pair(node.dep(0))
""", "    def _find_matching_expr_nonlin", """    def _new_pair(self, c):
        alpha, fresh = self._find_matching_expr_nonlin(c)
        if not fresh:
            return alpha
        self.alpha.append(alpha)
        self.c.append(c)
        return alpha

    def _find_matching_expr_nonlin"""),
 ('r_smooth', '-', F, """                l_smooth = self._check_smooth(node.dep(0))
                r_smooth = self._check_smooth(node.dep(1))
                return l_smooth and r_smooth""", """                return all(self._check_smooth(node.dep(k)) for k in range(2))"""),
 ('r_any', '-', F, """            if node.is_op(ca.OP_FMAX):
                return False
            elif node.is_op(ca.OP_FMIN):
                return False
            else:
                l_smooth""", """            if any(node.is_op(o) for o in (ca.OP_FMAX, ca.OP_FMIN)):
                return False
            else:
                l_smooth"""),
 ('r_F', '-', F, "        self.F[0][:, 0] += f_common\n        self.F[0][:, 1] += f_common\n", "        self.F[0] += ca.horzcat(f_common, f_common)\n"),
 ('r_loop', '-', F, "        self.F[0][:, 0] += f_common\n        self.F[0][:, 1] += f_common\n", "        for k in range(2):\n            self.F[0][:, k] += f_common\n"),
 ('r_comp', '-', F, """        nsm = []
        sm = []
        for f_nonsmooth in fs_nonsmooth:
            nonlin_components = self._find_nonlinear_components(f_nonsmooth)
            smooth_components = []
            nonsmooth_components = []
            for nonlin_component in nonlin_components:
                smooth = self._check_smooth(nonlin_component)
                if smooth:
                    smooth_components.append(nonlin_component)
                else:
                    nonsmooth_components.append(nonlin_component)
            nsm.append(nonsmooth_components)
            sm.append(smooth_components)
""", """        nsm = []
        sm = []
        for f_nonsmooth in fs_nonsmooth:
            parts = self._find_nonlinear_components(f_nonsmooth)
            nsm.append([q for q in parts if not self._check_smooth(q)])
            sm.append([q for q in parts if self._check_smooth(q)])
"""),
 ('r_all', '-', F, "all_c = set().union(*[component.keys() for component in collated_components])", "all_c = {key for component in collated_components for key in component}"),
 ('r_all2', '-', F, "all_c = set().union(*[component.keys() for component in collated_components])", "all_c = set()\n        for component in collated_components:\n            all_c |= set(component.keys())"),
 ('r_sorted', '-', F, "for c_str in all_c:", "for c_str in sorted(all_c):"),
]
