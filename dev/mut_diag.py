P = 'nosnoc/problem.py'
JOBS = [('diag', 'check_print', ()), ('diag', 'check_solver_print', ()), ('diag', 'check_dump', ())]
M = [
 ('elif to if', 'C29', P, '            elif self.w0[i] < self.lbw[i] or self.w0[i] > self.ubw[i]:', '            if self.w0[i] < self.lbw[i] or self.w0[i] > self.ubw[i]:'),
 ('le', 'C29', P, 'if self.lbw[i] > self.ubw[i]:', 'if self.lbw[i] >= self.ubw[i]:'),
 ('w0 le', 'C29', P, 'elif self.w0[i] < self.lbw[i] or', 'elif self.w0[i] <= self.lbw[i] or'),
 ('w0 upper', 'C29', P, ' or self.w0[i] > self.ubw[i]:', ':'),
 ('lbg', 'C29', P, '{self.lbg[i]:7} \\t {self.ubg[i]:7}', '{self.lbg[i]:7} \\t {self.lbg[i]:7}'),
 ('range', 'C29', P, 'for i in range(len(self.lbw)):\n            extra', 'for i in range(1, len(self.lbw)):\n            extra'),
 ('range g', 'C29', P, 'for i in range(len(self.lbg)):\n            print', 'for i in range(len(self.lbw)):\n            print'),
 ('sticky', 'C29', P, '        for i in range(len(self.lbw)):\n            extra_info = ""\n', '        extra_info = ""\n        for i in range(len(self.lbw)):\n'),
 ('count', 'C29', P, '                extra_info = " W0 ERROR!"\n                errors += 1', '                extra_info = " W0 ERROR!"'),
 ('p0 order', 'C08', P, 'np.array([sigma, tau]), lambda00, self.model.x0)', 'np.array([sigma, tau]), self.model.x0, lambda00)'),
 ('p0 flat', 'C08', P, 'self.model.p_val_ctrl_stages.flatten(),\n                     np', "self.model.p_val_ctrl_stages.flatten('F'),\n                     np"),
 ('zip', '-', P, '        for i in range(len(self.lbg)):\n            print(f"{i}: {self.lbg[i]:7} \\t {self.ubg[i]:7} \\t {self.g[i]}")', '        for i, (lb, ub) in enumerate(zip(self.lbg, self.ubg)):\n            print(f"{i}: {lb:7} \\t {ub:7} \\t {self.g[i]}")'),
 ('helper', '-', P, '            if self.lbw[i] > self.ubw[i]:\n                extra_info = " BOUND ERROR!"\n                errors += 1\n            elif self.w0[i] < self.lbw[i] or self.w0[i] > self.ubw[i]:\n                extra_info = " W0 ERROR!"\n                errors += 1\n',
  '            extra_info = self._mark(i)\n            errors += 1 if extra_info else 0\n', '    def print(self):\n', '    def _mark(self, i):\n        if self.lbw[i] > self.ubw[i]:\n            return " BOUND ERROR!"\n        if not (self.lbw[i] <= self.w0[i] <= self.ubw[i]):\n            return " W0 ERROR!"\n        return ""\n\n    def print(self):\n'),
]
