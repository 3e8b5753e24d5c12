JOBS = [('butcher', 'check_differential', ()), ('butcher', 'check_integral', ())]
F = 'nosnoc/rk_utils.py'
M = [
 ('digit', 'C02', F, "0.512485826188421,\n                0.111111111111110,\n            ]])", "0.512485826288421,\n                0.111111111111110,\n            ]])"),
 ('glorder', 'C02', F, "order = 2 * n_s\n", "order = 2 * n_s - 1\n"),
 ('else', 'C02', F, "        else:\n            raise NotImplementedError()\n\n    elif", "        else:\n            A, b, c = np.eye(n_s), np.ones(n_s) / n_s, np.linspace(0, 1, n_s)\n\n    elif"),
 ('elsesch', 'C02', F, "    elif irk_scheme == IrkSchemes.GAUSS_LEGENDRE:", "    else:", "\n    else:\n        raise NotImplementedError()\n    return", "\n    return"),
 ('map', 'C02', F, 'IrkSchemes.GAUSS_LEGENDRE: "legendre"', 'IrkSchemes.GAUSS_LEGENDRE: "radau"'),
 ('D', 'C02', F, "D[j] = np.polyval(coeff, 1.0)", "D[j] = np.polyval(coeff, tau_root[-1])"),
 ('B', 'C02', F, "B[j] = np.polyval(pint, 1.0)", "B[j] = np.polyval(pint, tau_root[-1])"),
 ('C', 'C02', F, "C[j, r] = np.polyval(pder, tau_root[r])", "C[r, j] = np.polyval(pder, tau_root[r])"),
 ('den', 'C02', F, "coeff / (tau_root[j] - tau_root[r])", "coeff / (tau_root[r] - tau_root[j])"),
 ('r_poly', '-', F, """        pint = np.polyint(coeff)
        B[j] = np.polyval(pint, 1.0)""", "        B[j] = np.polyval(np.polyint(coeff), 1.0)"),
 ('r_others', '-', F, """        coeff = 1
        for r in range(n_s + 1):
            if not r == j:
                coeff = np.convolve(coeff, [1, -tau_root[r]])
                coeff = coeff / (tau_root[j] - tau_root[r])""", """        coeff = 1
        for r in range(n_s + 1):
            if r == j:
                continue
            coeff = np.convolve(coeff, [1, -tau_root[r]]) / (tau_root[j] - tau_root[r])"""),
 ('r_helper', '-', F, """        # Evaluate the polynomial at the final time to get""", """        coeff = _id(coeff)
        # Evaluate the polynomial at the final time to get""", "def generate_butcher_tableu_integral", "def _id(c):\n    return c\n\n\ndef generate_butcher_tableu_integral"),
 ('r_Cvec', '-', F, """        for r in range(n_s + 1):
            C[j, r] = np.polyval(pder, tau_root[r])""", "        C[j, :] = np.polyval(pder, tau_root)"),
 ('r_if', '-', F, 'IRK_SCHEME_TO_STRING = {IrkSchemes.GAUSS_LEGENDRE: "legendre", IrkSchemes.RADAU_IIA: "radau"}\n    points = ca.collocation_points(n_s, IRK_SCHEME_TO_STRING[irk_scheme])', 'name = "radau" if irk_scheme == IrkSchemes.RADAU_IIA else "legendre"\n    points = ca.collocation_points(n_s, name)'),
 ('r_ret', '-', F, "    return B, C, D, tau_root\n\n\nif", "    result = (B, C, D, tau_root)\n    return result\n\n\nif"),
]
