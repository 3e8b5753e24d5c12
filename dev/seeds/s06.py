PROPERTY = 'C02'
EDITS = [('nosnoc/rk_utils.py', "                0.032371241542217,\n                -0.011451017283184,\n                0.007633203872423,\n                -0.005133733563225,", "                0.032371241542217,\n                -0.011451017283184,\n                0.007633208372423,\n                -0.005133733563225,")]
NEEDS = 'the radau scheme with seven stages in a differential representation; the error of the coefficient is 5e-9'
BREAKS = 'transposed digits in one coefficient of the seven-stage table: row sum and stage order conditions are violated'
DEMO = '''
from nosnoc.rk_utils import generate_butcher_tableu
from nosnoc.nosnoc_types import IrkSchemes
for sch in IrkSchemes:
    A, b, c, order = generate_butcher_tableu(7, sch)
    A, c = np.array(A, dtype=float), np.array(c, dtype=float).flatten()
    e = np.abs(A.sum(axis=1) - c).max()
    if e > 1e-12:
        fail(f'{sch}: row sums deviate from the nodes by {e}')
'''
