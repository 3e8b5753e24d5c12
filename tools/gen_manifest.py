"""Writes MANIFEST.json from the table of claims."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
VG = 'value-graph comparison (abstract interpretation of the source with all sizes symbolic, normal forms, random interpretation of the graphs) with a reference formulation'
VGN = ('Identical normal forms establish the property of the covered option configuration for all sizes, schemes and data; configurations whose graphs differ in form are compared by '
       'interpretation at sampled sizes, which can miss a difference but never invents one. Trusted: the interpreter of /verif/analysis (Python subset and CasADi/NumPy models) and the reference formulation.')
CLAIMS = {}
for p in 'C01 C03 C04 C05 C06 C09 C10 C11 C12 C13 C14 C15 C25 C30'.split():
    CLAIMS[p] = (VG, 'translation_validation', VGN)
try:
    from tools.claims import MORE
    CLAIMS.update(MORE)
except ImportError:
    pass
NA = {
 'C31': 'Convergence order is a statement about the numerical solutions of the assembled nonlinear programs as the step size tends to zero; no static argument over this source bounds solver output. The ingredients that are decidable from the source are C01-C04, C09 and C10.',
 'C32': 'Depends on what the external NLP solver (IPOPT, compiled) returns at run time and on regularity of the user problem; the source only decides what is checked and reported, which are C06, C17 and C19.',
 'C33': 'Equality of numerical solutions up to the NLP tolerance is a property of solver runs; that every representation encodes its Runge-Kutta equations with coefficients of one scheme is decided under C01 and C02.',
}
def main():
    ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
    checks = [dict(property=i, quick_cmd=f'python3 check.py {i}', thorough_cmd=f'python3 check.py {i} --thorough',
                   technique=CLAIMS[i][0], level=CLAIMS[i][1], level_note=CLAIMS[i][2]) for i in ids if i in CLAIMS]
    na = [dict(property=i, reason=NA.get(i, 'not claimed yet: the check is under construction')) for i in ids if i not in CLAIMS]
    m = dict(version=1, setup_cmd='python3 -c "import ast, json, pickle, select"', checks=checks, not_applicable=na,
             notes='All checks read /repo/nosnoc/*.py on every run, need only the Python 3.12 standard library and write nothing outside /verif/evidence.')
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
    open(V + '/MANIFEST.json', 'a').write('\n')
main()
