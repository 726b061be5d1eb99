"""P22: Fisher information."""
from uni import *
import check
def contracts(keys=None):
    cs = []
    for k in keys or CONT + DISC:
        d = D[k]
        if d.fisher:
            f, cnd = with_cond(d.fisher)
            n = len(f(d.rec(A({m: var(m, 'R' if KINDS[t][0] == 'f64' else 'I') for m, t in d.params}))))
            cs.append(contract(d, 'fisher_information', 'd.fisher_information()', '[[f64; %d]; %d]' % (n, n), lambda p, a, r, f=f: [eqg('the expected negative Hessian', r, Arr([Arr(row) for row in f(p)]))], pre=cnd, desc='Fisher information', tol=1e-6))
    return cs
def run(tier): check.main('P22', tier, contracts(), assumptions=['the Fisher information of the specification is the expected negative Hessian of the log density (textbook)'])
