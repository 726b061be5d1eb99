"""P18: skewness and kurtosis."""
from uni import *
import check
def contracts(keys=None):
    cs = []
    for k in keys or CONT + DISC:
        d = D[k]
        if d.skew:
            f, cnd = with_cond(d.skew)
            cs.append(contract(d, 'skewness', 'd.skewness()', 'f64', lambda p, a, r, f=f: [eqg('the third standardised moment', r, f(p))], pre=cnd, desc='skewness where it exists', tol=1e-5))
            cs[-1].abs = 1.0
            if isinstance(d.skew, tuple) and d.key != 'binomial': cs.append(undefined(d, 'skewness', cnd, 'skewness'))
        if d.ek and not d.edge:
            f, cnd = with_cond(d.ek)
            cs.append(contract(d, 'excess_kurtosis', 'd.excess_kurtosis()', 'f64', lambda p, a, r, f=f: [eqg('the fourth standardised moment minus three', r, f(p))], pre=cnd, desc='excess kurtosis where it exists', tol=1e-5))
            cs[-1].abs = 1.0
            cs.append(contract(d, 'kurtosis', 'd.kurtosis()', 'f64', lambda p, a, r, f=f: [eqg('the fourth standardised moment', r, f(p) + 3)], pre=cnd, desc='kurtosis where it exists', tol=1e-5))
            cs[-1].abs = 1.0
            if isinstance(d.ek, tuple) and d.key != 'binomial': cs += [undefined(d, 'excess_kurtosis', cnd, 'excess kurtosis'), undefined(d, 'kurtosis', cnd, 'kurtosis')]
    if not keys or 'levy' in keys: cs += [undefined(D['levy'], m, lambda p: FALSE, m.replace('_', ' ')) for m in ('skewness', 'kurtosis', 'excess_kurtosis')]
    return cs
def run(tier): check.main('P18', tier, contracts(), assumptions=['the moments of the specification are those of the density of the specification (checked by quadrature, tools/selftest_uni.py)'])
