"""P17: means, variances and standard deviations."""
from uni import *
import check
def contracts(keys=None):
    cs = []
    for k in keys or CONT + DISC:
        d = D[k]
        if d.mean:
            f, cnd = with_cond(d.mean)
            cs.append(contract(d, 'mean', 'd.mean()', 'f64', lambda p, a, r, f=f: [eqg('the first moment', r, f(p))], pre=cnd, desc='mean where it exists'))
            cs[-1].abs = 1.0
            if isinstance(d.mean, tuple) and d.key != 'binomial': cs.append(undefined(d, 'mean', cnd, 'mean'))
        if d.var:
            f, cnd = with_cond(d.var)
            cs.append(contract(d, 'variance', 'd.variance()', 'f64', lambda p, a, r, f=f: [eqg('the second central moment', r, f(p))], pre=cnd, desc='variance where it exists'))
            cs.append(contract(d, 'standard_deviation', 'd.standard_deviation()', 'f64', lambda p, a, r, f=f: [eqg('the square root of the variance', r, sq(f(p)))], pre=cnd, desc='standard deviation where it exists'))
            cs[-1].tol = cs[-2].tol = 1e-6
            if isinstance(d.var, tuple) and d.key != 'binomial': cs += [undefined(d, 'variance', cnd, 'variance'), undefined(d, 'standard_deviation', cnd, 'standard deviation')]
        if d.inf_mean: cs.append(contract(d, 'mean.infinite', 'd.mean()', 'f64', lambda p, a, r: [eqg('infinite', r, INF)], pre=d.inf_mean, desc='an infinite mean is reported as infinite'))
        if d.inf_var: cs.append(contract(d, 'variance.infinite', 'd.variance()', 'f64', lambda p, a, r: [eqg('infinite', r, INF)], pre=d.inf_var, desc='an infinite variance is reported as infinite'))
    if not keys or 'levy' in keys: cs += [undefined(D['levy'], m, lambda p: FALSE, m.replace('_', ' ')) for m in ('variance', 'standard_deviation')]
    return cs
def run(tier): check.main('P17', tier, contracts(), assumptions=['the moments of the specification are those of the density of the specification (checked by quadrature, tools/selftest_uni.py)'])
