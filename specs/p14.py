"""P14: cumulative distribution functions of the continuous distributions."""
from uni import *
import check
def contracts(keys=None):
    cs = []
    for k in keys or CONT:
        d = D[k]
        cs.append(contract(d, 'cdf', 'd.cdf(&x).unwrap()', 'f64', lambda p, a, r, d=d: [eqg('the textbook CDF at every real point', r, d.F(p, a.x))], x=True, desc='CDF at every real point', nrand=300))
        cs.append(contract(d, 'ccdf', 'd.ccdf(&x).unwrap()', 'f64', lambda p, a, r, d=d: [eqg('one minus the CDF', r, 1 - d.F(p, a.x))], x=True, desc='complementary CDF at every real point'))
        if d.lo or d.hi:
            cs.append(contract(d, 'cdf.off_support', 'd.cdf(&x).unwrap()', 'f64', lambda p, a, r, d=d: [eqg('zero below the support, one above it', r, ite(lt(a.x, d.lo(p)), ZERO, ONE))], x=True, pre=lambda p, a, d=d: d.outside(p, a.x), desc='CDF off the support', nrand=300))
        pos = lambda p, a, d=d: and_(d.inside(p, a.x), lt(ZERO, d.cdf(p, a.x)), lt(d.cdf(p, a.x), ONE))
        cs.append(contract(d, 'log_cdf', '(d.log_cdf(&x), d.log_ccdf(&x))', '(f64, f64)', lambda p, a, r, d=d: [eqg('the logarithm of the CDF', r.f[0], ln(d.cdf(p, a.x))), eqg('the logarithm of the complementary CDF', r.f[1], ln(1 - d.cdf(p, a.x)))],
                           x=True, inside=True, pre=pos, desc='log CDF and log complementary CDF inside the support'))
        c = cs[-1]; c.tol = max(c.tol, 1e-6)
        cs[-1].abs = 1.0
    if not keys or 'degenerate_f64' in keys:
        d = D['degenerate_f64']
        cs.append(contract(d, 'cdf', 'd.cdf(&x).unwrap()', 'f64', lambda p, a, r, d=d: [eqg('the unit step at the point', r, d.dcdf(p, a.x))], x=True, desc='CDF at every real point', nrand=300))
        cs.append(contract(d, 'ccdf', 'd.ccdf(&x).unwrap()', 'f64', lambda p, a, r, d=d: [eqg('one minus the CDF', r, 1 - d.dcdf(p, a.x))], x=True, desc='complementary CDF at every real point'))
    return cs
def run(tier):
    check.main('P14', tier, contracts(), assumptions=['special functions are the mathematical functions (accuracy of cephes is not verified)', 'the textbook CDF of the specification is monotone and within [0, 1] (definition of a CDF; its derivative is checked against the density numerically by tools/selftest_uni.py)'])
