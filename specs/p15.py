"""P15: densities of the continuous distributions."""
from uni import *
import check
def contracts(keys=None):
    cs = []
    for k in keys or CONT:
        d = D[k]
        cs.append(contract(d, 'pdf', 'd.pdf(&x)', 'f64', lambda p, a, r, d=d: [eqg('the derivative of the CDF', r, d.pdf(p, a.x)), holds('not negative', le(ZERO, r))], x=True, inside=True, desc='density inside the support', nrand=300))
        if d.lo or d.hi:
            cs.append(contract(d, 'pdf.off_support', 'd.pdf(&x)', 'f64', lambda p, a, r, d=d: [eqg('zero off the support', r, ZERO)], x=True, pre=lambda p, a, d=d: d.outside(p, a.x), desc='density off the support', nrand=300))
        cs.append(contract(d, 'log_pdf', 'd.log_pdf(&x)', 'f64', lambda p, a, r, d=d: [eqg('the logarithm of the density', r, ln(d.pdf(p, a.x)))], x=True, inside=True, pre=lambda p, a, d=d: lt(ZERO, d.pdf(p, a.x)), desc='log density inside the support'))
        cs[-1].abs = 1.0
    if not keys or 'degenerate_f64' in keys:
        away = lambda p, a: lt(q(1, 10**6), mk('abs', a.x - p.k))
        cs.append(contract(D['degenerate_f64'], 'pdf.off_support', 'd.pdf(&x)', 'f64', lambda p, a, r: [eqg('zero away from the point', r, ZERO)], x=True, pre=away, desc='density away from the point', nrand=300))
    return cs
def run(tier):
    check.main('P15', tier, contracts(), assumptions=['the density of the specification is the derivative of the CDF of the specification (checked numerically by tools/selftest_uni.py)'])
