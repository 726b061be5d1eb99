"""P21: Shannon entropies."""
from uni import *
import check
def contracts(keys=None):
    cs = []
    for k in keys or CONT + DISC:
        d = D[k]
        if d.ent:
            f, cnd = with_cond(d.ent)
            cs.append(contract(d, 'shannon_entropy', 'd.shannon_entropy()', 'f64', lambda p, a, r, f=f: [eqg('minus the expected log density', r, f(p))], pre=cnd, desc='Shannon entropy in nats', tol=1e-6))
            cs[-1].abs = 1.0
            if k == 'inverse_normal': cs[-1].known = lambda a, r, d=d: [eqg('the entropy of a normal distribution of the same variance', r, ln(2 * PI * E * d.var(d.rec(a))) / 2)]
            if k == 'binomial': cs[-1].known = lambda a, r, d=d: [eqg('the entropy of a normal distribution of the same variance', r, ln(2 * PI * E * d.var(d.rec(a))) / 2)]
            if k == 'poisson': cs[-1].known = lambda a, r: [eqg('the leading terms of the expansion for large lambda', r, ln(2 * PI * E * a.lam) / 2 - 1 / (12 * a.lam) - 1 / (24 * a.lam * a.lam) - 19 / (360 * a.lam * a.lam * a.lam))]
    return cs + ([] if keys else multivariate())
def multivariate():
    import mvar, p27, p13
    cs = []
    for k in ('full', 'diagonal', 'isotropic', 'paired', 'bivariate'):
        d = mvar.MV[k]
        def post(a, r, d=d): return [eqg('minus the expected log density', r, (toreal(d.dim(a)) * (1 + p27.LN2PI) + p27.logdet(d, a)) / 2)]
        c = Contract('mv_%s.shannon_entropy' % k, ('mv_' + k, d.use), mvar.client(d, 'ent', '', 'f64', 'd.shannon_entropy()'), post, pre=(lambda a, d=d: and_(d.pre(a), p27.cholpos(a))) if k == 'full' else d.pre, gen=d.gen, desc='Shannon entropy of a normal (%s covariance) in nats' % k, nrand=120, tol=1e-8, intercept=p13.BY_CONTRACT)
        c.range = (1e-6, 2e3, 2**40); c.abs = 1.0; cs.append(c)
    return cs
def run(tier): check.main('P21', tier, contracts(), assumptions=['the entropies of the specification are those of its densities (checked by quadrature, tools/selftest_uni.py); that of a multivariate normal is k(1 + ln 2 pi)/2 + ln det Sigma / 2', 'the covariance matrix of a full normal is symmetric positive definite; the linear-algebra helpers satisfy the contracts of P13'])
