"""P26: the moments of the multivariate distributions."""
from mvar import *
import check
def corr(d):
    if d.key == 'multinomial':      # the same quotient with the number of trials cancelled
        return lambda a, i, j: ite(eq(i, j), ONE, neg(sq(at(a.v, i) * at(a.v, j) / (1 - at(a.v, i)) / (1 - at(a.v, j)))))
    return lambda a, i, j: ite(eq(i, j), ONE, d.cov(a, i, j) / sq(d.cov(a, i, i) * d.cov(a, j, j)))
def contracts():
    cs = []
    for k, d in MV.items():
        G = ('m_' + k, d.use); n = d.n
        V = '[f64; %s]' % n; MM = '[[f64; %s]; %s]' % (n, n)
        def add(cid, ret, post, pre=None, desc=''):
            c = Contract(k + '.' + cid, G, client(d, cid, '', ret, 'MvMoments::%s(&d)' % cid), post, pre=pre or d.pre, gen=d.gen, desc='%s of %s' % (desc, k), nrand=60, tol=1e-8)
            c.range = (1e-6, 2e3, 2**40); cs.append(c)
        add('mean', V, lambda a, r, d=d: [eqg('the mean vector', r, VEC(d.dim(a), lambda i: d.mean(a, i)))], desc='mean')
        add('variance', V, lambda a, r, d=d: [eqg('the diagonal of the covariance', r, VEC(d.dim(a), lambda i: d.cov(a, i, i)))], desc='variances')
        add('covariance', MM, lambda a, r, d=d: [eqg('the covariance matrix', r, MAT(d.dim(a), lambda i, j: d.cov(a, i, j)))], desc='covariance')
        add('correlation', MM, lambda a, r, d=d: [eqg('the covariance over the standard deviations', r, MAT(d.dim(a), lambda i, j: corr(d)(a, i, j)))],
            pre={'dirichlet': lambda a, d=d: and_(d.pre(a), lt(ONE, a.N), all_(a.v, lambda x: lt(x, a0(a)))), 'multinomial': lambda a, d=d: and_(d.pre(a), inner(a), lt(ZERO, a.k))}.get(k), desc='correlation')
    return cs
def run(tier): check.main('P26', tier, contracts(), assumptions=['the covariance matrix of a full normal is symmetric with positive variances'])
