"""P27: densities, masses and distances of the multivariate distributions."""
from mvar import *
import check, smt, blasmodel as bm
from p28 import BY_CONTRACT, seqn
LN2PI = ln(2 * PI)
_pm = {}
def PREC(a, i, j):
    """entry of the inverse covariance matrix: Gram matrix of the inverse Cholesky factor"""
    return seqn(a.N, lambda k: mk('*', p13.linv(A_(a), k, i), p13.linv(A_(a), k, j)))
class A_:
    def __init__(s, a): s.m = a.s; s.N = a.N
def z2(d):
    """(x - mu)^T Sigma^-1 (x - mu)"""
    def f(a, x):
        n = a.N if d.n == 'N' else num(2)
        D_ = lambda i: x(i) - at(a.mu, i)
        if 'full' in d.key: return seqn(n, lambda i: mk('*', D_(i), seqn(n, lambda j: mk('*', PREC(a, i, j), D_(j)))))
        if 'diagonal' in d.key: return seqn(n, lambda i: D_(i) * D_(i) / at(a.s, i))
        if 'isotropic' in d.key: return seqn(n, lambda i: D_(i) * D_(i) / a.s)
        u, v = D_(0), D_(1); s0, s1 = at(a.s, 0), at(a.s, 1)
        if d.key == 'paired': return u * u / s0 + v * v / s1
        return (u * u / s0 - 2 * a.rho * u * v / (sq(s0) * sq(s1)) + v * v / s1) / (1 - a.rho * a.rho)
    return f
def logdet(d, a):
    if 'full' in d.key: return 2 * ln(prod_n(a.N, lambda i: CHOL_(a, i)))
    if 'diagonal' in d.key: return ln(prod_n(a.N, lambda i: at(a.s, i)))
    if 'isotropic' in d.key: return toreal(a.N) * ln(a.s)
    t = ln(at(a.s, 0)) + ln(at(a.s, 1))
    return t if d.key == 'paired' else t + ln(1 - a.rho * a.rho)
def CHOL_(a, i): return p13.CHOL(a.s, i, i)
def prod_n(n, f):
    if n.op == 'num':
        t = ONE
        for i in range(int(n.a[0])): t = t * f(num(i))
        return t
    i = var('pi', 'I'); return mk('prod', i, ZERO, n, f(i))
def npdf(d, a, x):
    if d.key == 'bivariate': return exp_(-z2(d)(a, x) / 2) / (2 * PI * sq(at(a.s, 0)) * sq(at(a.s, 1)) * sq(1 - a.rho * a.rho))
    return exp_(-(z2(d)(a, x) + toreal(d.dim(a)) * LN2PI + logdet(d, a)) / 2)
def cholpos(a): return p13.forall_m(a.N, lambda i, j: lt(ZERO, CHOL_(a, i)))
def needs_zero(a):
    f = lambda i: and_(eq(at(a.v, i), ZERO), lt(ZERO, at(a.x, i)))
    if a.N.op == 'num': return or_(*[f(num(i)) for i in range(int(a.N.a[0]))])
    i = var('nz', 'I'); return mk('exists', i, ZERO, a.N, f(i))
def contracts():
    cs = []
    for k, d in MV.items():
        G = ('f_' + k, d.use); X = 'x: [%s; %s]' % (d.xt, d.n)
        def add(cid, body, post, pre=None, gx=None, ret='f64', d=d, k=k, G=G, X=X, desc='', **kw):
            g = lambda rng, *m: (lambda r: dict(r, x=gx(rng, r)))(d.gen(rng, *m))
            c = Contract(k + '.' + cid, G, client(d, cid, ', ' + X, ret, body), post, pre=(lambda a: and_(d.pre(a), pre(a))) if pre else d.pre, gen=g, desc=desc or '%s of %s' % (cid, k), nrand=80, tol=1e-8, intercept=p13.BY_CONTRACT, **kw)
            c.range = (1e-6, 2e3, 2**40); cs.append(c); return c
        XI = lambda a: (lambda i: at(a.x, i))
        if k in ('full', 'diagonal', 'isotropic', 'paired', 'bivariate'):
            gx = near
            pre = cholpos if k == 'full' else None
            add('pdf', 'd.pdf(&x)', lambda a, r, d=d: [eqg('the normal density', r, npdf(d, a, XI(a)))], pre, gx)
            add('log_pdf', 'd.log_pdf(&x)', lambda a, r, d=d: [eqg('the logarithm of the normal density', r, ln(npdf(d, a, XI(a))))], pre, gx)
            if k in ('paired', 'bivariate'):
                add('z', 'd.z(&x)', lambda a, r, d=d: [eqg('the quadratic form of the precision matrix', r, z2(d)(a, XI(a)))], None, gx)
            else:
                add('d_mahalanobis_squared', 'd.d_mahalanobis_squared(&x)', lambda a, r, d=d: [eqg('the quadratic form of the precision matrix', r, z2(d)(a, XI(a)))], None, gx)
                add('d_mahalanobis', 'd.d_mahalanobis(&x)', lambda a, r, d=d: [eqg('the root of the quadratic form of the precision matrix', r, sq(z2(d)(a, XI(a))))], None, gx)
                if k == 'full': cs[-1].positive = lambda a: [z2(MV['full'])(a, lambda i: at(a.x, i))]   # a Gram matrix is positive semi-definite
        elif k.startswith('log'):
            gxl = lambda rng, r: [math.exp(m) * rng.choice([1] * 9 + [-1, 0]) for m in near(rng, r)]
            X0 = lambda a: (lambda i: ln(at(a.x, i)))
            allpos = lambda a: all_(a.x, lambda x: lt(ZERO, x))
            base = MV[k[3:]]
            pre = cholpos if k == 'logfull' else lambda a: TRUE
            add('pdf', 'd.pdf(&x)', lambda a, r, d=base: [eqg('the normal density at the logarithms over the product of the coordinates', r, npdf(d, a, X0(a)) / prod_n(a.N, XI(a)))], lambda a, pre=pre: and_(pre(a), allpos(a)), lambda rng, r: [abs(x) or 1.0 for x in gxl(rng, r)])
            add('pdf_outside', 'd.pdf(&x)', lambda a, r: [eqg('zero off the support', r, ZERO)], lambda a, pre=pre: and_(pre(a), not_(allpos(a))), gxl)
        elif k == 'dirichlet':
            inb = lambda a: all_(a.x, lambda x: and_(le(ZERO, x), le(x, ONE)))
            logd = lambda a: mk('lgamma', a0(a)) + seqn(a.N, lambda i: mk('-', ite(eq(at(a.v, i), ONE), ZERO, mk('*', mk('-', at(a.v, i), ONE), ln(at(a.x, i)))), mk('lgamma', at(a.v, i))))
            add('pdf', 'd.pdf(&x)', lambda a, r: [eqg('the Dirichlet density', r, exp_(logd(a)))], lambda a: all_(a.x, lambda x: and_(lt(ZERO, x), le(x, ONE))), lambda rng, r: [(x + 1e-3) / (1 + 1e-3 * len(r['v'])) for x in p16.simplex(rng, len(r['v']))])
            add('log_pdf', 'd.log_pdf(&x)', lambda a, r: [eqg('the logarithm of the Dirichlet density', r, logd(a))], lambda a: all_(a.x, lambda x: and_(lt(ZERO, x), le(x, ONE))), lambda rng, r: [(x + 1e-3) / (1 + 1e-3 * len(r['v'])) for x in p16.simplex(rng, len(r['v']))])
            add('pdf_outside', 'd.pdf(&x)', lambda a, r: [eqg('zero off the support', r, ZERO)], lambda a: not_(inb(a)), lambda rng, r: [rng.choice([x, -x - .1, -1.0, 2.0]) for x in p16.simplex(rng, len(r['v']))])
        else:
            tot = lambda a: seqsum(a.x)
            xl = lambda a, i: ite(eq(at(a.x, i), ZERO), ZERO, toreal(at(a.x, i)) * ln(at(a.v, i)))
            logm = lambda a: mk('lgamma', K(a) + 1) + seqn(a.N, lambda i: mk('-', xl(a, i), mk('lgamma', toreal(at(a.x, i)) + 1)))
            def gxm(rng, r):
                n = len(r['v']); x = [0] * n
                for _ in range(r['k'] if n else 0):
                    i = rng.randrange(n)
                    x[i] += 1
                if n and rng.random() < .3: x[rng.randrange(n)] += 1
                return x
            ok = lambda a: and_(all_(a.v, lambda x: lt(ZERO, x)), all_(a.x, lambda x: lt(x, num(1 << 30))))
            add('pmf', 'd.pmf(&x).unwrap()', lambda a, r: [eqg('the multinomial mass', r, ite(eq(tot(a), a.k), exp_(logm(a)), ZERO))], lambda a: and_(ok(a), le(exp_(logm(a)), ONE)), gxm)
            add('log_pmf', 'd.log_pmf(&x)', lambda a, r: [eqg('the logarithm of the multinomial mass', r, logm(a))], lambda a: and_(ok(a), eq(tot(a), a.k)), gxm)
            # an outcome that needs a category of weight zero: the mass is zero and its logarithm minus infinity
            def gz(rng, *m, d=d):
                r = d.gen(rng, *m); n = len(r['v'])
                if not n: return dict(r, x=[])
                i = rng.randrange(n); v = list(r['v'])
                if n > 1:
                    v[i] = 0.0; t = sum(v)
                    v = [x / t for x in v] if t > 0 else [0.0 if j == i else 1 / (n - 1) for j in range(n)]
                x = [0] * n
                for _ in range(r['k']): x[rng.randrange(n)] += 1
                if r['k'] and not x[i]:
                    j = next(j for j in range(n) if x[j]); x[j] -= 1; x[i] += 1
                return dict(r, v=v, x=x)
            for cid, body in (('pmf_impossible', 'd.pmf(&x).unwrap()'), ('exp_log_pmf_impossible', 'd.log_pmf(&x).exp()')):
                add(cid, body, lambda a, r: [eqg('an outcome that needs a category of weight zero has no mass', r, ZERO)], lambda a: and_(all_(a.x, lambda x: lt(x, num(1 << 30))), eq(tot(a), a.k), needs_zero(a)), gxm)
                cs[-1].gen = gz
    return cs + agree()
# the Cholesky factor, its inverse and the Gram matrix where the mathematics is explicit: diagonal matrices of any size and 2 x 2 matrices
def _isdiag(M):
    n = length(M)
    if n.op == 'num': return False
    i, j = var('di', 'I'), var('dj', 'I')
    return smt.Smt('real').entails([le(ZERO, i), lt(i, n), le(ZERO, j), lt(j, n), not_(eq(i, j))], eq(at(at(M, i), j), ZERO))
def x_cholesky(ex, st, callee, args, rty):
    M = p13._peel(ex, st, args[0]); n = length(M)
    if _isdiag(M): return [(st, MAT(n, lambda i, j: dl(i, j, sq(at(at(M, i), i)))))]
    if n.op != 'num' or int(n.a[0]) != 2: raise p13.Unsupported('explicit Cholesky factor')
    p, q, r = e2(M, 0, 0), e2(M, 1, 0), e2(M, 1, 1)
    return [(st, Arr([Arr([sq(p), ZERO]), Arr([q / sq(p), sq(r - q * q / p)])]))]
def x_inverse_lt(ex, st, callee, args, rty):
    M = p13._peel(ex, st, args[0]); n = length(M)
    if _isdiag(M): return [(st, MAT(n, lambda i, j: dl(i, j, 1 / at(at(M, i), i))))]
    if n.op != 'num' or int(n.a[0]) != 2: raise p13.Unsupported('explicit inverse')
    p, q, r = e2(M, 0, 0), e2(M, 1, 0), e2(M, 1, 1)
    return [(st, Arr([Arr([1 / p, ZERO]), Arr([neg(q / (p * r)), 1 / r])]))]
def x_mm_square(ex, st, callee, args, rty):
    M = p13._peel(ex, st, args[0]); n = length(M)
    if _isdiag(M): return [(st, MAT(n, lambda i, j: dl(i, j, at(at(M, i), i) * at(at(M, i), i))))]
    return p13.c_mm_square(ex, st, callee, args, rty)
def x_mv_mult(ex, st, callee, args, rty):
    M = p13._peel(ex, st, args[0]); v = p13._peel(ex, st, args[1]); n = length(M)
    if _isdiag(M): return [(st, VEC(n, lambda i: at(at(M, i), i) * at(v, i)))]
    return p13.c_mv_mult(ex, st, callee, args, rty)
EXPLICIT = {'normal::linalg::' + k: f for k, f in (('cholesky', x_cholesky), ('inverse_lt', x_inverse_lt), ('mm_square', x_mm_square), ('mv_mult', x_mv_mult))}
def agree():
    cs = []
    def add(cid, base, cn, extra, a, b, gen, what, pre=None, ret='(f64, f64)', q='(c.pdf(&x), d.pdf(&x))'):
        d = MV[base]
        src = 'pub fn mva_%s%s(%s, x: [f64; %s]) -> %s { let c = %s; let d = %s; %s }' % (cid, cn, extra, 'N' if cn else '2', ret, a, b, q)
        c = Contract('agree.' + cid, ('f_agree', USE), src, lambda a_, r: [eqg('the same density', r.f[0], r.f[1])], pre=pre or d.pre, gen=lambda rng, *m: (lambda r: dict(r, x=near(rng, r)))(gen(rng, *m)), desc=what, nrand=60, tol=1e-8, intercept=EXPLICIT)
        c.range = (1e-6, 2e3, 2**40); cs.append(c)
    gd, gi, gp, gb = MV['diagonal'].gen, MV['isotropic'].gen, MV['paired'].gen, MV['bivariate'].gen
    S = 'mu: [f64; N], s: [f64; N]'
    add('isotropic_diagonal', 'isotropic', '<const N: usize>', 'mu: [f64; N], s: f64', 'IsotropicNormal::<N>::isotropic_unchecked(mu, s)', 'DiagonalNormal::<N>::diagonal_unchecked(mu, [s; N])', gi, 'isotropic and diagonal normal of the same covariance')
    add('full_diagonal', 'diagonal', '<const N: usize>', S, 'DiagonalNormal::<N>::diagonal_unchecked(mu, s)', 'MvNormal::<N>::new_unchecked(mu, MvMoments::covariance(&c))', gd, 'diagonal and full normal of the same covariance')
    add('full_isotropic', 'isotropic', '<const N: usize>', 'mu: [f64; N], s: f64', 'IsotropicNormal::<N>::isotropic_unchecked(mu, s)', 'MvNormal::<N>::new_unchecked(mu, MvMoments::covariance(&c))', gi, 'isotropic and full normal of the same covariance')
    P = 'mu: [f64; 2], s: [f64; 2]'
    add('paired_diagonal', 'paired', '', P, 'PairedNormal::new_unchecked(mu, s)', 'DiagonalNormal::<2>::diagonal_unchecked(mu, s)', gp, 'paired and two-dimensional diagonal normal')
    add('paired_bivariate', 'paired', '', P, 'PairedNormal::new_unchecked(mu, s)', 'BvNormal::new_unchecked(mu, s, 0.0)', gp, 'paired and uncorrelated bivariate normal')
    add('bivariate_full', 'bivariate', '', P + ', rho: f64', 'BvNormal::new_unchecked(mu, s, rho)', 'MvNormal::<2>::new_unchecked(mu, MvMoments::covariance(&c))', gb, 'bivariate and two-dimensional full normal of the same covariance')
    add('paired_full', 'paired', '', P, 'PairedNormal::new_unchecked(mu, s)', 'MvNormal::<2>::new_unchecked(mu, MvMoments::covariance(&c))', gp, 'paired and two-dimensional full normal of the same covariance')
    return cs
def run(tier): check.main('P27', tier, contracts(), assumptions=['the covariance matrix of a full normal is symmetric positive definite; the linear-algebra helpers satisfy the contracts of P13'])
