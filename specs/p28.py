"""P28: supports, and samples that follow the distribution."""
from uni import *
import check, p09, p13
from p13 import spd, CHOL
# ---- laws of the generators of rand_distr, as CDFs (continuous) or masses (discrete)
N_ = lambda z_: Phi(z_)
GEN = {
 'Normal': lambda x, m, s: N_((x - m) / s), 'LogNormal': lambda x, m, s: N_((ln(x) - m) / s), 'Gamma': lambda x, k, t: P_(k, x / t), 'Beta': lambda x, a, b: I_(a, b, x),
 'Cauchy': lambda x, m, s: q(1, 2) + atan((x - m) / s) / PI, 'ChiSquared': lambda x, k: P_(k / 2, x / 2), 'Exp': lambda x, l: 1 - ex(-l * x),
 'FisherF': lambda x, a, b: I_(a / 2, b / 2, a * x / (a * x + b)), 'Pareto': lambda x, s, a: 1 - pw(s / x, a),
 'StudentT': lambda x, n: D['student_t'].cdf(A({'nu': n}), x), 'Triangular': lambda x, a, b, c: ite(le(x, c), (x - a) * (x - a) / ((b - a) * (c - a)), 1 - (b - x) * (b - x) / ((b - a) * (b - c))),
 'Weibull': lambda x, s, k: 1 - ex(-pw(x / s, k)), 'Uniform': lambda x, a, b: (x - a) / (b - a), 'Uniform!': lambda x, a, b: (x - a) / (b - a), 'Open01': lambda x: x, 'U01': lambda x: x,
 'Frechet': lambda x, l, s, a: ex(-pw((x - l) / s, -a)), 'Gumbel': lambda x, l, s: ex(-ex(-(x - l) / s)), 'InverseGaussian': lambda x, m, l: D['inverse_normal'].cdf(A({'mu': m, 'lam': l}), x),
}
GPMF = {'Poisson': lambda k, l: ex(k * ln(l) - l - lG(k + 1)), 'Binomial': lambda k, n, p: ex(lC(n, k)) * pw(p, k) * pw(1 - p, n - k), 'Geometric': lambda k, p: p * pw(1 - p, k),
        'Uniform': lambda k, a, b: 1 / (b - a), 'Uniform!': lambda k, a, b: 1 / (b - a + 1)}
def draws(t, out=None):
    """the draws a result depends on"""
    out = {} if out is None else out
    if isinstance(t, T):
        if t.op == 'app' and str(t.a[0]).startswith('draw:'): out[t] = t
        else:
            for x in t.a:
                if isinstance(x, (T, Agg, Arr)): draws(x, out)
    elif isinstance(t, (Agg,)):
        for x in t.f: draws(x, out)
    elif isinstance(t, Arr):
        for x in t.e: draws(x, out)
    return list(out)
def genlaw(d):
    name = d.a[0][5:]; args = [toreal(x) if isinstance(x, T) and sort(x) != 'R' else x for x in d.a[4:]]
    if name.endswith('i'): return GPMF[name[:-1]](toreal(d), *args)
    return GEN[name](d, *args)
# samples whose CDF decreases in the draw
FLIP = {'frechet': False, 'kumaraswamy': False, 'laplace': False}
UNSAMPLED = {'arcsine', 'beta_binomial', 'beta_prime', 'chi', 'cosine', 'erlang', 'gev', 'gpd', 'gumbel', 'inverse_gamma', 'levy', 'logistic', 'rayleigh'}
NS_, KS = 100000, 0.0165      # chance of exceeding it: below 1e-11 a run
PICK = [0, 1, 2, 4, 9, 19, 39, 99, 299, 999] + list(range(2499, 99000, 2500)) + [98999, 99699, 99899, 99959, 99989, 99997, 99998, 99999]
SORT = 'v.sort_by(|a, b| a.partial_cmp(b).unwrap()); let mut o = [v[0]; %d]; let k = [%s]; for i in 0..%d { o[i] = v[k[i]]; } o' % (len(PICK), ', '.join('%dusize' % i for i in PICK), len(PICK))
def ks(xs, F, Fm):
    """Kolmogorov-Smirnov distance of order statistics from a CDF (F at x, Fm just below x)"""
    ev = Ev(); worst = 0.0
    for k, x in zip(PICK, xs):
        worst = max(worst, (k + 1) / NS_ - float(ev(F(x))), float(ev(Fm(x))) - k / NS_)
    return worst
def seeds(rng, v): return {'seed': rng.randrange(2**60) * 8 + 5}
def follows(d, p, a, r):
    xs = r.e
    if d.xt == 'bool':
        f1 = sum(1 for k, x in zip(PICK, xs) if Ev()(lift(x))) / len(PICK)
        # order statistics of booleans: the position of the first one tells the frequency
        k1 = next((k for k, x in zip(PICK, xs) if Ev()(lift(x))), NS_)
        k0 = max([k for k, x in zip(PICK, xs) if not Ev()(lift(x))], default=-1)
        pr = float(Ev()(p.p)); return [holds('%d draws follow the distribution' % NS_, lift(bool((NS_ - k1) / NS_ - KS <= pr <= (NS_ - 1 - k0) / NS_ + KS)))]
    num_ = [x if d.xt == 'f64' else toreal(x) for x in xs]
    if d.key.startswith('degen'): return [holds('every draw is the one value', and_(*[eq(x, p.k) for x in num_]))]
    if d.discrete:
        one = lambda x: num(int(Ev()(x)))
        F = lambda x: d.dcdf(p, one(x)); Fm = lambda x: d.dcdf(p, one(x) - 1) if not (d.xt != 'i64' and int(Ev()(x)) == 0) else ZERO
        g = [holds('every draw lies in the support', and_(*[d.insupp(p, num(int(Ev()(x)))) for x in num_]))]
    else:
        if any(not abs(float(Ev()(x))) < 1e300 for x in num_): return [holds('every draw is finite', FALSE)]
        F = Fm = lambda x: d.F(p, x)
        g = [holds('every draw lies in the support', and_(*[not_(d.outside(p, x)) for x in num_]))]
    return g + [holds('%d draws follow the distribution (Kolmogorov-Smirnov distance %s)' % (NS_, KS), lift(ks(num_, F, Fm) <= KS))]
def support(d):
    if d.discrete:
        post = lambda p, a, r: [holds('exactly the values with positive mass', iff(lift(r), d.insupp(p, a.x)))]; pre = None
        if d.xt == 'bool': post = lambda p, a, r: [holds('both values', lift(r))]
    else:
        post = lambda p, a, r: [holds('exactly the closure of the points with positive density', iff(lift(r), d.inside(p, a.x)))]
        pre = lambda p, a: and_(*([not_(eq(a.x, d.lo(p)))] if d.lo else []), *([not_(eq(a.x, d.hi(p)))] if d.hi else []))
    return contract(d, 'support', '{ use spaces::Space; d.support().contains(&x) }', 'bool', post, x=True, pre=pre, desc='support')
def law(d):
    """the single-draw contract; when it is not discharged the real sampler is run and compared with the CDF"""
    def post(p, a, r):
        ds = draws(r)
        if d.xt == 'bool':
            u = ds[0] if ds else ZERO
            return [holds('true with probability p', iff(r, lt(u, p.p)))]
        if not ds: return [eqg('the only value', r if d.xt == 'f64' else toreal(r), p.k if d.key.startswith('degen') else INF)]
        if d.key == 'inverse_normal': return ig_law(p, r, ds)
        if d.key == 'folded_normal' and len(ds) == 1 and ds[0].a[0] == 'draw:Normal':
            m, s = ds[0].a[4:]
            return [eqg('the absolute value of a draw from N(mu, sigma^2)', r, mk('abs', p.mu + p.sigma * ((ds[0] - m) / s)))]
        x = ds[0]
        if len(ds) != 1: return [holds('a function of one draw', FALSE)]
        if d.discrete: return [holds('the drawn count', eq(toreal(r), toreal(x))), eqg('its mass is that of the generator', d.pmf(p, r), genlaw(x)), holds('in the support', d.insupp(p, r))]
        G = genlaw(x)
        F = d.cdf(p, r)
        if x.a[0][5:].startswith('Uniform'): F = ite(and_(lt(x.a[4], x), lt(x, x.a[5])), F, G)
        return [eqg('the CDF at the sample is the CDF of the generator at its draw', F, G), holds('in the closed support', not_(d.outside(p, r)))]
    xt = d.xt
    c = contract(d, 'sample', '{ let mut g = rng(seed); d.sample(&mut g) }', xt, post, args='seed: u64', gen=seeds, desc='a sample follows the distribution')
    k = contract(d, 'sample.ks', '{ let mut g = rng(seed); let mut v = d.sample_n(&mut g, %d); %s }' % (NS_, SORT), '[%s; %d]' % (xt, len(PICK)), lambda p, a, r: follows(d, p, a, r), args='seed: u64', gen=seeds,
                 desc='%d samples of the real sampler follow the distribution' % NS_, proof=False, nrand=24)
    k.range = (k.range[0], k.range[1], 2**64); c.range = (c.range[0], c.range[1], 2**64)
    c.sampled = k
    return c
def ig_law(p, r, ds):
    n = [x for x in ds if x.a[0] == 'draw:Normal']
    if not n: return [holds('the square of a standard normal draw', FALSE)]
    zz = (n[0] - n[0].a[4]) / n[0].a[5]
    return [step('positive', lt(ZERO, r)), eqg('a root of lambda (x - mu)^2 = mu^2 x z^2', p.lam * (r - p.mu) * (r - p.mu), p.mu * p.mu * r * zz * zz)] + pick(p, r, n[0], zz)
def pick(p, r, n, zz):
    u = app('draw:Uniform!', 'R', n.a[2], ONE, ZERO, ONE)
    return [holds('the smaller root with probability mu / (mu + x), the larger one otherwise', or_(and_(le(r, p.mu), le(u, p.mu / (p.mu + r))), and_(le(p.mu, r), le(r / (p.mu + r), u))))]
def contracts(keys=None):
    cs = []
    for k in keys or CONT + DISC:
        d = D[k]
        if not d.edge: cs.append(support(d))
        if k not in UNSAMPLED and not d.edge: cs.append(law(d))
    return cs
# ---- distributions over vectors
def zdraw(a, i): return app('draw:Normal', 'R', toseed(a), i, ZERO, ONE)
def toseed(a): return a.seed
def pairz(a): return zdraw(a, ZERO), zdraw(a, ONE)
fin = lambda rng: rng.uniform(-3, 3)
def gmu(rng, n): return [fin(rng) for _ in range(n)]
def gvar(rng, n): return [posv(rng) for _ in range(n)]
def order(xs, cdf, what):
    if any(not abs(float(Ev()(x))) < 1e300 for x in xs): return [holds('every draw is finite', FALSE)]
    return [holds('%d draws follow the distribution: %s (Kolmogorov-Smirnov distance %s)' % (NS_, what, KS), lift(ks(xs, cdf, cdf) <= KS))]
BY_CONTRACT = p13.BY_CONTRACT
def mv():
    cs = []
    def V(cid, G, sig, ctor, post, pre, gen, ksmap, kspost, n='N', xty=None, **kw):
        cn = '<const N: usize>' if n == 'N' else ''
        nm = cid.replace('.', '_')
        xty = xty or '[f64; %s]' % n
        g = lambda rng, *m: dict(gen(rng, *m), seed=rng.randrange(2**60) * 8 + 5)
        c = Contract(cid + '.sample', G, 'pub fn v_%s%s(%s, seed: u64) -> %s { let d = %s; let mut g = rng(seed); d.sample(&mut g) }' % (nm, cn, sig, xty, ctor), post, pre=pre, gen=g, desc='a sample of ' + cid, **kw)
        gk = lambda rng, *m: dict(g(rng, *m), w=[rng.gauss(0, 1) for _ in range(m[0] if m else 2)])
        k = Contract(cid + '.sample.ks', G, 'pub fn v_%s_ks%s(%s, seed: u64, w: [f64; %s]) -> [f64; %d] { let d = %s; let mut g = rng(seed); let mut v: Vec<f64> = d.sample_n(&mut g, %d).into_iter().map(|x| %s).collect(); %s }' % (nm, cn, sig, n, len(PICK), ctor, NS_, ksmap, SORT),
                     kspost, pre=pre, gen=gk, proof=False, nrand=24, desc='%d samples of the real sampler follow the distribution' % NS_, **kw)
        k.range = c.range = (1e-4, 2e3, 2**64); c.sampled = k; cs.append(c)
    GN = ('v_normal', 'use crate::normal::*;\n' + p09.COMMON)
    DOT = 'x.iter().zip(w.iter()).map(|(a, b)| a * b).sum::<f64>()'; DOTL = 'x.iter().zip(w.iter()).map(|(a, b)| a.ln() * b).sum::<f64>()'
    def proj(Sig):
        """the law of w . x"""
        def post(a, r):
            m = sum((at(a.mu, i) * at(a.w, i) for i in range(len(a.w.e))), ZERO); n = len(a.w.e)
            v = ZERO
            for i in range(n):
                for j in range(n): v = v + at(a.w, i) * at(a.w, j) * Sig(a, i, j)
            return order(r.e, lambda x: Phi((x - m) / sq(v)), 'projections are normal') if n else []
        return post
    diag_ = lambda f: (lambda a, i, j: f(a, i) if i == j else ZERO)
    ns = (1, 2, 3, 5)
    for pre_, wrap, G, dot in (('', lambda x: x, GN, DOT), ('mvlognormal.', lambda x: mk('exp', x), ('v_mlognormal', 'use crate::normal::*;\nuse crate::multivariate::lognormal::LogNormal;\n' + p09.COMMON), DOTL)):
        M = (lambda c: c) if not pre_ else (lambda c: 'LogNormal::from(%s)' % c)
        V(pre_ + 'diagonal', G, 'mu: [f64; N], s: [f64; N]', M('DiagonalNormal::<N>::diagonal_unchecked(mu, s)'),
          lambda a, r, wrap=wrap: [eqg('mu + sqrt(Sigma) z for independent standard normals z', r, vecn(a.N, lambda i: wrap(at(a.mu, i) + sq(at(a.s, i)) * zdraw(a, i))))],
          lambda a: and_(lt(ZERO, a.N), all_(a.s, lambda x: lt(ZERO, x))), lambda rng, n: {'mu': gmu(rng, n), 's': gvar(rng, n)}, dot, proj(diag_(lambda a, i: at(a.s, i))), ns=ns)
        V(pre_ + 'isotropic', G, 'mu: [f64; N], s: f64', M('IsotropicNormal::<N>::isotropic_unchecked(mu, s)'),
          lambda a, r, wrap=wrap: [eqg('mu + sqrt(sigma2) z for independent standard normals z', r, vecn(a.N, lambda i: wrap(at(a.mu, i) + sq(a.s) * zdraw(a, i))))],
          lambda a: and_(lt(ZERO, a.N), lt(ZERO, a.s)), lambda rng, n: {'mu': gmu(rng, n), 's': posv(rng)}, dot, proj(diag_(lambda a, i: a.s)), ns=ns)
        V(pre_ + 'full', G, 'mu: [f64; N], s: [[f64; N]; N]', M('MvNormal::<N>::new_unchecked(mu, s)'),
          lambda a, r, wrap=wrap: [eqg('mu + L z with the Cholesky factor L L^T = Sigma and independent standard normals z', r, vecn(a.N, lambda i: wrap(at(a.mu, i) + seqn(a.N, lambda k: mk('*', ite(le(k, i), CHOL(a.s, i, k), ZERO), zdraw(a, k))))))],
          lambda a: lt(ZERO, a.N), lambda rng, n: {'mu': gmu(rng, n), 's': spd(rng, n)}, dot, proj(lambda a, i, j: at(at(a.s, i), j)), ns=ns, intercept=BY_CONTRACT)
    def pairpost(f):
        def post(a, r):
            z1, z2 = pairz(a)
            return [eqg('component %d' % i, at(r, i), x) for i, x in enumerate(f(a, z1, z2))]
        return post
    pp = lambda a: and_(lt(ZERO, at(a.s, 0)), lt(ZERO, at(a.s, 1)))
    V('paired', GN, 'mu: [f64; 2], s: [f64; 2]', 'PairedNormal::new_unchecked(mu, s)', pairpost(lambda a, z1, z2: [at(a.mu, 0) + sq(at(a.s, 0)) * z1, at(a.mu, 1) + sq(at(a.s, 1)) * z2]), pp,
      lambda rng: {'mu': gmu(rng, 2), 's': gvar(rng, 2)}, DOT, proj(diag_(lambda a, i: at(a.s, i))), n='2')
    V('bivariate', GN, 'mu: [f64; 2], s: [f64; 2], rho: f64', 'BvNormal::new_unchecked(mu, s, rho)',
      pairpost(lambda a, z1, z2: [at(a.mu, 0) + sq(at(a.s, 0)) * z1, at(a.mu, 1) + sq(at(a.s, 1)) * (a.rho * z1 + sq(1 - a.rho * a.rho) * z2)]), lambda a: and_(pp(a), lt(num(-1), a.rho), lt(a.rho, ONE)),
      lambda rng: {'mu': gmu(rng, 2), 's': gvar(rng, 2), 'rho': rng.uniform(-.95, .95)}, DOT, proj(lambda a, i, j: at(a.s, i) if i == j else a.rho * sq(at(a.s, 0) * at(a.s, 1))), n='2')
    # Dirichlet: independent gamma draws divided by their sum
    gdraw = lambda a, i: app('draw:Gamma', 'R', toseed(a), i, at(a.v, i), ONE)
    def dks(a, r):
        n = len(a.v.e)
        if n < 2: return [holds('every draw is one', and_(*[lt(mk('abs', x - 1), q(1, 10**9)) for x in r.e]))]
        j = max(range(n), key=lambda i: float(Ev()(at(a.w, i)))); tot_ = sum((at(a.v, i) for i in range(n) if i != j), ZERO)
        return order(r.e, lambda x: ite(le(x, ZERO), ZERO, ite(le(ONE, x), ONE, I_(at(a.v, j), tot_, x))), 'marginals are beta')
    V('dirichlet', ('v_dirichlet', p09.GDIR[1]), 'v: [f64; N]', 'Dirichlet::new_unchecked(v)',
      lambda a, r: [eqg('independent gamma draws divided by their sum', r, vecn(a.N, lambda i: gdraw(a, i) / seqn(a.N, lambda k: gdraw(a, k))))], lambda a: and_(lt(ZERO, a.N), all_(a.v, lambda x: lt(ZERO, x))),
      lambda rng, n: {'v': gvar(rng, n)}, '{ let mut b = 0; for i in 1..N { if w[i] > w[b] { b = i; } } x[b] }', dks, ns=ns)
    # supports of the distributions over vectors
    S = '{ use spaces::Space; %s.support().contains(&x) }'
    def sup(cid, G, sig, ctor, xt, post, pre=None, gen=None, cn='<const N: usize>', **kw):
        cs.append(Contract(cid + '.support', G, 'pub fn vs_%s%s(%s%sx: %s) -> bool { %s }' % (cid.replace('.', '_'), cn, sig, sig and ', ', xt, S % ctor), post, pre=pre or (lambda a: TRUE), gen=gen, desc='support of ' + cid, **kw))
    yes = lambda a, r: [holds('every point', lift(r))]
    gx = lambda rng, n: [fin(rng) * 3 for _ in range(n)]
    sup('diagonal', GN, 'mu: [f64; N], s: [f64; N]', 'DiagonalNormal::<N>::diagonal_unchecked(mu, s)', '[f64; N]', yes, gen=lambda rng, n: {'mu': gmu(rng, n), 's': gvar(rng, n), 'x': gx(rng, n)})
    sup('isotropic', GN, 'mu: [f64; N], s: f64', 'IsotropicNormal::<N>::isotropic_unchecked(mu, s)', '[f64; N]', yes, gen=lambda rng, n: {'mu': gmu(rng, n), 's': posv(rng), 'x': gx(rng, n)})
    sup('full', GN, 'mu: [f64; N], s: [[f64; N]; N]', 'MvNormal::<N>::new_unchecked(mu, s)', '[f64; N]', yes, pre=lambda a: lt(ZERO, a.N), gen=lambda rng, n: {'mu': gmu(rng, n), 's': spd(rng, n), 'x': gx(rng, n)})
    sup('paired', GN, 'mu: [f64; 2], s: [f64; 2]', 'PairedNormal::new_unchecked(mu, s)', '[f64; 2]', yes, cn='')
    sup('bivariate', GN, 'mu: [f64; 2], s: [f64; 2], rho: f64', 'BvNormal::new_unchecked(mu, s, rho)', '[f64; 2]', yes, cn='')
    sup('mvlognormal', ('v_mlognormal', 'use crate::normal::*;\nuse crate::multivariate::lognormal::LogNormal;\n' + p09.COMMON), 'mu: [f64; N], s: [f64; N]', 'LogNormal::from(DiagonalNormal::<N>::diagonal_unchecked(mu, s))', '[f64; N]',
        lambda a, r: [holds('the points with positive coordinates', iff(lift(r), all_(a.x, lambda x: lt(ZERO, x))))], pre=lambda a: all_(a.x, lambda x: not_(eq(x, ZERO))), gen=lambda rng, n: {'mu': gmu(rng, n), 's': gvar(rng, n), 'x': [abs(x) if rng.random() < .8 else x for x in gx(rng, n)]})
    sup('dirichlet', ('v_dirichlet', p09.GDIR[1]), 'v: [f64; N]', 'Dirichlet::new_unchecked(v)', '[f64; N]', lambda a, r: [holds('the bounding box of the simplex', iff(lift(r), all_(a.x, lambda x: and_(le(ZERO, x), le(x, ONE)))))],
        pre=lambda a: and_(lt(ONE, a.N), all_(a.v, lambda x: lt(ZERO, x))), gen=lambda rng, n: {'v': gvar(rng, n), 'x': [rng.choice([0.0, 1.0, .5, .25, 1.5, -.5]) if rng.random() < .3 else rng.random() for _ in range(n)]})
    sup('multinomial', ('v_multinomial', p09.GMUL[1]), 'n: usize, v: [f64; N]', 'Multinomial::new_unchecked(n, v)', '[usize; N]', lambda a, r: [holds('the bounding box of the counts', iff(lift(r), all_(a.x, lambda x: and_(le(ZERO, x), le(x, a.n)))))], pre=lambda a: and_(lt(ONE, a.N), all_(a.v, lambda x: lt(ZERO, x))),
        gen=lambda rng, n: {'n': rng.randint(0, 6), 'v': [1.0 / n] * n if n else [], 'x': [rng.randint(0, 7) for _ in range(n)]})
    GC = ('v_categorical', 'use crate::univariate::categorical::*;\nuse rand::Rng;\n' + p09.COMMON)
    sup('categorical', GC, 'v: [f64; N]', 'Categorical::new_unchecked(v)', 'usize', lambda a, r: [holds('the indices below N', iff(lift(r), lt(a.x, a.N)))], pre=lambda a: lt(ZERO, a.N), gen=lambda rng, n: {'v': [1.0 / n] * n if n else [], 'x': rng.randint(0, n + 2)})
    import p04
    def catpost(a, r):
        g = p04.post(A({'v': a.v, 'K': a.N}), r); return g
    cs.append(Contract('categorical.sample', GC, 'pub fn v_categorical<const N: usize>(v: [f64; N], seed: u64) -> (f64, usize) { let u: f64 = rng(seed).gen(); let mut r = rng(seed); (u, Categorical::new_unchecked(v).sample(&mut r)) }', catpost,
        pre=lambda a: and_(lt(ZERO, a.N), all_(a.v, p04.valid)), gen=lambda rng, n: dict(p04.gen3(rng, n), seed=rng.randrange(2**64)), desc='a categorical sample inverts the cumulative sums of its own weights', nrand=200))
    # several samples
    for key in ('exponential', 'poisson', 'normal', 'bernoulli', 'degenerate_i64'):
        d = D[key]
        cs.append(contract(d, 'sample_n', '{ let mut g = rng(seed); let mut h = rng(seed); let mut k = rng(seed); let v = d.sample_n(&mut g, n); (v.len(), d.sample_n(&mut h, 2), vec![d.sample(&mut k), d.sample(&mut k)]) }', '(usize, Vec<%s>, Vec<%s>)' % (d.xt, d.xt), lambda p, a, r: [eqg('exactly n', r.f[0], a.n), eqg('two are two', length(r.f[1]), num(2)), eqg('successive samples in order', r.f[1], r.f[2])], args='n: usize, seed: u64',
            gen=lambda rng, v: {'n': rng.randint(0, 60), 'seed': rng.randrange(2**60)}, desc='drawing n samples yields exactly n'))
        cs.append(contract(d, 'sample_iter', '{ let mut g = rng(seed); let mut h = rng(seed); let mut it = d.sample_iter(&mut g); let z = (it.next(), it.next()); (z.0.is_some(), z.1.is_some(), it.size_hint().1.is_none(), z.0.unwrap(), z.1.unwrap(), vec![d.sample(&mut h), d.sample(&mut h)]) }', '(bool, bool, bool, %s, %s, Vec<%s>)' % (d.xt, d.xt, d.xt), lambda p, a, r: [holds('never ends', and_(*r.f[:3])), eqg('first', r.f[3], at(r.f[5], 0)), eqg('second', r.f[4], at(r.f[5], 1))], args='seed: u64',
            gen=lambda rng, v: {'seed': rng.randrange(2**60)}, desc='the sample iterator yields successive samples without end'))
        for c in cs[-2:]: c.range = (c.range[0], c.range[1], 2**64)
    return cs
def vecn(n, f): return Arr([f(num(i)) for i in range(int(n.a[0]))]) if n.op == 'num' else Seq(n, f, '')
def seqn(n, f):
    import blasmodel as bm
    return bm.dsum(ZERO, n, f)
def run(tier): check.main('P28', tier, contracts() + mv(), assumptions=['the generators of rand_distr follow the distribution of their name in its documented parametrisation; the random source is uniform'])
