"""P23: likelihood, score, maximum-likelihood fits."""
from uni import *
import check
def n_(a): return length(a.xs)
def tot(a, f): return isum(ZERO, n_(a), lambda j: f(at(a.xs, j))) if n_(a).op != 'num' else addall([f(at(a.xs, num(j))) for j in range(int(n_(a).a[0]))])
def addall(xs):
    t = ZERO
    for x in xs: t = t + x
    return t
def N(a): return toreal(n_(a))
def b2r(x): return mk('ite', x, ONE, ZERO)
inn = lambda p: and_(lt(ZERO, p.p), lt(p.p, ONE))
IN01 = lambda a: all_(a.xs, lambda x: and_(lt(ZERO, x), lt(x, ONE)))
POS = lambda a: all_(a.xs, lambda x: lt(ZERO, x))
SMALL = lambda a: lt(length(a.xs), num(1 << 50))
CNT = lambda a: and_(SMALL(a), all_(a.xs, lambda x: lt(x, num(1 << 52))))
def vec(f): return lambda rng, d=None: {'xs': [f(rng) for _ in range(rng.choice([0, 1, 2, 3, 5, 8]))]}
MODELS = [
    ('normal', 'f64', ['mu', 'Sigma'], lambda a: TRUE, vec(lambda r: r.uniform(-4, 4)),
        lambda p, x: -LN2PI / 2 - ln(p.v) / 2 - (x - p.mu) * (x - p.mu) / (2 * p.v), [lambda p, x: (x - p.mu) / p.v, lambda p, x: ((x - p.mu) * (x - p.mu) / p.v - 1) / (2 * p.v)]),
    ('gamma', 'f64', ['alpha', 'beta'], POS, vec(lambda r: math.exp(r.uniform(-3, 3))),
        lambda p, x: p.alpha * ln(p.beta) - lG(p.alpha) + (p.alpha - 1) * ln(x) - p.beta * x, [lambda p, x: ln(p.beta) + ln(x) - psi(p.alpha), lambda p, x: p.alpha / p.beta - x]),
    ('beta', 'f64', ['alpha', 'beta'], IN01, vec(lambda r: r.choice([r.uniform(0.01, 0.99), 1e-11, 0.5])),
        lambda p, x: (p.alpha - 1) * ln(x) + (p.beta - 1) * ln(1 - x) - lB(p.alpha, p.beta), [lambda p, x: ln(x) - psi(p.alpha) + psi(p.alpha + p.beta), lambda p, x: ln(1 - x) - psi(p.beta) + psi(p.alpha + p.beta)]),
    ('bernoulli', 'bool', ['p'], lambda a: TRUE, vec(lambda r: r.random() < .5),
        lambda p, x: ite(x, ln(p.p), ln(1 - p.p)), [lambda p, x: ite(x, 1 / p.p, -1 / (1 - p.p))]),
    ('poisson', 'u64', ['lambda'], CNT, vec(lambda r: r.randint(0, 30)),
        lambda p, x: toreal(x) * ln(p.lam) - p.lam - lG(toreal(x) + 1), [lambda p, x: toreal(x) / p.lam - 1]),
]
def contracts():
    cs = []
    for key, T_, gs, pre, gen, ll, sc in MODELS:
        d = D[key]
        pr = lambda p, a, pre=pre, key=key: and_(SMALL(a), pre(a), *([inn(p)] if key == 'bernoulli' else []))
        kw = dict(args='xs: Vec<%s>' % T_, gen=lambda rng, v, gen=gen: gen(rng), pre=pr, nrand=200)
        L = lambda p, a, ll=ll: tot(a, lambda x: ll(p, x))
        cs.append(contract(d, 'log_likelihood', 'd.log_likelihood(&xs)', 'f64', lambda p, a, r, L=L: [eqg('the sum of the log densities of the observations', r, L(p, a))], desc='log-likelihood of a sample of any size', **kw))
        cs.append(contract(d, 'likelihood', 'd.likelihood(&xs)', 'f64', lambda p, a, r, L=L: [eqg('the exponential of the log-likelihood', r, ex(L(p, a)))], desc='likelihood of a sample of any size', **kw))
        ty = 'f64' if len(gs) == 1 else '(f64, f64)'
        cs.append(contract(d, 'score', 'let g = d.score(&xs); ' + ('g.' + gs[0] if len(gs) == 1 else '(%s)' % ', '.join('g.' + g for g in gs)), ty,
            lambda p, a, r, sc=sc, gs=gs: [eqg('d/d%s of the log-likelihood' % g, x, tot(a, lambda o: f(p, o))) for g, f, x in zip(gs, sc, [r] if len(gs) == 1 else r.f)], desc='score of a sample of any size', **kw))
    # maximum likelihood
    def M(cid, key, T_, ret, body, post, pre, gen, **kw):
        c = Contract(key + '.' + cid, ('u_' + key, D[key].use), 'pub fn u_%s_%s(xs: Vec<%s>) -> %s { %s }' % (key, cid.replace('.', '_'), T_, ret, body), post, pre=pre, gen=gen, desc='%s: %s' % (D[key].name, cid), intercept=ICEPT, nrand=200, **kw); c.range = (1e-9, 2e3, 2**60); cs.append(c)
    some = lambda a: lt(ZERO, length(a.xs))
    FIT = 'match %s::fit_mle(&xs) { Ok(d) => Ok(%s), Err(_) => Err(()) }'
    def fit(f): return lambda a, r: f(a, payload(r)) if is_ok(r) else [holds('a sample with an interior optimum is fitted', FALSE)]
    nm = lambda a: mk('/', tot(a, lambda x: x), N(a))
    def spreadout(a):
        return lt(ZERO, tot(a, lambda x: (x - nm(a)) * (x - nm(a))))
    g = vec(lambda r: r.uniform(-4, 4))
    M('fit', 'normal', 'f64', 'Result<(f64, f64), ()>', FIT % ('Normal', '(d.0.mu.0, d.0.Sigma.0)' if False else '(d.params().mu.0, d.params().Sigma.0)'), fit(lambda a, t: [eqg('mean', t.f[0], nm(a)), eqg('variance', t.f[1], tot(a, lambda x: (x - nm(a)) * (x - nm(a))) / N(a))]), lambda a: and_(SMALL(a), some(a), spreadout(a)), lambda rng: {'xs': [rng.uniform(-4, 4) for _ in range(rng.choice([2, 3, 5, 8]))]})
    M('fit', 'poisson', 'u64', 'Result<f64, ()>', FIT % ('Poisson', 'd.params().lambda.0'), fit(lambda a, t: [eqg('rate', t, tot(a, toreal) / N(a))]), lambda a: and_(CNT(a), some(a), lt(ZERO, tot(a, toreal))), lambda rng: {'xs': [rng.randint(0, 9) for _ in range(rng.choice([1, 2, 3, 8]))] + [1]})
    M('fit', 'bernoulli', 'bool', 'Result<f64, ()>', FIT % ('Bernoulli', 'd.params().p.unwrap()'), fit(lambda a, t: [eqg('success probability', t, tot(a, b2r) / N(a))]), lambda a: and_(SMALL(a), some(a)), lambda rng: {'xs': [rng.random() < .5 for _ in range(rng.choice([1, 2, 3, 8]))]})
    M('fit.score', 'normal', 'f64', 'Result<(f64, f64), ()>', 'match Normal::fit_mle(&xs) { Ok(d) => { let g = d.score(&xs); Ok((g.mu, g.Sigma)) } Err(_) => Err(()) }', fit(lambda a, t: [eqg('the score in mu vanishes', t.f[0], ZERO), eqg('the score in Sigma vanishes', t.f[1], ZERO)]), lambda a: and_(SMALL(a), some(a), spreadout(a)), lambda rng: {'xs': [rng.uniform(-4, 4) for _ in range(rng.choice([2, 3, 5, 8]))]})
    M('fit.score', 'poisson', 'u64', 'Result<f64, ()>', 'match Poisson::fit_mle(&xs) { Ok(d) => Ok(d.score(&xs).lambda), Err(_) => Err(()) }', fit(lambda a, t: [eqg('the score vanishes', t, ZERO)]), lambda a: and_(CNT(a), some(a), lt(ZERO, tot(a, toreal))), lambda rng: {'xs': [rng.randint(0, 9) for _ in range(rng.choice([1, 2, 3, 8]))] + [1]})
    M('fit.score', 'bernoulli', 'bool', 'Result<f64, ()>', 'match Bernoulli::fit_mle(&xs) { Ok(d) => Ok(d.score(&xs).p), Err(_) => Err(()) }', fit(lambda a, t: [eqg('the score vanishes', t, ZERO)]), lambda a: and_(SMALL(a), some(a), lt(ZERO, tot(a, b2r)), lt(tot(a, b2r), N(a))), lambda rng: {'xs': [rng.random() < .5 for _ in range(rng.choice([1, 2, 3, 8]))] + [True, False]})
    for key, T_ in (('normal', 'f64'), ('poisson', 'u64'), ('bernoulli', 'bool')):
        cs.append(Contract(key + '.fit.empty', ('u_' + key, D[key].use), 'pub fn u_%s_fit_empty() -> Result<(), ()> { let xs: Vec<%s> = vec![]; match %s::fit_mle(&xs) { Ok(_) => Ok(()), Err(_) => Err(()) } }' % (key, T_, D[key].name), lambda a, r: [holds('an empty sample is an error, not a panic', lift(not is_ok(r)))], mode='fp', gen=lambda rng: {}, nrand=1, desc='fitting an empty sample'))
    cs.append(Contract('normal.fit.single', ('u_normal', D['normal'].use), 'pub fn u_normal_fit_single(x: f64) -> Result<(), ()> { match Normal::fit_mle(&[x]) { Ok(_) => Ok(()), Err(_) => Err(()) } }', lambda a, r: [holds('one observation has no interior optimum: an error', lift(not is_ok(r)))], gen=lambda rng: {'x': rng.uniform(-3, 3)}, desc='fitting one observation'))
    # paired normal
    G2 = ('u_paired', 'use crate::normal::*;\nuse crate::statistics::*;\nuse crate::fitting::*;\nuse crate::{Distribution, ContinuousDistribution};\n')
    pre = lambda a: and_(SMALL(a), *[lt(ZERO, at(a.s, num(i))) for i in (0, 1)])
    gen = lambda rng: {'mu': [rng.uniform(-2, 2), rng.uniform(-2, 2)], 's': [posv(rng), posv(rng)], 'xs': [[rng.uniform(-3, 3), rng.uniform(-3, 3)] for _ in range(rng.choice([0, 1, 2, 5]))]}
    mu = lambda a, i: at(a.mu, num(i)); v = lambda a, i: at(a.s, num(i))
    dl = lambda a, x, i: at(x, num(i)) - mu(a, i)
    LL = lambda a: tot(a, lambda x: -LN2PI - ln(v(a, 0)) / 2 - ln(v(a, 1)) / 2 - dl(a, x, 0) * dl(a, x, 0) / (2 * v(a, 0)) - dl(a, x, 1) * dl(a, x, 1) / (2 * v(a, 1)))
    def Pn(cid, ret, expr, post):
        cs.append(Contract('paired.' + cid, G2, 'pub fn u_paired_%s(mu: [f64; 2], s: [f64; 2], xs: Vec<[f64; 2]>) -> %s { let d = PairedNormal::new_unchecked(mu, s); %s }' % (cid, ret, expr), post, pre=pre, gen=gen, nrand=200, desc='PairedNormal: ' + cid))
    Pn('log_likelihood', 'f64', 'd.log_likelihood(&xs)', lambda a, r: [eqg('the sum of the log densities of the observations', r, LL(a))])
    Pn('likelihood', 'f64', 'd.likelihood(&xs)', lambda a, r: [eqg('the exponential of the log-likelihood', r, ex(LL(a)))])
    Pn('score', '([f64; 2], [f64; 2])', 'let g = d.score(&xs); (g.mu, g.Sigma)', lambda a, r: [eqg('d/dmu%d of the log-likelihood' % i, at(r.f[0], num(i)), tot(a, lambda x: dl(a, x, i) / v(a, i))) for i in (0, 1)] + [eqg('d/dSigma%d of the log-likelihood' % i, at(r.f[1], num(i)), tot(a, lambda x: (dl(a, x, i) * dl(a, x, i) / v(a, i) - 1) / (2 * v(a, i)))) for i in (0, 1)])
    return cs + scaling()
def scaling():
    """scaling a gradient scales every component (the score of a weighted log-likelihood)"""
    import p13
    cs = []; USE_ = 'use crate::normal::*;\n'
    sc = lambda x, k: x * k
    def vecof(n, x, k): return p13.VEC(n, lambda i: at(x, i) * k)
    def add(key, sig, cn, ctor, ret, expr, post, gen):
        c = Contract('grad.%s.scale' % key, ('grad_' + key, USE_), 'pub fn gr_%s_scale%s(%s, k: f64) -> %s { let g = %s * k; %s }' % (key, cn, sig, ret, ctor, expr), post, gen=gen, desc='scaling of the gradient of %s normal parameters' % key, nrand=100); c.abs = 1.0; cs.append(c)
    rn = lambda rng: rng.uniform(-4, 4)
    vn = lambda rng, n: [rn(rng) for _ in range(n)]
    add('uv', 'm: f64, s: f64', '', 'Grad::<f64, f64> { mu: m, Sigma: s }', '(f64, f64)', '(g.mu, g.Sigma)', lambda a, r: [eqg('mu component', r.f[0], a.m * a.k), eqg('Sigma component', r.f[1], a.s * a.k)], lambda rng: {'m': rn(rng), 's': rn(rng), 'k': rn(rng)})
    two = num(2)
    add('bv', 'm: [f64; 2], s: [f64; 2], c: f64', '', 'Grad::<[f64; 2], ([f64; 2], f64)> { mu: m, Sigma: (s, c) }', '([f64; 2], [f64; 2], f64)', '(g.mu, g.Sigma.0, g.Sigma.1)',
        lambda a, r: [eqg('mu component', r.f[0], vecof(two, a.m, a.k)), eqg('variance components', r.f[1], vecof(two, a.s, a.k)), eqg('correlation component', r.f[2], a.c * a.k)], lambda rng: {'m': vn(rng, 2), 's': vn(rng, 2), 'c': rn(rng), 'k': rn(rng)})
    add('mv', 'm: [f64; N], s: [[f64; N]; N]', '<const N: usize>', 'Grad::<[f64; N], [[f64; N]; N]> { mu: m, Sigma: s }', '([f64; N], [[f64; N]; N])', '(g.mu, g.Sigma)',
        lambda a, r: [eqg('mu component', r.f[0], vecof(a.N, a.m, a.k)), eqg('Sigma component', r.f[1], p13.MAT(a.N, lambda i, j: at(at(a.s, i), j) * a.k))], lambda rng, n: {'m': vn(rng, n), 's': [vn(rng, n) for _ in range(n)], 'k': rn(rng)})
    add('diag', 'm: [f64; N], s: [f64; N]', '<const N: usize>', 'Grad::<[f64; N], [f64; N]> { mu: m, Sigma: s }', '([f64; N], [f64; N])', '(g.mu, g.Sigma)',
        lambda a, r: [eqg('mu component', r.f[0], vecof(a.N, a.m, a.k)), eqg('Sigma component', r.f[1], vecof(a.N, a.s, a.k))], lambda rng, n: {'m': vn(rng, n), 's': vn(rng, n), 'k': rn(rng)})
    add('iso', 'm: [f64; N], s: f64', '<const N: usize>', 'Grad::<[f64; N], f64> { mu: m, Sigma: s }', '([f64; N], f64)', '(g.mu, g.Sigma)',
        lambda a, r: [eqg('mu component', r.f[0], vecof(a.N, a.m, a.k)), eqg('Sigma component', r.f[1], a.s * a.k)], lambda rng, n: {'m': vn(rng, n), 's': rn(rng), 'k': rn(rng)})
    return cs
def run(tier): check.main('P23', tier, contracts(), assumptions=['utils::log_factorial_stirling is ln k! (its accuracy is P12)', 'observations lie in the interior of the support (where the log density is finite)'])
