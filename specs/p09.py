"""P09: checked distribution constructors accept exactly the valid parameters."""
from contract import *
import check
from p01 import valid
POSF = lambda x: fgt(x, F0); POSI = lambda x: lt(ZERO, x); ANY = lambda x: TRUE
KIND = {('f64', 'loc'): ANY, ('i64', 'loc'): ANY, ('f64', 'pos'): POSF, ('usize', 'pos'): POSI, ('usize', 'cnt'): ANY, ('f64', 'prob'): valid}
# key: (type, parameters 'name:type:kind[:field path]', options)
TABLE = {
 'arcsine': ('Arcsine', 'a:f64:loc w:f64:pos'), 'bernoulli': ('Bernoulli', 'p:f64:prob:p.unwrap()'), 'beta': ('Beta', 'alpha:f64:pos beta:f64:pos'),
 'beta_binomial': ('BetaBinomial', 'n:usize:cnt alpha:f64:pos beta:f64:pos'), 'beta_prime': ('BetaPrime', 'alpha:f64:pos beta:f64:pos'), 'cauchy': ('Cauchy', 'x0:f64:loc gamma:f64:pos'),
 'chi': ('Chi', 'k:usize:pos'), 'chi_sq': ('ChiSq', 'k:usize:pos'), 'cosine': ('Cosine', 'mu:f64:loc s:f64:pos'), 'erlang': ('Erlang', 'k:usize:pos lambda:f64:pos'), 'exponential': ('Exponential', 'lambda:f64:pos'),
 'f_dist': ('FDist', 'd1:usize:pos d2:usize:pos'), 'folded_normal': ('FoldedNormal', 'mu:f64:loc sigma:f64:pos'), 'frechet': ('Frechet', 'alpha:f64:pos'), 'gamma': ('Gamma', 'alpha:f64:pos beta:f64:pos'),
 'geometric': ('Geometric', 'p:f64:prob:p.unwrap()'), 'gev': ('GeneralisedExtremeValue', 'mu:f64:loc sigma:f64:pos zeta:f64:pos'), 'gpd': ('GeneralisedPareto', 'mu:f64:loc sigma:f64:pos zeta:f64:pos'),
 'gumbel': ('Gumbel', 'mu:f64:loc beta:f64:pos'), 'inverse_gamma': ('InvGamma', 'alpha:f64:pos beta:f64:pos'), 'inverse_normal': ('InvNormal', 'mu:f64:pos lambda:f64:pos'), 'kumaraswamy': ('Kumaraswamy', 'a:f64:pos b:f64:pos'),
 'laplace': ('Laplace', 'mu:f64:loc b:f64:pos'), 'levy': ('Levy', 'mu:f64:loc c:f64:pos'), 'logistic': ('Logistic', 'mu:f64:loc s:f64:pos'), 'lognormal': ('LogNormal', 'mu:f64:loc sigma:f64:pos:Sigma.0', 'noparams'),
 'normal': ('Normal', 'mu:f64:loc sigma2:f64:pos:Sigma.0'), 'pareto': ('Pareto', 'x_m:f64:pos alpha:f64:pos'), 'poisson': ('Poisson', 'lambda:f64:pos'), 'rayleigh': ('Rayleigh', 'sigma:f64:pos'), 'student_t': ('StudentT', 'nu:f64:pos'),
 'triangular': ('Triangular', 'a:f64:loc a2c:f64:pos c2b:f64:pos'), 'uniform': ('Uniform', 'lb:f64:loc width:f64:pos', 'Uniform::<f64>'), 'weibull': ('Weibull', 'lambda:f64:pos k:f64:pos'),
}
COMMON = 'use crate::statistics::*;\nuse crate::{Distribution, ContinuousDistribution, DiscreteDistribution, Univariate, Multivariate, Probability};\nuse crate::distance::*;\n'
def uni_use(key): return ('d_' + key, 'use crate::univariate::%s::*;\n' % key + COMMON)
class Row:
    def __init__(self, key):
        r = TABLE[key]; self.key = key; self.ty = r[0]; self.opts = r[2:]
        self.ps = []
        for p in r[1].split():
            n, t, k, *f = p.split(':'); self.ps.append((n, t, k, f[0] if f else n + '.0'))
        self.sig = ', '.join('%s: %s' % (n, t) for n, t, k, f in self.ps); self.names = ', '.join(p[0] for p in self.ps)
        self.tup = '(%s,)' % ', '.join(p[1] for p in self.ps)
        self.new = (self.opts[0] if self.opts and '::' in self.opts[0] else self.ty) + '::new'
        self.hasnew = key not in ('kumaraswamy', 'weibull')
    def get(self, v): return '(%s,)' % ', '.join('%s.%s' % (v, f) for n, t, k, f in self.ps)
    def ok(self, a): return and_(*[KIND[t, k](getattr(a, n)) for n, t, k, f in self.ps])
    def gen(self, rng):
        v = {}
        bad = rng.randrange(2 * len(self.ps) + 1)
        for i, (n, t, k, f) in enumerate(self.ps):
            if t == 'f64': v[n] = rng.choice([-1.0, 0.0, -0.0, math.nan, math.inf, -math.inf, 5e-324, -5e-324, 1.0, 1.0000000000000002, 2.0, -1e-300, 1e300, 1e-300, 0.5]) if i == bad or rng.random() < .1 else rng.random() if k == 'prob' else math.exp(rng.uniform(-3, 3))
            elif t == 'i64': v[n] = rng.randint(-5, 5)
            else: v[n] = rng.choice([0, 1, 2, 2**63, 2**64 - 1]) if i == bad else rng.randint(1, 40)
        return v
ROWS = {k: Row(k) for k in TABLE}
def accept(ok, pairs):
    def post(a, r):
        g = [holds('accepted exactly when the parameters are admissible', iff(ok(a), lift(is_ok(r))))]
        if is_ok(r): g += [eqg('carries the parameter %s given' % n, x, e) for (n, e), x in zip(pairs(a), payload(r).f)]
        return g
    return post
def contracts(keys=None):
    cs = []
    for key, R in ROWS.items():
        post = accept(R.ok, lambda a, R=R: [(n, getattr(a, n)) for n, t, k, f in R.ps])
        if R.hasnew: cs.append(Contract(key + '.new', uni_use(key), 'pub fn p09_%s(%s) -> Result<%s, ()> { match %s(%s) { Ok(d) => { let p = d.params(); Ok(%s) } Err(_) => Err(()) } }' % (key, R.sig, R.tup, R.new, 'n, Probability::new(p)?' if 0 else R.names, R.get('p')), post, mode='fp', gen=R.gen, desc='%s: checked constructor' % R.ty))
        if 'noparams' not in R.opts: cs.append(Contract(key + '.params', uni_use(key), 'pub fn p09p_%s(%s) -> Result<%s, ()> { match %s(%s) { Ok(p) => Ok(%s), Err(_) => Err(()) } }' % (key, R.sig, R.tup, 'Params::new' if 1 else '', R.names, R.get('p')), post, mode='fp', gen=R.gen, desc='%s: checked parameter set' % R.ty))
    return cs
NORM = 'use crate::normal::*;\n' + COMMON
GN2 = ('d_normal2', NORM); GNM = ('d_normaln', NORM); GML = ('d_mlognormal', 'use crate::multivariate::lognormal::LogNormal;\n' + COMMON)
GDIR = ('d_dirichlet', 'use crate::multivariate::dirichlet::*;\n' + COMMON); GMUL = ('d_multinomial', 'use crate::multivariate::multinomial::*;\n' + COMMON); GMIX = ('d_mixture', 'use crate::mixture::*;\nuse crate::univariate::{normal::Normal, exponential::Exponential, poisson::Poisson};\n' + COMMON)
def res(expr, get): return 'match %s { Ok(d) => { %s } Err(_) => Err(()) }' % (expr, 'let p = d.params(); Ok(%s)' % get)
def resp(expr, get): return 'match %s { Ok(p) => Ok(%s), Err(_) => Err(()) }' % (expr, get)
BAD = [-1.0, 0.0, -0.0, math.nan, math.inf, -math.inf, 5e-324, -5e-324, 1.0]
def fv(rng, pos=False, bad=0.06): return rng.choice(BAD) if rng.random() < bad else math.exp(rng.uniform(-2, 2)) if pos else rng.uniform(-3, 3)
def vec(rng, n, pos=False):
    v = [fv(rng, pos, 0) for _ in range(n)]
    if n and rng.random() < .5: v[rng.choice([0, n - 1, rng.randrange(n)])] = rng.choice(BAD)
    return v
def simplexy(rng, n):
    import p03
    return p03.gen(rng, n)['v']
def dist1(v): return mk('abs', seqsum(v) - ONE)
def onsimplex(v): return and_(all_(v, valid), mk('<', dist1(v), lift(Fraction(1, 100000))))
def diag(M): return Seq(length(M), lambda i: at(at(M, i), i), '') if length(M).op != 'num' else Arr([at(at(M, num(i)), num(i)) for i in range(int(length(M).a[0]))])
def multi():
    cs = []
    def C(cid, g, src, ok, pairs, **kw):
        kw.setdefault('mode', 'fp')
        cs.append(Contract(cid, g, src, accept(ok, pairs), desc=kw.pop('desc', cid), **kw))
    # --- paired and bivariate
    V2 = '[f64; 2]'; T2 = '([f64; 2], [f64; 2])'
    g2 = lambda rng: {'mu': [fv(rng), fv(rng)], 's': vec(rng, 2, True)}
    ok2 = lambda a: all_(a.s, POSF)
    pr2 = lambda a: [('mu', a.mu), ('Sigma', a.s)]
    C('paired.new', GN2, 'pub fn p09_paired(mu: %s, s: %s) -> Result<%s, ()> { %s }' % (V2, V2, T2, res('PairedNormal::new(mu, s)', '(p.mu.0, p.Sigma.0)')), ok2, pr2, gen=g2)
    C('paired.params', GN2, 'pub fn p09_pairedp(mu: %s, s: %s) -> Result<%s, ()> { %s }' % (V2, V2, T2, resp('PairedNormalParams::paired(mu, s)', '(p.mu.0, p.Sigma.0)')), ok2, pr2, gen=g2)
    gi = lambda rng: {'mu': [fv(rng), fv(rng)], 's': rng.choice(BAD) if rng.random() < .5 else fv(rng, True)}
    C('paired.isotropic', GN2, 'pub fn p09_pairedi(mu: %s, s: f64) -> Result<%s, ()> { %s }' % (V2, T2, res('PairedNormal::isotropic(mu, s)', '(p.mu.0, p.Sigma.0)')), lambda a: POSF(a.s), lambda a: [('mu', a.mu), ('Sigma', Arr([a.s, a.s]))], gen=gi)
    TB = '([f64; 2], [f64; 2], f64)'; GB = '(p.mu.0, p.Sigma.0.0, p.Sigma.0.1)'
    gb = lambda rng: dict(g2(rng), r=rng.choice(BAD + [1.0000000000000002, -1.0000000000000002]) if rng.random() < .5 else rng.uniform(-1.5, 1.5), s=vec(rng, 2, True) if rng.random() < .4 else [1.0, 2.0])
    okb = lambda a: and_(all_(a.s, POSF), fle(f64(-1.0), a.r), fle(a.r, F1))
    prb = lambda a: [('mu', a.mu), ('variances', a.s), ('rho', a.r)]
    C('bivariate.new', GN2, 'pub fn p09_bv(mu: %s, s: %s, r: f64) -> Result<%s, ()> { %s }' % (V2, V2, TB, res('BvNormal::new(mu, s, r)', GB)), okb, prb, gen=gb)
    C('bivariate.params', GN2, 'pub fn p09_bvp(mu: %s, s: %s, r: f64) -> Result<%s, ()> { %s }' % (V2, V2, TB, resp('BvNormalParams::bivariate(mu, s, r)', GB)), okb, prb, gen=gb)
    C('bivariate.independent', GN2, 'pub fn p09_bvi(mu: %s, s: %s) -> Result<%s, ()> { %s }' % (V2, V2, TB, res('BvNormal::independent(mu, s)', GB)), ok2, lambda a: [('mu', a.mu), ('variances', a.s), ('rho', F0)], gen=g2)
    C('bivariate.isotropic', GN2, 'pub fn p09_bviso(mu: %s, s: f64) -> Result<%s, ()> { %s }' % (V2, TB, res('BvNormal::isotropic(mu, s)', GB)), lambda a: POSF(a.s), lambda a: [('mu', a.mu), ('variances', Arr([a.s, a.s])), ('rho', F0)], gen=gi)
    # --- normal and lognormal of any dimension
    for key, G, T, w in (('mvnormal', GNM, 'MvNormal', '%s'), ('mvlognormal', GML, 'LogNormal', '%s')):
        gd = lambda rng, n: {'mu': [fv(rng) for _ in range(n)], 's': vec(rng, n, True)}
        D_ = {'mvnormal': 'DiagonalNormal', 'mvlognormal': 'LogNormal::<N, [f64; N]>'}[key]; I_ = {'mvnormal': 'IsotropicNormal', 'mvlognormal': 'LogNormal::<N, f64>'}[key]; M_ = {'mvnormal': 'MvNormal', 'mvlognormal': 'LogNormal::<N, [[f64; N]; N]>'}[key]
        if key == 'mvnormal': D_ = 'DiagonalNormal::<N>'; I_ = 'IsotropicNormal::<N>'; M_ = 'MvNormal::<N>'
        fn = key[2:]
        gs = lambda rng, n: {'mu': [fv(rng) for _ in range(n)], 's': rng.choice(BAD) if rng.random() < .5 else fv(rng, True)}
        C(key + '.diagonal', G, 'pub fn p09_%sd<const N: usize>(mu: [f64; N], s: [f64; N]) -> Result<([f64; N], [f64; N]), ()> { %s }' % (fn, res(D_ + '::diagonal(mu, s)', '(p.mu.0, p.Sigma.0)')), lambda a: all_(a.s, POSF), lambda a: [('mu', a.mu), ('Sigma', a.s)], gen=gd)
        C(key + '.isotropic', G, 'pub fn p09_%si<const N: usize>(mu: [f64; N], s: f64) -> Result<([f64; N], f64), ()> { %s }' % (fn, res(I_ + '::isotropic(mu, s)', '(p.mu.0, p.Sigma.0)')), lambda a: POSF(a.s), lambda a: [('mu', a.mu), ('Sigma', a.s)], gen=gs)
        C(key + '.homogeneous', G, 'pub fn p09_%sh<const N: usize>(mu: f64, s: f64) -> Result<([f64; N], f64), ()> { %s }' % (fn, res(I_ + '::homogeneous(mu, s)', '(p.mu.0, p.Sigma.0)')), lambda a: and_(lt(ZERO, a.N), POSF(a.s)), lambda a: [('mu', rep(a.N, a.mu)), ('Sigma', a.s)], gen=lambda rng, n: {'mu': fv(rng), 's': rng.choice(BAD) if rng.random() < .5 else fv(rng, True)})
        C(key + '.standard', G, 'pub fn p09_%ss<const N: usize>() -> Result<([f64; N], f64), ()> { %s }' % (fn, res(I_ + '::standard()', '(p.mu.0, p.Sigma.0)')), lambda a: lt(ZERO, a.N), lambda a: [('mu', rep(a.N, F0)), ('Sigma', F1)], gen=lambda rng, n: {})
        cs += matrix(key, G, M_, fn)
    gd = lambda rng, n: {'mu': [fv(rng) for _ in range(n)], 's': vec(rng, n, True)}
    C('mvnormal.params.diagonal', GNM, 'pub fn p09_pd<const N: usize>(mu: [f64; N], s: [f64; N]) -> Result<([f64; N], [f64; N]), ()> { %s }' % resp('DiagonalNormalParams::<N>::diagonal(mu, s)', '(p.mu.0, p.Sigma.0)'), lambda a: all_(a.s, POSF), lambda a: [('mu', a.mu), ('Sigma', a.s)], gen=gd)
    # --- Dirichlet, multinomial, categorical, mixture
    C('dirichlet.new', GDIR, 'pub fn p09_dir<const N: usize>(v: [f64; N]) -> Result<([f64; N],), ()> { %s }' % res('Dirichlet::new(v)', '(p.0,)'), lambda a: and_(lt(ZERO, a.N), all_(a.v, POSF)), lambda a: [('alphas', a.v)], gen=lambda rng, n: {'v': vec(rng, n, True)})
    for key, G, T, sig, args, get, pr in (('multinomial', GMUL, 'Multinomial', 'k: usize, v: [f64; N]', 'k, v', '(p.n.0, p.ps.unwrap())', lambda a: [('n', a.k), ('ps', a.v)]),
                                     ('categorical', ('d_categorical', 'use crate::univariate::categorical::*;\n' + COMMON), 'Categorical', 'v: [f64; N]', 'v', '(p.ps.unwrap(),)', lambda a: [('ps', a.v)]),
                                     ('mixture', GMIX, None, 'v: [f64; N], m: [f64; N]', None, None, lambda a: [('weights', a.v), ('rates', a.m)])):
        rt = '(%s)' % ('usize, [f64; N]' if key == 'multinomial' else '[f64; N],' if key == 'categorical' else '[f64; N], [f64; N]')
        gg = lambda rng, n, key=key: dict({'v': simplexy(rng, n)}, **({'k': rng.randint(0, 9)} if key == 'multinomial' else {'m': [fv(rng, True, 0) for _ in range(n)]} if key == 'mixture' else {}))
        if key == 'mixture':
            body = res('Mixture::new(v, m.map(|x| Exponential::new_unchecked(x)))', '(p.ps.unwrap(), d.components.clone().map(|c| c.params().lambda.0))')
            cs.append(Contract('mixture.new', G, 'pub fn p09_mix<const N: usize>(%s) -> Result<%s, ()> { %s }' % (sig, rt, body), accept(lambda a: onsimplex(a.v), pr), gen=gg, desc='mixture of exponentials')); cs[-1].only_sizes = (0, 1, 2, 3)
            continue
        for v in ('new', 'params'):
            body = res(T + '::new(%s)' % args, get) if v == 'new' else resp('Params::<N>::new(%s)' % args, get)
            cs.append(Contract('%s.%s' % (key, v), G, 'pub fn p09_%s_%s<const N: usize>(%s) -> Result<%s, ()> { %s }' % (key, v, sig, rt, body), accept(lambda a: onsimplex(a.v), pr), gen=gg, desc=key))
            cs.append(Contract('%s.%s.nan' % (key, v), G, 'pub fn p09_%s_%s_nan<const N: usize>(%s, i: usize) -> bool { %s.is_ok() }' % (key, v, sig, T + '::new(%s)' % args if v == 'new' else 'Params::<N>::new(%s)' % args), lambda a, r: [holds('rejected', not_(r))],
                pre=lambda a: and_(lt(a.i, a.N), not_(valid(at(a.v, a.i)))), mode='fp', desc='a vector with an entry outside [0, 1], NaN included, is rejected'))
    B = ('d_binomial', 'use crate::univariate::binomial::*;\n' + COMMON)
    C('binomial.new', B, 'pub fn p09_binom(n: usize, p: f64) -> Result<(usize, f64), ()> { let q = Probability::new_unchecked(p); %s }' % res('Binomial::new(n, q)', '(p.n.0, p.p.unwrap())'), lambda a: TRUE, lambda a: [('n', a.n), ('p', a.p)], pre=lambda a: valid(a.p), gen=lambda rng: {'n': rng.choice([0, 1, 5, 2**64 - 1]), 'p': rng.choice([0.0, 1.0, rng.random()])})
    C('binomial.params', B, 'pub fn p09_binomp(n: usize, p: f64) -> Result<(usize, f64), ()> { %s }' % resp('Params::new(n, p)', '(p.n.0, p.p.unwrap())'), lambda a: valid(a.p), lambda a: [('n', a.n), ('p', a.p)], gen=lambda rng: {'n': rng.choice([0, 1, 5, 2**64 - 1]), 'p': fv(rng, bad=.5) if rng.random() < .6 else rng.random()})
    U = ('d_uniform_i64', 'use crate::univariate::uniform::*;\n' + COMMON); MAX = num(2**63 - 1)
    gu = lambda rng: {'lb': rng.choice([0, 1, -1, 2**63 - 1, -2**63, rng.randint(-9, 9)]), 'w': rng.choice([0, 1, 2**63 - 1, 2**63, 2**64 - 1, 5])}
    C('uniform_i64.new', U, 'pub fn p09_ui(lb: i64, w: u64) -> Result<(i64, i64), ()> { %s }' % res('Uniform::<i64>::new(lb, w)', '(p.lb.0, p.width.0)'), lambda a: and_(lt(ZERO, a.w), le(a.w, MAX), le(add(a.lb, a.w), MAX)), lambda a: [('lb', a.lb), ('width', a.w)], gen=gu)
    C('uniform_i64.params', U, 'pub fn p09_uip(lb: i64, w: i64) -> Result<(i64, i64), ()> { %s }' % resp('Params::<i64>::new(lb, w)', '(p.lb.0, p.width.0)'), lambda a: lt(ZERO, a.w), lambda a: [('lb', a.lb), ('width', a.w)], gen=lambda rng: {'lb': rng.randint(-9, 9), 'w': rng.choice([0, -1, 1, 2**63 - 1, -2**63])})
    TR = ('d_triangular', 'use crate::univariate::triangular::*;\n' + COMMON)
    cs.append(Contract('triangular.symmetric', TR, 'pub fn p09_trs(a: f64, b: f64) -> Result<(f64, f64, f64), ()> { %s }' % resp('Params::symmetric(a, b)', '(p.a.0, p.a2c.0, p.c2b.0)'), accept(lambda a: lt(a.a, a.b), lambda a: [('a', a.a), ('a2c', (a.b - a.a) / 2), ('c2b', (a.b - a.a) / 2)]), gen=lambda rng: {'a': rng.uniform(-2, 2), 'b': rng.uniform(-2, 2)}, desc='triangular: symmetric about the midpoint'))
    return cs
def rep(n, x): return Seq(n, lambda i: x, '') if n.op != 'num' else Arr([x] * int(n.a[0]))
def badcov(rng, n):
    B = [-1.0, math.nan, -1e-9, -math.inf]
    k = rng.randrange(n) if n and rng.random() < 0.7 else None          # one bad variance, or any number of them
    return [[((1.0 if k is not None and i != k else rng.choice(B + ([1.0] if k is None else []))) if i == j else 0.1) for j in range(n)] for i in range(n)]
def matrix(key, G, T, fn):
    """full covariance: the admissible matrices are the symmetric positive-definite ones"""
    import p13
    cs = []
    M = '[[f64; N]; N]'
    src = lambda s, r, b: 'pub fn p09_%s%s<const N: usize>(mu: [f64; N], s: %s) -> %s { %s }' % (fn, s, M, r, b)
    body = res(T + '::new(mu, s)', '(p.mu.0, p.Sigma.0)')
    cs.append(Contract(key + '.new.valid', G, src('m', 'Result<([f64; N], %s), ()>' % M, body), accept(lambda a: TRUE, lambda a: [('mu', a.mu), ('Sigma', a.s)]),
        pre=lambda a: and_(lt(ZERO, a.N), p13.forall_m(a.N, lambda i, j: eq(at(at(a.s, i), j), at(at(a.s, j), i))), all_(diag(a.s), lambda x: lt(ZERO, x))),
        gen=lambda rng, n: {'mu': [fv(rng, bad=0) for _ in range(n)], 's': p13.spd(rng, n)}, desc='every symmetric positive-definite covariance matrix is accepted', nrand=60))
    cs.append(Contract(key + '.new.diagonal', G, src('x', 'bool', T + '::new(mu, s).is_ok()'), lambda a, r: [holds('rejected', not_(r))],
        pre=lambda a: not_(all_(diag(a.s), lambda x: fge(x, F0))), mode='fp', gen=lambda rng, n: {'mu': [fv(rng, bad=0) for _ in range(n)], 's': badcov(rng, n)}, desc='a matrix with a negative or NaN variance is rejected', nrand=60))
    e = lambda a, i, j: at(at(a.s, num(i)), num(j))
    cs.append(Contract(key + '.new.invalid', G, 'pub fn p09_%sq(mu: [f64; 2], s: [[f64; 2]; 2]) -> bool { %s::new(mu, s).is_ok() }' % (fn, {'mvnormal': 'MvNormal::<2>', 'mvlognormal': 'LogNormal::<2, [[f64; 2]; 2]>'}[key]), lambda a, r: [holds('rejected', not_(r))],
        pre=lambda a: or_(not_(eq(e(a, 0, 1), e(a, 1, 0))), lt(mk('*', e(a, 0, 0), e(a, 1, 1)), mk('*', e(a, 0, 1), e(a, 1, 0)))), gen=lambda rng: {'mu': [0.5, -1.0], 's': rng.choice([[[0.5, 2.0], [1.0, 1.0]], [[1.0, 2.0], [2.0, 1.0]], [[1.0, -1.5], [-1.5, 2.0]], [[1.0, 0.25], [0.5, 1.0]]])}, desc='an asymmetric or indefinite 2 x 2 matrix is rejected', nrand=40))
    cs[-1].known = lambda a, r: [holds('the variances are not negative and the matrix is accepted all the same', and_(r, le(ZERO, e(a, 0, 0)), le(ZERO, e(a, 1, 1))))]
    return cs
def run(tier):
    check.main('P09', tier, contracts() + multi(), assumptions=['a location parameter is any float (the library declares no constraint on Loc)', 'array lengths are at most 2^24'])
