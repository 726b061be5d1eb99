"""P29: provided methods. Defaults against stubs that supply one side of each pair with arbitrary answers; every implementor: both sides evaluate (no re-entered method) and satisfy the identity."""
from uni import *
import check, p09, p13, p16, p27, mvar
from p28 import seqn
from p19 import HAVE_Q
from p23 import MODELS, SMALL, inn
STUB = '''use crate::{Distribution, ContinuousDistribution, DiscreteDistribution, Univariate, Multivariate, Probability};
use crate::statistics::*;
use crate::fitting::*;
use crate::distance::*;
use rand::Rng;
type Line = spaces::intervals::Closed<f64>;
macro_rules! base { ($t:ident { $($m:tt)* }) => {
    pub struct $t(pub f64, pub f64, pub f64);
    impl From<[f64; 3]> for $t { fn from(p: [f64; 3]) -> $t { $t(p[0], p[1], p[2]) } }
    impl Distribution for $t {
        type Support = Line;
        type Params = [f64; 3];
        fn support(&self) -> Line { spaces::intervals::Interval::closed_unchecked(self.0, self.1) }
        fn params(&self) -> [f64; 3] { [self.0, self.1, self.2] }
        fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 { rng.gen::<f64>() }
        $($m)*
    }
    impl Univariate for $t {}
} }
base!(ByCdf { fn cdf(&self, x: &f64) -> Probability { Probability::new_unchecked(self.0 + self.1 * *x) } });
base!(ByLog { fn log_cdf(&self, x: &f64) -> f64 { self.0 + self.1 * *x } });
impl ContinuousDistribution for ByCdf { fn pdf(&self, x: &f64) -> f64 { self.0 + self.1 * *x } }
impl ContinuousDistribution for ByLog { fn log_pdf(&self, x: &f64) -> f64 { self.0 + self.1 * *x } }
impl DiscreteDistribution for ByCdf { fn pmf(&self, x: &f64) -> Probability { Probability::new_unchecked(self.0 + self.1 * *x) } }
impl DiscreteDistribution for ByLog { fn log_pmf(&self, x: &f64) -> f64 { self.0 + self.1 * *x } }
impl UvMoments for ByCdf { fn mean(&self) -> f64 { self.0 } fn variance(&self) -> f64 { self.1 } fn skewness(&self) -> f64 { self.0 } fn kurtosis(&self) -> f64 { self.2 } }
impl UvMoments for ByLog { fn mean(&self) -> f64 { self.0 } fn standard_deviation(&self) -> f64 { self.1 } fn skewness(&self) -> f64 { self.0 } fn excess_kurtosis(&self) -> f64 { self.2 } }
impl Quantiles for ByCdf { fn quantile(&self, p: Probability) -> f64 { let u = p.unwrap(); self.0 + self.1 * u + self.2 * u * u } }
impl Quantiles for ByLog { fn cquantile(&self, p: Probability) -> f64 { let u = p.unwrap(); self.0 + self.1 * u + self.2 * u * u } }
impl Mahalanobis for ByCdf { fn d_mahalanobis(&self, x: &f64) -> f64 { self.0 + self.1 * *x } }
impl Mahalanobis for ByLog { fn d_mahalanobis_squared(&self, x: &f64) -> f64 { self.0 + self.1 * *x } }
impl Likelihood for ByCdf { fn likelihood(&self, xs: &[f64]) -> f64 { self.0 + self.1 * xs.len() as f64 } }
impl Likelihood for ByLog { fn log_likelihood(&self, xs: &[f64]) -> f64 { self.0 + self.1 * xs.len() as f64 } }
pub struct Cov<const N: usize>(pub [[f64; N]; N]);
impl<const N: usize> From<[[f64; N]; N]> for Cov<N> { fn from(p: [[f64; N]; N]) -> Cov<N> { Cov(p) } }
impl<const N: usize> Distribution for Cov<N> {
    type Support = Line;
    type Params = [[f64; N]; N];
    fn support(&self) -> Line { spaces::intervals::Interval::closed_unchecked(0.0, 1.0) }
    fn params(&self) -> [[f64; N]; N] { self.0 }
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 { rng.gen::<f64>() }
}
impl<const N: usize> Multivariate<N> for Cov<N> {}
impl<const N: usize> MvMoments<N> for Cov<N> { fn mean(&self) -> [f64; N] { [0.0; N] } fn covariance(&self) -> [[f64; N]; N] { self.0 } }
'''
GS = ('d_stub', STUB)
ABC = 'a: f64, b: f64, c: f64'
def stubs():
    cs = []
    def add(cid, T_, extra, ret, body, post, pre=None, gx=None, desc=''):
        g = lambda rng: dict({'a': rng.uniform(.1, .5), 'b': rng.uniform(.1, .5), 'c': rng.uniform(-2, 2)}, **(gx(rng) if gx else {}))
        c = Contract('default.' + cid, GS, 'pub fn df_%s(%s%s) -> %s { let d = %s(a, b, c); %s }' % (cid, ABC, extra, ret, T_, body), post, pre=pre or (lambda a: TRUE), gen=g, desc=desc, nrand=60, tol=1e-9)
        c.range = (1e-6, 2e3, 2**40); cs.append(c)
    lin = lambda a: a.a + a.b * a.x
    X = ', x: f64'; gx = lambda rng: {'x': rng.uniform(0, .9)}
    p01 = lambda a: and_(lt(ZERO, lin(a)), lt(lin(a), ONE)); pos = lambda a: lt(ZERO, lin(a)); ng = lambda a: lt(lin(a), ZERO)
    nx = lambda rng: {'a': -rng.uniform(.5, 2), 'x': rng.uniform(0, .9)}
    F4 = '(f64, f64, f64, f64)'; Q4 = '(d.cdf(&x).unwrap(), d.ccdf(&x).unwrap(), d.log_cdf(&x), d.log_ccdf(&x))'
    four = lambda v: (lambda a, r: [eqg('cdf', r.f[0], v(a)), eqg('ccdf is one minus the cdf', r.f[1], 1 - v(a)), eqg('log_cdf is the logarithm of the cdf', r.f[2], ln(v(a))), eqg('log_ccdf is the logarithm of the ccdf', r.f[3], ln(1 - v(a)))])
    add('cdf', 'ByCdf', X, F4, Q4, four(lin), p01, gx, 'complement and logarithms from a CDF')
    add('log_cdf', 'ByLog', X, F4, Q4, four(lambda a: ex(lin(a))), ng, nx, 'CDF, complement and logarithm from a log CDF')
    two = lambda v, nm: (lambda a, r: [eqg(nm, r.f[0], v(a)), eqg('its logarithm', r.f[1], ln(v(a)))])
    add('pdf', 'ByCdf', X, '(f64, f64)', '(d.pdf(&x), d.log_pdf(&x))', two(lin, 'density'), pos, gx, 'log density from a density')
    add('log_pdf', 'ByLog', X, '(f64, f64)', '(d.pdf(&x), d.log_pdf(&x))', two(lambda a: ex(lin(a)), 'density'), None, nx, 'density from a log density')
    add('pmf', 'ByCdf', X, '(f64, f64)', '(d.pmf(&x).unwrap(), d.log_pmf(&x))', two(lin, 'mass'), p01, gx, 'log mass from a mass')
    add('log_pmf', 'ByLog', X, '(f64, f64)', '(d.pmf(&x).unwrap(), d.log_pmf(&x))', two(lambda a: ex(lin(a)), 'mass'), ng, nx, 'mass from a log mass')
    M4 = '(d.variance(), d.standard_deviation(), d.kurtosis(), d.excess_kurtosis())'
    mom = lambda v, k: (lambda a, r: [eqg('variance', r.f[0], v(a)), eqg('standard deviation is the root of the variance', r.f[1], sq(v(a))), eqg('kurtosis', r.f[2], k(a)), eqg('excess kurtosis is kurtosis minus three', r.f[3], k(a) - 3)])
    bpos = lambda a: lt(ZERO, a.b)
    add('variance', 'ByCdf', '', F4, M4, mom(lambda a: a.b, lambda a: a.c), bpos, None, 'deviation from a variance, excess from a kurtosis')
    add('standard_deviation', 'ByLog', '', F4, M4, mom(lambda a: a.b * a.b, lambda a: a.c + 3), bpos, None, 'variance from a deviation, kurtosis from an excess')
    U = ', u: f64'; gu = lambda rng: {'u': rng.choice([.5, .25, .75, 0.0, 1.0, rng.random()])}; u01 = lambda a: and_(le(ZERO, a.u), le(a.u, ONE))
    quad = lambda a, u: a.a + a.b * u + a.c * u * u
    F7 = 'Vec<f64>'; Q7 = '{ let p = Probability::new_unchecked(u); vec![d.quantile(p), d.cquantile(p), d.lower_quartile(), d.median(), d.upper_quartile(), d.iqr(), d.lower_fence(), d.upper_fence()] }'
    def qs(Q):
        def post(a, r):
            l, m, h = Q(a, q(1, 4)), Q(a, q(1, 2)), Q(a, q(3, 4))
            return [eqg(n, x, v) for n, x, v in zip(('quantile', 'complementary quantile', 'lower quartile', 'median', 'upper quartile', 'inter-quartile range', 'lower fence', 'upper fence'), r.e,
                    (Q(a, a.u), Q(a, 1 - a.u), l, m, h, h - l, l - q(3, 2) * (h - l), h + q(3, 2) * (h - l)))] + [holds('eight values', lift(len(r.e) == 8))]
        return post
    add('quantile', 'ByCdf', U, F7, Q7, qs(quad), u01, gu, 'complementary quantile, quartiles, median and fences from a quantile function')
    add('cquantile', 'ByLog', U, F7, Q7, qs(lambda a, u: quad(a, 1 - u)), u01, gu, 'quantile, quartiles, median and fences from a complementary quantile function')
    D2 = '(d.d_mahalanobis(&x), d.d_mahalanobis_squared(&x))'
    add('d_mahalanobis', 'ByCdf', X, '(f64, f64)', D2, lambda a, r: [eqg('distance', r.f[0], lin(a)), eqg('squared distance', r.f[1], lin(a) * lin(a))], None, gx, 'squared distance from a distance')
    add('d_mahalanobis_squared', 'ByLog', X, '(f64, f64)', D2, lambda a, r: [eqg('distance', r.f[0], sq(lin(a))), eqg('squared distance', r.f[1], lin(a))], pos, gx, 'distance from a squared distance')
    L2 = '(d.likelihood(&xs), d.log_likelihood(&xs))'; lk = lambda a: a.a + a.b * toreal(length(a.xs)); gxs = lambda rng: {'xs': [rng.random() for _ in range(rng.choice([0, 1, 3, 7]))]}
    add('likelihood', 'ByCdf', ', xs: Vec<f64>', '(f64, f64)', L2, two(lk, 'likelihood'), lambda a: and_(SMALL(a), lt(ZERO, lk(a))), gxs, 'log-likelihood from a likelihood')
    add('log_likelihood', 'ByLog', ', xs: Vec<f64>', '(f64, f64)', L2, two(lambda a: ex(lk(a)), 'likelihood'), SMALL, gxs, 'likelihood from a log-likelihood')
    add('into', 'ByCdf', X, '(bool, Vec<f64>)', '{ use spaces::Space; let e = ByCdf(a, b, c); (d.into_support().contains(&x), e.into_params().to_vec()) }', lambda a, r: [holds('into_support is the support', iff(lift(r.f[0]), and_(le(a.a, a.x), le(a.x, a.b)))), eqg('into_params are the parameters', r.f[1], Arr([a.a, a.b, a.c]))], lambda a: le(a.a, a.b), gx, 'consuming accessors')
    g = lambda rng, n: {'m': p13.spd(rng, n)}
    posd = lambda a: and_(lt(ZERO, a.N), p13.forall_m(a.N, lambda i, j: and_(lt(ZERO, at(at(a.m, i), i)), eq(at(at(a.m, i), j), at(at(a.m, j), i)))))
    def C(cid, ret, body, post, desc):
        c = Contract('default.' + cid, GS, 'pub fn df_%s<const N: usize>(m: [[f64; N]; N]) -> %s { let d = Cov(m); %s }' % (cid, ret, body), post, pre=posd, gen=g, desc=desc, nrand=60, tol=1e-9)
        c.range = (1e-6, 2e3, 2**40); cs.append(c)
    e2 = mvar.e2
    C('mv_variance', '[f64; N]', 'MvMoments::variance(&d)', lambda a, r: [eqg('the diagonal of the covariance', r, p13.VEC(a.N, lambda i: e2(a.m, i, i)))], 'variances from a covariance matrix')
    C('mv_correlation', '[[f64; N]; N]', 'MvMoments::correlation(&d)', lambda a, r: [eqg('the covariance over the standard deviations', r, p13.MAT(a.N, lambda i, j: e2(a.m, i, j) / sq(e2(a.m, i, i) * e2(a.m, j, j))))], 'correlations from a covariance matrix')
    C('dimensionality', 'usize', 'd.dimensionality()', lambda a, r: [eqg('the const parameter', r, a.N)], 'dimensionality')
    return cs
NO_MOMENTS = ('cauchy',)
def implementors():
    cs = []
    for k in CONT + DISC:
        d = D[k]; disc = d.discrete
        XX = lambda a, d=d: a.x if d.xt in ('f64', 'bool') else toreal(a.x)
        cdf = (lambda p, a, d=d: d.dcdf(p, p16.X(d, a))) if disc else (lambda p, a, d=d: d.cdf(p, a.x))
        den = (lambda p, a, d=d: d.pmf(p, p16.X(d, a))) if disc else (lambda p, a, d=d: d.pdf(p, a.x))
        dom = (lambda p, a, d=d: and_(p16.XOK[d.xt](a.x), d.insupp(p, p16.X(d, a)), *([p16.inner(p)] if hasattr(p, 'p') else []))) if disc else (lambda p, a: TRUE)
        kw = dict(x=True, inside=True)
        prc = lambda p, a, cdf=cdf, dom=dom: and_(dom(p, a), lt(ZERO, cdf(p, a)), lt(cdf(p, a), ONE))
        def add(*a, **k):
            c = contract(*a, **k); c.cid = 'impl.' + c.cid; c.tol = max(c.tol, 1e-6); c.abs = 1.0; cs.append(c)
        if not d.edge and d.mod != 'degenerate': add(d, 'cdfs', '(d.cdf(&x).unwrap(), d.ccdf(&x).unwrap(), d.log_cdf(&x), d.log_ccdf(&x))', '(f64, f64, f64, f64)', lambda p, a, r: [eqg('ccdf is one minus the cdf', r.f[1], 1 - r.f[0]), eqg('log_cdf is the logarithm of the cdf', r.f[2], ln(r.f[0])), eqg('log_ccdf is the logarithm of the ccdf', r.f[3], ln(r.f[1]))], pre=prc, desc='CDF, complement and logarithms', **kw)
        prd = lambda p, a, den=den, dom=dom: and_(dom(p, a), lt(ZERO, den(p, a)))
        mass = disc and d.xt != 'f64'; f = 'pmf(&x).unwrap()' if mass else 'pdf(&x)'; g = 'log_pmf' if mass else 'log_pdf'
        if d.mod != 'degenerate' or d.xt != 'f64': add(d, 'densities', '(d.%s, d.%s(&x))' % (f, g), '(f64, f64)', lambda p, a, r: [eqg('the logarithm of the density or mass', r.f[1], ln(r.f[0]))], pre=prd, desc='density or mass and its logarithm', **kw)
        if d.var:
            ff, cnd = with_cond(d.var)
            add(d, 'deviations', '(d.variance(), d.standard_deviation())', '(f64, f64)', lambda p, a, r: [eqg('the standard deviation is the root of the variance', r.f[1], sq(r.f[0]))], pre=cnd, desc='variance and standard deviation')
        if d.ek and not d.edge:
            ff, cnd = with_cond(d.ek)
            add(d, 'kurtoses', '(d.kurtosis(), d.excess_kurtosis())', '(f64, f64)', lambda p, a, r: [eqg('excess kurtosis is kurtosis minus three', r.f[1], r.f[0] - 3)], pre=cnd, desc='kurtosis and excess kurtosis')
        if k in HAVE_Q:
            add(d, 'quantiles', '{ let p = Probability::new_unchecked(u); let v = Probability::new_unchecked(1.0 - u); (d.cquantile(p), d.quantile(v), d.quantile(p), d.cquantile(v)) }', '(f64, f64, f64, f64)', lambda p, a, r: [eqg('the complementary quantile is the quantile of the complement', r.f[0], r.f[1]), eqg('and vice versa', r.f[2], r.f[3])],
                args='u: f64', pre=lambda p, a: and_(lt(ZERO, a.u), lt(a.u, ONE)), gen=lambda rng, v: {'u': rng.uniform(.01, .99)}, desc='quantile and complementary quantile')
        # every call comes back (with a value or a panic), whether or not the quantity exists
        ends = lambda p, a, r: [holds('the call ends', TRUE)]
        def end(qty, body, ret, **kw):
            add(d, 'ends.' + qty, body, ret, ends, fn='ends_' + qty, panics=lambda a: TRUE, desc=qty + ' never re-enters itself', **kw)
            cs[-1].panic_may = True; cs[-1].defined = False; cs[-1].nrand = 40
        end('cdfs', '(d.cdf(&x).unwrap(), d.ccdf(&x).unwrap(), d.log_cdf(&x), d.log_ccdf(&x))', '(f64, f64, f64, f64)', x=True)
        end('densities', '(d.%s, d.%s(&x))' % (f, g), '(f64, f64)', x=True)
        if k not in NO_MOMENTS:
            for m in ('mean', 'variance', 'standard_deviation', 'skewness', 'kurtosis', 'excess_kurtosis'): end(m, 'd.%s()' % m, 'f64')
    for key, T_, gs, pre, gen, ll, sc in MODELS:
        d = D[key]; pr = lambda p, a, pre=pre, key=key: and_(SMALL(a), pre(a), *([inn(p)] if key == 'bernoulli' else []))
        add(d, 'likelihoods', '(d.likelihood(&xs), d.log_likelihood(&xs))', '(f64, f64)', lambda p, a, r: [eqg('the likelihood is the exponential of the log-likelihood', r.f[0], ex(r.f[1]))], args='xs: Vec<%s>' % T_, gen=lambda rng, v, gen=gen: gen(rng), pre=pr, desc='likelihood and log-likelihood')
    # the distributions over vectors
    for k, d in mvar.MV.items():
        def add(cid, body, post, pre=None, gx=None, d=d, k=k, extra=None):
            g = lambda rng, *m: (lambda r: dict(r, **(gx(rng, r) if gx else {})))(d.gen(rng, *m))
            ex_ = ', x: [%s; %s]' % (d.xt, d.n) if extra is None else extra
            c = Contract('impl.%s.%s' % (k, cid), ('n_' + k, d.use), mvar.client(d, 'p29_' + cid, ex_, '(f64, f64)', body), post, pre=(lambda a: and_(d.pre(a), pre(a))) if pre else d.pre, gen=g, desc='%s of %s' % (cid, k), nrand=60, tol=1e-8, intercept=p13.BY_CONTRACT)
            c.range = (1e-6, 2e3, 2**40); c.abs = 1.0; cs.append(c)
        lg = lambda a, r: [eqg('the logarithm of the density or mass', r.f[1], ln(r.f[0]))]
        chol = p27.cholpos if 'full' in k else lambda a: TRUE
        if d.n == '2' or k in ('full', 'diagonal', 'isotropic'):
            add('densities', '(d.pdf(&x), d.log_pdf(&x))', lg, chol, lambda rng, r: {'x': [m + rng.gauss(0, 1.5) for m in r['mu']]})
            if d.n != '2': add('distances', '(d.d_mahalanobis_squared(&x), d.d_mahalanobis(&x))', lambda a, r: [eqg('the distance is the root of the squared distance', r.f[1], sq(r.f[0]))], chol, lambda rng, r: {'x': [m + rng.gauss(0, 1.5) for m in r['mu']]})
            if k == 'full': cs[-1].positive = lambda a: [p27.z2(mvar.MV['full'])(a, lambda i: at(a.x, i))]
        elif k.startswith('log'):
            add('densities', '(d.pdf(&x), d.log_pdf(&x))', lg, lambda a, chol=chol: and_(chol(a), all_(a.x, lambda x: lt(ZERO, x))), lambda rng, r: {'x': [math.exp(m + rng.gauss(0, 1)) for m in r['mu']]})
        elif k == 'dirichlet':
            add('densities', '(d.pdf(&x), d.log_pdf(&x))', lg, lambda a: all_(a.x, lambda x: and_(lt(ZERO, x), le(x, ONE))), lambda rng, r: {'x': [(x + 1e-3) / (1 + 1e-3 * len(r['v'])) for x in p16.simplex(rng, len(r['v']))]})
    d = mvar.MV['paired']
    c = Contract('impl.paired.likelihoods', ('n_paired', d.use + 'use crate::fitting::Likelihood;\n'), mvar.client(d, 'p29_lik', ', xs: Vec<[f64; 2]>', '(f64, f64)', '(d.likelihood(&xs), d.log_likelihood(&xs))'), lambda a, r: [eqg('the likelihood is the exponential of the log-likelihood', r.f[0], ex(r.f[1]))], pre=lambda a: and_(mvar.MV['paired'].pre(a), SMALL(a)),
                 gen=lambda rng: dict(mvar.MV['paired'].gen(rng), xs=[[rng.uniform(-3, 3), rng.uniform(-3, 3)] for _ in range(rng.choice([0, 1, 2, 5]))]), desc='likelihood and log-likelihood of paired normals', nrand=60, tol=1e-8)
    c.range = (1e-6, 2e3, 2**40); cs.append(c)
    F = 'pub fn u_cat29_%s<const N: usize>(ps: [f64; N], i: usize) -> (f64, f64, f64, f64) { let d = Categorical::new_unchecked(ps); %s }'
    cum = lambda a: isum(ZERO, mk('ite', lt(a.i, a.N), a.i + 1, a.N), lambda j: at(a.ps, j)) if a.i.op != 'num' else sum((at(a.ps, num(j)) for j in range(min(int(a.i.a[0]) + 1, int(a.N.a[0])))), ZERO)
    c = Contract('impl.categorical.cdfs', p16.GC, F % ('cdfs', '(d.cdf(&i).unwrap(), d.ccdf(&i).unwrap(), d.log_cdf(&i), d.log_ccdf(&i))'), lambda a, r: [eqg('ccdf is one minus the cdf', r.f[1], 1 - r.f[0]), eqg('log_cdf is the logarithm of the cdf', r.f[2], ln(r.f[0])), eqg('log_ccdf is the logarithm of the ccdf', r.f[3], ln(r.f[1]))],
                 pre=lambda a: and_(lt(a.i, a.N), lt(ZERO, cum(a)), lt(cum(a), ONE)), gen=lambda rng, n: p16.cgen(rng, n, 0), desc='CDF, complement and logarithms'); cs.append(c)
    c = Contract('impl.categorical.densities', p16.GC, F % ('densities', '(d.pmf(&i).unwrap(), d.log_pmf(&i), 0.0, 0.0)'), lambda a, r: [eqg('the logarithm of the mass', r.f[1], ln(r.f[0]))], pre=lambda a: and_(lt(a.i, a.N), all_(a.ps, lambda x: lt(ZERO, x))), gen=lambda rng, n: p16.cgen(rng, n, 0), desc='mass and its logarithm'); cs.append(c)
    for c in cs[-2:]: c.range = (1e-9, 2e3, 2**64)
    import p25
    for cid, body, post, pre in (('cdfs', '(m.cdf(&x).unwrap(), m.ccdf(&x).unwrap(), m.log_cdf(&x), m.log_ccdf(&x))', lambda a, r: [eqg('ccdf is one minus the cdf', r.f[1], 1 - r.f[0]), eqg('log_cdf is the logarithm of the cdf', r.f[2], ln(r.f[0])), eqg('log_ccdf is the logarithm of the ccdf', r.f[3], ln(r.f[1]))], lambda a: and_(p25.unit(a), lt(ZERO, p25.mean(a)), lt(p25.mean(a), ONE))),
                                 ('densities', '(m.pdf(&x), m.log_pdf(&x), UvMoments::variance(&m), UvMoments::standard_deviation(&m))', lambda a, r: [eqg('the logarithm of the density', r.f[1], ln(r.f[0])), eqg('the standard deviation is the root of the variance', r.f[3], sq(r.f[2]))], lambda a: and_(p25.unit(a), eq(seqsum(a.w), ONE), lt(ZERO, p25.mean(a)), all_(a.q, lambda z: lt(ONE, at(z, 1)))))):
        c = Contract('impl.mixture.' + cid, p25.G, 'pub fn x_mix29_%s<const N: usize>(%s, x: f64) -> (f64, f64, f64, f64) { let m = %s; %s }' % (cid, p25.T, p25.MIX, body), post, pre=pre, gen=lambda rng, n: {'w': p16.simplex(rng, n), 'q': [[rng.uniform(.05, .95), rng.uniform(1.1, 3)] for _ in range(n)], 'x': rng.random()}, desc='mixture', nrand=60, tol=1e-8)
        c.range = (1e-6, 2e3, 2**40); cs.append(c)
        c.positive = lambda a: [p25.tv(a)]
    return cs
def contracts(): return stubs() + implementors()
def run(tier): check.main('P29', tier, contracts(), assumptions=['an implementor sees the provided methods as generic code, so that a stub with arbitrary answers stands for every implementor that supplies that side'])
