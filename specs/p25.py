"""P25: mixtures. The component type is a stub whose answers are arbitrary numbers: the code of a mixture is generic in its component and sees it through its trait methods only."""
from uni import *
import check, p09, p16, p04
from p28 import seqn, vecn, ks, KS, NS_, PICK, SORT
from p13 import VEC
STUB = '''use crate::mixture::*;
use crate::statistics::*;
use crate::{Distribution, ContinuousDistribution, Univariate, Probability};
use rand::Rng;
#[derive(Debug, Clone, Copy)]
pub struct Stub { pub c: f64, pub d: f64, pub m: f64, pub v: f64, pub lo: f64, pub hi: f64 }
pub struct StubParams { pub s: Stub }
impl From<StubParams> for Stub { fn from(p: StubParams) -> Stub { p.s } }
impl Distribution for Stub {
    type Support = spaces::intervals::Closed<f64>;
    type Params = StubParams;
    fn support(&self) -> spaces::intervals::Closed<f64> { spaces::intervals::Interval::closed_unchecked(self.lo, self.hi) }
    fn params(&self) -> StubParams { StubParams { s: *self } }
    fn cdf(&self, _x: &f64) -> Probability { Probability::new_unchecked(self.c) }
    fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> f64 { self.m + self.v * rng.gen::<f64>() }
}
impl Univariate for Stub {}
impl ContinuousDistribution for Stub { fn pdf(&self, _x: &f64) -> f64 { self.d } }
impl UvMoments for Stub {
    fn mean(&self) -> f64 { self.m }
    fn variance(&self) -> f64 { self.v }
    fn skewness(&self) -> f64 { unreachable!() }
}
fn stubs<const N: usize>(q: [[f64; 2]; N]) -> [Stub; N] { q.map(|z| Stub { c: z[0], d: z[0], m: z[0], v: z[1], lo: z[0], hi: z[1] }) }
'''
G = ('x_mixture', STUB)
T = 'w: [f64; N], q: [[f64; 2]; N]'
MIX = 'Mixture::new_unchecked(w, stubs(q))'
q0 = lambda a, i: at(at(a.q, i), 0)
q1 = lambda a, i: at(at(a.q, i), 1)
wt = lambda a: and_(lt(ZERO, a.N), all_(a.w, lambda x: and_(le(ZERO, x), le(x, ONE))))
unit = lambda a: and_(wt(a), all_(a.q, lambda z: and_(le(ZERO, at(z, 0)), le(at(z, 0), ONE))))
wsum = lambda a, f: seqn(a.N, lambda i: mk('*', at(a.w, i), f(i)))
mean = lambda a: wsum(a, lambda i: q0(a, i))
tv = lambda a: wsum(a, lambda i: q1(a, i) + q0(a, i) * q0(a, i)) - mean(a) * mean(a)
def gen(kind):
    def g(rng, n, **kw):
        f = {'prob': lambda: [rng.random(), rng.random()], 'mom': lambda: [rng.uniform(-4, 4), posv(rng)], 'int': lambda: sorted((rng.uniform(-4, 4), rng.uniform(-4, 4)))}[kind]
        d = {'w': p16.simplex(rng, n), 'q': [f() for _ in range(n)]}
        if n > 1 and rng.random() < .2:                                   # a component of little weight that still counts
            i, j = rng.sample(range(n), 2); t = rng.choice([2.0 ** -13, 2.0 ** -22, 2.0 ** -26]); d['w'] = [t if k == i else 1 - t if k == j else 0.0 for k in range(n)]
            if kind == 'mom': d['q'][i][0] = rng.choice([-1, 1]) * rng.uniform(500, 1500)
        return d
    return g
def contracts():
    cs = []
    def add(cid, extra, ret, body, post, pre, kind, gx=None, desc='', sig=T, G=G, **kw):
        g = gen(kind)
        c = Contract('mixture.' + cid, G, 'pub fn x_mix_%s<const N: usize>(%s%s) -> %s { %s }' % (cid, sig, extra, ret, body), post, pre=pre, gen=(lambda rng, n: dict(g(rng, n), **gx(rng, n))) if gx else g, desc=desc, nrand=120, tol=1e-8, **kw)
        c.range = (1e-9, 2e3, 2**64); cs.append(c); return c
    X = ', x: f64'; gx = lambda rng, n: {'x': rng.uniform(-3, 3)}
    add('cdf', X, 'f64', '%s.cdf(&x).unwrap()' % MIX, lambda a, r: [eqg('the weighted sum of the CDFs of the components', r, wsum(a, lambda i: q0(a, i)))], unit, 'prob', gx, 'CDF of a mixture')
    add('ccdf', X, 'f64', '%s.ccdf(&x).unwrap()' % MIX, lambda a, r: [eqg('one minus the weighted sum of the CDFs of the components', r, 1 - wsum(a, lambda i: q0(a, i)))], unit, 'prob', gx, 'complementary CDF of a mixture')
    add('pdf', X, 'f64', '%s.pdf(&x)' % MIX, lambda a, r: [eqg('the weighted sum of the densities of the components', r, wsum(a, lambda i: q0(a, i)))], wt, 'mom', gx, 'density of a mixture')
    add('log_pdf', X, 'f64', '%s.log_pdf(&x)' % MIX, lambda a, r: [eqg('the logarithm of the weighted sum of the densities of the components', r, ln(wsum(a, lambda i: q0(a, i))))], lambda a: and_(wt(a), lt(ZERO, wsum(a, lambda i: q0(a, i)))), 'prob', gx, 'log density of a mixture')
    add('mean', '', 'f64', 'UvMoments::mean(&%s)' % MIX, lambda a, r: [eqg('the weighted mean of the means', r, mean(a))], wt, 'mom', desc='law of total expectation')
    simplex = lambda a: and_(wt(a), eq(seqsum(a.w), ONE))
    add('variance', '', 'f64', 'UvMoments::variance(&%s)' % MIX, lambda a, r: [eqg('the weighted mean of the variances and squared means, less the squared mean', r, tv(a))], simplex, 'mom', desc='law of total variance')
    add('standard_deviation', '', 'f64', 'UvMoments::standard_deviation(&%s)' % MIX, lambda a, r: [eqg('the root of the total variance', r, sq(tv(a)))], lambda a: and_(simplex(a), lt(ZERO, tv(a))), 'mom', desc='standard deviation of a mixture')
    iv = lambda a: and_(wt(a), all_(a.q, lambda z: le(at(z, 0), at(z, 1))))
    def sup(a, r):
        i, j = var('si', 'I'), var('sj', 'I')
        return [holds('every point of the support of every component lies in the support of the mixture', forall(i, ZERO, a.N, or_(lt(a.x, q0(a, i)), lt(q1(a, i), a.x), lift(r)))),
                holds('no point left or right of all of them does', or_(not_(lift(r)), and_(exists(i, ZERO, a.N, le(q0(a, i), a.x)), exists(j, ZERO, a.N, le(a.x, q1(a, j))))))]
    add('support', X, 'bool', '{ use spaces::Space; %s.support().contains(&x) }' % MIX, sup, iv, 'int', lambda rng, n: {'x': rng.uniform(-5, 5)}, 'support of a mixture')
    def drawn(a, r):
        u, t, x = r.f; i, j = var('di', 'I'), var('dj', 'I')
        sel = lambda i: and_(forall(j, ZERO, i, le(p04.cum(a.w, j), u)), or_(lt(u, p04.cum(a.w, i)), eq(i, sub(a.N, ONE))))
        return [holds('a sample is a sample of the component selected by the weights', forall(i, ZERO, a.N, or_(not_(sel(i)), feq(x, q0(a, i) + q1(a, i) * t))))]
    add('sample', ', seed: u64', '(f64, f64, f64)', 'let mut h = rng(seed); let u: f64 = h.gen(); let t: f64 = h.gen(); let mut g = rng(seed); (u, t, %s.sample(&mut g))' % MIX, drawn, wt, 'mom', lambda rng, n: {'seed': rng.randrange(2**64)}, 'a sample of a mixture')
    add('params', '', '([f64; N], Vec<f64>, Vec<f64>)', 'let p = %s.params(); (p.ps.unwrap(), p.component_params.iter().map(|c| c.s.m).collect(), p.component_params.iter().map(|c| c.s.v).collect())' % MIX,
        lambda a, r: [eqg('the weights', r.f[0], a.w), eqg('the parameters of the components, in order', r.f[1], VEC(a.N, lambda i: q0(a, i))), eqg('the parameters of the components, in order (second)', r.f[2], VEC(a.N, lambda i: q1(a, i)))], wt, 'mom', desc='parameters of a mixture')
    add('rebuild', '', '([f64; N], [f64; N], [f64; N])', 'let p = %s.params(); let d: Mixture<N, Stub> = p.into(); (d.weights.clone().unwrap(), d.components.clone().map(|c| c.m), d.components.clone().map(|c| c.v))' % MIX,
        lambda a, r: [eqg('the weights', r.f[0], a.w), eqg('the components, in order', r.f[1], VEC(a.N, lambda i: q0(a, i))), eqg('the components, in order (second)', r.f[2], VEC(a.N, lambda i: q1(a, i)))], iv, 'int', desc='a mixture rebuilt from its own parameters').only_sizes = (1, 2, 3, 4)
    add('rebuild_support', X, '(bool, bool)', '{ use spaces::Space; let m = %s; let d: Mixture<N, Stub> = m.params().into(); (m.support().contains(&x), d.support().contains(&x)) }' % MIX, lambda a, r: [holds('the same support', iff(lift(r.f[0]), lift(r.f[1])))], iv, 'int', lambda rng, n: {'x': rng.uniform(-5, 5)}, 'support of a mixture rebuilt from its own parameters').only_sizes = (1, 2, 3)
    add('new', '', 'Result<([f64; N], [f64; N], [f64; N]), ()>', 'match Mixture::new(w, stubs(q)) { Ok(d) => Ok((d.weights.clone().unwrap(), d.components.clone().map(|c| c.m), d.components.clone().map(|c| c.v))), Err(_) => Err(()) }',
        lambda a, r: [holds('accepted exactly when the weights lie on the simplex', iff(p09.onsimplex(a.w), lift(is_ok(r))))] + ([eqg('the weights', payload(r).f[0], a.w), eqg('the components', payload(r).f[1], VEC(a.N, lambda i: q0(a, i))), eqg('the components (second)', payload(r).f[2], VEC(a.N, lambda i: q1(a, i)))] if is_ok(r) else []),
        lambda a: and_(lt(ZERO, a.N), all_(a.q, lambda z: le(at(z, 0), at(z, 1)))), 'int', lambda rng, n: {'w': p09_w(rng, n)}, 'construction of a mixture')
    return cs
def p09_w(rng, n):
    return p09.simplexy(rng, n)
def run(tier): check.main('P25', tier, contracts(), assumptions=['a mixture sees its components through their trait methods only (its code is generic), so that a component with arbitrary answers stands for every component'])
