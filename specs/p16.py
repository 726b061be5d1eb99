"""P16: mass functions and CDFs of the discrete distributions."""
from uni import *
import check
def X(d, a): return a.x if d.xt in ('bool', 'f64') else toreal(a.x)
XOK = {'usize': lambda x: lt(x, num(1 << 40)), 'u64': lambda x: lt(x, num(1 << 52)), 'i64': lambda x: and_(lt(num(-(1 << 42)), x), lt(x, num(1 << 42))), 'bool': lambda x: TRUE, 'f64': lambda x: TRUE}
def contracts(keys=None):
    cs = []
    for k in keys or DISC:
        d = D[k]; kw = dict(x=True, nrand=300, pre=lambda p, a, d=d: XOK[d.xt](a.x))
        if d.xt != 'f64': cs.append(contract(d, 'pmf', 'd.pmf(&x).unwrap()', 'f64', lambda p, a, r, d=d: [eqg('the textbook mass at every point of the value type', r, d.pmf(p, X(d, a)))], desc='mass at every point', **kw))
        cs.append(contract(d, 'cdf', 'd.cdf(&x).unwrap()', 'f64', lambda p, a, r, d=d: [eqg('the sum of the masses up to and including the point', r, d.dcdf(p, X(d, a)))], desc='CDF at every point', **kw))
        cs.append(contract(d, 'ccdf', 'd.ccdf(&x).unwrap()', 'f64', lambda p, a, r, d=d: [eqg('one minus the CDF', r, 1 - d.dcdf(p, X(d, a)))], desc='complementary CDF at every point', **kw))
        if d.xt == 'f64': continue
        kw['pre'] = lambda p, a, d=d: and_(XOK[d.xt](a.x), d.insupp(p, X(d, a)), *([inner(p)] if hasattr(p, 'p') else []))
        cs.append(contract(d, 'log_pmf', 'd.log_pmf(&x)', 'f64', lambda p, a, r, d=d: [eqg('the logarithm of the mass', r, ln(d.pmf(p, X(d, a))))], inside=True, desc='log mass on the support', **kw))
        cs[-1].abs = 1.0
    return cs + categorical()
GC = ('u_categorical', 'use crate::univariate::categorical::*;\nuse crate::statistics::*;\nuse crate::{Distribution, DiscreteDistribution};\n')
def simplex(rng, n):
    v = [rng.random() + 1e-3 if rng.random() < .8 else 0.0 for _ in range(n)]; s = sum(v)
    return [x / s for x in v] if s else [1.0 / n] * n if n else []
def cgen(rng, n, extra=4): return {'ps': simplex(rng, n), 'i': rng.randrange(n + extra) if n + extra > 0 and rng.random() < .9 else rng.choice([n, n + 1, 2**64 - 1]) if extra else 0}
def categorical():
    cs = []
    F = 'pub fn u_cat_%s<const N: usize>(ps: [f64; N], i: usize) -> f64 { let d = Categorical::new_unchecked(ps); %s }'
    ins = lambda a: lt(a.i, a.N)
    cs.append(Contract('categorical.pmf', GC, F % ('pmf', 'd.pmf(&i).unwrap()'), lambda a, r: [eqg('the mass of category i', r, at(a.ps, a.i))], pre=ins, gen=lambda rng, n: cgen(rng, n, 0), desc='mass of every category', nrand=300))
    cs.append(Contract('categorical.log_pmf', GC, F % ('log_pmf', 'd.log_pmf(&i)'), lambda a, r: [eqg('the logarithm of the mass of category i', r, ln(at(a.ps, a.i)))], pre=lambda a: and_(ins(a), lt(ZERO, at(a.ps, a.i))) if a.i.op != 'num' or int(a.i.a[0]) < int(a.N.a[0]) else FALSE, gen=lambda rng, n: cgen(rng, n, 0), desc='log mass of every category'))
    def mass(a):
        if a.N.op == 'num' and a.i.op == 'num': return addall([at(a.ps, num(j)) for j in range(min(int(a.i.a[0]) + 1, int(a.N.a[0])))])
        return isum(ZERO, ite_i(lt(a.i, a.N), a.i + 1, a.N), lambda j: at(a.ps, j))
    cs.append(Contract('categorical.cdf', GC, F % ('cdf', 'd.cdf(&i).unwrap()'), lambda a, r: [eqg('the sum of the masses up to and including category i', r, mass(a))], gen=cgen, desc='CDF at every point', nrand=300))
    cs.append(Contract('categorical.ccdf', GC, F % ('ccdf', 'd.ccdf(&i).unwrap()'), lambda a, r: [eqg('one minus the CDF', r, 1 - mass(a))], gen=cgen, desc='complementary CDF at every point'))
    for c in cs: c.range = (1e-9, 2e3, 2**64); c.tol = 1e-9
    return cs
def addall(xs):
    t = ZERO
    for x in xs: t = t + x
    return t
def ite_i(c, x, y): return mk('ite', c, x, y)
def run(tier): check.main('P16', tier, contracts(), assumptions=['special functions are the mathematical functions (accuracy of cephes is not verified)', 'textbook identities for the binomial, Poisson and geometric CDFs (regularised incomplete beta and gamma functions, geometric series); they are checked numerically against the sums of masses by tools/selftest_uni.py'])
