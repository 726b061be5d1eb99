"""Reference database of the univariate distributions: textbook functions as terms, used by P09, P10, P14-P24, P28."""
from contract import *
from numeric import FEv
import re as _re
Fr = Fraction
R2 = mk('sqrt', num(2)); LN2 = mk('ln', num(2)); LN2PI = mk('ln', 2 * PI); GAM = EULER
ZETA3 = mk('zeta', num(3))
def ln(x): return mk('ln', x)
def ex(x): return mk('exp', x)
def sq(x): return mk('sqrt', x)
def Gm(x): return mk('gamma', x)
def lG(x): return mk('lgamma', x)
def psi(x): return mk('digamma', x)
def Be(x, y): return mk('beta', x, y)
def lB(x, y): return mk('lbeta', x, y)
def erf(x): return mk('erf', x)
def erfc(x): return mk('erfc', x)
def Phi(x): return mk('normcdf', x)
def phi(z): return ex(-z * z / 2) / sq(2 * PI)
def asin(x): return mk('asin', x)
def atan(x): return mk('atan', x)
def sin(x): return mk('sin', x)
def cos(x): return mk('cos', x)
def tan(x): return mk('tan', x)
def P_(a, x): return mk('gammp', a, x)
def I_(a, b, x): return mk('betai', a, b, x)
def pw(x, y): return pow_(lift(x), lift(y))
def q(n, d=1): return lift(Fr(n, d))
def ite(c, x, y): return mk('ite', c, lift(x), lift(y))
def posv(rng):
    k = rng.random()
    return rng.choice([0.5, 1.0, 2.0, 3.0, 1.5]) if k < 0.2 else math.exp(rng.uniform(math.log(0.25), math.log(7)))
def anyv(rng): return rng.choice([0.0, 1.0, -1.0]) if rng.random() < 0.15 else rng.uniform(-4, 4)
def dofv(rng): return rng.randint(1, 12)
KINDS = {'pos': ('f64', posv, lambda x: lt(ZERO, x)), 'any': ('f64', anyv, None), 'dof': ('usize', dofv, lambda x: and_(lt(ZERO, x), lt(x, num(1 << 30)))), 'prob': ('f64', lambda r: r.choice([0.5, 0.25, 1e-3, 0.999]) if r.random() < .2 else r.uniform(0.01, 0.99), lambda x: and_(lt(ZERO, x), lt(x, ONE))),
         'prob1': ('f64', lambda r: r.choice([0.0, 1.0, 0.5, 0.25, 1e-3, 0.999, 1e-8, 1 - 1e-8]) if r.random() < .3 else r.uniform(0.01, 0.99), lambda x: and_(le(ZERO, x), le(x, ONE))),
         'cnt1': ('usize', lambda r: r.choice([1, 2, 3, 70, 100]) if r.random() < .3 else r.randint(1, 40), lambda x: and_(lt(ZERO, x), lt(x, num(1 << 30)))),
         'cnt': ('usize', lambda r: r.choice([0, 1, 2, 3]) if r.random() < .3 else r.randint(0, 40), lambda x: lt(x, num(1 << 30))),
         'int': ('i64', lambda r: r.randint(-20, 20), lambda x: and_(lt(num(-(1 << 40)), x), lt(x, num(1 << 40)))), 'wid': ('u64', lambda r: r.randint(1, 20), lambda x: and_(lt(ZERO, x), lt(x, num(1 << 40))))}
# callers of utils::log_factorial_stirling are checked against its contract (proved by P12), not its body
def lf_contract(ex, st, callee, args, rty): return [(st, mk('lgamma', toreal(args[0]) + 1))]
ICEPT = {'utils::log_factorial_stirling': lf_contract, 'crate::utils::log_factorial_stirling': lf_contract}
def choose_contract(ex, st, callee, args, rty): return [(st, mk('choose', args[0], args[1]))]
for k_ in ('utils::choose', 'crate::utils::choose'): ICEPT[k_] = choose_contract
# the variance of a non-degenerate distribution is positive (where it exists): used to show that its square root and quotients by it are defined
VARPOS = {k: [lambda p, k=k: with_cond(D[k].var)[0](p)] for k in ('chi', 'folded_normal', 'frechet', 'gev', 'kumaraswamy', 'weibull')}
VARPOS['gev'].append(lambda p: Gm(1 - 2 * p.zeta) - Gm(1 - p.zeta) * Gm(1 - p.zeta))
VARPOS['weibull'].append(lambda p: Gm(1 + 2 / p.k) - Gm(1 + 1 / p.k) * Gm(1 + 1 / p.k))
D = {}
class Dist:
    def __init__(self, name, mod, params, **kw):
        self.name = name; self.mod = mod; self.key = mod; self.params = [tuple(p.split(':')) for p in params.split()]
        self.kw = kw; self.discrete = kw.get('discrete', False); D[kw.get('key', mod)] = self; self.key = kw.get('key', mod)
        names = ', '.join(n for n, _ in self.params)
        self.ctor = kw.get('ctor') or '%s::new_unchecked(%s)' % (name, names)
        self.use = kw.get('use') or 'use crate::univariate::%s::*;\n' % mod
        self.use += 'use crate::statistics::*;\nuse crate::fitting::*;\nuse crate::{Distribution, ContinuousDistribution, DiscreteDistribution, Univariate, Convolution, Probability};\n'
        self.xt = kw.get('xt', 'f64')
    def __getattr__(self, n):
        kw = self.__dict__.get('kw', {})
        if n in kw: return kw[n]
        if n.startswith('__'): raise AttributeError(n)
        return None
    def sig(self, suffix=''): return ', '.join('%s%s: %s' % (n, suffix, KINDS[k][0]) for n, k in self.params)
    def rec(self, a, suffix=''):
        """parameters as reals"""
        d = {}
        for n, k in self.params:
            v = getattr(a, n + suffix)
            d[n] = v if KINDS[k][0] == 'f64' else toreal(v)
        r = A(d)
        if self.where: r.w = self.where
        return r
    def valid(self, a, suffix=''):
        cs = []
        for n, k in self.params:
            f = KINDS[k][2]
            if f: cs.append(f(getattr(a, n + suffix)))
        if self.pre: cs.append(self.pre(self.rec(a, suffix)))
        return and_(*cs)
    def gen(self, rng, suffix=''):
        d = {}
        for n, k in self.params:
            g = (self.gens or {}).get(n) or KINDS[k][1]
            d[n + suffix] = g(rng)
        return d
    def spread(self, d):
        """(centre, scale, lo, hi) as floats, for generating points"""
        ev = Ev()
        p = self.rec(A({n: (f64(d[n]) if KINDS[k][0] == 'f64' else num(d[n])) for n, k in self.params}))
        f = lambda t: None if t is None else float(ev(lift(t)))
        lo = f(self.lo(p)) if self.lo else None; hi = f(self.hi(p)) if self.hi else None
        c = f(self.loc(p)) if self.loc else (lo if lo is not None else 0.0); s = f(self.scale(p)) if self.scale else 1.0
        return c, s, lo, hi
    def point(self, rng, d, inside=False):
        if self.discrete:
            for _ in range(50):
                x = self.points(rng, d)
                if not inside or Ev()(self.insupp(self.rec(A({n: (f64(d[n]) if KINDS[k][0] == 'f64' else num(d[n])) for n, k in self.params})), num(x) if self.xt != 'bool' else lift(x))): break
            return x
        c, s, lo, hi = self.spread(d)
        k = rng.random()
        if lo is not None and hi is not None:
            if inside or k < .6: return lo + (hi - lo) * rng.uniform(0.01, 0.99)
            return rng.choice([lo, hi, lo - rng.random(), hi + rng.random(), lo - 10, hi + 10, lo + (hi - lo) / 2])
        if lo is not None:
            v = s * math.exp(rng.uniform(-2.2, 1.6))
            if inside or k < .7: return lo + v
            return rng.choice([lo, lo - v, lo - 1e-3, lo - 7.5])
        v = c + s * rng.gauss(0, 1.6)
        return v if rng.random() < .9 or inside else rng.choice([c, c + 30 * s, c - 30 * s] if self.tails else [c])
    def inside(self, p, x):
        return and_(*([lt(self.lo(p), x)] if self.lo else []), *([lt(x, self.hi(p))] if self.hi else []))
    def outside(self, p, x):
        return or_(*([lt(x, self.lo(p))] if self.lo else []), *([lt(self.hi(p), x)] if self.hi else []))
    def F(self, p, x):
        r = self.cdf(p, x)
        if self.hi: r = ite(le(self.hi(p), x), ONE, r)
        if self.lo: r = ite(le(x, self.lo(p)), ZERO, r)
        return r
def nonfinite(r):
    """an infinity or not a number"""
    if r in (INF, NINF, NAN): return TRUE
    if isinstance(r, T) and r.op == 'ite': return ite(r.a[0], nonfinite(r.a[1]), nonfinite(r.a[2]))
    if isinstance(r, T) and r.op in ('num', 'f') : return TRUE if r.op == 'f' and not abs(fval(r.a[0])) < float('inf') else FALSE
    if not free_vars(r):
        x = FEv()(r); return lift(not abs(x) < float('inf'))
    return or_(mk('isnan', r), mk('isinf', r))
def undefined(d, qty, cnd, what):
    """where the moment does not exist the call panics or says infinity or NaN: never a finite number"""
    c = contract(d, qty + '.undefined', 'd.%s()' % qty, 'f64', lambda p, a, r: [holds('no finite number', nonfinite(r))], pre=lambda p: not_(cnd(p)), desc='%s where it does not exist' % what, panics=lambda a: TRUE)
    c.panic_may = True; c.defined = False
    if d.discrete: c.cases = [{'p': 0}, {'p': 1}] if d.key == 'bernoulli' else [{'p': 1}]
    return c
def toreal(v):
    if isinstance(v, T) and v.op == 'num': return v
    return mk('i2f', v)
def contract(d, qty, expr, ret, post, pre=None, x=False, args='', gen=None, desc='', inside=False, fn=None, **kw):
    """client `expr` over distribution d (variable `d`), optionally at a point x"""
    fname = 'u_%s_%s' % (d.key, fn or qty.replace('.', '_'))
    src = 'pub fn %s(%s%s%s) -> %s { let d = %s; %s }' % (fname, d.sig(), ', x: %s' % d.xt if x else '', args and ', ' + args, ret, d.ctor, expr)
    def prec(a):
        p = d.rec(a); cs = [d.valid(a)]
        if inside: cs.append(d.inside(p, a.x if d.xt == 'f64' else a.x))
        if pre: cs.append(pre(p, a) if pre.__code__.co_argcount - len(pre.__defaults__ or ()) == 2 else pre(p))
        return and_(*cs)
    def g(rng):
        v = d.gen(rng)
        if x: v['x'] = d.point(rng, v, inside)
        if gen: v.update(gen(rng, v))
        return v
    kw.setdefault('intercept', ICEPT)
    c = Contract('%s.%s' % (d.key, qty), ('u_' + d.key, d.use), src, lambda a, r: post(d.rec(a), a, r), pre=prec, gen=g, desc='%s: %s' % (d.name, desc or qty), **kw)
    if d.tol: c.tol = max(c.tol, d.tol)
    if d.key in VARPOS: c.positive = lambda a: [f(d.rec(a)) for f in VARPOS[d.key]]
    c.range = d.range or ((1e-9, 2e3, 2**40) if d.discrete else (1e-4, 2e3, 2000))
    return c

# ------------------------------------------------------------------ continuous
def z(p, x): return (x - p.mu) / p.s
def mom4(m1, m2, m3, m4):
    v = m2 - m1 * m1
    return v, (m3 - 3 * m1 * m2 + 2 * m1 * m1 * m1), (m4 - 4 * m1 * m3 + 6 * m1 * m1 * m2 - 3 * m1 * m1 * m1 * m1)
def std3(m1, m2, m3, m4=None):
    v = m2 - m1 * m1
    return (m3 - 3 * m1 * m2 + 2 * m1 * m1 * m1) / (v * sq(v))
def std4(m1, m2, m3, m4):
    v = m2 - m1 * m1
    return (m4 - 4 * m1 * m3 + 6 * m1 * m1 * m2 - 3 * m1 * m1 * m1 * m1) / (v * v) - 3

Dist('Arcsine', 'arcsine', 'a:any w:pos', lo=lambda p: p.a, hi=lambda p: p.a + p.w,
    cdf=lambda p, x: 2 / PI * asin(sq((x - p.a) / p.w)), pdf=lambda p, x: 1 / (PI * sq((x - p.a) * (p.a + p.w - x))),
    mean=lambda p: p.a + p.w / 2, var=lambda p: p.w * p.w / 8, skew=lambda p: ZERO, ek=lambda p: q(-3, 2), median=lambda p: p.a + p.w / 2,
    modes=[('some', lambda p: TRUE, lambda p: [p.a, p.a + p.w])], ent=lambda p: ln(PI * p.w / 4))
Dist('Beta', 'beta', 'alpha:pos beta:pos', lo=lambda p: ZERO, hi=lambda p: ONE,
    cdf=lambda p, x: I_(p.alpha, p.beta, x), pdf=lambda p, x: pw(x, p.alpha - 1) * pw(1 - x, p.beta - 1) / Be(p.alpha, p.beta),
    mean=lambda p: p.alpha / (p.alpha + p.beta), var=lambda p: p.alpha * p.beta / ((p.alpha + p.beta) * (p.alpha + p.beta) * (p.alpha + p.beta + 1)),
    skew=lambda p: 2 * (p.beta - p.alpha) * sq(p.alpha + p.beta + 1) / ((p.alpha + p.beta + 2) * sq(p.alpha * p.beta)),
    ek=lambda p: 6 * ((p.alpha - p.beta) * (p.alpha - p.beta) * (p.alpha + p.beta + 1) - p.alpha * p.beta * (p.alpha + p.beta + 2)) / (p.alpha * p.beta * (p.alpha + p.beta + 2) * (p.alpha + p.beta + 3)),
    modes=[('unique', lambda p: and_(lt(ONE, p.alpha), lt(ONE, p.beta)), lambda p: [(p.alpha - 1) / (p.alpha + p.beta - 2)]), ('some', lambda p: and_(lt(p.alpha, ONE), lt(p.beta, ONE)), lambda p: [ZERO, ONE]),
           ('unique', lambda p: and_(le(p.alpha, ONE), le(ONE, p.beta), not_(and_(eq(p.alpha, ONE), eq(p.beta, ONE)))), lambda p: [ZERO]),
           ('unique', lambda p: and_(le(ONE, p.alpha), le(p.beta, ONE), not_(and_(eq(p.alpha, ONE), eq(p.beta, ONE)))), lambda p: [ONE]),
           ('any', lambda p: and_(eq(p.alpha, ONE), eq(p.beta, ONE)), None)],
    ent=lambda p: lB(p.alpha, p.beta) - (p.alpha - 1) * psi(p.alpha) - (p.beta - 1) * psi(p.beta) + (p.alpha + p.beta - 2) * psi(p.alpha + p.beta))
Dist('BetaPrime', 'beta_prime', 'alpha:pos beta:pos', lo=lambda p: ZERO,
    cdf=lambda p, x: I_(p.alpha, p.beta, x / (1 + x)), pdf=lambda p, x: pw(x, p.alpha - 1) * pw(1 + x, -p.alpha - p.beta) / Be(p.alpha, p.beta),
    mean=(lambda p: p.alpha / (p.beta - 1), lambda p: lt(ONE, p.beta)), var=(lambda p: p.alpha * (p.alpha + p.beta - 1) / ((p.beta - 2) * (p.beta - 1) * (p.beta - 1)), lambda p: lt(num(2), p.beta)),
    skew=(lambda p: 2 * (2 * p.alpha + p.beta - 1) / (p.beta - 3) * sq((p.beta - 2) / (p.alpha * (p.alpha + p.beta - 1))), lambda p: lt(num(3), p.beta)),
    ek=(lambda p: 6 * (p.alpha * (p.alpha + p.beta - 1) * (5 * p.beta - 11) + (p.beta - 1) * (p.beta - 1) * (p.beta - 2)) / (p.alpha * (p.alpha + p.beta - 1) * (p.beta - 3) * (p.beta - 4)), lambda p: lt(num(4), p.beta)),
    modes=[('unique', lambda p: le(ONE, p.alpha), lambda p: [(p.alpha - 1) / (p.beta + 1)]), ('unique', lambda p: lt(p.alpha, ONE), lambda p: [ZERO])],
    ent=lambda p: lB(p.alpha, p.beta) - (p.alpha - 1) * psi(p.alpha) - (p.beta + 1) * psi(p.beta) + (p.alpha + p.beta) * psi(p.alpha + p.beta))
Dist('Cauchy', 'cauchy', 'x0:any gamma:pos', loc=lambda p: p.x0, scale=lambda p: p.gamma, tails=True,
    cdf=lambda p, x: q(1, 2) + atan((x - p.x0) / p.gamma) / PI, pdf=lambda p, x: 1 / (PI * p.gamma * (1 + (x - p.x0) * (x - p.x0) / (p.gamma * p.gamma))),
    quantile=lambda p, u: p.x0 + p.gamma * tan(PI * (u - q(1, 2))), median=lambda p: p.x0, modes=[('unique', lambda p: TRUE, lambda p: [p.x0])], ent=lambda p: ln(4 * PI * p.gamma))
def chi_m(p): return R2 * Gm((p.k + 1) / 2) / Gm(p.k / 2)
def chi_v(p): return p.k - chi_m(p) * chi_m(p)
def chi_s(p): return chi_m(p) * (1 - 2 * chi_v(p)) / (chi_v(p) * sq(chi_v(p)))
Dist('Chi', 'chi', 'k:dof', lo=lambda p: ZERO, scale=lambda p: sq(p.k),
    cdf=lambda p, x: P_(p.k / 2, x * x / 2), pdf=lambda p, x: pw(x, p.k - 1) * ex(-x * x / 2) / (pw(2, p.k / 2 - 1) * Gm(p.k / 2)),
    mean=chi_m, var=chi_v, skew=chi_s, ek=lambda p: 2 * (1 - chi_m(p) * sq(chi_v(p)) * chi_s(p) - chi_v(p)) / chi_v(p),
    modes=[('unique', lambda p: TRUE, lambda p: [sq(p.k - 1)])], ent=lambda p: lG(p.k / 2) + (p.k - LN2 - (p.k - 1) * psi(p.k / 2)) / 2)
Dist('ChiSq', 'chi_sq', 'k:dof', lo=lambda p: ZERO, scale=lambda p: p.k,
    cdf=lambda p, x: P_(p.k / 2, x / 2), pdf=lambda p, x: pw(x, p.k / 2 - 1) * ex(-x / 2) / (pw(2, p.k / 2) * Gm(p.k / 2)),
    mean=lambda p: p.k, var=lambda p: 2 * p.k, skew=lambda p: sq(8 / p.k), ek=lambda p: 12 / p.k,
    modes=[('unique', lambda p: TRUE, lambda p: [ite(lt(p.k, num(2)), ZERO, p.k - 2)])], ent=lambda p: p.k / 2 + LN2 + lG(p.k / 2) + (1 - p.k / 2) * psi(p.k / 2))
Dist('Cosine', 'cosine', 'mu:any s:pos', lo=lambda p: p.mu - p.s, hi=lambda p: p.mu + p.s,
    cdf=lambda p, x: (1 + z(p, x) + sin(PI * z(p, x)) / PI) / 2, pdf=lambda p, x: (1 + cos(PI * z(p, x))) / (2 * p.s),
    mean=lambda p: p.mu, var=lambda p: p.s * p.s * (q(1, 3) - 2 / (PI * PI)), skew=lambda p: ZERO, ek=lambda p: 6 * (90 - PI * PI * PI * PI) / (5 * (PI * PI - 6) * (PI * PI - 6)),
    median=lambda p: p.mu, modes=[('unique', lambda p: TRUE, lambda p: [p.mu])])
Dist('Erlang', 'erlang', 'k:dof lam:pos', lo=lambda p: ZERO, scale=lambda p: p.k / p.lam, gens={'k': lambda r: r.randint(1, 9)},
    cdf=lambda p, x: P_(p.k, p.lam * x), pdf=lambda p, x: ex(p.k * ln(p.lam) + (p.k - 1) * ln(x) - p.lam * x - lG(p.k)), 
    mean=lambda p: p.k / p.lam, var=lambda p: p.k / (p.lam * p.lam), skew=lambda p: 2 / sq(p.k), ek=lambda p: 6 / p.k, modes=[('unique', lambda p: TRUE, lambda p: [(p.k - 1) / p.lam])])
Dist('Exponential', 'exponential', 'lam:pos', lo=lambda p: ZERO, scale=lambda p: 1 / p.lam,
    cdf=lambda p, x: 1 - ex(-p.lam * x), pdf=lambda p, x: p.lam * ex(-p.lam * x), mean=lambda p: 1 / p.lam, var=lambda p: 1 / (p.lam * p.lam), skew=lambda p: num(2), ek=lambda p: num(6),
    quantile=lambda p, u: -ln(1 - u) / p.lam, median=lambda p: LN2 / p.lam, modes=[('unique', lambda p: TRUE, lambda p: [ZERO])], ent=lambda p: 1 - ln(p.lam), fisher=lambda p: [[1 / (p.lam * p.lam)]])
Dist('FDist', 'f_dist', 'd1:dof d2:dof', lo=lambda p: ZERO,
    cdf=lambda p, x: I_(p.d1 / 2, p.d2 / 2, p.d1 * x / (p.d1 * x + p.d2)), pdf=lambda p, x: sq(pw(p.d1 * x, p.d1) * pw(p.d2, p.d2) / pw(p.d1 * x + p.d2, p.d1 + p.d2)) / (x * Be(p.d1 / 2, p.d2 / 2)),
    mean=(lambda p: p.d2 / (p.d2 - 2), lambda p: lt(num(2), p.d2)), var=(lambda p: 2 * p.d2 * p.d2 * (p.d1 + p.d2 - 2) / (p.d1 * (p.d2 - 2) * (p.d2 - 2) * (p.d2 - 4)), lambda p: lt(num(4), p.d2)),
    skew=(lambda p: (2 * p.d1 + p.d2 - 2) * sq(8 * (p.d2 - 4)) / ((p.d2 - 6) * sq(p.d1 * (p.d1 + p.d2 - 2))), lambda p: lt(num(6), p.d2)),
    ek=(lambda p: 12 * (p.d1 * (5 * p.d2 - 22) * (p.d1 + p.d2 - 2) + (p.d2 - 4) * (p.d2 - 2) * (p.d2 - 2)) / (p.d1 * (p.d2 - 6) * (p.d2 - 8) * (p.d1 + p.d2 - 2)), lambda p: lt(num(8), p.d2)),
    modes=[('unique', lambda p: lt(num(2), p.d1), lambda p: [(p.d1 - 2) / p.d1 * p.d2 / (p.d2 + 2)])],
    ent=lambda p: lB(p.d1 / 2, p.d2 / 2) + (1 - p.d1 / 2) * psi(p.d1 / 2) - (1 + p.d2 / 2) * psi(p.d2 / 2) + (p.d1 + p.d2) / 2 * psi((p.d1 + p.d2) / 2) + ln(p.d2 / p.d1))
Dist('FoldedNormal', 'folded_normal', 'mu:any sigma:pos', lo=lambda p: ZERO, scale=lambda p: p.sigma,
    cdf=lambda p, x: (erf((x + p.mu) / (p.sigma * R2)) + erf((x - p.mu) / (p.sigma * R2))) / 2, pdf=lambda p, x: (phi((x - p.mu) / p.sigma) + phi((x + p.mu) / p.sigma)) / p.sigma,
    mean=lambda p: p.sigma * sq(2 / PI) * ex(-p.mu * p.mu / (2 * p.sigma * p.sigma)) + p.mu * erf(p.mu / (p.sigma * R2)),
    var=lambda p: p.mu * p.mu + p.sigma * p.sigma - D['folded_normal'].mean(p) * D['folded_normal'].mean(p),
    modes=[('unique', lambda p: and_(le(p.mu, p.sigma), le(-p.sigma, p.mu)), lambda p: [ZERO]), ('root', lambda p: or_(lt(p.sigma, p.mu), lt(p.mu, -p.sigma)), lambda p: [ite(lt(ZERO, p.mu), p.mu, -p.mu)])])
def fg(p, k): return Gm(1 - k / p.alpha)
Dist('Frechet', 'frechet', 'alpha:pos', lo=lambda p: ZERO, cdf=lambda p, x: ex(-pw(x, -p.alpha)), pdf=lambda p, x: p.alpha * pw(x, -1 - p.alpha) * ex(-pw(x, -p.alpha)),
    mean=(lambda p: fg(p, 1), lambda p: lt(ONE, p.alpha)), var=(lambda p: fg(p, 2) - fg(p, 1) * fg(p, 1), lambda p: lt(num(2), p.alpha)), skew=(lambda p: std3(fg(p, 1), fg(p, 2), fg(p, 3)), lambda p: lt(num(3), p.alpha)),
    ek=(lambda p: std4(fg(p, 1), fg(p, 2), fg(p, 3), fg(p, 4)), lambda p: lt(num(4), p.alpha)), inf_mean=lambda p: le(p.alpha, ONE), inf_var=lambda p: and_(lt(ONE, p.alpha), le(p.alpha, num(2))),
    median=lambda p: pw(LN2, -1 / p.alpha), quantile=lambda p, u: pw(-ln(u), -1 / p.alpha),
    modes=[('unique', lambda p: TRUE, lambda p: [pw(p.alpha / (1 + p.alpha), 1 / p.alpha)])], ent=lambda p: 1 + GAM / p.alpha + GAM - ln(p.alpha))
Dist('Gamma', 'gamma', 'alpha:pos beta:pos', lo=lambda p: ZERO, scale=lambda p: p.alpha / p.beta, cdf=lambda p, x: P_(p.alpha, p.beta * x), pdf=lambda p, x: pw(p.beta, p.alpha) * pw(x, p.alpha - 1) * ex(-p.beta * x) / Gm(p.alpha),
    mean=lambda p: p.alpha / p.beta, var=lambda p: p.alpha / (p.beta * p.beta), skew=lambda p: 2 / sq(p.alpha), ek=lambda p: 6 / p.alpha,
    modes=[('unique', lambda p: le(ONE, p.alpha), lambda p: [(p.alpha - 1) / p.beta])], ent=lambda p: p.alpha - ln(p.beta) + lG(p.alpha) + (1 - p.alpha) * psi(p.alpha))
def gt(p, x): return pw(1 + p.zeta * (x - p.mu) / p.sigma, -1 / p.zeta)
def gg(p, k): return Gm(1 - k * p.zeta)
ZOK = lambda p: le(q(1, 10**7), p.zeta)
Dist('GeneralisedExtremeValue', 'gev', 'mu:any sigma:pos zeta:pos', pre=ZOK, lo=lambda p: p.mu - p.sigma / p.zeta, scale=lambda p: p.sigma / p.zeta, gens={'zeta': lambda r: math.exp(r.uniform(-3, 1))},
    cdf=lambda p, x: ex(-gt(p, x)), pdf=lambda p, x: pw(gt(p, x), p.zeta + 1) * ex(-gt(p, x)) / p.sigma,
    mean=(lambda p: p.mu + p.sigma * (gg(p, 1) - 1) / p.zeta, lambda p: lt(p.zeta, ONE)), var=(lambda p: p.sigma * p.sigma * (gg(p, 2) - gg(p, 1) * gg(p, 1)) / (p.zeta * p.zeta), lambda p: lt(p.zeta, q(1, 2))),
    skew=(lambda p: std3(gg(p, 1), gg(p, 2), gg(p, 3)), lambda p: lt(p.zeta, q(1, 3))), ek=(lambda p: std4(gg(p, 1), gg(p, 2), gg(p, 3), gg(p, 4)), lambda p: lt(p.zeta, q(1, 4))),
    inf_mean=lambda p: le(ONE, p.zeta), inf_var=lambda p: and_(le(q(1, 2), p.zeta), lt(p.zeta, ONE)),
    median=lambda p: p.mu + p.sigma * (pw(LN2, -p.zeta) - 1) / p.zeta, quantile=lambda p, u: p.mu + p.sigma * (pw(-ln(u), -p.zeta) - 1) / p.zeta,
    modes=[('unique', lambda p: TRUE, lambda p: [p.mu + p.sigma * (pw(1 + p.zeta, -p.zeta) - 1) / p.zeta])], ent=lambda p: ln(p.sigma) + GAM * p.zeta + GAM + 1)
Dist('GeneralisedPareto', 'gpd', 'mu:any sigma:pos zeta:pos', lo=lambda p: p.mu, scale=lambda p: p.sigma, gens={'zeta': lambda r: math.exp(r.uniform(-3, 1))},
    cdf=lambda p, x: 1 - gt(p, x), pdf=lambda p, x: pw(1 + p.zeta * (x - p.mu) / p.sigma, -1 / p.zeta - 1) / p.sigma,
    mean=(lambda p: p.mu + p.sigma / (1 - p.zeta), lambda p: lt(p.zeta, ONE)), var=(lambda p: p.sigma * p.sigma / ((1 - p.zeta) * (1 - p.zeta) * (1 - 2 * p.zeta)), lambda p: lt(p.zeta, q(1, 2))),
    skew=(lambda p: 2 * (1 + p.zeta) * sq(1 - 2 * p.zeta) / (1 - 3 * p.zeta), lambda p: lt(p.zeta, q(1, 3))),
    ek=(lambda p: 3 * (1 - 2 * p.zeta) * (2 * p.zeta * p.zeta + p.zeta + 3) / ((1 - 3 * p.zeta) * (1 - 4 * p.zeta)) - 3, lambda p: lt(p.zeta, q(1, 4))),
    median=lambda p: p.mu + p.sigma * (pw(2, p.zeta) - 1) / p.zeta, quantile=lambda p, u: p.mu + p.sigma * (pw(1 - u, -p.zeta) - 1) / p.zeta, ent=lambda p: ln(p.sigma) + p.zeta + 1)
Dist('Gumbel', 'gumbel', 'mu:any beta:pos', loc=lambda p: p.mu, scale=lambda p: p.beta, cdf=lambda p, x: ex(-ex(-(x - p.mu) / p.beta)), pdf=lambda p, x: ex(-(x - p.mu) / p.beta - ex(-(x - p.mu) / p.beta)) / p.beta,
    mean=lambda p: p.mu + p.beta * GAM, var=lambda p: PI * PI * p.beta * p.beta / 6, skew=lambda p: 12 * sq(num(6)) * ZETA3 / (PI * PI * PI), ek=lambda p: q(12, 5),
    median=lambda p: p.mu - p.beta * ln(LN2), quantile=lambda p, u: p.mu - p.beta * ln(-ln(u)), modes=[('unique', lambda p: TRUE, lambda p: [p.mu])], ent=lambda p: ln(p.beta) + GAM + 1)
Dist('InvGamma', 'inverse_gamma', 'alpha:pos beta:pos', lo=lambda p: ZERO, scale=lambda p: p.beta / p.alpha, cdf=lambda p, x: 1 - P_(p.alpha, p.beta / x), pdf=lambda p, x: pw(p.beta, p.alpha) * pw(x, -p.alpha - 1) * ex(-p.beta / x) / Gm(p.alpha),
    mean=(lambda p: p.beta / (p.alpha - 1), lambda p: lt(ONE, p.alpha)), var=(lambda p: p.beta * p.beta / ((p.alpha - 1) * (p.alpha - 1) * (p.alpha - 2)), lambda p: lt(num(2), p.alpha)),
    skew=(lambda p: 4 * sq(p.alpha - 2) / (p.alpha - 3), lambda p: lt(num(3), p.alpha)), ek=(lambda p: 6 * (5 * p.alpha - 11) / ((p.alpha - 3) * (p.alpha - 4)), lambda p: lt(num(4), p.alpha)),
    modes=[('unique', lambda p: TRUE, lambda p: [p.beta / (p.alpha + 1)])], ent=lambda p: p.alpha + ln(p.beta) + lG(p.alpha) - (1 + p.alpha) * psi(p.alpha))
Dist('InvNormal', 'inverse_normal', 'mu:pos lam:pos', lo=lambda p: ZERO, scale=lambda p: p.mu,
    cdf=lambda p, x: Phi(sq(p.lam / x) * (x / p.mu - 1)) + ex(2 * p.lam / p.mu) * Phi(-sq(p.lam / x) * (x / p.mu + 1)), pdf=lambda p, x: sq(p.lam / (2 * PI * x * x * x)) * ex(-p.lam * (x - p.mu) * (x - p.mu) / (2 * p.mu * p.mu * x)),
    mean=lambda p: p.mu, var=lambda p: p.mu * p.mu * p.mu / p.lam, skew=lambda p: 3 * sq(p.mu / p.lam), ek=lambda p: 15 * p.mu / p.lam,
    modes=[('unique', lambda p: TRUE, lambda p: [p.mu * (sq(1 + 9 * p.mu * p.mu / (4 * p.lam * p.lam)) - 3 * p.mu / (2 * p.lam))])],
    ent=lambda p: (ln(2 * PI * E) + 3 * ln(p.mu) - ln(p.lam)) / 2 + q(3, 2) * ex(2 * p.lam / p.mu) * mk('ei', -2 * p.lam / p.mu))
def km(p, n): return p.b * Be(1 + n / p.a, p.b)
Dist('Kumaraswamy', 'kumaraswamy', 'a:pos b:pos', ctor='{ let d: Kumaraswamy = Params::new_unchecked(a, b).into(); d }', lo=lambda p: ZERO, hi=lambda p: ONE,
    cdf=lambda p, x: 1 - pw(1 - pw(x, p.a), p.b), pdf=lambda p, x: p.a * p.b * pw(x, p.a - 1) * pw(1 - pw(x, p.a), p.b - 1), mean=lambda p: km(p, 1), var=lambda p: km(p, 2) - km(p, 1) * km(p, 1),
    skew=lambda p: std3(km(p, 1), km(p, 2), km(p, 3)), median=lambda p: pw(1 - pw(2, -1 / p.b), 1 / p.a), quantile=lambda p, u: pw(1 - pw(1 - u, 1 / p.b), 1 / p.a),
    modes=[('unique', lambda p: and_(le(ONE, p.a), le(ONE, p.b), not_(and_(eq(p.a, ONE), eq(p.b, ONE)))), lambda p: [pw((p.a - 1) / (p.a * p.b - 1), 1 / p.a)]), ('some', lambda p: and_(lt(p.a, ONE), lt(p.b, ONE)), lambda p: [ZERO, ONE]),
           ('unique', lambda p: and_(lt(p.a, ONE), le(ONE, p.b)), lambda p: [ZERO]), ('unique', lambda p: and_(le(ONE, p.a), lt(p.b, ONE)), lambda p: [ONE]), ('any', lambda p: and_(eq(p.a, ONE), eq(p.b, ONE)), None)],
    ent=lambda p: 1 - 1 / p.b + (1 - 1 / p.a) * (psi(p.b + 1) + GAM) - ln(p.a * p.b))
Dist('Laplace', 'laplace', 'mu:any b:pos', loc=lambda p: p.mu, scale=lambda p: p.b, cdf=lambda p, x: ite(le(x, p.mu), ex((x - p.mu) / p.b) / 2, 1 - ex((p.mu - x) / p.b) / 2), pdf=lambda p, x: ex(-mk('abs', x - p.mu) / p.b) / (2 * p.b),
    mean=lambda p: p.mu, var=lambda p: 2 * p.b * p.b, skew=lambda p: ZERO, ek=lambda p: num(3), median=lambda p: p.mu, modes=[('unique', lambda p: TRUE, lambda p: [p.mu])], ent=lambda p: ln(2 * p.b * E))
Dist('Levy', 'levy', 'mu:any c:pos', lo=lambda p: p.mu, scale=lambda p: p.c, cdf=lambda p, x: erfc(sq(p.c / (2 * (x - p.mu)))), pdf=lambda p, x: sq(p.c / (2 * PI)) * ex(-p.c / (2 * (x - p.mu))) / ((x - p.mu) * sq(x - p.mu)),
    inf_mean=lambda p: TRUE, modes=[('unique', lambda p: TRUE, lambda p: [p.mu + p.c / 3])], ent=lambda p: (1 + 3 * GAM + ln(16 * PI * p.c * p.c)) / 2)
Dist('Logistic', 'logistic', 'mu:any s:pos', loc=lambda p: p.mu, scale=lambda p: p.s, cdf=lambda p, x: 1 / (1 + ex(-z(p, x))), pdf=lambda p, x: ex(-z(p, x)) / (p.s * (1 + ex(-z(p, x))) * (1 + ex(-z(p, x)))),
    mean=lambda p: p.mu, var=lambda p: p.s * p.s * PI * PI / 3, skew=lambda p: ZERO, ek=lambda p: q(6, 5), median=lambda p: p.mu, quantile=lambda p, u: p.mu + p.s * ln(u / (1 - u)), modes=[('unique', lambda p: TRUE, lambda p: [p.mu])], ent=lambda p: ln(p.s) + 2)
def lns(p): return sq(p.v)
Dist('LogNormal', 'lognormal', 'mu:any v:pos', gens={'v': lambda r: math.exp(r.uniform(-2, 0.7)), 'mu': lambda r: r.uniform(-1.5, 1.5)}, lo=lambda p: ZERO, scale=lambda p: ex(p.mu), cdf=lambda p, x: Phi((ln(x) - p.mu) / lns(p)), pdf=lambda p, x: phi((ln(x) - p.mu) / lns(p)) / (x * lns(p)),
    mean=lambda p: ex(p.mu + p.v / 2), var=lambda p: (ex(p.v) - 1) * ex(2 * p.mu + p.v), skew=lambda p: (ex(p.v) + 2) * sq(ex(p.v) - 1), ek=lambda p: ex(4 * p.v) + 2 * ex(3 * p.v) + 3 * ex(2 * p.v) - 6,
    median=lambda p: ex(p.mu), quantile=lambda p, u: ex(p.mu + lns(p) * mk('norminv', u)), modes=[('unique', lambda p: TRUE, lambda p: [ex(p.mu - p.v)])], ent=lambda p: p.mu + q(1, 2) + ln(2 * PI * p.v) / 2, fisher=lambda p: [[1 / p.v, ZERO], [ZERO, 1 / (2 * p.v * p.v)]])
Dist('Normal', 'normal', 'mu:any v:pos', loc=lambda p: p.mu, scale=lns, cdf=lambda p, x: Phi((x - p.mu) / lns(p)), pdf=lambda p, x: phi((x - p.mu) / lns(p)) / lns(p),
    mean=lambda p: p.mu, var=lambda p: p.v, skew=lambda p: ZERO, ek=lambda p: ZERO, median=lambda p: p.mu, quantile=lambda p, u: p.mu + lns(p) * mk('norminv', u), modes=[('unique', lambda p: TRUE, lambda p: [p.mu])],
    ent=lambda p: ln(2 * PI * E * p.v) / 2, fisher=lambda p: [[1 / p.v, ZERO], [ZERO, 1 / (2 * p.v * p.v)]])
Dist('Pareto', 'pareto', 'x_m:pos alpha:pos', lo=lambda p: p.x_m, scale=lambda p: p.x_m, cdf=lambda p, x: 1 - pw(p.x_m / x, p.alpha), pdf=lambda p, x: p.alpha * pw(p.x_m, p.alpha) / pw(x, p.alpha + 1),
    mean=(lambda p: p.alpha * p.x_m / (p.alpha - 1), lambda p: lt(ONE, p.alpha)), var=(lambda p: p.x_m * p.x_m * p.alpha / ((p.alpha - 1) * (p.alpha - 1) * (p.alpha - 2)), lambda p: lt(num(2), p.alpha)),
    skew=(lambda p: 2 * (1 + p.alpha) / (p.alpha - 3) * sq((p.alpha - 2) / p.alpha), lambda p: lt(num(3), p.alpha)), ek=(lambda p: 6 * (p.alpha * p.alpha * p.alpha + p.alpha * p.alpha - 6 * p.alpha - 2) / (p.alpha * (p.alpha - 3) * (p.alpha - 4)), lambda p: lt(num(4), p.alpha)),
    inf_mean=lambda p: le(p.alpha, ONE), inf_var=lambda p: and_(lt(ONE, p.alpha), le(p.alpha, num(2))), median=lambda p: p.x_m * pw(2, 1 / p.alpha), quantile=lambda p, u: p.x_m * pw(1 - u, -1 / p.alpha), modes=[('unique', lambda p: TRUE, lambda p: [p.x_m])],
    ent=lambda p: ln(p.x_m / p.alpha) + 1 + 1 / p.alpha, fisher=lambda p: [[p.alpha / (p.x_m * p.x_m), -1 / p.x_m], [-1 / p.x_m, 1 / (p.alpha * p.alpha)]])
Dist('Rayleigh', 'rayleigh', 'sigma:pos', lo=lambda p: ZERO, scale=lambda p: p.sigma, cdf=lambda p, x: 1 - ex(-x * x / (2 * p.sigma * p.sigma)), pdf=lambda p, x: x / (p.sigma * p.sigma) * ex(-x * x / (2 * p.sigma * p.sigma)),
    mean=lambda p: p.sigma * sq(PI / 2), var=lambda p: (4 - PI) / 2 * p.sigma * p.sigma, skew=lambda p: 2 * (PI - 3) * sq(PI) / ((4 - PI) * sq(4 - PI)), ek=lambda p: -(6 * PI * PI - 24 * PI + 16) / ((4 - PI) * (4 - PI)),
    median=lambda p: p.sigma * sq(2 * LN2), quantile=lambda p, u: p.sigma * sq(-2 * ln(1 - u)), modes=[('unique', lambda p: TRUE, lambda p: [p.sigma])], ent=lambda p: 1 + ln(p.sigma / R2) + GAM / 2)
Dist('StudentT', 'student_t', 'nu:pos', cdf=lambda p, x: ite(lt(x, ZERO), I_(p.nu / 2, q(1, 2), p.nu / (p.nu + x * x)) / 2, 1 - I_(p.nu / 2, q(1, 2), p.nu / (p.nu + x * x)) / 2),
    pdf=lambda p, x: Gm((p.nu + 1) / 2) / (sq(PI * p.nu) * Gm(p.nu / 2)) * pw(1 + x * x / p.nu, -(p.nu + 1) / 2),
    mean=(lambda p: ZERO, lambda p: lt(ONE, p.nu)), var=(lambda p: p.nu / (p.nu - 2), lambda p: lt(num(2), p.nu)), skew=(lambda p: ZERO, lambda p: lt(num(3), p.nu)), ek=(lambda p: 6 / (p.nu - 4), lambda p: lt(num(4), p.nu)),
    median=lambda p: ZERO, modes=[('unique', lambda p: TRUE, lambda p: [ZERO])], ent=lambda p: (p.nu + 1) / 2 * (psi((p.nu + 1) / 2) - psi(p.nu / 2)) + ln(p.nu) / 2 + lB(p.nu / 2, q(1, 2)))
def tb(p): return p.a + p.a2c + p.c2b
def tc(p): return p.a + p.a2c
def tw(p): return p.a2c + p.c2b
Dist('Triangular', 'triangular', 'a:any a2c:pos c2b:pos', lo=lambda p: p.a, hi=tb, cdf=lambda p, x: ite(le(x, tc(p)), (x - p.a) * (x - p.a) / (tw(p) * p.a2c), 1 - (tb(p) - x) * (tb(p) - x) / (tw(p) * p.c2b)),
    pdf=lambda p, x: ite(le(x, tc(p)), 2 * (x - p.a) / (tw(p) * p.a2c), 2 * (tb(p) - x) / (tw(p) * p.c2b)), mean=lambda p: (p.a + tb(p) + tc(p)) / 3, var=lambda p: (p.a * p.a + tb(p) * tb(p) + tc(p) * tc(p) - p.a * tb(p) - p.a * tc(p) - tb(p) * tc(p)) / 18,
    skew=lambda p: R2 * (p.a + tb(p) - 2 * tc(p)) * (2 * p.a - tb(p) - tc(p)) * (p.a - 2 * tb(p) + tc(p)) / (5 * tvar(p) * sq(tvar(p))), ek=lambda p: q(-3, 5),
    median=lambda p: ite(le(p.c2b, p.a2c), p.a + sq(tw(p) * p.a2c / 2), tb(p) - sq(tw(p) * p.c2b / 2)), modes=[('unique', lambda p: TRUE, lambda p: [tc(p)])], ent=lambda p: q(1, 2) + ln(tw(p) / 2))
def tvar(p): return p.a * p.a + tb(p) * tb(p) + tc(p) * tc(p) - p.a * tb(p) - p.a * tc(p) - tb(p) * tc(p)
Dist('Uniform', 'uniform', 'lb:any w:pos', ctor='Uniform::<f64>::new_unchecked(lb, w)', lo=lambda p: p.lb, hi=lambda p: p.lb + p.w, cdf=lambda p, x: (x - p.lb) / p.w, pdf=lambda p, x: 1 / p.w, mean=lambda p: p.lb + p.w / 2, var=lambda p: p.w * p.w / 12, skew=lambda p: ZERO, ek=lambda p: q(-6, 5),
    median=lambda p: p.lb + p.w / 2, quantile=lambda p, u: p.lb + u * p.w, ent=lambda p: ln(p.w))
def wg(p, k): return Gm(1 + k / p.k)
Dist('Weibull', 'weibull', 'lam:pos k:pos', ctor='{ let d: Weibull = Params::new_unchecked(lam, k).into(); d }', lo=lambda p: ZERO, scale=lambda p: p.lam, cdf=lambda p, x: 1 - ex(-pw(x / p.lam, p.k)), pdf=lambda p, x: p.k / p.lam * pw(x / p.lam, p.k - 1) * ex(-pw(x / p.lam, p.k)),
    mean=lambda p: p.lam * wg(p, 1), var=lambda p: p.lam * p.lam * (wg(p, 2) - wg(p, 1) * wg(p, 1)), skew=lambda p: std3(wg(p, 1), wg(p, 2), wg(p, 3)), ek=lambda p: std4(wg(p, 1), wg(p, 2), wg(p, 3), wg(p, 4)),
    median=lambda p: p.lam * pw(LN2, 1 / p.k), quantile=lambda p, u: p.lam * pw(-ln(1 - u), 1 / p.k), modes=[('unique', lambda p: lt(ONE, p.k), lambda p: [p.lam * pw((p.k - 1) / p.k, 1 / p.k)]), ('unique', lambda p: le(p.k, ONE), lambda p: [ZERO])],
    ent=lambda p: GAM * (1 - 1 / p.k) + ln(p.lam / p.k) + 1)

# ------------------------------------------------------------------ discrete
def isum(lo, hi, f):
    i = fresh('i', 'I'); return sum_(i, lo, hi, f(i))
def lC(n, k): return lG(n + 1) - lG(k + 1) - lG(n - k + 1)
def kint(rng, d, v):
    return None
def D_(*a, **kw): return Dist(*a, discrete=True, **kw)
def b2r(x): return ite(x, ONE, ZERO)
inner = lambda p: and_(lt(ZERO, p.p), lt(p.p, ONE))
D_('Bernoulli', 'bernoulli', 'p:prob1', xt='bool', ctor='Bernoulli::new_unchecked(p)', points=lambda r, v: r.random() < .5,
   pmf=lambda p, x: ite(x, p.p, 1 - p.p), dcdf=lambda p, x: ite(x, ONE, 1 - p.p), insupp=lambda p, x: TRUE,
   mean=lambda p: p.p, var=lambda p: p.p * (1 - p.p), skew=(lambda p: (1 - 2 * p.p) / sq(p.p * (1 - p.p)), inner), ek=(lambda p: 1 / (p.p * (1 - p.p)) - 6, inner),
   modes=[('unique', lambda p: lt(p.p, q(1, 2)), lambda p: [FALSE]), ('unique', lambda p: lt(q(1, 2), p.p), lambda p: [TRUE]), ('some', lambda p: eq(p.p, q(1, 2)), lambda p: [FALSE, TRUE])],
   ent=lambda p: ite(inner(p), -p.p * ln(p.p) - (1 - p.p) * ln(1 - p.p), ZERO), fisher=(lambda p: [[1 / (p.p * (1 - p.p))]], inner))
def xlny(x, y): return ite(eq(x, ZERO), ZERO, x * ln(y))
def binp(p, k): return pw(p.p, k) * pw(1 - p.p, p.n - k)
D_('Binomial', 'binomial', 'n:cnt1 p:prob', xt='usize', ctor='Binomial::new_unchecked(n, Probability::new_unchecked(p))', points=lambda r, v: r.randint(0, v['n'] + (3 if r.random() < .3 else 0)) if r.random() < .9 else r.choice([v['n'], v['n'] + 1, v['n'] + 1000]),
   pmf=lambda p, x: ite(lt(p.n, x), ZERO, ex(lC(p.n, x)) * binp(p, x)), dcdf=lambda p, x: ite(le(p.n, x), ONE, I_(p.n - x, x + 1, 1 - p.p)), insupp=lambda p, x: le(x, p.n),
   modes=[('max', lambda p: TRUE, lambda p, x, j: holds('mode %d maximises the mass: (n+1)p - 1 <= k <= (n+1)p' % j, and_(le((p.n + 1) * p.p - 1, toreal(x)), le(toreal(x), (p.n + 1) * p.p))))],
   mean=lambda p: p.n * p.p, var=lambda p: p.n * p.p * (1 - p.p), skew=(lambda p: (1 - 2 * p.p) / sq(p.n * p.p * (1 - p.p)), inner), ek=(lambda p: (1 - 6 * p.p * (1 - p.p)) / (p.n * p.p * (1 - p.p)), inner),
   ent=(lambda p: -isum(ZERO, p.n + 1, lambda i: ex(lC(p.n, toreal(i))) * binp(p, toreal(i)) * (lC(p.n, toreal(i)) + toreal(i) * ln(p.p) + (p.n - toreal(i)) * ln(1 - p.p))), inner), fisher=(lambda p: [[p.n / (p.p * (1 - p.p))]], inner))
bpts = lambda r, v: r.randint(0, v['n'] + (3 if r.random() < .3 else 0))
for p_, at_ in (('0.0', lambda p: ZERO), ('1.0', lambda p: p.n)):
    D_('Binomial', 'binomial', 'n:cnt1', key='binomial_p' + p_[0], xt='usize', ctor='Binomial::new_unchecked(n, Probability::new_unchecked(%s))' % p_, points=bpts, edge=True,
       pmf=lambda p, x, at_=at_: ite(eq(x, at_(p)), ONE, ZERO), dcdf=lambda p, x, at_=at_: ite(lt(x, at_(p)), ZERO, ONE), insupp=lambda p, x, at_=at_: eq(x, at_(p)), mean=at_, var=lambda p: ZERO, modes=[('unique', lambda p: TRUE, lambda p, at_=at_: [at_(p)])])
def bbk(p):
    s = p.alpha + p.beta; n = p.n; ab = p.alpha * p.beta
    return s * s * (1 + s) / (n * ab * (s + 2) * (s + 3) * (s + n)) * (s * (s - 1 + 6 * n) + 3 * ab * (n - 2) + 6 * n * n - 3 * ab * n * (6 - n) / s - 18 * ab * n * n / (s * s))
D_('BetaBinomial', 'beta_binomial', 'n:cnt1 alpha:pos beta:pos', xt='usize', points=lambda r, v: r.randint(0, v['n'] + (3 if r.random() < .3 else 0)),
   pmf=lambda p, x: ite(lt(p.n, x), ZERO, ex(lC(p.n, x) + lB(x + p.alpha, p.n - x + p.beta) - lB(p.alpha, p.beta))),
   dcdf=lambda p, x: ite(le(p.n, x), ONE, isum(ZERO, x + 1, lambda i: ex(lC(p.n, toreal(i)) + lB(toreal(i) + p.alpha, p.n - toreal(i) + p.beta) - lB(p.alpha, p.beta)))), insupp=lambda p, x: le(x, p.n),
   mean=lambda p: p.n * p.alpha / (p.alpha + p.beta), var=lambda p: p.n * p.alpha * p.beta * (p.alpha + p.beta + p.n) / ((p.alpha + p.beta) * (p.alpha + p.beta) * (p.alpha + p.beta + 1)),
   skew=lambda p: (p.alpha + p.beta + 2 * p.n) * (p.beta - p.alpha) / (p.alpha + p.beta + 2) * sq((1 + p.alpha + p.beta) / (p.n * p.alpha * p.beta * (p.n + p.alpha + p.beta))), ek=lambda p: bbk(p) - 3)
gp = lambda p: and_(lt(ZERO, p.p), lt(p.p, ONE))
D_('Geometric', 'geometric', 'p:prob1', xt='u64', ctor='Geometric::new_unchecked(p)', pre=lambda p: lt(ZERO, p.p), points=lambda r, v: r.choice([0, 1, 2, 1 << 31, 1 << 32, 5000000000]) if r.random() < .2 else r.randint(0, 60),
   gens={'p': lambda r: r.choice([1.0, 0.5, 0.25, 1e-3, 1e-10]) if r.random() < .3 else r.uniform(0.01, 0.99)},
   pmf=lambda p, x: p.p * pw(1 - p.p, x), dcdf=lambda p, x: 1 - pw(1 - p.p, x + 1), insupp=lambda p, x: TRUE,
   mean=lambda p: (1 - p.p) / p.p, var=lambda p: (1 - p.p) / (p.p * p.p), skew=(lambda p: (2 - p.p) / sq(1 - p.p), gp), ek=(lambda p: 6 + p.p * p.p / (1 - p.p), gp), modes=[('unique', lambda p: TRUE, lambda p: [ZERO])],
   ent=lambda p: ite(lt(p.p, ONE), (-(1 - p.p) * ln(1 - p.p) - p.p * ln(p.p)) / p.p, ZERO))
D_('Poisson', 'poisson', 'lam:pos', xt='u64', points=lambda r, v: r.choice([0, 1, 2, 3, 300, 1000]) if r.random() < .3 else r.randint(0, 30),
   pmf=lambda p, x: ex(x * ln(p.lam) - p.lam - lG(x + 1)), dcdf=lambda p, x: 1 - P_(x + 1, p.lam), insupp=lambda p, x: TRUE,
   mean=lambda p: p.lam, var=lambda p: p.lam, skew=lambda p: 1 / sq(p.lam), ek=lambda p: 1 / p.lam, modes=[('max', lambda p: TRUE, lambda p, x, j: holds('mode %d maximises the mass: lambda - 1 <= k <= lambda' % j, and_(le(p.lam - 1, toreal(x)), le(toreal(x), p.lam))))],
   ent=lambda p: p.lam * (1 - ln(p.lam)) + ex(-p.lam) * isum(ZERO, num(260), lambda i: ex(toreal(i) * ln(p.lam) - lG(toreal(i) + 1)) * lG(toreal(i) + 1)), fisher=lambda p: [[1 / p.lam]])
uiw = lambda p: p.w + 1
D_('Uniform', 'uniform', 'lb:int w:wid', key='uniform_i64', xt='i64', ctor='Uniform::<i64>::new_unchecked(lb, w)', points=lambda r, v: v['lb'] + r.randint(-2, v['w'] + 2),
   pmf=lambda p, x: ite(or_(lt(x, p.lb), lt(p.lb + p.w, x)), ZERO, 1 / uiw(p)), dcdf=lambda p, x: ite(lt(x, p.lb), ZERO, ite(le(p.lb + p.w, x), ONE, (x - p.lb + 1) / uiw(p))), insupp=lambda p, x: and_(le(p.lb, x), le(x, p.lb + p.w)),
   mean=lambda p: p.lb + p.w / 2, var=lambda p: (uiw(p) * uiw(p) - 1) / 12, skew=lambda p: ZERO, ek=lambda p: -6 * (uiw(p) * uiw(p) + 1) / (5 * (uiw(p) * uiw(p) - 1)), ent=lambda p: ln(uiw(p)))
D_('Degenerate', 'degenerate', 'k:int', key='degenerate_i64', xt='i64', ctor='Degenerate::<i64>::new(k)', points=lambda r, v: v['k'] + r.randint(-2, 2),
   pmf=lambda p, x: ite(eq(x, p.k), ONE, ZERO), dcdf=lambda p, x: ite(lt(x, p.k), ZERO, ONE), insupp=lambda p, x: eq(x, p.k),
   mean=lambda p: p.k, var=lambda p: ZERO, modes=[('unique', lambda p: TRUE, lambda p: [p.k])], ent=lambda p: ZERO)
D_('Degenerate', 'degenerate', 'k:any', key='degenerate_f64', xt='f64', ctor='Degenerate::<f64>::new(k)', points=lambda r, v: v['k'] + r.choice([0.0, 0.0, 1e-9, -1e-9, r.gauss(0, 1)]),
   pmf=lambda p, x: ite(eq(x, p.k), ONE, ZERO), dcdf=lambda p, x: ite(lt(x, p.k), ZERO, ONE), insupp=lambda p, x: eq(x, p.k),
   mean=lambda p: p.k, var=lambda p: ZERO, modes=[('unique', lambda p: TRUE, lambda p: [p.k])], ent=lambda p: ZERO)
CONT = [k for k, d in D.items() if not d.discrete]
DISC = [k for k, d in D.items() if d.discrete]
def sub_(x): return x
def with_cond(v):
    """(value function, existence condition)"""
    return v if isinstance(v, tuple) else (v, lambda p: TRUE)
