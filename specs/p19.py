"""P19: quantiles and medians."""
from uni import *
import check
HAVE_Q = ['cauchy', 'exponential', 'normal', 'uniform']
def U(rng, v): return {'u': rng.choice([0.5, 0.25, 0.75, 0.1, 0.9, 1e-3, 0.999]) if rng.random() < .3 else rng.uniform(1e-4, 1 - 1e-4)}
def U01(rng, v): return {'u': float(rng.randrange(2))} if rng.random() < .1 else U(rng, v)
UOK = lambda p, a: and_(lt(ZERO, a.u), lt(a.u, ONE))
def contracts(keys=None):
    cs = []
    for k in keys or CONT:
        d = D[k]
        if d.median and k not in ('beta',):
            cs.append(contract(d, 'median', 'd.median()', 'f64', lambda p, a, r, d=d: [eqg('the one-half quantile', r, d.median(p))], desc='median'))
            cs[-1].abs = 1.0
            cs.append(contract(d, 'cdf_of_median', 'd.cdf(&d.median()).unwrap()', 'f64', lambda p, a, r: [eqg('the CDF at the median is one half', r, q(1, 2))], desc='CDF at the median'))
        if k in HAVE_Q:
            P = 'let p = Probability::new_unchecked(u);'
            cs.append(contract(d, 'quantile', P + ' d.quantile(p)', 'f64', lambda p, a, r, d=d: [eqg('the inverse of the CDF', r, d.quantile(p, a.u))], args='u: f64', pre=UOK, gen=U, desc='quantile function'))
            cs[-1].abs = 1.0; cs[-1].tol = 1e-6
            cs.append(contract(d, 'cdf_of_quantile', P + ' d.cdf(&d.quantile(p)).unwrap()', 'f64', lambda p, a, r, d=d: [eqg('the CDF at the quantile of p is p', r, a.u)], args='u: f64', pre=UOK, gen=U, desc='CDF at the quantile'))
            cs.append(contract(d, 'cquantile', P + ' d.cquantile(p)', 'f64', lambda p, a, r, d=d: [eqg('the quantile of the complement', r, d.quantile(p, 1 - a.u))], args='u: f64', pre=UOK, gen=U, desc='complementary quantile'))
            cs[-1].abs = 1.0; cs[-1].tol = 1e-6
            Q1 = lambda p, d=d: d.quantile(p, q(1, 4)); Q3 = lambda p, d=d: d.quantile(p, q(3, 4))
            cs.append(contract(d, 'quartiles', '(d.lower_quartile(), d.upper_quartile(), d.iqr(), d.lower_fence(), d.upper_fence())', '(f64, f64, f64, f64, f64)',
                lambda p, a, r, Q1=Q1, Q3=Q3: [eqg('lower quartile', r.f[0], Q1(p)), eqg('upper quartile', r.f[1], Q3(p)), eqg('inter-quartile range', r.f[2], Q3(p) - Q1(p)),
                    eqg('lower fence', r.f[3], Q1(p) - q(3, 2) * (Q3(p) - Q1(p))), eqg('upper fence', r.f[4], Q3(p) + q(3, 2) * (Q3(p) - Q1(p)))], desc='quartiles, inter-quartile range and fences'))
            cs[-1].abs = 1.0; cs[-1].tol = 1e-6
    if keys is None or 'beta' in keys:
        d = D['beta']
        for nm, cnd, m in (('equal', lambda p: eq(p.alpha, p.beta), lambda p: q(1, 2)), ('alpha_one', lambda p: and_(eq(p.alpha, ONE), not_(near(p.beta, p.alpha))), lambda p: 1 - pw(2, -1 / p.beta)),
                           ('beta_one', lambda p: and_(eq(p.beta, ONE), not_(near(p.beta, p.alpha))), lambda p: pw(2, -1 / p.alpha))):
            c = contract(d, 'median.' + nm, 'd.median()', 'f64', lambda p, a, r, m=m: [eqg('the one-half quantile', r, m(p))], pre=cnd, desc='median in a closed-form case')
            c.gen = (lambda nm: lambda rng: (lambda v: {'alpha': 1.0 if nm == 'alpha_one' else v[0], 'beta': v[0] if nm == 'equal' else 1.0 if nm == 'beta_one' else v[1]})((posv(rng), posv(rng))))(nm)
            cs.append(c)
            c = contract(d, 'cdf_of_median.' + nm, 'd.cdf(&d.median()).unwrap()', 'f64', lambda p, a, r: [eqg('the CDF at the median is one half', r, q(1, 2))], pre=cnd, gen=None, desc='CDF at the median'); c.gen = cs[-1].gen; cs.append(c)
        for x, y in ((3, 2), (2, 3)):
            c = contract(d, 'cdf_of_median.%d_%d' % (x, y), 'd.cdf(&d.median()).unwrap()', 'f64', lambda p, a, r: [holds('the CDF at the median is one half, to 1e-12', and_(lt(r - q(1, 2), q(1, 10**12)), lt(q(1, 2) - r, q(1, 10**12))))], pre=lambda p, x=x, y=y: and_(eq(p.alpha, num(x)), eq(p.beta, num(y))), desc='CDF at the median')
            c.gen = lambda rng, x=x, y=y: {'alpha': float(x), 'beta': float(y)}; c.nrand = 3; cs.append(c)
    return cs
def approximate(keys=None):
    """medians given by an approximation: within the known enclosure of the median"""
    cs = []
    wh = lambda k, r: [holds('not below k - 2/3', le(k - q(2, 3), r)), holds('not above k - 2/3 + 4/(27 k)', le(r, k - q(2, 3) + 4 / (27 * k) + q(1, 10**9) * k))]
    if not keys or 'chi_sq' in keys: cs.append(contract(D['chi_sq'], 'median', 'd.median()', 'f64', lambda p, a, r: wh(p.k, r), desc='the median to the accuracy of the Wilson-Hilferty approximation'))
    if not keys or 'chi' in keys: cs.append(contract(D['chi'], 'median', 'd.median()', 'f64', lambda p, a, r: [step('the base is positive', lt(ZERO, 1 - q(2, 9) / p.k)), holds('not negative', le(ZERO, r)), step('the square', le(r * r, p.k - q(2, 3) + 4 / (27 * p.k) - q(8, 729) / (p.k * p.k) + q(1, 10**10) * p.k))] + wh(p.k, r * r), desc='the median to the accuracy of the Wilson-Hilferty approximation'))
    if not keys or 'beta' in keys:
        # between the mode and the mean, whichever way the distribution leans (Groeneveld and Meeden 1977), where no closed-form case applies
        G = q(1, 10**6); S = q(1, 10**9)
        off = lambda p: and_(lt(ONE + G, p.alpha), lt(ONE + G, p.beta), not_(and_(eq(p.alpha, num(3)), eq(p.beta, num(2)))), not_(and_(eq(p.alpha, num(2)), eq(p.beta, num(3)))), or_(le(p.alpha, num(3) - G), le(num(3) + G, p.alpha)), or_(le(p.alpha, num(2) - G), le(num(2) + G, p.alpha)))
        for nm, lean in (('left', lambda p: lt(p.beta + G, p.alpha)), ('right', lambda p: lt(p.alpha + G, p.beta))):
            def post(p, a, r, nm=nm):
                t = p.alpha + p.beta; m = lambda x, y: le(x, y + S * t) if nm == 'right' else le(y, x + S * t)
                return [holds('on the near side of the mode', m(p.alpha - 1, r * (t - 2))), holds('on the near side of the mean', m(r * t, p.alpha))]
            c = contract(D['beta'], 'median.between.' + nm, 'd.median()', 'f64', post, pre=lambda p, lean=lean: and_(off(p), lean(p)), desc='the median lies between the mode and the mean')
            c.gen = lambda rng, nm=nm: (lambda x, y: {'alpha': max(x, y) if nm == 'left' else min(x, y), 'beta': min(x, y) if nm == 'left' else max(x, y)})(1.01 + 2 * posv(rng), 1.02 + 3 * posv(rng))
            cs.append(c)
    return cs
EPS = q(1, 10**9)
def fl(x): return mk('floor', x)
def discrete(keys=None):
    """a point with at least the mass u at or below it and at most u below it (to 1e-9, as ties are decided by rounding)"""
    cs = []
    H = q(1, 2)
    def add(key, qty, expr, post, **kw):
        if keys and key not in keys: return
        c = contract(D[key], qty, expr, 'f64', post, **kw); cs.append(c); c.abs = 1.0; return c
    add('bernoulli', 'median', 'd.median()', lambda p, a, r: [eqg('the value carrying more mass, midway when there is none', r, ite(lt(p.p, H), ZERO, ite(lt(H, p.p), ONE, H)))], pre=lambda p: or_(eq(p.p, H), not_(near(p.p, H))), desc='median')
    # q^(k+1) through its logarithm; -ln 2 = ln(1/2)
    def geo(p, a, r):
        lq = ln(1 - p.p)
        return [holds('a whole number', eq(fl(r), r)), holds('not negative', le(ZERO, r)), holds('half the mass at or below: (k + 1) ln(1 - p) <= -ln 2', or_(le(q(1, 2), p.p), le((r + 1) * lq, -LN2 * (1 - EPS)))),
                holds('no smaller value has it: k ln(1 - p) >= -ln 2', or_(eq(r, ZERO), le(-LN2 * (1 + EPS), r * lq)))]
    add('geometric', 'median', 'd.median()', geo, desc='median')
    add('degenerate_i64', 'median', 'd.median()', lambda p, a, r: [eqg('the point', r, p.k)], desc='median')
    add('degenerate_f64', 'median', 'd.median()', lambda p, a, r: [eqg('the point', r, p.k)], desc='median')
    for key, k0 in (('binomial', lambda p: fl(p.n * p.p)), ('poisson', lambda p: ite(lt(ZERO, p.lam - LN2), mk('ceil', p.lam - LN2), ZERO))):
        d = D[key]
        # the median of a binomial distribution is the mean rounded down or up (Kaas and Buhrman 1980), that of a Poisson distribution lies in [lambda - ln 2, lambda + 1/3) (Choi 1994)
        h = lambda a, d=d, k0=k0: (lambda p, k: [or_(lt(k, ONE), le(d.dcdf(p, k - 1), H)), le(H, d.dcdf(p, k + 1))])(d.rec(a), k0(d.rec(a)))
        def post(p, a, r, d=d):
            return [holds('a whole number', eq(fl(r), r)), holds('at least half of the mass at or below', le(H - EPS, d.dcdf(p, r))), holds('at most half of the mass below', or_(lt(r, ONE), le(d.dcdf(p, r - 1), H + EPS)))]
        add(key, 'median', 'd.median()', post, hyps=h, pre=(lambda p: lt(p.lam, num(1 << 40))) if key == 'poisson' else None, desc='median')
    for n_ in ('binomial_p0', 'binomial_p1'):
        add(n_, 'median', 'd.median()', lambda p, a, r, d=D[n_]: [eqg('the only value', r, d.mean(p))], desc='median')
    w1 = lambda p: p.w + 1
    un = lambda p, r, u: [holds('within the support', and_(le(p.lb, r), le(r, p.lb + p.w))), holds('at least the required mass at or below', le(u * w1(p), fl(r) - p.lb + 1 + EPS * w1(p))), holds('at most the required mass strictly below', le(-fl(-r) - p.lb, u * w1(p) + EPS * w1(p)))]
    add('uniform_i64', 'median', 'd.median()', lambda p, a, r: [eqg('the centre of symmetry', r, p.lb + p.w / 2)], desc='median')
    P = 'let p = Probability::new_unchecked(u);'
    add('uniform_i64', 'quantile', P + ' d.quantile(p)', lambda p, a, r: [step('not below the bottom', le(ZERO, a.u * w1(p))), step('not above the top', le(a.u * w1(p), w1(p))), step('nor when rounded up', le(-fl(-(a.u * w1(p))), w1(p))), step('at least zero when rounded up', le(ZERO, -fl(-(a.u * w1(p)))))] + un(p, r, a.u), args='u: f64', pre=lambda p, a: and_(le(ZERO, a.u), le(a.u, ONE)), gen=U01, desc='quantile function')
    return cs
def near(x, y): return lt(mk('abs', x - y), q(1, 10**7))
def run(tier): check.main('P19', tier, contracts() + discrete() + approximate(), assumptions=['the median of a binomial distribution is its mean rounded down or up (Kaas and Buhrman 1980); that of a Poisson distribution lies between lambda - ln 2 and lambda + 1/3 (Choi 1994)', 'the median of a chi-squared distribution lies between k - 2/3 and k - 2/3 + 4/(27 k) (Wilson and Hilferty, to their accuracy); the median of a beta distribution with both parameters above one lies between its mode and its mean (Groeneveld and Meeden 1977)'])
