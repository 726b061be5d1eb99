"""P10: all ways of building a distribution agree and its parameters round-trip."""
from contract import *
import check, uni, p09, p13
from p09 import ROWS, uni_use, NORM, GN2, GNM, GML, GDIR, GMUL, GMIX, COMMON, fv, vec, rep
def same(names):
    def post(a, r):
        out = []
        for i, n in enumerate(names): out.append(eqg(n, r.f[i + 1], r.f[0]))
        return out
    return post
def seqs(a, r, names):
    return [g for i, n in enumerate(names) for g in [holds('%s: same shape' % n, lift(len(r.f[i + 1].e) == len(r.f[0].e)))] + [eqg('%s: entry %d' % (n, j), x, y) for j, (x, y) in enumerate(zip(r.f[i + 1].e, r.f[0].e))]]
def four(a, r, names=('the parameter set', 'its own parameters', 'the checked constructor')):
    if not is_ok(r): return [holds('valid parameters are accepted', FALSE)]
    return seqs(a, payload(r), names)
V4 = 'Result<(Vec<f64>, Vec<f64>, Vec<f64>, Vec<f64>), ()>'
def pos(rng): return math.exp(rng.uniform(-2, 2))
def valid_gen(R):
    def g(rng):
        v = {}
        for n, t, k, f in R.ps: v[n] = (rng.choice([0.0, 1.0, rng.random()]) if k == 'prob' else pos(rng) if k == 'pos' else rng.uniform(-3, 3)) if t == 'f64' else rng.randint(1, 30)
        return v
    return g
DEFAULTS = 'arcsine beta beta_prime cauchy erlang exponential folded_normal frechet gamma gumbel inverse_gamma kumaraswamy uniform'.split()
import p27
def contracts():
    cs = []
    for key, R in ROWS.items():
        T = R.new[:-5]
        P = 'Params::new_unchecked(%s)' % R.names
        if key in ('normal', 'lognormal'): P = 'crate::univariate::normal::Params { mu: crate::params::Loc(mu), Sigma: crate::normal::Covariance(%s) }' % R.ps[1][0]
        unc = T + '::new_unchecked(%s)' % R.names if R.hasnew else '{ let d: %s = %s.into(); d }' % (R.ty, P)
        chk = '%s(%s)' % (R.new, R.names) if R.hasnew else 'Params::new(%s).map(|p| -> %s { p.into() })' % (R.names, R.ty)
        TT = T.split('::')[0] + ('<f64>' if key == 'uniform' else '')
        src = 'pub fn p10_%s(%s) -> %s { let v0 = %s; let v1: %s = %s.into(); let v2: %s = v0.params().into(); match %s { Ok(v3) => Ok((fields(&v0), fields(&v1), fields(&v2), fields(&v3))), Err(_) => Err(()) } }' % (key, R.sig, V4, unc, TT, P, TT, chk)
        cs.append(Contract(key + '.routes', uni_use(key), src, four, pre=lambda a, R=R: and_(*[rk(t, k, getattr(a, n)) for n, t, k, f in R.ps]), gen=valid_gen(R), desc='%s: unchecked constructor, parameter set, own parameters and checked constructor build the same object' % R.ty))
        src = 'pub fn p10p_%s(%s) -> %s { let v0 = %s; let v1 = v0.params(); let v2 = v0.clone().into_params(); Ok((%s, %s)) }' % (key, R.sig, 'Result<(%s, %s), ()>' % (R.tup, R.tup), unc, R.get('v1'), R.get('v2'))
        cs.append(Contract(key + '.params', uni_use(key), src, lambda a, r, R=R: [eqg('%s %s' % (w, R.ps[i][0]), x, getattr(a, R.ps[i][0])) for w, t in zip(('params()', 'into_params()'), payload(r).f) for i, x in enumerate(t.f)],
            pre=lambda a, R=R: and_(*[rk(t, k, getattr(a, n)) for n, t, k, f in R.ps]), gen=valid_gen(R), desc='%s: the parameters handed back are the ones given' % R.ty))
        if key in DEFAULTS or key == 'folded_normal':
            if R.hasnew: body = 'let a = <%s>::default(); let p = a.params(); match %s(%s) { Ok(d) => Ok((fields(&a), fields(&d))), Err(_) => Err(()) }' % (T.split('::')[0] + ('<f64>' if key == 'uniform' else ''), R.new, ', '.join('p.' + f for n, t, k, f in R.ps))
            else: body = 'let a = <%s>::default(); let p = a.params(); match Params::new(%s) { Ok(q) => { let d: %s = q.into(); Ok((fields(&a), fields(&d))) } Err(_) => Err(()) }' % (R.ty, ', '.join('p.' + f for n, t, k, f in R.ps), R.ty)
            cs.append(Contract(key + '.default', uni_use(key), 'pub fn p10d_%s() -> Result<(Vec<f64>, Vec<f64>), ()> { %s }' % (key, body), lambda a, r: four(a, r, ('the checked constructor on its parameters',)), gen=lambda rng: {}, desc='%s: the default is a valid object' % R.ty, nrand=2))
    for c in cs: c.abs = 0      # numbers passed on, at every magnitude
    return cs
def rk(t, k, x):
    if k == 'pos': return lt(ZERO, x) if t == 'f64' else and_(lt(ZERO, x), lt(x, num(1 << 52)))
    if k == 'prob': return and_(le(ZERO, x), le(x, ONE))
    return TRUE if t == 'f64' else and_(lt(num(-(1 << 52)), x), lt(x, num(1 << 52)))
def extra():
    cs = []
    def C(cid, g, src, post, **kw): cs.append(Contract(cid, g, src, post, desc=kw.pop('desc', cid), **kw))
    B = ('d_binomial', 'use crate::univariate::binomial::*;\n' + COMMON)
    C('binomial.routes', B, 'pub fn p10_binomial(n: usize, p: f64) -> %s { let q = Probability::new_unchecked(p); let a = Binomial::new_unchecked(n, q); let b: Binomial = Params::new_unchecked(n, p).into(); let c: Binomial = a.params().into(); match Binomial::new(n, q) { Ok(d) => Ok((fields(&a), fields(&b), fields(&c), fields(&d))), Err(_) => Err(()) } }' % V4,
      four, pre=lambda a: and_(le(ZERO, a.p), le(a.p, ONE), lt(a.n, num(1 << 52))), gen=lambda rng: {'n': rng.randint(0, 30), 'p': rng.choice([0.0, 1.0, rng.random()])})
    C('binomial.params', B, 'pub fn p10p_binomial(n: usize, p: f64) -> (usize, f64) { let a = Binomial::new_unchecked(n, Probability::new_unchecked(p)); let q = a.params(); (q.n.0, q.p.unwrap()) }', lambda a, r: [eqg('n', r.f[0], a.n), eqg('p', r.f[1], a.p)],
      pre=lambda a: and_(le(ZERO, a.p), le(a.p, ONE)), gen=lambda rng: {'n': rng.randint(0, 30), 'p': rng.choice([0.0, 1.0, rng.random()])})
    U = ('d_uniform_i64', 'use crate::univariate::uniform::*;\n' + COMMON); ug = lambda rng: {'lb': rng.randint(-9, 9), 'w': rng.randint(1, 30)}; up = lambda a: and_(lt(ZERO, a.w), lt(a.w, num(1 << 52)), lt(num(-(1 << 52)), a.lb), lt(a.lb, num(1 << 52)))
    C('uniform_i64.routes', U, 'pub fn p10_ui(lb: i64, w: u64) -> %s { let a = Uniform::<i64>::new_unchecked(lb, w); let b: Uniform<i64> = Params::new_unchecked(lb, w as i64).into(); let c: Uniform<i64> = a.params().into(); match Uniform::<i64>::new(lb, w) { Ok(d) => Ok((fields(&a), fields(&b), fields(&c), fields(&d))), Err(_) => Err(()) } }' % V4, four, pre=up, gen=ug)
    C('uniform_i64.params', U, 'pub fn p10p_ui(lb: i64, w: u64) -> (i64, i64) { let p = Uniform::<i64>::new_unchecked(lb, w).params(); (p.lb.0, p.width.0) }', lambda a, r: [eqg('lb', r.f[0], a.lb), eqg('width', r.f[1], a.w)], pre=up, gen=ug)
    DG = ('d_degenerate', 'use crate::univariate::degenerate::*;\n' + COMMON)
    C('degenerate.routes', DG, 'pub fn p10_dg(k: i64) -> (i64, i64, i64) { let a = Degenerate::new(k); let b: Degenerate<i64> = a.params().into(); (a.k.0, a.params().0, b.k.0) }', lambda a, r: [eqg('(%d)' % i, x, a.k) for i, x in enumerate(r.f)], gen=lambda rng: {'k': rng.randint(-9, 9)})
    FN = uni_use('folded_normal')
    C('folded_normal.half_normal', FN, 'pub fn p10_fnh(s: f64) -> (Vec<f64>, Vec<f64>) { let a = FoldedNormal::new_unchecked(0.0, s); (fields(&a), fields(&FoldedNormal::half_normal(Scale(s)))) }', lambda a, r: seqs(a, r, ('half_normal',)), pre=lambda a: lt(ZERO, a.s), gen=lambda rng: {'s': pos(rng)})
    # --- quantities cached inside the object, as seen from outside
    for k, qs in (('bernoulli', 'ccdf0 var'), ('beta_binomial', 'mean var'), ('binomial', 'var'), ('geometric', 'var'), ('uniform', 'pdf'), ('uniform_i64', 'pmf')):
        d = uni.D[k]
        for q in qs.split():
            if q == 'mean': cs.append(uni.contract(d, 'cached.mean', 'd.mean()', 'f64', lambda p, a, r, d=d: [eqg('the mean implied by the parameters', r, d.mean(p))], fn='p10_mean'))
            if q == 'var': cs.append(uni.contract(d, 'cached.variance', 'd.variance()', 'f64', lambda p, a, r, d=d: [eqg('the variance implied by the parameters', r, d.var(p))], fn='p10_var'))
            if q == 'ccdf0': cs.append(uni.contract(d, 'cached.complement', 'd.pmf(&false).unwrap()', 'f64', lambda p, a, r: [eqg('the complement of the success probability', r, 1 - p.p)], fn='p10_q'))
            if q == 'pdf': cs.append(uni.contract(d, 'cached.density', 'd.pdf(&x)', 'f64', lambda p, a, r, d=d: [eqg('the density implied by the parameters', r, d.pdf(p, a.x))], x=True, inside=True, fn='p10_pdf'))
            if q == 'pmf': cs.append(uni.contract(d, 'cached.mass', 'd.pmf(&x).unwrap()', 'f64', lambda p, a, r, d=d: [eqg('the mass implied by the parameters', r, d.pmf(p, uni.toreal(a.x)))], x=True, pre=lambda p, a: and_(le(p.lb, uni.toreal(a.x)), le(uni.toreal(a.x), p.lb + p.w)), fn='p10_pmf'))
    # --- categorical, multinomial, Dirichlet
    sg = lambda rng, n: {'v': __import__('p16').simplex(rng, n)}
    on = lambda a: and_(lt(ZERO, a.N), all_(a.v, lambda x: and_(le(ZERO, x), le(x, ONE))), eq(seqsum(a.v), ONE))
    def three(a, r):
        if not is_ok(r): return [holds('valid parameters are accepted', FALSE)]
        return [eqg(n, x, a.v) for n, x in zip(('unchecked', 'from the parameter set', 'from its own parameters', 'checked'), payload(r).f)]
    R4 = 'Result<([f64; N], [f64; N], [f64; N], [f64; N]), ()>'
    CT = ('d_categorical', 'use crate::univariate::categorical::*;\n' + COMMON)
    C('categorical.routes', CT, 'pub fn p10_cat<const N: usize>(v: [f64; N]) -> %s { let a = Categorical::<N>::new_unchecked(v); let b: Categorical<N> = Params::<N>::new_unchecked(v).into(); let c: Categorical<N> = a.params().into(); match Categorical::<N>::new(v) { Ok(d) => Ok((a.params().ps.unwrap(), b.params().ps.unwrap(), c.params().ps.unwrap(), d.params().ps.unwrap())), Err(_) => Err(()) } }' % R4, three, pre=on, gen=sg)
    C('dirichlet.routes', GDIR, 'pub fn p10_dir<const N: usize>(v: [f64; N]) -> %s { let a = Dirichlet::<N>::new_unchecked(v); let b: Dirichlet<N> = Concentrations(v).into(); let c: Dirichlet<N> = a.params().into(); match Dirichlet::<N>::new(v) { Ok(d) => Ok((a.params().0, b.params().0, c.params().0, d.params().0)), Err(_) => Err(()) } }' % R4, three,
      pre=lambda a: and_(lt(ZERO, a.N), all_(a.v, lambda x: lt(ZERO, x))), gen=lambda rng, n: {'v': vecp(rng, n)})
    C('dirichlet.moments', GDIR, 'pub fn p10_dirm<const N: usize>(v: [f64; N]) -> Result<([f64; N], [f64; N], [f64; N], [f64; N]), ()> { let a = Dirichlet::<N>::new_unchecked(v); let b: Dirichlet<N> = Concentrations(v).into(); let c: Dirichlet<N> = a.params().into(); match Dirichlet::<N>::new(v) { Ok(d) => Ok((a.mean(), b.mean(), c.mean(), d.mean())), Err(_) => Err(()) } }',
      lambda a, r: [eqg(n, x, mean_dir(a)) for n, x in zip(('unchecked', 'from the parameter set', 'from its own parameters', 'checked'), payload(r).f)] if is_ok(r) else [holds('valid parameters are accepted', FALSE)],
      pre=lambda a: and_(lt(ZERO, a.N), all_(a.v, lambda x: lt(ZERO, x))), gen=lambda rng, n: {'v': vecp(rng, n)}, desc='Dirichlet: the normalised concentrations cached inside follow from the parameters')
    def mult(a, r):
        if not is_ok(r): return [holds('valid parameters are accepted', FALSE)]
        return [g for n, x in zip(('unchecked', 'from the parameter set', 'from its own parameters', 'checked'), payload(r).f) for g in (eqg(n + ': n', x.f[0], a.k), eqg(n + ': ps', x.f[1], a.v))]
    one = '(usize, [f64; N])'
    C('multinomial.routes', GMUL, 'pub fn p10_mul<const N: usize>(k: usize, v: [f64; N]) -> Result<(%s, %s, %s, %s), ()> { fn g<const N: usize>(m: &Multinomial<N>) -> (usize, [f64; N]) { let p = m.params(); (p.n.0, p.ps.unwrap()) } let a = Multinomial::<N>::new_unchecked(k, v); let b: Multinomial<N> = Params::<N>::new_unchecked(k, v).into(); let c: Multinomial<N> = a.params().into(); match Multinomial::<N>::new(k, v) { Ok(d) => Ok((g(&a), g(&b), g(&c), g(&d))), Err(_) => Err(()) } }' % (one, one, one, one), mult,
      pre=on, gen=lambda rng, n: dict(sg(rng, n), k=rng.randint(0, 9)))
    # --- the normal family
    p2 = lambda a: all_(a.s, lambda x: lt(ZERO, x)); g2 = lambda rng: {'mu': [rng.uniform(-3, 3) for _ in '12'], 's': [pos(rng), pos(rng)]}
    FV = lambda vs: '(%s)' % ', '.join('fields(&%s)' % v for v in vs)
    def routes(cid, g, args, names, exprs, pre, gen, chk=(), decl=''):
        vs = ['v%d' % i for i in range(len(exprs))]; n = len(exprs) + len(chk)
        body = decl + ' '.join('let %s = %s;' % (v, e) for v, e in zip(vs, exprs))
        for i, e in enumerate(chk): body += ' let c%d = match %s { Ok(d) => d, Err(_) => return Err(()) };' % (i, e); vs.append('c%d' % i)
        C(cid, g, 'pub fn p10_%s(%s) -> Result<(%s), ()> { %s Ok(%s) }' % (cid.replace('.', '_'), args, ', '.join(['Vec<f64>'] * n), body, FV(vs)), lambda a, r: four(a, r, names), pre=pre, gen=gen)
    routes('paired.routes', GN2, 'mu: [f64; 2], s: [f64; 2]', ('parameter set', 'own parameters', 'checked'), ['PairedNormal::new_unchecked(mu, s)', '{ let d: PairedNormal = PairedNormalParams { mu: Loc(mu), Sigma: Covariance(s) }.into(); d }', '{ let d: PairedNormal = v0.params().into(); d }'], p2, g2, ['PairedNormal::new(mu, s)'])
    routes('paired.isotropic', GN2, 'mu: [f64; 2], s: f64', ('isotropic_unchecked', 'isotropic'), ['PairedNormal::new_unchecked(mu, [s, s])', 'PairedNormal::isotropic_unchecked(mu, s)'], lambda a: lt(ZERO, a.s), lambda rng: {'mu': [1.0, rng.uniform(-3, 3)], 's': pos(rng)}, ['PairedNormal::isotropic(mu, s)'])
    routes('paired.standard', GN2, '', ('standard', 'default'), ['PairedNormal::new_unchecked([0.0, 0.0], [1.0, 1.0])', 'PairedNormal::standard()', 'PairedNormal::default()'], lambda a: TRUE, lambda rng: {})
    gb = lambda rng: dict(g2(rng), r=rng.uniform(-0.95, 0.95)); pb = lambda a: and_(p2(a), lt(num(-1), a.r), lt(a.r, ONE))
    routes('bivariate.routes', GN2, 'mu: [f64; 2], s: [f64; 2], r: f64', ('parameter set', 'own parameters', 'checked'), ['BvNormal::new_unchecked(mu, s, r)', '{ let d: BvNormal = BvNormalParams { mu: Loc(mu), Sigma: Covariance((s, r)) }.into(); d }', '{ let d: BvNormal = v0.params().into(); d }'], pb, gb, ['BvNormal::new(mu, s, r)'])
    routes('bivariate.independent', GN2, 'mu: [f64; 2], s: [f64; 2]', ('independent_unchecked', 'independent'), ['BvNormal::new_unchecked(mu, s, 0.0)', 'BvNormal::independent_unchecked(mu, s)'], p2, g2, ['BvNormal::independent(mu, s)'])
    routes('bivariate.isotropic', GN2, 'mu: [f64; 2], s: f64', ('isotropic_unchecked', 'isotropic'), ['BvNormal::new_unchecked(mu, [s, s], 0.0)', 'BvNormal::isotropic_unchecked(mu, s)'], lambda a: lt(ZERO, a.s), lambda rng: {'mu': [1.0, rng.uniform(-3, 3)], 's': pos(rng)}, ['BvNormal::isotropic(mu, s)'])
    routes('bivariate.standard', GN2, '', ('standard', 'default'), ['BvNormal::new_unchecked([0.0, 0.0], [1.0, 1.0], 0.0)', 'BvNormal::standard()', 'BvNormal::default()'], lambda a: TRUE, lambda rng: {})
    routes('normal.standard', uni_use('normal'), '', ('standard',), ['Normal::new_unchecked(0.0, 1.0)', 'Normal::standard()'], lambda a: TRUE, lambda rng: {})
    routes('lognormal.from_normal', uni_use('lognormal'), 'mu: f64, s: f64', ('from a normal',), ['LogNormal::new_unchecked(mu, s)', '{ let d: LogNormal = crate::univariate::normal::Normal::new_unchecked(mu, s).into(); d }'], lambda a: lt(ZERO, a.s), lambda rng: {'mu': rng.uniform(-2, 2), 's': pos(rng)})
    for c in cs: c.abs = 0      # numbers passed on, at every magnitude
    return cs + mv() + cached() + accessors()
def vecp(rng, n): return [pos(rng) for _ in range(n)]
def mean_dir(a):
    s = seqsum(a.v)
    return Seq(a.N, lambda i: mk('/', at(a.v, i), s), '') if a.N.op != 'num' else Arr([mk('/', x, s) for x in a.v.e])
def mv():
    cs = []
    ps = lambda a: and_(lt(ZERO, a.N), lt(ZERO, a.s)); pd = lambda a: and_(lt(ZERO, a.N), all_(a.s, lambda x: lt(ZERO, x)))
    gd = lambda rng, n: {'mu': [rng.uniform(-2, 2) for _ in range(n)], 's': vecp(rng, n), 'x': [rng.uniform(-2, 2) for _ in range(n)]}
    gi = lambda rng, n: dict(gd(rng, n), s=pos(rng)); gm = lambda rng, n: dict(gd(rng, n), s=p13.spd(rng, n))
    def post(full):
        def f(a, r):
            if not is_ok(r): return [holds('valid parameters are accepted', FALSE)]
            out = []
            t = payload(r).f
            for i, w in enumerate(t):
                if full: out += [eqg('route %d: mean parameter' % i, w.f[0], a.mu), eqg('route %d: covariance parameter' % i, w.f[1], a.s)]
                for j in range(2 if full else 0, len(w.f)): out.append(eqg('route %d: observable %d' % (i, j), w.f[j], t[0].f[j]))
            return out
        return f
    rho = lambda T, i: 'pub fn %s' % i
    # every route must give the same parameters and, through them, the same cached factor, determinant and precision
    for tag, S, T, unc, chk, pre, gen in (('diagonal', '[f64; N]', 'DiagonalNormal<N>', 'DiagonalNormal::<N>::diagonal_unchecked(mu, s)', 'DiagonalNormal::<N>::diagonal(mu, s)', pd, gd), ('isotropic', 'f64', 'IsotropicNormal<N>', 'IsotropicNormal::<N>::isotropic_unchecked(mu, s)', 'IsotropicNormal::<N>::isotropic(mu, s)', ps, gi),
                                ('full', '[[f64; N]; N]', 'MvNormal<N>', 'MvNormal::<N>::new_unchecked(mu, s)', 'MvNormal::<N>::new(mu, s)', None, gm)):
        ob = '([f64; N], %s, f64, f64)' % S
        g = 'fn g<const N: usize>(d: &%s, x: &[f64; N]) -> %s { let p = d.params(); (p.mu.0, p.Sigma.0, d.pdf(x), d.d_mahalanobis_squared(x)) }' % (T, ob)
        src = 'pub fn p10_mv%s<const N: usize>(mu: [f64; N], s: %s, x: [f64; N]) -> Result<(%s, %s, %s, %s), ()> { %s let a = %s; let b: %s = crate::normal::Params { mu: Loc(mu), Sigma: Covariance(s) }.into(); let c: %s = a.params().into(); match %s { Ok(d) => Ok((g(&a, &x), g(&b, &x), g(&c, &x), g(&d, &x))), Err(_) => Err(()) } }' % (tag[0], S, ob, ob, ob, ob, g, unc, T, T, chk)
        if pre is None: pre = lambda a: and_(lt(ZERO, a.N), p13.forall_m(a.N, lambda i, j: eq(at(at(a.s, i), j), at(at(a.s, j), i))), all_(p09.diag(a.s), lambda x: lt(ZERO, x)), p27.cholpos(a))
        cs.append(Contract('mvnormal.%s.routes' % tag, GNM, src, post(True), pre=pre, gen=gen, desc='%s normal: all routes agree' % tag, nrand=60, tol=1e-6, ns=(1, 2, 3)))
    cs.append(Contract('mvnormal.homogeneous', GNM, 'pub fn p10_mvh<const N: usize>(mu: f64, s: f64, x: [f64; N]) -> Result<(%s, %s, %s), ()> { fn g<const N: usize>(d: &IsotropicNormal<N>, x: &[f64; N]) -> ([f64; N], f64, f64, f64) { let p = d.params(); (p.mu.0, p.Sigma.0, d.pdf(x), d.d_mahalanobis_squared(x)) } match IsotropicNormal::<N>::homogeneous(mu, s) { Ok(d) => Ok((g(&IsotropicNormal::<N>::isotropic_unchecked([mu; N], s), &x), g(&IsotropicNormal::<N>::homogeneous_unchecked(mu, s), &x), g(&d, &x))), Err(_) => Err(()) } }' % (('([f64; N], f64, f64, f64)',) * 3),
        lambda a, r: post(True)(A(dict(a.__dict__, mu=rep(a.N, a.mu))), r), pre=ps, gen=lambda rng, n: dict(gi(rng, n), mu=rng.uniform(-2, 2)), desc='homogeneous normal', nrand=60))
    cs.append(Contract('mvnormal.standard', GNM, 'pub fn p10_mvs<const N: usize>(x: [f64; N]) -> Result<(%s, %s), ()> { fn g<const N: usize>(d: &IsotropicNormal<N>, x: &[f64; N]) -> ([f64; N], f64, f64, f64) { let p = d.params(); (p.mu.0, p.Sigma.0, d.pdf(x), d.d_mahalanobis_squared(x)) } match IsotropicNormal::<N>::standard() { Ok(d) => Ok((g(&IsotropicNormal::<N>::standard_unchecked(), &x), g(&d, &x))), Err(_) => Err(()) } }' % (('([f64; N], f64, f64, f64)',) * 2),
        lambda a, r: post(True)(A(dict(a.__dict__, mu=rep(a.N, ZERO), s=ONE)), r), pre=lambda a: lt(ZERO, a.N), gen=lambda rng, n: {'x': [rng.uniform(-2, 2) for _ in range(n)]}, desc='standard normal', nrand=60))
    for tag, S, T, unc, chk, pre, gen in (('diagonal', '[f64; N]', '[f64; N]', 'diagonal_unchecked', 'diagonal', pd, gd), ('isotropic', 'f64', 'f64', 'isotropic_unchecked', 'isotropic', ps, gi), ('full', '[[f64; N]; N]', '[[f64; N]; N]', 'new_unchecked', 'new', None, gm)):
        L = 'LogNormal::<N, %s>' % T; ob = '([f64; N], %s)' % S
        if pre is None: pre = lambda a: and_(lt(ZERO, a.N), p13.forall_m(a.N, lambda i, j: eq(at(at(a.s, i), j), at(at(a.s, j), i))), all_(p09.diag(a.s), lambda x: lt(ZERO, x)))
        src = 'pub fn p10_ml%s<const N: usize>(mu: [f64; N], s: %s) -> Result<(%s, %s, %s), ()> { fn g<const N: usize>(d: &LogNormal<N, %s>) -> %s { let p = d.params(); (p.mu.0, p.Sigma.0) } let a = %s::%s(mu, s); let c: LogNormal<N, %s> = a.params().into(); match %s::%s(mu, s) { Ok(d) => Ok((g(&a), g(&c), g(&d))), Err(_) => Err(()) } }' % (tag[0], S, ob, ob, ob, T, ob, L, unc, T, L, chk)
        cs.append(Contract('mvlognormal.%s.routes' % tag, GML, src, post(True), pre=pre, gen=lambda rng, n, gen=gen: {k: v for k, v in gen(rng, n).items() if k != 'x'}, desc='multivariate lognormal, %s: all routes agree' % tag, nrand=60, ns=(1, 2, 3)))
    # --- mixture
    def mpost(a, r):
        return [g for i, t in enumerate(r.f) for g in (eqg('route %d: weights' % i, t.f[0], a.v), eqg('route %d: components' % i, t.f[1], a.m))]
    ob = '([f64; N], [f64; N])'
    c = Contract('mixture.routes', GMIX, 'pub fn p10_mix<const N: usize>(v: [f64; N], m: [f64; N]) -> (%s, %s) { fn g<const N: usize>(d: &Mixture<N, Exponential>) -> ([f64; N], [f64; N]) { (d.weights.clone().unwrap(), d.components.clone().map(|c| c.params().lambda.0)) } let a = Mixture::new_unchecked(v, m.map(|x| Exponential::new_unchecked(x))); let c: Mixture<N, Exponential> = a.params().into(); (g(&a), g(&c)) }' % (ob, ob), mpost,
        pre=lambda a: and_(lt(ZERO, a.N), all_(a.v, lambda x: and_(le(ZERO, x), le(x, ONE))), all_(a.m, lambda x: lt(ZERO, x))), gen=lambda rng, n: {'v': __import__('p16').simplex(rng, n), 'm': vecp(rng, n)}, desc='mixture of exponentials: rebuilding from its own parameters')
    c.only_sizes = (1, 2, 3); c.ns = (1, 2, 3); cs.append(c)
    c = Contract('mixture.params', GMIX, 'pub fn p10_mixp<const N: usize>(v: [f64; N], m: [f64; N]) -> ([f64; N], Vec<f64>) { let a = Mixture::new_unchecked(v, m.map(|x| Exponential::new_unchecked(x))); let p = a.params(); (p.ps.unwrap(), p.component_params.iter().map(|q| q.lambda.0).collect()) }', lambda a, r: [eqg('weights', r.f[0], a.v), eqg('component parameters', r.f[1], a.m)],
        pre=lambda a: and_(lt(ZERO, a.N), all_(a.v, lambda x: and_(le(ZERO, x), le(x, ONE))), all_(a.m, lambda x: lt(ZERO, x))), gen=lambda rng, n: {'v': __import__('p16').simplex(rng, n), 'm': vecp(rng, n)}, desc='mixture: its parameters are the weights and the parameters of the components')
    c.only_sizes = (1, 2, 3); c.ns = (1, 2, 3); cs.append(c)
    return cs
def accessors():
    """what an object reports of itself is what its parameters imply"""
    cs = []
    V = {'loc': lambda rng: rng.uniform(-3, 3), 'pos': pos}
    def C(cid, key, sig, ret, body, want, kinds, g=None):
        names = [x.split(':')[0].strip() for x in sig.split(',') if x.strip()]
        k = dict(zip(names, kinds.split()))
        gen = lambda rng: {n: (rng.randint(1, 30) if k[n] == 'cnt' else V[k[n]](rng)) for n in names}
        pre = lambda a: and_(*[lt(ZERO, getattr(a, n)) for n in names if k[n] in ('pos', 'cnt')], *[lt(getattr(a, n), num(1 << 40)) for n in names if k[n] == 'cnt'])
        cs.append(Contract(cid, g or uni_use(key), 'pub fn p10a_%s(%s) -> %s { %s }' % (cid.replace('.', '_'), sig, ret, body), lambda a, r: [eqg('%s%s' % (cid, i), x, w) for i, (x, w) in enumerate(zip(r.f if isinstance(r, Agg) else [r], want(a)))], pre=pre, gen=gen, desc='%s: what it reports of itself' % cid))
    C('arcsine.b', 'arcsine', 'a: f64, w: f64', 'f64', 'Params::new_unchecked(a, w).b().0', lambda a: [a.a + a.w], 'loc pos')
    C('cauchy.fwhm', 'cauchy', 'x0: f64, g: f64', 'f64', 'Cauchy::new_unchecked(x0, g).fwhm()', lambda a: [2 * a.g], 'loc pos')
    C('erlang.mu', 'erlang', 'k: usize, l: f64', 'f64', 'Erlang::new_unchecked(k, l).mu()', lambda a: [1 / a.l], 'cnt pos')
    C('folded_normal.precision', 'folded_normal', 'mu: f64, s: f64', 'f64', 'FoldedNormal::new_unchecked(mu, s).precision()', lambda a: [1 / (a.s * a.s)], 'loc pos')
    C('folded_normal.standard', 'folded_normal', '', '(f64, f64)', 'let p = FoldedNormal::standard().params(); (p.mu.0, p.sigma.0)', lambda a: [ZERO, ONE], '')
    C('gumbel.z', 'gumbel', 'mu: f64, b: f64, x: f64', 'f64', 'Gumbel::new_unchecked(mu, b).z(x)', lambda a: [(a.x - a.mu) / a.b], 'loc pos loc')
    C('triangular.corners', 'triangular', 'a: f64, u: f64, v: f64', '(f64, f64)', 'let p = Params::new_unchecked(a, u, v); (p.c(), p.b())', lambda a: [a.a + a.u, a.a + a.u + a.v], 'loc pos pos')
    C('uniform.accessors', 'uniform', 'lb: f64, w: f64', '(f64, f64)', 'let p = Params::new_unchecked(lb, w); (p.lb().0, p.width().0)', lambda a: [a.lb, a.w], 'loc pos')
    C('normal.z', 'normal', 'mu: f64, v: f64, x: f64', '(f64, f64)', 'let d = Normal::new_unchecked(mu, v); (d.z(x), d.precision())', lambda a: [(a.x - a.mu) / sq_(a.v), 1 / a.v], 'loc pos loc')
    cs.append(Contract('uniform_i64.span', ('d_uniform_i64', 'use crate::univariate::uniform::*;\n' + COMMON), 'pub fn p10a_uis(lb: i64, w: u64) -> u64 { Uniform::<i64>::new_unchecked(lb, w).span() }', lambda a, r: [eqg('the number of values', r, a.w + 1)],
        pre=lambda a: and_(lt(ZERO, a.w), lt(a.w, num(1 << 52)), lt(num(-(1 << 52)), a.lb), lt(a.lb, num(1 << 52))), gen=lambda rng: {'lb': rng.randint(-9, 9), 'w': rng.randint(1, 30)}, desc='uniform on integers: the number of values'))
    on = lambda a: and_(lt(ZERO, a.N), all_(a.v, lambda x: and_(le(ZERO, x), le(x, ONE))))
    sg = lambda rng, n: {'v': __import__('p16').simplex(rng, n)}
    cs.append(Contract('multinomial.accessors', GMUL, 'pub fn p10a_mul<const N: usize>(k: usize, v: [f64; N]) -> (usize, [f64; N], usize) { let p = Params::<N>::new_unchecked(k, v); (p.n().0, p.ps().clone().unwrap(), Multinomial::<N>::n_categories()) }',
        lambda a, r: [eqg('n', r.f[0], a.k), eqg('ps', r.f[1], a.v), eqg('categories', r.f[2], a.N)], pre=on, gen=lambda rng, n: dict(sg(rng, n), k=rng.randint(0, 9)), desc='multinomial: what it reports of itself'))
    cs.append(Contract('categorical.n_categories', ('d_categorical', 'use crate::univariate::categorical::*;\n' + COMMON), 'pub fn p10a_cat<const N: usize>(v: [f64; N]) -> usize { let _ = v; Categorical::<N>::n_categories() }', lambda a, r: [eqg('categories', r, a.N)], gen=sg, desc='categorical: number of categories'))
    return cs
def sq_(x): return mk('sqrt', x)
def cached():
    '''what the joint normals and the Dirichlet distribution cache (determinant, factor, precision, normalising constant), as seen from outside'''
    import p21, p28
    cs = [c for c in p27.contracts() if c.cid.split('.')[0] in ('full', 'diagonal', 'isotropic', 'paired', 'bivariate') and c.cid.split('.')[1] in ('pdf', 'd_mahalanobis_squared', 'z') or c.cid == 'dirichlet.log_pdf'] + p21.multivariate()
    for c in cs: c.cid = 'cached.' + c.cid; c.desc = 'what is cached follows from the parameters: ' + c.desc
    return cs
def run(tier):
    check.main('P10', tier, contracts() + extra(), assumptions=['array lengths are at most 2^24', 'LAPACK and BLAS routines satisfy their documented contracts (P13)'])
