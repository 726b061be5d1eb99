"""P24: convolution."""
from uni import *
import check
USE = 'use crate::univariate::%s::*;\n'
EXTRA = 'use crate::{Distribution, Convolution, Probability};\n'
# key: constructor of (suffix), parameters (name, type, valid), result expression, what the sum is, when the family is closed
def pos(rng): return math.exp(rng.uniform(-2, 2))
FAM = {}
class F:
    def __init__(s, key, ps, ctor, out, sum_, closed=None, use=None, gen=None): s.key = key; s.ps = ps; s.ctor = ctor; s.out = out; s.sum = sum_; s.closed = closed; s.use = use or USE % key; s.gen = gen; FAM[key] = s
ANY = lambda x: TRUE
PZ_ = lambda x: lt(ZERO, x)
PR = lambda x: and_(le(ZERO, x), le(x, ONE))
CN = lambda x: lt(x, num(1 << 40))
DF = lambda x: and_(lt(ZERO, x), lt(x, num(1 << 40)))
T3 = lambda rng: rng.uniform(-3, 3)
F('normal', [('mu', 'f64', ANY, T3), ('v', 'f64', PZ_, pos)], 'Normal::new_unchecked(%s)', ['d.params().mu.0', 'd.params().Sigma.0'], lambda a, xs: [seq_sum(xs, 0), seq_sum(xs, 1)])
F('cauchy', [('x0', 'f64', ANY, T3), ('g', 'f64', PZ_, pos)], 'Cauchy::new_unchecked(%s)', ['d.params().x0.0', 'd.params().gamma.0'], lambda a, xs: [seq_sum(xs, 0), seq_sum(xs, 1)])
F('poisson', [('l', 'f64', PZ_, pos)], 'Poisson::new_unchecked(%s)', ['d.params().lambda.0'], lambda a, xs: [seq_sum(xs, 0)])
F('chi_sq', [('k', 'usize', DF, lambda r: r.randint(1, 9))], 'ChiSq::new_unchecked(%s)', ['d.params().k.0'], lambda a, xs: [seq_sum(xs, 0)])
F('gamma', [('alpha', 'f64', PZ_, pos), ('beta', 'f64', PZ_, lambda r: r.choice([1.0, 2.0, 0.3]))], 'Gamma::new_unchecked(%s)', ['d.params().alpha.0', 'd.params().beta.0'], lambda a, xs: [seq_sum(xs, 0), xs[0][1]], closed=1)
F('binomial', [('n', 'usize', CN, lambda r: r.randint(0, 9)), ('p', 'f64', PR, lambda r: r.choice([0.0, 1.0, 0.5, 0.3]))], 'Binomial::new_unchecked(%s)', ['d.params().n.0', 'd.params().p.unwrap()'], lambda a, xs: [seq_sum(xs, 0), xs[0][1]], closed=1)
def seq_sum(xs, i):
    t = xs[0][i]
    for x in xs[1:]: t = t + x[i]
    return t
def addall(xs):
    t = ZERO
    for x in xs: t = t + x
    return t
def tup(x): return x.f if isinstance(x, Agg) else [x]
def result(closed, want, names):
    def post(a, r):
        c = closed(a)
        if is_ok(r): return [holds('succeeds only when the family is closed under the addition', c)] + [eqg('the %s of the sum' % n, x, w) for n, x, w in zip(names, tup(payload(r)), want(a))]
        return [holds('an error only when the family is not closed', not_(c))]
    return post
def contracts():
    cs = []
    def add(cid, g, src, post, pre, gen, **kw):
        c = Contract(cid, g, src, post, pre=pre, gen=gen, desc=kw.pop('desc', cid), nrand=200, **kw); c.range = (1e-9, 2e3, 2**60); cs.append(c)
    for k, f in FAM.items():
        g = ('c_' + k, f.use + EXTRA)
        names = [n for n, *_ in f.ps]; ty = '(%s)' % ', '.join(t for _, t, *_ in f.ps) if len(f.ps) > 1 else f.ps[0][1]
        R = 'Result<%s, ()>' % ty
        out = '(%s)' % ', '.join(f.out) if len(f.out) > 1 else f.out[0]
        sig = lambda s: ', '.join('%s%s: %s' % (n, s, t) for n, t, *_ in f.ps)
        con = lambda s: f.ctor % ', '.join(('Probability::new_unchecked(%s%s)' if k == 'binomial' and n == 'p' else '%s%s') % (n, s) for n in names)
        prs = lambda a, s, f=f: and_(*[c(getattr(a, n + s)) for n, t, c, _ in f.ps])
        row = lambda a, s, names=names: [getattr(a, n + s) for n in names]
        gen1 = lambda rng, s, f=f: {n + s: gg(rng) for n, t, c, gg in f.ps}
        for m in (2,):
            ss = ['1', '2']
            add(k + '.convolve', g, 'pub fn c_%s(%s) -> %s { let a = %s; let b = %s; match a.convolve(b) { Ok(d) => Ok(%s), Err(_) => Err(()) } }' % (k, ', '.join(sig(s) for s in ss), R, con('1'), con('2'), out),
                result(lambda a, f=f, names=names: TRUE if f.closed is None else eq(getattr(a, names[f.closed] + '1'), getattr(a, names[f.closed] + '2')), lambda a, f=f, row=row: f.sum(a, [row(a, '1'), row(a, '2')]), names),
                lambda a, prs=prs: and_(prs(a, '1'), prs(a, '2')), lambda rng, gen1=gen1: dict(gen1(rng, '1'), **gen1(rng, '2')), desc='sum of two independent variables of the family')
        for m in (0, 1, 2, 3):
            ss = [str(i) for i in range(m + 1)]
            add(k + '.convolve_many.%d' % m, g, 'pub fn c_%s_many%d(%s) -> %s { let a = %s; let v: Vec<%s> = vec![%s]; match a.convolve_many(v) { Ok(d) => Ok(%s), Err(_) => Err(()) } }' % (k, m, ', '.join(sig(s) for s in ss), R, con('0'), f.ctor.split('::')[0], ', '.join(con(s) for s in ss[1:]), out),
                result(lambda a, f=f, names=names, ss=ss, m=m: lift(m > 0) if f.closed is None or m == 0 else and_(*[eq(getattr(a, names[f.closed] + '0'), getattr(a, names[f.closed] + s)) for s in ss[1:]]), lambda a, f=f, row=row, ss=ss: f.sum(a, [row(a, s) for s in ss]), names),
                lambda a, prs=prs, ss=ss: and_(*[prs(a, s) for s in ss]), lambda rng, gen1=gen1, ss=ss: {k_: v for s in ss for k_, v in gen1(rng, s).items()}, desc='sum with a list of %d' % m)
    for k, f in FAM.items():
        g = ('c_' + k, f.use + EXTRA); names = [n for n, *_ in f.ps]
        ty = '(%s)' % ', '.join(t for _, t, *_ in f.ps) if len(f.ps) > 1 else f.ps[0][1]
        out = '(%s)' % ', '.join(f.out) if len(f.out) > 1 else f.out[0]
        con = lambda e: f.ctor % ', '.join(('Probability::new_unchecked(%s)' if k == 'binomial' and n == 'p' else '%s') % (e % i if len(names) > 1 else 'x') for i, n in enumerate(names))
        row0 = lambda a, names=names: [getattr(a, n + '0') for n in names]
        col = lambda x, i, names=names: x.f[i] if len(names) > 1 else x
        def pre(a, f=f, names=names, col=col):
            return and_(lt(ZERO, length(a.xs)), lt(length(a.xs), num(1 << 20)), *[c(getattr(a, n + '0')) for n, t, c, _ in f.ps], all_(a.xs, lambda x: and_(*[c(col(x, i)) for i, (n, t, c, _) in enumerate(f.ps)], *([eq(col(x, f.closed), getattr(a, names[f.closed] + '0'))] if f.closed is not None else []))))
        def want(a, f=f, names=names, col=col):
            S = lambda i: getattr(a, names[i] + '0') + (isum(ZERO, length(a.xs), lambda j: col(at(a.xs, j), i)) if length(a.xs).op != 'num' else addall([col(at(a.xs, num(j)), i) for j in range(int(length(a.xs).a[0]))]))
            return [getattr(a, names[i] + '0') if f.closed == i else S(i) for i in range(len(names))]
        def gen(rng, f=f, names=names):
            m = rng.choice([1, 2, 3, 5]); rows = [[gg(rng) for n, t, c, gg in f.ps] for _ in range(m + 1)]
            if f.closed is not None:
                for r in rows: r[f.closed] = rows[0][f.closed]
            d = {n + '0': v for n, v in zip(names, rows[0])}; d['xs'] = [tuple(r) if len(r) > 1 else r[0] for r in rows[1:]]
            return d
        add(k + '.convolve_many', g, 'pub fn c_%s_many(%s, xs: Vec<%s>) -> Result<%s, ()> { let v: Vec<%s> = xs.into_iter().map(|x| %s).collect(); match %s.convolve_many(v) { Ok(d) => Ok(%s), Err(_) => Err(()) } }' % (k, ', '.join('%s0: %s' % (n, t) for n, t, *_ in f.ps), ty, ty, f.ctor.split('::')[0], con('x.%d'), f.ctor % ', '.join(('Probability::new_unchecked(%s0)' if k == 'binomial' and n == 'p' else '%s0') % n for n in names), out),
            result(lambda a: TRUE, want, names), pre, gen, desc='sum with a list of any length of compatible distributions')
        if f.closed is not None:
            compat = lambda a, f=f, names=names, col=col: all_(a.xs, lambda x: eq(col(x, f.closed), getattr(a, names[f.closed] + '0')))
            def pre2(a, f=f, names=names, col=col): return and_(lt(ZERO, length(a.xs)), lt(length(a.xs), num(1 << 20)), *[c(getattr(a, n + '0')) for n, t, c, _ in f.ps], all_(a.xs, lambda x: and_(*[c(col(x, i)) for i, (n, t, c, _) in enumerate(f.ps)])))
            def gen2(rng, f=f, gen=gen):
                d = gen(rng)
                if rng.random() < .7:
                    j = rng.randrange(len(d['xs'])); r = list(d['xs'][j]); r[f.closed] = f.ps[f.closed][3](rng); d['xs'][j] = tuple(r)
                return d
            add(k + '.convolve_many.any', g, cs[-1].src.replace('_many(', '_many_any(', 1), result(compat, want, names), pre2, gen2, desc='sum with a list of any length: succeeds exactly when all are compatible')
    GE = ('c_gamma_exp', 'use crate::univariate::gamma::*;\nuse crate::univariate::exponential::Exponential;\n' + EXTRA)
    add('gamma.convolve.exponential', GE, 'pub fn c_ge(alpha: f64, beta: f64, l: f64) -> Result<(f64, f64), ()> { match Gamma::new_unchecked(alpha, beta).convolve(Exponential::new_unchecked(l)) { Ok(d) => Ok((d.params().alpha.0, d.params().beta.0)), Err(_) => Err(()) } }',
        result(lambda a: eq(a.beta, a.l), lambda a: [a.alpha + 1, a.beta], ['alpha', 'beta']), lambda a: and_(PZ_(a.alpha), PZ_(a.beta), PZ_(a.l)), lambda rng: {'alpha': pos(rng), 'beta': rng.choice([1.0, 2.0]), 'l': rng.choice([1.0, 2.0])}, desc='gamma plus exponential')
    GB = ('c_binomial_ber', 'use crate::univariate::binomial::*;\nuse crate::univariate::bernoulli::Bernoulli;\n' + EXTRA)
    pg = lambda r: r.choice([0.0, 1.0, 0.5, 0.3])
    B = lambda n: 'Bernoulli::new_unchecked(%s)' % n
    OUT = 'Ok(d) => Ok((d.params().n.0, d.params().p.unwrap())), Err(_) => Err(())'
    add('binomial.convolve.bernoulli', GB, 'pub fn c_bb(n: usize, p: f64, q: f64) -> Result<(usize, f64), ()> { match Binomial::new_unchecked(n, Probability::new_unchecked(p)).convolve(%s) { %s } }' % (B('q'), OUT),
        result(lambda a: eq(a.p, a.q), lambda a: [a.n + 1, a.p], ['n', 'p']), lambda a: and_(CN(a.n), PR(a.p), PR(a.q)), lambda rng: {'n': rng.randint(0, 9), 'p': pg(rng), 'q': pg(rng)}, desc='binomial plus Bernoulli')
    add('bernoulli.convolve', GB, 'pub fn c_ber(p: f64, q: f64) -> Result<(usize, f64), ()> { match %s.convolve(%s) { %s } }' % (B('p'), B('q'), OUT),
        result(lambda a: eq(a.p, a.q), lambda a: [num(2), a.p], ['n', 'p']), lambda a: and_(PR(a.p), PR(a.q)), lambda rng: {'p': pg(rng), 'q': pg(rng)}, desc='Bernoulli plus Bernoulli')
    return cs
def run(tier): check.main('P24', tier, contracts(), assumptions=['the closure theorems of the families (textbook): sums of independent normal, Cauchy, Poisson, chi-square, equal-rate gamma, equal-probability binomial variables', 'counts and degrees of freedom below 2^40 (the sum does not overflow)'])
