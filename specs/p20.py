"""P20: modes."""
from uni import *
import check
def contracts(keys=None):
    cs = []
    for k in keys or CONT + DISC:
        d = D[k]
        for i, (kind, cnd, ms) in enumerate(d.modes or []):
            def post(p, a, r, kind=kind, ms=ms, d=d):
                n = len(r.e)
                if kind == 'unique': return [holds('exactly one mode is reported', lift(n == 1))] + ([eqg('the unique maximiser', r.e[0] if d.xt in ('f64', 'bool') else toreal(r.e[0]), ms(p)[0])] if n == 1 else [])
                if kind == 'root':      # folded normal, |mu| > sigma: the maximiser solves x = mu tanh(mu x / sigma^2)
                    return [holds('exactly one mode is reported', lift(n == 1))] + ([eqg('the stationary point of the density', r.e[0], p.mu * mk('tanh', p.mu * r.e[0] / (p.sigma * p.sigma)))] if n == 1 else [])
                if kind == 'some': return [holds('mode %d is a maximiser' % j, or_(*[(eq if d.xt != 'bool' else iff)(x if d.xt in ('f64', 'bool') else toreal(x), m) for m in ms(p)])) for j, x in enumerate(r.e)] + [holds('at most all maximisers', lift(n <= len(ms(p)))), *([holds('at least one is reported', lift(n >= 1))] if d.key != 'kumaraswamy' else [])] + [holds('modes %d and %d differ' % (i, j), (lambda u, v: not_(eq(u, v)) if d.xt != 'bool' else not_(iff(u, v)))(r.e[i], r.e[j])) for j in range(n) for i in range(j)]
                if kind == 'max':
                    return [holds('a mode is reported', lift(n >= 1))] + [g for j, x in enumerate(r.e) for g in (holds('mode %d lies in the support' % j, d.insupp(p, toreal(x))), ms(p, x, j))]
                return [holds('mode %d lies in the support' % j, and_(*([le(d.lo(p), x)] if d.lo else []), *([le(x, d.hi(p))] if d.hi else []))) for j, x in enumerate(r.e)] + [holds('a list is returned', TRUE)]
            c = contract(d, 'modes.%d' % i, 'd.modes()', 'Vec<%s>' % d.xt, post, pre=cnd, desc='modes (%s maximiser, case %d)' % (kind, i), nrand=300)
            c.abs = 1.0
            if kind == 'root': c.known = lambda a, r, d=d, ms=ms: [holds('one value', lift(len(r.e) == 1))] + [eqg('|mu|', x, ms(d.rec(a))[0]) for x in r.e]
            g0 = c.gen
            def gen(rng, g0=g0, d=d, cnd=cnd):
                for _ in range(60):
                    v = g0(rng)
                    if rng.random() < .5:
                        for n, t in d.params:
                            if t == 'pos' and rng.random() < .6: v[n] = rng.choice([1.0, 0.5, 2.0, 0.9, 1.1])
                    if Ev()(cnd(d.rec(A({n: (f64(v[n]) if KINDS[t][0] == 'f64' else num(v[n])) for n, t in d.params})))): return v
                return v
            c.gen = gen
            cs.append(c)
    return cs + ([categorical()] + multivariate() if not keys else [])
def categorical():
    import p16
    def post(a, r):
        n = len(a.ps.e) if isinstance(a.ps, Arr) else int(a.N.a[0]); ms = r.e
        g = [holds('a mode is reported', lift(len(ms) >= 1))]
        for j, m in enumerate(ms):
            g += [holds('mode %d is a category' % j, and_(le(ZERO, m), lt(m, num(n)))), holds('mode %d has the largest mass' % j, and_(*[le(at(a.ps, num(i)), at(a.ps, m)) for i in range(n)]))]
            g += [holds('modes %d and %d differ' % (i, j), not_(eq(ms[i], m))) for i in range(j)]
        return g
    c = Contract('categorical.modes', p16.GC, 'pub fn u_cat_modes<const N: usize>(ps: [f64; N]) -> Vec<usize> { let d = Categorical::new_unchecked(ps); d.modes() }', post, pre=lambda a: lt(ZERO, a.N),
                 gen=lambda rng, n: {'ps': [x / 8.0 for x in [rng.randint(0, 4) for _ in range(n)]]}, ns=(1, 2, 3, 4, 5, 7), nrand=300, desc='modes are the categories of largest mass')
    c.only_sizes = (1, 2, 3, 4); c.range = (1e-9, 2e3, 2000)
    return c
def multivariate():
    import mvar, p13
    cs = []
    for k in ('full', 'diagonal', 'isotropic', 'paired', 'bivariate'):
        d = mvar.MV[k]
        def post(a, r, d=d):
            n = len(r.e)
            return [holds('exactly one mode is reported', lift(n == 1))] + ([eqg('the mean vector', r.e[0], p13.VEC(d.dim(a), lambda i: at(a.mu, i)))] if n == 1 else [])
        c = Contract('mv_%s.modes' % k, ('mv_' + k, d.use), mvar.client(d, 'modes', '', 'Vec<[f64; %s]>' % d.n, 'd.modes()'), post, pre=d.pre, gen=d.gen, desc='mode of a normal (%s covariance)' % k, nrand=120, intercept=p13.BY_CONTRACT)
        c.range = (1e-6, 2e3, 2**40); cs.append(c)
    d = mvar.MV['dirichlet']; SP = lambda a: mvar.a0(a) - toreal(a.N)
    def some(rng, n):
        v = mvar.gvar(rng, n)
        return {'v': rng.choice([v, [1 + x for x in v], [rng.choice([1.0, 1 + x]) for x in v], [1.0] * n])}
    def add(cid, pre, post, desc):
        c = Contract('dirichlet.' + cid, ('mv_dirichlet', d.use), mvar.client(d, cid, '', 'Vec<[f64; N]>', 'd.modes()'), post, pre=lambda a: and_(d.pre(a), pre(a)), gen=some, desc=desc, nrand=200)
        c.range = (1e-6, 2e3, 2**40); cs.append(c)
    add('modes_unique', lambda a: and_(all_(a.v, lambda x: le(ONE, x)), lt(ZERO, SP(a))), lambda a, r: [holds('exactly one mode is reported', lift(len(r.e) == 1))] + ([eqg('the unique maximiser', r.e[0], p13.VEC(a.N, lambda j: (at(a.v, j) - 1) / SP(a)))] if len(r.e) == 1 else []), 'the mode of a Dirichlet distribution with no concentration below one (and one above)')
    add('modes_support', lambda a: TRUE, lambda a, r: [holds('mode %d: coordinates not negative' % i, all_(m, lambda x: le(ZERO, x))) for i, m in enumerate(r.e)] + [eqg('mode %d: the coordinates sum to one' % i, seqsum(m), ONE) for i, m in enumerate(r.e)] + [holds('a list is returned', TRUE)], 'every mode of a Dirichlet distribution lies on the simplex')
    return cs
def run(tier): check.main('P20', tier, contracts(), assumptions=['the maximisers of the specification maximise the density of the specification (sampled by tools/selftest_uni.py)'])
