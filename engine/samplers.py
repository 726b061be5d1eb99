"""rand_distr constructors: when they return Ok (their documentation)."""
from term import *
def pos(x): return mk('<', fbits(0), x)
VALID = {
 'Normal': lambda m, s: TRUE, 'LogNormal': lambda m, s: mk('<=', fbits(0), s),
 'Gamma': lambda k, t: and_(pos(k), pos(t)), 'Beta': lambda a, b: and_(pos(a), pos(b)),
 'Cauchy': lambda m, s: pos(s), 'ChiSquared': lambda k: pos(k), 'Exp': lambda l: mk('<=', fbits(0), l),
 'FisherF': lambda a, b: and_(pos(a), pos(b)), 'Geometric': lambda p: and_(pos(p), mk('<=', p, fbits(0x3ff0000000000000))),
 'Pareto': lambda s, a: and_(pos(s), pos(a)), 'Poisson': lambda l: pos(l), 'StudentT': lambda n: pos(n),
 'Triangular': lambda a, b, c: and_(mk('<=', a, c), mk('<=', c, b)), 'Weibull': lambda s, k: and_(pos(s), pos(k)),
 'Binomial': lambda n, p: and_(mk('<=', fbits(0), p), mk('<=', p, fbits(0x3ff0000000000000))),
 'Frechet': lambda l, s, a: and_(pos(s), pos(a)), 'Gumbel': lambda l, s: pos(s),
 'Dirichlet': lambda *a: TRUE, 'InverseGaussian': lambda m, s: and_(pos(m), pos(s)),
}

# what a draw of each generator satisfies (its support)
F0_, F1_ = fbits(0), fbits(0x3ff0000000000000)
DRAWN = {
 'Gamma': lambda d, k, t: [pos(d)], 'Beta': lambda d, a, b: [pos(d), mk('<', d, F1_)], 'ChiSquared': lambda d, k: [pos(d)], 'Exp': lambda d, l: [mk('<=', F0_, d)],
 'FisherF': lambda d, a, b: [pos(d)], 'LogNormal': lambda d, m, s: [pos(d)], 'Pareto': lambda d, s, a: [mk('<=', s, d)], 'Triangular': lambda d, a, b, c: [mk('<=', a, d), mk('<=', d, b)],
 'Uniform': lambda d, a, b: [mk('<=', a, d), mk('<', d, b)], 'Uniform!': lambda d, a, b: [mk('<=', a, d), mk('<=', d, b)], 'Weibull': lambda d, s, k: [mk('<=', F0_, d)],
 'Frechet': lambda d, l, s, a: [mk('<=', l, d)], 'InverseGaussian': lambda d, m, s: [pos(d)],
}
