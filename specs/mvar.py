"""The multivariate distributions: constructors, admissible parameters and textbook moments."""
from uni import *
import p09, p13, p16
from p13 import spd, MAT, VEC
MV = {}
USE = 'use crate::normal::*;\nuse crate::statistics::*;\nuse crate::distance::Mahalanobis;\n' + p09.COMMON
GLN = 'use crate::multivariate::lognormal::LogNormal;\n'
class M:
    def __init__(s, key, sig, ctor, pre, gen, mean, cov, use=USE, n='N', xt='f64', mod=None):
        s.key = key; s.sig = sig; s.ctor = ctor; s.pre = pre; s.gen = gen; s.mean = mean; s.cov = cov; s.use = use; s.n = n; s.xt = xt; s.cn = '<const N: usize>' if n == 'N' else ''; MV[key] = s
    def dim(s, a): return a.N if s.n == 'N' else num(2)
def near(rng, r, k=1.2):
    """a point within a few standard deviations (in every direction) of the mean"""
    m, s = r['mu'], r['s']; n = len(m)
    if 'rho' in r: A = [[s[0], r['rho'] * math.sqrt(s[0] * s[1])], [r['rho'] * math.sqrt(s[0] * s[1]), s[1]]]
    else: A = [[s[i][j] if isinstance(s, list) and isinstance(s[i], list) else (s[i] if isinstance(s, list) else s) * (i == j) for j in range(n)] for i in range(n)]
    L = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            t = A[i][j] - sum(L[i][k_] * L[j][k_] for k_ in range(j))
            L[i][j] = math.sqrt(max(t, 0)) if i == j else (t / L[j][j] if L[j][j] else 0.0)
    z = [rng.gauss(0, k) for _ in range(n)]
    return [m[i] + sum(L[i][j] * z[j] for j in range(i + 1)) for i in range(n)]
def gmu(rng, n): return [rng.uniform(-3, 3) for _ in range(n)]
def posv(rng): return math.exp(rng.uniform(-2.5, 2.5)) if rng.random() < .85 else 10.0 ** rng.uniform(-4, 4)
def posl(rng): return math.exp(rng.uniform(-2.5, 1)) if rng.random() < .85 else 10.0 ** rng.uniform(-3, 0.6)
def cov_(rng, n):
    """an admissible covariance: any, nearly dependent components, or components of different magnitude"""
    k = rng.random()
    if k < .7: return spd(rng, n)
    if k < .85:
        r = 1 - 10.0 ** -rng.uniform(1.5, 4.5); sd = [math.exp(rng.uniform(-1, 1)) for _ in range(n)]; sg = [rng.choice([-1, 1]) for _ in range(n)]
        A = [[sd[i] * sd[j] * sg[i] * sg[j] * (1.0 if i == j else r) for j in range(n)] for i in range(n)]
    else:
        B = spd(rng, n); sd = [10.0 ** rng.uniform(-2, 2) for _ in range(n)]
        A = [[B[i][j] * sd[i] * sd[j] for j in range(n)] for i in range(n)]
    for i in range(n):
        for j in range(i): A[j][i] = A[i][j]
    return A
def gvar(rng, n): return [posv(rng) for _ in range(n)]
def pos(a): return lt(ZERO, a.N)
e2 = lambda m, i, j: at(at(m, i), j)
sym = lambda a: p13.forall_m(a.N, lambda i, j: eq(e2(a.s, i, j), e2(a.s, j, i)))
posdiag = lambda a: all_(p09.diag(a.s), lambda x: lt(ZERO, x))
dl = lambda i, j, x: ite(eq(i, j), x, ZERO)
exp_ = lambda x: mk('exp', x)
def small(rng, n):
    A = cov_(rng, n); m = max([1.0] + [A[i][i] / 2 for i in range(n)])
    return [[x / 3 / m for x in r] for r in A]
FULL = ('mu: [f64; N], s: [[f64; N]; N]', lambda a: and_(pos(a), sym(a), posdiag(a)), lambda g: (lambda rng, n: {'mu': gmu(rng, n), 's': g(rng, n)}), lambda a, i, j: e2(a.s, i, j))
DIAG = ('mu: [f64; N], s: [f64; N]', lambda a: and_(pos(a), all_(a.s, lambda x: lt(ZERO, x))), lambda g: (lambda rng, n: {'mu': gmu(rng, n), 's': g(rng, n)}), lambda a, i, j: dl(i, j, at(a.s, i)))
ISO = ('mu: [f64; N], s: f64', lambda a: and_(pos(a), lt(ZERO, a.s)), lambda g: (lambda rng, n: {'mu': gmu(rng, n), 's': g(rng, 1)[0]}), lambda a, i, j: dl(i, j, a.s))
for k, (sig, pre, gen, cov), ctor in (('full', FULL, 'MvNormal::<N>::new_unchecked(mu, s)'), ('diagonal', DIAG, 'DiagonalNormal::<N>::diagonal_unchecked(mu, s)'), ('isotropic', ISO, 'IsotropicNormal::<N>::isotropic_unchecked(mu, s)')):
    M(k, sig, ctor, pre, gen(cov_ if k == 'full' else gvar), lambda a, i: at(a.mu, i), cov)
    def lcov(a, i, j, cov=cov): return exp_(at(a.mu, i) + at(a.mu, j) + (cov(a, i, i) + cov(a, j, j)) / 2) * (exp_(cov(a, i, j)) - 1)
    M('log' + k, sig, {'full': 'LogNormal::<N, [[f64; N]; N]>::new_unchecked(mu, s)', 'diagonal': 'LogNormal::<N, [f64; N]>::diagonal_unchecked(mu, s)', 'isotropic': 'LogNormal::<N, f64>::isotropic_unchecked(mu, s)'}[k], pre, gen(small if k == 'full' else lambda rng, n: [posl(rng) for _ in range(n)]),
      lambda a, i, cov=cov: exp_(at(a.mu, i) + cov(a, i, i) / 2), lcov, use=GLN + USE)
P2 = lambda a: and_(lt(ZERO, at(a.s, 0)), lt(ZERO, at(a.s, 1)))
M('paired', 'mu: [f64; 2], s: [f64; 2]', 'PairedNormal::new_unchecked(mu, s)', P2, lambda rng: {'mu': gmu(rng, 2), 's': gvar(rng, 2)}, lambda a, i: at(a.mu, i), lambda a, i, j: dl(i, j, at(a.s, i)), n='2')
M('bivariate', 'mu: [f64; 2], s: [f64; 2], rho: f64', 'BvNormal::new_unchecked(mu, s, rho)', lambda a: and_(P2(a), lt(num(-1), a.rho), lt(a.rho, ONE)), lambda rng: {'mu': gmu(rng, 2), 's': gvar(rng, 2), 'rho': rng.choice([0.0, rng.uniform(-.97, .97), .5, -.5, (1 - 10.0 ** -rng.uniform(2, 4.5)) * rng.choice([-1, 1])])},
  lambda a, i: at(a.mu, i), lambda a, i, j: ite(eq(i, j), at(a.s, i), a.rho * sq(at(a.s, i)) * sq(at(a.s, j))), n='2')
a0 = lambda a: seqsum(a.v)
M('dirichlet', 'v: [f64; N]', 'Dirichlet::<N>::new_unchecked(v)', lambda a: and_(pos(a), all_(a.v, lambda x: lt(ZERO, x)), lt(ZERO, a0(a))), lambda rng, n: {'v': gvar(rng, n)}, lambda a, i: at(a.v, i) / a0(a),
  lambda a, i, j: ite(eq(i, j), at(a.v, i) * (a0(a) - at(a.v, i)), neg(at(a.v, i) * at(a.v, j))) / (a0(a) * a0(a) * (a0(a) + 1)), use='use crate::multivariate::dirichlet::*;\n' + USE)
inner = lambda a: all_(a.v, lambda x: and_(lt(ZERO, x), lt(x, ONE)))
K = lambda a: toreal(a.k)
M('multinomial', 'k: usize, v: [f64; N]', 'Multinomial::<N>::new_unchecked(k, v)', lambda a: and_(pos(a), lt(a.k, num(1 << 40)), all_(a.v, lambda x: and_(le(ZERO, x), le(x, ONE)))), lambda rng, n: {'k': rng.randint(0, 12), 'v': p16.simplex(rng, n)},
  lambda a, i: K(a) * at(a.v, i), lambda a, i, j: ite(eq(i, j), K(a) * at(a.v, i) * (1 - at(a.v, i)), neg(K(a) * at(a.v, i) * at(a.v, j))), use='use crate::multivariate::multinomial::*;\n' + USE, xt='usize')
def client(d, nm, extra, ret, body): return 'pub fn mv_%s_%s%s(%s%s) -> %s { let d = %s; %s }' % (d.key, nm, d.cn, d.sig, extra, ret, d.ctor, body)
