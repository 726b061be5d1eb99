"""P13: the matrix helpers equal their mathematical definitions."""
from contract import *
import check, blasmodel as bm, numeric
G = ('linalg', 'use crate::normal::linalg;\n'); NS = (1, 2, 3, 5)
_low = {}
def low(M):
    r = _low.get(id(M))
    if r is None: r = _low[id(M)] = (bm.mat(length(M), lambda i, j: at(at(M, i), j)), M)
    return r[0]
_m2 = {}
def CHOL(M, r, c): return app('chol', 'R', low(M), r, c)
def TINV(M, r, c): return app('tinv', 'R', low(M), r, c)
def MAT(n, f): return Seq(n, lambda r: Seq(n, lambda c: f(r, c), ''), '') if n.op != 'num' else Arr([Arr([f(num(r), num(c)) for c in range(int(n.a[0]))]) for r in range(int(n.a[0]))])
def VEC(n, f): return Seq(n, f, '') if n.op != 'num' else Arr([f(num(r)) for r in range(int(n.a[0]))])
def rnd(rng): return float(rng.choice([rng.uniform(-2, 2), rng.randint(-3, 3)]))
def spd(rng, n):
    B = [[rnd(rng) for _ in range(n)] for _ in range(n)]
    A = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i + 1):
            v = sum(B[i][k] * B[j][k] for k in range(n)) + (1.0 if i == j else 0.0); A[i][j] = A[j][i] = v
    if rng.random() < 0.25:
        for i in range(n):
            for j in range(n):
                if i != j: A[i][j] = 0.0
    return A
def square(rng, n): return [[rnd(rng) for _ in range(n)] for _ in range(n)]
def lower(rng, n):
    L = lower_(rng, n); k = rng.random()
    if k < 0.3:
        for i in range(n): L[i][i] = L[0][0]
    elif k < 0.4:
        for i in range(n):
            for j in range(i): L[i][j] = 0.0
    return L
def lower_(rng, n): return [[0.0 if j > i else rng.choice([-1, 1]) * rng.uniform(0.5, 2) if i == j else rnd(rng) for j in range(n)] for i in range(n)]
def arr2(M, f): return forall_m(length(M), f)
def forall_m(n, f):
    if n.op == 'num': return and_(*[f(num(i), num(j)) for i in range(int(n.a[0])) for j in range(int(n.a[0]))])
    i, j = var('ai', 'I'), var('aj', 'I'); return forall(i, ZERO, n, forall(j, ZERO, n, f(i, j)))
def upper_zero(M): return forall_m(length(M), lambda i, j: or_(le(j, i), feq(at(at(M, i), j), ZERO)))
def contracts():
    cs = []
    pos = lambda a: lt(ZERO, a.N)
    T = '[[f64; N]; N]'
    cs.append(Contract('cholesky', G, 'pub fn chol<const N: usize>(m: %s) -> %s { unsafe { linalg::cholesky(m) } }' % (T, T),
        lambda a, r: [eqg('the lower-triangular Cholesky factor, zero above the diagonal', r, MAT(a.N, lambda i, j: ite(le(j, i), CHOL(a.m, i, j), ZERO)))],
        pre=pos, gen=lambda rng, n: {'m': spd(rng, n)}, desc='Cholesky factor of a symmetric positive-definite matrix', tol=1e-9, ns=NS, nrand=40))
    cs.append(Contract('inverse_lt', G, 'pub fn invlt<const N: usize>(m: %s) -> %s { unsafe { linalg::inverse_lt(m) } }' % (T, T),
        lambda a, r: [eqg('the inverse of a lower-triangular matrix', r, MAT(a.N, lambda i, j: ite(le(j, i), TINV(a.m, i, j), ZERO)))],
        pre=lambda a: and_(pos(a), upper_zero(a.m)), gen=lambda rng, n: {'m': lower(rng, n)}, desc='inverse of a non-singular lower-triangular matrix', tol=1e-9, ns=NS, nrand=40))
    cs.append(Contract('mm_square', G, 'pub fn mmsq<const N: usize>(m: %s) -> %s { unsafe { linalg::mm_square(&m) } }' % (T, T),
        lambda a, r: [eqg('the product of the transpose with the matrix', r, MAT(a.N, lambda i, j: seqsum_n(a.N, lambda k: mk('*', at(at(a.m, k), i), at(at(a.m, k), j)))))],
        pre=pos, gen=lambda rng, n: {'m': square(rng, n)}, desc='M^T M', tol=1e-9, ns=NS, nrand=40))
    cs.append(Contract('mv_mult', G, 'pub fn mvm<const N: usize>(m: %s, v: [f64; N]) -> [f64; N] { unsafe { linalg::mv_mult(&m, v) } }' % T,
        lambda a, r: [eqg('the matrix-vector product', r, VEC(a.N, lambda i: seqsum_n(a.N, lambda k: mk('*', at(at(a.m, i), k), at(a.v, k)))))],
        pre=pos, gen=lambda rng, n: {'m': square(rng, n) if rng.random() < .7 else lower(rng, n), 'v': [rnd(rng) for _ in range(n)]}, desc='M v for every square matrix', tol=1e-9, ns=NS, nrand=40))
    # the two steps used to build a precision matrix
    cs.append(Contract('precision', G, 'pub fn prec<const N: usize>(m: %s) -> %s { unsafe { let l = linalg::cholesky(m); let li = linalg::inverse_lt(l); linalg::mm_square(&li) } }' % (T, T),
        lambda a, r: [eqg('the Gram matrix of the inverse factor', r, MAT(a.N, lambda i, j: seqsum_n(a.N, lambda k: mk('*', linv(a, k, i), linv(a, k, j)))))],
        pre=pos, gen=lambda rng, n: {'m': spd(rng, n)}, desc='the helpers composed give the inverse of a symmetric positive-definite matrix', tol=1e-9, ns=NS, nrand=40))
    return cs
# callers are verified against these contracts, which this property proves of the helpers
def _peel(ex, st, v):
    from models import peel
    return peel(ex, st, v)
def c_cholesky(ex, st, callee, args, rty):
    M = _peel(ex, st, args[0]); return [(st, MAT(length(M), lambda i, j: ite(le(j, i), CHOL(M, i, j), ZERO)))]
def c_inverse_lt(ex, st, callee, args, rty):
    M = _peel(ex, st, args[0]); n = length(M)
    if n.op == 'num': ok = all(at(at(M, num(i)), num(j)) is ZERO for i in range(int(n.a[0])) for j in range(i + 1, int(n.a[0])))
    else:
        i, j = var('ui', 'I'), var('uj', 'I'); x = at(at(M, i), j)
        ok = x is ZERO or (x.op == 'ite' and x.a[0] is le(j, i) and x.a[2] is ZERO)
    if not ok: raise Unsupported('inverse_lt of a matrix that is not visibly lower triangular')
    return [(st, MAT(n, lambda i, j: ite(le(j, i), TINV(M, i, j), ZERO)))]
def c_mm_square(ex, st, callee, args, rty):
    M = _peel(ex, st, args[0]); n = length(M)
    return [(st, MAT(n, lambda i, j: seqsum_n(n, lambda k: mk('*', at(at(M, k), i), at(at(M, k), j)))))]
def c_mv_mult(ex, st, callee, args, rty):
    M = _peel(ex, st, args[0]); v = _peel(ex, st, args[1]); n = length(M)
    return [(st, VEC(n, lambda i: seqsum_n(n, lambda k: mk('*', at(at(M, i), k), at(v, k)))))]
BY_CONTRACT = {'normal::linalg::' + k: f for k, f in (('cholesky', c_cholesky), ('inverse_lt', c_inverse_lt), ('mm_square', c_mm_square), ('mv_mult', c_mv_mult))}
def linv(a, k, i):
    m = _m2.get(id(a.m))
    if m is None: m = _m2[id(a.m)] = (bm.mat(a.N, lambda r, c: CHOL(a.m, r, c)) if a.N.op == 'num' else bm.mat(a.N, lambda r, c: ite(le(c, r), CHOL(a.m, r, c), ZERO)), a.m)
    m = m[0]
    return ite(le(i, k), app('tinv', 'R', m, k, i), ZERO)
def seqsum_n(n, f):
    return bm.dsum(ZERO, n, f)
def run(tier):
    check.main('P13', tier, contracts(), assumptions=['matrices are non-singular; dimension at least one; BLAS/LAPACK compute what their reference documentation states (column-major)'])
