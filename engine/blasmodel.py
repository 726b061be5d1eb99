"""Assumed contracts of the BLAS/LAPACK routines rstat calls (reference
documentation, column-major storage).  Matrices are passed as row-major
[[f64; N]; N], so the column-major entry A(i, j) is M[j][i]."""
from term import *
import mir
from mir import Unsupported, Arr, Seq, Ptr, UNIT, fresh, seq_get, seqlen

def _val(ex, st, p):
    q = p
    while isinstance(q, Ptr) and isinstance(ex.read(st, q.c, q.p), Ptr): q = ex.read(st, q.c, q.p)
    return q, ex.read(st, q.c, q.p)
def _c(x):
    if x.op != 'num': raise Unsupported('BLAS flag is not constant')
    return chr(int(x.a[0])).upper()
def is_dim(st, x, n):
    """x is n, or max(1, n)"""
    if x is n: return True
    if x.op == 'num' and n.op == 'num': return int(x.a[0]) == max(1, int(n.a[0]))
    if x is ONE and n.op != 'num': return any(c in st.pc for c in (le(n, ONE), not_(lt(ONE, n)), lt(n, ONE), not_(lt(ZERO, n)), not_(le(ONE, n))))
    if x.op == 'ite': return is_dim(st, x.a[1], n) or is_dim(st, x.a[2], n)
    if x.op == 'wrap': return is_dim(st, x.a[0], n)
    return False
def dims(ex, st, M):
    n = seqlen(M)
    return n
def el(M, i, j): return seq_get(seq_get(M, i), j)
def mat(n, f):
    """canonical term of the n x n matrix with entries f(i, j)"""
    i, j = var('mi', 'I'), var('mj', 'I')
    if n.op == 'num':
        k = int(n.a[0])
        return mk('matc', *[f(num(a), num(b)) for a in range(k) for b in range(a + 1)])
    return mk('mat', i, j, n, simp(f(i, j), [le(ZERO, j), le(j, i), lt(i, n)]))
_memo = {}
def ites(t):
    """conditions of the case distinctions outside binders and nested matrices, outermost first"""
    out = []; seen = set()
    def go(t):
        if t in seen: return
        seen.add(t)
        if t.op in BINDERS or t.op in ('lam', 'mat'): return
        if t.op == 'ite': out.append(t.a[0])
        for x in t.a:
            if isinstance(x, T): go(x)
    go(t); return out
def simp(t, hy):
    """resolve the case distinctions decided by the index bounds"""
    from smt import Smt
    from contract import pick
    key = (t, tuple(hy))
    if key in _memo: return _memo[key]
    s = Smt('real'); r = t; tried = set()
    while True:
        cs = [c for c in ites(r) if c not in tried][:1]
        if not cs: break
        c = cs[0]; tried.add(c)
        if s.check(hy + [not_(c)], 500) == 'unsat': r = pick(r, c, True, {})
        elif s.check(hy + [c], 500) == 'unsat': r = pick(r, c, False, {})
    _memo[key] = r
    return r
def build(n, m, f):
    """matrix value with entries f(r, c)"""
    if n.op == 'num' and m.op == 'num': return Arr([Arr([f(num(r), num(c)) for c in range(int(m.a[0]))]) for r in range(int(n.a[0]))])
    return Seq(n, lambda r: Seq(m, lambda c: f(r, c), ''), '')
def vec(n, f):
    if n.op == 'num': return Arr([f(num(i)) for i in range(int(n.a[0]))])
    return Seq(n, f, '')
def dsum(lo, hi, f):
    if lo.op == 'num' and hi.op == 'num':
        r = num(0)
        for i in range(int(lo.a[0]), int(hi.a[0])): r = add(r, f(num(i)))
        return r
    k = fresh('i', 'I'); return sum_(k, lo, hi, f(k))
def sel(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    return ite(c, a, b)
def unwrapdim(st, x):
    """N as i32"""
    return x.a[1] if x.op == 'ite' and x.a[2].op == 'wrap' else x

def call(ex, st, name, args, loc):
    ex.assumed.add('BLAS/LAPACK: %s computes what its reference documentation states' % name)
    D = lambda x: unwrapdim(st, x)
    def square(p, lda, n):
        q, M = _val(ex, st, p)
        if not isinstance(M, (Arr, Seq)): raise Unsupported('matrix argument of ' + name)
        N = seqlen(M)
        if not (is_dim(st, D(n), N) and is_dim(st, D(lda), N)): raise Unsupported('matrix dimensions of ' + name)
        return q, M, N
    if name == 'dpotrf':
        uplo, n, a, lda, info = args
        q, M, N = square(a, lda, n); u = _c(uplo)
        if u == 'U':
            m = mat(N, lambda i, j: el(M, i, j))
            R = build(N, N, lambda r, c: sel(le(c, r), app('chol', 'R', m, r, c), el(M, r, c)))
        elif u == 'L':
            m = mat(N, lambda i, j: el(M, j, i))
            R = build(N, N, lambda r, c: sel(le(r, c), app('chol', 'R', m, c, r), el(M, r, c)))
        else: raise Unsupported('uplo')
        ex.write(st, q.c, q.p, R)
        ex.write(st, args[4].c, args[4].p, ZERO)
        return [(st, UNIT)]
    if name == 'dtrtri':
        uplo, diag, n, a, lda, info = args
        q, M, N = square(a, lda, n); u = _c(uplo)
        unit = _c(diag) == 'U'
        def inv(m, r, c):
            if not unit: return app('tinv', 'R', m, r, c)
            return sel(eq(r, c), el(M, r, c), app('tinvu', 'R', m, r, c))
        if u == 'U':
            m = mat(N, lambda i, j: el(M, i, j))
            R = build(N, N, lambda r, c: sel(le(c, r), inv(m, r, c), el(M, r, c)))
        elif u == 'L':
            m = mat(N, lambda i, j: el(M, j, i))
            R = build(N, N, lambda r, c: sel(le(r, c), inv(m, c, r), el(M, r, c)))
        else: raise Unsupported('uplo')
        ex.write(st, q.c, q.p, R)
        ex.write(st, args[5].c, args[5].p, ZERO)
        return [(st, UNIT)]
    if name == 'dgemm':
        ta, tb, m, n, k, alpha, a, lda, b, ldb, beta, c, ldc = args
        qa, A, N = square(a, lda, m); qb, B, N2 = square(b, ldb, n); qc, C, N3 = square(c, ldc, k)
        if N is not N2 or N is not N3: raise Unsupported('matrix dimensions of dgemm')
        opa = (lambda i, j: el(A, j, i)) if _c(ta) == 'N' else (lambda i, j: el(A, i, j))
        opb = (lambda i, j: el(B, j, i)) if _c(tb) == 'N' else (lambda i, j: el(B, i, j))
        def ent(r, cc):   # out[r][cc] = C_c(cc, r)
            s = dsum(ZERO, N, lambda t: mk('*', opa(cc, t), opb(t, r)))
            if not (alpha.op == 'f' and fval(alpha.a[0]) == 1.0): s = mk('*', alpha, s)
            if not (beta.op == 'f' and fval(beta.a[0]) == 0.0): s = mk('+', s, mk('*', beta, el(C, r, cc)))
            return s
        ex.write(st, qc.c, qc.p, build(N, N, ent))
        return [(st, UNIT)]
    if name == 'dtrmv':
        uplo, trans, diag, n, a, lda, x, incx = args
        q, M, N = square(a, lda, n); qx, X = _val(ex, st, x)
        if incx is not ONE or _c(diag) != 'N': raise Unsupported('dtrmv arguments')
        Ac = lambda i, j: el(M, j, i)
        up = _c(uplo) == 'U'; tr = _c(trans) in 'TC'
        def ent(i):
            if up and not tr: return dsum(i, N, lambda j: mk('*', Ac(i, j), seq_get(X, j)))
            if up and tr: return dsum(ZERO, add(i, ONE), lambda j: mk('*', Ac(j, i), seq_get(X, j)))
            if not up and not tr: return dsum(ZERO, add(i, ONE), lambda j: mk('*', Ac(i, j), seq_get(X, j)))
            return dsum(i, N, lambda j: mk('*', Ac(j, i), seq_get(X, j)))
        ex.write(st, qx.c, qx.p, vec(N, ent))
        return [(st, UNIT)]
    if name in ('dgemv', 'dsymv'):
        if name == 'dgemv': trans, m, n, alpha, a, lda, x, incx, beta, y, incy = args
        else:
            uplo, n, alpha, a, lda, x, incx, beta, y, incy = args; trans = None
        q, M, N = square(a, lda, n); qx, X = _val(ex, st, x); qy, Y = _val(ex, st, y)
        if incx is not ONE or incy is not ONE: raise Unsupported(name + ' strides')
        if name == 'dsymv':
            up = _c(uplo) == 'U'     # A_c upper = M lower
            A = lambda i, j: sel(le(j, i), el(M, i, j), el(M, j, i)) if up else sel(le(i, j), el(M, i, j), el(M, j, i))
        else: A = (lambda i, j: el(M, i, j)) if _c(trans) in 'TC' else (lambda i, j: el(M, j, i))
        def ent(i):
            s = dsum(ZERO, N, lambda j: mk('*', A(i, j), seq_get(X, j)))
            if not (alpha.op == 'f' and fval(alpha.a[0]) == 1.0): s = mk('*', alpha, s)
            if not (beta.op == 'f' and fval(beta.a[0]) == 0.0): s = mk('+', s, mk('*', beta, seq_get(Y, i)))
            return s
        ex.write(st, qy.c, qy.p, vec(N, ent))
        return [(st, UNIT)]
    if name == 'ddot':
        n, x, incx, y, incy = args
        _, X = _val(ex, st, x); _, Y = _val(ex, st, y)
        if incx is not ONE or incy is not ONE: raise Unsupported('ddot strides')
        return [(st, dsum(ZERO, seqlen(X), lambda j: mk('*', seq_get(X, j), seq_get(Y, j))))]
    raise Unsupported('BLAS routine ' + name)
