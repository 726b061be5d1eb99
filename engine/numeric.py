"""Numeric evaluation of terms: mpmath for the real reading, Python floats for
the bit-precise one."""
import mpmath, math, struct
from term import *
from fractions import Fraction
mp = mpmath.mp; mp.dps = 40
LINALG = {'chol', 'tinv', 'tinvu', 'minv', 'mdet'}
class Undef(Exception): pass
class Near(Exception): pass     # a comparison too close to call at the replay's tolerance

def mpq(q): return mpmath.mpf(q.numerator) / q.denominator
CONST = {'pi': lambda: +mpmath.pi, 'e': lambda: +mpmath.e, 'euler': lambda: +mpmath.euler, 'zeta3': lambda: mpmath.zeta(3), 'catalan': lambda: +mpmath.catalan, 'inf': lambda: mpmath.inf, 'ninf': lambda: -mpmath.inf, 'nan': lambda: mpmath.nan}
def _psi(n): return lambda x: mpmath.psi(n, x)
def _ln(x):
    if x == 0: return -mpmath.inf
    if x < 0: raise Undef('ln')
    return mpmath.log(x)
def _sqrt(x):
    if x < 0: raise Undef('sqrt')
    return mpmath.sqrt(x)
def _pow(x, y):
    if x < 0 and y != int(y): raise Undef('pow')
    if x == 0 and y < 0: return mpmath.inf
    return mpmath.power(x, y)
def _choose(n, k):
    if not 0 <= k <= n: return mpmath.mpf(0)
    k = min(k, n - k)
    if k > 5000: raise Undef('choose')
    return mpmath.mpf(math.comb(n, k))
def _gp(a, x):
    if x == mpmath.inf: return mpmath.mpf(1)
    if x <= 0: return mpmath.mpf(0)
    return mpmath.gammainc(a, 0, x, regularized=True)
def _bi(a, b, x): return mpmath.betainc(a, b, 0, x, regularized=True)
FN = {'exp': mpmath.exp, 'ln': _ln, 'sqrt': _sqrt, 'pow': _pow, 'powi': _pow, 'gamma': mpmath.gamma, 'lgamma': mpmath.loggamma, 'digamma': _psi(0), 'trigamma': _psi(1),
      'beta': mpmath.beta, 'lbeta': lambda a, b: mpmath.loggamma(a) + mpmath.loggamma(b) - mpmath.loggamma(a + b), 'erf': mpmath.erf, 'erfc': mpmath.erfc, 'gammp': _gp, 'betai': _bi,
      'normcdf': mpmath.ncdf, 'norminv': lambda p: mpmath.sqrt(2) * mpmath.erfinv(2 * p - 1), 'zeta': mpmath.zeta, 'sin': mpmath.sin, 'cos': mpmath.cos, 'tan': mpmath.tan, 'atan': mpmath.atan,
      'asin': mpmath.asin, 'acos': mpmath.acos, 'sinh': mpmath.sinh, 'cosh': mpmath.cosh, 'tanh': mpmath.tanh, 'floor': mpmath.floor, 'ceil': mpmath.ceil, 'abs': abs, 'cbrt': mpmath.cbrt,
      'trunc': lambda x: mpmath.floor(x) if x >= 0 else mpmath.ceil(x), 'hyp2f1': lambda *a: mpmath.hyp2f1(*a), 'ei': mpmath.ei,
      'fact': lambda n: mpmath.factorial(n), 'choose': lambda n, k: _choose(int(n), int(k)), 'lfact': lambda n: mpmath.loggamma(n + 1)}

FV = {}
def fv(t): return free_vars(t, memo=FV)
class Ev:
    """env: dict var->number; apps: callable (name, args) -> number; eps: relative closeness at which a comparison of computed values is undecided"""
    def __init__(self, env=None, apps=None, eps=0, cap=1000000):
        self.env = env or {}; self.apps = apps; self.eps = eps; self.memo = {}; self.work = [0]; self.cap = cap; self.up = self.bv = None
    def bind(self, v, x):
        e = dict(self.env); e[v] = x
        return self.inner(Ev(e, self.apps, self.eps, self.cap), v)
    def inner(self, r, v): r.up = self; r.bv = v; r.work = self.work; return r
    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            if self.up is not None and self.bv not in fv(t): r = self.up(t)
            else:
                self.work[0] += 1
                if self.work[0] > self.cap: raise Undef('too much work')
                r = self.go(t)
            self.memo[t] = r
        return r
    def linalg(self, a):
        """entries of the Cholesky factor (chol), the inverse of a lower triangle (tinv), the inverse (minv) and the determinant (mdet) of a matrix given by its lower triangle"""
        m = a[2]; key = ('linalg', a[0], m)
        R = self.memo.get(key)
        if R is None:
            if m.op == 'matc':
                k = 0
                while k * (k + 1) // 2 < len(m.a): k += 1
                low = [[self(m.a[r * (r + 1) // 2 + c]) for c in range(r + 1)] for r in range(k)]
            else:
                k = int(self(m.a[2]))
                if k > 64: raise Undef('large matrix')
                low = [[self.bind(m.a[0], mpmath.mpf(r)).bind(m.a[1], mpmath.mpf(c))(m.a[3]) for c in range(r + 1)] for r in range(k)]
            if a[0] in ('tinv', 'tinvu'):
                if a[0] == 'tinvu':
                    for r in range(k): low[r][r] = mpmath.mpf(1)
                R = [[mpmath.mpf(0)] * k for _ in range(k)]
                for c in range(k):
                    for r in range(c, k):
                        if low[r][r] == 0: raise Undef('singular')
                        R[r][c] = ((1 if r == c else 0) - sum(low[r][t] * R[t][c] for t in range(c, r))) / low[r][r]
            else:
                L = [[mpmath.mpf(0)] * k for _ in range(k)]
                for r in range(k):
                    for c in range(r + 1):
                        v = low[r][c] - sum(L[r][t] * L[c][t] for t in range(c))
                        if r == c:
                            if not v > 1e-6 * max(1, abs(low[r][r])): raise Undef('not positive definite')
                            L[r][r] = mpmath.sqrt(v)
                        else: L[r][c] = v / L[c][c]
                if a[0] == 'chol': R = L
                elif a[0] == 'mdet': R = mpmath.fprod(L[r][r] ** 2 for r in range(k))
                else:
                    I = [[mpmath.mpf(0)] * k for _ in range(k)]
                    for c in range(k):
                        for r in range(c, k): I[r][c] = ((1 if r == c else 0) - sum(L[r][t] * I[t][c] for t in range(c, r))) / L[r][r]
                    R = [[sum(I[t][r] * I[t][c] for t in range(max(r, c), k)) for c in range(k)] for r in range(k)]
            self.memo[key] = R
        if a[0] == 'mdet': return R
        r, c = int(self(a[3])), int(self(a[4]))
        if not (0 <= r < len(R) and 0 <= c < len(R)): raise Undef('index')
        return R[r][c]
    def leaf(self, t): return t.op in ('num', 'f', 'var', 'app', 'i2f') or t.op == 'neg' and self.leaf(t.a[0])
    def cmp(self, a, b, x, y):
        if self.eps and not (self.leaf(a) and self.leaf(b)) and x != mpmath.inf and y != mpmath.inf and not mpmath.isnan(x) and not mpmath.isnan(y):
            if abs(x - y) <= self.eps * max(1, abs(x), abs(y)): raise Near()
    def go(self, t):
        o = t.op; a = t.a
        if o == 'num': return mpq(a[0]) if a[0].denominator != 1 else mpmath.mpf(a[0].numerator)
        if o == 'f':
            v = fval(a[0]); return mpmath.mpf(v)
        if o == 'var':
            if t in self.env: return self.env[t]
            raise Undef('unbound ' + a[0])
        if o == 'const': return CONST[a[0]]()
        if o == 'true': return True
        if o == 'false': return False
        if o == 'not': return not self(a[0])
        if o == 'and':
            near = None
            for x in a:
                try:
                    if not self(x): return False
                except Near as e: near = e
            if near: raise near
            return True
        if o == 'or':
            near = None
            for x in a:
                try:
                    if self(x): return True
                except Near as e: near = e
            if near: raise near
            return False
        if o in ('<', '<=', '='):
            if is_bool(a[0]): return self(a[0]) == self(a[1])
            x, y = self(a[0]), self(a[1])
            if isinstance(x, bool) or isinstance(y, bool): return x == y
            self.cmp(a[0], a[1], x, y)
            return x < y if o == '<' else x <= y if o == '<=' else x == y
        if o == 'same':
            x, y = self(a[0]), self(a[1]); return x == y or (x != x and y != y)
        if o == 'ite': return self(a[1]) if self(a[0]) else self(a[2])
        if o == 'isnan': return bool(mpmath.isnan(self(a[0])))
        if o == 'isinf': return bool(mpmath.isinf(self(a[0])))
        if o in BINDERS:
            lo, hi = int(self(a[1])), int(self(a[2]))
            if hi - lo > 100000: raise Undef('long range')
            acc = {'sum': mpmath.mpf(0), 'prod': mpmath.mpf(1), 'forall': True, 'exists': False}[o]
            near = None
            for i in range(lo, hi):
                try: x = self.bind(a[0], mpmath.mpf(i))(a[3])
                except Near as e:
                    near = e; continue
                if o == 'sum': acc += x
                elif o == 'prod': acc *= x
                elif o == 'forall':
                    if not x: return False
                elif x: return True
            if near: raise near
            return acc
        if o == 'app':
            if a[0] in LINALG: return self.linalg(a)
            if a[0] == 'iand': return mpmath.mpf(int(self(a[2])) & int(self(a[3])))
            if self.apps is None: raise Undef('app ' + a[0])
            return self.apps(a[0], a[1], [self(x) for x in a[2:]])
        xs = [self(x) for x in a]
        if o == '+': return xs[0] + xs[1]
        if o == '-': return xs[0] - xs[1]
        if o == '*': return xs[0] * xs[1]
        if o == '/':
            if xs[1] == 0:
                if xs[0] == 0 or mpmath.isnan(xs[0]): return mpmath.nan
                return mpmath.inf if xs[0] > 0 else -mpmath.inf
            return xs[0] / xs[1]
        if o == 'neg': return -xs[0]
        if o == 'i2f': return xs[0]
        if o == 'fmod': return mpmath.fmod(xs[0], xs[1]) if False else xs[0] - xs[1] * FN['trunc'](xs[0] / xs[1])
        if o == 'idiv' or o == 'tdiv':
            if xs[1] == 0: raise Undef('div')
            return mpmath.mpf(int(int(xs[0]) // int(xs[1])) if (xs[0] >= 0) == (xs[1] > 0) else -(abs(int(xs[0])) // abs(int(xs[1]))))
        if o == 'imod' or o == 'tmod': return mpmath.mpf(math.fmod(int(xs[0]), int(xs[1]))) if abs(xs[0]) < 2**50 else mpmath.mpf(int(xs[0]) % int(xs[1]))
        if o == 'wrap':
            lo, hi = int(xs[1]), int(xs[2]); return mpmath.mpf((int(xs[0]) - lo) % (hi - lo + 1) + lo)
        if o == 'f2i':
            lo, hi = xs[1], xs[2]
            if mpmath.isnan(xs[0]): return mpmath.mpf(0)
            if mpmath.isinf(xs[0]): return hi if xs[0] > 0 else lo
            return min(max(FN['trunc'](xs[0]), lo), hi)
        f = FN.get(o)
        if f is None: raise Undef(o)
        try: r = f(*xs)
        except (ValueError, ZeroDivisionError, OverflowError, mpmath.libmp.NoConvergence) as e: raise Undef('%s: %s' % (o, e))
        if isinstance(r, mpmath.mpc):
            if abs(r.imag) > 1e-20 * max(1, abs(r.real)): raise Undef('complex')
            r = r.real
        return r

class FEv(Ev):
    """IEEE-754 reading"""
    def go(self, t):
        o = t.op; a = t.a
        if o == 'num': return int(a[0]) if a[0].denominator == 1 else float(a[0])
        if o == 'f': return fval(a[0])
        if o in ('+', '-', '*', '/', 'neg'):
            xs = [self(x) for x in a]
            if o == '+': return xs[0] + xs[1]
            if o == '-': return xs[0] - xs[1]
            if o == '*': return xs[0] * xs[1]
            if o == 'neg': return -xs[0]
            x, y = float(xs[0]), float(xs[1])
            if y == 0:
                if x == 0 or x != x: return float('nan')
                return math.copysign(float('inf'), x) * math.copysign(1, y)
            return x / y
        if o == 'fmod':
            x, y = float(self(a[0])), float(self(a[1]))
            return float('nan') if y == 0 or x != x or y != y or math.isinf(x) else math.fmod(x, y)
        if o == 'i2f': return float(self(a[0]))
        if o == 'sqrt':
            x = self(a[0]); return float('nan') if x < 0 or x != x else math.sqrt(x)
        if o == 'abs': return abs(self(a[0]))
        if o == 'isnan': x = self(a[0]); return x != x
        if o == 'isinf': return math.isinf(self(a[0]))
        if o == 'same':
            x, y = self(a[0]), self(a[1])
            if isinstance(x, float) and isinstance(y, float): return (x != x and y != y) or struct.pack('<d', x) == struct.pack('<d', y)
            return x == y
        if o in ('sum', 'prod'):
            lo, hi = int(self(a[1])), int(self(a[2])); acc = 0.0 if o == 'sum' else 1.0
            for i in range(lo, hi):
                x = self.bind(a[0], i)(a[3]); acc = acc + x if o == 'sum' else acc * x
            return acc
        if o in ('forall', 'exists'):
            lo, hi = int(self(a[1])), int(self(a[2]))
            for i in range(lo, hi):
                x = self.bind(a[0], i)(a[3])
                if o == 'forall' and not x: return False
                if o == 'exists' and x: return True
            return o == 'forall'
        if o in ('idiv', 'tdiv', 'imod', 'tmod'):
            x, y = int(self(a[0])), int(self(a[1]))
            if y == 0: raise Undef('div')
            q = abs(x) // abs(y); q = q if (x >= 0) == (y > 0) else -q
            return q if o in ('idiv', 'tdiv') else x - q * y
        if o == 'const': return float(CONST[a[0]]())
        return Ev.go(self, t)
    def cmp(self, *a): pass
    def bind(self, v, x):
        e = dict(self.env); e[v] = x
        return self.inner(FEv(e, self.apps, self.eps, self.cap), v)
