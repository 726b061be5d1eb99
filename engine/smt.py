"""z3 back end.  mode 'real': machine floats are mathematical reals, special
functions are uninterpreted with instantiated axioms.  mode 'fp': floats are
IEEE-754 doubles (bit precise, all NaN, infinities and signed zeros included);
floating-point sums over sequences are uninterpreted."""
import os, z3, time
from term import *
from fractions import Fraction

STATS = {'queries': 0, 'time': 0.0, 'unknown': 0}
CONSTS = {'pi': (Fraction('3.14159265358979323846264338327950288'), ), 'e': (Fraction('2.71828182845904523536028747135266249'),),
          'euler': (Fraction('0.57721566490153286060651209008240243'),), 'zeta3': (Fraction('1.20205690315959428539973816151144999'),), 'catalan': (Fraction('0.91596559417721901505460351493238411'),)}
EPS = Fraction(1, 10**30)

def sort(t, memo={}):
    o = t.op
    if o == 'var' or o == 'app': return t.a[1]
    if o == 'num': return 'N'          # numeral: either
    if o in ('f', 'const', 'i2f'): return 'R'
    if is_bool(t): return 'B'
    if o in ('idiv', 'imod', 'tdiv', 'tmod', 'wrap', 'f2i', 'fact', 'choose', 'f_to_bits'): return 'I'
    r = memo.get(t)
    if r: return r
    if o in ('+', '-', '*', 'neg'): r = join(*[sort(x) for x in t.a])
    elif o == 'ite': r = join(sort(t.a[1]), sort(t.a[2]))
    elif o in ('sum', 'prod'): r = sort(t.a[3])
    elif o in ('mat', 'matc', 'lam', 'tup'): r = 'U'
    elif o == '/': r = 'R'
    else: r = 'R'
    memo[t] = r
    return r
def join(*s):
    if 'U' in s: return 'U'
    if 'R' in s: return 'R'
    if 'I' in s: return 'I'
    return 'N'

F64 = z3.Float64()
RNE = z3.RNE()
ELEMRANGE = {}        # element functions of input sequences of a machine integer type -> range
NLRL = int(__import__('os').environ.get('NLRL', '2000'))
def wall():
    """the time limits are a backstop behind the resource limits: give them more room on a machine that is busy with other work"""
    try: return max(1.0, min(4.0, os.getloadavg()[0] / (os.cpu_count() or 4)))
    except OSError: return 1.0
SCALE = [1]            # raised when an obligation that used to be discharged is tried again
class Smt:
    def __init__(self, mode='real', timeout=2000, rlimit=4000000):
        self.mode = mode; self.timeout = timeout; self.rlimit = rlimit
        self.U = z3.DeclareSort('U')
        self.memo = {}; self.ax = {}; self.cache = {}; self.funs = {}; self.nfresh = 0; self.inst = {}

    # ---- polynomial arithmetic by nlsat: everything that is not a polynomial, a quotient or a square root is opaque
    def nlsat(self, hy, goal, ms=3000):
        if self.mode != 'real': return False
        at = {}; side = []
        class No(Exception): pass
        def real(t):
            o, a = t.op, t.a
            if o == 'num': return z3.RealVal(str(a[0]))
            if o == 'f':
                from norm import f_exact
                return real(f_exact(a[0]))
            if o == '+': return real(a[0]) + real(a[1]) if len(a) == 2 else z3.Sum([real(x) for x in a])
            if o == '-': return real(a[0]) - real(a[1])
            if o == '*':
                r = real(a[0])
                for x in a[1:]: r = r * real(x)
                return r
            if o == 'neg': return -real(a[0])
            if o == 'i2f': return real(a[0])
            r = at.get(t)
            if r is None:
                r = at[t] = z3.Real('nl%d' % len(at))
                if o == '/':
                    y = real(a[1]); side.append(z3.Implies(y != 0, r * y == real(a[0])))
                elif o == 'sqrt':
                    x = real(a[0]); side.append(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
                elif o == 'exp': side.append(r > 0)
                elif o == 'abs':
                    x = real(a[0]); side.append(z3.And(r >= 0, r * r == x * x, r >= x, r >= -x))
                elif o == 'pow': side.append(z3.Implies(real(a[0]) > 0, r > 0))
                elif o == 'const' and a[0] in CONSTS: side.append(z3.And(r > z3.RealVal(str(CONSTS[a[0]][0] - EPS)), r < z3.RealVal(str(CONSTS[a[0]][0] + EPS))))
                elif o == 'ite': raise No
            return r
        def bool_(t):
            o, a = t.op, t.a
            if o == 'true': return z3.BoolVal(True)
            if o == 'false': return z3.BoolVal(False)
            if o == 'not': return z3.Not(bool_(a[0]))
            if o == 'and': return z3.And(*[bool_(x) for x in a])
            if o == 'or': return z3.Or(*[bool_(x) for x in a])
            if o in ('<', '<=', '=') and sort(a[0]) in 'RNI' and sort(a[1]) in 'RNI':
                x, y = real(a[0]), real(a[1]); return {'<': x < y, '<=': x <= y, '=': x == y}[o]
            raise No
        cs = []
        for h in hy:
            try: cs.append(bool_(h))
            except No: pass
        try: cs.append(z3.Not(bool_(goal)))
        except No: return False
        t0 = time.time()
        s = z3.Then('simplify', 'purify-arith', 'solve-eqs', 'qfnra-nlsat').solver(); s.set('timeout', int(ms * 6 * SCALE[0] * wall())); s.set('rlimit', int(ms * NLRL * SCALE[0])); s.add(*cs, *side)
        try: r = str(s.check())
        except z3.Z3Exception: r = 'unknown'
        STATS['queries'] += 1; STATS['time'] += time.time() - t0
        if __import__('os').environ.get('NLDBG'): print('nlsat', ms, r, round(time.time()-t0,2), [x for x in str(s.statistics()).split('\n') if 'rlimit' in x], file=__import__('sys').stderr)
        return r == 'unsat'
    # ---- translation
    def num(self, q, s):
        if s == 'I' and q.denominator == 1: return z3.IntVal(int(q))
        if self.mode == 'fp' and s in ('R', 'N') and s == 'R':
            return z3.FPVal(float(q), F64) if Fraction(float(q)) == q else z3.fpToFP(RNE, z3.RealVal(str(q)), F64)
        return z3.RealVal(str(q))
    def fun(self, name, doms, rng):
        k = (name, tuple(d.sexpr() for d in doms), rng.sexpr())
        if k not in self.funs: self.funs[k] = z3.Function('%s/%d' % (name, len(self.funs)), *doms, rng)
        return self.funs[k]
    def zs(self, s): return {'I': z3.IntSort(), 'R': F64 if self.mode == 'fp' else z3.RealSort(), 'B': z3.BoolSort(), 'U': self.U, 'N': F64 if self.mode == 'fp' else z3.RealSort()}[s]
    def tr(self, t, want=None):
        """translate; want: 'R' or 'I' for numerals / coercion"""
        if t.op == 'num': return self.num(t.a[0], want or 'R')
        k = (t, want) if t.op in ('+', '-', '*', 'neg', 'ite', 'sum', 'prod') and sort(t) == 'N' else t
        r = self.memo.get(k)
        if r is None:
            r = self._tr(t, want); self.memo[k] = r
        if want == 'R' and sort(t) == 'I': return self.i2f(r)
        return r
    def i2f(self, r):
        return z3.fpToFP(RNE, z3.ToReal(r), F64) if self.mode == 'fp' else z3.ToReal(r) if r.is_int() else r
    def _tr(self, t, want):
        o = t.op; a = t.a
        if o == 'var':
            return z3.Const(a[0], self.zs(a[1]))
        if o == 'f':
            v = fval(a[0])
            if self.mode == 'fp': return z3.fpBVToFP(z3.BitVecVal(a[0], 64), F64)
            from norm import f_exact
            return self.tr(f_exact(a[0]), 'R')
        if o == 'const':
            if self.mode == 'fp':
                import mpmath
                return z3.FPVal({'inf': float('inf'), 'ninf': float('-inf'), 'nan': float('nan')}.get(a[0]) if a[0] in ('inf', 'ninf', 'nan') else float(CONSTS[a[0]][0]), F64)
            c = z3.Real('const:' + a[0])
            if a[0] in CONSTS: self.axiom(t, z3.And(c > z3.RealVal(str(CONSTS[a[0]][0] - EPS)), c < z3.RealVal(str(CONSTS[a[0]][0] + EPS))))
            return c
        if o == 'true': return z3.BoolVal(True)
        if o == 'false': return z3.BoolVal(False)
        if o == 'not': return z3.Not(self.tr(a[0]))
        if o == 'and': return z3.And(*[self.tr(x) for x in a])
        if o == 'or': return z3.Or(*[self.tr(x) for x in a])
        if o in ('<', '<=', '='):
            s = join(sort(a[0]), sort(a[1]))
            if sort(a[0]) == 'B': return self.tr(a[0]) == self.tr(a[1])
            if s == 'U': return self.tr(a[0]) == self.tr(a[1])
            if s == 'N': s = 'R' if self.mode != 'fp' else 'Q'
            if s == 'Q': x, y = z3.RealVal(str(a[0].a[0])), z3.RealVal(str(a[1].a[0]))
            else: x, y = self.tr(a[0], s), self.tr(a[1], s)
            if self.mode == 'fp' and s == 'R': return {'<': z3.fpLT, '<=': z3.fpLEQ, '=': z3.fpEQ}[o](x, y)
            return {'<': x < y, '<=': x <= y, '=': x == y}[o]
        if o == 'same':      # identical value (bit identity up to NaN payload)
            s = join(sort(a[0]), sort(a[1]))
            return self.tr(a[0], s) == self.tr(a[1], s)
        if o == 'isnan': return z3.fpIsNaN(self.tr(a[0], 'R')) if self.mode == 'fp' else z3.BoolVal(False)
        if o == 'isinf': return z3.fpIsInf(self.tr(a[0], 'R')) if self.mode == 'fp' else z3.BoolVal(False)
        if o in ('forall', 'exists'):
            v = self.tr(a[0]); lo, hi = self.tr(a[1], 'I'), self.tr(a[2], 'I'); b = self.tr(a[3])
            if o == 'forall': return z3.ForAll([v], z3.Implies(z3.And(lo <= v, v < hi), b))
            return z3.Exists([v], z3.And(lo <= v, v < hi, b))
        if o == 'ite':
            s = want or join(sort(a[1]), sort(a[2]))
            if sort(a[1]) == 'B': return z3.If(self.tr(a[0]), self.tr(a[1]), self.tr(a[2]))
            s2 = join(sort(a[1]), sort(a[2]))
            if s2 == 'N': s2 = want or 'R'
            return z3.If(self.tr(a[0]), self.tr(a[1], s2), self.tr(a[2], s2))
        if o in ('+', '-', '*', 'neg'):
            s = sort(t)
            if s == 'N': s = want or 'R'
            x = [self.tr(y, s) for y in a]
            if self.mode == 'fp' and s == 'R':
                return {'+': lambda: z3.fpAdd(RNE, *x), '-': lambda: z3.fpSub(RNE, *x), '*': lambda: z3.fpMul(RNE, *x), 'neg': lambda: z3.fpNeg(x[0])}[o]()
            return {'+': lambda: x[0] + x[1], '-': lambda: x[0] - x[1], '*': lambda: x[0] * x[1], 'neg': lambda: -x[0]}[o]()
        if o == '/':
            x = [self.tr(y, 'R') for y in a]
            return z3.fpDiv(RNE, *x) if self.mode == 'fp' else x[0] / x[1]
        if o == 'i2f': return self.i2f(self.tr(a[0], 'I'))
        if o in ('idiv', 'imod'):
            x, y = self.tr(a[0], 'I'), self.tr(a[1], 'I')
            return x / y if o == 'idiv' else x % y
        if o == 'tdiv' or o == 'tmod':
            x, y = self.tr(a[0], 'I'), self.tr(a[1], 'I')
            q = z3.If(x >= 0, x / y, -((-x) / y)); q = z3.If(y > 0, q, z3.If(x >= 0, -(x / (-y)), (-x) / (-y)))
            return q if o == 'tdiv' else x - q * y
        if o == 'wrap':
            x = self.tr(a[0], 'I'); lo, hi = int(a[1].a[0]), int(a[2].a[0])
            return (x - lo) % (hi - lo + 1) + lo
        if o == 'f2i':
            x = self.tr(a[0], 'R'); lo, hi = int(a[1].a[0]), int(a[2].a[0])
            if self.mode == 'fp':
                rx = z3.fpToReal(x); q = z3.If(rx >= 0, z3.ToInt(rx), -z3.ToInt(-rx))
                return z3.If(z3.fpIsNaN(x), z3.IntVal(0), z3.If(z3.fpIsInf(x), z3.If(z3.fpIsNegative(x), z3.IntVal(lo), z3.IntVal(hi)), z3.If(q < lo, lo, z3.If(q > hi, hi, q))))
            q = z3.If(x >= 0, z3.ToInt(x), -z3.ToInt(-x))
            return z3.If(q < lo, z3.IntVal(lo), z3.If(q > hi, z3.IntVal(hi), q))
        if self.mode == 'fp':
            if o == 'sqrt': return z3.fpSqrt(RNE, self.tr(a[0], 'R'))
            if o == 'abs': return z3.fpAbs(self.tr(a[0], 'R'))
            if o == 'fmod': pass
            if o in ('floor', 'ceil', 'trunc', 'round'):
                return z3.fpRoundToIntegral({'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ(), 'round': z3.RNA()}[o], self.tr(a[0], 'R'))
        else:
            if o == 'abs':
                x = self.tr(a[0], 'R'); return z3.If(x >= 0, x, -x)
            if o == 'floor': return z3.ToReal(z3.ToInt(self.tr(a[0], 'R')))
            if o == 'ceil': return -z3.ToReal(z3.ToInt(-self.tr(a[0], 'R')))
            if o == 'trunc':
                x = self.tr(a[0], 'R'); return z3.If(x >= 0, z3.ToReal(z3.ToInt(x)), -z3.ToReal(z3.ToInt(-x)))
            if o == 'pow' or o == 'powi':
                if a[1].op == 'num' and a[1].a[0].denominator == 1 and 0 <= a[1].a[0] <= 8:
                    x = self.tr(a[0], 'R'); r = z3.RealVal(1)
                    for _ in range(int(a[1].a[0])): r = r * x
                    return r
        if o == 'app':
            args = [self.tr(x, 'R' if sort(x) == 'N' else None) if not self.intarg(x) else self.tr(x, 'I') for x in a[2:]]
            if not args: return z3.Const(a[0] + '()', self.zs(a[1]))
            r = self.fun('app:' + a[0], [x.sort() for x in args], self.zs(a[1]))(*args)
            if a[0] in ELEMRANGE and a[1] == 'I': self.axiom(t, ELEMRANGE[a[0]][0] <= r, r <= ELEMRANGE[a[0]][1])
            if a[0] == 'iand': self.axiom(t, 0 <= r, z3.Implies(args[0] >= 0, r <= args[0]), z3.Implies(args[1] >= 0, r <= args[1]))
            if a[0] in ('draw:U01', 'draw:Open01') and self.mode == 'real': self.axiom(t, 0 <= r if a[0] == 'draw:U01' else 0 < r, r < 1)
            return r
        if o in BINDERS or o in ('mat', 'matc', 'lam', 'tup'):
            # opaque, identified by the (alpha-normalised) term
            if o in ('sum', 'prod'):
                key, fv = alpha(mk('lam', t.a[0], t.a[3])); key = (o, key); ext = [self.tr(t.a[1], 'I'), self.tr(t.a[2], 'I')]
            else: key, fv = alpha(t); ext = []
            args = [self.tr(v) for v in fv] + ext
            f = self.fun('opq%d' % opq_id(key), [x.sort() for x in args], self.zs(sort(t))) if args else z3.Const('opq%d' % opq_id(key), self.zs(sort(t)))
            r = f(*args) if args else f
            if o in ('sum', 'prod') and self.mode == 'real': self.sumax(t, r)
            return r
        if o in ('fact', 'choose') and self.mode == 'real':
            args = [self.tr(x, 'I') for x in a]
            r = self.fun('fn:' + o, [x.sort() for x in args], z3.IntSort())(*args)
            self.combax(t, o, args, r)
            return r
        # uninterpreted special function
        args = [self.tr(x, 'R') for x in a if isinstance(x, T)]
        r = self.fun('fn:' + o, [x.sort() for x in args], self.zs('R'))(*args) if args else z3.Const('fn:' + o, self.zs('R'))
        if self.mode == 'real': self.fnax(t, o, args, r)
        return r
    def intarg(self, x): return x.op == 'num' and x.a[0].denominator == 1
    def axiom(self, t, *cs): self.ax.setdefault(t, []).extend(cs)
    def sumax(self, t, r):
        b = t.a[3]
        if nonneg_syntactic(b): self.axiom(t, r >= 0)
        lo, hi = self.tr(t.a[1], 'I'), self.tr(t.a[2], 'I')
        if t.op == 'sum':
            lv = leaves(b)
            if lv: self.axiom(t, z3.Implies(lo <= hi, z3.And(r >= z3val(min(lv)) * (hi - lo), r <= z3val(max(lv)) * (hi - lo))))
        self.axiom(t, z3.Implies(hi <= lo, r == (0 if t.op == 'sum' else 1)))
    def combax(self, t, o, x, r):
        A = lambda *c: self.axiom(t, *c)
        L = self.inst.setdefault(o, [])
        if o == 'fact':
            A(r >= 1, z3.Implies(x[0] == 0, r == 1))
            for t2, y, r2 in L: self.ax.setdefault((t, t2), []).extend([z3.Implies(x[0] == y[0] + 1, r == r2 * x[0]), z3.Implies(y[0] == x[0] + 1, r2 == r * y[0]), z3.Implies(z3.And(x[0] <= y[0], x[0] >= 0), r <= r2), z3.Implies(z3.And(y[0] <= x[0], y[0] >= 0), r2 <= r)])
        else:
            n, k = x
            A(r >= 0, z3.Implies(z3.And(0 <= k, k <= n), r >= 1), z3.Implies(z3.And(n >= 0, k > n), r == 0), z3.Implies(z3.And(n >= 0, k == 0), r == 1), z3.Implies(z3.And(n >= 0, k == n), r == 1), z3.Implies(z3.And(n >= 1, k == 1), r == n))
            for t2, (m, j), r2 in L:
                same = n == m
                self.ax.setdefault((t, t2), []).extend([
                    z3.Implies(z3.And(same, 0 <= j, k == j + 1, j < n), r * k == r2 * (n - j)), z3.Implies(z3.And(same, 0 <= k, j == k + 1, k < n), r2 * j == r * (n - k)),
                    z3.Implies(z3.And(same, 0 <= j, j <= k, 2 * k <= n), r2 <= r), z3.Implies(z3.And(same, 0 <= k, k <= j, 2 * j <= n), r <= r2),
                    z3.Implies(z3.And(same, 0 <= k, 0 <= j, k + j == n), r == r2)])
        L.append((t, x, r))
    def fnax(self, t, o, x, r):
        A = lambda *c: self.axiom(t, *c)
        if o == 'exp': A(r > 0, r >= 1 + x[0], z3.Implies(x[0] < 0, r < 1), z3.Implies(x[0] > 0, r > 1), z3.Implies(x[0] == 0, r == 1), z3.Implies(x[0] < 1, r * (1 - x[0]) <= 1))
        elif o == 'ln': A(z3.Implies(x[0] > 1, r > 0), z3.Implies(z3.And(x[0] > 0, x[0] < 1), r < 0), z3.Implies(x[0] == 1, r == 0), z3.Implies(x[0] > 0, r <= x[0] - 1), z3.Implies(x[0] > 0, r * x[0] >= x[0] - 1))
        elif o == 'sqrt': A(z3.Implies(x[0] >= 0, z3.And(r >= 0, r * r == x[0])), z3.Implies(x[0] > 0, r > 0))
        elif o in ('pow', 'powi'):
            A(z3.Implies(x[0] > 0, r > 0), z3.Implies(x[1] == 0, r == 1), z3.Implies(x[1] == 1, r == x[0]), z3.Implies(x[0] == 1, r == 1),
              z3.Implies(z3.And(x[0] > 1, x[1] > 0), r > 1), z3.Implies(z3.And(x[0] > 1, x[1] < 0), r < 1),
              z3.Implies(z3.And(x[0] > 0, x[0] < 1, x[1] > 0), r < 1), z3.Implies(z3.And(x[0] > 0, x[0] < 1, x[1] < 0), r > 1), z3.Implies(z3.And(x[0] == 0, x[1] > 0), r == 0))
        elif o == 'gamma': A(z3.Implies(x[0] > 0, r > 0))
        elif o == 'beta': A(z3.Implies(z3.And(x[0] > 0, x[1] > 0), r > 0))
        elif o in ('fact',): A(r > 0)
        elif o == 'erf': A(r > -1, r < 1, z3.Implies(x[0] > 0, r > 0), z3.Implies(x[0] < 0, r < 0), z3.Implies(x[0] == 0, r == 0))
        elif o == 'normcdf': A(r > 0, r < 1)
        elif o == 'erfc': A(r > 0, r < 2)
        elif o == 'gammp': A(r >= 0, r <= 1, z3.Implies(z3.And(x[0] > 0, x[1] > 0), z3.And(r > 0, r < 1)), z3.Implies(z3.And(x[0] > 0, x[1] == 0), r == 0))
        elif o == 'betai': A(r >= 0, r <= 1, z3.Implies(z3.And(x[0] > 0, x[1] > 0, x[2] > 0, x[2] < 1), z3.And(r > 0, r < 1)), z3.Implies(z3.And(x[0] > 0, x[1] > 0, x[2] == 0), r == 0), z3.Implies(z3.And(x[0] > 0, x[1] > 0, x[2] == 1), r == 1))
        elif o in ('sin', 'cos'): A(r >= -1, r <= 1)
        elif o == 'tanh': A(r > -1, r < 1)
        elif o == 'cosh': A(r >= 1)
        elif o == 'trigamma': A(z3.Implies(x[0] > 0, r > 0))
        elif o == 'atan':
            p = self.tr(PI); A(2 * r < p, 2 * r > -p, z3.Implies(x[0] > 0, r > 0), z3.Implies(x[0] < 0, r < 0)); self.ax.setdefault(t, []).extend(self.ax.get(PI, []))
        elif o in ('asin',):
            p = self.tr(PI); A(2 * r <= p, 2 * r >= -p); self.ax.setdefault(t, []).extend(self.ax.get(PI, []))
        if o in ('exp', 'ln', 'sqrt', 'atan', 'erf', 'lgamma') and o != 'lgamma':
            L = self.inst.setdefault(o, [])
            if len(L) < 14:
                for t2, y, r2 in L:
                    if o == 'ln': c = z3.Implies(z3.And(x[0] > 0, y > 0), (x[0] < y) == (r < r2))
                    elif o == 'sqrt': c = z3.Implies(z3.And(x[0] >= 0, y >= 0), (x[0] < y) == (r < r2))
                    else: c = (x[0] < y) == (r < r2)
                    self.ax.setdefault((t, t2), []).append(c)
                L.append((t, x[0], r))

    # ---- queries
    def axioms_for(self, ts):
        seen = set(); out = []; st = list(ts)
        bound = set()
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            if x.op in BINDERS or x.op == 'lam': bound.add(x.a[0])
            st.extend(y for y in x.a if isinstance(y, T))
        for x in seen:
            if x in self.ax and not (free_vars(x) & bound): out += self.ax[x]
        for k, v in self.ax.items():
            if isinstance(k, tuple) and k[0] in seen and k[1] in seen and not ((free_vars(k[0]) | free_vars(k[1])) & bound): out += v
        return out
    def sumbounds(self, conds):
        """sums of a sequence whose elements are bounded by a hypothesis"""
        fa = [c for c in conds if c.op == 'forall']
        sums = set(); st = list(conds); seen = set(); bound = set()
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            if x.op in BINDERS or x.op == 'lam': bound.add(x.a[0])
            if x.op == 'sum': sums.add(x)
            st.extend(y for y in x.a if isinstance(y, T))
        out = []
        for s in sums:
            if free_vars(s) & bound: continue
            b = s.a[3]
            while b.op in ('i2f', 'toreal'): b = b.a[0]
            if b.op == 'app' and b.a[0] in ELEMRANGE:
                lo, hi = ELEMRANGE[b.a[0]]; L, H = self.tr(s.a[1], 'I'), self.tr(s.a[2], 'I'); r = self.tr(s)
                out.append(z3.Implies(L <= H, z3.And(r >= lo * (H - L), r <= hi * (H - L))))
            for f in fa:
                for c in (f.a[3].a if f.a[3].op == 'and' else (f.a[3],)):
                    if c.op not in ('<', '<='): continue
                    x, y = c.a
                    up = y.op == 'num'
                    if not up and x.op != 'num': continue
                    e, v = (x, y) if up else (y, x)
                    while e.op in ('i2f', 'toreal'): e = e.a[0]
                    if subst(e, {f.a[0]: s.a[0]}) is not b: continue
                    L, H = self.tr(s.a[1], 'I'), self.tr(s.a[2], 'I'); r = self.tr(s); v = z3val(v.a[0])
                    out.append(z3.Implies(z3.And(L <= H, self.tr(f.a[1], 'I') <= L, H <= self.tr(f.a[2], 'I')), r <= v * (H - L) if up else r >= v * (H - L)))
        return out
    def check(self, conds, timeout=None, want_model=False):
        """'sat' | 'unsat' | 'unknown'"""
        conds = [c for c in conds if c is not TRUE]
        if any(c is FALSE for c in conds): return ('unsat', None) if want_model else 'unsat'
        key = frozenset(conds)
        if not want_model and key in self.cache: return self.cache[key]
        t0 = time.time()
        try:
            zs = [self.tr(c) for c in conds]
        except (z3.Z3Exception, OverflowError, ValueError) as e:
            self.cache[key] = 'unknown'
            return ('unknown', None) if want_model else 'unknown'
        # the resource limit decides, so that the answer does not depend on the load of the machine; the time limit is a backstop
        ms = (timeout or self.timeout) * SCALE[0]
        s = z3.Solver(); s.set('timeout', int(ms * 3 * wall())); s.set('rlimit', int(ms * 800))
        s.add(*zs)
        s.add(*self.axioms_for(conds))
        if self.mode == 'real': s.add(*self.sumbounds(conds))
        r = str(s.check())
        STATS['queries'] += 1; STATS['time'] += time.time() - t0
        if r == 'unknown': STATS['unknown'] += 1
        self.cache[key] = r
        if want_model: return r, (s.model() if r == 'sat' else None)
        return r
    def feasible(self, conds, timeout=None): return self.check(list(conds), timeout) != 'unsat'
    def entails(self, hyps, goal, timeout=None):
        if goal is TRUE: return True
        return self.check(list(hyps) + [not_(goal)], timeout) == 'unsat'

_opq = {}
def opq_id(k): return _opq.setdefault(k, len(_opq))
def alpha(t, env=None, d=0):
    """de Bruijn rendering of a term; its free variables are abstracted in order of occurrence -> (key, free variables)"""
    env = env or {}
    memo = {}; fv = {}
    def go(t, env, d):
        if t.op == 'var':
            if t in env: return ('b', d - env[t])
            return ('v', fv.setdefault(t, len(fv)), t.a[1])
        if t.op in ('num', 'f', 'const', 'true', 'false'): return (t.op,) + t.a
        k = (t, d, tuple(sorted((v.a[0], i) for v, i in env.items())))
        if k in memo: return memo[k]
        if t.op in BINDERS or t.op == 'lam' and isinstance(t.a[0], T) and t.a[0].op == 'var':
            e2 = dict(env); e2[t.a[0]] = d
            r = (t.op,) + tuple(go(x, env, d) if isinstance(x, T) else x for x in t.a[1:-1]) + (go(t.a[-1], e2, d + 1),)
        else: r = (t.op,) + tuple(go(x, env, d) if isinstance(x, T) else x for x in t.a)
        memo[k] = r
        return r
    k = go(t, env, d)
    return k, list(fv)
def leaves(t):
    """the constants an expression of nested conditionals can take, or None"""
    if t.op == 'num': return [t.a[0]]
    if t.op in ('i2f', 'toreal'): return leaves(t.a[0])
    if t.op == 'ite':
        x, y = leaves(t.a[1]), leaves(t.a[2])
        return x + y if x and y else None
    return None
def z3val(q): return z3.RealVal(str(q)) if q.denominator != 1 else z3.IntVal(q.numerator)
def nonneg_syntactic(b):
    if b.op == 'exp': return True
    if b.op == 'num': return b.a[0] >= 0
    if b.op == '*' and b.a[0] is b.a[1]: return True
    if b.op in ('+', '*', '/'): return all(nonneg_syntactic(x) for x in b.a)
    if b.op in ('pow', 'powi') and b.a[1].op == 'num' and b.a[1].a[0] in (2, 4): return True
    if b.op in ('abs', 'sqrt'): return True
    return False
