"""Real-arithmetic reading of float terms: inputs are finite, literal infinities
and NaNs are folded where IEEE arithmetic determines the outcome."""
from term import *

def lit(t):
    if t.op == 'f':
        v = fval(t.a[0])
        if v != v: return NAN
        if v in (float('inf'), float('-inf')): return INF if v > 0 else NINF
        if v == int(v) and abs(v) < 2**53: return num(int(v))
    return t
SPECIAL = (INF, NINF, NAN)
def realize(t, memo=None):
    if memo is None: memo = {}
    def go(t):
        o = t.op
        if o in ('num', 'var', 'const', 'true', 'false'): return t
        if o == 'f': return lit(t)
        r = memo.get(t)
        if r is None:
            r = step(o, tuple(go(x) if isinstance(x, T) else x for x in t.a)); memo[t] = r
        return r
    return go(t)

def step(o, a):
    if o in ('isnan', 'isinf'):
        if o == 'isnan': return TRUE if a[0] is NAN else FALSE
        return TRUE if a[0] in (INF, NINF) else FALSE
    sp = [x for x in a if isinstance(x, T) and x in SPECIAL]
    if sp:
        if NAN in sp and o in ('+', '-', '*', '/', 'neg', 'exp', 'ln', 'sqrt', 'pow', 'powi', 'abs', 'floor', 'sin', 'cos', 'atan', 'erf'): return NAN
        if NAN in sp and o in ('<', '<=', '='): return FALSE
        if o in ('<', '<='):
            x, y = a
            if x is y: return FALSE if o == '<' else TRUE
            if x is INF or y is NINF: return FALSE
            return TRUE
        if o == '=' and not (a[0] is a[1]): return FALSE
        if o == 'same': return TRUE if a[0] is a[1] else FALSE
        if o == '+':
            if len(set(sp)) == 1: return sp[0]
            return NAN
        if o == '-':
            if a[0] in (INF, NINF) and a[1] in (INF, NINF): return NAN if a[0] is a[1] else a[0]
            return a[0] if a[0] in (INF, NINF) else neg(a[1])
        if o == '*':
            x, y = (a[0], a[1]) if a[0] in SPECIAL else (a[1], a[0])
            if y is INF: return x
            if y is NINF: return neg(x)
            if y.op == 'num':
                if y.a[0] > 0: return x
                if y.a[0] < 0: return neg(x)
                return NAN
            return mk('ite', lt(ZERO, y), x, mk('ite', lt(y, ZERO), neg(x), NAN))
        if o == '/':
            if a[1] in (INF, NINF) and a[0] not in SPECIAL: return ZERO
            if a[0] in (INF, NINF) and a[1].op == 'num' and a[1].a[0] != 0: return a[0] if a[1].a[0] > 0 else neg(a[0])
        if o == 'neg': return neg(a[0])
        if o == 'exp': return INF if a[0] is INF else ZERO
        if o == 'ln' and a[0] is INF: return INF
        if o == 'sqrt' and a[0] is INF: return INF
        if o == 'abs': return INF
        if o == 'erf': return num(1) if a[0] is INF else num(-1)
    if o == 'ln' and a[0].op == 'num' and a[0].a[0] == 0: return NINF
    if o == 'exp' and a[0] is ZERO: return ONE
    if o == 'ln' and a[0] is ONE: return ZERO
    if o == 'i2f' and a[0].op == 'num': return a[0]
    if o in ('floor', 'ceil', 'trunc') and a[0].op == 'num':
        import math
        return num({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc}[o](a[0].a[0]))
    if o == 'floor' and isint(a[0]): return a[0]
    return rebuild(o, a)
def isint(t): return t.op == 'i2f' or t.op == 'num' and t.a[0].denominator == 1
