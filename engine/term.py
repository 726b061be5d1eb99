"""Hash-consed terms: the verifier's logic.

A term is (op, args); leaves are
  ('num', Fraction)          exact rational (sort R or I)
  ('f', bits)                a 64-bit float literal (decoded per back end)
  ('var', name, sort)        sort in {'R','I','B','U'}
  ('const', name)            named real constant (pi, e, euler, zeta3, ...)
  ('true',) / ('false',)
Real-valued machine floats are mathematical reals in the 'real' back ends and
IEEE-754 doubles in the 'fp' back end.
"""
from fractions import Fraction
import struct

_tab = {}

class T:
    __slots__ = ('op', 'a', 'h', '_s', '__weakref__')
    def __init__(self, op, a):
        self.op = op; self.a = a; self.h = hash((op, a)); self._s = None
    def __hash__(self): return self.h
    def __eq__(self, o): return self is o
    # arithmetic sugar for specs
    def __add__(self, o): return add(self, lift(o))
    def __radd__(self, o): return add(lift(o), self)
    def __sub__(self, o): return sub(self, lift(o))
    def __rsub__(self, o): return sub(lift(o), self)
    def __mul__(self, o): return mul(self, lift(o))
    def __rmul__(self, o): return mul(lift(o), self)
    def __truediv__(self, o): return div(self, lift(o))
    def __rtruediv__(self, o): return div(lift(o), self)
    def __neg__(self): return neg(self)
    def __pow__(self, o): return pow_(self, lift(o))
    def __rpow__(self, o): return pow_(lift(o), self)
    def __lt__(self, o): return lt(self, lift(o))
    def __le__(self, o): return le(self, lift(o))
    def __gt__(self, o): return lt(lift(o), self)
    def __ge__(self, o): return le(lift(o), self)
    def __repr__(self): return show(self)

def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T(op, a); _tab[k] = t
    return t

def num(x): return mk('num', Fraction(x))
TRUE = mk('true'); FALSE = mk('false')
ZERO = num(0); ONE = num(1); TWO = num(2); HALF = num(Fraction(1, 2))
def var(n, sort='R'): return mk('var', n, sort)
def const(n): return mk('const', n)
PI = const('pi'); E = const('e'); EULER = const('euler')
INF = const('inf'); NINF = const('ninf'); NAN = const('nan')

def lift(x):
    if isinstance(x, T): return x
    if isinstance(x, bool): return TRUE if x else FALSE
    if isinstance(x, (int, Fraction)): return num(x)
    if isinstance(x, float): return num(Fraction(repr(x)))
    raise TypeError(x)

def is_num(t): return t.op == 'num'

def fbits(bits): return mk('f', int(bits))
def fval(bits): return struct.unpack('<d', struct.pack('<Q', bits))[0]
def f_to_real(bits):
    v = fval(bits)
    if v != v: return NAN
    if v == float('inf'): return INF
    if v == float('-inf'): return NINF
    if v == 2.220446049250313e-16: return num(Fraction(1, 2**52))
    return num(Fraction(repr(v)))

def _n(a, b): return a.op == 'num' and b.op == 'num'
def add(a, b):
    if _n(a, b): return num(a.a[0] + b.a[0])
    if a is ZERO: return b
    if b is ZERO: return a
    return mk('+', a, b)
def sub(a, b):
    if _n(a, b): return num(a.a[0] - b.a[0])
    if b is ZERO: return a
    if a is ZERO: return neg(b)
    return mk('-', a, b)
def neg(a):
    if a.op == 'num': return num(-a.a[0])
    if a.op == 'neg': return a.a[0]
    if a is INF: return NINF
    if a is NINF: return INF
    return mk('neg', a)
def mul(a, b):
    if _n(a, b): return num(a.a[0] * b.a[0])
    if a is ONE: return b
    if b is ONE: return a
    return mk('*', a, b)
def div(a, b):
    if _n(a, b) and b.a[0] != 0: return num(a.a[0] / b.a[0])
    if b is ONE: return a
    return mk('/', a, b)
def pow_(a, b):
    if b is ONE: return a
    if _n(a, b) and b.a[0].denominator == 1 and (a.a[0] != 0 or b.a[0] >= 0) and abs(b.a[0]) < 200:
        return num(a.a[0] ** int(b.a[0]))
    return mk('pow', a, b)
def fn(name, *a): return mk(name, *[lift(x) for x in a])
def sqrt(a): return fn('sqrt', a)
def exp(a):
    a = lift(a)
    if a is ZERO: return ONE
    return fn('exp', a)
def ln(a):
    a = lift(a)
    if a is ONE: return ZERO
    return fn('ln', a)
def gamma(a): return fn('gamma', a)
def lgamma(a): return fn('lgamma', a)
def digamma(a): return fn('digamma', a)
def trigamma(a): return fn('trigamma', a)
def beta(a, b): return fn('beta', a, b)
def erf(a): return fn('erf', a)
def floor(a): return fn('floor', a)
def gammp(a, x): return fn('gammp', a, x)       # regularised lower incomplete gamma P(a, x)
def betai(a, b, x): return fn('betai', a, b, x) # regularised incomplete beta I_x(a, b)

# booleans
def lt(a, b):
    if _n(a, b): return TRUE if a.a[0] < b.a[0] else FALSE
    return mk('<', a, b)
def le(a, b):
    if _n(a, b): return TRUE if a.a[0] <= b.a[0] else FALSE
    return mk('<=', a, b)
def eq(a, b):
    if a is b and a.op != 'f' and a is not NAN: return TRUE
    if _n(a, b): return FALSE
    return mk('=', a, b)
def not_(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.a[0]
    return mk('not', a)
def and_(*xs):
    o = []
    for x in xs:
        x = lift(x)
        if x is FALSE: return FALSE
        if x is TRUE: continue
        if x.op == 'and': o.extend(x.a)
        elif x not in o: o.append(x)
    if not o: return TRUE
    return o[0] if len(o) == 1 else mk('and', *o)
def or_(*xs):
    o = []
    for x in xs:
        x = lift(x)
        if x is TRUE: return TRUE
        if x is FALSE: continue
        if x.op == 'or': o.extend(x.a)
        elif x not in o: o.append(x)
    if not o: return FALSE
    return o[0] if len(o) == 1 else mk('or', *o)
def implies(a, b): return or_(not_(a), b)
def iff(a, b): return or_(and_(a, b), and_(not_(a), not_(b)))
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    return mk('ite', c, a, b)
def xor(a, b): return not_(iff(a, b))

BOOLOPS = {'<', '<=', '=', 'not', 'and', 'or', 'true', 'false', 'isnan', 'isinf', 'forall', 'exists', 'pred'}
def is_bool(t): return t.op in BOOLOPS or (t.op == 'var' and t.a[1] == 'B') or (t.op == 'ite' and is_bool(t.a[1])) or (t.op == 'app' and t.a[1] == 'B')

def sum_(i, lo, hi, body): return mk('sum', i, lift(lo), lift(hi), lift(body))     # lo <= i < hi
def prod_(i, lo, hi, body): return mk('prod', i, lift(lo), lift(hi), lift(body))
def forall(i, lo, hi, body): return mk('forall', i, lift(lo), lift(hi), body)
def exists(i, lo, hi, body): return mk('exists', i, lift(lo), lift(hi), body)
BINDERS = {'sum', 'prod', 'forall', 'exists'}

def subst(t, m, memo=None):
    """m: dict T->T"""
    if not m: return t
    if memo is None: memo = {}
    def go(t):
        r = m.get(t)
        if r is not None: return r
        if t.op in ('num', 'f', 'var', 'const', 'true', 'false'): return t
        r = memo.get(t)
        if r is not None: return r
        if t.op in BINDERS and t.a[0] in m:
            m2 = {k: v for k, v in m.items() if k is not t.a[0]}
            r = mk(t.op, t.a[0], go(t.a[1]), go(t.a[2]), subst(t.a[3], m2))
        else:
            a = tuple(go(x) if isinstance(x, T) else x for x in t.a)
            r = rebuild(t.op, a)
        memo[t] = r
        return r
    return go(t)

_ctor = {'+': add, '-': sub, '*': mul, '/': div, 'neg': neg, 'pow': pow_, '<': lt, '<=': le, '=': eq, 'not': not_, 'and': and_, 'or': or_, 'ite': ite}
def rebuild(op, a):
    c = _ctor.get(op)
    return c(*a) if c else mk(op, *a)

def free_vars(t, acc=None, memo=None):
    if memo is None: memo = {}
    def go(t):
        r = memo.get(t)
        if r is not None: return r
        if t.op == 'var': r = frozenset([t])
        elif t.op in BINDERS: r = go(t.a[1]) | go(t.a[2]) | (go(t.a[3]) - {t.a[0]})
        else:
            r = frozenset()
            for x in t.a:
                if isinstance(x, T): r = r | go(x)
        memo[t] = r
        return r
    return go(t)

def contains_op(t, ops):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        if x.op in ops: return True
        st.extend(y for y in x.a if isinstance(y, T))
    return False

def show(t):
    if t._s: return t._s
    o = t.op
    if o == 'num':
        f = t.a[0]; s = str(f)
    elif o == 'f': s = repr(fval(t.a[0]))
    elif o == 'var': s = t.a[0]
    elif o == 'const': s = t.a[0]
    elif o in ('true', 'false'): s = o
    elif o in ('+', '-', '*', '/', '<', '<=', '='): s = '(' + (' %s ' % o).join(show(x) for x in t.a) + ')'
    elif o == 'pow': s = '(%s)^(%s)' % (show(t.a[0]), show(t.a[1]))
    elif o in ('and', 'or'): s = '(' + (' %s ' % o).join(show(x) for x in t.a) + ')'
    elif o == 'neg': s = '-' + show(t.a[0])
    elif o == 'app': s = '%s(%s)' % (t.a[0], ', '.join(show(x) if isinstance(x, T) else str(x) for x in t.a[2:]))
    else: s = '%s(%s)' % (o, ', '.join(show(x) if isinstance(x, T) else str(x) for x in t.a))
    if len(s) < 100000: t._s = s
    return s

def app(name, sort, *args): return mk('app', name, sort, *[lift(x) for x in args])
