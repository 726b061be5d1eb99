"""Canonical forms of real-valued terms: multivariate polynomials with rational
coefficients over atoms raised to canonical exponents, with the algebra of
exp/ln/powers (guarded by positivity facts), gamma-function shifts, parity of
odd/even functions, and linearity of finite sums.  `is_zero(t)` is the
equality prover of the real back end: it answers True only if t is identically
zero by these laws."""
from fractions import Fraction as Q
from term import *
import itertools

class Giveup(Exception): pass
LIMIT = 4000

# ---------------------------------------------------------------- polynomials
class Poly:
    __slots__ = ('t', 'h')
    _tab = {}
    def __new__(cls, d):
        key = frozenset(d.items())
        p = cls._tab.get(key)
        if p is None:
            p = object.__new__(cls); p.t = d; p.h = hash(key); cls._tab[key] = p
        return p
    def __hash__(self): return self.h
    def __eq__(self, o): return self is o
    def const(self):
        if not self.t: return Q(0)
        if len(self.t) == 1 and () in self.t: return self.t[()]
        return None
    def __repr__(self): return pshow(self)

def mkp(d): return Poly({m: c for m, c in d.items() if c != 0})
PZ = Poly({}); P1 = Poly({(): Q(1)})
def pc(c): return Poly({(): Q(c)}) if c else PZ
def padd(a, b, k=1):
    d = dict(a.t)
    for m, c in b.t.items():
        v = d.get(m, 0) + k * c
        if v: d[m] = v
        else: d.pop(m, None)
    return Poly(d)
def pscale(a, k): return Poly({m: c * k for m, c in a.t.items()}) if k else PZ

class Atom:
    __slots__ = ('k', 'a', 'id', 'term')
    _tab = {}; _n = itertools.count()
    def __new__(cls, k, *a):
        key = (k, a); x = cls._tab.get(key)
        if x is None:
            x = object.__new__(cls); x.k = k; x.a = a; x.id = next(cls._n); x.term = None; cls._tab[key] = x
        return x
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def __lt__(self, o): return self.id < o.id
    def __repr__(self): return '%s%s' % (self.k, list(self.a) if self.a else '')

EATOM = Atom('e')
PIATOM = Atom('c', 'pi')

def ekey(e): return (0, e) if isinstance(e, Q) else (1, e.h)
def eadd(a, b):
    if isinstance(a, Q) and isinstance(b, Q): return a + b
    r = padd(a if isinstance(a, Poly) else pc(a), b if isinstance(b, Poly) else pc(b))
    c = r.const()
    return r if c is None else c
def emul(a, b):
    if isinstance(a, Q) and isinstance(b, Q): return a * b
    if isinstance(a, Q): return enorm(pscale(b, a))
    if isinstance(b, Q): return enorm(pscale(a, b))
    return enorm(pmul(a, b))
def enorm(p):
    if isinstance(p, Q): return p
    c = p.const()
    return p if c is None else c
def epoly(e): return pc(e) if isinstance(e, Q) else e

def mmul(m1, m2):
    """product of monomials -> (coef, mono)"""
    if not m1: return Q(1), m2
    if not m2: return Q(1), m1
    d = dict(m1)
    for a, e in m2:
        if a in d:
            s = eadd(d[a], e)
            if isinstance(s, Q) and s == 0: del d[a]
            else: d[a] = s
        else: d[a] = e
    return mnorm(d)
def mnorm(d):
    coef = Q(1)
    for a in [a for a in d if a.k == 'n']:
        e = d[a]; c0 = const_part(e); fl = c0.numerator // c0.denominator
        if fl:
            coef *= Q(a.a[0]) ** fl
            e2 = eadd(e, Q(-fl))
            if isinstance(e2, Q) and e2 == 0: del d[a]
            else: d[a] = e2
    for a in [a for a in d if a.k == 'abs']:
        # |b|^2 is b^2
        e = d[a]
        if isinstance(e, Q) and e.denominator == 1 and abs(e) >= 2 and isinstance(a.a[0], Poly) and len(a.a[0].t) == 1:
            (m, c), = a.a[0].t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                b = m[0][0]; k = int(abs(e)) // 2 * 2 * (1 if e > 0 else -1)
                for x, y in ((a, Q(-k)), (b, Q(k))):
                    z = eadd(d.get(x, Q(0)), y)
                    if isinstance(z, Q) and z == 0: d.pop(x, None)
                    else: d[x] = z
    return coef, tuple(sorted(d.items(), key=lambda x: x[0].id))
def const_part(e):
    if isinstance(e, Q): return e
    return e.t.get((), Q(0))
def pmul(a, b):
    if len(a.t) * len(b.t) > LIMIT: raise Giveup('polynomial too large')
    d = {}
    for m1, c1 in a.t.items():
        for m2, c2 in b.t.items():
            k, m = mmul(m1, m2)
            v = d.get(m, 0) + c1 * c2 * k
            if v: d[m] = v
            else: d.pop(m, None)
    return Poly(d)
def patom(a, e=Q(1)):
    if isinstance(e, Q) and e == 0: return P1
    k, m = mnorm({a: e})
    return Poly({m: k})
def ppow_nat(p, n):
    r = P1
    for _ in range(n): r = pmul(r, p)
    return r
def pshow(p):
    if not p.t: return '0'
    return ' + '.join('%s%s' % (c, ''.join('*%r^%s' % (a, e) for a, e in m)) for m, c in p.t.items())

def primes(n):
    r = {}; d = 2
    while d * d <= n and d < 100000:
        while n % d == 0: r[d] = r.get(d, 0) + 1; n //= d
        d += 1
    if n > 1: r[n] = r.get(n, 0) + 1
    return r

# ---------------------------------------------------------------- conversion back to terms (for sign queries)
def to_term(p):
    if isinstance(p, Q): return num(p)
    acc = None
    for m, c in sorted(p.t.items(), key=lambda x: str(x[1])):
        t = num(c)
        for a, e in m:
            b = atom_term(a)
            if isinstance(e, Q) and e == 1: f = b
            elif a.k == 'e': f = exp(to_term(e))
            else: f = pow_(b, to_term(e))
            t = mul(t, f)
        acc = t if acc is None else add(acc, t)
    return acc if acc is not None else ZERO
def atom_term(a):
    if a.k == 'n': return num(a.a[0])
    if a.k == 'e': return E
    if a.k == 'P': return to_term(a.a[0])
    if a.k == 'c': return const(a.a[0])
    return a.term

class Norm:
    """normaliser under assumptions; oracle(term_bool) -> True if entailed"""
    def __init__(self, oracle=None, facts=()):
        self.oracle = oracle or (lambda c: False)
        self.memo = {}; self.signs = {}; self.depth = 0; self.bodies = {}
        self.pos = set(); self.nonneg = set()
    # ---- signs
    def sgn(self, p):
        """1 if p > 0, -1 if p < 0, 2 if p >= 0, -2 if p <= 0, None"""
        if isinstance(p, Q): return (p > 0) - (p < 0) or 2
        r = self.signs.get(p, 0)
        if r != 0: return r
        self.signs[p] = None
        r = self._sgn(p)
        self.signs[p] = r
        return r
    def _sgn(self, p):
        c = p.const()
        if c is not None: return 1 if c > 0 else -1 if c < 0 else 2
        ss = [self.msgn(m, c) for m, c in p.t.items()]
        if all(s == 1 or s == 2 for s in ss): return 1 if 1 in ss else 2
        if all(s == -1 or s == -2 for s in ss): return -1 if -1 in ss else -2
        t = to_term(p)
        if t is None: return None
        if self.oracle(lt(ZERO, t)): return 1
        if self.oracle(lt(t, ZERO)): return -1
        if self.oracle(le(ZERO, t)): return 2
        return None
    def msgn(self, m, c):
        s = 1 if c > 0 else -1
        weak = False
        for a, e in m:
            x = self.asgn(a)
            if x == 1: continue
            if isinstance(e, Q) and e.denominator == 1:
                if int(e) % 2 == 0:
                    if int(e) < 0: continue
                    weak = True; continue
                if x == -1: s = -s; continue
                if x == 2: weak = True; continue
                if x == -2: weak = True; s = -s; continue
            elif x == 2: weak = True; continue
            return None
        return s * 2 if weak else s
    def asgn(self, a):
        if a.k in ('n', 'e'): return 1
        if a.k == 'c': return 1
        if a.k == 'P': return self.sgn(a.a[0])
        if a.k == 'gamma' and self.sgn(a.a[0]) == 1: return 1
        if a.k in ('gammp', 'betai'): return 2
        if a.k == 'trigamma' and self.sgn(a.a[0]) == 1: return 1
        if a.k == 'pow': return self.sgn(a.a[0]) if self.sgn(a.a[0]) in (1, 2) else None
        if a.k == 'abs': return 2
        key = ('a', a)
        r = self.signs.get(key, 0)
        if r != 0: return r
        self.signs[key] = None
        t = a.term
        r = None
        if a.k == 'sum':
            b = var(a.a[0], 'I'); h = to_term(a.a[1])
            if h is not None:
                self.oracle_push(and_(le(ZERO, b), lt(b, h)))
                try: x = self.sgn(a.a[2])
                finally: self.oracle_pop()
                if x in (1, -1): r = x if self.oracle(lt(ZERO, h)) else 2 * x
                elif x in (2, -2): r = x
        if r is None and t is not None:
            if self.oracle(lt(ZERO, t)): r = 1
            elif self.oracle(lt(t, ZERO)): r = -1
            elif self.oracle(le(ZERO, t)): r = 2
        self.signs[key] = r
        return r
    # ---- polynomial helpers
    def together(self, p):
        """common denominator over the multi-term atoms, cancel exact factors"""
        p = self.unroot(p)
        neg = {}
        for m in p.t:
            for a, e in m:
                if a.k == 'P':
                    c = const_part(e)
                    f = c.numerator // c.denominator
                    if f < neg.get(a, 0): neg[a] = f
                    if isinstance(e, Q) and e.denominator == 1 and e > 0 or isinstance(e, Poly) and 1 <= f <= 8 and (self.sgn(a.a[0]) == 1 or self.natural(eadd(e, Q(-f)))): neg.setdefault(a, 0)
        if not neg: return p
        # numerator
        d = {}
        for m, c in p.t.items():
            rest = {}; facs = []
            md = dict(m)
            for a in neg:
                e = md.pop(a, Q(0)); e = eadd(e, Q(-neg[a]))
                cp = const_part(e); n = cp.numerator // cp.denominator
                r = eadd(e, Q(-n))
                if not (isinstance(r, Q) and r == 0): md[a] = r
                if n: facs.append((a.a[0], n))
            k, mm = mnorm(md)
            q = Poly({mm: c * k})
            for b, n in facs:
                q = pmul(q, ppow_nat(b, n))
            for m2, c2 in q.t.items():
                v = d.get(m2, 0) + c2
                if v: d[m2] = v
                else: d.pop(m2, None)
            if len(d) > LIMIT: raise Giveup('numerator too large')
        N = Poly(d)
        if not N.t: return PZ
        den = []
        for a, f in neg.items():
            k = -f
            while k > 0:
                q = pdiv_exact(N, a.a[0])
                if q is None: break
                N = q; k -= 1
            if k: den.append((a, Q(-k)))
        # numerators that are themselves a multiple of a known factor stay expanded
        if not den: return N
        den = tuple(den)
        k, dm = mnorm(dict(den))
        r = {}
        for m, c in N.t.items():
            k2, mm = mmul(m, dm)
            r[mm] = r.get(mm, 0) + c * k * k2
        return mkp(r)
    def unroot(self, p):
        """opaque roots w = b^(1/q) to an exponent in 0..q-1: w^q is b wherever w is defined"""
        hit = lambda a, e: a.k == 'pow' and len(a.a) == 2 and isinstance(a.a[1], Q) and a.a[1].denominator > 1 and isinstance(e, Q) and e.denominator == 1 and abs(e) >= a.a[1].denominator
        if not any(hit(a, e) for m in p.t for a, e in m): return p
        r = PZ
        for m, c in p.t.items():
            q = pc(c)
            for a, e in m:
                if hit(a, e):
                    d = a.a[1].denominator; k = int(e) // d
                    q = pmul(q, patom(a, e - k * d)) if e - k * d else q
                    q = pmul(q, self.power(a.a[0], Q(k) * d * a.a[1]))
                else: q = pmul(q, patom(a, e))
            r = padd(r, q)
        return r
    def split(self, p):
        """p = coef * mono * q with q primitive (or P1)"""
        if not p.t: return Q(0), (), P1
        if len(p.t) == 1:
            (m, c), = p.t.items(); return c, m, P1
        # common monomial: for every atom take the common exponent if constant difference
        ms = list(p.t)
        common = {}
        d0 = dict(ms[0])
        for a, e in d0.items():
            es = []
            for m in ms:
                x = dict(m).get(a)
                if x is None: es = None; break
                es.append(x)
            if es is None:
                continue
            base = min(es, key=lambda x: const_part(x))
            ok = True
            for x in es:
                df = eadd(x, emul(base, Q(-1)))
                if not isinstance(df, Q): ok = False
            if ok: common[a] = base
            elif False: pass
        # atoms with negative rational exponents missing in some terms: pull the minimum
        allat = {a for m in ms for a, _ in m}
        for a in allat:
            if a in common: continue
            es = [dict(m).get(a, Q(0)) for m in ms]
            if all(isinstance(x, Q) for x in es):
                mn = min(es)
                if mn < 0: common[a] = mn
        if common:
            k, cm = mnorm(dict(common))
            _, inv = mnorm({a: emul(e, Q(-1)) for a, e in cm})
            q = {}
            kk = None
            for m, c in p.t.items():
                k2, mm = mmul(m, tuple((a, emul(e, Q(-1))) for a, e in cm))
                q[mm] = q.get(mm, 0) + c * k2
            q = mkp(q)
            coef = Q(1)
            # (prime atoms may have produced factors; they are inside q's coefficients)
        else: cm = (); q = p; coef = Q(1)
        # rational content
        from math import gcd
        nums = [c.numerator for c in q.t.values()]; dens = [c.denominator for c in q.t.values()]
        g = 0
        for n in nums: g = gcd(g, abs(n))
        l = 1
        for n in dens: l = l * n // gcd(l, n)
        cont = Q(g, l)
        q = pscale(q, 1 / cont)
        # sign: prefer a provably positive primitive part, else positive leading coefficient in canonical order
        s = self.sgn(q)
        if s == -1 or s == -2: q = pscale(q, Q(-1)); cont = -cont
        elif s is None:
            lead = min(q.t.items(), key=lambda x: mono_order(x[0]))
            if lead[1] < 0: q = pscale(q, Q(-1)); cont = -cont
        return cont, cm, q
    def factors(self, p):
        """p = coef * mono * prod q_i^n_i, q_i primitive irreducible where found"""
        p = self.together(p)
        c, m, q = self.split(p)
        if q is P1: return c, m, []
        fs = factor_poly(q)
        if fs is None: return c, m, [(q, 1)]
        out = []
        for f, n in fs:
            c2, m2, f2 = self.split(f)
            c *= c2 ** n
            for a, e in m2:
                k, m = mmul(m, ((a, emul(e, Q(n))),)); c *= k
            if f2 is not P1: out.append((f2, n))
        return c, m, out
    def power(self, p, e, term=None):
        """p ** e for a canonical exponent e (Fraction or Poly)"""
        if isinstance(e, Q) and e == 0: return P1
        if isinstance(e, Q) and e == 1: return p
        if not p.t:
            if isinstance(e, Q) and e > 0: return PZ
            raise Giveup('power of zero')
        if isinstance(e, Q) and e.denominator == 1 and 0 < e <= 8 and len(p.t) > 1:
            if len(p.t) ** int(e) <= LIMIT: return ppow_nat(p, int(e))
        c, m, fs = self.factors(p)
        isint = isinstance(e, Q) and e.denominator == 1
        # collect factors (base, exponent)
        res = P1; bad = []; sgnflip = 1
        if c < 0:
            sgnflip = -1; c = -c
        items = []
        for a, ae in m: items.append(('a', a, ae))
        for q, n in fs: items.append(('q', q, Q(n)))
        for kind, b, be in items:
            if isint: continue
            s = self.asgn(b) if kind == 'a' else self.sgn(b)
            if s == 1: continue
            if s == 2 and (isinstance(e, Q) and e > 0) : continue
            if s == 2 and isinstance(e, Poly) and self.natural(e): continue       # 0^x 0^y = 0^(x+y) for x, y >= 0
            # even powers under a root: |b|
            bad.append((kind, b, be, s))
        if bad or (sgnflip < 0 and not isint):
            neg = [x for x in bad if x[3] == -1]
            if all(x[3] == -1 for x in bad) and all(isinstance(x[2], Q) and x[2].denominator == 1 for x in bad):
                # negative bases: pull the signs out
                sg = sgnflip
                for x in bad:
                    if int(x[2]) % 2: sg = -sg
                if sg > 0:
                    r = P1
                    for kind, b, be in items:
                        flip = any(x[0] == kind and x[1] is b for x in bad)
                        if not flip: base = patom(b) if kind == 'a' else b; r = pmul(r, self.basepow(kind, b, emul(be, e)))
                        else:
                            nb = pscale(patom(b) if kind == 'a' else b, Q(-1))
                            r = pmul(r, patom(Atom('P', nb), emul(be, e)))
                    return pmul(r, self.numpow(c, e))
            # the factors known to be positive come out; the rest stays one opaque power
            good = [(k, b, be) for k, b, be in items if not any(x[0] == k and x[1] is b for x in bad)]
            if not isinstance(e, Q): return self.opaque_pow(p, e)
            if bad and sgnflip > 0 and all(k == 'a' and isinstance(be, Q) and be.denominator == 1 and int(be) % 2 == 0 and s is None for k, b, be, s in bad):
                # (b^2)^(1/2) is |b|
                r = self.numpow(c, e)
                for k, b, be in good: r = pmul(r, self.basepow(k, b, emul(be, e)))
                for k, b, be, s in bad: r = pmul(r, self.power(self.evenfn('abs', patom(b)), be * e))
                return r
            if bad:
                B = pc(Q(sgnflip))
                for k, b, be, s in bad: B = pmul(B, patom(b, be) if k == 'a' else ppow_nat(b, int(be)) if be > 0 else patom(Atom('P', b), be))
                r = self.numpow(c, e)
                for k, b, be in good: r = pmul(r, self.basepow(k, b, emul(be, e)))
                if len(bad) == 1 and sgnflip > 0 and isinstance(bad[0][2], Q) and bad[0][2].denominator == 1 and int(bad[0][2]) % 2 == 1 and bad[0][2] > 1:
                    # (b^3)^(1/2) is b sqrt(b): both are defined exactly for b >= 0
                    return pmul(r, self.power(patom(bad[0][1]) if bad[0][0] == 'a' else bad[0][1], bad[0][2] * e))
                ip = int(abs(e)); fp = abs(e) - ip
                w = self.opaque_pow(B, fp)
                if ip: w = pmul(w, self.power(B, Q(ip)))
                return pmul(r, w if e > 0 else self.inv(w))
            return self.opaque_pow(p, e)
        r = self.numpow(c, e)
        if sgnflip < 0 and int(e) % 2: r = pscale(r, Q(-1))
        for kind, b, be in items: r = pmul(r, self.basepow(kind, b, emul(be, e)))
        return r
    def natural(self, e):
        t = to_term(e)
        return t is not None and bool(self.oracle(le(ZERO, t)))
    def opaque_pow(self, p, e):
        a = Atom('pow', p, e); a.term = pow_(to_term(p), to_term(e))
        return patom(a)
    def basepow(self, kind, b, e):
        if kind == 'a':
            if b.k == 'P': return self.basepow('q', b.a[0], e)
            return patom(b, e)
        if isinstance(e, Q) and e.denominator == 1 and 0 < e <= 8: return ppow_nat(b, int(e))
        return patom(Atom('P', b), e)
    def numpow(self, c, e):
        if c == 1: return P1
        if isinstance(e, Q) and e.denominator == 1: return pc(c ** int(e))
        r = P1
        for pr, k in primes(c.numerator).items(): r = pmul(r, patom(Atom('n', pr), emul(e, Q(k))))
        for pr, k in primes(c.denominator).items(): r = pmul(r, patom(Atom('n', pr), emul(e, Q(-k))))
        return r
    def inv(self, p): return self.power(p, Q(-1))
    # ---- exp / ln
    def pexp(self, p):
        p = self.together(p)
        r = P1; rest = {}
        for m, c in p.t.items():
            lns = [a for a, e in m if a.k == 'ln' and isinstance(e, Q) and e == 1]
            if len(lns) >= 1:
                a = lns[0]
                ex = enorm(Poly({tuple(x for x in m if x[0] is not a): c}))
                base = a.a[0]
                r = pmul(r, self.power(base, ex))
            else: rest[m] = c
        if rest: 
            e = enorm(Poly(rest))
            r = pmul(r, patom(EATOM, e))
        return r
    def pln(self, p):
        c, m, fs = self.factors(p)
        if c == 0: raise Giveup('ln 0')
        ok = c > 0
        items = [('a', a, e) for a, e in m] + [('q', q, Q(n)) for q, n in fs]
        for kind, b, e in items:
            s = self.asgn(b) if kind == 'a' else self.sgn(b)
            if s not in (1, 2): ok = False
        if not ok:
            return self.lnatom(p)
        r = PZ
        for pr, k in primes(c.numerator).items(): r = padd(r, pscale(self.lnatom(pc(pr)), Q(k)))
        for pr, k in primes(c.denominator).items(): r = padd(r, pscale(self.lnatom(pc(pr)), Q(-k)))
        for kind, b, e in items:
            if kind == 'a' and b.k == 'e': r = padd(r, epoly(e)); continue
            if kind == 'a' and b.k == 'prod':
                pass
            l = self.lnatom(patom(b) if kind == 'a' else b)
            r = padd(r, pmul(l, epoly(e)))
        return r
    def lnatom(self, p):
        if p is P1: return PZ
        if len(p.t) == 1:
            (m, c), = p.t.items()
            if c == 1 and len(m) == 1 and m[0][0].k == 'P' and m[0][1] == 1: p = m[0][0].a[0]
        a = Atom('ln', p); a.term = mk('ln', to_term(p))
        return patom(a)
    # ---- special functions
    def pgamma(self, p, depth=0):
        p = self.together(p)
        c = p.const()
        if c is not None:
            if c.denominator == 1:
                if c <= 0: raise Giveup('gamma pole')
                if c < 170:
                    r = 1
                    for i in range(1, int(c)): r *= i
                    return pc(r)
            if c.denominator == 2 and abs(c) < 60:
                r = P1; x = c
                while x > Q(1, 2): x -= 1; r = pscale(r, x)
                while x < Q(1, 2): r = pscale(r, 1 / x); x += 1
                return pmul(r, patom(PIATOM, Q(1, 2)))
        k = p.t.get((), Q(0)); n = k.numerator // k.denominator
        r = P1
        n = self.gshift(p, n)
        if 0 < n <= 12:
            q = padd(p, pc(-n))
            for i in range(n): r = pmul(r, padd(q, pc(i)))
            p = q
        elif -12 <= n < 0:
            q = p
            for i in range(-n): r = pmul(r, self.inv(q)); q = padd(q, pc(1))
            p = q
        a = Atom('gamma', p); a.term = mk('gamma', to_term(p))
        return pmul(r, patom(a))
    def gshift(self, p, n):
        """keep the argument off the poles: use base p-n+1 when p-n may be zero but p-n+1 is positive"""
        if n == 0 or p.const() is not None: return n
        q = padd(p, pc(-n))
        if self.sgn(q) == 1: return n
        return n - 1 if self.sgn(padd(q, P1)) == 1 else n
    def pdigamma(self, p):
        p = self.together(p)
        k = p.t.get((), Q(0)); n = k.numerator // k.denominator
        c = p.const()
        r = PZ
        if c is not None and c.denominator in (1, 2) and 0 < c < 60:
            base = Q(1) if c.denominator == 1 else Q(1, 2)
            x = base
            while x < c: r = padd(r, pc(1 / x)); x += 1
            g = pscale(patom(Atom('c', 'euler')), Q(-1))
            if base == Q(1, 2): g = padd(g, pscale(self.lnatom(pc(2)), Q(-2)))
            return padd(r, g)
        n = self.gshift(p, n)
        if 0 < n <= 12:
            q = padd(p, pc(-n))
            for i in range(n): r = padd(r, self.inv(padd(q, pc(i))))
            p = q
        elif -12 <= n < 0:
            q = p
            for i in range(-n): r = padd(r, self.inv(q), -1); q = padd(q, pc(1))
            p = q
        a = Atom('digamma', p); a.term = mk('digamma', to_term(p))
        return padd(r, patom(a))
    def ptrigamma(self, p):
        p = self.together(p)
        k = p.t.get((), Q(0)); n = k.numerator // k.denominator
        r = PZ
        if p.const() is not None and p.const() == 1: return Poly({((PIATOM, Q(2)),): Q(1, 6)})
        n = self.gshift(p, n)
        if 0 < n <= 12 and p.const() is None:
            q = padd(p, pc(-n))
            for i in range(n): r = padd(r, self.power(padd(q, pc(i)), Q(-2)), -1)
            p = q
        elif -12 <= n < 0:
            q = p
            for i in range(-n): r = padd(r, self.power(q, Q(-2))); q = padd(q, pc(1))
            p = q
        a = Atom('trigamma', p); a.term = mk('trigamma', to_term(p))
        return padd(r, patom(a))
    def oddfn(self, name, p):
        p = self.together(p)
        if not p.t: return PZ
        s = 1
        sg = self.sgn(p)
        if sg is None:
            lead = min(p.t.items(), key=lambda x: mono_order(x[0]))
            if lead[1] < 0: s = -1
        elif sg < 0: s = -1
        q = pscale(p, Q(s))
        a = Atom(name, q); a.term = mk(name, to_term(q))
        return pscale(patom(a), Q(s))
    def evenfn(self, name, p):
        p = self.together(p)
        lead = min(p.t.items(), key=lambda x: mono_order(x[0])) if p.t else None
        q = pscale(p, Q(-1)) if lead and lead[1] < 0 else p
        a = Atom(name, q); a.term = mk(name, to_term(q))
        return patom(a)
    def generic(self, name, args, term):
        ps = tuple(self.together(x) for x in args)
        a = Atom(name, *ps)
        if a.term is None: a.term = mk(name, *[to_term(x) for x in ps])
        return patom(a)

    # ---- terms
    def norm(self, t):
        r = self.memo.get(t)
        if r is None:
            self.depth += 1
            if self.depth > 400: raise Giveup('depth')
            try: r = self._norm(t)
            finally: self.depth -= 1
            self.memo[t] = r
        return r
    def _norm(self, t):
        o = t.op; a = t.a
        n = self.norm
        if o == 'num': return pc(a[0])
        if o == 'f':
            r = f_exact(a[0])
            return n(r) if r.op != 'num' else pc(r.a[0])
        if o == 'const':
            if a[0] == 'e': return patom(EATOM)
            if a[0] in ('inf', 'ninf', 'nan'): raise Giveup('non-finite')
            return patom(Atom('c', a[0]))
        if o == 'var':
            x = Atom('v', a[0], a[1]); x.term = t; return patom(x)
        if o == '+': return padd(n(a[0]), n(a[1]))
        if o == '-': return padd(n(a[0]), n(a[1]), -1)
        if o == 'neg': return pscale(n(a[0]), Q(-1))
        if o == '*': return pmul(n(a[0]), n(a[1]))
        if o == '/': 
            d = n(a[1])
            if not d.t: raise Giveup('division by zero')
            return pmul(n(a[0]), self.inv(d))
        if o == 'i2f' and a[0].op == 'choose' and self.oracle(le(a[0].a[1], a[0].a[0])):
            N_, K_ = mk('i2f', a[0].a[0]), mk('i2f', a[0].a[1]); L = lambda x: mk('lgamma', mk('+', x, ONE))
            return n(mk('exp', mk('-', mk('-', L(N_), L(K_)), L(mk('-', N_, K_)))))
        if o in ('i2f', 'toreal'): return n(a[0])
        if o == 'f2i' :
            p = n(a[0])
            if self.intval(p): return p
            return self.generic('f2i', [p], t)
        if o == 'pow' or o == 'powi':
            e = enorm(self.together(n(a[1])))
            b = n(a[0])
            if len(b.t) == 1:
                (m, c), = b.t.items()
                if c == 1 and len(m) == 1 and m[0][0] is EATOM:
                    return self.pexp(pmul(epoly(m[0][1]), epoly(e)))
            if o == 'powi' and not isinstance(e, Q) and self.sgn(b) not in (1, 2):
                # symbolic integer exponent: exact for nonzero bases
                return self.generic('powi', [b, epoly(e)], t)
            return self.power(b, e)
        if o == 'sqrt':
            fs = []; st = [a[0]]
            while st:
                x = st.pop()
                if x.op == '*': st += x.a
                else: fs.append(x)
            if len(fs) >= 3 and len(fs) % 2 and all(x is fs[0] or x == fs[0] for x in fs): return self.power(n(fs[0]), Q(len(fs), 2))
            ps = [n(x) for x in fs]
            if len(ps) > 1 and any(len(p.t) > 1 for p in ps) and all(self.sgn(p) in (1, 2) for p in ps):
                # a product with sums, no factor negative: root by root
                r = P1
                for p in ps: r = pmul(r, self.power(p, Q(1, 2)))
                return r
            return self.power(n(a[0]), Q(1, 2))
        if o == 'cbrt': return self.power(n(a[0]), Q(1, 3))
        if o == 'exp': return self.pexp(n(a[0]))
        if o == 'ln': return self.pln(n(a[0]))
        if o == 'gamma': return self.pgamma(n(a[0]))
        if o == 'lgamma': return self.pln(self.pgamma(n(a[0])))
        if o == 'beta':
            x, y = n(a[0]), n(a[1])
            return pmul(pmul(self.pgamma(x), self.pgamma(y)), self.inv(self.pgamma(padd(x, y))))
        if o == 'lbeta': return self.pln(n(mk('beta', *a)))
        if o == 'digamma': return self.pdigamma(n(a[0]))
        if o == 'trigamma': return self.ptrigamma(n(a[0]))
        if o == 'erf': return self.oddfn('erf', n(a[0]))
        if o == 'erfc': return padd(P1, self.oddfn('erf', n(a[0])), -1)
        if o == 'normcdf':
            p = n(a[0])
            if len(p.t) == 1:
                (m, c), = p.t.items()
                if len(m) == 1 and m[0][0].k == 'norminv' and m[0][1] == 1 and c in (1, -1):
                    u = m[0][0].a[0]
                    if self.sgn(u) == 1 and self.sgn(padd(P1, u, -1)) == 1: return u if c == 1 else padd(P1, u, -1)
            return padd(pc(Q(1, 2)), pscale(self.oddfn('erf', pmul(n(a[0]), self.power(pc(2), Q(-1, 2)))), Q(1, 2)))
        if o == 'sin': 
            p = n(a[0]); return self.trig('sin', p)
        if o == 'cos':
            p = n(a[0]); return self.trig('cos', p)
        if o == 'tan':
            p = n(a[0])
            return pmul(self.trig('sin', p), self.inv(self.trig('cos', p)))
        if o in ('atan', 'asin', 'sinh', 'tanh'):
            p = n(a[0])
            if o == 'sinh': return pscale(padd(self.pexp(p), self.pexp(pscale(p, Q(-1))), -1), Q(1, 2))
            if o == 'tanh':
                e2 = self.pexp(pscale(p, Q(2))); return pmul(padd(e2, P1, -1), self.inv(padd(e2, P1)))
            if o == 'asin' and p.t and self.sgn(p) == 1:
                sq2 = pmul(p, p).const()
                if sq2 in (Q(1, 4), Q(1, 2), Q(3, 4)): return pscale(patom(PIATOM), {Q(1, 4): Q(1, 6), Q(1, 2): Q(1, 4), Q(3, 4): Q(1, 3)}[sq2])
            if o == 'atan' and len(p.t) == 1:
                # atan(tan w) = w for |w| < pi/2; atan(cot w) = pi/2 - w for 0 < w < pi
                (m, c), = p.t.items(); d = dict(m); sn = [x for x in d if x.k == 'sin']; cs = [x for x in d if x.k == 'cos']
                if len(d) == 2 and len(sn) == 1 and len(cs) == 1 and c in (1, -1) and pkey(sn[0].a[0]) == pkey(cs[0].a[0]) and (d[sn[0]], d[cs[0]]) in ((1, -1), (-1, 1)):
                    w = sn[0].a[0]; y = self.together(pmul(w, self.inv(patom(PIATOM))))
                    if d[sn[0]] == 1 and self.sgn(padd(y, pc(Q(1, 2)))) == 1 and self.sgn(padd(pc(Q(1, 2)), y, -1)) == 1: return pscale(w, c)
                    if d[sn[0]] == -1 and self.sgn(y) == 1 and self.sgn(padd(P1, y, -1)) == 1: return pscale(padd(pscale(patom(PIATOM), Q(1, 2)), w, -1), c)
            if o in ('atan', 'asin') and p.const() == 1: return pscale(patom(PIATOM), Q(1, 4) if o == 'atan' else Q(1, 2))
            return self.oddfn(o, p)
        if o == 'acos': return padd(pscale(patom(PIATOM), Q(1, 2)), self.oddfn('asin', n(a[0])), -1)
        if o == 'cosh':
            p = n(a[0]); return pscale(padd(self.pexp(p), self.pexp(pscale(p, Q(-1)))), Q(1, 2))
        if o == 'betai':
            x, y, z = n(a[0]), n(a[1]), self.together(n(a[2]))
            if z.const() in (0, 1): return P1 if z.const() == 1 else PZ
            z2 = self.together(padd(P1, z, -1))
            if z.const() == Q(1, 2) and pkey(self.together(x)) == pkey(self.together(y)): return pc(Q(1, 2))
            inz = self.sgn(z) == 1 and self.sgn(z2) == 1
            if y.const() == 1 and inz: return self.power(z, x.const() if x.const() is not None else x)
            if x.const() == 1 and inz: return padd(P1, self.power(z2, y.const() if y.const() is not None else y), -1)
            if z.const() is not None and x.const() is not None and y.const() is not None and 0 < z.const() < 1 and x.const().denominator == y.const().denominator == 1 and 0 < x.const() < 12 and 0 < y.const() < 12:
                import math
                A, B, Z = int(x.const()), int(y.const()), z.const(); N = A + B - 1
                return pc(sum(math.comb(N, j) * Z ** j * (1 - Z) ** (N - j) for j in range(A, N + 1)))
            if pkey(z2) < pkey(z):
                return padd(P1, self.generic('betai', [y, x, z2], t), -1)
            return self.generic('betai', [x, y, z], t)
        if o == 'gammp':
            s, x = n(a[0]), n(a[1])
            if s.const() == 1: return padd(P1, self.pexp(pscale(x, Q(-1))), -1)
            if s.const() == Q(1, 2): return self.oddfn('erf', self.power(x, Q(1, 2)))
            return self.generic('gammp', [s, x], t)
        if o == 'norminv':
            p = n(a[0])
            if p.const() == Q(1, 2): return PZ
            q = padd(P1, p, -1)
            if pkey(q) < pkey(p): return pscale(self.generic('norminv', [q], t), Q(-1))
            return self.generic('norminv', [p], t)
        if o == 'abs':
            p = n(a[0]); s = self.sgn(p)
            if s in (1, 2): return p
            if s in (-1, -2): return pscale(p, Q(-1))
            return self.evenfn('abs', p)
        if o in ('floor', 'ceil', 'trunc', 'round'):
            p = self.together(n(a[0]))
            if self.intval(p): return p
            c = p.const()
            if c is not None:
                import math
                return pc({'floor': math.floor, 'ceil': math.ceil, 'trunc': math.trunc, 'round': lambda v: math.floor(v + Q(1, 2)) if v >= 0 else -math.floor(-v + Q(1, 2))}[o](c))
            if o == 'trunc' and self.sgn(p) in (1, 2): o = 'floor'
            # pull integer constants out of floor/ceil
            if o in ('floor', 'ceil'):
                k = p.t.get((), Q(0)); z = k.numerator // k.denominator
                ip = {m: c for m, c in p.t.items() if m == () or (c.denominator == 1 and len(m) == 1 and self.intatom(m[0]))}
                ip = {m: (Q(c.numerator // c.denominator) if m == () else c) for m, c in ip.items()}
                ip = mkp(ip)
                return padd(ip, self.generic(o, [padd(p, ip, -1)], t))
            return self.generic(o, [p], t)
        if o == 'max' or o == 'min': return self.generic(o, [n(a[0]), n(a[1])], t)
        if o == 'app':
            args = []
            for x in a[2:]:
                if isinstance(x, T): args.append(self.argkey(x))
                else: args.append(x)
            x = Atom('app', a[0], a[1], *args)
            if x.term is None: x.term = t
            return patom(x)
        if o == 'sum': return self.psum(t)
        if o == 'prod':
            return self.pexp(self.psum(mk('sum', a[0], a[1], a[2], mk('ln', a[3]))))
        if o == 'ite':
            if self.oracle(a[0]): return n(a[1])
            if self.oracle(not_(a[0])): return n(a[2])
            if a[0].op == 'not': return n(mk('ite', a[0].a[0], a[2], a[1]))
            c = self.boolkey(a[0])
            x, y = n(a[1]), n(a[2])
            if x is y: return x
            com = {m: k for m, k in x.t.items() if y.t.get(m) == k}
            if com and not (x is P1 and y is PZ):
                com = Poly(com); x = padd(x, com, -1); y = padd(y, com, -1)
                tx, ty = to_term(x), to_term(y)
                if tx is not None and ty is not None:
                    if x is y: return padd(com, x)
                    at = Atom('ite', c, x, y)
                    if at.term is None: at.term = mk('ite', a[0], tx, ty)
                    return padd(com, patom(at))
                x, y = n(a[1]), n(a[2])
            at = Atom('ite', c, x, y)
            if at.term is None: at.term = t
            return patom(at)
        if o in ('idiv', 'imod', 'tdiv', 'tmod', 'fmod', 'zeta', 'choose', 'wrap', 'hyp2f1', 'atan2', 'copysign', 'f_to_bits', 'fact', 'besseli', 'ei'):
            return self.generic(o, [n(x) for x in a], t)
        x = Atom('T', t); x.term = t
        return patom(x)
    def trig(self, name, p):
        p = self.together(p)
        # shift by multiples of pi/2
        k = Q(0); key = ((PIATOM, Q(1)),)
        c = p.t.get(key, Q(0))
        h = c * 2; n = h.numerator // h.denominator
        if n:
            q = padd(p, Poly({key: Q(n, 2)}), -1)
            n %= 4
            s, co = self.trig0('sin', q), self.trig0('cos', q)
            if name == 'sin': return [s, co, pscale(s, Q(-1)), pscale(co, Q(-1))][n]
            return [co, pscale(s, Q(-1)), pscale(co, Q(-1)), s][n]
        return self.trig0(name, p)
    def trig0(self, name, p):
        if not p.t: return PZ if name == 'sin' else P1
        return self.oddfn('sin', p) if name == 'sin' else self.evenfn('cos', p)
    def argkey(self, x):
        if x.op in ('mat', 'matc', 'lam', 'tup'): return self.structkey(x)
        if is_bool(x): return self.boolkey(x)
        if x.op == 'var' and x.a[1] == 'U': return x
        if x.op == 'app' and x.a[1] == 'U': return ('u', x.a[0]) + tuple(self.argkey(y) if isinstance(y, T) else y for y in x.a[2:])
        return self.together(self.norm(x))
    def structkey(self, x):
        return (x.op,) + tuple(self.argkey(y) if isinstance(y, T) else y for y in x.a)
    def boolkey(self, c):
        o = c.op
        if o in ('true', 'false'): return c
        if o in ('and', 'or'): return (o,) + tuple(sorted((self.boolkey(x) for x in c.a), key=hash))
        if o == 'not': 
            k = self.boolkey(c.a[0])
            if isinstance(k, tuple) and k[0] == '<': return ('<=', pscale(k[1], Q(-1)))
            if isinstance(k, tuple) and k[0] == '<=': return ('<', pscale(k[1], Q(-1)))
            return ('not', k)
        if o in ('<', '<='):
            try:
                d = self.together(padd(self.norm(c.a[1]), self.norm(c.a[0]), -1))
                co, m, q = self.split(d)
                if m == () : return (o, pscale(q, Q(1 if co > 0 else -1)))
                return (o, d)
            except Giveup: return c
        if o == '=':
            try:
                d = self.together(padd(self.norm(c.a[1]), self.norm(c.a[0]), -1))
                co, m, q = self.split(d)
                return ('=', q if m == () else d)
            except Giveup: return c
        return c
    def intatom(self, me):
        a, e = me
        if not (isinstance(e, Q) and e.denominator == 1 and e > 0): return False
        return (a.k == 'v' and a.a[1] == 'I') or (a.k == 'app' and a.a[1] == 'I') or a.k in ('floor', 'ceil', 'trunc', 'f2i', 'idiv', 'imod', 'tdiv', 'tmod', 'choose', 'fact')
    def intval(self, p):
        return all(c.denominator == 1 and all(self.intatom(x) for x in m) for m, c in p.t.items())
    def psum(self, t):
        i, lo, hi, body = t.a
        # canonical bound variable, by nesting depth of sums inside the body
        d = sumdepth(body)
        b = var('#%d' % d, 'I')
        body = subst(body, {i: b})
        L, H = self.together(self.norm(lo)), self.together(self.norm(hi))
        if L is H: return PZ
        lc, hc = L.const(), H.const()
        if lc is not None and hc is not None and 0 <= hc - lc <= 40:
            r = PZ
            for k in range(int(lc), int(hc)): r = padd(r, self.norm(subst(body, {b: num(k)})))
            return r
        # shift to start at 0
        if lc is None or lc != 0:
            body = subst(body, {b: add(b, lo)})
            H = self.together(padd(H, L, -1)); hi = sub(hi, lo)
        cut = self.cut(body, b, hi)
        if cut:
            m, f, g = cut; j = var('k!', 'I'); f, g = subst(f, {b: j}), subst(g, {b: j})
            return padd(self.psum(mk('sum', j, ZERO, m, f)) if f is not ZERO else PZ, self.psum(mk('sum', j, m, hi, g)) if g is not ZERO else PZ)
        # a bound n + c is moved to n, the c last summands written out
        c0 = H.t.get((), Q(0))
        if c0 and len(H.t) > 1 and c0.denominator == 1 and abs(c0) <= 4:
            H0 = padd(H, pc(-c0)); h0 = to_term(H0)
            if h0 is not None and self.oracle(le(ZERO, hi if c0 < 0 else h0)):
                r = self.psum(mk('sum', b, ZERO, h0, body))
                for j in range(int(abs(c0))):
                    r = padd(r, self.norm(subst(body, {b: add(h0, num(j if c0 > 0 else j + int(c0)))})), 1 if c0 > 0 else -1)
                return r
        self.oracle_push(and_(le(ZERO, b), lt(b, hi)))
        try: P = self.together(self.norm(body))
        finally: self.oracle_pop()
        bat = Atom('v', b.a[0], 'I')
        if any(a.k == 'ite' for m in P.t for a, e in m):
            P = self.extensional(P, b, (H, b), hi)
        else: self.noted(P, (H, b))
        P = self.indicator(P, bat)
        groups = {}
        for m, c in P.t.items():
            dep = []; ind = []
            for a, e in m:
                if isinstance(e, Poly) and mentions_poly(e, bat):
                    # split exponent: base^(x + y(i)) when base does not depend on i
                    if not mentions_atom(a, bat):
                        e1 = {mm: cc for mm, cc in e.t.items() if not mentions_mono(mm, bat)}
                        e2 = {mm: cc for mm, cc in e.t.items() if mentions_mono(mm, bat)}
                        if e1: ind.append((a, enorm(Poly(e1))))
                        dep.append((a, enorm(Poly(e2))))
                    else: dep.append((a, e))
                elif mentions_atom(a, bat): dep.append((a, e))
                else: ind.append((a, e))
            k1, dm = mnorm(dict(dep)); k2, im = mnorm(dict(ind))
            groups.setdefault(im, {})
            groups[im][dm] = groups[im].get(dm, 0) + c * k1 * k2
        r = PZ
        for im, g in groups.items():
            for dm, c in g.items():
                if not c: continue
                pi_ = Poly({im: Q(1)})
                if dm == ():
                    r = padd(r, pscale(pmul(pi_, H), c)); continue
                if dm == ((bat, Q(1)),):
                    r = padd(r, pscale(pmul(pi_, pmul(H, padd(H, pc(-1)))), c / 2)); continue
                if d > 0:
                    bt, ht = to_term(Poly({dm: Q(1)})), to_term(H)
                    kv = var('k!', 'I'); bt = bt is not None and subst(bt, {b: kv})
                    if bt and ht is not None and sumdepth(bt) < d:
                        # a factor with a nested sum moved out: choose the bound variable again
                        r = padd(r, pscale(pmul(pi_, self.psum(mk('sum', kv, ZERO, ht, bt))), c)); continue
                at = Atom('sum', b.a[0], H, Poly({dm: Q(1)}))
                if at.term is None: at.term = mk('sum', b, ZERO, to_term(H), to_term(Poly({dm: Q(1)})))
                r = padd(r, pscale(pmul(pi_, patom(at)), c))
        return r
    def noted(self, P, key):
        r = self.bodies.setdefault(key, [])
        if P not in r and len(r) < 8: r.append(P)
    def extensional(self, P, b, key, hi):
        """a summand with conditionals, as one met before over the same range when both agree at every index (case split)"""
        for P2 in self.bodies.get(key, ()):
            D = padd(P, P2, -1)
            if not D.t: return P2
            t = to_term(D)
            if t is None: continue
            self.oracle_push(and_(le(ZERO, b), lt(b, hi)))
            try: ok = self.vanishes(t, 3)
            finally: self.oracle_pop()
            if ok: return P2
        self.noted(P, key)
        return P
    def vanishes(self, t, n):
        c = first_cond(t)
        if c is None:
            try: return not self.together(self.norm(t)).t
            except Giveup: return False
        if n == 0: return False
        for v, h in ((TRUE, c), (FALSE, not_(c))):
            if n < 3 and self.oracle(not_(h)): continue      # not possible here
            t2 = subst(t, {c: v})
            if h.op == '=' and h.a[1].op == 'num' and h.a[0].op != 'num': t2 = subst(t2, {h.a[0]: h.a[1]})
            elif h.op == '=' and h.a[0].op == 'num' and h.a[1].op != 'num': t2 = subst(t2, {h.a[1]: h.a[0]})
            self.oracle_push(h)
            try: ok = self.vanishes(t2, n - 1)
            finally: self.oracle_pop()
            if not ok: return False
        return True
    def cut(self, body, b, hi):
        """a summand that changes at a known place within the range: (place, before, from there on)"""
        if body.op != 'ite': return None
        c, f, g = body.a
        if c.op == 'not': c, f, g = c.a[0], g, f
        if c.op not in ('<', '<='): return None
        x, y = c.a
        if x is b and b not in free_vars(y): m = y if c.op == '<' else add(y, ONE)
        elif y is b and b not in free_vars(x): m = add(x, ONE) if c.op == '<' else x; f, g = g, f
        else: return None
        if m.op not in ('num', '+', '-', 'var', 'neg', 'ite', '*') or any(v.a[1] != 'I' for v in free_vars(m)): return None
        if self.oracle(le(ZERO, m)) and self.oracle(le(m, hi)): return m, f, g
        return None
    def indicator(self, P, bat):
        """conditionals between values that do not depend on the bound variable, as 0/1 indicators"""
        def hit(m):
            for a, e in m:
                if a.k == 'ite' and e == 1 and a.term is not None and not (a.a[1] is P1 and a.a[2] is PZ) and not mentions_poly(a.a[1], bat) and not mentions_poly(a.a[2], bat): return a
        out = PZ; ch = False
        for m, c in P.t.items():
            a = hit(m)
            if a is None: out = padd(out, Poly({m: c})); continue
            ch = True
            ind = Atom('ite', a.a[0], P1, PZ)
            if ind.term is None: ind.term = mk('ite', a.term.a[0], ONE, ZERO)
            rest = Poly({tuple(x for x in m if x[0] is not a): c})
            out = padd(out, pmul(rest, padd(a.a[2], pmul(padd(a.a[1], a.a[2], -1), patom(ind)))))
        return self.indicator(out, bat) if ch else out
    def oracle_push(self, c):
        push = getattr(self.oracle, 'push', None)
        if push: push(c)
        self._saved = getattr(self, '_saved', []) + [(self.memo, self.signs)]
        self.memo = {}; self.signs = {}
    def oracle_pop(self):
        pop = getattr(self.oracle, 'pop', None)
        if pop: pop()
        self.memo, self.signs = self._saved[-1]; self._saved = self._saved[:-1]

    def is_zero(self, t):
        p = self.norm(t)
        if not p.t: return True
        for _ in range(4):
            q = self.together(p)
            if not q.t: return True
            if q is p or q.t == p.t: break
            p = q
        return self.pyth(p)
    def pyth(self, p):
        """sin^2 = 1 - cos^2"""
        for m in list(p.t):
            for a, e in m:
                if a.k == 'sin' and isinstance(e, Q) and e >= 2:
                    d = PZ
                    co = None
                    for m2, c2 in p.t.items():
                        md = dict(m2); ee = md.get(a)
                        if ee is not None and isinstance(ee, Q) and ee >= 2:
                            md[a] = ee - 2
                            if md[a] == 0: del md[a]
                            k, mm = mnorm(md)
                            cs = self.evenfn('cos', a.a[0])
                            d = padd(d, pmul(Poly({mm: c2 * k}), padd(P1, pmul(cs, cs), -1)))
                        else: d = padd(d, Poly({m2: c2}))
                    d = self.together(d)
                    return not d.t or self.pyth(d)
        return False

def first_cond(t):
    """the condition of an outermost conditional of t (none inside a sum)"""
    if t.op == 'ite': return t.a[0].a[0] if t.a[0].op == 'not' else t.a[0]
    if t.op in BINDERS or t.op in ('num', 'f', 'var', 'const', 'true', 'false'): return None
    for x in t.a:
        if isinstance(x, T):
            c = first_cond(x)
            if c is not None: return c
def sumdepth(t):
    best = 0; seen = set(); stk = [t]
    while stk:
        x = stk.pop()
        if x in seen: continue
        seen.add(x)
        if x.op == 'var' and x.a[0].startswith('#'): best = max(best, int(x.a[0][1:]) + 1) if x.a[0][1:].isdigit() else best
        if x.op in BINDERS: best = max(best, 1 + sumdepth(x.a[3]))
        else: stk.extend(y for y in x.a if isinstance(y, T))
    return best
def mentions_mono(m, b): return any(mentions_atom(a, b) or (isinstance(e, Poly) and mentions_poly(e, b)) for a, e in m)
def mentions_poly(p, b): return any(mentions_mono(m, b) for m in p.t)
_ment = {}
def mentions_atom(a, b):
    if a is b: return True
    k = (a, b)
    r = _ment.get(k)
    if r is None:
        r = any(mentions_any(x, b) for x in a.a); _ment[k] = r
    return r
def mentions_any(x, b):
    if isinstance(x, Poly): return mentions_poly(x, b)
    if isinstance(x, Atom): return mentions_atom(x, b)
    if isinstance(x, tuple): return any(mentions_any(y, b) for y in x)
    if isinstance(x, T): return var(b.a[0], b.a[1]) in free_vars(x)
    return False
def mono_order(m):
    return (-sum(float(e) if isinstance(e, Q) else 0.5 for _, e in m), tuple((a.id, str(e) if isinstance(e, Q) else e.h) for a, e in m))
_pk = {}
def pkey(p):
    """deterministic ordering key of a polynomial (within a run)"""
    r = _pk.get(p)
    if r is None:
        r = (len(p.t), sorted((mono_order(m), c) for m, c in p.t.items()).__repr__()); _pk[p] = r
    return r

# ---------------------------------------------------------------- exact division and factoring
def pdiv_exact(N, D):
    """N / D if exact (multivariate division by one divisor, natural exponents only)"""
    if len(D.t) < 2: return None
    atoms = sorted({a for m in D.t for a, _ in m}, key=lambda a: a.id)
    def expo(m):
        d = dict(m)
        r = []
        for a in atoms:
            e = d.get(a, Q(0))
            if not isinstance(e, Q): return None
            r.append(e)
        return tuple(r)
    for m in D.t:
        e = expo(m)
        if e is None or any(x < 0 for x in e): return None
        if any(isinstance(x[1], Poly) for x in m): return None
    def order(m):
        e = expo(m)
        return None if e is None else (sum(e), e)
    dl = max(D.t, key=order); dc = D.t[dl]
    de = dict(dl)
    # group numerator by the part outside atoms
    R = dict(N.t); quo = {}
    steps = 0
    def full(m):
        o = order(m)
        rest = tuple((a.id, str(e)) for a, e in m if a not in atoms)
        return (o, rest)
    for m in R:
        if order(m) is None: return None
    while R:
        steps += 1
        if steps > 400: return None
        m = max(R, key=full); c = R[m]
        md = dict(m)
        ok = True
        for a, e in de.items():
            x = md.get(a, Q(0)) - e
            if x < 0: ok = False; break
            md[a] = x
        if not ok: return None
        md = {a: e for a, e in md.items() if not (isinstance(e, Q) and e == 0)}
        k, qm = mnorm(md)
        qc = c * k / dc
        quo[qm] = quo.get(qm, 0) + qc
        for m2, c2 in D.t.items():
            kk, mm = mmul(qm, m2)
            v = R.get(mm, 0) - qc * c2 * kk
            if v: R[mm] = v
            else: R.pop(mm, None)
    return mkp(quo)
_fac = {}
def factor_poly(p):
    if p in _fac: return _fac[p]
    r = _factor_poly(p); _fac[p] = r
    return r
def _factor_poly(p):
    if len(p.t) > 24 or len(p.t) < 2: return None
    atoms = {}
    deg = 0
    for m in p.t:
        d = 0
        for a, e in m:
            if not (isinstance(e, Q) and e.denominator == 1 and 0 < e <= 6): 
                if isinstance(e, Q) and e.denominator == 2 and 0 < e <= 4: atoms.setdefault(a, set()).add(2); d += float(e) * 2; continue
                return None
            atoms.setdefault(a, set()).add(1); d += int(e)
        deg = max(deg, d)
    if deg < 2 or deg > 8: return None
    import sympy
    al = sorted(atoms, key=lambda a: a.id)
    sy = {a: sympy.Symbol('x%d' % i) for i, a in enumerate(al)}
    half = {a for a in al if 2 in atoms[a]}
    expr = 0
    for m, c in p.t.items():
        t = sympy.Rational(c.numerator, c.denominator)
        for a, e in m: t *= sy[a] ** (int(e * 2) if a in half else int(e))
        expr += t
    try: c, fs = sympy.factor_list(expr)
    except Exception: return None
    if len(fs) == 1 and fs[0][1] == 1: return None
    out = []
    inv = {sy[a]: a for a in al}
    gens = [sy[a] for a in al]
    for f, n in fs:
        pl = sympy.Poly(f, *gens)
        d = {}
        for mon, co in pl.terms():
            md = {}
            for g, e in zip(al, mon):
                if e: md[g] = Q(e, 2) if g in half else Q(e)
            k, mm = mnorm(md)
            d[mm] = d.get(mm, 0) + Q(int(co.p), int(co.q)) * k
        out.append((mkp(d), int(n)))
    if c != 1: out.append((pc(Q(int(c.p), int(c.q))), 1))
    return out

# ---------------------------------------------------------------- literals
_known = None
def f_exact(bits):
    """the real number a 64-bit literal stands for: a named constant if it is the
    nearest double to it, else its shortest decimal expansion"""
    global _known
    if _known is None:
        import mpmath, struct
        _known = {}
        mpmath.mp.dps = 40
        pi = PI
        cands = [(pi, mpmath.pi), (E, mpmath.e), (EULER, mpmath.euler), (sqrt(TWO), mpmath.sqrt(2)), (ln(TWO), mpmath.log(2)), (sqrt(pi), mpmath.sqrt(mpmath.pi)),
                 (const('zeta3'), mpmath.zeta(3)), (const('catalan'), mpmath.catalan), (mul(TWO, pi), 2 * mpmath.pi), (div(pi, TWO), mpmath.pi / 2), (mul(pi, pi), mpmath.pi ** 2), (sqrt(num(3)), mpmath.sqrt(3)), (sqrt(num(6)), mpmath.sqrt(6)),
                 (ln(num(10)), mpmath.log(10)), (ln(num(4)), mpmath.log(4)), (ln(pi), mpmath.log(mpmath.pi)), (ln(mul(TWO, pi)), mpmath.log(2 * mpmath.pi)), (sqrt(mul(TWO, pi)), mpmath.sqrt(2 * mpmath.pi)), (div(mul(pi, pi), num(6)), mpmath.pi ** 2 / 6)]
        for i in (3, 6, 7, 9, 12): cands += [(num(Q(k, i)), mpmath.mpf(k) / i) for k in range(1, i)]
        for t, v in cands:
            for s in (1, -1):
                b = struct.unpack('<Q', struct.pack('<d', float(s * v)))[0]
                _known.setdefault(b, t if s == 1 else neg(t))
    r = _known.get(bits)
    if r is not None: return r
    return f_to_real(bits)
