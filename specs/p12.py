"""P12: log-factorials and named constants."""
from contract import *
import check, mpmath
G = ('logfact', 'use crate::utils::*;\nuse crate::consts;\n'); GC = ('consts', 'use crate::consts::*;\n')
Fr = Fraction
C = {'PI': PI, 'E': E, 'PI_E': PI * E, 'PI_2': PI * 2, 'PI_E_2': PI * E * 2, 'PI_16': PI * 16, 'PI_OVER_2': PI / 2, 'PI_OVER_4': PI / 4, 'PI2_OVER_6': PI * PI / 6, 'PI2': PI * PI, 'PI3': PI * PI * PI,
     'PI4': PI * PI * PI * PI, 'PI5': PI * PI * PI * PI * PI, 'ONE_OVER_PI': 1 / PI, 'TWO_OVER_PI': 2 / PI, 'TWO_OVER_PI2': 2 / (PI * PI), 'ONE_HALF': Fr(1, 2), 'ONE_THIRD': Fr(1, 3), 'ONE_TWELTH': Fr(1, 12),
     'ONE_TWENTY_FOURTH': Fr(1, 24), 'TWO_THIRDS': Fr(2, 3), 'THREE_HALVES': Fr(3, 2), 'THREE_FIFTHS': Fr(3, 5), 'SIX_FIFTHS': Fr(6, 5), 'NINE_FIFTHS': Fr(9, 5), 'TWELVE_FIFTHS': Fr(12, 5),
     'TWENTY_ONE_FIFTHS': Fr(21, 5), 'TWENTY_SEVEN_FIFTHS': Fr(27, 5), 'NINETEEN_OVER_360': Fr(19, 360)}
def close(r, want, tol): return and_(le(r - want, lift(tol) * abs_(want)), le(want - r, lift(tol) * abs_(want)))
def abs_(x): return mk('abs', x)
def lfact(n): return mk('lgamma', add(mk('i2f', n) if n.op != 'num' else n, ONE))
TOL = Fr(1, 10**10)
def stirling(a):
    x = add(mk('i2f', a.n), ONE)
    S = (x - HALF) * mk('ln', x) - x + HALF * mk('ln', 2 * PI) + 1 / (12 * x)
    L = lfact(a.n)
    return [le(ZERO, S - L), le((S - L) * 360 * x * x * x, ONE), le(num(100), L)]
def contracts():
    cs = []
    for n, v in C.items():
        cs.append(Contract(n, GC, 'pub fn c_%s() -> f64 { %s }' % (n.lower(), n), lambda a, r, v=lift(v): [holds('equals the quantity its name states', close(r, v, Fr(4, 2**53)))], desc='named constant'))
    cs.append(Contract('FACTORIALS_16', GC, 'pub fn tab_fact() -> [u64; 12] { FACTORIALS_16 }', lambda a, r: [eqg('table of factorials', r, Arr([num(math.factorial(i)) for i in range(12)]))], desc='entry i is i!'))
    cs.append(Contract('LOG_FACTORIALS_255', GC, 'pub fn tab_lfact() -> [f64; 255] { LOG_FACTORIALS_255 }',
        lambda a, r: [holds('entry %d is ln(%d!)' % (i, i), close(x, mk('ln', num(math.factorial(i))), Fr(1, 10**13))) for i, x in enumerate(r.e)] + [holds('255 entries', lift(len(r.e) == 255))], desc='entry i is ln i!'))
    small = Contract('log_factorial.table', G, 'pub fn lf_small(n: u64) -> f64 { log_factorial_stirling(n) }', lambda a, r: [holds('within 1e-10 of ln n!', close(r, mk('ln', num(math.factorial(int(a.n.a[0])))) if a.n.op == 'num' else lfact(a.n), TOL))],
        pre=lambda a: le(a.n, num(254)), desc='log-factorial for n <= 254', gen=lambda rng: {'n': rng.randint(0, 254)}, timeout=120)
    small.cases = [{'n': k} for k in range(255)]
    cs.append(small)
    cs.append(Contract('log_factorial.series', G, 'pub fn lf_large(n: u64) -> f64 { log_factorial_stirling(n) }', lambda a, r: [holds('within 1e-10 of ln n!', close(r, lfact(a.n), TOL))],
        pre=lambda a: lt(num(254), a.n), hyps=stirling, desc='log-factorial for n > 254', gen=lambda rng: {'n': rng.choice([255, 256, 257, 300, rng.randint(255, 10**4), rng.randint(255, 10**9), rng.randint(255, 2**64 - 1), 2**64 - 1])}, timeout=60))
    for c in cs: c.eps = 1e-25
    return cs
def run(tier):
    check.main('P12', tier, contracts(), assumptions=['Stirling bounds: 0 <= S(x) - lnGamma(x) <= 1/(360 x^3) with S(x) = (x-1/2)ln x - x + ln(2 pi)/2 + 1/(12x), and lnGamma(x) >= 100 for x >= 256 (both checked numerically on samples)'], extra_checks=lemma_samples)
def lemma_samples(ws, prog, tier, seed):
    import numeric
    bad = 0; n = 0
    for k in [255, 256, 300, 1000, 10**4, 10**6, 10**9]:
        class R: pass
        a = A({'n': num(k)})
        ev = numeric.Ev()
        for h in stirling(a):
            n += 1
            if not ev(h): bad += 1
    if bad: raise RuntimeError('a trusted lemma is wrong')
    return {'evaluations': 0, 'coverage': {'lemma_samples': n}}
