"""P11: factorials and binomial coefficients."""
from contract import *
import check
USE = 'use crate::utils::*;\n'
G = ('comb', USE)
MAX = num(2**64 - 1)
def CH(n, k): return mk('choose', n, k)
def FACT(n): return mk('fact', n)
def contracts():
    cs = []
    import math
    for f in ('factorial', 'factorial_exact'):
        cs.append(Contract(f, G, 'pub fn %s_(n: u64) -> u64 { %s(n) }' % (f, f), lambda a, r: [eqg('n factorial', r, num(math.factorial(int(a.n.a[0]))) if a.n.op == 'num' else FACT(a.n))],
            pre=lambda a: le(a.n, num(20)), desc='exactly n! for every n with n! < 2^64 (n <= 20)', gen=lambda rng: {'n': rng.randint(0, 20)}, nrand=60))
        cs[-1].cases = [{'n': k} for k in range(21)]
    cs.append(Contract('choose', G, 'pub fn choose_(n: u64, k: u64) -> u64 { choose(n, k) }',
        lambda a, r: [eqg('number of k-subsets', r, CH(a.n, a.k))], panics=lambda a: lt(MAX, CH(a.n, a.k)), 
        hyps=lambda a: [or_(lt(a.n, a.k), eq(CH(a.n, a.k), CH(a.n, sub(a.n, a.k))))],
        loop_invs=[lambda a, m, v0: CH(a.n, m)], desc='the number of k-subsets of an n-set whenever it fits in u64; a failure otherwise', gen=gch, nrand=400))
    return cs
def gch(rng):
    n = rng.choice([rng.randint(0, 12), rng.randint(0, 70), rng.randint(0, 2**20), rng.randint(0, 2**64 - 1)])
    k = rng.choice([rng.randint(0, 12), rng.randint(0, 70), rng.choice([n, max(n - 1, 0), min(n + 1, 2**64 - 1), n // 2, max(n - 2, 0), max(0, n - rng.randint(0, 9))])])
    if rng.random() < 0.3: n = rng.randint(50, 70); k = n // 2 + rng.randint(-5, 5)
    if k > 100 and n - k > 100: k = rng.randint(0, 60)
    return {'n': n, 'k': k}
def run(tier):
    check.main('P11', tier, contracts())
