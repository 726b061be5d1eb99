"""P03: a checked probability vector lies on the simplex."""
from contract import *
import check
from p01 import valid
G = ('simplex', 'use crate::SimplexVector;\nuse crate::params::Param;\n')
def dist1(v): return mk('abs', seqsum(v) - ONE)
def gen(rng, n):
    k = rng.random()
    v = [rng.random() for _ in range(n)]
    if k < 0.15: v = [0.0] * n; v and v.__setitem__(rng.randrange(n), 1.0)
    elif k < 0.7:
        s = sum(v) or 1.0; v = [x / s for x in v]
        if k > 0.3 and n: i = rng.randrange(n); v[i] += rng.choice([1e-6, -1e-6, 2e-5, -2e-5, 1.0, -1.0, 5e-6, -v[i], -2 * v[i], 1.1e-5, -1.1e-5, 9e-6, -9e-6, 3e-5, n * 0.9e-5, -n * 0.9e-5, 1e-4, 1e-3])
    elif k < 0.8: v = [rng.choice([0.0, 1.0, -1.0, 0.5, 2.0, -0.0]) for _ in range(n)]
    return {'v': v}
def contracts():
    cs = []
    def post(a, r):
        g = [holds('accepted exactly on the simplex', iff(and_(all_(a.v, valid), mk('<', dist1(a.v), lift(Fraction(1, 100000)))), lift(is_ok(r))))]
        if is_ok(r): g += [eqg('entries unchanged (%d)' % i, x, a.v) for i, x in enumerate(payload(r).f)]
        return g
    M = '.map(|s| (s.value().clone(), *s, s.clone().unwrap(), s.into_value())).map_err(|_| ())'
    R = 'Result<([f64; K], [f64; K], [f64; K], [f64; K]), ()>'
    cs.append(Contract('new', G, 'pub fn sx_new<const K: usize>(v: [f64; K]) -> %s { SimplexVector::new(v)%s }' % (R, M), post, gen=gen, desc='checked constructor'))
    cs.append(Contract('try_from', G, 'pub fn sx_try<const K: usize>(v: [f64; K]) -> %s { use std::convert::TryFrom; SimplexVector::<K>::try_from(v)%s }' % (R, M), post, gen=gen, desc='checked conversion'))
    cs.append(Contract('constraints', G, 'pub fn sx_cons<const K: usize>(v: [f64; K]) -> bool { <SimplexVector<K> as Param>::constraints().iter().all(|c| c.is_satisfied_by(&v)) }',
        lambda a, r: [holds('declares exactly the simplex', iff(and_(all_(a.v, valid), mk('<', dist1(a.v), lift(Fraction(1, 100000)))), r))], gen=gen, desc='declared constraints'))
    cs.append(Contract('new_unchecked', G, 'pub fn sx_unc<const K: usize>(v: [f64; K]) -> [f64; K] { SimplexVector::new_unchecked(v).unwrap() }', lambda a, r: [eqg('stored unchanged', r, a.v)], desc='unchecked constructor', mode='fp'))
    cs.append(Contract('entries.nan', G, 'pub fn sx_nan<const K: usize>(v: [f64; K], i: usize) -> bool { SimplexVector::new(v).is_ok() }',
        lambda a, r: [holds('rejected', not_(r))], pre=lambda a: and_(lt(a.i, a.K), not_(valid(at(a.v, a.i)))), mode='fp', desc='a vector with an entry outside [0, 1], NaN included, is rejected'))
    cs.append(Contract('centre', G, 'pub fn sx_centre<const K: usize>() -> [f64; K] { SimplexVector::<K>::centre().unwrap() }',
        lambda a, r: [holds('entries are not negative', all_(r, lambda x: fle(ZERO, x))), eqg('entries sum to one', seqsum(r), ONE)], pre=lambda a: lt(ZERO, a.K), desc='the centre of the simplex is on it'))
    cs.append(Contract('sample', G, 'pub fn sx_sample<const K: usize>(seed: u64) -> [f64; K] { let mut r = rng(seed); SimplexVector::<K>::sample(&mut r).unwrap() }',
        lambda a, r: [holds('entries are not negative', all_(r, lambda x: fle(ZERO, x))), eqg('entries sum to one', seqsum(r), ONE)], pre=lambda a: lt(ZERO, a.K),
        gen=lambda rng, n: {'seed': rng.randrange(2**64) if rng.random() < .6 else rng.randrange(100)}, desc='a drawn probability vector is on the simplex'))
    return cs
def run(tier):
    check.main('P03', tier, contracts(), assumptions=['draws lie in the documented range of their generator'])
