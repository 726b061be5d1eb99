"""P04: drawing an index inverts the cumulative sums."""
from contract import *
import check
from p01 import valid
from p03 import gen as gen3
G = ('sxidx', 'use crate::SimplexVector;\nuse rand::Rng;\n')
def cum(v, i): return seqsum(v, hi=i) + at(v, i)
def post(a, r):
    u, i = r.f
    j = var('cj', 'I')
    before = forall(j, ZERO, i, fle(cum(a.v, j), u))
    return [holds('the index is within the vector', and_(le(ZERO, i), lt(i, a.K))),
            holds('no earlier cumulative sum exceeds the variate', before),
            holds('the cumulative sum exceeds the variate, or the index is the last', or_(flt(u, cum(a.v, i)), eq(i, sub(a.K, ONE))))]
def contracts():
    cs = []
    cs.append(Contract('sample_index', G, 'pub fn sx_index<const K: usize>(v: [f64; K], seed: u64) -> (f64, usize) { let u: f64 = rng(seed).gen(); let mut r = rng(seed); (u, SimplexVector::new_unchecked(v).sample_index(&mut r)) }',
        post, pre=lambda a: and_(lt(ZERO, a.K), all_(a.v, valid)), gen=lambda rng, n: dict(gen3(rng, n), seed=rng.randrange(2**64) if rng.random() < .6 else rng.randrange(100)), desc='first index whose cumulative sum exceeds the variate, else the last', nrand=400))
    return cs
def run(tier):
    check.main('P04', tier, contracts())
