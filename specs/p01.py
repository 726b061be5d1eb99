"""P01: a checked probability is a number in [0, 1], unaltered."""
from contract import *
import check
USE = 'use crate::Probability;\nuse crate::params::Param;\n'
G = ('prob', USE)
def valid(x): return and_(fle(F0, x), fle(x, F1))
def contracts():
    cs = []
    def chk(a, r):
        g = [holds('accepted exactly when in [0, 1]', iff(valid(a.p), lift(is_ok(r))))]
        if is_ok(r): g += [eqg('read back bit for bit (%d)' % i, x, a.p) for i, x in enumerate(payload(r).f[:-1])] + [holds('is valid', payload(r).f[-1])]
        else: g.append(eqg('the error carries no other number', payload(r), UNIT))
        return g
    R = 'Result<(f64, f64, f64, f64, bool), ()>'
    M = '.map(|q| (q.unwrap(), f64::from(q), *q.value(), q.into_value(), q.is_valid())).map_err(|_| ())'
    cs.append(Contract('new', G, 'pub fn pr_new(p: f64) -> %s { Probability::new(p)%s }' % (R, M), chk, mode='fp', desc='checked constructor'))
    cs.append(Contract('try_from', G, 'pub fn pr_try(p: f64) -> %s { use std::convert::TryFrom; Probability::try_from(p)%s }' % (R, M), chk, mode='fp', desc='checked conversion'))
    cs.append(Contract('constraints', G, 'pub fn pr_cons(p: f64) -> bool { <Probability as Param>::constraints().iter().all(|c| c.is_satisfied_by(&p)) }',
        lambda a, r: [holds('the declared constraints describe [0, 1]', iff(valid(a.p), r))], mode='fp', desc='declared constraints'))
    cs.append(Contract('is_valid', G, 'pub fn pr_valid(p: f64) -> (bool, f64) { let q = Probability::new_unchecked(p); (q.is_valid(), q.unwrap()) }',
        lambda a, r: [holds('valid exactly in [0, 1]', iff(valid(a.p), r.f[0])), eqg('stored unchanged', r.f[1], a.p)], mode='fp', desc='validity test and unchecked construction'))
    cs.append(Contract('named', G, 'pub fn pr_named() -> (f64, f64, f64, f64) { (Probability::zero().unwrap(), Probability::half().unwrap(), Probability::one().unwrap(), Probability::default().unwrap()) }',
        lambda a, r: [eqg('zero', r.f[0], F0), eqg('half', r.f[1], f64(0.5)), eqg('one', r.f[2], F1), eqg('default is zero', r.f[3], F0)], mode='fp', desc='named constants'))
    cs.append(Contract('complement', G, 'pub fn pr_not(p: f64) -> (f64, f64, bool) { let q = Probability::new_unchecked(p); let c = !q; (c.unwrap(), (!&q).unwrap(), c.is_valid()) }',
        lambda a, r: [eqg('one minus p', r.f[0], mk('-', F1, a.p)), eqg('by reference', r.f[1], r.f[0]), holds('is valid', r.f[2]), holds('lies in [0, 1]', valid(r.f[0]))],
        pre=lambda a: valid(a.p), mode='fp', desc='the complement of a valid probability is one minus it and is valid', timeout=120))
    cs.append(Contract('compare', G, 'pub fn pr_cmp(p: f64, q: f64) -> (bool, bool, bool, bool) { let a = Probability::new_unchecked(p); let b = Probability::new_unchecked(q); { use std::cmp::Ordering::*; let o = a.partial_cmp(&b); (a == b, matches!(o, Some(Less)), matches!(o, Some(Less) | Some(Equal)), a == q) } }',
        lambda a, r: [holds('equal', iff(r.f[0], feq(a.p, a.q))), holds('less', iff(r.f[1], flt(a.p, a.q))), holds('at most', iff(r.f[2], fle(a.p, a.q))), holds('equal to a number', iff(r.f[3], feq(a.p, a.q)))], mode='fp', desc='comparison is that of the numbers'))
    return cs
def run(tier):
    check.main('P01', tier, contracts())
