P = 'src/probability.rs'
IT = 'use rstat::{Probability, SimplexVector};\nuse std::convert::TryFrom;\n'
RNG = '''use rand::RngCore;
struct Fix(u64);
impl RngCore for Fix { fn next_u32(&mut self) -> u32 { (self.0 >> 32) as u32 } fn next_u64(&mut self) -> u64 { self.0 }
 fn fill_bytes(&mut self, d: &mut [u8]) { for b in d { *b = 0; } } fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(d); Ok(()) } }
'''
SEEDS = {
'p01-new-clamps-tiny-negatives': dict(prop='P01', edits=[(P, '        if p >= 0.0 && p <= 1.0 {\n            Ok(Probability(p))', '        if p > -f64::EPSILON && p <= 1.0 {\n            Ok(Probability(p.max(0.0)))')], items=IT,
  main='    assert!(Probability::new(-1e-20).is_err()); assert!(Probability::new(0.25).is_ok()); assert!(Probability::try_from(-0.5).is_err());',
  needs='a negative number within rounding of zero', breaks='invalid numbers are accepted and altered'),
'p01-complement-by-reference': dict(prop='P01', edits=[(P, 'impl Not for &Probability {\n    type Output = Probability;\n\n    fn not(self) -> Probability { Probability::new_unchecked(1.0 - self.0) }', 'impl Not for &Probability {\n    type Output = Probability;\n\n    fn not(self) -> Probability { Probability::new_unchecked(0.5 - (self.0 - 0.5) * (1.0 + f64::EPSILON)) }')], items=IT,
  main='    let p = Probability::new(1.0).unwrap(); assert!((!p).is_valid()); assert!((!&p).is_valid()); assert!((!&Probability::zero()).is_valid());',
  needs='the complement of an extreme probability taken by reference', breaks='the complement leaves [0, 1]'),
'p02-division-zero-numerator': dict(prop='P02', edits=[(P, '    Probability::new(self.0 / other.0)', '    if self.0 == 0.0 { return Ok(Probability(0.0)); }\n    Probability::new(self.0 / other.0)')], items=IT,
  main='    assert!((Probability::zero() / Probability::zero()).is_err()); assert!((Probability::half() / Probability::one()).is_ok());',
  needs='zero divided by zero', breaks='a quotient that is not a number is reported as probability zero'),
'p02-number-right-by-ref': dict(prop='P02', edits=[(P, "        impl<'a, 'b> $trait<&'a f64> for &'b Probability {\n            type Output = f64;\n\n            #[inline]\n            fn $op($self, $other: &'a f64) -> f64 {\n                ($self.0).$op($other)", "        impl<'a, 'b> $trait<&'a f64> for &'b Probability {\n            type Output = f64;\n\n            #[inline]\n            fn $op($self, $other: &'a f64) -> f64 {\n                ($self.0).$op($other.min(f64::MAX))")], items=IT,
  main='    let p = Probability::half(); assert!((&p * &f64::INFINITY).is_infinite()); assert!((&p + &f64::NAN).is_nan());',
  needs='an infinite or undefined number on the right, both operands borrowed', breaks='plain arithmetic is altered for non-finite numbers'),
'p03-simplex-tolerance-one-sided': dict(prop='P03', edits=[(P, '        if (z - 1.0).abs() < 1e-5 {', '        if z > 1.0 - 1e-5 && z <= 1.0 + 1e-5 * ps.len() as f64 {')], items=IT,
  main='    assert!(SimplexVector::new([0.5, 0.5 + 1.5e-5]).is_err()); assert!(SimplexVector::new([0.5, 0.5]).is_ok()); assert!(SimplexVector::new([0.5, 0.4]).is_err());',
  needs='a vector whose sum exceeds one by slightly more than the tolerance', breaks='vectors off the simplex are accepted'),
'p03-check-skips-last-entry': dict(prop='P03', edits=[(P, '            z += Probability::new(*p)?.0;', '            z += if z < 1.0 { Probability::new(*p)?.0 } else { *p };')], items=IT,
  main='    assert!(SimplexVector::new([1.0, 0.5, -0.5]).is_err()); assert!(SimplexVector::new([0.5, 0.5, 0.0]).is_ok()); assert!(SimplexVector::new([-0.5, 1.5]).is_err());',
  needs='a leading part that already sums to one followed by entries that cancel', breaks='negative entries are accepted'),
'p04-index-zero-weight-tail': dict(prop='P04', edits=[(P, 'cdf.position(|p| rval < p)', 'cdf.position(|p| rval <= p)')], items=IT + RNG,
  main='    let s = SimplexVector::new([0.0, 0.5, 0.5]).unwrap(); assert_eq!(s.sample_index(&mut Fix(0)), 1); assert_eq!(s.sample_index(&mut Fix(1 << 63)), 2);',
  needs='a variate exactly equal to a cumulative sum', breaks='an index of zero weight is drawn'),
'p04-index-fallback-first': dict(prop='P04', edits=[(P, '.unwrap_or(self.len() - 1)', '.unwrap_or(0)')], items=IT + RNG,
  main='    let s = SimplexVector::new([0.5, 0.499995]).unwrap(); assert_eq!(s.sample_index(&mut Fix(u64::MAX)), 1); assert_eq!(s.sample_index(&mut Fix(0)), 0);',
  needs='a variate above the total weight of a vector that sums to slightly less than one', breaks='the first index is returned instead of the last'),
}
