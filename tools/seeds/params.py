C = 'src/params/constraints.rs'; M = 'src/params/mod.rs'
U = '    use rstat::params::{*, constraints::*};\n'
SEEDS = {
'p05-interval-open-at-zero-width': dict(prop='P05', edits=[(C, '{ value >= &self.lb && value <= &self.ub }', '{ value >= &self.lb && (value < &self.ub || (value == &self.ub && self.lb < self.ub)) }')],
  main=U + '    for (lb, ub) in [(0.0, 1.0), (-1.0, -1.0), (2.5, 2.5)] { let c = Interval { lb, ub }; assert!(c.is_satisfied_by(&lb) && c.is_satisfied_by(&ub)); }',
  needs='an interval whose two bounds coincide, tested at that point', breaks='a degenerate closed interval [a, a] no longer contains a'),
'p05-nonpositive-nan': dict(prop='P05', edits=[(C, 'impl_constraint!(NonPositive<PartialOrd + Zero>; self, value, { value <= &zero() });', 'impl_constraint!(NonPositive<PartialOrd + Zero>; self, value, { !(value > &zero()) });')],
  main=U + '    assert!(NonPositive.is_satisfied_by(&-1.0)); assert!(NonPositive.is_satisfied_by(&0.0)); assert!(!NonPositive.is_satisfied_by(&1.0)); assert!(!NonPositive.is_satisfied_by(&f64::NAN));',
  needs='a NaN value', breaks='NonPositive accepts NaN'),
'p06-all-array-skips-tail-pairs': dict(prop='P06', edits=[(C, '''impl<const N: usize, T, C: Constraint<T>> Constraint<[T; N]> for All<C> {
    fn check(self, value: [T; N]) -> Result<[T; N]>
    where
        [T; N]: Debug,
        Self: Sized + 'static,
    {
        for v in value.iter() {
            if !self.0.is_satisfied_by(v) {
                return Err(UnsatisfiedConstraintError::new(value, Box::new(self)));
            }
        }

        Ok(value)
    }

    fn is_satisfied_by(&self, value: &[T; N]) -> bool {
        value.iter().all(|v| self.0.is_satisfied_by(v))
    }''', '''impl<const N: usize, T, C: Constraint<T>> Constraint<[T; N]> for All<C> {
    fn check(self, value: [T; N]) -> Result<[T; N]>
    where
        [T; N]: Debug,
        Self: Sized + 'static,
    {
        for v in value.iter() {
            if !self.0.is_satisfied_by(v) {
                return Err(UnsatisfiedConstraintError::new(value, Box::new(self)));
            }
        }

        Ok(value)
    }

    fn is_satisfied_by(&self, value: &[T; N]) -> bool {
        value.chunks_exact(2).all(|v| v.iter().all(|v| self.0.is_satisfied_by(v)))
            && (N > 5 || value.iter().all(|v| self.0.is_satisfied_by(v)))
    }''')],
  main=U + '    let mut a = [1.0; 7]; assert!(All(Positive).is_satisfied_by(&a)); a[6] = -1.0; assert!(!All(Positive).is_satisfied_by(&a));',
  needs='an array of odd length of at least seven whose last entry alone violates the constraint', breaks='for-all over arrays ignores the last entry of long odd arrays'),
'p06-or-check-second-only-when-first-unordered': dict(prop='P06', edits=[(C, '(self.0).0.is_satisfied_by(value) || (self.0).1.is_satisfied_by(value)', '(self.0).0.is_satisfied_by(value) != (self.0).1.is_satisfied_by(value)')],
  main=U + '    let c = Or((NonNegative, NonPositive)); assert!(c.is_satisfied_by(&1.0)); assert!(c.is_satisfied_by(&-1.0)); assert!(c.is_satisfied_by(&0.0));',
  needs='a value satisfying both operands of a disjunction', breaks='Or became exclusive or'),
'p07-vec-check-returns-empty-suffix': dict(prop='P07', edits=[(C, '''    fn check(self, value: Vec<T>) -> Result<Vec<T>>
    where
        Vec<T>: Debug,
        Self: Sized + 'static,
    {
        for v in value.iter() {''', '''    fn check(self, mut value: Vec<T>) -> Result<Vec<T>>
    where
        Vec<T>: Debug,
        Self: Sized + 'static,
    {
        value.truncate(u16::MAX as usize >> 8);
        for v in value.iter() {''')],
  main=U + '    let v = vec![1.0; 300]; assert_eq!(All(Positive).check(v).unwrap().len(), 300);',
  needs='a vector of more than 255 entries', breaks='checking a long vector truncates it'),
'p07-or-check-short-circuits-on-error': dict(prop='P07', edits=[(C, 'c1.check(value).or_else(|uc| c2.check(uc.value))', 'c1.check(value).or_else(|uc| c2.check(uc.value)).map_err(|uc| uc)\n            .and_then(|value| if c3 { Ok(value) } else { Err(UnsatisfiedConstraintError::new(value, Box::new(Empty2))) })')],
  main='', needs='', breaks=''),
'p08-count-wrapper-unchecked-after-success': dict(prop='P08', edits=[(M, 'param!(DOF s.t. All<Positive> { All(Positive) });', 'param!(DOF s.t. All<NonNegative> { All(NonNegative) });')],
  main=U + '    assert!(DOF::new(0.5f64).is_ok()); assert!(DOF::new(0.0f64).is_err()); assert!(DOF::new(0i64).is_err());',
  needs='a degrees-of-freedom parameter of exactly zero', breaks='zero degrees of freedom are admitted'),
'p08-corr-declared-constraints-half-open': dict(prop='P08', edits=[('src/params/corr.rs', '''        vec![Box::new(constraints::All(constraints::Interval {
            lb: -1.0,
            ub: 1.0,
        }))]''', '''        vec![Box::new(constraints::And((
            constraints::GreaterThan(-1.0),
            constraints::LessThanOrEqual(1.0),
        )))]''')],
  main=U + '    for x in [-1.0, 1.0, 0.0, -0.99] { assert!(Corr::new(x).is_ok()); assert!(<Corr as Param>::constraints().iter().all(|c| c.is_satisfied_by(&x))); }',
  needs='a correlation of exactly -1 compared against the declared constraints', breaks='the declared constraints of a correlation exclude -1 although the constructor admits it'),
'p08-concentrations-nonnegative': dict(prop='P08', edits=[('src/params/concentrations.rs', '''        constraints::All(constraints::Positive)
            .check(value)''', '''        constraints::All(constraints::Or((constraints::Positive, constraints::Equal(0.0))))
            .check(value)''')],
  main=U + '    assert!(Concentrations::new([1.0, 2.0]).is_ok()); assert!(Concentrations::new([1.0, 0.0]).is_err());',
  needs='a concentration vector with a zero entry', breaks='zero concentrations are admitted'),
}
del SEEDS['p07-or-check-short-circuits-on-error']
SEEDS['p07-and-check-error-value'] = dict(prop='P07', edits=[(C, '''        let (c1, c2) = self.0;

        c1.check(value).and_then(|value| c2.check(value))''', '''        let (c1, c2) = self.0;

        if !c2.is_satisfied_by(&value) {
            return c2.check(value);
        }
        c2.check(value)''')], main=U + '    let c = And((GreaterThan(0.0), LessThan(1.0))); assert!(c.check(0.5).is_ok()); assert!(c.check(2.0).is_err()); let d = And((GreaterThan(0.0), LessThan(1.0))); assert!(d.check(-1.0).is_err());',
  needs='a value violating only the first operand of a conjunction, given to check', breaks='checking a conjunction ignores its first operand')
