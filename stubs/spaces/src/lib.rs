//! Minimal stand-in for the `spaces` crate that /repo/Cargo.toml names as a
//! path dependency (`../spaces`) and which is not available in this sandbox.
//! Only the items that rstat uses are present, with their documented meaning:
//! spaces are intervals described by optional, inclusive bounds.
//! Nothing here is code under verification; it is part of the trusted base.

pub trait Space {
    type Value;
    #[inline] fn contains(&self, v: &Self::Value) -> bool;
}

pub mod ops {
    use super::Space;
    pub trait Closure: Space {
        type Output: Space;
        #[inline] fn closure(self) -> Self::Output;
    }
    pub trait Union<S: Space = Self>: Space + Sized {
        type Output: Space;
        #[inline] fn union(self, other: S) -> Self::Output;
        #[inline] fn union_closure(self, other: S) -> <Self::Output as Closure>::Output
        where
            Self::Output: Closure,
        {
            self.union(other).closure()
        }
    }
}

impl<S: Space, const N: usize> Space for [S; N] {
    type Value = [S::Value; N];
    #[inline] fn contains(&self, v: &Self::Value) -> bool {
        self.iter().zip(v.iter()).all(|(s, x)| s.contains(x))
    }
}

pub mod bounds {
    #[derive(Debug, Clone, Copy, PartialEq)]
    pub struct Closed<V>(pub V);
    #[derive(Debug, Clone, Copy, PartialEq)]
    pub struct NoBound;
}

pub mod intervals {
    use super::{bounds::{self, NoBound}, ops, Space};

    #[derive(Debug, Clone, Copy, PartialEq)]
    pub struct Interval<L, R> {
        pub left: L,
        pub right: R,
    }

    pub type Closed<V> = Interval<bounds::Closed<V>, bounds::Closed<V>>;
    pub type LeftClosed<V> = Interval<bounds::Closed<V>, NoBound>;

    impl<V> Closed<V> {
        #[inline] pub fn closed_unchecked(left: V, right: V) -> Self {
            Interval { left: bounds::Closed(left), right: bounds::Closed(right) }
        }
    }
    impl Closed<f64> {
        #[inline] pub fn unit() -> Self { Self::closed_unchecked(0.0, 1.0) }
    }
    impl<V> LeftClosed<V> {
        #[inline] pub fn left_closed(left: V) -> Self {
            Interval { left: bounds::Closed(left), right: NoBound }
        }
    }

    impl<V: PartialOrd> Space for Closed<V> {
        type Value = V;
        #[inline] fn contains(&self, v: &V) -> bool { *v >= self.left.0 && *v <= self.right.0 }
    }
    impl<V: PartialOrd> Space for LeftClosed<V> {
        type Value = V;
        #[inline] fn contains(&self, v: &V) -> bool { *v >= self.left.0 }
    }
    impl<V: PartialOrd> ops::Closure for Closed<V> {
        type Output = Self;
        #[inline] fn closure(self) -> Self { self }
    }
    impl<V: PartialOrd> ops::Union for Closed<V> {
        type Output = Self;
        /// Smallest closed interval that covers both.
        #[inline] fn union(self, o: Self) -> Self {
            let l = if self.left.0 <= o.left.0 { self.left.0 } else { o.left.0 };
            let r = if self.right.0 >= o.right.0 { self.right.0 } else { o.right.0 };
            Self::closed_unchecked(l, r)
        }
    }
    impl<V: PartialOrd> ops::Closure for LeftClosed<V> {
        type Output = Self;
        #[inline] fn closure(self) -> Self { self }
    }
    impl<V: PartialOrd> ops::Union for LeftClosed<V> {
        type Output = Self;
        #[inline] fn union(self, o: Self) -> Self {
            Self::left_closed(if self.left.0 <= o.left.0 { self.left.0 } else { o.left.0 })
        }
    }
}

macro_rules! fixed_space {
    ($(#[$m:meta])* $name:ident, $x:ident => $e:expr) => {
        $(#[$m])*
        #[derive(Debug, Clone, Copy, PartialEq)]
        pub struct $name<V>(core::marker::PhantomData<V>);
        impl<V> $name<V> {
            #[inline] pub fn unbounded() -> Self { $name(core::marker::PhantomData) }
        }
        impl<V: PartialOrd + super::Zero> super::Space for $name<V> {
            type Value = V;
            #[inline] fn contains(&self, $x: &V) -> bool { $e }
        }
        impl<V: PartialOrd + super::Zero> super::ops::Closure for $name<V> {
            type Output = Self;
            #[inline] fn closure(self) -> Self { self }
        }
        impl<V: PartialOrd + super::Zero> super::ops::Union for $name<V> {
            type Output = Self;
            #[inline] fn union(self, _: Self) -> Self { self }
        }
    };
}

pub trait Zero { const ZERO: Self; }
macro_rules! zero { ($($t:ty => $z:expr),*) => { $(impl Zero for $t { const ZERO: $t = $z; })* } }
zero!(f64 => 0.0, u64 => 0, i64 => 0, usize => 0);

pub mod real {
    fixed_space!(Reals, x => *x == *x);
    fixed_space!(PositiveReals, x => *x > V::ZERO);
    fixed_space!(NonNegativeReals, x => *x >= V::ZERO);
    #[inline] pub fn reals() -> Reals<f64> { Reals::unbounded() }
    #[inline] pub fn positive_reals() -> PositiveReals<f64> { PositiveReals::unbounded() }
    #[inline] pub fn non_negative_reals() -> NonNegativeReals<f64> { NonNegativeReals::unbounded() }
}

pub mod discrete {
    fixed_space!(Integers, x => *x == *x);
    fixed_space!(
        /// The positive integers 1, 2, ...
        Naturals, x => *x > V::ZERO);
    fixed_space!(NonNegativeIntegers, x => *x >= V::ZERO);
    #[inline] pub fn integers() -> Integers<i64> { Integers::unbounded() }
    #[inline] pub fn naturals() -> Naturals<u64> { Naturals::unbounded() }
    #[inline] pub fn non_negative_integers() -> NonNegativeIntegers<u64> { NonNegativeIntegers::unbounded() }

    #[derive(Debug, Clone, Copy, PartialEq)]
    pub struct Binary;
    impl super::Space for Binary {
        type Value = bool;
        #[inline] fn contains(&self, _: &bool) -> bool { true }
    }
    impl super::ops::Closure for Binary { type Output = Self; #[inline] fn closure(self) -> Self { self } }
    impl super::ops::Union for Binary { type Output = Self; #[inline] fn union(self, _: Self) -> Self { self } }
    #[inline] pub fn binary() -> Binary { Binary }
}
