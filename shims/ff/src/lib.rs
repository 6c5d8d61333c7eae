//! Offline stand-in for `ff` 0.14.0-pre.0.
#![no_std]
extern crate alloc;

use core::fmt;
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
pub use rand_core;
use rand_core::{Rng, TryRng};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

pub trait Field:
    Sized
    + Eq
    + Copy
    + Clone
    + Default
    + Send
    + Sync
    + fmt::Debug
    + 'static
    + ConditionallySelectable
    + ConstantTimeEq
    + Neg<Output = Self>
    + Add<Output = Self>
    + Sub<Output = Self>
    + Mul<Output = Self>
    + Sum
    + Product
    + for<'a> Add<&'a Self, Output = Self>
    + for<'a> Sub<&'a Self, Output = Self>
    + for<'a> Mul<&'a Self, Output = Self>
    + for<'a> Sum<&'a Self>
    + for<'a> Product<&'a Self>
    + AddAssign
    + SubAssign
    + MulAssign
    + for<'a> AddAssign<&'a Self>
    + for<'a> SubAssign<&'a Self>
    + for<'a> MulAssign<&'a Self>
{
    const ZERO: Self;
    const ONE: Self;

    fn random<R: Rng + ?Sized>(rng: &mut R) -> Self {
        Self::try_random(rng).unwrap()
    }
    fn try_random<R: TryRng + ?Sized>(rng: &mut R) -> Result<Self, R::Error>;

    fn is_zero(&self) -> Choice {
        self.ct_eq(&Self::ZERO)
    }
    fn is_zero_vartime(&self) -> bool {
        self.is_zero().into()
    }
    #[must_use]
    fn square(&self) -> Self;
    #[must_use]
    fn cube(&self) -> Self {
        self.square() * self
    }
    #[must_use]
    fn double(&self) -> Self;
    fn invert(&self) -> CtOption<Self>;
    fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self);
    fn sqrt_alt(&self) -> (Choice, Self) {
        Self::sqrt_ratio(self, &Self::ONE)
    }
    fn sqrt(&self) -> CtOption<Self> {
        let (is_square, res) = Self::sqrt_alt(self);
        CtOption::new(res, is_square)
    }
    fn pow<S: AsRef<[u64]>>(&self, exp: S) -> Self {
        let mut res = Self::ONE;
        for e in exp.as_ref().iter().rev() {
            for i in (0..64).rev() {
                res = res.square();
                let mut tmp = res;
                tmp *= self;
                res.conditional_assign(&tmp, (((*e >> i) & 1) as u8).into());
            }
        }
        res
    }
    fn pow_vartime<S: AsRef<[u64]>>(&self, exp: S) -> Self {
        let mut res = Self::ONE;
        let mut started = false;
        for e in exp.as_ref().iter().rev() {
            for i in (0..64).rev() {
                if started {
                    res = res.square();
                }
                if ((*e >> i) & 1) == 1 {
                    started = true;
                    res *= self;
                }
            }
        }
        res
    }
}

pub trait PrimeField: Field + From<u64> {
    type Repr: Copy + Default + Send + Sync + 'static + AsRef<[u8]> + AsMut<[u8]>;

    fn from_str_vartime(s: &str) -> Option<Self> {
        if s.is_empty() {
            return None;
        }
        if s == "0" {
            return Some(Self::ZERO);
        }
        let mut res = Self::ZERO;
        let ten = Self::from(10);
        let mut first = true;
        for c in s.chars() {
            let c = c.to_digit(10)?;
            if first {
                if c == 0 {
                    return None;
                }
                first = false;
            }
            res *= &ten;
            res += &Self::from(u64::from(c));
        }
        Some(res)
    }
    fn from_u128(v: u128) -> Self {
        let lower = v as u64;
        let upper = (v >> 64) as u64;
        let mut tmp = Self::from(upper);
        for _ in 0..64 {
            tmp = tmp.double();
        }
        tmp + Self::from(lower)
    }
    fn from_repr(repr: Self::Repr) -> CtOption<Self>;
    fn from_repr_vartime(repr: Self::Repr) -> Option<Self> {
        Self::from_repr(repr).into()
    }
    fn to_repr(&self) -> Self::Repr;
    fn is_odd(&self) -> Choice;
    #[inline(always)]
    fn is_even(&self) -> Choice {
        !self.is_odd()
    }

    const MODULUS: &'static str;
    const NUM_BITS: u32;
    const CAPACITY: u32;
    const TWO_INV: Self;
    const MULTIPLICATIVE_GENERATOR: Self;
    const S: u32;
    const ROOT_OF_UNITY: Self;
    const ROOT_OF_UNITY_INV: Self;
    const DELTA: Self;
}

pub trait WithSmallOrderMulGroup<const N: u8>: PrimeField {
    const ZETA: Self;
}

pub trait FromUniformBytes<const N: usize>: PrimeField {
    fn from_uniform_bytes(bytes: &[u8; N]) -> Self;
}

/// Batched inversion; zero entries stay zero.
pub struct BatchInverter {}

impl BatchInverter {
    pub fn invert_with_external_scratch<F: Field>(elements: &mut [F], scratch_space: &mut [F]) -> F {
        assert_eq!(elements.len(), scratch_space.len());
        let mut acc = F::ONE;
        for (p, scratch) in elements.iter().zip(scratch_space.iter_mut()) {
            *scratch = acc;
            acc = F::conditional_select(&(acc * *p), &acc, p.is_zero());
        }
        acc = acc.invert().unwrap();
        let allinv = acc;
        for (p, scratch) in elements.iter_mut().zip(scratch_space.iter()).rev() {
            let tmp = *scratch * acc;
            let skip = p.is_zero();
            acc = F::conditional_select(&(acc * *p), &acc, skip);
            p.conditional_assign(&tmp, !skip);
        }
        allinv
    }
}

pub trait BatchInvert<F: Field> {
    fn batch_invert(self) -> F;
}
impl<'a, F: Field, I: IntoIterator<Item = &'a mut F>> BatchInvert<F> for I {
    fn batch_invert(self) -> F {
        let mut refs: alloc::vec::Vec<&'a mut F> = self.into_iter().collect();
        let mut vals: alloc::vec::Vec<F> = refs.iter().map(|v| **v).collect();
        let mut scratch = alloc::vec![F::ZERO; vals.len()];
        let r = BatchInverter::invert_with_external_scratch(&mut vals, &mut scratch);
        for (r, v) in refs.iter_mut().zip(vals) {
            **r = v;
        }
        r
    }
}
