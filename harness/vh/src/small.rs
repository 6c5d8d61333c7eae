//! Tiny prime fields, for exhaustive exploration of field-generic code.
use core::fmt;
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use ff::{Field, FromUniformBytes, PrimeField, WithSmallOrderMulGroup};
use rand_core::TryRng;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

/// `SmallField<P, G, S>`: integers mod prime P with generator G and 2-adicity S.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Default, PartialOrd, Ord)]
pub struct Sf<const P: u64, const G: u64, const S: u32>(pub u64);

pub type F7 = Sf<7, 3, 1>;
pub type F13 = Sf<13, 2, 2>;
pub type F17 = Sf<17, 3, 4>;
pub type F97 = Sf<97, 5, 5>;
pub type F193 = Sf<193, 5, 6>;
pub type F257 = Sf<257, 3, 8>;
pub type F7681 = Sf<7681, 17, 9>;
pub type F65537 = Sf<65537, 3, 16>;

const fn powm(mut b: u64, mut e: u64, p: u64) -> u64 {
    let mut r = 1u64;
    b %= p;
    while e > 0 {
        if e & 1 == 1 {
            r = r * b % p;
        }
        b = b * b % p;
        e >>= 1;
    }
    r
}
impl<const P: u64, const G: u64, const S: u32> fmt::Debug for Sf<P, G, S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl<const P: u64, const G: u64, const S: u32> ConstantTimeEq for Sf<P, G, S> {
    fn ct_eq(&self, o: &Self) -> Choice {
        Choice::from((self.0 == o.0) as u8)
    }
}
impl<const P: u64, const G: u64, const S: u32> ConditionallySelectable for Sf<P, G, S> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        Sf(u64::conditional_select(&a.0, &b.0, c))
    }
}
impl<const P: u64, const G: u64, const S: u32> From<u64> for Sf<P, G, S> {
    fn from(v: u64) -> Self {
        Sf(v % P)
    }
}
impl<const P: u64, const G: u64, const S: u32> Neg for Sf<P, G, S> {
    type Output = Self;
    fn neg(self) -> Self {
        Sf((P - self.0) % P)
    }
}
macro_rules! op {
    ($t:ident, $f:ident, $ta:ident, $fa:ident, |$a:ident, $b:ident| $e:expr) => {
        impl<const P: u64, const G: u64, const S: u32> $t for Sf<P, G, S> {
            type Output = Self;
            fn $f(self, o: Self) -> Self {
                let ($a, $b) = (self.0, o.0);
                Sf($e)
            }
        }
        impl<'a, const P: u64, const G: u64, const S: u32> $t<&'a Self> for Sf<P, G, S> {
            type Output = Self;
            fn $f(self, o: &'a Self) -> Self {
                $t::$f(self, *o)
            }
        }
        impl<const P: u64, const G: u64, const S: u32> $ta for Sf<P, G, S> {
            fn $fa(&mut self, o: Self) {
                *self = $t::$f(*self, o);
            }
        }
        impl<'a, const P: u64, const G: u64, const S: u32> $ta<&'a Self> for Sf<P, G, S> {
            fn $fa(&mut self, o: &'a Self) {
                *self = $t::$f(*self, *o);
            }
        }
    };
}
op!(Add, add, AddAssign, add_assign, |a, b| (a + b) % P);
op!(Sub, sub, SubAssign, sub_assign, |a, b| (a + P - b) % P);
op!(Mul, mul, MulAssign, mul_assign, |a, b| a * b % P);
impl<const P: u64, const G: u64, const S: u32> Sum for Sf<P, G, S> {
    fn sum<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Sf(0), |a, b| a + b)
    }
}
impl<'a, const P: u64, const G: u64, const S: u32> Sum<&'a Self> for Sf<P, G, S> {
    fn sum<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(Sf(0), |a, b| a + *b)
    }
}
impl<const P: u64, const G: u64, const S: u32> Product for Sf<P, G, S> {
    fn product<I: Iterator<Item = Self>>(i: I) -> Self {
        i.fold(Sf(1), |a, b| a * b)
    }
}
impl<'a, const P: u64, const G: u64, const S: u32> Product<&'a Self> for Sf<P, G, S> {
    fn product<I: Iterator<Item = &'a Self>>(i: I) -> Self {
        i.fold(Sf(1), |a, b| a * *b)
    }
}
impl<const P: u64, const G: u64, const S: u32> Field for Sf<P, G, S> {
    const ZERO: Self = Sf(0);
    const ONE: Self = Sf(1);
    fn try_random<R: TryRng + ?Sized>(r: &mut R) -> Result<Self, R::Error> {
        Ok(Sf(r.try_next_u64()? % P))
    }
    fn square(&self) -> Self {
        *self * *self
    }
    fn double(&self) -> Self {
        *self + *self
    }
    fn invert(&self) -> CtOption<Self> {
        CtOption::new(Sf(powm(self.0, P - 2, P)), Choice::from((self.0 != 0) as u8))
    }
    fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
        if num.0 == 0 {
            return (Choice::from(1), Sf(0));
        }
        if div.0 == 0 {
            return (Choice::from(0), Sf(0));
        }
        let u = *num * div.invert().unwrap();
        for x in 0..P {
            if x * x % P == u.0 {
                return (Choice::from(1), Sf(x));
            }
        }
        let u = u * Self::ROOT_OF_UNITY;
        for x in 0..P {
            if x * x % P == u.0 {
                return (Choice::from(0), Sf(x));
            }
        }
        unreachable!()
    }
}
impl<const P: u64, const G: u64, const S: u32> PrimeField for Sf<P, G, S> {
    type Repr = [u8; 32];
    fn from_repr(r: [u8; 32]) -> CtOption<Self> {
        let v = u64::from_le_bytes(r[..8].try_into().unwrap());
        let ok = v < P && r[8..].iter().all(|b| *b == 0);
        CtOption::new(Sf(v % P), Choice::from(ok as u8))
    }
    fn to_repr(&self) -> [u8; 32] {
        let mut o = [0u8; 32];
        o[..8].copy_from_slice(&self.0.to_le_bytes());
        o
    }
    fn is_odd(&self) -> Choice {
        Choice::from((self.0 & 1) as u8)
    }
    const MODULUS: &'static str = "small";
    const NUM_BITS: u32 = 64 - P.leading_zeros();
    const CAPACITY: u32 = Self::NUM_BITS - 1;
    const TWO_INV: Self = Sf(P.div_ceil(2));
    const MULTIPLICATIVE_GENERATOR: Self = Sf(G);
    const S: u32 = S;
    const ROOT_OF_UNITY: Self = Sf(powm(G, (P - 1) >> S, P));
    const ROOT_OF_UNITY_INV: Self = Sf(powm(powm(G, (P - 1) >> S, P), P - 2, P));
    const DELTA: Self = Sf(powm(G, 1 << S, P));
}
/// Meaningful only when 3 divides P - 1.
impl<const P: u64, const G: u64, const S: u32> WithSmallOrderMulGroup<3> for Sf<P, G, S> {
    const ZETA: Self = Sf(powm(G, (P - 1) / 3, P));
}
impl<const P: u64, const G: u64, const S: u32> FromUniformBytes<64> for Sf<P, G, S> {
    fn from_uniform_bytes(b: &[u8; 64]) -> Self {
        let mut r = 0u64;
        for x in b.iter().rev() {
            r = (r * 256 + *x as u64) % P;
        }
        Sf(r)
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    fn ok<F: WithSmallOrderMulGroup<3>>(third: bool) {
        assert_eq!(F::ROOT_OF_UNITY.pow_vartime([1u64 << F::S]), F::ONE);
        assert_ne!(F::ROOT_OF_UNITY.pow_vartime([1u64 << (F::S - 1)]), F::ONE);
        assert_eq!(F::TWO_INV.double(), F::ONE);
        if third {
            assert_eq!(F::ZETA.cube(), F::ONE);
            assert_ne!(F::ZETA, F::ONE);
        }
    }
    #[test]
    fn fields() {
        ok::<F7>(true);
        ok::<F13>(true);
        ok::<F17>(false);
        ok::<F97>(true);
        ok::<F193>(true);
        ok::<F257>(false);
        ok::<F7681>(true);
        ok::<F65537>(false);
    }
}
