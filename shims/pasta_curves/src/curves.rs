//! Pallas and Vesta, y^2 = x^3 + 5, Jacobian coordinates.
use crate::arithmetic::{Coordinates, CurveAffine, CurveExt};
use crate::fields::{Fp, Fq};
use crate::group::prime::{PrimeCurve, PrimeCurveAffine, PrimeGroup};
use crate::group::{Curve, Group, GroupEncoding};
use alloc::boxed::Box;
use alloc::vec;
use alloc::vec::Vec;
use core::fmt;
use core::iter::Sum;
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use ff::{Field, FromUniformBytes, PrimeField, WithSmallOrderMulGroup};
use rand_core::TryRng;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

#[macro_export]
macro_rules! curve_impl {
    ($name:ident, $aff:ident, $base:ident, $scalar:ident, $id:expr, $b:expr, $gx:expr, $gy:expr) => {
        #[derive(Clone, Copy)]
        pub struct $name {
            x: $base,
            y: $base,
            z: $base,
        }
        /// Affine point; `(0, 0)` encodes the identity.
        #[derive(Clone, Copy, PartialEq, core::cmp::Eq, Hash)]
        pub struct $aff {
            x: $base,
            y: $base,
        }

        impl $name {
            fn ident() -> Self {
                $name { x: <$base as Field>::ZERO, y: <$base as Field>::ZERO, z: <$base as Field>::ZERO }
            }
            #[inline]
            fn is_id(&self) -> bool {
                self.z.is_zero_vartime()
            }
            #[inline]
            fn dbl(&self) -> Self {
                if self.is_id() {
                    return *self;
                }
                // dbl-2009-l, a = 0
                let a = self.x.square();
                let b = self.y.square();
                let c = b.square();
                let d = (self.x + b).square() - a - c;
                let d = d + d;
                let e = a + a + a;
                let f = e.square();
                let z3 = self.z * self.y;
                let z3 = z3 + z3;
                let x3 = f - (d + d);
                let c = c + c;
                let c = c + c;
                let c = c + c;
                let y3 = e * (d - x3) - c;
                $name { x: x3, y: y3, z: z3 }
            }
            fn add_full(&self, o: &Self) -> Self {
                if self.is_id() {
                    return *o;
                }
                if o.is_id() {
                    return *self;
                }
                let z1z1 = self.z.square();
                let z2z2 = o.z.square();
                let u1 = self.x * z2z2;
                let u2 = o.x * z1z1;
                let s1 = self.y * z2z2 * o.z;
                let s2 = o.y * z1z1 * self.z;
                if u1 == u2 {
                    return if s1 == s2 { self.dbl() } else { Self::ident() };
                }
                let h = u2 - u1;
                let i = (h + h).square();
                let j = h * i;
                let r = s2 - s1;
                let r = r + r;
                let v = u1 * i;
                let x3 = r.square() - j - v - v;
                let s1j = s1 * j;
                let y3 = r * (v - x3) - s1j - s1j;
                let z3 = ((self.z + o.z).square() - z1z1 - z2z2) * h;
                $name { x: x3, y: y3, z: z3 }
            }
            fn add_mixed(&self, o: &$aff) -> Self {
                if o.is_id() {
                    return *self;
                }
                if self.is_id() {
                    return o.ext();
                }
                let z1z1 = self.z.square();
                let u2 = o.x * z1z1;
                let s2 = o.y * z1z1 * self.z;
                if self.x == u2 {
                    return if self.y == s2 { self.dbl() } else { Self::ident() };
                }
                let h = u2 - self.x;
                let hh = h.square();
                let i = hh + hh;
                let i = i + i;
                let j = h * i;
                let r = s2 - self.y;
                let r = r + r;
                let v = self.x * i;
                let x3 = r.square() - j - v - v;
                let yj = self.y * j;
                let y3 = r * (v - x3) - yj - yj;
                let z3 = (self.z + h).square() - z1z1 - hh;
                $name { x: x3, y: y3, z: z3 }
            }
            fn mul_scalar(&self, s: &$scalar) -> Self {
                // 4-bit fixed window
                let mut table = [Self::ident(); 16];
                for i in 1..16 {
                    table[i] = if i % 2 == 0 { table[i / 2].dbl() } else { table[i - 1].add_full(self) };
                }
                let bytes = s.to_repr();
                let bytes: &[u8] = bytes.as_ref();
                let raw: [u64; 4] = core::array::from_fn(|i| u64::from_le_bytes(bytes[8 * i..8 * i + 8].try_into().unwrap()));
                let mut acc = Self::ident();
                for limb in raw.iter().rev() {
                    for k in (0..16).rev() {
                        acc = acc.dbl().dbl().dbl().dbl();
                        let w = ((limb >> (4 * k)) & 15) as usize;
                        if w != 0 {
                            acc = acc.add_full(&table[w]);
                        }
                    }
                }
                acc
            }
        }
        impl $aff {
            #[inline]
            fn is_id(&self) -> bool {
                self.x.is_zero_vartime() && self.y.is_zero_vartime()
            }
            #[inline]
            fn ext(&self) -> $name {
                if self.is_id() {
                    $name::ident()
                } else {
                    $name { x: self.x, y: self.y, z: <$base as Field>::ONE }
                }
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fmt::Debug::fmt(&Curve::to_affine(self), f)
            }
        }
        impl fmt::Debug for $aff {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                if self.is_id() {
                    write!(f, "Infinity")
                } else {
                    write!(f, "({:?}, {:?})", self.x, self.y)
                }
            }
        }
        impl Default for $name {
            fn default() -> Self {
                Self::ident()
            }
        }
        impl Default for $aff {
            fn default() -> Self {
                <$aff as PrimeCurveAffine>::identity()
            }
        }
        impl PartialEq for $name {
            fn eq(&self, o: &Self) -> bool {
                match (self.is_id(), o.is_id()) {
                    (true, true) => true,
                    (false, false) => {
                        let z1 = self.z.square();
                        let z2 = o.z.square();
                        self.x * z2 == o.x * z1 && self.y * z2 * o.z == o.y * z1 * self.z
                    }
                    _ => false,
                }
            }
        }
        impl core::cmp::Eq for $name {}
        impl ConstantTimeEq for $name {
            fn ct_eq(&self, o: &Self) -> Choice {
                Choice::from((self == o) as u8)
            }
        }
        impl ConstantTimeEq for $aff {
            fn ct_eq(&self, o: &Self) -> Choice {
                Choice::from((self == o) as u8)
            }
        }
        impl ConditionallySelectable for $name {
            fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
                $name {
                    x: $base::conditional_select(&a.x, &b.x, c),
                    y: $base::conditional_select(&a.y, &b.y, c),
                    z: $base::conditional_select(&a.z, &b.z, c),
                }
            }
        }
        impl ConditionallySelectable for $aff {
            fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
                $aff {
                    x: $base::conditional_select(&a.x, &b.x, c),
                    y: $base::conditional_select(&a.y, &b.y, c),
                }
            }
        }
        impl From<$aff> for $name {
            fn from(p: $aff) -> $name {
                p.ext()
            }
        }
        impl<'a> From<&'a $aff> for $name {
            fn from(p: &'a $aff) -> $name {
                p.ext()
            }
        }
        impl From<$name> for $aff {
            fn from(p: $name) -> $aff {
                Curve::to_affine(&p)
            }
        }
        impl<'a> From<&'a $name> for $aff {
            fn from(p: &'a $name) -> $aff {
                Curve::to_affine(p)
            }
        }
        impl Neg for $name {
            type Output = $name;
            fn neg(self) -> $name {
                $name { x: self.x, y: -self.y, z: self.z }
            }
        }
        impl<'a> Neg for &'a $name {
            type Output = $name;
            fn neg(self) -> $name {
                -*self
            }
        }
        impl Neg for $aff {
            type Output = $aff;
            fn neg(self) -> $aff {
                $aff { x: self.x, y: -self.y }
            }
        }
        impl<'a> Neg for &'a $aff {
            type Output = $aff;
            fn neg(self) -> $aff {
                -*self
            }
        }
        $crate::curve_op!($name, $name, $name, |a, b| a.add_full(b), |a, b| a.add_full(&-*b));
        $crate::curve_op!($name, $aff, $name, |a, b| a.add_mixed(b), |a, b| a.add_mixed(&-*b));
        $crate::curve_op!($aff, $name, $name, |a, b| b.add_mixed(a), |a, b| (-*b).add_mixed(a));
        $crate::curve_op!($aff, $aff, $name, |a, b| a.ext().add_mixed(b), |a, b| a.ext().add_mixed(&-*b));
        $crate::curve_assign!($name, $name);
        $crate::curve_assign!($name, $aff);
        $crate::curve_mul!($name, $scalar, $name, |a, s| a.mul_scalar(s));
        $crate::curve_mul!($aff, $scalar, $name, |a, s| a.ext().mul_scalar(s));
        impl MulAssign<$scalar> for $name {
            fn mul_assign(&mut self, s: $scalar) {
                *self = self.mul_scalar(&s);
            }
        }
        impl<'a> MulAssign<&'a $scalar> for $name {
            fn mul_assign(&mut self, s: &'a $scalar) {
                *self = self.mul_scalar(s);
            }
        }
        impl<T: core::borrow::Borrow<$name>> Sum<T> for $name {
            fn sum<I: Iterator<Item = T>>(iter: I) -> Self {
                iter.fold(Self::ident(), |a, b| a.add_full(b.borrow()))
            }
        }
        impl Group for $name {
            type Scalar = $scalar;
            fn try_random<R: TryRng + ?Sized>(rng: &mut R) -> Result<Self, R::Error> {
                loop {
                    let x = $base::try_random(rng)?;
                    let sign = (rng.try_next_u32()? & 1) as u8;
                    let y = (x.square() * x + <$base as From<u64>>::from($b)).sqrt();
                    if bool::from(y.is_some()) {
                        let y = y.unwrap();
                        let y = if sign == 1 { -y } else { y };
                        return Ok($name { x, y, z: <$base as Field>::ONE });
                    }
                }
            }
            fn identity() -> Self {
                Self::ident()
            }
            fn generator() -> Self {
                $name { x: $gx, y: $gy, z: <$base as Field>::ONE }
            }
            fn is_identity(&self) -> Choice {
                Choice::from(self.is_id() as u8)
            }
            fn double(&self) -> Self {
                self.dbl()
            }
        }
        impl Curve for $name {
            type AffineRepr = $aff;
            fn batch_normalize(p: &[Self], q: &mut [$aff]) {
                assert_eq!(p.len(), q.len());
                let mut zs: Vec<$base> = p.iter().map(|p| p.z).collect();
                let mut scratch = vec![<$base as Field>::ZERO; zs.len()];
                ff::BatchInverter::invert_with_external_scratch(&mut zs, &mut scratch);
                for ((p, q), zi) in p.iter().zip(q.iter_mut()).zip(zs) {
                    *q = if p.is_id() {
                        <$aff as PrimeCurveAffine>::identity()
                    } else {
                        let z2 = zi.square();
                        $aff { x: p.x * z2, y: p.y * z2 * zi }
                    };
                }
            }
            fn to_affine(&self) -> $aff {
                if self.is_id() {
                    return <$aff as PrimeCurveAffine>::identity();
                }
                let zi = self.z.invert().unwrap();
                let z2 = zi.square();
                $aff { x: self.x * z2, y: self.y * z2 * zi }
            }
        }
        impl GroupEncoding for $aff {
            type Repr = [u8; 32];
            fn from_bytes(bytes: &[u8; 32]) -> CtOption<Self> {
                let mut t = *bytes;
                let sign = t[31] >> 7;
                t[31] &= 0x7f;
                let x = $base::from_repr(t);
                if !bool::from(x.is_some()) {
                    return CtOption::new(<$aff as PrimeCurveAffine>::identity(), Choice::from(0));
                }
                let x = x.unwrap();
                if x.is_zero_vartime() && sign == 0 {
                    return CtOption::new(<$aff as PrimeCurveAffine>::identity(), Choice::from(1));
                }
                let y = (x.square() * x + <$base as From<u64>>::from($b)).sqrt();
                y.map(|y| {
                    let odd: bool = y.is_odd().into();
                    $aff { x, y: if odd == (sign == 1) { y } else { -y } }
                })
            }
            fn from_bytes_unchecked(bytes: &[u8; 32]) -> CtOption<Self> {
                Self::from_bytes(bytes)
            }
            fn to_bytes(&self) -> [u8; 32] {
                if self.is_id() {
                    return [0; 32];
                }
                let mut t = self.x.to_repr();
                t[31] |= self.y.is_odd().unwrap_u8() << 7;
                t
            }
        }
        impl GroupEncoding for $name {
            type Repr = [u8; 32];
            fn from_bytes(bytes: &[u8; 32]) -> CtOption<Self> {
                $aff::from_bytes(bytes).map(|p| p.ext())
            }
            fn from_bytes_unchecked(bytes: &[u8; 32]) -> CtOption<Self> {
                Self::from_bytes(bytes)
            }
            fn to_bytes(&self) -> [u8; 32] {
                Curve::to_affine(self).to_bytes()
            }
        }
        impl PrimeGroup for $name {}
        impl PrimeCurve for $name {
            type Affine = $aff;
        }
        impl PrimeCurveAffine for $aff {
            type Scalar = $scalar;
            type Curve = $name;
            fn identity() -> Self {
                $aff { x: <$base as Field>::ZERO, y: <$base as Field>::ZERO }
            }
            fn generator() -> Self {
                $aff { x: $gx, y: $gy }
            }
            fn is_identity(&self) -> Choice {
                Choice::from(self.is_id() as u8)
            }
            fn to_curve(&self) -> $name {
                self.ext()
            }
        }
        impl CurveExt for $name {
            type ScalarExt = $scalar;
            type Base = $base;
            type AffineExt = $aff;
            const CURVE_ID: &'static str = $id;
            fn endo(&self) -> Self {
                $name { x: self.x * <$base as WithSmallOrderMulGroup<3>>::ZETA, y: self.y, z: self.z }
            }
            fn jacobian_coordinates(&self) -> ($base, $base, $base) {
                (self.x, self.y, self.z)
            }
            /// Deterministic try-and-increment map (the published crate uses
            /// SSWU; only determinism, domain separation and validity matter here).
            fn hash_to_curve<'a>(domain_prefix: &'a str) -> Box<dyn Fn(&[u8]) -> Self + 'a> {
                Box::new(move |message| {
                    for ctr in 0u32.. {
                        let h = blake2b_simd::Params::new()
                            .personal($id.as_bytes())
                            .to_state()
                            .update(&(domain_prefix.len() as u64).to_le_bytes())
                            .update(domain_prefix.as_bytes())
                            .update(&(message.len() as u64).to_le_bytes())
                            .update(message)
                            .update(&ctr.to_le_bytes())
                            .finalize();
                        let x = $base::from_uniform_bytes(h.as_array());
                        let y = (x.square() * x + <$base as From<u64>>::from($b)).sqrt();
                        if bool::from(y.is_some()) {
                            let y = y.unwrap();
                            let odd: bool = y.is_odd().into();
                            let y = if odd == (h.as_array()[63] & 1 == 1) { y } else { -y };
                            return $name { x, y, z: <$base as Field>::ONE };
                        }
                    }
                    unreachable!()
                })
            }
            fn is_on_curve(&self) -> Choice {
                let z2 = self.z.square();
                let z6 = z2.square() * z2;
                let ok = self.is_id()
                    || self.y.square() == self.x.square() * self.x + z6 * <$base as From<u64>>::from($b);
                Choice::from(ok as u8)
            }
            fn a() -> $base {
                <$base as Field>::ZERO
            }
            fn b() -> $base {
                <$base as From<u64>>::from($b)
            }
            fn new_jacobian(x: $base, y: $base, z: $base) -> CtOption<Self> {
                let p = $name { x, y, z };
                CtOption::new(p, CurveExt::is_on_curve(&p))
            }
        }
        impl CurveAffine for $aff {
            type ScalarExt = $scalar;
            type Base = $base;
            type CurveExt = $name;
            fn coordinates(&self) -> CtOption<Coordinates<Self>> {
                CtOption::new(Coordinates { x: self.x, y: self.y }, Choice::from(!self.is_id() as u8))
            }
            fn from_xy(x: $base, y: $base) -> CtOption<Self> {
                let p = $aff { x, y };
                CtOption::new(p, CurveAffine::is_on_curve(&p))
            }
            fn is_on_curve(&self) -> Choice {
                let ok = self.is_id() || self.y.square() == self.x.square() * self.x + <$base as From<u64>>::from($b);
                Choice::from(ok as u8)
            }
            fn a() -> $base {
                <$base as Field>::ZERO
            }
            fn b() -> $base {
                <$base as From<u64>>::from($b)
            }
        }
    };
}

#[macro_export]
macro_rules! curve_op {
    ($l:ident, $r:ident, $o:ident, |$a:ident, $b:ident| $add:expr, |$c:ident, $d:ident| $sub:expr) => {
        impl<'x, 'y> Add<&'y $r> for &'x $l {
            type Output = $o;
            fn add(self, o: &'y $r) -> $o {
                let ($a, $b) = (self, o);
                $add
            }
        }
        impl<'x, 'y> Sub<&'y $r> for &'x $l {
            type Output = $o;
            fn sub(self, o: &'y $r) -> $o {
                let ($c, $d) = (self, o);
                $sub
            }
        }
        impl<'y> Add<&'y $r> for $l {
            type Output = $o;
            fn add(self, o: &'y $r) -> $o {
                &self + o
            }
        }
        impl<'x> Add<$r> for &'x $l {
            type Output = $o;
            fn add(self, o: $r) -> $o {
                self + &o
            }
        }
        impl Add<$r> for $l {
            type Output = $o;
            fn add(self, o: $r) -> $o {
                &self + &o
            }
        }
        impl<'y> Sub<&'y $r> for $l {
            type Output = $o;
            fn sub(self, o: &'y $r) -> $o {
                &self - o
            }
        }
        impl<'x> Sub<$r> for &'x $l {
            type Output = $o;
            fn sub(self, o: $r) -> $o {
                self - &o
            }
        }
        impl Sub<$r> for $l {
            type Output = $o;
            fn sub(self, o: $r) -> $o {
                &self - &o
            }
        }
    };
}
#[macro_export]
macro_rules! curve_assign {
    ($l:ident, $r:ident) => {
        impl AddAssign<$r> for $l {
            fn add_assign(&mut self, o: $r) {
                *self = &*self + &o;
            }
        }
        impl<'a> AddAssign<&'a $r> for $l {
            fn add_assign(&mut self, o: &'a $r) {
                *self = &*self + o;
            }
        }
        impl SubAssign<$r> for $l {
            fn sub_assign(&mut self, o: $r) {
                *self = &*self - &o;
            }
        }
        impl<'a> SubAssign<&'a $r> for $l {
            fn sub_assign(&mut self, o: &'a $r) {
                *self = &*self - o;
            }
        }
    };
}
#[macro_export]
macro_rules! curve_mul {
    ($l:ident, $s:ident, $o:ident, |$a:ident, $b:ident| $mul:expr) => {
        impl<'x, 'y> Mul<&'y $s> for &'x $l {
            type Output = $o;
            fn mul(self, s: &'y $s) -> $o {
                let ($a, $b) = (self, s);
                $mul
            }
        }
        impl<'x> Mul<$s> for &'x $l {
            type Output = $o;
            fn mul(self, s: $s) -> $o {
                self * &s
            }
        }
        impl<'y> Mul<&'y $s> for $l {
            type Output = $o;
            fn mul(self, s: &'y $s) -> $o {
                &self * s
            }
        }
        impl Mul<$s> for $l {
            type Output = $o;
            fn mul(self, s: $s) -> $o {
                &self * &s
            }
        }
    };
}

curve_impl!(Ep, EpAffine, Fp, Fq, "pallas", 5, -<Fp as Field>::ONE, <Fp as From<u64>>::from(2));
curve_impl!(Eq, EqAffine, Fq, Fp, "vesta", 5, -<Fq as Field>::ONE, <Fq as From<u64>>::from(2));
