//! Pasta base/scalar fields in Montgomery form.
use core::fmt;
use core::iter::{Product, Sum};
use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
use ff::{Field, FromUniformBytes, PrimeField, WithSmallOrderMulGroup};
use rand_core::TryRng;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

#[inline(always)]
const fn adc(a: u64, b: u64, c: u64) -> (u64, u64) {
    let r = (a as u128) + (b as u128) + (c as u128);
    (r as u64, (r >> 64) as u64)
}
#[inline(always)]
const fn sbb(a: u64, b: u64, bo: u64) -> (u64, u64) {
    let r = (a as u128).wrapping_sub((b as u128) + ((bo >> 63) as u128));
    (r as u64, (r >> 64) as u64)
}
#[inline(always)]
const fn mac(a: u64, b: u64, c: u64, carry: u64) -> (u64, u64) {
    let r = (a as u128) + ((b as u128) * (c as u128)) + (carry as u128);
    (r as u64, (r >> 64) as u64)
}

macro_rules! field_impl {
    ($name:ident, $modstr:expr, modulus = $m:expr, inv = $inv:expr, r = $r:expr, r2 = $r2:expr, r3 = $r3:expr,
     two_inv = $two_inv:expr, root = $root:expr, root_inv = $root_inv:expr, delta = $delta:expr, zeta = $zeta:expr,
     m_minus_2 = $mm2:expr, t_minus1_over2 = $tm12:expr,) => {
        #[derive(Clone, Copy, PartialEq, Eq, Hash)]
        #[repr(transparent)]
        pub struct $name(pub(crate) [u64; 4]);

        impl $name {
            const M: [u64; 4] = $m;
            const INV: u64 = $inv;
            const R: $name = $name($r);
            const R2: $name = $name($r2);
            const R3: $name = $name($r3);

            pub const fn zero() -> Self {
                $name([0; 4])
            }
            pub const fn one() -> Self {
                Self::R
            }
            /// From little-endian limbs of an integer (non-Montgomery).
            pub const fn from_raw(v: [u64; 4]) -> Self {
                $name::mul(&$name(v), &Self::R2)
            }
            #[inline(always)]
            const fn reduce_once(v: [u64; 4]) -> Self {
                let m = Self::M;
                let (a, b) = sbb(v[0], m[0], 0);
                let (c, b) = sbb(v[1], m[1], b);
                let (d, b) = sbb(v[2], m[2], b);
                let (e, b) = sbb(v[3], m[3], b);
                // mask all ones when borrow => keep v
                let k = b;
                $name([
                    (v[0] & k) | (a & !k),
                    (v[1] & k) | (c & !k),
                    (v[2] & k) | (d & !k),
                    (v[3] & k) | (e & !k),
                ])
            }
            #[inline]
            pub const fn mul(&self, o: &Self) -> Self {
                let a = self.0;
                let b = o.0;
                let m = Self::M;
                let mut t = [0u64; 6];
                let mut i = 0;
                while i < 4 {
                    let (t0, c) = mac(t[0], a[0], b[i], 0);
                    let (t1, c) = mac(t[1], a[1], b[i], c);
                    let (t2, c) = mac(t[2], a[2], b[i], c);
                    let (t3, c) = mac(t[3], a[3], b[i], c);
                    let (t4, t5) = adc(t[4], c, 0);
                    let k = t0.wrapping_mul(Self::INV);
                    let (_, c) = mac(t0, k, m[0], 0);
                    let (r0, c) = mac(t1, k, m[1], c);
                    let (r1, c) = mac(t2, k, m[2], c);
                    let (r2, c) = mac(t3, k, m[3], c);
                    let (r3, c) = adc(t4, c, 0);
                    t = [r0, r1, r2, r3, t5 + c, 0];
                    i += 1;
                }
                Self::reduce_once([t[0], t[1], t[2], t[3]])
            }
            #[inline]
            pub const fn square(&self) -> Self {
                $name::mul(self, self)
            }
            #[inline]
            pub const fn add(&self, o: &Self) -> Self {
                let (a, c) = adc(self.0[0], o.0[0], 0);
                let (b, c) = adc(self.0[1], o.0[1], c);
                let (d, c) = adc(self.0[2], o.0[2], c);
                let (e, _) = adc(self.0[3], o.0[3], c);
                Self::reduce_once([a, b, d, e])
            }
            #[inline]
            pub const fn double(&self) -> Self {
                $name::add(self, self)
            }
            #[inline]
            pub const fn sub(&self, o: &Self) -> Self {
                let m = Self::M;
                let (a, b) = sbb(self.0[0], o.0[0], 0);
                let (c, b) = sbb(self.0[1], o.0[1], b);
                let (d, b) = sbb(self.0[2], o.0[2], b);
                let (e, b) = sbb(self.0[3], o.0[3], b);
                let (a, cc) = adc(a, m[0] & b, 0);
                let (c, cc) = adc(c, m[1] & b, cc);
                let (d, cc) = adc(d, m[2] & b, cc);
                let (e, _) = adc(e, m[3] & b, cc);
                $name([a, c, d, e])
            }
            #[inline]
            pub const fn neg(&self) -> Self {
                $name::sub(&$name([0; 4]), self)
            }
            /// Canonical little-endian limbs.
            #[inline]
            pub const fn to_raw(&self) -> [u64; 4] {
                $name::mul(self, &$name([1, 0, 0, 0])).0
            }
            fn from_u512(l: [u64; 8]) -> Self {
                let lo = $name([l[0], l[1], l[2], l[3]]);
                let hi = $name([l[4], l[5], l[6], l[7]]);
                lo * Self::R2 + hi * Self::R3
            }
        }
        impl fmt::Debug for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                let r = self.to_raw();
                write!(f, "0x{:016x}{:016x}{:016x}{:016x}", r[3], r[2], r[1], r[0])
            }
        }
        impl fmt::Display for $name {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                fmt::Debug::fmt(self, f)
            }
        }
        impl Default for $name {
            fn default() -> Self {
                Self::zero()
            }
        }
        impl PartialOrd for $name {
            fn partial_cmp(&self, o: &Self) -> Option<core::cmp::Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for $name {
            fn cmp(&self, o: &Self) -> core::cmp::Ordering {
                let (a, b) = (self.to_raw(), o.to_raw());
                a.iter().rev().cmp(b.iter().rev())
            }
        }
        impl ConstantTimeEq for $name {
            #[inline]
            fn ct_eq(&self, o: &Self) -> Choice {
                Choice::from((self.0 == o.0) as u8)
            }
        }
        impl ConditionallySelectable for $name {
            #[inline]
            fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
                $name([
                    u64::conditional_select(&a.0[0], &b.0[0], c),
                    u64::conditional_select(&a.0[1], &b.0[1], c),
                    u64::conditional_select(&a.0[2], &b.0[2], c),
                    u64::conditional_select(&a.0[3], &b.0[3], c),
                ])
            }
        }
        impl From<bool> for $name {
            fn from(b: bool) -> Self {
                if b { Self::one() } else { Self::zero() }
            }
        }
        impl From<u64> for $name {
            fn from(v: u64) -> Self {
                $name::mul(&$name([v, 0, 0, 0]), &Self::R2)
            }
        }
        impl Neg for $name {
            type Output = $name;
            #[inline]
            fn neg(self) -> $name {
                $name::neg(&self)
            }
        }
        impl<'a> Neg for &'a $name {
            type Output = $name;
            #[inline]
            fn neg(self) -> $name {
                $name::neg(self)
            }
        }
        field_binop!($name, Add, add, AddAssign, add_assign);
        field_binop!($name, Sub, sub, SubAssign, sub_assign);
        field_binop!($name, Mul, mul, MulAssign, mul_assign);
        impl<T: core::borrow::Borrow<$name>> Sum<T> for $name {
            fn sum<I: Iterator<Item = T>>(iter: I) -> Self {
                iter.fold(Self::zero(), |a, b| a + b.borrow())
            }
        }
        impl<T: core::borrow::Borrow<$name>> Product<T> for $name {
            fn product<I: Iterator<Item = T>>(iter: I) -> Self {
                iter.fold(Self::one(), |a, b| a * b.borrow())
            }
        }
        impl Field for $name {
            const ZERO: Self = Self::zero();
            const ONE: Self = Self::one();
            fn try_random<R: TryRng + ?Sized>(rng: &mut R) -> Result<Self, R::Error> {
                let mut l = [0u64; 8];
                for x in l.iter_mut() {
                    *x = rng.try_next_u64()?;
                }
                Ok(Self::from_u512(l))
            }
            #[inline]
            fn square(&self) -> Self {
                $name::square(self)
            }
            #[inline]
            fn double(&self) -> Self {
                $name::double(self)
            }
            #[inline]
            fn is_zero_vartime(&self) -> bool {
                self.0 == [0; 4]
            }
            fn invert(&self) -> CtOption<Self> {
                CtOption::new(self.pow_vartime(&$mm2), !self.is_zero())
            }
            fn sqrt_ratio(num: &Self, div: &Self) -> (Choice, Self) {
                // Tonelli-Shanks on num/div; non-squares are multiplied by ROOT_OF_UNITY.
                if num.is_zero_vartime() {
                    return (Choice::from(1), Self::ZERO);
                }
                if div.is_zero_vartime() {
                    return (Choice::from(0), Self::ZERO);
                }
                let u = *num * div.invert().unwrap();
                fn go(u: $name) -> Option<$name> {
                    let w = u.pow_vartime(&$tm12);
                    let mut x = u * w;
                    let mut b = x * w;
                    let mut v = <$name as PrimeField>::S;
                    let mut z = <$name as PrimeField>::ROOT_OF_UNITY;
                    while b != $name::one() {
                        let mut k = 0;
                        let mut t = b;
                        while t != $name::one() {
                            t = t.square();
                            k += 1;
                            if k == v {
                                return None;
                            }
                        }
                        for _ in 0..(v - k - 1) {
                            z = z.square();
                        }
                        x *= z;
                        z = z.square();
                        b *= z;
                        v = k;
                    }
                    Some(x)
                }
                match go(u) {
                    Some(s) => (Choice::from(1), s),
                    None => (Choice::from(0), go(u * Self::ROOT_OF_UNITY).unwrap()),
                }
            }
        }
        impl PrimeField for $name {
            type Repr = [u8; 32];
            fn from_u128(v: u128) -> Self {
                Self::from_raw([v as u64, (v >> 64) as u64, 0, 0])
            }
            fn from_repr(repr: [u8; 32]) -> CtOption<Self> {
                let mut l = [0u64; 4];
                for i in 0..4 {
                    let mut b = [0u8; 8];
                    b.copy_from_slice(&repr[i * 8..i * 8 + 8]);
                    l[i] = u64::from_le_bytes(b);
                }
                let canonical = l.iter().rev().cmp(Self::M.iter().rev()) == core::cmp::Ordering::Less;
                CtOption::new(Self::from_raw(l), Choice::from(canonical as u8))
            }
            fn to_repr(&self) -> [u8; 32] {
                let r = self.to_raw();
                let mut o = [0u8; 32];
                for i in 0..4 {
                    o[i * 8..i * 8 + 8].copy_from_slice(&r[i].to_le_bytes());
                }
                o
            }
            fn is_odd(&self) -> Choice {
                Choice::from((self.to_raw()[0] & 1) as u8)
            }
            const MODULUS: &'static str = $modstr;
            const NUM_BITS: u32 = 255;
            const CAPACITY: u32 = 254;
            const TWO_INV: Self = $name::from_raw($two_inv);
            const MULTIPLICATIVE_GENERATOR: Self = $name::from_raw([5, 0, 0, 0]);
            const S: u32 = 32;
            const ROOT_OF_UNITY: Self = $name::from_raw($root);
            const ROOT_OF_UNITY_INV: Self = $name::from_raw($root_inv);
            const DELTA: Self = $name::from_raw($delta);
        }
        impl WithSmallOrderMulGroup<3> for $name {
            const ZETA: Self = $name::from_raw($zeta);
        }
        impl FromUniformBytes<64> for $name {
            fn from_uniform_bytes(bytes: &[u8; 64]) -> Self {
                let mut l = [0u64; 8];
                for i in 0..8 {
                    let mut b = [0u8; 8];
                    b.copy_from_slice(&bytes[i * 8..i * 8 + 8]);
                    l[i] = u64::from_le_bytes(b);
                }
                Self::from_u512(l)
            }
        }
    };
}

macro_rules! field_binop {
    ($name:ident, $tr:ident, $f:ident, $tra:ident, $fa:ident) => {
        impl $tr<$name> for $name {
            type Output = $name;
            #[inline]
            fn $f(self, o: $name) -> $name {
                $name::$f(&self, &o)
            }
        }
        impl<'a> $tr<&'a $name> for $name {
            type Output = $name;
            #[inline]
            fn $f(self, o: &'a $name) -> $name {
                $name::$f(&self, o)
            }
        }
        impl<'a> $tr<$name> for &'a $name {
            type Output = $name;
            #[inline]
            fn $f(self, o: $name) -> $name {
                $name::$f(self, &o)
            }
        }
        impl<'a, 'b> $tr<&'b $name> for &'a $name {
            type Output = $name;
            #[inline]
            fn $f(self, o: &'b $name) -> $name {
                $name::$f(self, o)
            }
        }
        impl $tra<$name> for $name {
            #[inline]
            fn $fa(&mut self, o: $name) {
                *self = $name::$f(self, &o);
            }
        }
        impl<'a> $tra<&'a $name> for $name {
            #[inline]
            fn $fa(&mut self, o: &'a $name) {
                *self = $name::$f(self, o);
            }
        }
    };
}

field_impl! {
    Fp, "0x40000000000000000000000000000000224698fc094cf91b992d30ed00000001",
    modulus = [0x992d30ed00000001, 0x224698fc094cf91b, 0x0000000000000000, 0x4000000000000000],
    inv = 0x992d30ecffffffff,
    r = [0x34786d38fffffffd, 0x992c350be41914ad, 0xffffffffffffffff, 0x3fffffffffffffff],
    r2 = [0x8c78ecb30000000f, 0xd7d30dbd8b0de0e7, 0x7797a99bc3c95d18, 0x096d41af7b9cb714],
    r3 = [0xf185a5993a9e10f9, 0xf6a68f3b6ac5b1d1, 0xdf8d1014353fd42c, 0x2ae309222d2d9910],
    two_inv = [0xcc96987680000001, 0x11234c7e04a67c8d, 0x0000000000000000, 0x2000000000000000],
    root = [0xbdad6fabd87ea32f, 0xea322bf2b7bb7584, 0x362120830561f81a, 0x2bce74deac30ebda],
    root_inv = [0xf0b87c7db2ce91f6, 0x84a0a1d8859f066f, 0xb4ed8e647196dad1, 0x2cd5282c53116b5c],
    delta = [0x6a6ccd20dd7b9ba2, 0xf5e4f3f13eee5636, 0xbd455b7112a5049d, 0x0a757d0f0006ab6c],
    zeta = [0x1dad5ebdfdfe4ab9, 0x1d1f8bd237ad3149, 0x2caad5dc57aab1b0, 0x12ccca834acdba71],
    m_minus_2 = [0x992d30ecffffffff, 0x224698fc094cf91b, 0x0000000000000000, 0x4000000000000000],
    t_minus1_over2 = [0x04a67c8dcc969876, 0x0000000011234c7e, 0x0000000000000000, 0x0000000020000000],
}
field_impl! {
    Fq, "0x40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001",
    modulus = [0x8c46eb2100000001, 0x224698fc0994a8dd, 0x0000000000000000, 0x4000000000000000],
    inv = 0x8c46eb20ffffffff,
    r = [0x5b2b3e9cfffffffd, 0x992c350be3420567, 0xffffffffffffffff, 0x3fffffffffffffff],
    r2 = [0xfc9678ff0000000f, 0x67bb433d891a16e3, 0x7fae231004ccf590, 0x096d41af7ccfdaa9],
    r3 = [0x008b421c249dae4c, 0xe13bda50dba41326, 0x88fececb8e15cb63, 0x07dd97a06e6792c8],
    two_inv = [0xc623759080000001, 0x11234c7e04ca546e, 0x0000000000000000, 0x2000000000000000],
    root = [0xa70e2c1102b6d05f, 0x9bb97ea3c106f049, 0x9e5c4dfd492ae26e, 0x2de6a9b8746d3f58],
    root_inv = [0x57eecda0a84b6836, 0x4ad38b9084b8a80c, 0xf4c8f353124086c1, 0x2235e1a7415bf936],
    delta = [0x8494392472d1683c, 0xe3ac3376541d1140, 0x06f0a88e7f7949f8, 0x2237d54423724166],
    zeta = [0x2aa9d2e050aa0e4f, 0x0fed467d47c033af, 0x511db4d81cf70f5a, 0x06819a58283e528e],
    m_minus_2 = [0x8c46eb20ffffffff, 0x224698fc0994a8dd, 0x0000000000000000, 0x4000000000000000],
    t_minus1_over2 = [0x04ca546ec6237590, 0x0000000011234c7e, 0x0000000000000000, 0x0000000020000000],
}
