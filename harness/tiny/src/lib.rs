//! Prime-order curves over tiny fields, small enough to enumerate every pair
//! of points, with the cube roots of unity of base and scalar field matched.
extern crate alloc;
macro_rules! tiny {
    ($m:ident, $base:ty, $scalar:ty, $b:expr, $gx:expr, $gy:expr, $id:expr) => {
        pub mod $m {
            use alloc::boxed::Box;
            use alloc::vec;
            use alloc::vec::Vec;
            use core::fmt;
            use core::iter::Sum;
            use core::ops::{Add, AddAssign, Mul, MulAssign, Neg, Sub, SubAssign};
            use ff::{Field, FromUniformBytes, PrimeField, WithSmallOrderMulGroup};
            use group::prime::{PrimeCurve, PrimeCurveAffine, PrimeGroup};
            use group::{Curve, Group, GroupEncoding};
            use pasta_curves::arithmetic::{Coordinates, CurveAffine, CurveExt};
            use rand_core::TryRng;
            use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};
            pub type Base = $base;
            pub type Scalar = $scalar;
            pub const B: u64 = $b;
            pasta_curves::curve_impl!(E, A, Base, Scalar, $id, $b, vh::small::Sf($gx), vh::small::Sf($gy));
            impl A {
                /// Every non-identity point.
                pub fn all() -> Vec<A> {
                    let mut v = vec![];
                    let mut p = <A as PrimeCurveAffine>::generator().to_curve();
                    let g = p;
                    while !bool::from(Group::is_identity(&p)) {
                        v.push(p.to_affine());
                        p = p + g;
                    }
                    v
                }
            }
        }
    };
}
tiny!(t1, vh::small::F7, vh::small::F13, 3, 1, 2, "tiny1");
tiny!(t2, vh::small::Sf<19, 2, 1>, vh::small::Sf<13, 6, 2>, 2, 4, 3, "tiny2");
tiny!(t3, vh::small::F97, vh::small::Sf<79, 6, 1>, 5, 1, 43, "tiny3");
tiny!(t4, vh::small::F13, vh::small::Sf<19, 10, 1>, 2, 1, 4, "tiny4");

#[cfg(test)]
mod tests {
    use ff::{PrimeField, WithSmallOrderMulGroup};
    use group::Group;
    use group::prime::PrimeCurveAffine;
    use pasta_curves::arithmetic::{CurveAffine, CurveExt};
    macro_rules! t {
        ($m:ident, $n:expr) => {
            #[test]
            fn $m() {
                let all = super::$m::A::all();
                assert_eq!(all.len(), $n - 1);
                for p in &all {
                    assert!(bool::from(CurveAffine::is_on_curve(p)));
                    let q = p.to_curve() * super::$m::Scalar::ZETA;
                    assert_eq!(q, p.to_curve().endo());
                }
                let _ = super::$m::E::generator();
            }
        };
    }
    t!(t1, 13);
    t!(t2, 13);
    t!(t3, 79);
    t!(t4, 19);
}
