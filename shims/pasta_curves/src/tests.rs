use crate::arithmetic::{CurveAffine, CurveExt};
use crate::group::{prime::PrimeCurveAffine, Curve, Group, GroupEncoding};
use crate::*;
use ff::{Field, FromUniformBytes, PrimeField, WithSmallOrderMulGroup};

struct X(u64);
impl rand_core::TryRng for X {
    type Error = core::convert::Infallible;
    fn try_next_u32(&mut self) -> Result<u32, Self::Error> {
        Ok(self.try_next_u64()? as u32)
    }
    fn try_next_u64(&mut self) -> Result<u64, Self::Error> {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        Ok(z ^ (z >> 31))
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Self::Error> {
        for b in d {
            *b = self.try_next_u64()? as u8;
        }
        Ok(())
    }
}

fn field<F: WithSmallOrderMulGroup<3> + FromUniformBytes<64> + Ord>() {
    let mut r = X(1);
    assert_eq!(F::from_str_vartime("6").unwrap(), F::from(6));
    for _ in 0..200 {
        let a = F::random(&mut r);
        let b = F::random(&mut r);
        let c = F::random(&mut r);
        assert_eq!((a + b) * c, a * c + b * c);
        assert_eq!((a - b) + b, a);
        assert_eq!(a * a.invert().unwrap(), F::ONE);
        assert_eq!(a.square().sqrt().unwrap().square(), a.square());
        assert_eq!(F::from_repr(a.to_repr()).unwrap(), a);
        let mut w = [0u8; 64];
        w[..32].copy_from_slice(a.to_repr().as_ref());
        w[32..].copy_from_slice(b.to_repr().as_ref());
        assert_eq!(F::from_uniform_bytes(&w), a + b * F::from(2).pow([256u64]));
    }
    assert_eq!(-F::ONE + F::ONE, F::ZERO);
    assert_eq!(F::TWO_INV.double(), F::ONE);
    assert_eq!(F::ROOT_OF_UNITY.pow([1u64 << 32]), F::ONE);
    assert_ne!(F::ROOT_OF_UNITY.pow([1u64 << 31]), F::ONE);
    assert_eq!(F::ROOT_OF_UNITY * F::ROOT_OF_UNITY_INV, F::ONE);
    assert_eq!(F::MULTIPLICATIVE_GENERATOR.pow([1u64 << 32]), F::DELTA);
    assert_eq!(F::ZETA.cube(), F::ONE);
    assert_ne!(F::ZETA, F::ONE);
}
#[test]
fn fields() {
    field::<Fp>();
    field::<Fq>();
}
fn curve<C: CurveAffine>() {
    let mut r = X(2);
    let g = C::generator();
    assert!(bool::from(g.is_on_curve()));
    assert!(bool::from((g * -C::Scalar::ONE + g).is_identity()));
    let e = C::CurveExt::generator();
    assert_eq!(e.endo(), e * <C::ScalarExt as WithSmallOrderMulGroup<3>>::ZETA);
    for _ in 0..20 {
        let a = C::Scalar::random(&mut r);
        let b = C::Scalar::random(&mut r);
        assert_eq!(g * a + g * b, g * (a + b));
        assert_eq!((g * a) * b, g * (a * b));
        let p: C = (g * a).to_affine();
        let q: C = (g * b).into();
        assert!(bool::from(p.is_on_curve()));
        assert_eq!((p + q) - q, p.to_curve());
        assert_eq!(p + p, p.to_curve().double());
        assert_eq!(C::from_bytes(&p.to_bytes()).unwrap(), p);
        let z: C::CurveExt = p - p;
        assert!(bool::from(z.is_identity()));
        let h = C::CurveExt::hash_to_curve("x")(&[1, 2]);
        assert!(bool::from(h.is_on_curve()));
        assert!(!bool::from(h.is_identity()));
    }
}
#[test]
fn curves() {
    curve::<EpAffine>();
    curve::<EqAffine>();
}
