//! Shared by the monitors over generated circuits.
use crate::{
    Model,
    nets::{Gen, Mix, NetBody},
    with_outs,
};
use ff::{FromUniformBytes, PrimeField};
use ragu_circuits::polynomials::{Rank, sparse};
use vh::VRng;

/// Field bound used throughout.
pub trait Fld: PrimeField + FromUniformBytes<64> + Ord {}
impl<F: PrimeField + FromUniformBytes<64> + Ord> Fld for F {}

pub fn dense<F: Fld, K: Rank>(p: &sparse::Polynomial<F, K>) -> Vec<F> {
    p.iter_coeffs().collect()
}

/// A net that fits the rank, with its witness.
pub fn gen_net<F: Fld, K: Rank>(r: &mut VRng, mix: Mix, n_out: usize) -> (NetBody<F>, Vec<F>) {
    loop {
        let (p, w) = Gen::new(r, mix).net(n_out);
        let (p, fits) = with_outs!(n_out, p, |c| {
            let fits = crate::structure(&c).is_ok_and(|m: Model<F>| m.gates() <= K::n() && m.constraints() < K::num_coeffs());
            (std::sync::Arc::try_unwrap(c.p).ok().unwrap(), fits)
        });
        if fits {
            return (p, w);
        }
    }
}

pub fn mixes(r: &mut VRng) -> Mix {
    *[
        Mix::default(),
        Mix { len: 4, calls: 4, ..Mix::default() },
        Mix { len: 25, depth: 0, ..Mix::default() },
        Mix { len: 12, depth: 3, calls: 6, ..Mix::default() },
        Mix { len: 9, depth: 4, calls: 8, known: 100, ..Mix::default() },
    ]
    .get(r.below(5))
    .unwrap()
}

pub fn outs_of(r: &mut VRng) -> usize {
    [0, 1, 2, 5][r.below(4)]
}

