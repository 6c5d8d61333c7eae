//! Offline stand-in for `pasta_curves` 0.5.1.
#![no_std]
extern crate alloc;

pub use group;
pub use ff;
pub mod arithmetic;
mod curves;
mod fields;
pub use curves::*;
pub use fields::{Fp, Fq};
pub mod pallas {
    pub use super::{Ep as Point, EpAffine as Affine, Fp as Base, Fq as Scalar};
}
pub mod vesta {
    pub use super::{Eq as Point, EqAffine as Affine, Fp as Scalar, Fq as Base};
}
#[cfg(test)]
mod tests;
