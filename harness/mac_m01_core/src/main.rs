//! Derived gadget code for generated struct shapes.
#![allow(unused, non_snake_case, non_camel_case_types)]
use ragu_core::drivers::{Driver, DriverTypes, DriverValue};
use ragu_core::gadgets::{Bound, Gadget, GadgetKind};
use shapes::*;
use std::marker::PhantomData;
use vh::*;

trait Tr<T> {}
impl<T, X> Tr<T> for X {}
trait Tb<T> {}
impl<T, X> Tb<T> for X {}
trait Ta {
    type Assoc;
}
impl<X> Ta for X {
    type Assoc = F;
}
trait Tc<T, const N: usize> {}
impl<T, X, const N: usize> Tc<T, N> for X {}
trait Td {
    type Out;
}
impl<X> Td for X {
    type Out = (u8, F);
}

include!(env!("VERIF_GEN"));

fn run(ctx: &Ctx) {
    ctx.rule("Generated struct definitions deriving conversion alone and deriving everything (0-14 fields of every annotation and spelling, nested gadgets, parameters in any position, bounds over the driver's field, defaults, const generics, renamed drivers) compiled with the real derives; each instance is converted, cloned, equated, serialized and checked with fault injection while every wire, witness and call is recorded. Oracle: declaration order written out by the generator. Non-trivial when structure and contents are new.");
    all(ctx, ctx.n(6, 40));
}
fn main() {
    vh::main(&[("M01", run)])
}
