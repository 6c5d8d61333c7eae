//! Type-rewriting macros: types they name against types spelled out by hand.
#![allow(unused)]
use ff::Field;
use ragu_core::drivers::emulator::{Emulator, Wired};
use ragu_core::drivers::{Driver, DriverValue};
use ragu_core::gadgets::{Bound, Gadget, GadgetKind, Kind};
use std::any::{TypeId, type_name};
use std::marker::PhantomData;
use vh::small::{F13, F97};
use vh::*;

struct M<'a, 'b, A, B, const N: usize>(PhantomData<(&'a (), &'b (), A, B)>);
mod mk {
    pub struct M2<'a, A, const N: usize>(std::marker::PhantomData<(&'a (), A)>);
}
trait Proj<T> {
    type Out;
}
impl<T> Proj<T> for u8 {
    type Out = (T, u8);
}
struct Cyc;
trait Cy {
    type Fp;
}
impl Cy for Cyc {
    type Fp = F13;
}
type Dr = Emulator<Wired<F97>>;

#[derive(Gadget)]
struct L<'dr, D: Driver<'dr>> {
    #[ragu(wire)]
    w: D::Wire,
}
#[derive(Gadget)]
struct G<'dr, D: Driver<'dr>, K: GadgetKind<D::F>, T: Send + Sync + Clone + 'static, const N: usize> {
    k: Bound<'dr, D, K>,
    #[ragu(value)]
    t: DriverValue<D, T>,
    ks: [Bound<'dr, D, K>; N],
}
#[derive(Gadget)]
struct H<'x, T: Send + Sync + Clone + 'static, #[ragu(driver)] Dx: Driver<'x>, const N: usize> {
    #[ragu(value)]
    t: DriverValue<Dx, T>,
    #[ragu(wire)]
    w: Dx::Wire,
}

mod mock {
    #[derive(Clone)]
    pub struct Odd(pub u64);
    pub trait Get {
        fn get(&self) -> u64;
        fn is_none(&self) -> bool;
    }
    impl Get for Option<u64> {
        fn get(&self) -> u64 {
            self.unwrap()
        }
        fn is_none(&self) -> bool {
            Option::is_none(self)
        }
    }
    impl Get for Option<Odd> {
        fn get(&self) -> u64 {
            self.as_ref().unwrap().0
        }
        fn is_none(&self) -> bool {
            Option::is_none(self)
        }
    }
    /// Local stand-ins for the traits the generated implementations refer to.
    #[macro_export]
    macro_rules! mock {
        () => {
            pub trait MaybeCast<R, K> {
                type Output;
                fn empty() -> Self::Output;
                fn cast(self) -> Self::Output;
            }
            pub trait MaybeKind {
                type Rebind<T: Send>;
                fn maybe_just<T: Send>(f: impl FnOnce() -> T) -> Self::Rebind<T>;
                fn empty<T: Send>() -> Self::Rebind<T>;
            }
            pub type Perhaps<K, T> = <K as MaybeKind>::Rebind<T>;
            pub struct Has;
            impl MaybeKind for Has {
                type Rebind<T: Send> = Option<T>;
                fn maybe_just<T: Send>(f: impl FnOnce() -> T) -> Option<T> {
                    Some(f())
                }
                fn empty<T: Send>() -> Option<T> {
                    None
                }
            }
        };
    }
    pub use crate::mock;
}
mod generated {
    use super::*;
    use crate::mock::{Get, Odd};
    include!(env!("VERIF_GEN"));
}
fn run(ctx: &Ctx) {
    ctx.rule("Random type expressions (paths with lifetimes, types, consts, projections; tuples; nesting to depth 4) with placeholders, named through the real macro and compared by type identity with the same tree spelled out by the generator; kinds of derived gadgets and their rebinding; generated tuple casts of many sizes against element order. Non-trivial when the expression is new.");
    let rows = generated::rows();
    ctx.cases("types", rows.len(), |c| {
        let (got, want, name, written, spelled) = rows[c.idx];
        ensure!(got == want, "Kind![{written}] names {name}, not {spelled}");
        c.seen(&written);
        c.event("types compared", 1);
        c.sample("type", || written.to_string());
        Ok(())
    });
    let t = generated::tuples();
    ctx.cases("tuples", t.len(), |c| {
        let (n, k, got, want, empty) = &t[c.idx];
        ensure_eq!(got, want, "cast of a {k}-tuple from impl_maybe_cast_tuple!({n})");
        ensure!(*empty, "empty {k}-tuple from impl_maybe_cast_tuple!({n})");
        c.seen(&(n, k));
        c.event("tuple elements compared", *k as u64);
        Ok(())
    });
}
fn main() {
    vh::main(&[("M02", run)])
}
