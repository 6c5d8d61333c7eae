//! Serialization and consistency checking of gadgets of any shape.
use super::*;
use ragu_core::drivers::LinearExpression;
use ragu_primitives::consistent::Consistent;
use ragu_primitives::promotion::{Demoted, DemotedDriver, DemotedKind};
use ragu_primitives::vec::{FixedVec, Len};
use ragu_primitives::io::{Buffer, Write};
use ragu_primitives::{Element, GadgetExt};

fn el<'dr, D: Driver<'dr>>(w: &D::Wire) -> Element<'dr, D> {
    Element::promote(w.clone(), D::just(|| D::F::ONE))
}
impl<G: ff::Field> Write<G> for La<'static, PhantomData<G>> {
    fn write_gadget<'dr, D: Driver<'dr, F = G>, B: Buffer<'dr, D>>(this: &Bound<'dr, D, Self>, dr: &mut D, buf: &mut B) -> Result<()> {
        buf.write(dr, &el(&this.w))
    }
}
impl<G: ff::Field> Write<G> for Lb<'static, PhantomData<G>> {
    fn write_gadget<'dr, D: Driver<'dr, F = G>, B: Buffer<'dr, D>>(this: &Bound<'dr, D, Self>, dr: &mut D, buf: &mut B) -> Result<()> {
        buf.write(dr, &el(&this.b))?;
        buf.write(dr, &el(&this.a))
    }
}
impl<'dr, D: Driver<'dr>> Consistent<'dr, D> for La<'dr, D> {
    fn enforce_consistent(&self, dr: &mut D) -> Result<()> {
        dr.enforce_zero(|lc| lc.add(&self.w))
    }
}
impl<'dr, D: Driver<'dr>> Consistent<'dr, D> for Lb<'dr, D> {
    fn enforce_consistent(&self, dr: &mut D) -> Result<()> {
        dr.enforce_zero(|lc| lc.add(&self.b))?;
        dr.enforce_zero(|lc| lc.add(&self.a))
    }
}
impl<K: Shape, L: Len> Shape for FixedVec<PhantomData<K>, L> {
    fn wires() -> usize {
        K::wires() * L::len()
    }
    fn build<'dr, D: Driver<'dr, F = F>>(f: &mut Feed<'_, 'dr, D>) -> Bound<'dr, D, Self> {
        FixedVec::new((0..L::len()).map(|_| K::build(f)).collect()).unwrap()
    }
    fn read<'dr, D: Driver<'dr, F = F>>(g: &Bound<'dr, D, Self>, w: &mut Vec<D::Wire>, v: &mut Vec<DriverValue<D, u64>>) {
        g.iter().for_each(|x| K::read(x, w, v));
    }
}
/// A demoted gadget keeps its wires and forgets its witnesses.
impl<K: Shape> Shape for DemotedKind<F, K> {
    fn wires() -> usize {
        K::wires()
    }
    fn build<'dr, D: Driver<'dr, F = F>>(f: &mut Feed<'_, 'dr, D>) -> Bound<'dr, D, Self> {
        let n = f.log.len();
        let g = K::build(f);
        f.log.truncate(n);
        Demoted::new(&g).unwrap()
    }
    fn read<'dr, D: Driver<'dr, F = F>>(g: &Bound<'dr, D, Self>, w: &mut Vec<D::Wire>, _: &mut Vec<DriverValue<D, u64>>) {
        K::read::<DemotedDriver<D>>(g, w, &mut vec![]);
    }
}
/// Which wires serialization should emit, in order.
pub trait Written: Shape {
    fn written<'dr, D: Driver<'dr, F = F>>(g: &Bound<'dr, D, Self>, w: &mut Vec<D::Wire>);
}
/// Which wires the consistency check should visit, in order.
pub trait Checked: Shape {
    fn checked<'dr, D: Driver<'dr, F = F>>(g: &Bound<'dr, D, Self>, w: &mut Vec<D::Wire>);
}
macro_rules! walk {
    ($tr:ident, $f:ident) => {
        impl $tr for LaK {
            fn $f<'dr, D: Driver<'dr, F = F>>(g: &Bound<'dr, D, Self>, w: &mut Vec<D::Wire>) {
                w.push(g.w.clone());
            }
        }
        impl $tr for LbK {
            fn $f<'dr, D: Driver<'dr, F = F>>(g: &Bound<'dr, D, Self>, w: &mut Vec<D::Wire>) {
                w.extend([g.b.clone(), g.a.clone()]);
            }
        }
        impl $tr for () {
            fn $f<'dr, D: Driver<'dr, F = F>>(_: &Bound<'dr, D, Self>, _: &mut Vec<D::Wire>) {}
        }
        impl<K: $tr, const N: usize> $tr for [PhantomData<K>; N] {
            fn $f<'dr, D: Driver<'dr, F = F>>(g: &Bound<'dr, D, Self>, w: &mut Vec<D::Wire>) {
                g.iter().for_each(|x| K::$f(x, w));
            }
        }
        impl<X: $tr, Y: $tr> $tr for (PhantomData<X>, PhantomData<Y>) {
            fn $f<'dr, D: Driver<'dr, F = F>>(g: &Bound<'dr, D, Self>, w: &mut Vec<D::Wire>) {
                X::$f(&g.0, w);
                Y::$f(&g.1, w);
            }
        }
        impl<K: $tr, L: Len> $tr for FixedVec<PhantomData<K>, L> {
            fn $f<'dr, D: Driver<'dr, F = F>>(g: &Bound<'dr, D, Self>, w: &mut Vec<D::Wire>) {
                g.iter().for_each(|x| K::$f(x, w));
            }
        }
        impl<K: $tr> $tr for PhantomData<Box<K>> {
            fn $f<'dr, D: Driver<'dr, F = F>>(g: &Bound<'dr, D, Self>, w: &mut Vec<D::Wire>) {
                K::$f(g, w);
            }
        }
    };
}
walk!(Written, written);
walk!(Checked, checked);

fn fresh<K: Shape>(c: &mut Case) -> Bound<'static, A, K> {
    let base = c.rng.below(1000) as u32;
    let (mut n, mut log) = (0u32, vec![]);
    K::build::<A>(&mut Feed {
        wire: &mut || {
            n += 1;
            W::X(base + n)
        },
        val: &mut || 7,
        log: &mut log,
    })
}
struct Sink {
    got: Vec<W>,
    fail: Option<usize>,
}
impl Buffer<'static, A> for Sink {
    fn write(&mut self, _: &mut A, e: &Element<'static, A>) -> Result<()> {
        if self.fail == Some(self.got.len()) {
            return Err(Error::InvalidWitness("injected".into()));
        }
        self.got.push(*e.wire());
        Ok(())
    }
}
/// Serialization visits exactly the unskipped fields in declaration order.
pub fn shape_write<K: Written + Write<F>>(c: &mut Case, name: &str) -> Res {
    let g = fresh::<K>(c);
    let mut want = vec![];
    K::written::<A>(&g, &mut want);
    let mut s = Sink { got: vec![], fail: None };
    let mut dr = A::new();
    K::write_gadget(&g, &mut dr, &mut s).map_err(|e| e.to_string())?;
    ensure_eq!(s.got, want, "{name}: serialized wires");
    ensure!(dr.ev.is_empty(), "{name}: serialization touched the driver");
    let mut s = vec![];
    GadgetExt::write(&g, &mut dr, &mut s).map_err(|e| e.to_string())?;
    ensure_eq!(s.iter().map(|e| *e.wire()).collect::<Vec<_>>(), want, "{name}: serialized wires through the gadget");
    if !want.is_empty() {
        let k = c.rng.below(want.len());
        let mut s = Sink { got: vec![], fail: Some(k) };
        ensure!(K::write_gadget(&g, &mut dr, &mut s).is_err(), "{name}: serialization swallowed an error");
        ensure_eq!(s.got, want[..k].to_vec(), "{name}: wires written before the fault");
        c.event("write faults surfaced", 1);
    }
    c.event("wires serialized", want.len() as u64);
    c.seen(&("write", name, want.len(), c.idx));
    Ok(())
}
/// Consistency checking recurses into exactly the gadget fields.
pub fn shape_consistent<K: Checked>(c: &mut Case, name: &str) -> Res
where
    Bound<'static, A, K>: Consistent<'static, A>,
{
    let g = fresh::<K>(c);
    let mut want = vec![];
    K::checked::<A>(&g, &mut want);
    let mut dr = A::new();
    g.enforce_consistent(&mut dr).map_err(|e| e.to_string())?;
    let mut got = vec![];
    for e in &dr.ev {
        match e {
            Ev::Zero(t) if t.len() == 1 => got.push(t[0].0),
            e => return Err(format!("{name}: consistency check emitted {e:?}")),
        }
    }
    ensure_eq!(got, want, "{name}: wires checked");
    if !want.is_empty() {
        let k = c.rng.below(want.len());
        let mut dr = A::new();
        dr.fail_after = Some(k);
        ensure!(g.enforce_consistent(&mut dr).is_err(), "{name}: consistency check swallowed an error");
        ensure_eq!(dr.n_zero, k, "{name}: constraints before the fault");
    }
    c.event("consistency checks", want.len() as u64);
    c.seen(&("consistent", name, want.len(), c.idx));
    Ok(())
}
