//! Gadget conversion: wire visiting order, images, witnesses, wire counts and
//! equality constraints for many nestings of gadget types.
use ragu_core::drivers::{Driver, DriverValue};
use ragu_core::gadgets::{Bound, Gadget, GadgetKind, Kind};
use ragu_core::maybe::{Always, Maybe, MaybeKind};
use shapes::{F, Feed, Shape, shape};
use std::marker::PhantomData;
use vh::*;



#[derive(Gadget)]
pub struct Leaf<'dr, D: Driver<'dr>> {
    #[ragu(wire)]
    w: D::Wire,
    #[ragu(value)]
    v: DriverValue<D, u64>,
}
#[derive(Gadget)]
pub struct OnlyWires<'dr, D: Driver<'dr>> {
    #[ragu(wire)]
    z: D::Wire,
    #[ragu(wire)]
    a: D::Wire,
    #[ragu(wire)]
    m: D::Wire,
}
#[derive(Gadget)]
pub struct OnlyValue<'dr, D: Driver<'dr>> {
    #[ragu(value)]
    v: DriverValue<D, u64>,
    #[ragu(phantom)]
    _p: PhantomData<&'dr ()>,
}
#[derive(Gadget)]
pub struct Mixed<'dr, #[ragu(driver)] Dx: Driver<'dr>> {
    #[ragu(value)]
    v1: DriverValue<Dx, u64>,
    #[ragu(gadget)]
    g1: Leaf<'dr, Dx>,
    #[ragu(wire)]
    w1: Dx::Wire,
    g2: [Leaf<'dr, Dx>; 2],
    #[ragu(phantom)]
    _p: PhantomData<u8>,
    #[ragu(wire)]
    w2: Dx::Wire,
    g3: (OnlyValue<'dr, Dx>, Box<OnlyWires<'dr, Dx>>),
    #[ragu(value)]
    v2: DriverValue<Dx, u64>,
}
#[derive(Gadget)]
pub struct Wrap<'dr, D: Driver<'dr>, K: GadgetKind<D::F>, const N: usize> {
    g: Bound<'dr, D, K>,
    #[ragu(wire)]
    w: D::Wire,
    h: [Bound<'dr, D, K>; N],
}

impl Shape for Kind![F; @Leaf<'_, _>] {
    fn wires() -> usize {
        1
    }
    fn build<'dr, D: Driver<'dr, F = F>>(f: &mut Feed<'_, 'dr, D>) -> Bound<'dr, D, Self> {
        Leaf { w: f.w(), v: f.v() }
    }
    fn read<'dr, D: Driver<'dr, F = F>>(g: &Bound<'dr, D, Self>, w: &mut Vec<D::Wire>, v: &mut Vec<DriverValue<D, u64>>) {
        w.push(g.w.clone());
        v.push(Maybe::clone(&g.v));
    }
}
impl Shape for Kind![F; @OnlyWires<'_, _>] {
    fn wires() -> usize {
        3
    }
    fn build<'dr, D: Driver<'dr, F = F>>(f: &mut Feed<'_, 'dr, D>) -> Bound<'dr, D, Self> {
        OnlyWires { z: f.w(), a: f.w(), m: f.w() }
    }
    fn read<'dr, D: Driver<'dr, F = F>>(g: &Bound<'dr, D, Self>, w: &mut Vec<D::Wire>, _: &mut Vec<DriverValue<D, u64>>) {
        w.extend([g.z.clone(), g.a.clone(), g.m.clone()]);
    }
}
impl Shape for Kind![F; @OnlyValue<'_, _>] {
    fn wires() -> usize {
        0
    }
    fn build<'dr, D: Driver<'dr, F = F>>(f: &mut Feed<'_, 'dr, D>) -> Bound<'dr, D, Self> {
        OnlyValue { v: f.v(), _p: PhantomData }
    }
    fn read<'dr, D: Driver<'dr, F = F>>(g: &Bound<'dr, D, Self>, _: &mut Vec<D::Wire>, v: &mut Vec<DriverValue<D, u64>>) {
        v.push(Maybe::clone(&g.v));
    }
}
type LeafK = Kind![F; Leaf<'_, _>];
impl Shape for Kind![F; @Mixed<'_, _>] {
    fn wires() -> usize {
        8
    }
    fn build<'dr, D: Driver<'dr, F = F>>(f: &mut Feed<'_, 'dr, D>) -> Bound<'dr, D, Self> {
        Mixed {
            v1: f.v(),
            g1: LeafK::build(f),
            w1: f.w(),
            g2: [LeafK::build(f), LeafK::build(f)],
            _p: PhantomData,
            w2: f.w(),
            g3: (<Kind![F; OnlyValue<'_, _>]>::build(f), Box::new(<Kind![F; OnlyWires<'_, _>]>::build(f))),
            v2: f.v(),
        }
    }
    fn read<'dr, D: Driver<'dr, F = F>>(g: &Bound<'dr, D, Self>, w: &mut Vec<D::Wire>, v: &mut Vec<DriverValue<D, u64>>) {
        v.push(Maybe::clone(&g.v1));
        LeafK::read(&g.g1, w, v);
        w.push(g.w1.clone());
        LeafK::read(&g.g2[0], w, v);
        LeafK::read(&g.g2[1], w, v);
        w.push(g.w2.clone());
        <Kind![F; OnlyValue<'_, _>]>::read(&g.g3.0, w, v);
        <Kind![F; OnlyWires<'_, _>]>::read(&g.g3.1, w, v);
        v.push(Maybe::clone(&g.v2));
    }
}
impl<K: Shape, const N: usize> Shape for Kind![F; @Wrap<'_, _, K, N>] {
    fn wires() -> usize {
        K::wires() * (N + 1) + 1
    }
    fn build<'dr, D: Driver<'dr, F = F>>(f: &mut Feed<'_, 'dr, D>) -> Bound<'dr, D, Self> {
        Wrap { g: K::build(f), w: f.w(), h: std::array::from_fn(|_| K::build(f)) }
    }
    fn read<'dr, D: Driver<'dr, F = F>>(g: &Bound<'dr, D, Self>, w: &mut Vec<D::Wire>, v: &mut Vec<DriverValue<D, u64>>) {
        K::read(&g.g, w, v);
        w.push(g.w.clone());
        g.h.iter().for_each(|x| K::read(x, w, v));
    }
}
macro_rules! shapes {
    ($ctx:expr, $n:expr; $($t:ty),* $(,)?) => { $( $ctx.cases(stringify!($t), $n, |c| shape::<$t>(c, stringify!($t))); )* };
}
type L = LeafK;
type OW = Kind![F; OnlyWires<'_, _>];
type OV = Kind![F; OnlyValue<'_, _>];
type MX = Kind![F; Mixed<'_, _>];
type P<X, Y> = (PhantomData<X>, PhantomData<Y>);
type Ar<X, const N: usize> = [PhantomData<X>; N];
type Bx<X> = PhantomData<Box<X>>;
type Wp<K, const N: usize> = Kind![F; Wrap<'_, _, K, N>];

pub fn run(ctx: &Ctx) {
    ctx.rule("A fixed list of gadget type nestings (derived structs with every field kind, generic derived wrappers, pairs, arrays of length 0..17, boxes, unit), each instantiated with random wires (aliased or not) and witnesses; non-trivial when type and contents are new.");
    let n = ctx.n(300, 2000);
    shapes!(ctx, n; (), L, OW, OV, MX, P<L, L>, P<(), L>, P<L, ()>, P<(), ()>, P<OV, OW>, P<P<L, OW>, L>, P<L, P<OW, L>>, P<P<L, L>, P<OW, OW>>,
        Ar<L, 0>, Ar<L, 1>, Ar<L, 2>, Ar<L, 3>, Ar<OW, 5>, Ar<L, 17>, Ar<(), 4>, Ar<OV, 3>, Ar<Ar<L, 3>, 2>, Ar<Ar<L, 2>, 3>, Ar<P<L, OW>, 3>, Ar<Ar<Ar<OW, 2>, 2>, 2>,
        Bx<L>, Bx<()>, Bx<Bx<OW>>, Bx<P<L, OW>>, P<Bx<L>, Bx<OW>>, Ar<Bx<MX>, 2>, Bx<Ar<MX, 3>>, P<MX, MX>, P<MX, Ar<MX, 2>>,
        Wp<L, 0>, Wp<L, 1>, Wp<L, 4>, Wp<OW, 2>, Wp<MX, 1>, Wp<(), 3>, Wp<Wp<L, 1>, 2>, Wp<Wp<P<L, OW>, 0>, 1>, Wp<Ar<Bx<L>, 2>, 2>, P<Wp<L, 2>, Wp<OW, 1>>, Ar<Wp<OV, 2>, 2>, Bx<Wp<Bx<MX>, 1>>);
    let _ = <Always<()> as MaybeKind>::maybe_just(|| ());
}
