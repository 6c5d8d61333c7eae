//! Assembling, converting and reading back gadgets of any shape.
use ff::Field;
use ragu_core::convert::{CloneWires, StripWires, WireMap};
use ragu_core::drivers::emulator::{Emulator, Wired};
use ragu_core::drivers::{Driver, DriverTypes, DriverValue};
use ragu_core::gadgets::{Bound, Gadget, GadgetKind};
use ragu_core::maybe::{Always, Empty, Maybe};
use ragu_core::{Error, Result};
use rec::{Ev, Rec, W};
use std::marker::PhantomData;
use vh::small::F97;
use vh::*;

#[cfg(feature = "io")]
mod io;
#[cfg(feature = "io")]
pub use io::*;
pub type F = F97;

/// Witness types made from, and identified by, integers.
pub trait Val: Send + Sync + Clone + 'static {
    fn make(x: u64) -> Self;
    fn back(&self) -> u64;
}
impl Val for u64 {
    fn make(x: u64) -> Self {
        x
    }
    fn back(&self) -> u64 {
        *self
    }
}
impl Val for String {
    fn make(x: u64) -> Self {
        format!("{x}")
    }
    fn back(&self) -> u64 {
        self.parse().unwrap()
    }
}
impl Val for (u64, bool) {
    fn make(x: u64) -> Self {
        (x >> 1, x & 1 == 1)
    }
    fn back(&self) -> u64 {
        self.0 << 1 | self.1 as u64
    }
}
impl Val for F {
    fn make(x: u64) -> Self {
        F::from(x)
    }
    fn back(&self) -> u64 {
        let mut n = 0;
        let mut t = F::ZERO;
        while t != *self {
            t += F::ONE;
            n += 1;
        }
        n
    }
}
impl<T: Val> Val for Vec<T> {
    fn make(x: u64) -> Self {
        vec![T::make(x)]
    }
    fn back(&self) -> u64 {
        self[0].back()
    }
}
/// Identity of witness `x` read back.
pub fn bk<'dr, D: Driver<'dr, F = F>, T: Val>(x: &DriverValue<D, T>) -> DriverValue<D, u64> {
    D::just(|| x.as_ref().take().back())
}
/// Supplies wires and witness values in order while a gadget is assembled.
pub struct Feed<'a, 'dr, D: Driver<'dr>> {
    pub wire: &'a mut dyn FnMut() -> D::Wire,
    pub val: &'a mut dyn FnMut() -> u64,
    pub log: &'a mut Vec<u64>,
}
impl<'dr, D: Driver<'dr>> Feed<'_, 'dr, D> {
    pub fn w(&mut self) -> D::Wire {
        (self.wire)()
    }
    pub fn v<T: Val>(&mut self) -> DriverValue<D, T> {
        let x = T::make((self.val)());
        self.log.push(x.back());
        D::just(|| x)
    }
}
/// Gadgets that can be assembled and read back in declaration order.
pub trait Shape: GadgetKind<F> {
    /// How many wires each gadget holds.
    fn wires() -> usize;
    fn build<'dr, D: Driver<'dr, F = F>>(f: &mut Feed<'_, 'dr, D>) -> Bound<'dr, D, Self>;
    fn read<'dr, D: Driver<'dr, F = F>>(g: &Bound<'dr, D, Self>, w: &mut Vec<D::Wire>, v: &mut Vec<DriverValue<D, u64>>);
}
impl Shape for () {
    fn wires() -> usize {
        0
    }
    fn build<'dr, D: Driver<'dr, F = F>>(_: &mut Feed<'_, 'dr, D>) -> Bound<'dr, D, Self> {}
    fn read<'dr, D: Driver<'dr, F = F>>(_: &Bound<'dr, D, Self>, _: &mut Vec<D::Wire>, _: &mut Vec<DriverValue<D, u64>>) {}
}
impl<K: Shape, const N: usize> Shape for [PhantomData<K>; N] {
    fn wires() -> usize {
        K::wires() * N
    }
    fn build<'dr, D: Driver<'dr, F = F>>(f: &mut Feed<'_, 'dr, D>) -> Bound<'dr, D, Self> {
        std::array::from_fn(|_| K::build(f))
    }
    fn read<'dr, D: Driver<'dr, F = F>>(g: &Bound<'dr, D, Self>, w: &mut Vec<D::Wire>, v: &mut Vec<DriverValue<D, u64>>) {
        g.iter().for_each(|x| K::read(x, w, v));
    }
}
impl<A: Shape, B: Shape> Shape for (PhantomData<A>, PhantomData<B>) {
    fn wires() -> usize {
        A::wires() + B::wires()
    }
    fn build<'dr, D: Driver<'dr, F = F>>(f: &mut Feed<'_, 'dr, D>) -> Bound<'dr, D, Self> {
        let a = A::build(f);
        (a, B::build(f))
    }
    fn read<'dr, D: Driver<'dr, F = F>>(g: &Bound<'dr, D, Self>, w: &mut Vec<D::Wire>, v: &mut Vec<DriverValue<D, u64>>) {
        A::read(&g.0, w, v);
        B::read(&g.1, w, v);
    }
}
impl<K: Shape> Shape for PhantomData<Box<K>> {
    fn wires() -> usize {
        K::wires()
    }
    fn build<'dr, D: Driver<'dr, F = F>>(f: &mut Feed<'_, 'dr, D>) -> Bound<'dr, D, Self> {
        Box::new(K::build(f))
    }
    fn read<'dr, D: Driver<'dr, F = F>>(g: &Bound<'dr, D, Self>, w: &mut Vec<D::Wire>, v: &mut Vec<DriverValue<D, u64>>) {
        K::read(g, w, v);
    }
}

/// A leaf that is written as its wire and checked by constraining it.
#[derive(Gadget)]
pub struct La<'dr, D: Driver<'dr>> {
    #[ragu(wire)]
    pub w: D::Wire,
    #[ragu(value)]
    pub v: DriverValue<D, u64>,
}
/// A leaf written (and checked) second wire first.
#[derive(Gadget)]
pub struct Lb<'dr, D: Driver<'dr>> {
    #[ragu(wire)]
    pub a: D::Wire,
    #[ragu(wire)]
    pub b: D::Wire,
}
pub type LaK = La<'static, PhantomData<F>>;
pub type LbK = Lb<'static, PhantomData<F>>;
impl Shape for LaK {
    fn wires() -> usize {
        1
    }
    fn build<'dr, D: Driver<'dr, F = F>>(f: &mut Feed<'_, 'dr, D>) -> Bound<'dr, D, Self> {
        La { w: f.w(), v: f.v() }
    }
    fn read<'dr, D: Driver<'dr, F = F>>(g: &Bound<'dr, D, Self>, w: &mut Vec<D::Wire>, v: &mut Vec<DriverValue<D, u64>>) {
        w.push(g.w.clone());
        v.push(bk::<D, u64>(&g.v));
    }
}
impl Shape for LbK {
    fn wires() -> usize {
        2
    }
    fn build<'dr, D: Driver<'dr, F = F>>(f: &mut Feed<'_, 'dr, D>) -> Bound<'dr, D, Self> {
        Lb { a: f.w(), b: f.w() }
    }
    fn read<'dr, D: Driver<'dr, F = F>>(g: &Bound<'dr, D, Self>, w: &mut Vec<D::Wire>, _: &mut Vec<DriverValue<D, u64>>) {
        w.extend([g.a.clone(), g.b.clone()]);
    }
}

pub type A = Rec<F, Always<()>>;
pub type E = Rec<F, Empty>;

/// Logs what is visited and renames; optionally fails at the k-th wire.
struct Rename<Src: DriverTypes, Dst> {
    seen: Vec<W>,
    fail: Option<usize>,
    off: u32,
    _m: PhantomData<(Src, Dst)>,
}
impl<Src: DriverTypes<ImplField = F, ImplWire = W>, Dst: DriverTypes<ImplField = F, ImplWire = W>> WireMap<F> for Rename<Src, Dst> {
    type Src = Src;
    type Dst = Dst;
    fn convert_wire(&mut self, w: &W) -> Result<W> {
        if self.fail == Some(self.seen.len()) {
            return Err(Error::InvalidWitness("injected".into()));
        }
        self.seen.push(*w);
        match w {
            W::X(i) => Ok(W::X(i * 2 + self.off)),
            _ => Ok(*w),
        }
    }
}
/// Maps wires to field values.
struct ToField;
impl WireMap<F> for ToField {
    type Src = A;
    type Dst = Emulator<Wired<F>>;
    fn convert_wire(&mut self, w: &W) -> Result<F> {
        match w {
            W::X(i) => Ok(F::from(*i as u64 * 5 + 2)),
            _ => Err(Error::InvalidWitness("unexpected wire".into())),
        }
    }
}
/// Absent-witness images.
struct ToAbsent;
impl WireMap<F> for ToAbsent {
    type Src = A;
    type Dst = E;
    fn convert_wire(&mut self, w: &W) -> Result<W> {
        Ok(*w)
    }
}

pub fn shape<K: Shape>(c: &mut Case, name: &str) -> Res {
    let base = c.rng.below(1000) as u32;
    let vbase = c.rng.u64();
    // wires may repeat: aliasing must not confuse anything
    let alias = c.rng.chance(1, 4);
    let (mut nw, mut nv) = (0u32, 0u64);
    let (mut given, mut vals) = (vec![], vec![]);
    let g = K::build::<A>(&mut Feed {
        wire: &mut || {
            nw += 1;
            let w = W::X(base + if alias { nw / 2 } else { nw });
            given.push(w);
            w
        },
        val: &mut || {
            nv += 1;
            vbase.wrapping_add(nv)
        },
        log: &mut vals,
    });
    let n = given.len();
    ensure_eq!(n, K::wires(), "harness: wires of {name}");
    let check = |g: &Bound<'_, A, K>, want: &[W], what: &str| -> Res {
        let (mut w, mut v) = (vec![], vec![]);
        K::read::<A>(g, &mut w, &mut v);
        ensure_eq!(w.as_slice(), want, "{name}: wires after {what}");
        let v: Vec<u64> = v.into_iter().map(|x| x.take()).collect();
        ensure_eq!(v, vals, "{name}: witnesses after {what}");
        Ok(())
    };
    check(&g, &given, "building")?;
    check(&g.clone(), &given, "cloning")?;
    ensure_eq!(g.num_wires().map_err(|e| e.to_string())?, n, "{name}: reported wire count");

    // renaming conversion
    let off = c.rng.below(50) as u32;
    let mut m = Rename::<A, A> { seen: vec![], fail: None, off, _m: PhantomData };
    let h = g.map(&mut m).map_err(|e| e.to_string())?;
    ensure_eq!(m.seen, given, "{name}: visiting order");
    let image: Vec<W> = given
        .iter()
        .map(|w| match w {
            W::X(i) => W::X(i * 2 + off),
            w => *w,
        })
        .collect();
    check(&h, &image, "conversion")?;
    // the kind's own entry point and a second pass visit the same way
    let mut m = Rename::<A, A> { seen: vec![], fail: None, off, _m: PhantomData };
    let h2 = K::map_gadget(&g, &mut m).map_err(|e| e.to_string())?;
    ensure_eq!(m.seen, given, "{name}: visiting order through the kind");
    check(&h2, &image, "conversion through the kind")?;
    // faults in the middle surface at once
    if n > 0 {
        let k = c.rng.below(n);
        let mut m = Rename::<A, A> { seen: vec![], fail: Some(k), off, _m: PhantomData };
        ensure!(g.map(&mut m).is_err(), "{name}: failing conversion reported success");
        ensure_eq!(m.seen, given[..k].to_vec(), "{name}: wires visited before the fault");
        c.event("faults surfaced", 1);
    }
    // dropping witnesses
    let a = g.map(&mut ToAbsent).map_err(|e| e.to_string())?;
    let (mut w, mut v) = (vec![], vec![]);
    K::read::<E>(&a, &mut w, &mut v);
    ensure_eq!(w, given, "{name}: wires after dropping witnesses");
    ensure_eq!(v.len(), vals.len(), "{name}: witness slots");
    let mut m = Rename::<E, E> { seen: vec![], fail: None, off, _m: PhantomData };
    a.map(&mut m).map_err(|e| e.to_string())?;
    ensure_eq!(m.seen, given, "{name}: visiting order without witnesses");
    ensure_eq!(a.num_wires().map_err(|e| e.to_string())?, n, "{name}: wire count without witnesses");
    // library-provided maps
    let s = StripWires::<A>::remap(&g).map_err(|e| e.to_string())?;
    let (mut w, mut v) = (vec![], vec![]);
    K::read::<Emulator<_>>(&s, &mut w, &mut v);
    ensure_eq!(w.len(), n, "{name}: stripped wires");
    ensure_eq!(v.into_iter().map(|x| x.take()).collect::<Vec<u64>>(), vals, "{name}: witnesses after stripping");
    let cl = CloneWires::<A, A>::remap(&g).map_err(|e| e.to_string())?;
    check(&cl, &given, "wire cloning")?;
    let ef = g.map(&mut ToField).map_err(|e| e.to_string())?;
    let want: Vec<F> = given
        .iter()
        .map(|w| match w {
            W::X(i) => F::from(*i as u64 * 5 + 2),
            _ => F::ZERO,
        })
        .collect();
    ensure_eq!(Emulator::extractor().wires(&ef).map_err(|e| e.to_string())?, want, "{name}: extracted wires");
    // equality constraints
    let mut dr = A::new();
    g.enforce_equal(&mut dr, &h).map_err(|e| e.to_string())?;
    let mut pairs: Vec<(W, W)> = vec![];
    for e in &dr.ev {
        match e {
            Ev::Zero(t) => {
                let t: Vec<_> = t.iter().filter(|(_, c)| *c != F::ZERO).collect();
                ensure!(t.len() == 2 && t[0].1 + t[1].1 == F::ZERO, "{name}: equality constraint is {t:?}");
                pairs.push((t[0].0.min(t[1].0), t[0].0.max(t[1].0)));
            }
            e => return Err(format!("{name}: equality emitted {e:?}")),
        }
    }
    let mut want: Vec<(W, W)> = given.iter().zip(&image).map(|(a, b)| (*a.min(b), *a.max(b))).collect();
    pairs.sort();
    want.sort();
    ensure_eq!(pairs, want, "{name}: equated wires");
    // faults inside equality
    if n > 0 {
        let k = c.rng.below(n);
        let mut dr = A::new();
        dr.fail_after = Some(k);
        ensure!(g.enforce_equal(&mut dr, &h).is_err(), "{name}: equality swallowed a driver error");
        ensure_eq!(dr.n_zero, k, "{name}: constraints before the driver error");
    }
    c.event("conversions", 8);
    c.event("wires visited", 5 * n as u64);
    c.seen(&(name, base, off, vbase, alias));
    c.sample("shape", || format!("{name}: {n} wires, {} witnesses", vals.len()));
    Ok(())
}

