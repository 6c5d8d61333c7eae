//! Buffers, pipes, fixed vectors, promotion and sendable wrappers.
use ff::Field;
use ragu_core::drivers::emulator::{Emulator, Wireless};
use ragu_core::drivers::{Driver, DriverValue};
use ragu_core::gadgets::{Bound, Gadget, GadgetKind, Kind};
use ragu_core::maybe::{Always, Maybe, MaybeKind};
use ragu_core::{Error, Result};
use ragu_primitives::consistent::Consistent;
use ragu_primitives::io::{Buffer, Pipe, Write};
use ragu_primitives::promotion::{Demoted, DemotedKind, Promotion};
use ragu_primitives::vec::{CollectFixed, ConstLen, FixedVec, Len};
use ragu_primitives::{Boolean, Element, GadgetExt, Sendable};
use rec::{Ev, Rec, W};
use shapes::*;
use std::marker::PhantomData;
use std::sync::Arc;
use vh::*;

macro_rules! ok {
    ($e:expr) => {
        $e.map_err(|e| e.to_string())
    };
}

// ------------------------------------------------------------------ vectors
/// A length computed by code rather than by a constant parameter.
struct Tri<const N: usize>;
impl<const N: usize> Len for Tri<N> {
    fn len() -> usize {
        N * (N + 1) / 2
    }
}
struct Sum<A, B>(PhantomData<(A, B)>);
impl<A: Len, B: Len> Len for Sum<A, B> {
    fn len() -> usize {
        A::len() + B::len()
    }
}

fn mismatch<T>(r: Result<T>, want: usize, got: usize, what: &str) -> Res {
    match r {
        Err(Error::VectorLengthMismatch { expected, actual }) if (expected, actual) == (want, got) => Ok(()),
        Err(e) => Err(format!("{what} of {got} items into length {want}: unexpected error {e:?}")),
        Ok(_) => Err(format!("{what} of {got} items into length {want} succeeded")),
    }
}

fn fixed<L: Len>(c: &mut Case, n: usize) -> Res {
    let items: Vec<Arc<u64>> = (0..n).map(|_| Arc::new(c.rng.u64())).collect();
    let same = |v: &[Arc<u64>], what: &str| -> Res {
        ensure!(v.len() == n && v.iter().zip(&items).all(|(a, b)| Arc::ptr_eq(a, b)), "{what} (length {n}): contents are not what was put in");
        Ok(())
    };
    ensure_eq!(L::range().collect::<Vec<_>>(), (0..n).collect::<Vec<_>>(), "range");
    ensure_eq!(ok!(FixedVec::<_, L>::new(items.clone()))?.into_inner().len(), n, "length");
    let builds: Vec<(&str, Result<FixedVec<Arc<u64>, L>>)> = vec![
        ("new", FixedVec::new(items.clone())),
        ("try_from", FixedVec::try_from(items.clone())),
        ("new from a vector with spare capacity", {
            let mut v = Vec::with_capacity(n * 3 + 5);
            v.extend(items.iter().cloned());
            FixedVec::new(v)
        }),
        ("collect_fixed", items.iter().cloned().collect_fixed()),
        ("collect_fixed without size hint", items.iter().cloned().filter(|_| true).collect_fixed()),
        ("try_collect_fixed", items.iter().cloned().map(Ok).try_collect_fixed()),
        ("from_fn", {
            let mut k = 0;
            let v = FixedVec::from_fn(|i| {
                assert_eq!(i, k);
                k += 1;
                items[i].clone()
            });
            ensure_eq!(k, n, "from_fn calls");
            Ok(v)
        }),
        ("try_from_fn", {
            let mut k = 0;
            let v = FixedVec::try_from_fn(|i| {
                assert_eq!(i, k);
                k += 1;
                Ok(items[i].clone())
            });
            ensure_eq!(k, n, "try_from_fn calls");
            v
        }),
    ];
    for (what, b) in builds {
        let mut b = ok!(b)?;
        same(&b, what)?;
        same(&b.clone(), what)?;
        same(&b.clone().into_inner(), what)?;
        same(&b.clone().into_iter().collect::<Vec<_>>(), what)?;
        let back: Vec<_> = b.clone().into_iter().rev().collect();
        ensure!(back.iter().rev().zip(&items).all(|(a, b)| Arc::ptr_eq(a, b)) && back.len() == n, "{what}: reversed iteration");
        ensure_eq!(b.clone().into_iter().len(), n, "{what}: exact size");
        if n >= 2 {
            let (i, j) = (c.rng.below(n), c.rng.below(n));
            b.swap(i, j);
            ensure!(Arc::ptr_eq(&b[i], &items[j]) && Arc::ptr_eq(&b[j], &items[i]), "{what}: in-place update");
            ensure_eq!(b.len(), n, "{what}: length after update");
            let k = b.clone();
            ensure!(k.iter().zip(b.iter()).all(|(a, b)| Arc::ptr_eq(a, b)), "{what}: clone after update");
        }
    }
    ensure!(items.iter().all(|x| Arc::strong_count(x) == 1), "items leaked or duplicated");
    // lengths that do not match are refused, whatever the route
    for m in [0, n.saturating_sub(1), n + 1, 2 * n, n + 7, n / 2, c.rng.below(3 * n + 3)] {
        if m == n {
            continue;
        }
        let v: Vec<Arc<u64>> = (0..m).map(|i| Arc::new(i as u64)).collect();
        mismatch(FixedVec::<_, L>::new(v.clone()), n, m, "new")?;
        mismatch(FixedVec::<_, L>::try_from(v.clone()), n, m, "try_from")?;
        mismatch(v.iter().cloned().collect_fixed::<L>(), n, m, "collect_fixed")?;
        mismatch(v.iter().cloned().map(Ok).try_collect_fixed::<_, L>(), n, m, "try_collect_fixed")?;
        ensure!(v.iter().all(|x| Arc::strong_count(x) == 1), "items leaked by a refused construction");
        c.event("mismatched lengths refused", 4);
    }
    // the first error wins and stops the iteration
    let m = c.rng.below(2 * n + 2);
    let (k, k2) = (c.rng.below(m + 1), c.rng.below(m + 1));
    let mut pulled = 0;
    let r: Result<FixedVec<usize, L>> = (0..m + 1)
        .map(|i| {
            pulled += 1;
            if i == k || i == k2 { Err(Error::InvalidWitness(format!("at {i}").into())) } else { Ok(i) }
        })
        .try_collect_fixed();
    let first = k.min(k2);
    ensure!(matches!(&r, Err(Error::InvalidWitness(e)) if e.to_string() == format!("at {first}")), "error from the iterator lost");
    ensure_eq!(pulled, first + 1, "items pulled after an error");
    if n > 0 {
        let k = c.rng.below(n);
        let mut calls = 0;
        let r: Result<FixedVec<usize, L>> = FixedVec::try_from_fn(|i| {
            calls += 1;
            if i == k { Err(Error::InvalidWitness("stop".into())) } else { Ok(i) }
        });
        ensure!(matches!(r, Err(Error::InvalidWitness(_))), "error from try_from_fn lost");
        ensure_eq!(calls, k + 1, "calls after an error");
    }
    c.event("vectors built", 8);
    c.event("items carried", 8 * n as u64);
    c.seen(&("vec", n, items.first().map(|x| **x)));
    c.sample("vector", || format!("length {n}, contents {:?}", items.iter().take(3).collect::<Vec<_>>()));
    Ok(())
}

// ------------------------------------------------------------------ promotion
/// Two wires, a nested leaf and a witness.
#[derive(Gadget)]
pub struct Tag<'dr, D: Driver<'dr>> {
    #[ragu(wire)]
    a: D::Wire,
    #[ragu(value)]
    v: DriverValue<D, u64>,
    #[ragu(gadget)]
    g: La<'dr, D>,
    #[ragu(wire)]
    b: D::Wire,
}
type TagK = Kind![F; @Tag<'_, _>];
impl Shape for TagK {
    fn wires() -> usize {
        3
    }
    fn build<'dr, D: Driver<'dr, F = F>>(f: &mut Feed<'_, 'dr, D>) -> Bound<'dr, D, Self> {
        Tag { a: f.w(), v: f.v(), g: LaK::build(f), b: f.w() }
    }
    fn read<'dr, D: Driver<'dr, F = F>>(g: &Bound<'dr, D, Self>, w: &mut Vec<D::Wire>, v: &mut Vec<DriverValue<D, u64>>) {
        w.push(g.a.clone());
        v.push(bk::<D, u64>(&g.v));
        LaK::read::<D>(&g.g, w, v);
        w.push(g.b.clone());
    }
}
impl Written for TagK {
    fn written<'dr, D: Driver<'dr, F = F>>(g: &Bound<'dr, D, Self>, w: &mut Vec<D::Wire>) {
        w.extend([g.b.clone(), g.g.w.clone(), g.a.clone()]);
    }
}
impl Write<F> for TagK {
    fn write_gadget<'dr, D: Driver<'dr, F = F>, B: Buffer<'dr, D>>(this: &Bound<'dr, D, Self>, dr: &mut D, buf: &mut B) -> Result<()> {
        buf.write(dr, &Element::promote(this.b.clone(), D::just(|| F::ONE)))?;
        this.g.write(dr, buf)?;
        buf.write(dr, &Element::promote(this.a.clone(), D::just(|| F::ONE)))
    }
}
impl Promotion<F> for TagK {
    type Value = (u64, u64);
    fn promote<'dr, D: Driver<'dr, F = F>>(d: &Demoted<'dr, D, Bound<'dr, D, Self>>, w: DriverValue<D, (u64, u64)>) -> Bound<'dr, D, Self> {
        Tag { a: d.a.clone(), v: D::just(|| w.as_ref().take().0), g: La { w: d.g.w.clone(), v: D::just(|| w.as_ref().take().1) }, b: d.b.clone() }
    }
}
fn promotion(c: &mut Case) -> Res {
    let base = c.rng.below(500) as u32;
    let (mut n, mut log) = (0, vec![]);
    let g = TagK::build::<A>(&mut Feed {
        wire: &mut || {
            n += 1;
            W::X(base + n)
        },
        val: &mut || 9,
        log: &mut log,
    });
    let given = [W::X(base + 1), W::X(base + 2), W::X(base + 3)];
    let read = |g: &Bound<'_, A, TagK>| {
        let (mut w, mut v) = (vec![], vec![]);
        TagK::read::<A>(g, &mut w, &mut v);
        (w, v.into_iter().map(|x| x.take()).collect::<Vec<u64>>())
    };
    let d = ok!(g.demote())?;
    ensure_eq!([d.a, d.g.w, d.b], given, "wires of a demoted gadget");
    let d = if c.rng.bool() { d.clone() } else { d };
    for _ in 0..3 {
        let (x, y) = (c.rng.u64(), c.rng.u64());
        let p = d.promote(Always::maybe_just(|| (x, y)));
        ensure_eq!(read(&p), (given.to_vec(), vec![x, y]), "re-attached witness");
        // another round trip keeps the wires
        let q = ok!(p.demote())?.promote(Always::maybe_just(|| (y, x)));
        ensure_eq!(read(&q), (given.to_vec(), vec![y, x]), "twice re-attached witness");
    }
    ensure_eq!(read(&g).0, given.to_vec(), "source after demotion");
    // Booleans, over a driver that tracks values and one that has none
    let bit = c.rng.bool();
    let mut dr = A::new();
    let b = ok!(Boolean::alloc(&mut dr, Always::maybe_just(|| bit)))?;
    let before = dr.ev.clone();
    let d = ok!(b.demote())?;
    for v in [false, true] {
        let p = d.promote(Always::maybe_just(|| v));
        ensure_eq!(p.wire(), b.wire(), "wire of a re-attached Boolean");
        ensure_eq!(p.value().take(), v, "value of a re-attached Boolean");
    }
    ensure_eq!(dr.ev, before, "stripping or re-attaching emitted constraints");
    let mut dr = E::new();
    let b = ok!(Boolean::alloc(&mut dr, E::just(|| bit)))?;
    let p = ok!(b.demote())?.promote(E::just(|| !bit));
    ensure_eq!(p.wire(), b.wire(), "wire of a re-attached Boolean without witness");
    c.event("witnesses re-attached", 9);
    c.seen(&("promote", base, bit));
    Ok(())
}

// ------------------------------------------------------------------ pipes and buffers
fn elements(c: &mut Case, dr: &mut A, n: usize) -> std::result::Result<Vec<Element<'static, A>>, String> {
    let mut out: Vec<Element<'static, A>> = vec![];
    for i in 0..n {
        let e = match c.rng.below(5) {
            0 if i > 0 => out[c.rng.below(i)].clone(),
            1 if i > 1 => out[i - 1].add(dr, &out[i - 2]),
            2 => Element::one(),
            3 => Element::constant(dr, c.rng.field()),
            _ => {
                let v = c.rng.field();
                ok!(Element::alloc(dr, Always::maybe_just(|| v)))?
            }
        };
        out.push(e);
    }
    Ok(out)
}
type P<'a> = Emulator<Wireless<Always<()>, F>>;

fn pipes(c: &mut Case) -> Res {
    let n = *c.pick(&[0, 1, 2, 3, 5, 17, 64]);
    let mut src = A::new();
    let es = elements(c, &mut src, n)?;
    let want: Vec<F> = es.iter().map(|e| *e.value().take()).collect();
    let before = src.ev.clone();
    // plain buffers keep the very same elements
    let mut v: Vec<Element<'static, A>> = vec![];
    let mut count = c.rng.below(5);
    let start = count;
    for e in &es {
        ok!(v.write(&mut src, e))?;
        ok!((&mut count).write(&mut src, e))?;
        ok!(Buffer::write(&mut (), &mut src, e))?;
    }
    ensure_eq!(v.iter().map(|e| (*e.wire(), *e.value().take())).collect::<Vec<_>>(), es.iter().map(|e| (*e.wire(), *e.value().take())).collect::<Vec<_>>(), "buffered elements");
    ensure_eq!(count - start, n, "counted elements");
    ensure_eq!(src.ev, before, "buffering touched the driver");
    // one pipe: a fresh allocation per element, same values, same order
    let mut dst = A::new();
    let pre = c.rng.below(4);
    for _ in 0..pre {
        ok!(Element::alloc(&mut dst, Always::maybe_just(|| F::ONE)))?;
    }
    let mut out: Vec<Element<'static, A>> = vec![];
    {
        let mut p = Pipe::new(&mut dst, &mut out);
        for e in &es {
            ok!(p.write(&mut src, e))?;
        }
    }
    ensure_eq!(out.len(), n, "piped elements");
    ensure_eq!(out.iter().map(|e| *e.value().take()).collect::<Vec<F>>(), want, "piped values");
    let mut wires: Vec<W> = out.iter().map(|e| *e.wire()).collect();
    for (e, v) in out.iter().zip(&want) {
        ensure_eq!(dst.val(e.wire()), *v, "assignment of a piped wire");
    }
    wires.sort();
    wires.dedup();
    ensure_eq!(wires.len(), n, "piped elements share wires");
    ensure_eq!(src.ev, before, "piping touched the source driver");
    // the destination sees exactly the allocations the values themselves would cause
    let mut plain = A::new();
    for _ in 0..pre {
        ok!(Element::alloc(&mut plain, Always::maybe_just(|| F::ONE)))?;
    }
    for v in &want {
        ok!(Element::alloc(&mut plain, Always::maybe_just(|| *v)))?;
    }
    ensure_eq!(dst.ev, plain.ev, "events of piping");
    // two pipes in a row, ending in an emulator
    let (mut mid, mut em) = (A::new(), P::execute());
    let mut out: Vec<Element<'_, P<'_>>> = vec![];
    {
        let mut p = Pipe::new(&mut em, &mut out);
        let mut p = Pipe::new(&mut mid, &mut p);
        for e in &es {
            ok!(p.write(&mut src, e))?;
        }
    }
    ensure_eq!(out.iter().map(|e| *e.value().take()).collect::<Vec<F>>(), want, "twice piped values");
    ensure_eq!(mid.ev, {
        let mut plain = A::new();
        for v in &want {
            ok!(Element::alloc(&mut plain, Always::maybe_just(|| *v)))?;
        }
        plain.ev
    }, "events of the middle of a pipe");
    // towards a driver without witnesses
    let mut dst = E::new();
    let mut k = 0usize;
    {
        let mut absent = E::new();
        let es: Vec<Element<'_, E>> = (0..n).map(|_| Element::promote(W::X(3), E::just(|| F::ONE))).collect();
        let mut p = Pipe::new(&mut dst, &mut k);
        for e in &es {
            ok!(p.write(&mut absent, e))?;
        }
        ensure!(absent.ev.is_empty(), "piping touched the source driver");
    }
    ensure_eq!(k, n, "elements piped without witnesses");
    ensure_eq!(dst.ev, {
        let mut e = E::new();
        for _ in 0..n {
            ok!(Element::alloc(&mut e, E::just(|| F::ONE)))?;
        }
        e.ev
    }, "events of piping without witnesses");
    // a failing destination is reported
    if n > 0 {
        let mut dst = A::new();
        let f = c.rng.below(n);
        dst.fail_after = Some(f);
        let mut out: Vec<Element<'static, A>> = vec![];
        let mut p = Pipe::new(&mut dst, &mut out);
        let r = es.iter().try_for_each(|e| p.write(&mut src, e));
        ensure!(r.is_err(), "piping swallowed a driver error");
        ensure!(out.len() < n && out.iter().zip(&want).all(|(e, v)| *e.value().take() == *v), "wrong elements delivered before the driver error");
    }
    c.event("elements piped", 4 * n as u64);
    c.seen(&("pipe", n, hash64(&format!("{want:?}"))));
    c.sample("pipe", || format!("{n} elements {want:?}"));
    Ok(())
}

// ------------------------------------------------------------------ sendable
fn sendable(c: &mut Case) -> Res {
    let n = c.rng.below(6);
    let mut dr = A::new();
    let es = elements(c, &mut dr, 4 * n.max(1))?;
    let ids: Vec<(W, F)> = es.iter().map(|e| (*e.wire(), *e.value().take())).collect();
    let read = |g: &FixedVec<Element<'static, A>, ConstLen<4>>| g.iter().map(|e| (*e.wire(), *e.value().take())).collect::<Vec<_>>();
    let packs: Vec<FixedVec<Element<'static, A>, ConstLen<4>>> = es.chunks(4).map(|k| FixedVec::new(k.to_vec()).unwrap()).collect();
    let sent: Vec<Sendable<_>> = packs.iter().cloned().map(|g| if c.rng.bool() { g.sendable() } else { Sendable::new::<A>(g) }).collect();
    for (s, k) in sent.iter().zip(ids.chunks(4)) {
        ensure_eq!(read(s), k, "through the wrapper");
        ensure_eq!(read(&s.clone()), k, "through a copy of the wrapper");
    }
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::scope(|sc| {
        for (i, s) in sent.into_iter().enumerate() {
            let tx = tx.clone();
            sc.spawn(move || {
                let t = s.clone();
                tx.send((i, read(&s), s.into_inner().sendable(), t)).unwrap();
            });
        }
    });
    drop(tx);
    let mut got = 0;
    for (i, seen, s, t) in rx {
        let k = &ids[4 * i..4 * i + 4];
        ensure_eq!(seen, k, "as seen by the other thread");
        ensure_eq!(read(&s.into_inner()), k, "after coming back");
        ensure_eq!(read(&t), k, "copy made by the other thread");
        got += 1;
    }
    ensure_eq!(got, packs.len(), "wrappers that came back");
    c.event("gadgets moved across threads", got as u64);
    c.seen(&("send", hash64(&format!("{ids:?}"))));
    Ok(())
}

// ------------------------------------------------------------------ nestings
type V<K, const N: usize> = FixedVec<PhantomData<K>, ConstLen<N>>;
type Vt<K, const N: usize> = FixedVec<PhantomData<K>, Tri<N>>;
type Pr<A, B> = (PhantomData<A>, PhantomData<B>);
type Bx<K> = PhantomData<Box<K>>;
type Ar<K, const N: usize> = [PhantomData<K>; N];

macro_rules! kinds {
    ($ctx:ident, $q:expr, $t:expr; $($k:ty),* $(,)?) => {$(
        $ctx.cases(concat!("conversion of ", stringify!($k)), $ctx.n($q, $t), |c| shape::<$k>(c, stringify!($k)));
        $ctx.cases(concat!("serialization of ", stringify!($k)), $ctx.n($q, $t), |c| shape_write::<$k>(c, stringify!($k)));
    )*};
}
macro_rules! consistent {
    ($ctx:ident, $q:expr, $t:expr; $($k:ty),* $(,)?) => {$(
        $ctx.cases(concat!("consistency of ", stringify!($k)), $ctx.n($q, $t), |c| shape_consistent::<$k>(c, stringify!($k)));
    )*};
}

fn p06(ctx: &Ctx) {
    ctx.rule("Vectors of 14 lengths (constant and computed) are built by every route from reference-counted items, with every kind of wrong length and mid-iteration error; gadgets are stripped, re-attached, converted, equated and serialized in ~25 nestings with faults injected at every depth; elements of every origin are piped between recording drivers (with and without witnesses, chained, failing); wrapped gadgets cross threads. Oracle: the identity of each item, wire and value put in. Non-trivial when contents are new.");
    let (q, t) = (200, 6000);
    macro_rules! lens {
        ($($l:ty => $n:expr),* $(,)?) => {$( ctx.cases(concat!("vector ", stringify!($l)), ctx.n(q, t), |c| fixed::<$l>(c, $n)); )*};
    }
    lens!(ConstLen<0> => 0, ConstLen<1> => 1, ConstLen<2> => 2, ConstLen<3> => 3, ConstLen<4> => 4, ConstLen<7> => 7, ConstLen<16> => 16, ConstLen<33> => 33, ConstLen<257> => 257,
        Tri<0> => 0, Tri<1> => 1, Tri<4> => 10, Sum<ConstLen<3>, Tri<3>> => 9, Sum<ConstLen<0>, Sum<Tri<2>, ConstLen<1>>> => 4);
    ctx.cases("promotion", ctx.n(3000, 100000), promotion);
    ctx.cases("pipes", ctx.n(6000, 200000), pipes);
    ctx.cases("threads", ctx.n(60, 3000), sendable);
    let (q, t) = (120, 4000);
    kinds!(ctx, q, t; LaK, LbK, TagK, (), V<LaK, 0>, V<LaK, 1>, V<LbK, 3>, V<TagK, 5>, Vt<LaK, 3>, Vt<V<LbK, 2>, 2>, V<V<V<LaK, 2>, 3>, 2>, V<Vt<TagK, 0>, 4>, V<Pr<LaK, TagK>, 3>, Pr<V<TagK, 2>, V<LaK, 3>>,
        Pr<LaK, V<Pr<LbK, ()>, 2>>, V<(), 5>, Ar<V<TagK, 2>, 3>, V<Ar<LaK, 2>, 3>, Bx<V<LbK, 2>>, V<Bx<TagK>, 2>, Pr<Bx<Ar<LbK, 2>>, V<Pr<(), TagK>, 2>>, Ar<Pr<LbK, LaK>, 4>, Pr<Pr<LaK, LbK>, Pr<TagK, LaK>>, Ar<LaK, 0>);
    macro_rules! demoted { ($($k:ty),* $(,)?) => {$(
        ctx.cases(concat!("conversion of demoted ", stringify!($k)), ctx.n(q, t), |c| shape::<DemotedKind<F, $k>>(c, concat!("demoted ", stringify!($k))));
    )*}; }
    demoted!(LaK, LbK, TagK, V<TagK, 3>, Pr<TagK, V<LbK, 2>>, Ar<TagK, 2>, Bx<TagK>, V<Pr<LaK, TagK>, 2>, DemotedKind<F, TagK>);
    kinds2(ctx, q, t);
    consistent!(ctx, q, t; LaK, LbK, (), V<LaK, 0>, V<LaK, 1>, V<LbK, 3>, Vt<LaK, 3>, V<V<LbK, 2>, 2>, V<Pr<LaK, LbK>, 3>, Pr<V<LbK, 2>, V<LaK, 3>>, Ar<V<LbK, 2>, 3>, Bx<V<LbK, 2>>, Pr<LbK, LaK>, Ar<Pr<LaK, ()>, 3>, Ar<LbK, 5>);
}
/// Vectors of demoted gadgets and the like.
fn kinds2(ctx: &Ctx, q: usize, t: usize) {
    macro_rules! conv { ($($k:ty),* $(,)?) => {$(
        ctx.cases(concat!("conversion of ", stringify!($k)), ctx.n(q, t), |c| shape::<$k>(c, stringify!($k)));
    )*}; }
    conv!(V<DemotedKind<F, TagK>, 2>, Pr<DemotedKind<F, LaK>, TagK>, Ar<DemotedKind<F, V<TagK, 2>>, 2>);
}

fn main() {
    vh::main(&[("P06", p06)])
}
