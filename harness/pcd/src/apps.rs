//! Headers and steps the generated applications are built from, each with a
//! native model.
use crate::poseidon::{Duplex, Par};
use ff::Field;
use group::prime::PrimeCurveAffine;
use pasta_curves::{Ep, EpAffine, Fp};
use ragu_arithmetic::{CurveAffine, Cycle};
use ragu_core::{
    Error, Result,
    drivers::{Driver, DriverValue},
    gadgets::{Bound, Gadget, Kind},
    maybe::Maybe,
};
use ragu_pasta::Pasta;
use ragu_pcd::{
    header::{Header, Suffix},
    step::{Encoded, Index, Step},
};
use ragu_primitives::{
    Boolean, Element, GadgetExt, Point,
    poseidon::Sponge,
    vec::{ConstLen, FixedVec},
};
use vh::VRng;

/// Header data of any type, with the suffix it was declared under.
#[derive(Clone, Debug, PartialEq)]
pub enum Val {
    Unit,
    Num(usize, Fp),
    Two(usize, Fp, Fp),
    Flag(usize, bool),
    Curve(usize, EpAffine),
    Arr(usize, Vec<Fp>),
    Empty(usize),
}
impl Val {
    /// What the encoding must start with.
    pub fn elements(&self) -> Vec<Fp> {
        match self {
            Val::Unit | Val::Empty(_) => vec![],
            Val::Num(_, a) => vec![*a],
            Val::Two(_, a, b) => vec![*a, *b],
            Val::Flag(_, b) => vec![Fp::from(*b as u64)],
            Val::Curve(_, p) => {
                let c = p.coordinates().unwrap();
                vec![*c.x(), *c.y()]
            }
            Val::Arr(_, v) => v.clone(),
        }
    }
    pub fn suffix(&self) -> Fp {
        match self {
            Val::Unit => Fp::ONE,
            Val::Num(s, _) | Val::Two(s, _, _) | Val::Flag(s, _) | Val::Curve(s, _) | Val::Arr(s, _) | Val::Empty(s) => {
                Fp::from(*s as u64) + Fp::from(2)
            }
        }
    }
    /// The whole encoding; `None` when the header does not fit.
    pub fn encoding(&self, size: usize) -> Option<Vec<Fp>> {
        let mut e = self.elements();
        if e.len() + 1 > size {
            return None;
        }
        e.resize(size - 1, Fp::ZERO);
        e.push(self.suffix());
        Some(e)
    }
    pub fn trivial(&self) -> bool {
        *self == Val::Unit
    }
}
/// Headers whose data converts to and from [`Val`].
pub trait Hv: Header<Fp> {
    fn data(v: &Val) -> Option<Self::Data>;
    fn val(d: &Self::Data) -> Val;
    fn sample(r: &mut VRng) -> Self::Data;
}
pub fn point(r: &mut VRng) -> EpAffine {
    let mut k = r.field::<pasta_curves::Fq>();
    if k.is_zero_vartime() {
        k = Field::ONE;
    }
    (EpAffine::generator() * k).into()
}
impl Hv for () {
    fn data(v: &Val) -> Option<()> {
        (*v == Val::Unit).then_some(())
    }
    fn val(_: &()) -> Val {
        Val::Unit
    }
    fn sample(_: &mut VRng) {}
}
macro_rules! hv {
    ([$($g:ident),*] $t:ty, $d:ty, $pat:pat => $get:expr, |$x:ident| $put:expr, |$r:ident| $s:expr) => {
        impl<$(const $g: usize),*> Hv for $t {
            fn data(v: &Val) -> Option<$d> {
                match v {
                    $pat => $get,
                    _ => None,
                }
            }
            fn val($x: &$d) -> Val {
                $put
            }
            fn sample($r: &mut VRng) -> $d {
                $s
            }
        }
    };
}
hv!([S] Num<S>, Fp, Val::Num(s, a) => (*s == S).then_some(*a), |d| Val::Num(S, *d), |r| r.field());
hv!([S] Two<S>, (Fp, Fp), Val::Two(s, a, b) => (*s == S).then_some((*a, *b)), |d| Val::Two(S, d.0, d.1), |r| (r.field(), r.field()));
hv!([S] Flag<S>, bool, Val::Flag(s, b) => (*s == S).then_some(*b), |d| Val::Flag(S, *d), |r| r.bool());
hv!([S] Curve<S>, EpAffine, Val::Curve(s, p) => (*s == S).then_some(*p), |d| Val::Curve(S, *d), |r| point(r));
hv!([S, N] Arr<S, N>, [Fp; N], Val::Arr(s, v) => if *s == S { v.clone().try_into().ok() } else { None }, |d| Val::Arr(S, d.to_vec()), |r| core::array::from_fn(|_| r.field()));
hv!([S] Empty<S>, (), Val::Empty(s) => (*s == S).then_some(()), |_d| Val::Empty(S), |_r| ());

/// A step together with what it must compute.
pub trait Modeled: Step<Pasta, Left: Hv, Right: Hv, Output: Hv> + Default + Clone {
    /// A witness, and what the step must output next to it; `None` when the
    /// step must refuse.
    fn sample(r: &mut VRng, l: &Val, r: &Val, fail: bool) -> (<Self as Step<Pasta>>::Witness<'static>, Option<(Val, Val)>);
    /// The auxiliary output as a value.
    fn aux(a: &<Self as Step<Pasta>>::Aux<'static>) -> Val;
}
fn fp(v: &Val) -> Fp {
    v.elements()[0]
}
fn n(a: Fp) -> Val {
    Val::Num(0, a)
}

pub struct Num<const S: usize>;
impl<const S: usize> Header<Fp> for Num<S> {
    const SUFFIX: Suffix = Suffix::new(S);
    type Data = Fp;
    type Output = Kind![Fp; Element<'_, _>];
    fn encode<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, w: DriverValue<D, Fp>) -> Result<Bound<'dr, D, Self::Output>> {
        Element::alloc(dr, w)
    }
}
pub struct Two<const S: usize>;
impl<const S: usize> Header<Fp> for Two<S> {
    const SUFFIX: Suffix = Suffix::new(S);
    type Data = (Fp, Fp);
    type Output = Kind![Fp; (Element<'_, _>, Element<'_, _>)];
    fn encode<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, w: DriverValue<D, (Fp, Fp)>) -> Result<Bound<'dr, D, Self::Output>> {
        let a = Element::alloc(dr, w.as_ref().map(|w| w.0))?;
        let b = Element::alloc(dr, w.as_ref().map(|w| w.1))?;
        Ok((a, b))
    }
}
pub struct Flag<const S: usize>;
impl<const S: usize> Header<Fp> for Flag<S> {
    const SUFFIX: Suffix = Suffix::new(S);
    type Data = bool;
    type Output = Kind![Fp; Boolean<'_, _>];
    fn encode<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, w: DriverValue<D, bool>) -> Result<Bound<'dr, D, Self::Output>> {
        Boolean::alloc(dr, w)
    }
}
pub struct Curve<const S: usize>;
impl<const S: usize> Header<Fp> for Curve<S> {
    const SUFFIX: Suffix = Suffix::new(S);
    type Data = EpAffine;
    type Output = Kind![Fp; Point<'_, _, EpAffine>];
    fn encode<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, w: DriverValue<D, EpAffine>) -> Result<Bound<'dr, D, Self::Output>> {
        Point::alloc(dr, w)
    }
}
pub struct Arr<const S: usize, const N: usize>;
impl<const S: usize, const N: usize> Header<Fp> for Arr<S, N> {
    const SUFFIX: Suffix = Suffix::new(S);
    type Data = [Fp; N];
    type Output = Kind![Fp; FixedVec<Element<'_, _>, ConstLen<N>>];
    fn encode<'dr, D: Driver<'dr, F = Fp>>(dr: &mut D, w: DriverValue<D, [Fp; N]>) -> Result<Bound<'dr, D, Self::Output>> {
        FixedVec::try_from_fn(|i| Element::alloc(dr, w.as_ref().map(|w| w[i])))
    }
}
pub struct Empty<const S: usize>;
impl<const S: usize> Header<Fp> for Empty<S> {
    const SUFFIX: Suffix = Suffix::new(S);
    type Data = ();
    type Output = ();
    fn encode<'dr, D: Driver<'dr, F = Fp>>(_: &mut D, _: DriverValue<D, ()>) -> Result<Bound<'dr, D, Self::Output>> {
        Ok(())
    }
}

macro_rules! step {
    ($name:ident<$($g:ident),*>, $w:ty, $l:ty, $r:ty, $o:ty, $aux:ty, |$dr:ident, $wit:ident, $left:ident, $right:ident| $body:block) => {
        #[derive(Clone, Default)]
        pub struct $name<$(const $g: usize),*>;
        impl<$(const $g: usize),*> Step<Pasta> for $name<$($g),*> {
            const INDEX: Index = Index::new(I);
            type Witness<'source> = $w;
            type Aux<'source> = $aux;
            type Left = $l;
            type Right = $r;
            type Output = $o;
            fn witness<'dr, 'source: 'dr, D: Driver<'dr, F = Fp>, const HS: usize>(
                &self,
                $dr: &mut D,
                $wit: DriverValue<D, Self::Witness<'source>>,
                $left: DriverValue<D, <$l as Header<Fp>>::Data>,
                $right: DriverValue<D, <$r as Header<Fp>>::Data>,
            ) -> Result<(
                (Encoded<'dr, D, $l, HS>, Encoded<'dr, D, $r, HS>, Encoded<'dr, D, $o, HS>),
                DriverValue<D, <$o as Header<Fp>>::Data>,
                DriverValue<D, $aux>,
            )>
            where
                Self: 'dr,
            $body
        }
    };
}

// A leaf: the witness itself.
step!(Leaf<I, S>, Fp, (), (), Num<S>, Fp, |dr, w, l, r| {
    let (l, r) = (Encoded::new(dr, l)?, Encoded::new(dr, r)?);
    let e = Element::alloc(dr, w)?;
    let sq = e.square(dr)?;
    let (v, aux) = (e.value().map(|v| *v), sq.value().map(|v| *v));
    Ok(((l, r, Encoded::from_gadget(e)), v, aux))
});
// Poseidon of two numbers.
step!(Hash<I, A, B, O>, (), Num<A>, Num<B>, Num<O>, (), |dr, _w, l, r| {
    let l: Encoded<'dr, D, Num<A>, HS> = Encoded::new(dr, l)?;
    let r: Encoded<'dr, D, Num<B>, HS> = Encoded::new(dr, r)?;
    let mut sponge = Sponge::new(dr, Pasta::circuit_poseidon(Pasta::baked()));
    sponge.absorb(dr, l.as_gadget())?;
    sponge.absorb(dr, r.as_gadget())?;
    let h = sponge.squeeze(dr)?;
    let v = h.value().map(|v| *v);
    Ok(((l, r, Encoded::from_gadget(h)), v, D::unit()))
});
// (a + b, a b + w)
step!(Mix<I, A, B, O>, Fp, Num<A>, Num<B>, Two<O>, Fp, |dr, w, l, r| {
    let l: Encoded<'dr, D, Num<A>, HS> = Encoded::new(dr, l)?;
    let r: Encoded<'dr, D, Num<B>, HS> = Encoded::new(dr, r)?;
    let w = Element::alloc(dr, w)?;
    let s = l.as_gadget().add(dr, r.as_gadget());
    let p = l.as_gadget().mul(dr, r.as_gadget())?.add(dr, &w);
    let aux = p.value().map(|p| p.double());
    let v = D::just(|| (*s.value().take(), *p.value().take()));
    Ok(((l, r, Encoded::from_gadget((s, p))), v, aux))
});
// Whether two numbers are equal.
step!(Same<I, A, B, O>, (), Num<A>, Num<B>, Flag<O>, (), |dr, _w, l, r| {
    let l: Encoded<'dr, D, Num<A>, HS> = Encoded::new(dr, l)?;
    let r: Encoded<'dr, D, Num<B>, HS> = Encoded::new(dr, r)?;
    let b = l.as_gadget().is_equal(dr, r.as_gadget())?;
    let v = b.value();
    Ok(((l, r, Encoded::from_gadget(b)), v, D::unit()))
});
// One of a pair.
step!(Pick<I, A, B, O>, (), Flag<A>, Two<B>, Num<O>, (), |dr, _w, l, r| {
    let l: Encoded<'dr, D, Flag<A>, HS> = Encoded::new(dr, l)?;
    let r: Encoded<'dr, D, Two<B>, HS> = Encoded::new(dr, r)?;
    let e = l.as_gadget().conditional_select(dr, &r.as_gadget().0, &r.as_gadget().1)?;
    let v = e.value().map(|v| *v);
    Ok(((l, r, Encoded::from_gadget(e)), v, D::unit()))
});
// A witnessed curve point.
step!(Spot<I, O>, EpAffine, (), (), Curve<O>, (), |dr, w, l, r| {
    let (l, r) = (Encoded::new(dr, l)?, Encoded::new(dr, r)?);
    let p = Point::alloc(dr, w)?;
    let v = p.value();
    Ok(((l, r, Encoded::from_gadget(p)), v, D::unit()))
});
// Doubles a point next to a number.
step!(Double<I, A, B, O>, (), Curve<A>, Num<B>, Curve<O>, Fp, |dr, _w, l, r| {
    let l: Encoded<'dr, D, Curve<A>, HS> = Encoded::new(dr, l)?;
    let r: Encoded<'dr, D, Num<B>, HS> = Encoded::new(dr, r)?;
    let p = l.as_gadget().double(dr)?;
    let v = p.value();
    let aux = r.as_gadget().value().map(|v| *v);
    Ok(((l, r, Encoded::from_gadget(p)), v, aux))
});
// The witness must be a square root of the left input.
step!(Root<I, A, B, O>, Fp, Num<A>, Two<B>, Num<O>, (), |dr, w, l, r| {
    let l: Encoded<'dr, D, Num<A>, HS> = Encoded::new(dr, l)?;
    let r: Encoded<'dr, D, Two<B>, HS> = Encoded::new(dr, r)?;
    let w = Element::alloc(dr, w)?;
    let sq = w.square(dr)?;
    sq.enforce_equal(dr, l.as_gadget())?;
    let v = w.value().map(|v| *v);
    Ok(((l, r, Encoded::from_gadget(w)), v, D::unit()))
});
// Forgets everything.
step!(Blank<I, A, B, O>, (), Two<A>, Curve<B>, Empty<O>, (), |dr, _w, l, r| {
    let l: Encoded<'dr, D, Two<A>, HS> = Encoded::new(dr, l)?;
    let r: Encoded<'dr, D, Curve<B>, HS> = Encoded::new(dr, r)?;
    Ok(((l, r, Encoded::from_gadget(())), D::unit(), D::unit()))
});
// From nothing, twice.
step!(Start<I, A, B, O>, Fp, Empty<A>, Empty<B>, Num<O>, (), |dr, w, l, r| {
    let l: Encoded<'dr, D, Empty<A>, HS> = Encoded::new(dr, l)?;
    let r: Encoded<'dr, D, Empty<B>, HS> = Encoded::new(dr, r)?;
    let w = Element::alloc(dr, w)?;
    let v = w.value().map(|v| *v);
    Ok(((l, r, Encoded::from_gadget(w)), v, D::unit()))
});
// A full-width leaf.
step!(Wide<I, S, N>, [Fp; N], (), (), Arr<S, N>, (), |dr, w, l, r| {
    let (l, r) = (Encoded::new(dr, l)?, Encoded::new(dr, r)?);
    let o = Encoded::new(dr, w.as_ref().map(|w| *w))?;
    Ok(((l, r, o), w, D::unit()))
});
// Rotates the left array and adds the right one.
step!(Turn<I, A, B, O, N>, (), Arr<A, N>, Arr<B, N>, Arr<O, N>, Fp, |dr, _w, l, r| {
    let l: Encoded<'dr, D, Arr<A, N>, HS> = Encoded::new(dr, l)?;
    let r: Encoded<'dr, D, Arr<B, N>, HS> = Encoded::new(dr, r)?;
    let o: FixedVec<Element<'dr, D>, ConstLen<N>> = FixedVec::from_fn(|i| l.as_gadget()[(i + 1) % N].add(dr, &r.as_gadget()[i]));
    let v = D::just(|| core::array::from_fn(|i| *o[i].value().take()));
    let aux = o[0].value().map(|v| *v);
    Ok(((l, r, Encoded::from_gadget(o)), v, aux))
});
// Fails with its own error after allocating.
step!(Bail<I, A, B, O>, bool, Num<A>, Num<B>, Num<O>, (), |dr, w, l, r| {
    let l: Encoded<'dr, D, Num<A>, HS> = Encoded::new(dr, l)?;
    let r: Encoded<'dr, D, Num<B>, HS> = Encoded::new(dr, r)?;
    D::try_just(|| if w.take() { Err(Error::InvalidWitness("bail".into())) } else { Ok(()) })?;
    let o = Element::zero(dr);
    Ok(((l, r, Encoded::from_gadget(o)), D::just(|| Fp::ZERO), D::unit()))
});
// From nothing to nothing, under its own suffix.
step!(Void<I, O>, (), (), (), Empty<O>, (), |dr, _w, l, r| {
    let (l, r) = (Encoded::new(dr, l)?, Encoded::new(dr, r)?);
    Ok(((l, r, Encoded::from_gadget(())), D::unit(), D::unit()))
});
// Down to the trivial header.
step!(Gone<I, A, B>, (), Num<A>, Num<B>, (), (), |dr, _w, l, r| {
    let l: Encoded<'dr, D, Num<A>, HS> = Encoded::new(dr, l)?;
    let r: Encoded<'dr, D, Num<B>, HS> = Encoded::new(dr, r)?;
    Ok(((l, r, Encoded::from_gadget(())), D::unit(), D::unit()))
});
// A number next to the trivial header.
step!(Back<I, A, O>, Fp, Num<A>, (), Num<O>, (), |dr, w, l, r| {
    let l: Encoded<'dr, D, Num<A>, HS> = Encoded::new(dr, l)?;
    let r = Encoded::new(dr, r)?;
    let o = Element::alloc(dr, w)?.add(dr, l.as_gadget());
    let v = o.value().map(|v| *v);
    Ok(((l, r, Encoded::from_gadget(o)), v, D::unit()))
});
step!(Fore<I, B, O>, Fp, (), Num<B>, Num<O>, (), |dr, w, l, r| {
    let l = Encoded::new(dr, l)?;
    let r: Encoded<'dr, D, Num<B>, HS> = Encoded::new(dr, r)?;
    let o = Element::alloc(dr, w)?.add(dr, r.as_gadget());
    let v = o.value().map(|v| *v);
    Ok(((l, r, Encoded::from_gadget(o)), v, D::unit()))
});
#[allow(unused_variables)]
impl<const I: usize, const S: usize> Modeled for Leaf<I, S> {
    fn sample(r: &mut VRng, l: &Val, ri: &Val, fail: bool) -> (Fp, Option<(Val, Val)>) { let w: Fp = r.field(); (w, Some((Val::Num(S, w), n(w.square())))) }
    fn aux(a: &Fp) -> Val {
        n(*a)
    }
}

#[allow(unused_variables)]
impl<const I: usize, const A: usize, const B: usize, const O: usize> Modeled for Hash<I, A, B, O> {
    fn sample(r: &mut VRng, l: &Val, ri: &Val, fail: bool) -> ((), Option<(Val, Val)>) { let p = Par::fp(); let mut d = Duplex::new(&p); d.absorb(&p, fp(l)); d.absorb(&p, fp(ri)); let h = d.squeeze(&p); ((), Some((Val::Num(O, h), Val::Unit))) }
    fn aux(a: &()) -> Val {
        Val::Unit
    }
}

#[allow(unused_variables)]
impl<const I: usize, const A: usize, const B: usize, const O: usize> Modeled for Mix<I, A, B, O> {
    fn sample(r: &mut VRng, l: &Val, ri: &Val, fail: bool) -> (Fp, Option<(Val, Val)>) { let w: Fp = r.field(); let (a, b) = (fp(l), fp(ri)); let p = a * b + w; (w, Some((Val::Two(O, a + b, p), n(p + p)))) }
    fn aux(a: &Fp) -> Val {
        n(*a)
    }
}

#[allow(unused_variables)]
impl<const I: usize, const A: usize, const B: usize, const O: usize> Modeled for Same<I, A, B, O> {
    fn sample(r: &mut VRng, l: &Val, ri: &Val, fail: bool) -> ((), Option<(Val, Val)>) { ((), Some((Val::Flag(O, fp(l) == fp(ri)), Val::Unit))) }
    fn aux(a: &()) -> Val {
        Val::Unit
    }
}

#[allow(unused_variables)]
impl<const I: usize, const A: usize, const B: usize, const O: usize> Modeled for Pick<I, A, B, O> {
    fn sample(r: &mut VRng, l: &Val, ri: &Val, fail: bool) -> ((), Option<(Val, Val)>) { let e = ri.elements(); let v = if fp(l) == Fp::ONE { e[1] } else { e[0] }; ((), Some((Val::Num(O, v), Val::Unit))) }
    fn aux(a: &()) -> Val {
        Val::Unit
    }
}

#[allow(unused_variables)]
impl<const I: usize, const O: usize> Modeled for Spot<I, O> {
    fn sample(r: &mut VRng, l: &Val, ri: &Val, fail: bool) -> (EpAffine, Option<(Val, Val)>) { let p = point(r); (p, Some((Val::Curve(O, p), Val::Unit))) }
    fn aux(a: &()) -> Val {
        Val::Unit
    }
}

#[allow(unused_variables)]
impl<const I: usize, const A: usize, const B: usize, const O: usize> Modeled for Double<I, A, B, O> {
    fn sample(r: &mut VRng, l: &Val, ri: &Val, fail: bool) -> ((), Option<(Val, Val)>) { let Val::Curve(_, p) = l else { unreachable!() }; let d: EpAffine = (Ep::from(*p) + *p).into(); ((), Some((Val::Curve(O, d), n(fp(ri))))) }
    fn aux(a: &Fp) -> Val {
        n(*a)
    }
}

#[allow(unused_variables)]
impl<const I: usize, const A: usize, const B: usize, const O: usize> Modeled for Root<I, A, B, O> {
    fn sample(r: &mut VRng, l: &Val, ri: &Val, fail: bool) -> (Fp, Option<(Val, Val)>) { let s: Option<Fp> = fp(l).sqrt().into(); match s { Some(s) if !fail => { let s = if r.bool() { s } else { -s }; (s, Some((Val::Num(O, s), Val::Unit))) } _ => { let mut w: Fp = r.field(); while w.square() == fp(l) { w = r.field(); } (w, None) } } }
    fn aux(a: &()) -> Val {
        Val::Unit
    }
}

#[allow(unused_variables)]
impl<const I: usize, const A: usize, const B: usize, const O: usize> Modeled for Blank<I, A, B, O> {
    fn sample(r: &mut VRng, l: &Val, ri: &Val, fail: bool) -> ((), Option<(Val, Val)>) { ((), Some((Val::Empty(O), Val::Unit))) }
    fn aux(a: &()) -> Val {
        Val::Unit
    }
}

#[allow(unused_variables)]
impl<const I: usize, const A: usize, const B: usize, const O: usize> Modeled for Start<I, A, B, O> {
    fn sample(r: &mut VRng, l: &Val, ri: &Val, fail: bool) -> (Fp, Option<(Val, Val)>) { let w: Fp = r.field(); (w, Some((Val::Num(O, w), Val::Unit))) }
    fn aux(a: &()) -> Val {
        Val::Unit
    }
}

#[allow(unused_variables)]
impl<const I: usize, const S: usize, const N: usize> Modeled for Wide<I, S, N> {
    fn sample(r: &mut VRng, l: &Val, ri: &Val, fail: bool) -> ([Fp; N], Option<(Val, Val)>) { let w: [Fp; N] = core::array::from_fn(|_| r.field()); (w, Some((Val::Arr(S, w.to_vec()), Val::Unit))) }
    fn aux(a: &()) -> Val {
        Val::Unit
    }
}

#[allow(unused_variables)]
impl<const I: usize, const A: usize, const B: usize, const O: usize, const N: usize> Modeled for Turn<I, A, B, O, N> {
    fn sample(r: &mut VRng, l: &Val, ri: &Val, fail: bool) -> ((), Option<(Val, Val)>) { let (a, b) = (l.elements(), ri.elements()); let o: Vec<Fp> = (0..N).map(|i| a[(i + 1) % N] + b[i]).collect(); ((), Some((Val::Arr(O, o.clone()), n(o[0])))) }
    fn aux(a: &Fp) -> Val {
        n(*a)
    }
}

#[allow(unused_variables)]
impl<const I: usize, const A: usize, const B: usize, const O: usize> Modeled for Bail<I, A, B, O> {
    fn sample(r: &mut VRng, l: &Val, ri: &Val, fail: bool) -> (bool, Option<(Val, Val)>) { (fail, (!fail).then(|| (Val::Num(O, Fp::ZERO), Val::Unit))) }
    fn aux(a: &()) -> Val {
        Val::Unit
    }
}

#[allow(unused_variables)]
impl<const I: usize, const O: usize> Modeled for Void<I, O> {
    fn sample(r: &mut VRng, l: &Val, ri: &Val, fail: bool) -> ((), Option<(Val, Val)>) { ((), Some((Val::Empty(O), Val::Unit))) }
    fn aux(a: &()) -> Val {
        Val::Unit
    }
}

#[allow(unused_variables)]
impl<const I: usize, const A: usize, const B: usize> Modeled for Gone<I, A, B> {
    fn sample(r: &mut VRng, l: &Val, ri: &Val, fail: bool) -> ((), Option<(Val, Val)>) { ((), Some((Val::Unit, Val::Unit))) }
    fn aux(a: &()) -> Val {
        Val::Unit
    }
}

#[allow(unused_variables)]
impl<const I: usize, const A: usize, const O: usize> Modeled for Back<I, A, O> {
    fn sample(r: &mut VRng, l: &Val, ri: &Val, fail: bool) -> (Fp, Option<(Val, Val)>) { let w: Fp = r.field(); (w, Some((Val::Num(O, w + fp(l)), Val::Unit))) }
    fn aux(a: &()) -> Val {
        Val::Unit
    }
}
#[allow(unused_variables)]
impl<const I: usize, const B: usize, const O: usize> Modeled for Fore<I, B, O> {
    fn sample(r: &mut VRng, l: &Val, ri: &Val, fail: bool) -> (Fp, Option<(Val, Val)>) { let w: Fp = r.field(); (w, Some((Val::Num(O, w + fp(ri)), Val::Unit))) }
    fn aux(a: &()) -> Val {
        Val::Unit
    }
}
