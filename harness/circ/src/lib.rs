//! A model of how circuits become polynomials, computed from a recording of
//! the circuit's own driver calls, and random circuits to record.
pub mod nets;
pub mod util;

use core::any::TypeId;
use core::marker::PhantomData;
use std::collections::BTreeMap;

use ff::{Field, PrimeField};
use ragu_arithmetic::Coeff;
use ragu_circuits::{Circuit, verif::Place};
use ragu_core::{
    Result,
    convert::WireMap,
    drivers::{Driver, DriverTypes, DriverValue, LinearExpression, emulator::Emulator},
    gadgets::{Bound, GadgetKind as _},
    maybe::{Always, Empty, Maybe, MaybeKind},
    routines::Routine,
};
use ragu_primitives::{Element, GadgetExt as _};
use rec::{RecKind, cval};

/// A wire that is not a linear combination.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum V {
    /// Wire 0..4 (a, b, c, d) of a gate of a segment.
    G(u32, u32, u8),
    /// A routine's input, when routines are recorded in isolation.
    In(u32, u32),
    /// A nested routine's output, when routines are recorded in isolation.
    Out(u32, u32),
}
pub const ONE: V = V::G(0, 0, 1);

pub type Form<F> = BTreeMap<V, F>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Wr {
    V(V),
    L(u32),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Step {
    Gate,
    /// Index into the segment's constraints.
    Zero(u32),
    /// A nested routine returning this many wires.
    Call(u32),
}

#[derive(Clone)]
pub struct SegRec<F> {
    pub gates: u32,
    pub vals: Vec<[F; 4]>,
    pub cons: Vec<Form<F>>,
    pub types: Option<(TypeId, TypeId)>,
    /// Child indices from the root.
    pub path: Vec<u32>,
    pub children: u32,
    pub steps: Vec<Step>,
    ins: u32,
}
impl<F> SegRec<F> {
    fn new(path: Vec<u32>, types: Option<(TypeId, TypeId)>) -> Self {
        SegRec { gates: 0, vals: vec![], cons: vec![], types, path, children: 0, steps: vec![], ins: 0 }
    }
}

pub struct Seg<F: Field, K: RecKind> {
    pub segs: Vec<SegRec<F>>,
    lin: Vec<(Form<F>, F)>,
    avail: Option<(u32, u32)>,
    cur: u32,
    isolate: bool,
    _m: PhantomData<K>,
}

pub struct SegLC<F> {
    terms: Vec<(Wr, F)>,
    gain: F,
}
impl<F: Field> Default for SegLC<F> {
    fn default() -> Self {
        SegLC { terms: vec![], gain: F::ONE }
    }
}
impl<F: Field> LinearExpression<Wr, F> for SegLC<F> {
    fn add_term(mut self, wire: &Wr, coeff: Coeff<F>) -> Self {
        self.terms.push((*wire, cval(&coeff) * self.gain));
        self
    }
    fn gain(mut self, coeff: Coeff<F>) -> Self {
        self.gain *= cval(&coeff);
        self
    }
}

impl<F: Field, K: RecKind> Seg<F, K> {
    fn new(isolate: bool) -> Self {
        assert!(!(isolate && K::PRESENT));
        Seg { segs: vec![SegRec::new(vec![], None)], lin: vec![], avail: None, cur: 0, isolate, _m: PhantomData }
    }
    fn val(&self, v: V) -> F {
        match v {
            V::G(0, 0, 1) => F::ONE,
            V::G(s, i, k) => self.segs[s as usize].vals[i as usize][k as usize],
            _ => unreachable!("isolated recordings have no values"),
        }
    }
    fn resolve(&self, terms: &[(Wr, F)]) -> Form<F> {
        let mut f = Form::new();
        for (w, c) in terms {
            match w {
                Wr::V(v) => *f.entry(*v).or_insert(F::ZERO) += c,
                Wr::L(i) => {
                    for (v, k) in &self.lin[*i as usize].0 {
                        *f.entry(*v).or_insert(F::ZERO) += *k * c;
                    }
                }
            }
        }
        f.retain(|_, c| *c != F::ZERO);
        f
    }
}

impl<F: Field, K: RecKind> DriverTypes for Seg<F, K> {
    type ImplField = F;
    type ImplWire = Wr;
    type MaybeKind = K;
    type LCadd = SegLC<F>;
    type LCenforce = SegLC<F>;
    fn gate(&mut self, values: impl Fn() -> Result<(Coeff<F>, Coeff<F>, Coeff<F>, Coeff<F>)>) -> Result<(Wr, Wr, Wr, Wr)> {
        let v = K::with(|| values()).transpose()?;
        let s = &mut self.segs[self.cur as usize];
        if let Some((a, b, c, d)) = v {
            s.vals.push([cval(&a), cval(&b), cval(&c), cval(&d)]);
        }
        let i = s.gates;
        s.gates += 1;
        s.steps.push(Step::Gate);
        let w = |k| Wr::V(V::G(self.cur, i, k));
        Ok((w(0), w(1), w(2), w(3)))
    }
}

/// Allocates isolated names for the wires of a gadget.
struct Rename<'a, F: Field, K: RecKind> {
    seg: &'a mut Seg<F, K>,
    input: bool,
    n: u32,
}
impl<F: Field, K: RecKind> WireMap<F> for Rename<'_, F, K> {
    type Src = Seg<F, K>;
    type Dst = Seg<F, K>;
    fn convert_wire(&mut self, _: &Wr) -> Result<Wr> {
        let cur = self.seg.cur;
        let s = &mut self.seg.segs[cur as usize];
        self.n += 1;
        Ok(Wr::V(if self.input {
            s.ins += 1;
            V::In(cur, s.ins - 1)
        } else {
            // which nested call, and which of its wires
            V::Out(cur, (s.children << 16) + self.n)
        }))
    }
}

impl<'dr, F: Field, K: RecKind> Driver<'dr> for Seg<F, K> {
    type F = F;
    type Wire = Wr;
    const ONE: Wr = Wr::V(ONE);

    fn alloc(&mut self, value: impl Fn() -> Result<Coeff<F>>) -> Result<Wr> {
        let v = K::with(|| value()).transpose()?.map(|c| cval(&c));
        if let Some((s, i)) = self.avail.take() {
            if let Some(v) = v {
                self.segs[s as usize].vals[i as usize][3] = v;
            }
            return Ok(Wr::V(V::G(s, i, 3)));
        }
        let s = &mut self.segs[self.cur as usize];
        if let Some(v) = v {
            s.vals.push([F::ZERO, v, F::ZERO, F::ZERO]);
        }
        let i = s.gates;
        s.gates += 1;
        s.steps.push(Step::Gate);
        self.avail = Some((self.cur, i));
        Ok(Wr::V(V::G(self.cur, i, 1)))
    }
    fn add(&mut self, lc: impl Fn(SegLC<F>) -> SegLC<F>) -> Wr {
        let f = self.resolve(&lc(SegLC::default()).terms);
        let v = if K::PRESENT { f.iter().map(|(v, c)| self.val(*v) * c).fold(F::ZERO, |a, b| a + b) } else { F::ZERO };
        self.lin.push((f, v));
        Wr::L(self.lin.len() as u32 - 1)
    }
    fn enforce_zero(&mut self, lc: impl Fn(SegLC<F>) -> SegLC<F>) -> Result<()> {
        let f = self.resolve(&lc(SegLC::default()).terms);
        let s = &mut self.segs[self.cur as usize];
        s.steps.push(Step::Zero(s.cons.len() as u32));
        s.cons.push(f);
        Ok(())
    }
    fn routine<R: Routine<F> + 'dr>(&mut self, routine: R, input: Bound<'dr, Self, R::Input>) -> Result<Bound<'dr, Self, R::Output>> {
        let parent = self.cur;
        let mut path = self.segs[parent as usize].path.clone();
        path.push(self.segs[parent as usize].children);
        self.segs[parent as usize].children += 1;
        self.segs.push(SegRec::new(path, Some((TypeId::of::<R::Input>(), TypeId::of::<R::Output>()))));
        self.cur = self.segs.len() as u32 - 1;
        let saved = self.avail.take();
        let input = if self.isolate { R::Input::map_gadget(&input, &mut Rename { seg: self, input: true, n: 0 })? } else { input };
        let aux = Emulator::predict(&routine, &input)?.into_aux();
        let out = routine.execute(self, input, aux)?;
        self.cur = parent;
        self.avail = saved;
        if !self.isolate {
            return Ok(out);
        }
        let mut r = Rename { seg: self, input: false, n: 0 };
        let out = R::Output::map_gadget(&out, &mut r)?;
        let n = r.n;
        self.segs[parent as usize].steps.push(Step::Call(n));
        Ok(out)
    }
}

/// What a circuit denotes: its segments in depth-first order.
pub struct Model<F: Field> {
    pub segs: Vec<SegRec<F>>,
    /// Number of public outputs.
    pub n_out: usize,
    /// Their values, when recorded with a witness.
    pub outs: Vec<F>,
}

fn run<'s, F: Field, K: RecKind, C: Circuit<F>>(c: &C, isolate: bool, w: DriverValue<Seg<F, K>, C::Witness<'s>>) -> Result<Model<F>> {
    let mut dr = Seg::<F, K>::new(isolate);
    let z = Coeff::Zero;
    dr.gate(|| Ok((z, Coeff::One, z, z)))?;
    let out = c.witness(&mut dr, w)?.into_output();
    let mut els: Vec<Element<'_, Seg<F, K>>> = vec![];
    out.write(&mut dr, &mut els)?;
    let mut outs = vec![];
    for e in &els {
        if K::PRESENT {
            let f = dr.resolve(&[(*e.wire(), F::ONE)]);
            outs.push(f.iter().map(|(v, c)| dr.val(*v) * c).fold(F::ZERO, |a, b| a + b));
        }
        dr.enforce_zero(|lc| lc.add(e.wire()))?;
    }
    dr.enforce_zero(|lc| lc.add(&Seg::<F, K>::ONE))?;
    Ok(Model { segs: dr.segs, n_out: els.len(), outs })
}

/// Records a circuit's structure.
pub fn structure<F: Field, C: Circuit<F>>(c: &C) -> Result<Model<F>> {
    run::<F, Empty, C>(c, false, Empty)
}
/// Records structure with every routine renamed apart from its caller.
pub fn isolated<F: Field, C: Circuit<F>>(c: &C) -> Result<Model<F>> {
    run::<F, Empty, C>(c, true, Empty)
}
/// Records structure and values.
pub fn witnessed<'s, F: Field, C: Circuit<F>>(c: &C, w: C::Witness<'s>) -> Result<Model<F>> {
    run::<F, Always<()>, C>(c, false, Always::<()>::maybe_just(|| w))
}

/// The structure of one routine, independent of where it is called.
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Canon<F> {
    pub types: (TypeId, TypeId),
    pub gates: u32,
    pub cons: Vec<Vec<(V, F)>>,
}

impl<F: PrimeField> Model<F> {
    pub fn gates(&self) -> usize {
        self.segs.iter().map(|s| s.gates as usize).sum()
    }
    pub fn constraints(&self) -> usize {
        self.segs.iter().map(|s| s.cons.len()).sum()
    }
    /// Segments packed in depth-first order.
    pub fn plan(&self) -> Vec<Place> {
        let (mut g, mut c) = (0, 0);
        self.segs
            .iter()
            .map(|s| {
                let p = (g, c, s.gates as usize, s.cons.len());
                g += p.2;
                c += p.3;
                p
            })
            .collect()
    }
    fn deg(n: usize, slot: u8, g: usize) -> usize {
        match slot {
            0 => 2 * n - 1 - g,
            1 => 2 * n + g,
            2 => 4 * n - 1 - g,
            _ => g,
        }
    }
    /// The wiring polynomial's terms `(X degree, Y degree, coefficient)`.
    pub fn terms(&self, plan: &[Place], n: usize) -> Vec<(usize, usize, F)> {
        let mut m = BTreeMap::new();
        for (s, p) in self.segs.iter().zip(plan) {
            let q = s.cons.len();
            for (j, f) in s.cons.iter().enumerate() {
                for (v, c) in f {
                    let V::G(vs, i, k) = *v else { unreachable!() };
                    let x = Self::deg(n, k, plan[vs as usize].0 + i as usize);
                    *m.entry((x, p.1 + (q - 1 - j))).or_insert(F::ZERO) += *c;
                }
            }
        }
        m.into_iter().map(|((x, y), c)| (x, y, c)).collect()
    }
    /// The trace polynomial's coefficients.
    pub fn trace(&self, plan: &[Place], n: usize, alpha: F) -> Vec<F> {
        let mut r = vec![F::ZERO; 4 * n];
        for (si, (s, p)) in self.segs.iter().zip(plan).enumerate() {
            for (i, w) in s.vals.iter().enumerate() {
                let mut w = *w;
                if si == 0 && i == 0 {
                    w = [F::ZERO, F::ONE, F::ZERO, alpha];
                }
                for (k, v) in w.iter().enumerate() {
                    r[4 * n - 1 - Self::deg(n, k as u8, p.0 + i)] = *v;
                }
            }
        }
        r
    }
    /// The coefficients of k(Y), lowest first.
    pub fn ky(outs: &[F]) -> Vec<F> {
        let mut k = vec![F::ONE];
        k.extend(outs.iter().rev());
        k
    }
    /// Whether a coefficient vector is a satisfying trace for the outputs.
    pub fn accepts(&self, plan: &[Place], n: usize, r: &[F], outs: &[F]) -> bool {
        for g in 0..n {
            let w = |k| r[4 * n - 1 - Self::deg(n, k, g)];
            if w(0) * w(1) != w(2) || w(2) * w(3) != F::ZERO {
                return false;
            }
        }
        // s(X, Y) paired with r, by Y degree
        let mut by_y = vec![F::ZERO; 4 * n];
        for (x, y, c) in self.terms(plan, n) {
            by_y[y] += c * r[4 * n - 1 - x];
        }
        let k = Self::ky(outs);
        by_y.iter().enumerate().all(|(y, v)| *v == k.get(y).copied().unwrap_or(F::ZERO))
    }
    /// Routine `i` with its own wires renamed.
    pub fn canon(&self, i: usize) -> Canon<F> {
        let s = &self.segs[i];
        Canon {
            types: s.types.unwrap(),
            gates: s.gates,
            cons: s
                .cons
                .iter()
                .map(|f| {
                    f.iter()
                        .map(|(v, c)| {
                            let v = match *v {
                                ONE => ONE,
                                V::G(a, g, k) => {
                                    assert_eq!(a as usize, i, "an isolated routine refers to a foreign wire");
                                    V::G(1, g, k)
                                }
                                V::In(_, k) => V::In(0, k),
                                V::Out(_, k) => V::Out(0, k),
                            };
                            (v, *c)
                        })
                        .collect()
                })
                .collect(),
        }
    }
}

pub fn pow<F: Field>(x: F, e: usize) -> F {
    x.pow_vartime([e as u64])
}

/// Evaluates terms at a point.
pub fn eval2<F: Field>(t: &[(usize, usize, F)], x: F, y: F) -> F {
    let top = |k: fn(&(usize, usize, F)) -> usize| t.iter().map(k).max().unwrap_or(0) + 1;
    let powers = |b: F, n: usize| {
        let mut v = Vec::with_capacity(n);
        let mut c = F::ONE;
        for _ in 0..n {
            v.push(c);
            c *= b;
        }
        v
    };
    let (px, py) = (powers(x, top(|t| t.0)), powers(y, top(|t| t.1)));
    t.iter().map(|(i, j, c)| px[*i] * py[*j] * c).fold(F::ZERO, |a, b| a + b)
}
/// Restricts terms to a value of one variable, giving dense coefficients in the other.
pub fn restrict<F: Field>(t: &[(usize, usize, F)], len: usize, at_x: Option<F>, at_y: Option<F>) -> Vec<F> {
    let mut v = vec![F::ZERO; len];
    let b = at_x.or(at_y).unwrap();
    let mut p = vec![F::ONE];
    for k in 1..len {
        p.push(p[k - 1] * b);
    }
    for (i, j, c) in t {
        if at_x.is_some() {
            v[*j] += p[*i] * c;
        } else {
            v[*i] += p[*j] * c;
        }
    }
    v
}
pub fn horner<F: Field>(c: &[F], x: F) -> F {
    c.iter().rev().fold(F::ZERO, |a, k| a * x + k)
}
