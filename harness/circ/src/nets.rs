//! Random circuits at the level of gates, linear combinations and routines.
use std::sync::Arc;

use ff::PrimeField;
use ragu_arithmetic::Coeff;
use ragu_circuits::{Circuit, WithAux};
use ragu_core::{
    Error, Result,
    drivers::{Driver, DriverValue, LinearExpression},
    gadgets::{Bound, Gadget, Kind},
    maybe::Maybe,
    routines::{Prediction, Routine},
};
use ragu_primitives::{
    Element,
    io::{Buffer, Write},
    vec::{CollectFixed, ConstLen, FixedVec},
};
use vh::VRng;

#[derive(Clone, Copy, PartialEq, Debug, Hash)]
pub enum Co<F> {
    Zero,
    One,
    Neg,
    Two,
    Any(F),
    NegAny(F),
}
impl<F: PrimeField> Co<F> {
    pub fn coeff(&self) -> Coeff<F> {
        match *self {
            Co::Zero => Coeff::Zero,
            Co::One => Coeff::One,
            Co::Neg => Coeff::NegativeOne,
            Co::Two => Coeff::Two,
            Co::Any(f) => Coeff::Arbitrary(f),
            Co::NegAny(f) => Coeff::NegativeArbitrary(f),
        }
    }
    pub fn val(&self) -> F {
        rec::cval(&self.coeff())
    }
    fn random(r: &mut VRng) -> Self {
        match r.below(8) {
            0 => Co::Zero,
            1 => Co::One,
            2 => Co::Neg,
            3 => Co::Two,
            4 => Co::NegAny(r.field()),
            _ => Co::Any(r.field()),
        }
    }
}

#[derive(Clone, Debug)]
pub enum Term<F> {
    /// A wire of the stack.
    W(usize, Co<F>),
    /// A wire cloned inside the closure.
    Cloned(usize, Co<F>),
    One(Co<F>),
    Gain(Co<F>),
}

#[derive(Clone, Debug)]
pub enum I<F> {
    /// A product tied to its operands; pushes a, b, c.
    Mul(usize, usize),
    /// A gate over supplied values; pushes a, b, c, d.
    Gate(usize),
    Alloc(usize),
    AllocAux,
    /// A gate over the hint: a nonzero product, or a nonzero d.
    GateAux(bool),
    Const(Co<F>),
    Add(Vec<Term<F>>),
    /// A constraint; the last coefficient of ONE makes it hold.
    Zero(Vec<Term<F>>, F),
    /// The terms equal a fresh linear combination of themselves.
    Taut(Vec<Term<F>>),
    /// The terms as they are.
    Lin(Vec<Term<F>>),
    /// A constraint without terms.
    Empty,
    /// Forget wires above this height.
    Drop(usize),
    Call(Arc<Sub<F>>, Vec<usize>),
    /// Report an error while computing a witness.
    Fail(&'static str),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Pred {
    Unknown,
    Known,
}

#[derive(Debug)]
pub struct Sub<F> {
    pub shape: usize,
    pub pred: Pred,
    pub body: Vec<I<F>>,
    pub outs: Vec<usize>,
    /// Spin this long while executing, to vary schedules.
    pub delay: u32,
}

/// (inputs, outputs) of each routine shape; the last three repeat an arity
/// with other types.
pub const SHAPES: [(usize, usize); 11] = [(0, 1), (1, 1), (2, 1), (2, 2), (3, 2), (1, 0), (5, 3), (0, 0), (2, 1), (1, 1), (2, 2)];

pub struct St<'dr, D: Driver<'dr>> {
    pub w: Vec<(D::Wire, DriverValue<D, D::F>)>,
}

type Supply<'a, 'dr, D> = &'a DriverValue<D, Vec<<D as Driver<'dr>>::F>>;

fn apply<'dr, D: Driver<'dr>, L: LinearExpression<D::Wire, D::F>>(w: &[(D::Wire, DriverValue<D, D::F>)], t: &[Term<D::F>], mut lc: L) -> L
where
    D::F: PrimeField,
{
    for t in t {
        lc = match t {
            Term::W(i, c) => lc.add_term(&w[*i].0, c.coeff()),
            Term::Cloned(i, c) => {
                let k = w[*i].0.clone();
                lc.add_term(&k, c.coeff())
            }
            Term::One(c) => lc.add_term(&D::ONE, c.coeff()),
            Term::Gain(c) => lc.gain(c.coeff()),
        };
    }
    lc
}

pub fn sum<F: PrimeField>(w: &[F], t: &[Term<F>]) -> F {
    let (mut s, mut g) = (F::ZERO, F::ONE);
    for t in t {
        match t {
            Term::W(i, c) | Term::Cloned(i, c) => s += w[*i] * c.val() * g,
            Term::One(c) => s += c.val() * g,
            Term::Gain(c) => g *= c.val(),
        }
    }
    s
}

fn sum_dr<'dr, D: Driver<'dr>>(w: &[(D::Wire, DriverValue<D, D::F>)], t: &[Term<D::F>]) -> DriverValue<D, D::F>
where
    D::F: PrimeField,
{
    D::just(|| {
        let (mut s, mut g) = (D::F::from(0), D::F::from(1));
        for t in t {
            match t {
                Term::W(i, c) | Term::Cloned(i, c) => s += *w[*i].1.snag() * c.val() * g,
                Term::One(c) => s += c.val() * g,
                Term::Gain(c) => g *= c.val(),
            }
        }
        s
    })
}

/// Interprets a body. `supply` holds the witness values; `aux` a hint.
pub fn run<'dr, D: Driver<'dr>>(dr: &mut D, st: &mut St<'dr, D>, body: &[I<D::F>], supply: Supply<'_, 'dr, D>, aux: &DriverValue<D, D::F>) -> Result<()>
where
    D::F: PrimeField,
{
    for i in body {
        match i {
            I::Mul(x, y) => {
                let (vx, vy) = (st.w[*x].1.clone(), st.w[*y].1.clone());
                let (a, b, c) = dr.mul(|| {
                    let (x, y) = (*vx.snag(), *vy.snag());
                    Ok((Coeff::Arbitrary(x), Coeff::Arbitrary(y), Coeff::Arbitrary(x * y)))
                })?;
                dr.enforce_zero(|lc| lc.add(&a).sub(&st.w[*x].0))?;
                dr.enforce_equal(&b, &st.w[*y].0)?;
                let vc = D::just(|| *vx.snag() * *vy.snag());
                st.w.push((a, vx));
                st.w.push((b, vy));
                st.w.push((c, vc));
            }
            I::Gate(k) => {
                let v = |j: usize| D::just(|| supply.snag()[4 * k + j]);
                let g = dr.gate(|| {
                    let s = supply.snag();
                    let q = |j: usize| Coeff::Arbitrary(s[4 * k + j]);
                    Ok((q(0), q(1), q(2), q(3)))
                })?;
                st.w.push((g.0, v(0)));
                st.w.push((g.1, v(1)));
                st.w.push((g.2, v(2)));
                st.w.push((g.3, v(3)));
            }
            I::Alloc(k) => {
                let v = D::just(|| supply.snag()[*k]);
                let w = dr.alloc(|| Ok(Coeff::Arbitrary(*v.snag())))?;
                st.w.push((w, v));
            }
            I::AllocAux => {
                let w = dr.alloc(|| Ok(Coeff::Arbitrary(*aux.snag())))?;
                st.w.push((w, aux.clone()));
            }
            I::GateAux(d) => {
                let v = D::just(|| gate_aux(*aux.snag(), *d));
                let g = dr.gate(|| {
                    let [a, b, c, d] = v.snag().map(Coeff::Arbitrary);
                    Ok((a, b, c, d))
                })?;
                for (k, w) in [g.0, g.1, g.2, g.3].into_iter().enumerate() {
                    st.w.push((w, D::just(|| v.snag()[k])));
                }
            }
            I::Const(c) => {
                let w = dr.constant(c.coeff());
                st.w.push((w, D::just(|| c.val())));
            }
            I::Add(t) => {
                let v = sum_dr::<D>(&st.w, t);
                let w = dr.add(|lc| apply::<D, _>(&st.w, t, lc));
                st.w.push((w, v));
            }
            I::Zero(t, k) => dr.enforce_zero(|lc| apply::<D, _>(&st.w, t, lc.add_term(&D::ONE, Coeff::Arbitrary(*k))))?,
            I::Taut(t) => {
                let w = dr.add(|lc| apply::<D, _>(&st.w, t, lc));
                dr.enforce_zero(|lc| apply::<D, _>(&st.w, t, lc.sub(&w)))?;
            }
            I::Lin(t) => dr.enforce_zero(|lc| apply::<D, _>(&st.w, t, lc))?,
            I::Empty => dr.enforce_zero(|lc| lc)?,
            I::Drop(h) => st.w.truncate(*h),
            I::Call(s, ins) => {
                let o = call(dr, s, ins.iter().map(|i| Element::promote(st.w[*i].0.clone(), st.w[*i].1.clone())).collect())?;
                st.w.extend(o.into_iter().map(|e| (e.wire().clone(), D::just(|| *e.value().take()))));
            }
            I::Fail("!panic") => panic!("planted"),
            I::Fail(m) => {
                dr.alloc(|| Err(Error::InvalidWitness((*m).into())))?;
            }
        }
    }
    Ok(())
}

fn body<'dr, D: Driver<'dr>>(s: &Sub<D::F>, dr: &mut D, ins: Vec<Element<'dr, D>>, aux: &DriverValue<D, D::F>) -> Result<Vec<Element<'dr, D>>>
where
    D::F: PrimeField,
{
    let mut st = St { w: ins.iter().map(|e| (e.wire().clone(), D::just(|| *e.value().take()))).collect() };
    run(dr, &mut st, &s.body, &D::just(Vec::new), aux)?;
    Ok(s.outs.iter().map(|o| Element::promote(st.w[*o].0.clone(), st.w[*o].1.clone())).collect())
}

fn hint<'dr, D: Driver<'dr>>(ins: &[Element<'dr, D>]) -> DriverValue<D, D::F>
where
    D::F: PrimeField,
{
    D::just(|| ins.iter().fold(D::F::from(7), |a, e| a * D::F::from(3) + *e.value().take()))
}

fn gate_aux<F: PrimeField>(a: F, d: bool) -> [F; 4] {
    if d { [a, F::ZERO, F::ZERO, a] } else { [a, a + F::ONE, a * (a + F::ONE), F::ZERO] }
}

/// Whether executions of routines are logged.
pub static WATCH: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Routines in the order they started, with their threads.
pub static ORDER: std::sync::Mutex<Vec<(usize, std::thread::ThreadId)>> = std::sync::Mutex::new(Vec::new());

fn started<F>(s: &Arc<Sub<F>>) {
    if WATCH.load(std::sync::atomic::Ordering::Relaxed) {
        ORDER.lock().unwrap().push((s.body.len() << 8 | s.shape, std::thread::current().id()));
    }
}
fn spin(n: u32) {
    for i in 0..n {
        core::hint::black_box(i);
        if i % 4096 == 4095 {
            std::thread::yield_now();
        }
    }
}

macro_rules! routine {
    ($name:ident, <$($g:ident),*>, [$($in:tt)*], [$($out:tt)*], |$i:ident| $split:expr, |$o:ident| $join:expr) => {
        pub struct $name<F, $(const $g: usize),*>(pub Arc<Sub<F>>);
        impl<F: PrimeField, $(const $g: usize),*> Clone for $name<F, $($g),*> {
            fn clone(&self) -> Self {
                Self(self.0.clone())
            }
        }
        impl<F: PrimeField, $(const $g: usize),*> Routine<F> for $name<F, $($g),*> {
            type Input = Kind![F; $($in)*];
            type Output = Kind![F; $($out)*];
            type Aux<'dr> = F;
            fn execute<'dr, D: Driver<'dr, F = F>>(&self, dr: &mut D, $i: Bound<'dr, D, Self::Input>, aux: DriverValue<D, F>) -> Result<Bound<'dr, D, Self::Output>> {
                started(&self.0);
                spin(self.0.delay);
                let $o = body(&self.0, dr, $split, &aux)?;
                Ok($join)
            }
            fn predict<'dr, D: Driver<'dr, F = F, Wire = ()>>(
                &self,
                dr: &mut D,
                input: &Bound<'dr, D, Self::Input>,
            ) -> Result<Prediction<Bound<'dr, D, Self::Output>, DriverValue<D, F>>> {
                let $i = input.clone();
                let ins: Vec<Element<'dr, D>> = $split;
                let aux = hint(&ins);
                match self.0.pred {
                    Pred::Unknown => Ok(Prediction::Unknown(aux)),
                    Pred::Known => {
                        // predictions compute values only
                        let calm = calm(&self.0);
                        let $o = body(&calm, dr, ins, &aux)?;
                        Ok(Prediction::Known($join, aux))
                    }
                }
            }
        }
    };
}

/// The routine without its failures.
fn calm<F: PrimeField>(s: &Sub<F>) -> Sub<F> {
    let body = s
        .body
        .iter()
        .map(|i| match i {
            I::Fail(_) => I::Const(Co::Zero),
            I::Call(s, v) => I::Call(Arc::new(calm(s)), v.clone()),
            o => o.clone(),
        })
        .collect();
    Sub { shape: s.shape, pred: s.pred, body, outs: s.outs.clone(), delay: 0 }
}

fn fixed<'dr, D: Driver<'dr>, const N: usize>(v: Vec<Element<'dr, D>>) -> FixedVec<Element<'dr, D>, ConstLen<N>> {
    v.into_iter().collect_fixed().expect("arity")
}

routine!(RFix, <A, B>, [FixedVec<Element<'_, _>, ConstLen<A>>], [FixedVec<Element<'_, _>, ConstLen<B>>], |i| i.iter().cloned().collect(), |o| fixed(o));
routine!(RTup, <>, [(Element<'_, _>, Element<'_, _>)], [Element<'_, _>], |i| vec![i.0, i.1], |o| o.into_iter().next().unwrap());
routine!(ROne, <>, [Element<'_, _>], [Element<'_, _>], |i| vec![i], |o| o.into_iter().next().unwrap());
routine!(RPair, <>, [(Element<'_, _>, Element<'_, _>)], [(Element<'_, _>, Element<'_, _>)], |i| vec![i.0, i.1], |o| (o[0].clone(), o[1].clone()));

fn call<'dr, D: Driver<'dr>>(dr: &mut D, s: &Arc<Sub<D::F>>, ins: Vec<Element<'dr, D>>) -> Result<Vec<Element<'dr, D>>>
where
    D::F: PrimeField,
{
    macro_rules! fix {
        ($a:literal, $b:literal) => {
            dr.routine(RFix::<D::F, $a, $b>(s.clone()), fixed(ins))?.iter().cloned().collect()
        };
    }
    Ok(match s.shape {
        0 => fix!(0, 1),
        1 => fix!(1, 1),
        2 => fix!(2, 1),
        3 => fix!(2, 2),
        4 => fix!(3, 2),
        5 => fix!(1, 0),
        6 => fix!(5, 3),
        7 => fix!(0, 0),
        8 => vec![dr.routine(RTup::<D::F>(s.clone()), (ins[0].clone(), ins[1].clone()))?],
        9 => vec![dr.routine(ROne::<D::F>(s.clone()), ins[0].clone())?],
        _ => {
            let (a, b) = dr.routine(RPair::<D::F>(s.clone()), (ins[0].clone(), ins[1].clone()))?;
            vec![a, b]
        }
    })
}

/// How a net's outputs are packaged.
pub trait OutKind<F: PrimeField>: Send + Sync + 'static {
    type K: Write<F>;
    const N: usize;
    fn pack<'dr, D: Driver<'dr, F = F>>(v: Vec<Element<'dr, D>>) -> Bound<'dr, D, Self::K>;
}
/// A plain list.
pub struct List<const N: usize>;
impl<F: PrimeField, const N: usize> OutKind<F> for List<N> {
    type K = Kind![F; FixedVec<Element<'_, _>, ConstLen<N>>];
    const N: usize = N;
    fn pack<'dr, D: Driver<'dr, F = F>>(v: Vec<Element<'dr, D>>) -> Bound<'dr, D, Self::K> {
        fixed(v)
    }
}
/// One element whose serialization uses gates and constraints and writes two.
#[derive(Gadget)]
pub struct Noisy<'dr, #[ragu(driver)] D: Driver<'dr>> {
    #[ragu(gadget)]
    pub e: Element<'dr, D>,
}
impl<F: PrimeField> Write<F> for Kind![F; @Noisy<'_, _>] {
    fn write_gadget<'dr, D: Driver<'dr, F = F>, B: Buffer<'dr, D>>(this: &Noisy<'dr, D>, dr: &mut D, buf: &mut B) -> Result<()> {
        let s = this.e.square(dr)?;
        buf.write(dr, &s)?;
        let t = s.add(dr, &this.e);
        buf.write(dr, &t)
    }
}
pub struct NoisyOut;
impl<F: PrimeField> OutKind<F> for NoisyOut {
    type K = Kind![F; Noisy<'_, _>];
    const N: usize = 1;
    fn pack<'dr, D: Driver<'dr, F = F>>(v: Vec<Element<'dr, D>>) -> Bound<'dr, D, Self::K> {
        Noisy { e: v.into_iter().next().unwrap() }
    }
}

#[derive(Debug, Clone)]
pub struct NetBody<F> {
    pub ops: Vec<I<F>>,
    pub outs: Vec<usize>,
}

pub struct Net<F, O> {
    pub p: Arc<NetBody<F>>,
    pub o: core::marker::PhantomData<fn() -> O>,
}
impl<F, O> Clone for Net<F, O> {
    fn clone(&self) -> Self {
        Net { p: self.p.clone(), o: self.o }
    }
}
impl<F, O> Net<F, O> {
    pub fn new(p: NetBody<F>) -> Self {
        Net { p: Arc::new(p), o: core::marker::PhantomData }
    }
}
impl<F: PrimeField, O: OutKind<F>> Circuit<F> for Net<F, O> {
    type Instance<'s> = Vec<F>;
    type Witness<'s> = Vec<F>;
    type Output = O::K;
    type Aux<'s> = F;
    fn instance<'dr, 's: 'dr, D: Driver<'dr, F = F>>(&self, dr: &mut D, instance: DriverValue<D, Vec<F>>) -> Result<Bound<'dr, D, O::K>>
    where
        Self: 'dr,
    {
        let v = (0..O::N).map(|i| Element::alloc(dr, D::just(|| instance.snag()[i]))).collect::<Result<Vec<_>>>()?;
        Ok(O::pack(v))
    }
    fn witness<'dr, 's: 'dr, D: Driver<'dr, F = F>>(&self, dr: &mut D, witness: DriverValue<D, Vec<F>>) -> Result<WithAux<Bound<'dr, D, O::K>, DriverValue<D, F>>>
    where
        Self: 'dr,
    {
        let mut st = St { w: vec![] };
        run(dr, &mut st, &self.p.ops, &witness, &D::just(|| F::from(5)))?;
        let o = self.p.outs.iter().map(|i| Element::promote(st.w[*i].0.clone(), st.w[*i].1.clone())).collect();
        let aux = D::just(|| st.w.iter().fold(F::ZERO, |a, (_, v)| a + *v.snag()));
        Ok(WithAux::new(O::pack(o), aux))
    }
}

// ---------------------------------------------------------------- generation

#[derive(Clone, Copy)]
pub struct Mix {
    pub len: usize,
    pub depth: usize,
    pub calls: usize,
    /// Whether closures may clone wires.
    pub cloned: bool,
    /// Percentage of routines that predict their output.
    pub known: usize,
    pub delay: u32,
    /// Only what a bonding circuit may do.
    pub linear: bool,
}
impl Default for Mix {
    fn default() -> Self {
        Mix { len: 14, depth: 2, calls: 3, cloned: true, known: 50, delay: 0, linear: false }
    }
}

pub struct Gen<'r, F> {
    pub r: &'r mut VRng,
    pub mix: Mix,
    /// Routines already made at each depth, for repeated calls.
    pub pool: Vec<Vec<Arc<Sub<F>>>>,
    pub left: usize,
}

impl<'r, F: PrimeField> Gen<'r, F> {
    pub fn new(r: &'r mut VRng, mix: Mix) -> Self {
        Gen { r, mix, pool: vec![vec![]; mix.depth + 1], left: mix.calls * 3 }
    }
    pub fn terms(&mut self, h: usize) -> Vec<Term<F>> {
        let mut t = vec![];
        for _ in 0..self.r.below(5) {
            if self.mix.linear && h == 0 {
                continue;
            }
            t.push(match if self.mix.linear { 1 + self.r.below(7) } else { self.r.below(8) } {
                0 => Term::One(Co::random(self.r)),
                1 => Term::Gain(Co::random(self.r)),
                2 if self.mix.cloned && h > 0 => Term::Cloned(self.r.below(h), Co::random(self.r)),
                _ if h > 0 => Term::W(if self.r.chance(1, 2) { self.r.below(h) } else { h - 1 - self.r.below(h.min(3)) }, Co::random(self.r)),
                _ => Term::One(Co::random(self.r)),
            });
        }
        t
    }
    fn sub(&mut self, depth: usize) -> Arc<Sub<F>> {
        if !self.pool[depth].is_empty() && self.r.chance(1, 2) {
            let n = self.pool[depth].len();
            return self.pool[depth][self.r.below(n)].clone();
        }
        let shape = self.r.below(SHAPES.len());
        let (ins, outs) = SHAPES[shape];
        let len = self.r.below(self.mix.len.max(2) / 2 + 1);
        let mut h = ins;
        let body = self.body(&mut h, len, depth, None);
        let mut body = body;
        if outs > 0 && h == 0 {
            body.push(if self.mix.linear { I::AllocAux } else { I::Const(Co::random(self.r)) });
            h = 1;
        }
        let outs = (0..outs).map(|_| self.r.below(h)).collect();
        let pred = if self.r.chance(self.mix.known, 100) { Pred::Known } else { Pred::Unknown };
        let delay = if self.mix.delay > 0 { self.r.below(self.mix.delay as usize) as u32 } else { 0 };
        let s = Arc::new(Sub { shape, pred, body, outs, delay });
        self.pool[depth].push(s.clone());
        s
    }
    /// Structure-only body; `vals` (when given) tracks values at the root so
    /// that arbitrary constraints can be made to hold.
    fn body(&mut self, h: &mut usize, len: usize, depth: usize, mut vals: Option<(&mut Vec<F>, &mut Vec<F>)>) -> Vec<I<F>> {
        let mut out = vec![];
        let mut floor = *h;
        for _ in 0..len {
            let k = self.r.below(20);
            let k = match k {
                0..=2 | 5 if self.mix.linear => 7,
                3 | 4 if self.mix.linear && vals.is_some() => 21,
                6 if self.mix.linear => 12,
                k => k,
            };
            let i = match k {
                0..=2 if *h > 0 => I::Mul(self.r.below(*h), self.r.below(*h)),
                3 | 4 => match &mut vals {
                    Some((_, s)) => {
                        let v: F = self.r.field();
                        s.push(v);
                        I::Alloc(s.len() - 1)
                    }
                    None => I::AllocAux,
                },
                5 => match &mut vals {
                    Some((_, s)) => {
                        while s.len() % 4 != 0 {
                            s.push(F::ZERO);
                        }
                        let k = s.len() / 4;
                        let (a, b): (F, F) = (self.r.field(), self.r.field());
                        let v = if self.r.chance(1, 2) { [a, F::ZERO, F::ZERO, b] } else { [a, b, a * b, F::ZERO] };
                        s.extend(v);
                        I::Gate(k)
                    }
                    None => I::GateAux(self.r.bool()),
                },
                6 => I::Const(Co::random(self.r)),
                7..=9 => I::Add(self.terms(*h)),
                10 | 11 => {
                    let t = self.terms(*h);
                    match &vals {
                        Some((w, _)) if self.mix.linear => {
                            // balanced by a wire with a value, if there is one
                            let mut t: Vec<_> = t.into_iter().filter(|t| !matches!(t, Term::Gain(_))).collect();
                            let nz: Vec<usize> = (0..w.len()).filter(|i| w[*i] != F::ZERO).collect();
                            let v = sum(w, &t);
                            if v != F::ZERO && !nz.is_empty() {
                                let i = nz[self.r.below(nz.len())];
                                t.push(Term::W(i, Co::Any(-v * w[i].invert().unwrap())));
                            }
                            I::Lin(t)
                        }
                        Some((w, _)) => {
                            // the leading ONE term precedes every gain
                            let k = -sum(w, &t);
                            I::Zero(t, k)
                        }
                        None => I::Taut(t),
                    }
                }
                12 => I::Taut(self.terms(*h)),
                13 if self.r.chance(1, 3) => I::Empty,
                14 if *h > floor + 4 && self.r.chance(1, 2) => I::Drop(*h - self.r.below(3) - 1),
                15..=18 if depth > 0 && self.left > 0 => {
                    self.left -= 1;
                    let s = self.sub(depth - 1);
                    if *h == 0 && SHAPES[s.shape].0 > 0 {
                        continue;
                    }
                    let ins = (0..SHAPES[s.shape].0).map(|_| self.r.below(*h)).collect();
                    I::Call(s, ins)
                }
                _ if *h > 0 => I::Add(self.terms(*h)),
                _ if self.mix.linear => I::AllocAux,
                _ => I::Const(Co::One),
            };
            match &i {
                I::Mul(..) => *h += 3,
                I::Gate(..) | I::GateAux(_) => *h += 4,
                I::Drop(n) => {
                    *h = *n;
                    floor = floor.min(*h);
                }
                I::Call(s, _) => *h += SHAPES[s.shape].1,
                I::Zero(..) | I::Taut(..) | I::Lin(..) | I::Empty | I::Fail(_) => {}
                _ => *h += 1,
            }
            if let Some((w, s)) = &mut vals {
                step(w, &i, s, F::from(5));
                assert_eq!(w.len(), *h);
            }
            out.push(i);
        }
        out
    }
    /// A circuit with `n_out` outputs and a satisfying witness.
    pub fn net(self, n_out: usize) -> (NetBody<F>, Vec<F>) {
        self.net_on(vec![], n_out)
    }
    /// The same, starting from wires with these values.
    pub fn net_on(mut self, init: Vec<F>, n_out: usize) -> (NetBody<F>, Vec<F>) {
        let (mut w, mut s, mut h) = (init.clone(), vec![], init.len());
        let (len, depth) = (self.mix.len, self.mix.depth);
        let mut ops = self.body(&mut h, len, depth, Some((&mut w, &mut s)));
        if n_out > 0 && h == 0 {
            ops.push(if self.mix.linear { I::AllocAux } else { I::Const(Co::random(self.r)) });
            h = 1;
        }
        let outs = (0..n_out).map(|_| self.r.below(h)).collect();
        (NetBody { ops, outs }, s)
    }
}

/// The reference meaning of one instruction on values.
pub fn step<F: PrimeField>(w: &mut Vec<F>, i: &I<F>, supply: &[F], aux: F) {
    match i {
        I::Mul(x, y) => {
            let (x, y) = (w[*x], w[*y]);
            w.extend([x, y, x * y]);
        }
        I::Gate(k) => w.extend(&supply[4 * k..4 * k + 4]),
        I::Alloc(k) => w.push(supply[*k]),
        I::AllocAux => w.push(aux),
        I::GateAux(d) => w.extend(gate_aux(aux, *d)),
        I::Const(c) => w.push(c.val()),
        I::Add(t) => {
            let v = sum(w, t);
            w.push(v);
        }
        I::Zero(..) | I::Taut(..) | I::Lin(..) | I::Empty | I::Fail(_) => {}
        I::Drop(h) => w.truncate(*h),
        I::Call(s, ins) => {
            let v: Vec<F> = ins.iter().map(|i| w[*i]).collect();
            w.extend(sub_values(s, v));
        }
    }
}
pub fn sub_values<F: PrimeField>(s: &Sub<F>, ins: Vec<F>) -> Vec<F> {
    let aux = ins.iter().fold(F::from(7), |a, e| a * F::from(3) + e);
    let mut w = ins;
    for i in &s.body {
        step(&mut w, i, &[], aux);
    }
    s.outs.iter().map(|o| w[*o]).collect()
}
/// The reference outputs of a net.
pub fn outputs<F: PrimeField>(p: &NetBody<F>, supply: &[F]) -> Vec<F> {
    outputs_on(p, vec![], supply)
}
pub fn outputs_on<F: PrimeField>(p: &NetBody<F>, init: Vec<F>, supply: &[F]) -> Vec<F> {
    let mut w = init;
    for i in &p.ops {
        step(&mut w, i, supply, F::from(5));
    }
    p.outs.iter().map(|o| w[*o]).collect()
}

/// Runs an expression with a net of the number of outputs chosen at run time.
#[macro_export]
macro_rules! with_outs {
    ($n:expr, $p:expr, |$c:ident| $e:expr) => {{
        let p = $p;
        match $n {
            0 => {
                let $c = $crate::nets::Net::<_, $crate::nets::List<0>>::new(p);
                $e
            }
            1 => {
                let $c = $crate::nets::Net::<_, $crate::nets::List<1>>::new(p);
                $e
            }
            2 => {
                let $c = $crate::nets::Net::<_, $crate::nets::List<2>>::new(p);
                $e
            }
            _ => {
                let $c = $crate::nets::Net::<_, $crate::nets::List<5>>::new(p);
                $e
            }
        }
    }};
}
