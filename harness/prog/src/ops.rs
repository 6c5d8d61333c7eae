//! Random straight-line programs over the element and Boolean gadgets, with a
//! plain-arithmetic reference evaluation.
use crate::{Expect, Feeder, Frag, Io, St};
use ff::{Field, PrimeField};
use ragu_arithmetic::Coeff;
use ragu_core::Result;
use ragu_core::drivers::{Driver, DriverValue};
use ragu_core::gadgets::{Bound, Gadget, Kind};
use ragu_core::maybe::Maybe;
use ragu_core::routines::{Prediction, Routine};
use ragu_primitives::consistent::Consistent;
use ragu_primitives::{Boolean, Element, GadgetExt, multiadd, multipack};
use std::sync::Arc;
use vh::VRng;

#[derive(Clone, Debug, PartialEq)]
pub enum Co<F> {
    Zero,
    One,
    Two,
    Neg,
    Arb(F),
    NegArb(F),
}
impl<F: Field> Co<F> {
    pub fn coeff(&self) -> Coeff<F> {
        match self {
            Co::Zero => Coeff::Zero,
            Co::One => Coeff::One,
            Co::Two => Coeff::Two,
            Co::Neg => Coeff::NegativeOne,
            Co::Arb(x) => Coeff::Arbitrary(*x),
            Co::NegArb(x) => Coeff::NegativeArbitrary(*x),
        }
    }
    pub fn val(&self) -> F {
        match self {
            Co::Zero => F::ZERO,
            Co::One => F::ONE,
            Co::Two => F::ONE + F::ONE,
            Co::Neg => F::ZERO - F::ONE,
            Co::Arb(x) => *x,
            Co::NegArb(x) => F::ZERO - *x,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Op<F> {
    In,
    Alloc,
    AllocSq,
    One,
    Zero,
    Const(F),
    Mul(usize, usize),
    Sq(usize),
    Add(usize, usize),
    Sub(usize, usize),
    AddC(usize, usize, Co<F>),
    Scale(usize, Co<F>),
    Dbl(usize),
    Neg(usize),
    Inv(usize),
    /// Inverse supplied by the prover, off by the given amount.
    InvW(usize, F),
    Div(usize, usize),
    IsZ(usize),
    IsEq(usize, usize),
    Fold(Vec<usize>, usize),
    Sum(Vec<usize>),
    MAdd(Vec<(usize, F)>),
    Root(usize, u32),
    EnfZ(usize),
    EnfEq(usize, usize),
    BAlloc,
    Not(usize),
    And(usize, usize),
    Sel(usize, usize, usize),
    CEq(usize, usize, usize),
    BEnfEq(usize, usize),
    BEl(usize),
    Pack(Vec<usize>),
    Consist(usize),
    BConsist(usize),
    Rewire(usize),
    BRewire(usize),
    Sendable(usize, usize),
    Write(Vec<usize>, Vec<usize>),
    /// Runs the block (two elements in, top element out) as a routine, with or without prediction.
    Call(Arc<Prog<F>>, usize, usize, Pred),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Known,
    Unknown,
}

#[derive(Clone, Debug, Default)]
pub struct Prog<F> {
    pub ops: Vec<Op<F>>,
}

impl<F> Op<F> {
    pub fn name(&self) -> &'static str {
        use Op::*;
        match self {
            In => "In", Alloc => "Alloc", AllocSq => "AllocSq", One => "One", Zero => "Zero", Const(_) => "Const", Mul(..) => "Mul",
            Sq(_) => "Sq", Add(..) => "Add", Sub(..) => "Sub", AddC(..) => "AddC", Scale(..) => "Scale", Dbl(_) => "Dbl", Neg(_) => "Neg",
            Inv(_) => "Inv", InvW(..) => "InvW", Div(..) => "Div", IsZ(_) => "IsZ", IsEq(..) => "IsEq", Fold(..) => "Fold", Sum(_) => "Sum",
            MAdd(_) => "MAdd", Root(..) => "Root", EnfZ(_) => "EnfZ", EnfEq(..) => "EnfEq", BAlloc => "BAlloc", Not(_) => "Not", And(..) => "And",
            Sel(..) => "Sel", CEq(..) => "CEq", BEnfEq(..) => "BEnfEq", BEl(_) => "BEl", Pack(_) => "Pack", Consist(_) => "Consist",
            BConsist(_) => "BConsist", Rewire(_) => "Rewire", BRewire(_) => "BRewire", Sendable(..) => "Sendable", Write(..) => "Write",
            Call(..) => "Call",
        }
    }
}

// ---------------------------------------------------------------- reference

#[derive(Clone, Debug)]
pub struct RefState<F> {
    pub els: Vec<F>,
    pub bools: Vec<bool>,
    pub ins: Vec<F>,
    pub outs: Vec<F>,
    pub used: usize,
}
impl<F> Default for RefState<F> {
    fn default() -> Self {
        RefState { els: vec![], bools: vec![], ins: vec![], outs: vec![], used: 0 }
    }
}
fn bf<F: Field>(b: bool) -> F {
    if b { F::ONE } else { F::ZERO }
}
impl<F: PrimeField> RefState<F> {
    fn e(&self, i: usize) -> F {
        self.els[i % self.els.len()]
    }
    fn b(&self, i: usize) -> bool {
        self.bools[i % self.bools.len()]
    }
    fn out(&mut self, v: F) {
        self.els.push(v);
        self.outs.push(v);
    }
    fn outb(&mut self, v: bool) {
        self.bools.push(v);
        self.outs.push(bf(v));
    }
    pub fn step(&mut self, op: &Op<F>, w: &[F]) -> St {
        use Op::*;
        match op {
            In | Alloc => {
                let v = w[self.used];
                self.used += 1;
                self.els.push(v);
                self.ins.push(v);
            }
            AllocSq => {
                let v = w[self.used];
                self.used += 1;
                self.els.push(v);
                self.ins.push(v);
                self.out(v * v);
            }
            BAlloc => {
                let v = bool::from(w[self.used].is_odd());
                self.used += 1;
                self.bools.push(v);
                self.ins.push(bf(v));
            }
            One => self.out(F::ONE),
            Zero => self.out(F::ZERO),
            Const(x) => self.out(*x),
            Mul(i, j) => self.out(self.e(*i) * self.e(*j)),
            Sq(i) => self.out(self.e(*i) * self.e(*i)),
            Add(i, j) => self.out(self.e(*i) + self.e(*j)),
            Sub(i, j) => self.out(self.e(*i) - self.e(*j)),
            AddC(i, j, k) => self.out(self.e(*i) + self.e(*j) * k.val()),
            Scale(i, k) => self.out(self.e(*i) * k.val()),
            Dbl(i) => self.out(self.e(*i) + self.e(*i)),
            Neg(i) => self.out(F::ZERO - self.e(*i)),
            Inv(i) => match Option::<F>::from(self.e(*i).invert()) {
                None => return St::Err,
                Some(v) => self.out(v),
            },
            InvW(i, off) => match Option::<F>::from(self.e(*i).invert()) {
                None => return St::Unsat,
                Some(v) => {
                    if *off != F::ZERO {
                        return St::Lie;
                    }
                    self.out(v)
                }
            },
            Div(i, j) => match Option::<F>::from(self.e(*j).invert()) {
                None => return St::Err,
                Some(v) => self.out(self.e(*i) * v),
            },
            IsZ(i) => self.outb(self.e(*i) == F::ZERO),
            IsEq(i, j) => self.outb(self.e(*i) == self.e(*j)),
            Fold(v, s) => {
                let s = self.e(*s);
                // sum of v[i] * s^(n-1-i)
                let mut acc = F::ZERO;
                let mut p = F::ONE;
                for i in v.iter().rev() {
                    acc += self.e(*i) * p;
                    p *= s;
                }
                self.out(acc)
            }
            Sum(v) => {
                let s = v.iter().map(|i| self.e(*i)).fold(F::ZERO, |a, b| a + b);
                self.out(s)
            }
            MAdd(v) => {
                let s = v.iter().map(|(i, k)| self.e(*i) * k).fold(F::ZERO, |a, b| a + b);
                self.out(s)
            }
            Root(i, k) => {
                let mut x = self.e(*i);
                for _ in 0..*k {
                    x = x * x;
                }
                if x != F::ONE {
                    return St::Unsat;
                }
            }
            EnfZ(i) => {
                if self.e(*i) != F::ZERO {
                    return St::Unsat;
                }
            }
            EnfEq(i, j) => {
                if self.e(*i) != self.e(*j) {
                    return St::Unsat;
                }
            }
            BEnfEq(i, j) => {
                if self.b(*i) != self.b(*j) {
                    return St::Unsat;
                }
            }
            Not(i) => self.outb(!self.b(*i)),
            And(i, j) => self.outb(self.b(*i) && self.b(*j)),
            Sel(b, i, j) => {
                let v = if self.b(*b) { self.e(*j) } else { self.e(*i) };
                self.out(v)
            }
            CEq(b, i, j) => {
                if self.b(*b) && self.e(*i) != self.e(*j) {
                    return St::Unsat;
                }
            }
            BEl(i) => self.out(bf(self.b(*i))),
            Pack(v) => {
                for ch in v.chunks(F::CAPACITY as usize) {
                    let mut s = F::ZERO;
                    for i in ch.iter().rev() {
                        s = s + s + bf::<F>(self.b(*i));
                    }
                    self.out(s);
                }
            }
            Consist(_) | BConsist(_) => {}
            Rewire(i) => self.out(self.e(*i)),
            BRewire(i) => self.outb(self.b(*i)),
            Sendable(i, j) => {
                self.out(self.e(*i));
                self.outb(self.b(*j));
            }
            Write(v, bs) => {
                for i in v {
                    self.out(self.e(*i));
                }
                for i in bs {
                    self.out(bf(self.b(*i)));
                }
            }
            Call(p, i, j, _) => {
                let mut s = RefState { els: vec![self.e(*i), self.e(*j)], ..Default::default() };
                for o in &p.ops {
                    let st = s.step(o, &[]);
                    if st != St::Ok {
                        return st;
                    }
                }
                let v = *s.els.last().unwrap();
                self.out(v)
            }
        }
        St::Ok
    }
}
impl<F: PrimeField> Prog<F> {
    /// The program up to and including the first step that does not succeed on
    /// this witness; `None` when that step is a block (which may fail midway).
    pub fn stopped(&self, w: &[F]) -> Option<Prog<F>> {
        let mut s = RefState::default();
        for (i, o) in self.ops.iter().enumerate() {
            if s.step(o, w) != St::Ok {
                if matches!(o, Op::Call(..)) {
                    return None;
                }
                return Some(Prog { ops: self.ops[..=i].to_vec() });
            }
        }
        Some(self.clone())
    }
    pub fn expect(&self, w: &[F]) -> Expect<F> {
        let mut s = RefState::default();
        let mut status = St::Ok;
        for o in &self.ops {
            status = s.step(o, w);
            if status != St::Ok {
                break;
            }
        }
        Expect { ins: s.ins, outs: s.outs, status }
    }
    /// Number of witness values consumed.
    pub fn n_in(&self) -> usize {
        self.ops.iter().filter(|o| matches!(o, Op::In | Op::Alloc | Op::AllocSq | Op::BAlloc)).count()
    }
}

// -------------------------------------------------------------- interpreter

struct NoFeed;
impl<'dr, D: Driver<'dr>> Feeder<'dr, D> for NoFeed {
    fn input(&mut self, _: &mut D, _: DriverValue<D, D::F>) -> Result<Element<'dr, D>> {
        unreachable!("blocks take no free inputs")
    }
}

pub struct State<'dr, D: Driver<'dr>> {
    pub els: Vec<Element<'dr, D>>,
    pub bools: Vec<Boolean<'dr, D>>,
    used: usize,
}

impl<'dr, D: Driver<'dr>> State<'dr, D>
where
    D::F: PrimeField,
{
    pub fn new(els: Vec<Element<'dr, D>>) -> Self {
        State { els, bools: vec![], used: 0 }
    }
    fn e(&self, i: usize) -> &Element<'dr, D> {
        &self.els[i % self.els.len()]
    }
    fn b(&self, i: usize) -> &Boolean<'dr, D> {
        &self.bools[i % self.bools.len()]
    }
    fn out(&mut self, io: &mut Io<'dr, D>, e: Element<'dr, D>) {
        io.outs.push(e.clone());
        self.els.push(e);
    }
    fn outb(&mut self, io: &mut Io<'dr, D>, b: Boolean<'dr, D>) {
        io.outs.push(b.element());
        self.bools.push(b);
    }
    pub fn step<I: Feeder<'dr, D>>(
        &mut self,
        op: &Op<D::F>,
        dr: &mut D,
        feed: &mut I,
        io: &mut Io<'dr, D>,
        w: &DriverValue<D, Vec<D::F>>,
    ) -> Result<()> {
        use Op::*;
        let k = self.used;
        if matches!(op, In | Alloc | AllocSq | BAlloc) {
            self.used += 1;
        }
        let next = || D::just(|| w.as_ref().take()[k]);
        match op {
            In => {
                let e = feed.input(dr, next())?;
                io.ins.push(e.clone());
                self.els.push(e);
            }
            Alloc => {
                let e = Element::alloc(dr, next())?;
                io.ins.push(e.clone());
                self.els.push(e);
            }
            AllocSq => {
                let (e, s) = Element::alloc_square(dr, next())?;
                io.ins.push(e.clone());
                self.els.push(e);
                self.out(io, s);
            }
            BAlloc => {
                let b = Boolean::alloc(dr, next().map(|v| bool::from(v.is_odd())))?;
                io.ins.push(b.element());
                self.bools.push(b);
            }
            One => self.out(io, Element::one()),
            Zero => {
                let e = Element::zero(dr);
                self.out(io, e)
            }
            Const(x) => {
                let e = Element::constant(dr, *x);
                self.out(io, e)
            }
            Mul(i, j) => {
                let e = self.e(*i).mul(dr, self.e(*j))?;
                self.out(io, e)
            }
            Sq(i) => {
                let e = self.e(*i).square(dr)?;
                self.out(io, e)
            }
            Add(i, j) => {
                let e = self.e(*i).add(dr, self.e(*j));
                self.out(io, e)
            }
            Sub(i, j) => {
                let e = self.e(*i).sub(dr, self.e(*j));
                self.out(io, e)
            }
            AddC(i, j, c) => {
                let e = self.e(*i).add_coeff(dr, self.e(*j), c.coeff());
                self.out(io, e)
            }
            Scale(i, c) => {
                let e = self.e(*i).scale(dr, c.coeff());
                self.out(io, e)
            }
            Dbl(i) => {
                let e = self.e(*i).double(dr);
                self.out(io, e)
            }
            Neg(i) => {
                let e = self.e(*i).negate(dr);
                self.out(io, e)
            }
            Inv(i) => {
                let e = self.e(*i).invert(dr)?;
                self.out(io, e)
            }
            InvW(i, off) => {
                let v = self.e(*i).value().map(|v| v.invert().unwrap_or(D::F::ONE) + off);
                let e = self.e(*i).invert_with(dr, v)?;
                self.out(io, e)
            }
            Div(i, j) => {
                let e = self.e(*i).div_nonzero(dr, self.e(*j))?;
                self.out(io, e)
            }
            IsZ(i) => {
                let b = self.e(*i).is_zero(dr)?;
                self.outb(io, b)
            }
            IsEq(i, j) => {
                let b = self.e(*i).is_equal(dr, self.e(*j))?;
                self.outb(io, b)
            }
            Fold(v, s) => {
                let es: Vec<Element<'dr, D>> = v.iter().map(|i| self.e(*i).clone()).collect();
                // owned and borrowed items alike
                let e = if v.len() % 2 == 0 { Element::fold(dr, &es, self.e(*s))? } else { Element::fold(dr, es, self.e(*s))? };
                self.out(io, e)
            }
            Sum(v) => {
                let es: Vec<Element<'dr, D>> = v.iter().map(|i| self.e(*i).clone()).collect();
                let e = if v.len() % 2 == 0 { Element::sum(dr, &es) } else { Element::sum(dr, es) };
                self.out(io, e)
            }
            MAdd(v) => {
                let es: Vec<Element<'dr, D>> = v.iter().map(|(i, _)| self.e(*i).clone()).collect();
                let cs: Vec<D::F> = v.iter().map(|(_, c)| *c).collect();
                let e = multiadd(dr, &es, &cs);
                self.out(io, e)
            }
            Root(i, k) => self.e(*i).enforce_root_of_unity(dr, *k)?,
            EnfZ(i) => self.e(*i).enforce_zero(dr)?,
            EnfEq(i, j) => self.e(*i).enforce_equal(dr, self.e(*j))?,
            BEnfEq(i, j) => self.b(*i).enforce_equal(dr, self.b(*j))?,
            Not(i) => {
                let b = self.b(*i).not(dr);
                self.outb(io, b)
            }
            And(i, j) => {
                let b = self.b(*i).and(dr, self.b(*j))?;
                self.outb(io, b)
            }
            Sel(b, i, j) => {
                let e = self.b(*b).conditional_select(dr, self.e(*i), self.e(*j))?;
                self.out(io, e)
            }
            CEq(b, i, j) => self.b(*b).conditional_enforce_equal(dr, self.e(*i), self.e(*j))?,
            BEl(i) => {
                let e = self.b(*i).element();
                self.out(io, e)
            }
            Pack(v) => {
                let bs: Vec<Boolean<'dr, D>> = v.iter().map(|i| self.b(*i).clone()).collect();
                for e in multipack(dr, &bs)? {
                    self.out(io, e)
                }
            }
            Consist(i) => self.e(*i).enforce_consistent(dr)?,
            BConsist(i) => self.b(*i).enforce_consistent(dr)?,
            Rewire(i) => {
                let v = self.e(*i).value().map(|v| *v);
                let e = Element::promote(self.e(*i).wire().clone(), v);
                self.out(io, e)
            }
            BRewire(i) => {
                let v = self.b(*i).value();
                let b = self.b(*i).demote()?.promote(v);
                self.outb(io, b)
            }
            Sendable(i, j) => {
                let p = (self.e(*i).clone(), self.b(*j).clone());
                let (e, b) = crate::ops::send(p);
                self.out(io, e);
                self.outb(io, b)
            }
            Write(v, bs) => {
                let mut buf: Vec<Element<'dr, D>> = vec![];
                for i in v {
                    self.e(*i).write(dr, &mut buf)?;
                }
                for i in bs {
                    self.b(*i).write(dr, &mut buf)?;
                }
                for e in buf {
                    self.out(io, e)
                }
            }
            Call(p, i, j, pr) => {
                let e = dr.routine(Block { p: p.clone(), pred: *pr }, (self.e(*i).clone(), self.e(*j).clone()))?;
                self.out(io, e)
            }
        }
        Ok(())
    }
}
/// Wires need not be `Send` on every driver; the round trip through a clone stands in here.
fn send<T: Clone>(t: T) -> T {
    t.clone()
}

impl<F: PrimeField> Frag<F> for Prog<F> {
    fn run<'dr, D: Driver<'dr, F = F>, I: Feeder<'dr, D>>(
        &self,
        dr: &mut D,
        feed: &mut I,
        io: &mut Io<'dr, D>,
        w: DriverValue<D, Vec<F>>,
    ) -> Result<()> {
        let mut st = State::new(vec![]);
        for o in &self.ops {
            st.step(o, dr, feed, io, &w)?;
        }
        Ok(())
    }
}

/// A block as a routine.
#[derive(Clone)]
pub struct Block<F> {
    pub p: Arc<Prog<F>>,
    pub pred: Pred,
}
impl<F: PrimeField> Block<F> {
    fn go<'dr, D: Driver<'dr, F = F>>(&self, dr: &mut D, input: (Element<'dr, D>, Element<'dr, D>)) -> Result<Element<'dr, D>> {
        let mut io = Io::default();
        let mut st = State::new(vec![input.0, input.1]);
        let w = D::just(Vec::new);
        for o in &self.p.ops {
            st.step(o, dr, &mut NoFeed, &mut io, &w)?;
        }
        Ok(st.els.pop().unwrap())
    }
}
impl<F: PrimeField> Routine<F> for Block<F> {
    type Input = Kind![F; (Element<'_, _>, Element<'_, _>)];
    type Output = Kind![F; Element<'_, _>];
    type Aux<'dr> = F;
    fn execute<'dr, D: Driver<'dr, F = F>>(
        &self,
        dr: &mut D,
        input: Bound<'dr, D, Self::Input>,
        _aux: DriverValue<D, F>,
    ) -> Result<Bound<'dr, D, Self::Output>> {
        self.go(dr, input)
    }
    fn predict<'dr, D: Driver<'dr, F = F, Wire = ()>>(
        &self,
        dr: &mut D,
        input: &Bound<'dr, D, Self::Input>,
    ) -> Result<Prediction<Bound<'dr, D, Self::Output>, DriverValue<D, F>>> {
        let aux = input.0.value().map(|v| *v);
        match self.pred {
            Pred::Unknown => Ok(Prediction::Unknown(aux)),
            Pred::Known => Ok(Prediction::Known(self.go(dr, input.clone())?, aux)),
        }
    }
}

// ---------------------------------------------------------------- generator

#[derive(Clone, Copy)]
pub struct Mix {
    pub els: usize,
    pub bools: usize,
    pub calls: usize,
    /// Chance (percent) that a step whose reference fails is kept.
    pub fail: usize,
}
fn gen_co<F: PrimeField>(r: &mut VRng) -> Co<F> {
    match r.below(8) {
        0 => Co::Zero,
        1 => Co::One,
        2 => Co::Two,
        3 => Co::Neg,
        4 | 5 => Co::NegArb(r.field()),
        _ => Co::Arb(r.field()),
    }
}
fn idx(r: &mut VRng, n: usize) -> usize {
    // favour recent values, so that dependency chains grow
    if r.bool() { r.below(n) } else { n - 1 - r.below(n.min(3)) }
}
pub fn gen_op<F: PrimeField>(r: &mut VRng, s: &RefState<F>, mix: &Mix, depth: usize) -> Op<F> {
    use Op::*;
    let n = s.els.len();
    let m = s.bools.len();
    let i = idx(r, n);
    let j = if r.below(8) == 0 { i } else { idx(r, n) };
    let total = mix.els + mix.bools + mix.calls;
    let k = r.below(total);
    if k < mix.els || (k < mix.els + mix.bools && m == 0) {
        match r.below(30) {
            0 => if depth == 0 { In } else { Mul(i, j) },
            1 => if depth == 0 { Alloc } else { Sub(i, j) },
            2 => if depth == 0 { AllocSq } else { Add(i, j) },
            3 => One,
            4 => Zero,
            5 => Const(r.field()),
            6 | 7 | 8 => Mul(i, j),
            9 => Sq(i),
            10 | 11 => Add(i, j),
            12 | 13 => Sub(i, j),
            14 => AddC(i, j, gen_co(r)),
            15 => Scale(i, gen_co(r)),
            16 => Dbl(i),
            17 => Neg(i),
            18 => Inv(i),
            19 => InvW(i, if r.below(4) == 0 { r.nonzero() } else { F::ZERO }),
            20 => Div(i, j),
            21 => IsZ(i),
            22 => IsEq(i, j),
            23 => Fold((0..r.below(5)).map(|_| r.below(n)).collect(), j),
            24 => Sum((0..r.below(5)).map(|_| r.below(n)).collect()),
            25 => MAdd((0..r.below(5)).map(|_| (r.below(n), r.field())).collect()),
            26 => Root(i, r.below(5) as u32),
            27 => EnfZ(i),
            28 => EnfEq(i, j),
            _ => match r.below(4) {
                0 => Consist(i),
                1 => Rewire(i),
                _ => Write((0..r.below(4)).map(|_| r.below(n)).collect(), if m == 0 { vec![] } else { (0..r.below(3)).map(|_| r.below(m)).collect() }),
            },
        }
    } else if k < mix.els + mix.bools {
        let a = idx(r, m);
        let b = idx(r, m);
        match r.below(16) {
            0 | 1 => if depth == 0 { BAlloc } else { Not(a) },
            2 | 3 => Not(a),
            4 | 5 | 6 => And(a, b),
            7 | 8 => Sel(a, i, j),
            9 => CEq(a, i, j),
            10 => BEl(a),
            11 => Pack((0..r.below(F::CAPACITY as usize * 2 + 2).min(40)).map(|_| r.below(m)).collect()),
            12 => BConsist(a),
            13 => BRewire(a),
            14 => BEnfEq(a, b),
            _ => Sendable(i, a),
        }
    } else {
        let mut p = Prog { ops: vec![] };
        let mut t = RefState { els: vec![s.e(i), s.e(j)], ..Default::default() };
        let len = r.range(1, 6);
        let sub = Mix { calls: if depth >= 2 { 0 } else { mix.calls }, ..*mix };
        while p.ops.len() < len {
            let o = gen_op(r, &t, &sub, depth + 1);
            let mut t2 = t.clone();
            let st = t2.step(&o, &[]);
            if st != St::Ok {
                continue;
            }
            t = t2;
            p.ops.push(o);
        }
        Call(Arc::new(p), i, j, if r.bool() { Pred::Known } else { Pred::Unknown })
    }
}

/// A random program with its witness; stops at the first kept failing step.
pub fn gen_prog<F: PrimeField>(r: &mut VRng, len: usize, mix: &Mix) -> (Prog<F>, Vec<F>) {
    let mut p = Prog { ops: vec![] };
    let mut w: Vec<F> = vec![];
    let mut s = RefState::default();
    let put = |o: Op<F>, v: Option<F>, p: &mut Prog<F>, w: &mut Vec<F>, s: &mut RefState<F>| {
        if let Some(v) = v {
            w.push(v);
        }
        let st = s.step(&o, w);
        p.ops.push(o);
        st
    };
    for _ in 0..2 {
        let v = r.field();
        put(if r.bool() { Op::In } else { Op::Alloc }, Some(v), &mut p, &mut w, &mut s);
    }
    if mix.bools > 0 {
        for _ in 0..2 {
            let v = bf(r.bool());
            put(Op::BAlloc, Some(v), &mut p, &mut w, &mut s);
        }
    }
    let mut guard = 0;
    while p.ops.len() < len && guard < 50 * len {
        guard += 1;
        let o = gen_op(r, &s, mix, 0);
        let v = match &o {
            Op::In | Op::Alloc | Op::AllocSq => Some(r.field()),
            Op::BAlloc => Some(bf(r.bool())),
            _ => None,
        };
        let mut s2 = s.clone();
        let mut w2 = w.clone();
        w2.extend(v);
        if s2.step(&o, &w2) != St::Ok {
            // 0/0 is documented as unconstrained: not a rejection the system promises
            let excluded = match &o {
                Op::Div(i, j) => s.e(*j) == F::ZERO && s.e(*i) == F::ZERO,
                _ => false,
            };
            if excluded || r.below(100) >= mix.fail {
                continue;
            }
            put(o, v, &mut p, &mut w, &mut s);
            return (p, w);
        }
        put(o, v, &mut p, &mut w, &mut s);
    }
    (p, w)
}

/// Another witness for the same program (its status may differ).
pub fn rewitness<F: PrimeField>(r: &mut VRng, p: &Prog<F>) -> Vec<F> {
    p.ops
        .iter()
        .filter_map(|o| match o {
            Op::In | Op::Alloc | Op::AllocSq => Some(r.field()),
            Op::BAlloc => Some(bf(r.bool())),
            _ => None,
        })
        .collect()
}
/// Whether a status other than success came from dividing zero by zero.
pub fn zero_over_zero<F: PrimeField>(p: &Prog<F>, w: &[F]) -> bool {
    fn go<F: PrimeField>(p: &Prog<F>, s: &mut RefState<F>, w: &[F]) -> bool {
        for o in &p.ops {
            match o {
                Op::Div(i, j) if s.e(*i) == F::ZERO && s.e(*j) == F::ZERO => return true,
                Op::Call(q, i, j, _) => {
                    let mut t = RefState { els: vec![s.e(*i), s.e(*j)], ..Default::default() };
                    if go(q, &mut t, &[]) {
                        return true;
                    }
                }
                _ => {}
            }
            if s.step(o, w) != St::Ok {
                return false;
            }
        }
        false
    }
    go(p, &mut RefState::default(), w)
}
