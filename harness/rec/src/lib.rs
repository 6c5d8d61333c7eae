//! A recording driver: an independent implementation of the circuit driver
//! interface that logs the exact sequence of gates, linear wires, constraints
//! and routine boundaries, and (when witnesses are present) every wire value.
use ff::Field;
use ragu_arithmetic::Coeff;
use ragu_core::Result;
use ragu_core::drivers::emulator::Emulator;
use ragu_core::drivers::{Driver, DriverTypes, LinearExpression};
use ragu_core::gadgets::Bound;
use ragu_core::maybe::{Always, Empty, MaybeKind};
use ragu_core::routines::Routine;
use std::marker::PhantomData;

pub mod solve;

/// The field element a symbolic coefficient denotes (independent of the library's own conversion).
pub fn cval<F: Field>(c: &Coeff<F>) -> F {
    match c {
        Coeff::Zero => F::ZERO,
        Coeff::One => F::ONE,
        Coeff::Two => F::ONE + F::ONE,
        Coeff::NegativeOne => F::ZERO - F::ONE,
        Coeff::Arbitrary(v) => *v,
        Coeff::NegativeArbitrary(v) => F::ZERO - *v,
    }
}

pub trait RecKind: MaybeKind + 'static {
    const PRESENT: bool;
    /// Runs the closure only when witnesses are present (it is not even instantiated otherwise).
    fn with<R>(f: impl FnOnce() -> R) -> Option<R>;
}
impl RecKind for Always<()> {
    const PRESENT: bool = true;
    fn with<R>(f: impl FnOnce() -> R) -> Option<R> {
        Some(f())
    }
}
impl RecKind for Empty {
    const PRESENT: bool = false;
    fn with<R>(_: impl FnOnce() -> R) -> Option<R> {
        None
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum W {
    One,
    /// Wire 0..4 of gate i.
    G(u32, u8),
    /// i-th linear wire.
    L(u32),
    /// Free-standing wire introduced by the harness.
    X(u32),
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ev<F> {
    Gate,
    Add(Vec<(W, F)>),
    Zero(Vec<(W, F)>),
    Enter,
    Exit,
}

pub struct Rec<F: Field, K: RecKind> {
    pub ev: Vec<Ev<F>>,
    /// Values of each gate's wires (empty without witnesses).
    pub gates: Vec<[F; 4]>,
    pub lin: Vec<F>,
    pub ext: Vec<F>,
    pub n_gates: usize,
    pub n_lin: usize,
    pub n_zero: usize,
    pub n_ext: usize,
    /// How many value closures were run.
    pub closures: usize,
    /// Fail value-independent operations after this many (fault injection).
    pub fail_after: Option<usize>,
    ops: usize,
    pub depth: usize,
    pub max_depth: usize,
    pub routines: usize,
    _m: PhantomData<K>,
}

pub struct RecLC<F> {
    pub terms: Vec<(W, F)>,
    gain: F,
}
impl<F: Field> Default for RecLC<F> {
    fn default() -> Self {
        RecLC { terms: vec![], gain: F::ONE }
    }
}
impl<F: Field> LinearExpression<W, F> for RecLC<F> {
    fn add_term(mut self, wire: &W, coeff: Coeff<F>) -> Self {
        self.terms.push((*wire, cval(&coeff) * self.gain));
        self
    }
    fn gain(mut self, coeff: Coeff<F>) -> Self {
        self.gain *= cval(&coeff);
        self
    }
}

impl<F: Field, K: RecKind> Default for Rec<F, K> {
    fn default() -> Self {
        Self::new()
    }
}

impl<F: Field, K: RecKind> Rec<F, K> {
    pub fn new() -> Self {
        Rec {
            ev: vec![],
            gates: vec![],
            lin: vec![],
            ext: vec![],
            n_gates: 0,
            n_lin: 0,
            n_zero: 0,
            n_ext: 0,
            closures: 0,
            fail_after: None,
            ops: 0,
            depth: 0,
            max_depth: 0,
            routines: 0,
            _m: PhantomData,
        }
    }
    /// A new wire that is constrained by nothing, with the given value.
    pub fn external(&mut self, v: F) -> W {
        self.n_ext += 1;
        if K::PRESENT {
            self.ext.push(v);
        }
        W::X(self.n_ext as u32 - 1)
    }
    pub fn val(&self, w: &W) -> F {
        match *w {
            W::One => F::ONE,
            W::G(i, k) => self.gates[i as usize][k as usize],
            W::L(i) => self.lin[i as usize],
            W::X(i) => self.ext[i as usize],
        }
    }
    fn sum(&self, t: &[(W, F)]) -> F {
        t.iter().map(|(w, c)| self.val(w) * c).fold(F::ZERO, |a, b| a + b)
    }
    fn tick(&mut self) -> Result<()> {
        self.ops += 1;
        if self.fail_after.is_some_and(|k| self.ops > k) {
            return Err(ragu_core::Error::InvalidWitness("injected driver fault".into()));
        }
        Ok(())
    }
    /// First violated equation, if any.
    pub fn violated(&self) -> Option<String> {
        for (i, [a, b, c, d]) in self.gates.iter().enumerate() {
            if *a * b != *c {
                return Some(format!("gate {i}: a*b != c"));
            }
            if *c * d != F::ZERO {
                return Some(format!("gate {i}: c*d != 0"));
            }
        }
        let mut k = 0;
        for e in &self.ev {
            if let Ev::Zero(t) = e {
                if self.sum(t) != F::ZERO {
                    return Some(format!("constraint {k}: {t:?} is not zero"));
                }
                k += 1;
            }
        }
        None
    }
}

impl<F: Field, K: RecKind> DriverTypes for Rec<F, K> {
    type ImplField = F;
    type ImplWire = W;
    type MaybeKind = K;
    type LCadd = RecLC<F>;
    type LCenforce = RecLC<F>;
    fn gate(&mut self, values: impl Fn() -> Result<(Coeff<F>, Coeff<F>, Coeff<F>, Coeff<F>)>) -> Result<(W, W, W, W)> {
        self.tick()?;
        if let Some(v) = K::with(|| values()) {
            self.closures += 1;
            let (a, b, c, d) = v?;
            self.gates.push([cval(&a), cval(&b), cval(&c), cval(&d)]);
        }
        let i = self.n_gates as u32;
        self.n_gates += 1;
        self.ev.push(Ev::Gate);
        Ok((W::G(i, 0), W::G(i, 1), W::G(i, 2), W::G(i, 3)))
    }
}

impl<'dr, F: Field, K: RecKind> Driver<'dr> for Rec<F, K> {
    type F = F;
    type Wire = W;
    const ONE: W = W::One;
    fn add(&mut self, lc: impl Fn(RecLC<F>) -> RecLC<F>) -> W {
        let lc = lc(RecLC::default());
        if K::PRESENT {
            let v = self.sum(&lc.terms);
            self.lin.push(v);
        }
        self.ev.push(Ev::Add(lc.terms));
        self.n_lin += 1;
        W::L(self.n_lin as u32 - 1)
    }
    fn enforce_zero(&mut self, lc: impl Fn(RecLC<F>) -> RecLC<F>) -> Result<()> {
        self.tick()?;
        let lc = lc(RecLC::default());
        self.ev.push(Ev::Zero(lc.terms));
        self.n_zero += 1;
        Ok(())
    }
    fn routine<R: Routine<F> + 'dr>(&mut self, routine: R, input: Bound<'dr, Self, R::Input>) -> Result<Bound<'dr, Self, R::Output>> {
        self.ev.push(Ev::Enter);
        self.routines += 1;
        self.depth += 1;
        self.max_depth = self.max_depth.max(self.depth);
        let aux = Emulator::predict(&routine, &input)?.into_aux();
        let r = routine.execute(self, input, aux)?;
        self.depth -= 1;
        self.ev.push(Ev::Exit);
        Ok(r)
    }
}

/// The recorded constraint system over gate wires and external wires only.
pub struct System<F> {
    /// Variable `4*i+k` is wire k of gate i; externals follow.
    pub n_gates: usize,
    pub n_ext: usize,
    /// Affine forms `sum + constant = 0`.
    pub zeros: Vec<solve::Aff<F>>,
    lin: Vec<solve::Aff<F>>,
}
impl<F: Field> System<F> {
    pub fn of<K: RecKind>(r: &Rec<F, K>) -> Self {
        let mut s = System { n_gates: r.n_gates, n_ext: r.n_ext, zeros: vec![], lin: vec![] };
        for e in &r.ev {
            match e {
                Ev::Add(t) => {
                    let a = s.expand(t);
                    s.lin.push(a);
                }
                Ev::Zero(t) => {
                    let a = s.expand(t);
                    s.zeros.push(a);
                }
                _ => {}
            }
        }
        s
    }
    fn expand(&self, t: &[(W, F)]) -> solve::Aff<F> {
        let mut a = solve::Aff::zero();
        for (w, c) in t {
            a.add_scaled(&self.form(w), *c);
        }
        a
    }
    /// The affine form a wire denotes.
    pub fn form(&self, w: &W) -> solve::Aff<F> {
        match *w {
            W::One => solve::Aff::constant(F::ONE),
            W::G(i, k) => solve::Aff::var(4 * i + k as u32),
            W::X(i) => solve::Aff::var(4 * self.n_gates as u32 + i),
            W::L(i) => self.lin[i as usize].clone(),
        }
    }
}
