//! Circuit fragments observed under every driver, and the monitors that judge
//! them: conformance to a reference (`conform`) and a hostile prover (`attack`).
use ff::PrimeField;
use ragu_core::Result;
use ragu_core::drivers::emulator::{Emulator, Wired, Wireless};
use ragu_core::drivers::{Driver, DriverValue};
use ragu_core::maybe::{Always, Empty, Maybe, MaybeKind};
use ragu_primitives::{Element, Simulator};
use rec::solve::{Aff, Flow, Solver};
use rec::{Ev, Rec, System, W};
use vh::{Case, Res, ensure, ensure_eq};

pub mod ops;

/// How a fragment obtains its free inputs.
pub trait Feeder<'dr, D: Driver<'dr>> {
    fn input(&mut self, dr: &mut D, v: DriverValue<D, D::F>) -> Result<Element<'dr, D>>;
}
/// Inputs are ordinary allocations.
pub struct AllocFeeder;
impl<'dr, D: Driver<'dr>> Feeder<'dr, D> for AllocFeeder {
    fn input(&mut self, dr: &mut D, v: DriverValue<D, D::F>) -> Result<Element<'dr, D>> {
        Element::alloc(dr, v)
    }
}
/// Inputs are free-standing wires of the recording driver.
pub struct ExtFeeder;
impl<'dr, F: PrimeField> Feeder<'dr, Rec<F, Always<()>>> for ExtFeeder {
    fn input(&mut self, dr: &mut Rec<F, Always<()>>, v: Always<F>) -> Result<Element<'dr, Rec<F, Always<()>>>> {
        let x = v.take();
        let w = dr.external(x);
        Ok(Element::promote(w, Always::maybe_just(|| x)))
    }
}
impl<'dr, F: PrimeField> Feeder<'dr, Rec<F, Empty>> for ExtFeeder {
    fn input(&mut self, dr: &mut Rec<F, Empty>, v: DriverValue<Rec<F, Empty>, F>) -> Result<Element<'dr, Rec<F, Empty>>> {
        let w = dr.external(F::ZERO);
        Ok(Element::promote(w, v))
    }
}

/// Free inputs and results of a fragment, in order.
pub struct Io<'dr, D: Driver<'dr>> {
    pub ins: Vec<Element<'dr, D>>,
    pub outs: Vec<Element<'dr, D>>,
}
impl<'dr, D: Driver<'dr>> Default for Io<'dr, D> {
    fn default() -> Self {
        Io { ins: vec![], outs: vec![] }
    }
}

pub trait Frag<F: PrimeField> {
    fn run<'dr, D: Driver<'dr, F = F>, I: Feeder<'dr, D>>(
        &self,
        dr: &mut D,
        feed: &mut I,
        io: &mut Io<'dr, D>,
        w: DriverValue<D, Vec<F>>,
    ) -> Result<()>;
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum St {
    /// Satisfiable; honest prover succeeds.
    Ok,
    /// Honest prover is refused with an error; no witness exists.
    Err,
    /// Honest values violate a constraint; no witness exists.
    Unsat,
    /// The prover supplied a wrong value: refused, though a right one may exist.
    Lie,
    /// Honest prover is refused with an error; the constraints alone promise nothing.
    ErrOnly,
}
impl St {
    pub fn honest_error(self) -> bool {
        matches!(self, St::Err | St::ErrOnly)
    }
}
#[derive(Clone, Debug)]
pub struct Expect<F> {
    pub ins: Vec<F>,
    pub outs: Vec<F>,
    pub status: St,
}

/// A recorded execution with the wires of its inputs and results.
pub struct Seen<F: PrimeField, K: rec::RecKind> {
    pub rec: Rec<F, K>,
    pub ins: Vec<W>,
    pub outs: Vec<W>,
    pub values: Vec<F>,
    pub err: Option<String>,
}

pub fn record<F: PrimeField, G: Frag<F>>(g: &G, w: &[F]) -> Seen<F, Always<()>> {
    let mut rec = Rec::new();
    let mut io: Io<'_, Rec<F, Always<()>>> = Io::default();
    let wv = w.to_vec();
    let r = g.run(&mut rec, &mut ExtFeeder, &mut io, Always::maybe_just(|| wv));
    Seen {
        ins: io.ins.iter().map(|e| *e.wire()).collect(),
        outs: io.outs.iter().map(|e| *e.wire()).collect(),
        values: io.outs.iter().map(|e| *e.value().take()).collect(),
        err: r.err().map(|e| e.to_string()),
        rec,
    }
}
pub fn structure<F: PrimeField, G: Frag<F>>(g: &G) -> Seen<F, Empty> {
    let mut rec = Rec::new();
    let mut io = Io::default();
    let r = g.run(&mut rec, &mut ExtFeeder, &mut io, Empty::maybe_just(|| Vec::<F>::new()));
    Seen {
        ins: io.ins.iter().map(|e| *e.wire()).collect(),
        outs: io.outs.iter().map(|e| *e.wire()).collect(),
        values: vec![],
        err: r.err().map(|e| e.to_string()),
        rec,
    }
}

/// Runs the fragment honestly under every driver and compares with the reference.
pub fn conform<F: PrimeField, G: Frag<F>>(c: &mut Case, g: &G, w: &[F], x: &Expect<F>) -> Res {
    // a step that violates a constraint may still hand back a value
    let cutoff = if x.status == St::Ok { usize::MAX } else { x.outs.len() };
    let what = || format!("witness {w:?}");
    // recording, with witnesses
    let s = record(g, w);
    ensure_eq!(s.err.is_some(), x.status.honest_error(), "recorded honest run refused ({:?}), {}", s.err, what());
    if !x.status.honest_error() {
        let bad = s.rec.violated();
        ensure_eq!(bad.is_some(), x.status != St::Ok, "recorded honest values violate a constraint ({bad:?}), {}", what());
    }
    c.event(&format!("honest status {:?}", x.status), 1);
    let iv: Vec<F> = s.ins.iter().map(|w| s.rec.val(w)).collect();
    ensure_eq!(iv, x.ins, "input wires, {}", what());
    let ov: Vec<F> = s.outs.iter().take(cutoff).map(|w| s.rec.val(w)).collect();
    ensure_eq!(ov, x.outs, "result wire values, {}", what());
    let sv: Vec<F> = s.values.iter().take(cutoff).copied().collect();
    ensure_eq!(sv, x.outs, "result witness values, {}", what());
    c.event("gates observed", s.rec.n_gates as u64);
    c.event("constraints observed", s.rec.n_zero as u64);
    // recording, without witnesses: same sequence
    let e = structure(g);
    ensure!(e.err.is_none(), "structure-only run refused: {:?}", e.err);
    ensure_eq!(e.rec.closures, 0, "structure-only run evaluated witness closures");
    if s.err.is_none() {
        same_events(&s.rec.ev, &e.rec.ev, true)?;
        ensure_eq!(s.outs, e.outs, "result wires differ without witnesses");
        ensure_eq!(s.ins, e.ins, "input wires differ without witnesses");
    } else {
        same_events(&s.rec.ev, &e.rec.ev, false)?;
    }
    // simulator
    {
        let mut io = Io::default();
        let mut sim = Simulator::<F>::new();
        let wv = w.to_vec();
        let r = g.run(&mut sim, &mut AllocFeeder, &mut io, Always::maybe_just(|| wv));
        ensure_eq!(r.is_err(), x.status != St::Ok, "simulator verdict ({:?}), {}", r.as_ref().err().map(|e| e.to_string()), what());
        if x.status == St::Ok {
            let v: Vec<F> = io.outs.iter().take(cutoff).map(|e| *e.wire()).collect();
            ensure_eq!(v, x.outs, "simulator wires, {}", what());
            let v: Vec<F> = io.outs.iter().take(cutoff).map(|e| *e.value().take()).collect();
            ensure_eq!(v, x.outs, "simulator values, {}", what());
            ensure_eq!(
                sim.num_gates() + sim.num_allocations(),
                s.rec.n_gates + s.rec.n_ext,
                "simulator gates+allocations vs recorded, {}",
                what()
            );
            ensure_eq!(sim.num_constraints(), s.rec.n_zero, "simulator constraints vs recorded, {}", what());
        }
    }
    // emulators
    {
        let mut io = Io::default();
        let wv = w.to_vec();
        let mut dr = Emulator::<Wired<F>>::extractor();
        let r = g.run(&mut dr, &mut AllocFeeder, &mut io, Always::maybe_just(|| wv));
        ensure_eq!(r.is_err(), x.status.honest_error(), "wired emulator verdict ({:?}), {}", r.as_ref().err().map(|e| e.to_string()), what());
        let v: Vec<F> = io.outs.iter().take(cutoff).map(|e| *e.wire()).collect();
        ensure_eq!(v, x.outs, "wired emulator wires, {}", what());
        let v: Vec<F> = io.outs.iter().take(cutoff).map(|e| *e.value().take()).collect();
        ensure_eq!(v, x.outs, "wired emulator values, {}", what());
    }
    {
        let mut io = Io::default();
        let wv = w.to_vec();
        let mut dr = Emulator::<Wireless<Always<()>, F>>::execute();
        let r = g.run(&mut dr, &mut AllocFeeder, &mut io, Always::maybe_just(|| wv));
        ensure_eq!(r.is_err(), x.status.honest_error(), "wireless emulator verdict, {}", what());
        let v: Vec<F> = io.outs.iter().take(cutoff).map(|e| *e.value().take()).collect();
        ensure_eq!(v, x.outs, "wireless emulator values, {}", what());
    }
    {
        let mut io = Io::default();
        let mut dr = Emulator::<Wireless<Empty, F>>::counter();
        let r = g.run(&mut dr, &mut AllocFeeder, &mut io, Empty::maybe_just(|| Vec::<F>::new()));
        ensure!(r.is_ok(), "counting emulator refused: {:?}", r.err().map(|e| e.to_string()));
    }
    Ok(())
}

/// Two recorded event sequences are identical (or the first is a prefix).
pub fn same_events<F: PrimeField>(a: &[Ev<F>], b: &[Ev<F>], full: bool) -> Res {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        ensure!(x == y, "constraint systems differ at event {i}: {x:?} vs {y:?}");
    }
    ensure!(a.len() == b.len() || (!full && a.len() < b.len()), "constraint systems differ in length: {} vs {}", a.len(), b.len());
    Ok(())
}

/// Search limits of the hostile prover.
#[derive(Clone, Copy)]
pub struct Budget {
    pub leaves: usize,
    pub steps: usize,
    /// Wrong values tried per result on fields that are not enumerated.
    pub tries: usize,
}
impl Default for Budget {
    fn default() -> Self {
        Budget { leaves: 50, steps: 20_000, tries: 2 }
    }
}

/// `wire = v` as an equation.
pub fn fix<F: PrimeField>(sys: &System<F>, w: &W, v: F) -> Aff<F> {
    let mut a = sys.form(w);
    a.c -= v;
    a
}

/// Searches a satisfying assignment with the given equations added.
/// Returns it (re-checked), or `None`; the flag says whether the search was cut short.
pub fn search<F: PrimeField>(
    sys: &System<F>,
    fixed: &[Aff<F>],
    seed: u64,
    all: &Option<Vec<F>>,
    b: Budget,
    accept: &dyn Fn(&[F]) -> bool,
) -> (Option<Vec<F>>, bool) {
    let mut sv = Solver::new(sys, vh::VRng::new(seed), all.clone());
    sv.max_leaves = b.leaves;
    sv.max_steps = b.steps;
    let mut found = None;
    sv.run(fixed, &mut |x| {
        if rec::solve::check(sys, x) && fixed.iter().all(|f| f.eval(x).is_zero_vartime()) && accept(x) {
            found = Some(x.to_vec());
            Flow::Stop
        } else {
            Flow::Continue
        }
    });
    let cut = sv.leaves >= b.leaves || sv.steps >= b.steps;
    (found, cut)
}

/// Hostile prover: with the inputs fixed, looks for an accepted assignment in
/// which some result differs from the reference (or any accepted assignment,
/// when the reference says none exists).
pub fn attack<F: PrimeField, G: Frag<F>>(c: &mut Case, g: &G, x: &Expect<F>, all: &Option<Vec<F>>, b: Budget) -> Res {
    if matches!(x.status, St::Lie | St::ErrOnly) {
        return Ok(());
    }
    let e = structure(g);
    ensure!(e.err.is_none(), "structure-only run refused: {:?}", e.err);
    let sys = System::of(&e.rec);
    let mut fixed: Vec<Aff<F>> = vec![];
    for (w, v) in e.ins.iter().zip(&x.ins) {
        fixed.push(fix(&sys, w, *v));
    }
    if x.status != St::Ok {
        // stops at the failing instruction: only inputs up to there are known
        let (s, cut) = search(&sys, &fixed, c.rng.u64(), all, b, &|_| true);
        if let Some(s) = s {
            return Err(format!("undefined or failing operation is satisfiable: inputs {:?}, assignment {s:?}", x.ins));
        }
        c.event(if cut { "attack cut short" } else { "attack exhausted" }, 1);
        return Ok(());
    }
    for (k, (w, v)) in e.outs.iter().zip(&x.outs).enumerate() {
        let deltas: Vec<F> = match all {
            Some(a) if a.len() <= 20 => a.iter().copied().filter(|d| !d.is_zero_vartime()).collect(),
            _ => {
                let mut d = vec![];
                for _ in 0..b.tries {
                    let mut r = F::random(&mut c.rng);
                    if r.is_zero_vartime() {
                        r = F::ONE;
                    }
                    d.push(if c.rng.below(3) == 0 { -F::ONE } else { r });
                }
                d
            }
        };
        for d in deltas {
            fixed.push(fix(&sys, w, *v + d));
            let (s, cut) = search(&sys, &fixed, c.rng.u64(), all, b, &|_| true);
            fixed.pop();
            if let Some(s) = s {
                return Err(format!("result {k} can be {:?} instead of {v:?}: inputs {:?}, assignment {s:?}", *v + d, x.ins));
            }
            c.event(if cut { "attack cut short" } else { "attack exhausted" }, 1);
        }
    }
    Ok(())
}
