//! Emulators: random circuit programs run under every emulator and compared
//! with a direct evaluation of the program on field values.
use ff::{Field, PrimeField};
use ragu_arithmetic::Coeff;
use ragu_core::drivers::emulator::{Emulator, Wired};
use ragu_core::drivers::{Driver, DriverValue, LinearExpression};
use ragu_core::gadgets::{Bound, Gadget, Kind};
use ragu_core::maybe::{Always, Empty, Maybe, MaybeKind};
use ragu_core::routines::{Prediction, Routine};
use ragu_core::{Error, Result};
use rec::{Rec, cval};
use std::fmt;
use std::marker::PhantomData;
use std::sync::Arc;
use std::sync::atomic::{AtomicU64, Ordering};
use vh::*;

/// A wire together with the value the circuit code believes it has.
#[derive(Gadget)]
pub struct Wr<'dr, D: Driver<'dr>> {
    #[ragu(wire)]
    pub w: D::Wire,
    #[ragu(value)]
    pub v: DriverValue<D, D::F>,
}

#[derive(Clone, Debug)]
pub enum Lc<F: Field> {
    Term(usize, Coeff<F>),
    Gain(Coeff<F>),
    Add(usize),
    Sub(usize),
    Ext(Vec<(usize, Coeff<F>)>),
}
#[derive(Clone, Debug)]
pub enum Ins<F: Field> {
    Alloc(Coeff<F>),
    /// Free values for all four wires of a gate.
    Gate([Coeff<F>; 4]),
    /// A product of existing values.
    Mul(usize, usize),
    Const(Coeff<F>),
    Add(Vec<Lc<F>>),
    Zero(Vec<Lc<F>>),
    Eq(usize, usize),
    /// Routine over the last `IN` wires; `known` selects whether its output is predicted.
    Call { prog: Arc<Vec<Ins<F>>>, known: bool, fail: u8 },
    /// A gate closure that fails.
    GateFail(u64),
    /// A witness computation that fails.
    WitnessFail(u64),
}
pub const IN: usize = 3;
pub const OUT: usize = 2;

#[derive(Debug)]
pub struct Marker(pub u64);
impl fmt::Display for Marker {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "marker {}", self.0)
    }
}
impl std::error::Error for Marker {}
pub fn mark<T>(id: u64) -> Result<T> {
    match id % 3 {
        0 => Err(Error::InvalidWitness(Box::new(Marker(id)))),
        1 => Err(Error::MalformedEncoding(Box::new(Marker(id)))),
        _ => Err(Error::Initialization(Box::new(Marker(id)))),
    }
}
pub fn marked(e: &Error) -> Option<u64> {
    let (k, b) = match e {
        Error::InvalidWitness(b) => (0, b),
        Error::MalformedEncoding(b) => (1, b),
        Error::Initialization(b) => (2, b),
        _ => return None,
    };
    let id = b.downcast_ref::<Marker>()?.0;
    (id % 3 == k).then_some(id)
}

#[derive(Clone)]
pub struct Prog<F: Field> {
    pub ins: Arc<Vec<Ins<F>>>,
    pub known: bool,
    pub fail: u8,
    pub probes: Arc<AtomicU64>,
}

fn model_lc<F: Field>(l: &[Lc<F>], v: &[F]) -> F {
    let mut g = F::ONE;
    let mut s = F::ZERO;
    for o in l {
        match o {
            Lc::Term(i, c) => s += v[*i] * cval(c) * g,
            Lc::Gain(c) => g *= cval(c),
            Lc::Add(i) => s += v[*i] * g,
            Lc::Sub(i) => s -= v[*i] * g,
            Lc::Ext(t) => t.iter().for_each(|(i, c)| s += v[*i] * cval(c) * g),
        }
    }
    s
}
/// What the program means. `gates`: whether gate closures run at all.
pub fn model<F: Field>(p: &[Ins<F>], v: &mut Vec<F>, gates: bool, predicts: bool, present: bool) -> std::result::Result<(), u64> {
    for i in p {
        match i {
            Ins::Alloc(c) | Ins::Const(c) => v.push(cval(c)),
            Ins::Gate(c) => v.extend(c.iter().map(cval)),
            Ins::Mul(a, b) => {
                let (a, b) = (v[*a], v[*b]);
                v.extend([a, b, a * b]);
            }
            Ins::Add(l) => v.push(model_lc(l, v)),
            Ins::Zero(_) | Ins::Eq(..) => {}
            Ins::GateFail(id) => {
                if gates && present {
                    return Err(*id);
                }
                v.push(F::ZERO);
            }
            Ins::WitnessFail(id) => {
                if present {
                    return Err(*id);
                }
            }
            Ins::Call { prog, known, fail } => {
                if *fail == 1 {
                    return Err(77_001);
                }
                let executes = !(predicts && *known);
                if *fail == 2 && executes {
                    return Err(77_002);
                }
                if *fail == 3 && present {
                    return Err(77_003);
                }
                let mut u = v[v.len() - IN..].to_vec();
                // the routine's prediction is what direct evaluation gives
                if executes {
                    model(prog, &mut u, gates, predicts, present)?;
                } else {
                    let _ = model(prog, &mut u, false, true, false);
                }
                v.extend_from_slice(&u[u.len() - OUT..]);
            }
        }
    }
    Ok(())
}

pub fn exec<'dr, D: Driver<'dr>>(dr: &mut D, p: &[Ins<D::F>], v: &mut Vec<Wr<'dr, D>>, probes: &Arc<AtomicU64>) -> Result<()>
where
    D::F: PrimeField,
{
    fn lc_of<'dr, D: Driver<'dr>, L: LinearExpression<D::Wire, D::F>>(mut x: L, l: &[Lc<D::F>], v: &[Wr<'dr, D>]) -> L {
        for o in l {
            x = match o {
                Lc::Term(i, c) => x.add_term(&v[*i].w, *c),
                Lc::Gain(c) => x.gain(*c),
                Lc::Add(i) => x.add(&v[*i].w),
                Lc::Sub(i) => x.sub(&v[*i].w),
                Lc::Ext(t) => x.extend(t.iter().map(|(i, c)| (v[*i].w.clone(), *c))),
            };
        }
        x
    }
    let probe = |n: u64| {
        probes.fetch_add(n, Ordering::SeqCst);
    };
    for i in p {
        match i {
            Ins::Alloc(c) => {
                let w = dr.alloc(|| {
                    probe(1);
                    Ok(*c)
                })?;
                v.push(Wr { w, v: D::just(|| cval(c)) });
            }
            Ins::Const(c) => {
                let w = dr.constant(*c);
                v.push(Wr { w, v: D::just(|| cval(c)) });
            }
            Ins::Gate(c) => {
                let (a, b, x, d) = dr.gate(|| {
                    probe(1);
                    Ok((c[0], c[1], c[2], c[3]))
                })?;
                for (k, w) in [a, b, x, d].into_iter().enumerate() {
                    v.push(Wr { w, v: D::just(|| cval(&c[k])) });
                }
            }
            Ins::Mul(i, j) => {
                let (vi, vj) = (Maybe::clone(&v[*i].v), Maybe::clone(&v[*j].v));
                let (a, b, x) = dr.mul(|| {
                    probe(1);
                    let (a, b) = (*vi.snag(), *vj.snag());
                    Ok((a.into(), b.into(), (a * b).into()))
                })?;
                dr.enforce_equal(&a, &v[*i].w)?;
                dr.enforce_equal(&b, &v[*j].w)?;
                let prod = Maybe::clone(&vi).and_then(|a| Maybe::clone(&vj).map(|b| a * b));
                v.push(Wr { w: a, v: vi });
                v.push(Wr { w: b, v: vj });
                v.push(Wr { w: x, v: prod });
            }
            Ins::Add(l) => {
                let w = dr.add(|x| lc_of::<D, _>(x, l, v));
                let val = D::just(|| {
                    probe(1);
                    let u: Vec<D::F> = v.iter().map(|x| *x.v.snag()).collect();
                    model_lc(l, &u)
                });
                v.push(Wr { w, v: val });
            }
            Ins::Zero(l) => dr.enforce_zero(|x| lc_of::<D, _>(x, l, v))?,
            Ins::Eq(i, j) => dr.enforce_equal(&v[*i].w, &v[*j].w)?,
            Ins::GateFail(id) => {
                let w = dr.alloc(|| {
                    probe(1);
                    mark(*id)
                })?;
                v.push(Wr { w, v: D::just(|| D::F::ZERO) });
            }
            Ins::WitnessFail(id) => {
                D::try_just(|| -> Result<()> {
                    probe(1);
                    mark(*id)
                })?;
            }
            Ins::Call { prog, known, fail } => {
                let n = v.len();
                let input: [Wr<'dr, D>; IN] = std::array::from_fn(|i| v[n - IN + i].clone());
                let out = dr.routine(Prog { ins: prog.clone(), known: *known, fail: *fail, probes: probes.clone() }, input)?;
                v.extend(out);
            }
        }
    }
    Ok(())
}

impl<F: PrimeField> Routine<F> for Prog<F> {
    type Input = [PhantomData<Kind![F; Wr<'_, _>]>; IN];
    type Output = [PhantomData<Kind![F; Wr<'_, _>]>; OUT];
    type Aux<'dr> = F;
    fn execute<'dr, D: Driver<'dr, F = F>>(&self, dr: &mut D, input: Bound<'dr, D, Self::Input>, aux: DriverValue<D, F>) -> Result<Bound<'dr, D, Self::Output>> {
        if self.fail == 2 {
            return mark(77_002);
        }
        // the auxiliary value computed by the prediction arrives unchanged
        let sum = D::just(|| input.iter().enumerate().fold(F::ZERO, |a, (i, x)| a + *x.v.snag() * F::from(i as u64 + 5)));
        D::try_just(|| if *sum.snag() == *aux.snag() { Ok(()) } else { mark(77_900) })?;
        let mut v = input.to_vec();
        exec(dr, &self.ins, &mut v, &self.probes)?;
        let k = v.len();
        Ok(std::array::from_fn(|i| v[k - OUT + i].clone()))
    }
    fn predict<'dr, D: Driver<'dr, F = F, Wire = ()>>(&self, _: &mut D, input: &Bound<'dr, D, Self::Input>) -> Result<Prediction<Bound<'dr, D, Self::Output>, DriverValue<D, F>>> {
        if self.fail == 1 {
            return mark(77_001);
        }
        let aux = D::try_just(|| {
            self.probes.fetch_add(1, Ordering::SeqCst);
            if self.fail == 3 {
                return mark(77_003);
            }
            Ok(input.iter().enumerate().fold(F::ZERO, |a, (i, x)| a + *x.v.snag() * F::from(i as u64 + 5)))
        })?;
        if self.known {
            let vals = D::just(|| {
                let mut u: Vec<F> = input.iter().map(|x| *x.v.snag()).collect();
                let _ = model(&self.ins, &mut u, false, true, false);
                u
            });
            let out = std::array::from_fn(|i| Wr { w: (), v: vals.as_ref().map(|u| u[u.len() - OUT + i]) });
            Ok(Prediction::Known(out, aux))
        } else {
            Ok(Prediction::Unknown(aux))
        }
    }
}

pub fn coeff<F: PrimeField>(r: &mut VRng) -> Coeff<F> {
    match r.below(8) {
        0 => Coeff::Zero,
        1 => Coeff::One,
        2 => Coeff::Two,
        3 => Coeff::NegativeOne,
        4 | 5 => Coeff::NegativeArbitrary(r.field()),
        _ => Coeff::Arbitrary(r.field()),
    }
}
pub fn lcops<F: PrimeField>(r: &mut VRng, n: usize) -> Vec<Lc<F>> {
    (0..r.below(7))
        .map(|_| match r.below(6) {
            0 | 1 => Lc::Term(r.below(n), coeff(r)),
            2 => Lc::Gain(coeff(r)),
            3 => Lc::Add(r.below(n)),
            4 => Lc::Sub(r.below(n)),
            _ => Lc::Ext((0..r.below(4)).map(|_| (r.below(n), coeff(r))).collect()),
        })
        .collect()
}
/// Programs that may contain failing steps only when `faults`.
pub fn program<F: PrimeField>(r: &mut VRng, start: usize, len: usize, depth: usize, faults: bool) -> Vec<Ins<F>> {
    let mut n = start;
    let mut p = vec![];
    for k in 0..len {
        let i = match r.below(if faults { 30 } else { 28 }) {
            0..=4 => Ins::Alloc(coeff(r)),
            5..=7 => Ins::Gate([coeff(r), coeff(r), coeff(r), coeff(r)]),
            8..=12 if n > 0 => Ins::Mul(r.below(n), r.below(n)),
            13..=14 => Ins::Const(coeff(r)),
            15..=20 if n > 0 => Ins::Add(lcops(r, n)),
            21..=22 if n > 0 => Ins::Zero(lcops(r, n)),
            23 if n > 0 => Ins::Eq(r.below(n), r.below(n)),
            24..=27 if n >= IN && depth > 0 => {
                let l = r.range(1, 8);
                let f = if faults && r.chance(1, 3) { r.range(1, 3) as u8 } else { 0 };
                Ins::Call { prog: Arc::new(program(r, IN, l, depth - 1, faults)), known: r.bool(), fail: f }
            }
            28 if k > 0 => Ins::GateFail(r.u64() % 70_000),
            29 if k > 0 => Ins::WitnessFail(r.u64() % 70_000),
            _ => Ins::Alloc(coeff(r)),
        };
        n += match &i {
            Ins::Alloc(_) | Ins::Const(_) | Ins::Add(_) | Ins::GateFail(_) => 1,
            Ins::Gate(_) => 4,
            Ins::Mul(..) => 3,
            Ins::Call { .. } => OUT,
            _ => 0,
        };
        p.push(i);
    }
    p
}

fn case<F: PrimeField>(c: &mut Case) -> Res {
    let faults = c.rng.chance(1, 3);
    let len = c.rng.range(1, 40);
    let p = program::<F>(&mut c.rng, 0, len, 3, faults);
    let key = format!("{p:?}");
    let probes = Arc::new(AtomicU64::new(0));
    let fresh = || probes.swap(0, Ordering::SeqCst);

    // value-tracking emulator
    let mut want = vec![];
    let wr = model(&p, &mut want, true, false, true);
    type Ed<F> = Emulator<Wired<F>>;
    let got: Result<(Vec<F>, Vec<F>, Vec<F>, u64)> = Ed::<F>::emulate_wired(41u64, |dr, w| {
        let mut v = vec![];
        exec(dr, &p, &mut v, &probes)?;
        let values: Vec<F> = v.iter().map(|x| *x.v.snag()).collect();
        let each: Vec<F> = v.iter().map(|x| dr.wires(x)).collect::<Result<Vec<_>>>()?.concat();
        // all at once, through nested gadgets
        let mut all = vec![];
        for ch in v.chunks(3) {
            match ch {
                [a, b, x] => all.extend(dr.wires(&((a.clone(), Box::new(b.clone())), [x.clone()]))?),
                [a, b] => all.extend(dr.wires(&[a.clone(), b.clone()])?),
                [a] => all.extend(dr.wires(&(a.clone(), ()))?),
                _ => unreachable!(),
            }
        }
        Ok((values, each, all, w.take()))
    });
    match (&wr, got) {
        (Ok(()), Ok((values, each, all, w))) => {
            ensure_eq!(each, want, "wire values under the value-tracking emulator");
            ensure_eq!(values, want, "witness values under the value-tracking emulator");
            ensure_eq!(all, want, "wires extracted from nested gadgets");
            ensure_eq!(w, 41, "witness passed through");
        }
        (Err(id), Err(e)) => {
            ensure_eq!(marked(&e), Some(*id), "error surfaced by the value-tracking emulator");
            c.event("errors surfaced", 1);
        }
        (a, b) => return Err(format!("value-tracking emulator: expected {a:?}, got {:?}", b.map(|_| ()))),
    }
    fresh();

    // valueless emulator with witnesses
    let mut want2 = vec![];
    let wr2 = model(&p, &mut want2, false, true, true);
    let got: Result<(Vec<F>, u64)> = Emulator::emulate_wireless(17u64, |dr, w| {
        let mut v = vec![];
        exec(dr, &p, &mut v, &probes)?;
        Ok((v.iter().map(|x| *x.v.snag()).collect(), w.take()))
    });
    match (&wr2, got) {
        (Ok(()), Ok((values, w))) => {
            ensure_eq!(values, want2, "witness values under the valueless emulator");
            ensure_eq!(w, 17, "witness passed through");
            if wr.is_ok() {
                ensure_eq!(want2, want, "emulators disagree");
            }
        }
        (Err(id), Err(e)) => {
            ensure_eq!(marked(&e), Some(*id), "error surfaced by the valueless emulator");
            c.event("errors surfaced", 1);
        }
        (a, b) => return Err(format!("valueless emulator: expected {a:?}, got {:?}", b.map(|_| ()))),
    }
    fresh();

    // no witnesses: same shape, and no closure runs
    let mut w3 = vec![];
    let wr3 = model(&p, &mut w3, false, true, false);
    let got: Result<usize> = (|| {
        let mut dr = Emulator::<ragu_core::drivers::emulator::Wireless<Empty, F>>::counter();
        let mut v = vec![];
        exec(&mut dr, &p, &mut v, &probes)?;
        Ok(v.len())
    })();
    ensure_eq!(fresh(), 0, "closures run although witnesses are absent (counting emulator)");
    match (&wr3, got) {
        (Ok(()), Ok(n)) => ensure_eq!(n, w3.len(), "wires produced without witnesses"),
        (Err(id), Err(e)) => ensure_eq!(marked(&e), Some(*id), "error surfaced without witnesses"),
        (a, b) => return Err(format!("counting emulator: expected {a:?}, got {b:?}")),
    }
    let mut w4 = vec![];
    let wr4 = model(&p, &mut w4, false, false, false);
    let got: Result<usize> = (|| {
        let mut v = vec![];
        exec(&mut PhantomData::<F>, &p, &mut v, &probes)?;
        Ok(v.len())
    })();
    ensure_eq!(fresh(), 0, "closures run although witnesses are absent (phantom driver)");
    match (&wr4, got) {
        (Ok(()), Ok(n)) => ensure_eq!(n, w4.len(), "wires produced by the phantom driver"),
        (Err(id), Err(e)) => ensure_eq!(marked(&e), Some(*id), "error surfaced by the phantom driver"),
        (a, b) => return Err(format!("phantom driver: expected {a:?}, got {b:?}")),
    }
    // the recorder (default routine and allocation behaviour of the trait)
    let mut w5 = vec![];
    let wr5 = model(&p, &mut w5, true, false, true);
    let mut dr = Rec::<F, Always<()>>::new();
    let mut v = vec![];
    match (&wr5, exec(&mut dr, &p, &mut v, &probes)) {
        (Ok(()), Ok(())) => {
            let got: Vec<F> = v.iter().map(|x| dr.val(&x.w)).collect();
            ensure_eq!(got, w5, "wire values under a recording driver");
            let mut dr2 = Rec::<F, Empty>::new();
            let mut v2 = vec![];
            fresh();
            exec(&mut dr2, &p, &mut v2, &probes).map_err(|e| format!("recorder without witnesses: {e}"))?;
            ensure_eq!(fresh(), 0, "closures run although witnesses are absent (recorder)");
            ensure!(dr.ev == dr2.ev, "recorded systems differ with and without witnesses");
        }
        (Err(id), Err(e)) => ensure_eq!(marked(&e), Some(*id), "error surfaced by the recorder"),
        (a, b) => return Err(format!("recorder: expected {a:?}, got {b:?}")),
    }
    c.event("programs", 1);
    c.event("wires compared", want.len() as u64 * 3);
    c.event(if wr.is_ok() { "ok outcomes" } else { "error outcomes" }, 1);
    c.seen(&key);
    c.sample("program", || key.chars().take(300).collect());
    Ok(())
}

/// Routine call counts and prediction plumbing observed through the driver.
fn predictions<F: PrimeField>(c: &mut Case) -> Res {
    let p = Arc::new(program::<F>(&mut c.rng, IN, 6, 1, false));
    let vals: [F; IN] = std::array::from_fn(|_| c.rng.field());
    let mut u = vals.to_vec();
    model(&p, &mut u, true, false, true).map_err(|e| format!("{e}"))?;
    let want = u[u.len() - OUT..].to_vec();
    for known in [false, true] {
        let pr = Prog { ins: p.clone(), known, fail: 0, probes: Default::default() };
        // predicting from a driver that carries wires and witnesses
        let mut dr = Rec::<F, Always<()>>::new();
        let input: [Wr<'_, Rec<F, Always<()>>>; IN] = std::array::from_fn(|i| Wr { w: dr.external(vals[i]), v: <Always<()> as MaybeKind>::maybe_just(|| vals[i]) });
        let got = Emulator::predict(&pr, &input).map_err(|e| format!("predict: {e}"))?;
        let aux = vals.iter().enumerate().fold(F::ZERO, |a, (i, x)| a + *x * F::from(i as u64 + 5));
        match got {
            Prediction::Known(o, a) => {
                ensure!(known, "prediction appeared from nowhere");
                let o: [Wr<'_, Emulator<ragu_core::drivers::emulator::Wireless<Always<()>, F>>>; OUT] = o;
                let got: Vec<F> = o.iter().map(|x| *Maybe::<F>::snag(&x.v)).collect();
                ensure_eq!(got, want, "predicted output");
                ensure_eq!(a.take(), aux, "auxiliary value");
            }
            Prediction::Unknown(a) => {
                ensure!(!known, "prediction was lost");
                ensure_eq!(a.take(), aux, "auxiliary value");
            }
        }
        let got: Always<F> = Emulator::predict(&pr, &input).map_err(|e| format!("predict: {e}"))?.into_aux();
        ensure_eq!(got.take(), aux, "into_aux");
        // and without witnesses
        let mut dr = Rec::<F, Empty>::new();
        let input: [Wr<'_, Rec<F, Empty>>; IN] = std::array::from_fn(|i| Wr { w: dr.external(vals[i]), v: Empty });
        let k = matches!(Emulator::predict(&pr, &input).map_err(|e| format!("predict: {e}"))?, Prediction::Known(..));
        ensure_eq!(k, known, "prediction kind without witnesses");
    }
    c.seen(&format!("{p:?}{vals:?}"));
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Random circuit programs (allocations, free gates, products, linear combinations with interleaved scaling, constants, constraints, nested predicted/unpredicted routines, injected failures) executed under every emulator and compared with direct evaluation; non-trivial when the program is new.");
    ctx.cases("large-field", ctx.n(10000, 150000), case::<pasta_curves::Fp>);
    ctx.cases("tiny-field", ctx.n(10000, 150000), case::<small::F13>);
    ctx.cases("predictions", ctx.n(2000, 20000), predictions::<pasta_curves::Fq>);
}
