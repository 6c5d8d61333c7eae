//! The simulator against a model of driver calls.
use ff::PrimeField;
use prog::ops::{Mix, Prog, gen_prog, rewitness, zero_over_zero};
use prog::{AllocFeeder, Frag, Io, St};
use ragu_arithmetic::Coeff;
use ragu_core::drivers::{Driver, DriverTypes, LinearExpression};
use ragu_core::maybe::{Always, MaybeKind};
use ragu_primitives::Simulator;
use vh::small::{F7, F97};
use vh::{Case, Ctx, Res, ensure_eq};

fn co<F: PrimeField>(c: &mut Case, v: F) -> Coeff<F> {
    // any symbolic form of the value
    match c.rng.below(3) {
        0 if v == F::ZERO => Coeff::Zero,
        0 if v == F::ONE => Coeff::One,
        0 if v == F::ONE + F::ONE => Coeff::Two,
        0 if v == -F::ONE => Coeff::NegativeOne,
        1 => Coeff::NegativeArbitrary(-v),
        _ => Coeff::Arbitrary(v),
    }
}

/// Raw driver calls with known wire values; failing calls are expected to be
/// refused without being counted, and later calls must go on as usual.
fn raw<F: PrimeField>(c: &mut Case) -> Res {
    let mut sim = Simulator::<F>::new();
    let (mut na, mut ng, mut nz) = (0usize, 0usize, 0usize);
    let mut ws: Vec<F> = vec![F::ONE];
    let mut log = vec![];
    for _ in 0..c.rng.range(5, 60) {
        let kind = c.rng.below(8);
        log.push(kind);
        match kind {
            0 => {
                let v: F = c.rng.field();
                let k = co(c, v);
                let w = Driver::alloc(&mut sim, || Ok(k)).map_err(|e| e.to_string())?;
                ensure_eq!(w, v, "allocated wire");
                ws.push(w);
                na += 1;
            }
            1 => {
                let v: F = c.rng.field();
                let k = co(c, v);
                let w = sim.constant(k);
                ensure_eq!(w, v, "constant wire");
                ws.push(w);
            }
            2 | 3 => {
                let (a, b): (F, F) = (c.rng.field(), c.rng.field());
                let mut cc = a * b;
                if c.rng.below(4) == 0 {
                    cc = c.rng.field();
                }
                let mut d = if cc == F::ZERO { c.rng.field() } else { F::ZERO };
                if c.rng.below(4) == 0 {
                    d = c.rng.field();
                }
                let ok = a * b == cc && cc * d == F::ZERO;
                let ks = (co(c, a), co(c, b), co(c, cc), co(c, d));
                let r = sim.gate(|| Ok(ks));
                ensure_eq!(r.is_ok(), ok, "gate ({a:?},{b:?},{cc:?},{d:?}) accepted");
                c.event(if ok { "gates accepted" } else { "gates refused" }, 1);
                if let Ok(w) = r {
                    ensure_eq!(w, (a, b, cc, d), "gate wires");
                    ws.extend([a, b, cc, d]);
                    ng += 1;
                }
            }
            4 => {
                let (a, b): (F, F) = (c.rng.field(), c.rng.field());
                let ks = (co(c, a), co(c, b), co(c, a * b));
                let w = sim.mul(|| Ok(ks)).map_err(|e| e.to_string())?;
                ensure_eq!(w, (a, b, a * b), "multiplication wires");
                ng += 1;
            }
            5 => {
                let t: Vec<(F, F)> = (0..c.rng.below(5)).map(|_| (*c.pick(&ws), c.rng.field())).collect();
                let g: F = c.rng.field();
                let h = c.rng.below(6);
                let w = sim.add(|mut lc| {
                    for (i, (w, k)) in t.iter().enumerate() {
                        if i == h {
                            lc = lc.gain(Coeff::Arbitrary(g));
                        }
                        lc = lc.add_term(w, Coeff::Arbitrary(*k));
                    }
                    lc
                });
                let v = t.iter().enumerate().fold(F::ZERO, |s, (i, (w, k))| s + *w * k * if i >= h { g } else { F::ONE });
                ensure_eq!(w, v, "linear combination {t:?} gain {g:?} from term {h}");
                ws.push(w);
            }
            6 => {
                let mut t: Vec<(F, F)> = (0..c.rng.below(4)).map(|_| (*c.pick(&ws), c.rng.field())).collect();
                let s = t.iter().fold(F::ZERO, |s, (w, k)| s + *w * k);
                if c.rng.bool() {
                    t.push((F::ONE, -s));
                }
                let ok = t.iter().fold(F::ZERO, |s, (w, k)| s + *w * k) == F::ZERO;
                let r = sim.enforce_zero(|mut lc| {
                    for (w, k) in &t {
                        lc = lc.add_term(w, Coeff::Arbitrary(*k));
                    }
                    lc
                });
                ensure_eq!(r.is_ok(), ok, "constraint {t:?} accepted");
                c.event(if ok { "constraints accepted" } else { "constraints refused" }, 1);
                if ok {
                    nz += 1;
                }
            }
            _ => {
                if c.rng.below(3) == 0 {
                    sim.reset();
                    (na, ng, nz) = (0, 0, 0);
                    c.event("resets", 1);
                } else {
                    let (a, b) = (*c.pick(&ws), *c.pick(&ws));
                    let r = sim.enforce_equal(&a, &b);
                    ensure_eq!(r.is_ok(), a == b, "equality {a:?} = {b:?} accepted");
                    if a == b {
                        nz += 1;
                    }
                }
            }
        }
        ensure_eq!((sim.num_allocations(), sim.num_gates(), sim.num_constraints()), (na, ng, nz), "counts (allocations, gates, constraints) after {log:?}");
    }
    c.seen(&format!("{log:?}{ws:?}"));
    Ok(())
}

/// Whole programs through `simulate`, including a reset in the middle and
/// errors raised by the fragment itself.
fn programs<F: PrimeField>(c: &mut Case) -> Res {
    let mix = Mix { els: 8, bools: 4, calls: 2, fail: 40 };
    let n = c.rng.range(5, 25);
    let (p, w0) = gen_prog::<F>(&mut c.rng, n, &mix);
    for k in 0..3 {
        let w = if k == 0 { w0.clone() } else { rewitness(&mut c.rng, &p) };
        if zero_over_zero(&p, &w) {
            continue;
        }
        let Some(q) = p.stopped(&w) else { continue };
        let x = q.expect(&w);
        c.seen(&format!("{:?}{w:?}", q.ops));
        c.event(&format!("simulated status {:?}", x.status), 1);
        let rec = prog::record(&q, &w);
        let run = |sim: &mut Simulator<F>| -> ragu_core::Result<()> {
            let mut io: Io<'_, Simulator<F>> = Io::default();
            let v = w.clone();
            q.run(sim, &mut AllocFeeder, &mut io, Always::maybe_just(|| v))
        };
        // through the entry point
        let r = Simulator::<F>::simulate(w.clone(), |sim, wit| {
            let mut io: Io<'_, Simulator<F>> = Io::default();
            q.run(sim, &mut AllocFeeder, &mut io, wit)
        });
        ensure_eq!(r.is_ok(), x.status == St::Ok, "simulate verdict on {:?} with {w:?}", q.ops);
        let total = (rec.rec.n_gates + rec.rec.n_ext, rec.rec.n_zero);
        if let Ok(s) = r {
            ensure_eq!((s.num_gates() + s.num_allocations(), s.num_constraints()), total, "counts of {:?}", q.ops);
            // same program again on the same simulator: counts add up; after reset they start over
            let mut s2 = s.clone();
            run(&mut s2).map_err(|e| e.to_string())?;
            ensure_eq!((s2.num_gates() + s2.num_allocations(), s2.num_constraints()), (2 * total.0, 2 * total.1), "counts of two runs of {:?}", q.ops);
            s2.reset();
            ensure_eq!((s2.num_gates(), s2.num_allocations(), s2.num_constraints()), (0, 0, 0), "counts after reset");
            run(&mut s2).map_err(|e| e.to_string())?;
            ensure_eq!((s2.num_gates(), s2.num_allocations(), s2.num_constraints()), (s.num_gates(), s.num_allocations(), s.num_constraints()), "counts after reset and rerun");
        }
        // an error from the fragment is passed through
        let e = Simulator::<F>::simulate((), |_, _| Err(ragu_core::Error::InvalidWitness("fragment".into())));
        ensure_eq!(e.is_err(), true, "fragment error lost");
    }
    let _: Option<Prog<F>> = None;
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Raw driver calls with chosen wire values (satisfied and violated gates and constraints, every coefficient form, resets) and whole programs are run on the simulator; verdicts and the three counters are compared after every call with a model and with the event log of the recording driver.");
    ctx.cases("driver calls F7", ctx.n(9000, 160000), raw::<F7>);
    ctx.cases("driver calls F97", ctx.n(9000, 160000), raw::<F97>);
    ctx.cases("driver calls Fp", ctx.n(9000, 160000), raw::<pasta_curves::Fp>);
    ctx.cases("programs F7", ctx.n(4800, 80000), programs::<F7>);
    ctx.cases("programs F97", ctx.n(4800, 80000), programs::<F97>);
    ctx.cases("programs Fp", ctx.n(4800, 80000), programs::<pasta_curves::Fp>);
}
