//! Sizes at, below and above every limit.
use crate::{k05, stages};
use circ::util::{Fld, dense, mixes, outs_of};
use circ::{
    Model, eval2, horner,
    nets::{Co, Gen, I, Net, NetBody, NoisyOut, Pred, Sub, Term},
    restrict, with_outs,
};
use pasta_curves::{Fp, Fq};
use ragu_circuits::{
    Circuit, CircuitExt,
    polynomials::{R, Rank},
    registry::{CircuitIndex, RegistryBuilder},
    verif::{self, Object},
};
use ragu_core::Error;
use std::sync::Arc;
use vh::{Case, Ctx, Res, VRng, catch, ensure, ensure_eq, small::*};

type T = R<7>;
type P = R<13>;

/// Adds exactly this many gates and constraints, in the root and in routines.
fn top_up<F: Fld>(r: &mut VRng, p: &mut NetBody<F>, mut gates: usize, mut cons: usize) {
    let chunk = |r: &mut VRng, gates: &mut usize, cons: &mut usize, all: bool| -> Vec<I<F>> {
        let share = |r: &mut VRng, n: usize| if all { n } else { r.below(n + 1) };
        let (g, q) = (share(r, *gates), share(r, *cons));
        *gates -= g;
        *cons -= q;
        let mut v: Vec<I<F>> = vec![];
        let (mut a, mut b) = (g, q);
        while a + b > 0 {
            if a > 0 && (b == 0 || r.below(a + b) < a) {
                v.push(I::GateAux(r.bool()));
                v.push(I::Drop(0));
                a -= 1;
            } else {
                v.push(match r.below(3) {
                    0 => I::Empty,
                    1 => I::Taut(vec![Term::One(Co::Any(r.field()))]),
                    _ => I::Taut(vec![Term::Gain(Co::Two), Term::One(Co::Neg)]),
                });
                b -= 1;
            }
        }
        v
    };
    let routines = r.below(4);
    for _ in 0..routines {
        let mut body = chunk(r, &mut gates, &mut cons, false);
        if r.bool() {
            let inner = Sub { shape: 7, pred: *r.pick(&[Pred::Known, Pred::Unknown]), body: chunk(r, &mut gates, &mut cons, false), outs: vec![], delay: 0 };
            body.insert(0, I::Call(Arc::new(inner), vec![]));
        }
        p.ops.push(I::Call(Arc::new(Sub { shape: 7, pred: *r.pick(&[Pred::Known, Pred::Unknown]), body, outs: vec![], delay: 0 }), vec![]));
    }
    // the root's wires stay, outputs may name them
    let rest = chunk(r, &mut gates, &mut cons, true);
    p.ops.extend(rest.into_iter().filter(|i| !matches!(i, I::Drop(_))));
}

fn check<F: Fld, K: Rank, C>(c: &mut Case, circuit: C, w: Vec<F>) -> Res
where
    C: for<'a> Circuit<F, Witness<'a> = Vec<F>, Instance<'a> = Vec<F>> + Clone + 'static,
{
    let n = K::n();
    let m: Model<F> = circ::witnessed(&circuit, w.clone()).map_err(|e| format!("recording failed: {e}"))?;
    let (g, q) = (m.gates(), m.constraints());
    let ok = g <= n && q < 4 * n;
    let judge = |r: Result<(), Error>, what: &str| -> Res {
        match r {
            Ok(()) => ensure!(ok, "{what}: {g} gates and {q} constraints accepted, limits {n} and {}", 4 * n - 1),
            Err(Error::GateBoundExceeded { limit }) => ensure!(g > n && limit == n, "{what}: {g} gates refused for their number, limit {limit} of {n}"),
            Err(Error::ConstraintBoundExceeded { limit }) => ensure!(q > 4 * n - 1 && limit == 4 * n - 1, "{what}: {q} constraints refused for their number, limit {limit} of {}", 4 * n - 1),
            Err(e) => return Err(format!("{what}: {g} gates and {q} constraints: {e:?}")),
        }
        Ok(())
    };
    let b = || RegistryBuilder::<F, K>::new();
    for k in 0..4 {
        let what = ["circuit", "internal circuit", "internal step", "object"][k];
        let r = catch(|| match k {
            0 => b().register_circuit(circuit.clone()).map(|_| ()),
            1 => b().register_internal_circuit(circuit.clone()).map(|_| ()),
            2 => b().register_internal_step(circuit.clone()).map(|_| ()),
            _ => Object::<F, K>::new(circuit.clone()).map(|_| ()),
        })
        .map_err(|p| format!("{what} of {g} gates and {q} constraints panics: {p}"))?;
        judge(r, what)?;
    }
    // traces are bound by their gates only
    let t = circuit.trace(w).map_err(|e| format!("trace: {e}"))?.into_output();
    let plan = m.plan();
    let alpha: F = c.rng.field();
    match catch(|| verif::assemble::<F, K>(&t, &plan, alpha)).map_err(|p| format!("assembling {g} gates panics: {p}"))? {
        Ok(r) => {
            ensure!(g <= n, "a trace of {g} gates was assembled, limit {n}");
            ensure_eq!(dense(&r), m.trace(&plan, n, alpha), "trace of {g} gates");
        }
        Err(Error::GateBoundExceeded { limit }) => ensure!(g > n && limit == n, "trace of {g} gates refused, limit {limit} of {n}"),
        Err(e) => return Err(format!("trace of {g} gates: {e:?}")),
    }
    c.eval();
    c.seen(&(K::RANK, g as isize - n as isize, q as isize - 4 * n as isize, plan.len()));
    c.event(if ok { "accepted" } else { "refused" }, 1);
    c.event("exactly at the gate limit", (g == n && ok) as u64);
    c.event("exactly at the constraint limit", (q == 4 * n - 1 && ok) as u64);
    c.event("one gate too many", (g == n + 1) as u64);
    c.event("one constraint too many", (q == 4 * n) as u64);
    c.sample(if ok { "accepted" } else { "refused" }, || format!("{g} gates, {q} constraints in {} segments, n = {n}", plan.len()));
    if !ok {
        return Ok(());
    }
    // what is accepted is represented in full
    let o = Object::<F, K>::new(circuit.clone()).map_err(|e| e.to_string())?;
    let plan = o.plan();
    let terms = m.terms(&plan, n);
    let (x, y): (F, F) = (c.rng.uniform(), c.rng.uniform());
    ensure_eq!(o.counts(), (g, q), "counts");
    ensure_eq!(o.sxy(x, y, &plan), eval2(&terms, x, y), "s(x, y) of {g} gates and {q} constraints");
    ensure_eq!(dense(&o.sx(x, &plan)), restrict(&terms, 4 * n, Some(x), None), "s(x, Y) of {g} gates and {q} constraints");
    ensure_eq!(dense(&o.sy(y, &plan)), restrict(&terms, 4 * n, None, Some(y)), "s(X, y) of {g} gates and {q} constraints");
    let reg = b().register_circuit(circuit).and_then(|b| b.finalize()).map_err(|e| e.to_string())?;
    let ix = CircuitIndex::new(0);
    let r = reg.assemble_with_alpha(&t, ix, alpha).map_err(|e| format!("assembly: {e}"))?;
    let z: F = c.rng.uniform();
    let mut rhs = r.clone();
    rhs.dilate(z);
    rhs.add_assign(&reg.circuit_y(ix, y));
    rhs.add_assign(&K::tz(z));
    ensure_eq!(r.revdot(&rhs), horner(&Model::ky(&m.outs), y), "identity at the limits: {g} gates, {q} constraints");
    Ok(())
}

/// How far from a limit.
fn near(r: &mut VRng, limit: usize) -> usize {
    match r.below(8) {
        0 => limit - 1,
        1 | 2 => limit,
        3 | 4 => limit + 1,
        5 => limit + 2 + r.below(6),
        6 => limit * (2 + r.below(3)) + r.below(3),
        _ => limit / 2 + r.below(limit / 2),
    }
}

fn circuits<F: Fld, K: Rank>(c: &mut Case) -> Res {
    let k = outs_of(&mut c.rng);
    let noisy = c.rng.chance(1, 8);
    let k = if noisy { 1 } else { k };
    let mix = mixes(&mut c.rng);
    let (mut p, w) = Gen::<F>::new(&mut c.rng, mix).net(k);
    let (g0, q0) = if noisy { counts(&Net::<F, NoisyOut>::new(p.clone())) } else { with_outs!(k, p.clone(), |n| counts(&n)) };
    let n = K::n();
    let (g, q) = match c.rng.below(4) {
        0 => (near(&mut c.rng, n), q0),
        1 => (g0, near(&mut c.rng, 4 * n - 1)),
        _ => (near(&mut c.rng, n), near(&mut c.rng, 4 * n - 1)),
    };
    top_up(&mut c.rng, &mut p, g.saturating_sub(g0), q.saturating_sub(q0));
    if noisy {
        return check::<F, K, _>(c, Net::<F, NoisyOut>::new(p), w);
    }
    with_outs!(k, p, |n| check::<F, K, _>(c, n, w))
}
fn counts<F: Fld, C: Circuit<F>>(c: &C) -> (usize, usize) {
    circ::structure(c).map_or((0, 0), |m: Model<F>| (m.gates(), m.constraints()))
}

pub fn run(x: &Ctx) {
    x.rule("Generated circuits are padded, in the root and in nested routines, to exact numbers of gates and constraints around both limits of both ranks; registration in every category, bonding objects, trace assembly, stage chains and full registries must accept what fits, represent it in full, and refuse the rest with the bound error carrying the limit.");
    x.cases("F_65537", x.n(8000, 120000), circuits::<F65537, T>);
    x.cases("pasta Fp", x.n(1000, 20000), circuits::<Fp, T>);
    x.cases("F_257", x.n(1000, 20000), circuits::<F257, T>);
    x.cases("production rank", x.n(40, 800), circuits::<F65537, P>);
    x.cases("stages", x.n(40000, 400000), stages::k10_stages::<Fq, T>);
    x.cases("stages, production rank", x.n(200, 3000), stages::k10_stages::<F65537, P>);
    x.cases("registries", x.n(24, 90), k05::bounds::<F65537, T>);
    x.cases("registries, production rank", x.n(3, 6), k05::bounds::<F65537, P>);
}
