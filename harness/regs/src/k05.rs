//! Registries: one trivariate polynomial, bound by a digest.
use crate::stages::Bond;
use circ::util::{Fld, dense, gen_net, mixes};
use circ::{
    Model, eval2, horner,
    nets::{I, NetBody, Term, Co},
    pow, restrict, with_outs,
};
use pasta_curves::{Fp, Fq};
use ragu_circuits::{
    CircuitExt,
    polynomials::{R, Rank},
    registry::{CircuitIndex, Registry, RegistryBuilder},
    verif::{self, Object, Place},
};
use ragu_core::{Error, Result};
use std::sync::Arc;
use vh::{Case, Ctx, Res, VRng, ensure, ensure_eq, small::*};

type T = R<7>;

const CATEGORIES: usize = 4;
const BONDING: usize = 1;

#[derive(Clone)]
enum Entry<F> {
    Net(Arc<NetBody<F>>, Vec<F>),
    Unit,
    Bond(Bond<F>),
}
type Slots<F> = Vec<(usize, Entry<F>)>;
type Terms<F> = Vec<(usize, usize, F)>;

fn random_entry<F: Fld>(r: &mut VRng, light: bool) -> Entry<F> {
    match r.below(if light { 12 } else { 6 }) {
        0 => Entry::Bond(Bond::random(r)),
        1 | 6.. => Entry::Unit,
        _ => {
            let (mix, k) = (mixes(r), [0, 1, 2, 5][r.below(4)]);
            let (p, w) = gen_net::<F, T>(r, mix, k);
            Entry::Net(p.into(), w)
        }
    }
}

fn random_slot<F: Fld>(r: &mut VRng, light: bool) -> (usize, Entry<F>) {
    let e = random_entry(r, light);
    let cat = match e {
        Entry::Bond(_) => BONDING,
        _ => *r.pick(&[0, 2, 3, 3]),
    };
    (cat, e)
}

fn register<F: Fld>(b: RegistryBuilder<'static, F, T>, cat: usize, e: &Entry<F>) -> Result<RegistryBuilder<'static, F, T>> {
    macro_rules! put {
        ($c:expr) => {
            match cat {
                0 => b.register_internal_circuit($c),
                2 => b.register_internal_step($c),
                _ => b.register_circuit($c),
            }
        };
    }
    match e {
        Entry::Net(p, _) => with_outs!(p.outs.len(), (**p).clone(), |c| put!(c)),
        Entry::Unit => put!(()),
        Entry::Bond(o) => Ok(b.register_bonding(o.build()?.0)),
    }
}

fn build<F: Fld>(slots: &Slots<F>) -> Result<Registry<'static, F, T>> {
    let mut b = RegistryBuilder::new();
    for (cat, e) in slots {
        b = register(b, *cat, e)?;
    }
    b.finalize()
}

/// One circuit of the model.
struct One<F> {
    terms: Terms<F>,
    counts: (usize, usize),
    plan: Vec<Place>,
    trace: Option<(Arc<NetBody<F>>, Vec<F>)>,
}

fn one<F: Fld>(e: &Entry<F>) -> Result<One<F>> {
    let n = T::n();
    fn of<F: Fld, C: ragu_circuits::Circuit<F>>(c: C) -> Result<(Model<F>, Vec<Place>)> {
        let m = circ::structure(&c)?;
        Ok((m, Object::<F, T>::new(c)?.plan()))
    }
    let ((m, plan), trace) = match e {
        Entry::Net(p, w) => (with_outs!(p.outs.len(), (**p).clone(), |c| of(c))?, Some((p.clone(), w.clone()))),
        Entry::Unit => (of(())?, None),
        Entry::Bond(b) => {
            let (_, terms, counts) = b.build()?;
            return Ok(One { terms, counts, plan: vec![], trace: None });
        }
    };
    Ok(One { terms: m.terms(&plan, n), counts: (m.gates(), m.constraints()), plan, trace })
}

/// The circuits in the order the registry promises.
fn ordered<F: Fld>(slots: &Slots<F>) -> Result<Vec<One<F>>> {
    let mut v = vec![];
    for cat in 0..CATEGORIES {
        for (c, e) in slots {
            if *c == cat {
                v.push(one(e)?);
            }
        }
    }
    Ok(v)
}

/// The point of a circuit: bit `t` of its index is the root of order 2^(t+1).
fn omega<F: Fld>(i: usize) -> F {
    (0..F::S).filter(|t| *t < 64 && i >> t & 1 == 1).fold(F::ONE, |w, t| {
        let mut g = F::ROOT_OF_UNITY;
        for _ in 0..F::S - 1 - t {
            g = g.square();
        }
        w * g
    })
}

/// Weight of every circuit at `w`.
fn weights<F: Fld>(points: &[F], size: usize, w: F) -> Vec<F> {
    let z = pow(w, size) - F::ONE;
    let inv = F::from(size as u64).invert().unwrap();
    points.iter().map(|p| if w == *p { F::ONE } else { z * *p * inv * (w - *p).invert().unwrap() }).collect()
}

fn combine<F: Fld>(ones: &[One<F>], weights: &[F], key: F) -> Terms<F> {
    let n = T::n();
    let mut t = vec![(4 * n - 1, 4 * n - 1, key)];
    for (o, c) in ones.iter().zip(weights) {
        if *c != F::ZERO {
            t.extend(o.terms.iter().map(|(x, y, k)| (*x, *y, *k * *c)));
        }
    }
    t
}

fn special<F: Fld>(r: &mut VRng) -> F {
    match r.below(8) {
        0 => F::ZERO,
        1 => F::ONE,
        2 => F::from(2),
        3 => r.field(),
        _ => r.uniform(),
    }
}

fn polynomial<F: Fld>(c: &mut Case, reg: &Registry<'_, F, T>, ones: &[One<F>], rounds: usize) -> Res {
    let count = ones.len();
    let size = count.next_power_of_two();
    let points: Vec<F> = (0..size).map(omega).collect();
    let key = reg.digest();
    for i in 0..size {
        ensure_eq!(CircuitIndex::new(i).omega_j::<F>(), points[i], "domain point of circuit {i}");
        ensure!(reg.circuit_in_domain(CircuitIndex::new(i)), "circuit {i} of {size} outside the domain");
    }
    for i in size..(2 * size + 3).min(1 << F::S.min(20)) {
        ensure!(!reg.circuit_in_domain(CircuitIndex::new(i)), "circuit {i} inside a domain of {size}");
    }
    ensure_eq!(reg.num_circuits(), count, "number of circuits");
    for _ in 0..rounds {
        let (mut x, mut y): (F, F) = (special(&mut c.rng), special(&mut c.rng));
        if c.rng.chance(1, 6) {
            // the key term at a root of unity, or cancelling powers
            x = omega(c.rng.below(128));
            y = if c.rng.bool() { x.invert().unwrap() } else { omega(c.rng.below(128)) };
        }
        let (w, own): (F, Option<usize>) = match c.rng.below(8) {
            0..=2 if count > 0 => {
                let i = c.rng.below(count);
                (points[i], Some(i))
            }
            3 => {
                let i = c.rng.below(size);
                (points[i], Some(i))
            }
            // a root of unity just outside the domain
            4 if size < 1 << F::S.min(16) => (omega(size + c.rng.below(size)), None),
            _ => (special(&mut c.rng), None),
        };
        // x = 0 or y = 0 removes the key term like any other
        let ws = weights(&points[..count], size, w);
        if let Some(i) = own {
            ensure!(ws.iter().enumerate().all(|(k, v)| *v == if k == i { F::ONE } else { F::ZERO }), "model weights");
            c.event(if i < count { "evaluations at a circuit's point" } else { "evaluations at an empty domain point" }, 1);
        }
        let t = combine(ones, &ws, key);
        let want = eval2(&t, x, y);
        let len = T::num_coeffs();
        let at = reg.at(w);
        let wx = restrict(&t, len, Some(x), None);
        let wy = restrict(&t, len, None, Some(y));
        ensure_eq!(reg.wxy(w, x, y), want, "m(w, x, y), {count} circuits, {own:?}");
        ensure_eq!(at.xy(x, y), want, "m bound to w at (x, y)");
        ensure_eq!(dense(&reg.wx(w, x)), wx, "m(w, x, Y)");
        ensure_eq!(dense(&at.x(x)), wx, "m bound to w at (x, Y)");
        ensure_eq!(dense(&reg.wy(w, y)), wy, "m(w, X, y)");
        ensure_eq!(dense(&at.y(y)), wy, "m bound to w at (X, y)");
        if let Some(i) = own {
            ensure_eq!(dense(&reg.circuit_y(CircuitIndex::new(i), y)), wy, "circuit {i} at (X, y)");
            ensure_eq!(reg.circuit_xy(CircuitIndex::from_u32(i as u32), x, y), want, "circuit {i} at (x, y)");
        }
        // the W direction
        let vals: Vec<F> = ones.iter().map(|o| eval2(&o.terms, x, y)).collect();
        let p = reg.xy(x, y);
        let d = dense(&p);
        ensure!(d[size..].iter().all(|v| *v == F::ZERO), "m(W, x, y) has degree {size} or more");
        let k = eval2(&[(4 * T::n() - 1, 4 * T::n() - 1, key)], x, y);
        for (i, pt) in points.iter().enumerate() {
            ensure_eq!(horner(&d, *pt), vals.get(i).copied().unwrap_or(F::ZERO) + k, "m(W, x, y) at point {i} of {size}");
        }
        ensure_eq!(p.eval(w), want, "m(W, x, y) evaluated");
        c.eval();
        c.event("agreeing evaluations", 9);
    }
    Ok(())
}

/// The registry polynomial without its key at a point of no structure.
fn imprint<F: Fld>(ones: &[One<F>], at: &[(F, F, F)]) -> Vec<F> {
    let size = ones.len().next_power_of_two();
    let points: Vec<F> = (0..ones.len()).map(omega).collect();
    at.iter().map(|(w, x, y)| eval2(&combine(ones, &weights(&points, size, *w), F::ZERO), *x, *y)).collect()
}

/// A registry that differs a little.
fn altered<F: Fld>(r: &mut VRng, s: &Slots<F>) -> (&'static str, Slots<F>) {
    let mut s = s.clone();
    let len = s.len();
    match r.below(if len == 0 { 1 } else { 7 }) {
        0 => {
            let at = r.below(len + 1);
            s.insert(at, random_slot(r, false));
            ("added", s)
        }
        1 => {
            s.remove(r.below(len));
            ("removed", s)
        }
        2 => {
            let (i, j) = (r.below(len), r.below(len));
            s.swap(i, j);
            ("reordered", s)
        }
        3 => {
            let i = r.below(len);
            if s[i].0 != BONDING {
                s[i].0 = *r.pick(&[0, 2, 3]);
            }
            ("moved to another category", s)
        }
        4 => {
            s.push(s[r.below(len)].clone());
            ("repeated", s)
        }
        _ => {
            let i = r.below(len);
            if let Entry::Net(p, _) = &mut s[i].1 {
                let mut q = (**p).clone();
                match r.below(3) {
                    0 => q.outs.reverse(),
                    1 => q.ops.push(I::Zero(vec![Term::One(Co::Zero)], F::ZERO)),
                    _ => match q.ops.iter_mut().rev().find_map(|o| if let I::Add(t) | I::Taut(t) = o { t.first_mut() } else { None }) {
                        Some(Term::W(_, k) | Term::Cloned(_, k) | Term::One(k) | Term::Gain(k)) => *k = Co::Any(r.field()),
                        None => q.ops.push(I::Empty),
                    },
                }
                *p = q.into();
            } else {
                s[i].1 = if s[i].0 == BONDING { Entry::Bond(Bond::random(r)) } else { Entry::Unit };
            }
            ("altered", s)
        }
    }
}

fn digests<F: Fld>(c: &mut Case, slots: &Slots<F>, ones: &[One<F>], key: F) -> Res {
    let again = build(slots).map_err(|e| e.to_string())?;
    ensure_eq!(again.digest(), key, "digest of the same registry");
    let at: Vec<(F, F, F)> = (0..2).map(|_| (c.rng.uniform(), c.rng.uniform(), c.rng.uniform())).collect();
    let mark = imprint(ones, &at);
    for _ in 0..4 {
        let (how, s2) = altered(&mut c.rng, slots);
        // edits of a program may push it over a bound
        let (Ok(o2), Ok(r2)) = (ordered(&s2), build(&s2)) else {
            c.event("altered registries refused", 1);
            continue;
        };
        let same = imprint(&o2, &at) == mark;
        ensure_eq!(r2.digest() == key, same, "registry of {} circuits with one {how}: digest equal", slots.len());
        c.event(&format!("registries with one {how}{}", if same { ", same polynomial" } else { "" }), 1);
    }
    Ok(())
}

fn k05_case<F: Fld>(c: &mut Case) -> Res {
    let count = match c.rng.below(12) {
        0 => 0,
        1 => 1,
        11 => c.rng.below(40),
        _ => c.rng.below(10),
    };
    let slots: Slots<F> = (0..count).map(|_| random_slot(&mut c.rng, count > 10)).collect();
    let ones = ordered(&slots).map_err(|e| format!("recording failed: {e}"))?;
    let mut b = RegistryBuilder::<F, T>::new();
    let mut seen = [0usize; CATEGORIES];
    for (cat, e) in &slots {
        b = register(b, *cat, e).map_err(|e| format!("registration refused: {e}"))?;
        seen[*cat] += 1;
        let total: usize = seen.iter().sum();
        ensure_eq!((b.num_circuits(), b.num_internal_circuits(), 1usize << b.log2_circuits()), (total, seen[0] + seen[1], total.next_power_of_two()), "builder counts");
    }
    let reg = b.finalize().map_err(|e| format!("finalize: {e}"))?;
    for (i, o) in ones.iter().enumerate() {
        let ix = CircuitIndex::new(i);
        ensure_eq!(reg.constraint_counts(ix), o.counts, "counts of circuit {i}");
        ensure_eq!(usize::from(ix), i, "index");
        if let Some((p, w)) = &o.trace {
            let t = with_outs!(p.outs.len(), (**p).clone(), |n| n.trace(w.clone())).map_err(|e| format!("trace: {e}"))?.into_output();
            let alpha: F = c.rng.field();
            let want = verif::assemble::<F, T>(&t, &o.plan, alpha).map_err(|e| e.to_string())?;
            let got = reg.assemble_with_alpha(&t, ix, alpha).map_err(|e| format!("assembly for circuit {i}: {e}"))?;
            ensure_eq!(dense(&got), dense(&want), "trace assembled for circuit {i}");
        }
    }
    polynomial(c, &reg, &ones, 4)?;
    if F::NUM_BITS > 200 {
        digests(c, &slots, &ones, reg.digest())?;
    }
    c.seen(&(count, seen, ones.iter().map(|o| o.counts).collect::<Vec<_>>()));
    c.event("registries", 1);
    c.sample(&format!("{}", count.next_power_of_two()), || format!("{seen:?} per category, sizes {:?}", ones.iter().map(|o| o.counts).collect::<Vec<_>>()));
    Ok(())
}

/// Full registries, and ones with a circuit too many.
pub fn bounds<F: Fld, K: Rank>(c: &mut Case) -> Res {
    let limit = K::num_coeffs();
    let over = c.idx % 3;
    let want = match over {
        0 => limit - c.rng.below(2),
        1 => limit + 1,
        _ => limit + 2 + c.rng.below(limit),
    };
    let mut b = RegistryBuilder::<F, K>::new();
    for _ in 0..want {
        b = match c.rng.below(3) {
            0 => b.register_internal_circuit(()),
            1 => b.register_internal_step(()),
            _ => b.register_circuit(()),
        }
        .map_err(|e| e.to_string())?;
    }
    if want <= limit && K::RANK > 8 {
        return Ok(());
    }
    match b.finalize() {
        Ok(r) => {
            ensure!(want <= limit, "{want} circuits accepted at {limit} coefficients");
            ensure_eq!(r.num_circuits(), want, "circuits");
        }
        Err(Error::CircuitBoundExceeded { limit: l }) => {
            ensure!(want > limit, "{want} circuits refused at {limit} coefficients");
            ensure_eq!(l, limit, "limit reported");
        }
        Err(e) => return Err(format!("{want} circuits: {e:?}")),
    }
    c.event("registries at or over capacity", 1);
    c.seen(&(want, K::RANK));
    c.eval();
    Ok(())
}

/// A full registry of varied circuits.
fn full<F: Fld>(c: &mut Case) -> Res {
    let slots: Slots<F> = (0..T::num_coeffs()).map(|_| random_slot(&mut c.rng, true)).collect();
    let ones = ordered(&slots).map_err(|e| e.to_string())?;
    let reg = build(&slots).map_err(|e| format!("full registry: {e}"))?;
    polynomial(c, &reg, &ones, 3)
}

pub fn run(x: &Ctx) {
    x.rule("Registries of generated circuits, stage masks and bonding circuits, registered in random order across the four categories, are compared with the sum of the recorded per-circuit polynomials weighted by textbook Lagrange weights plus the key term: every restriction coefficient by coefficient, at circuit points, empty domain points, roots just outside, zero and random points. Digests are compared between a registry, its rebuild and slightly altered ones, equal exactly when the recorded polynomials are.");
    x.cases("pasta Fp", x.n(3000, 60000), k05_case::<Fp>);
    x.cases("pasta Fq", x.n(800, 16000), k05_case::<Fq>);
    x.cases("F_65537", x.n(4000, 80000), k05_case::<F65537>);
    x.cases("F_7681", x.n(2500, 50000), k05_case::<F7681>);
    x.cases("full registries", x.n(6, 60), full::<Fp>);
    x.cases("full registries, F_65537", x.n(10, 100), full::<F65537>);
    x.cases("capacity", x.n(24, 90), bounds::<F65537, T>);
    x.cases("capacity, production rank", x.n(3, 6), bounds::<F65537, R<13>>);
}
