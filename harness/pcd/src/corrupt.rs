//! Corruptions of honest proofs.
use crate::world::*;
use ff::{Field, PrimeField};
use pasta_curves::{EpAffine, EqAffine, Fp};
use ragu_circuits::{polynomials::{Rank, sparse}, registry::CircuitIndex};
use ragu_pasta::Pasta;
use ragu_pcd::verif::{self, Slot};
use vh::VRng;

/// Who has to notice a change of a component.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Class {
    /// Verification of the proof itself, and of every proof built from it.
    Both,
    /// Verification of the proof itself.
    Own,
    /// Verification of proofs built from it.
    Parent,
    /// Nothing yet.
    Free,
}
pub fn class(slot: &str) -> Class {
    use Class::*;
    match slot {
        "p.step_rxs" | "p.endoscalar_rx" | "p.points_rx" => Own,
        "ab.a_commitment" | "ab.b_commitment" | "query.registry_xy_commitment" => Parent,
        "f.poly" | "f.commitment" | "s_prime.registry_wx0_poly" | "s_prime.registry_wx0_commitment" | "s_prime.registry_wx1_poly"
        | "s_prime.registry_wx1_commitment" | "inner_error.registry_wy_poly" | "inner_error.registry_wy_commitment" => Free,
        // b pairs with a; where a is zero it does not matter
        "p.commitment" => Both,
        s if s.ends_with(".bridge.commitment") => Both,
        s if s.ends_with(".bridge.rx") => Free,
        s if s.ends_with(".commitment") => Parent,
        _ => Both,
    }
}
pub fn names() -> Vec<String> {
    let app = two::<2>().unwrap();
    let mut p = verif::trivial(&app.app);
    verif::slots(&mut p).into_iter().map(|s| s.0).collect()
}
/// Number of ways [`corrupt`] knows.
pub const KINDS: usize = 9;

fn poly<F: PrimeField>(p: &mut sparse::Polynomial<F, R>, other: Option<&sparse::Polynomial<F, R>>, kind: usize, r: &mut VRng) -> &'static str {
    let mut c: Vec<F> = p.iter_coeffs().collect();
    let name = match kind {
        0 => {
            let mut k = r.nonzero::<F>();
            while k == F::ONE {
                k = F::random(&mut *r);
            }
            c.iter_mut().for_each(|x| *x *= k);
            "scaled"
        }
        1 => {
            c.iter_mut().for_each(|x| *x = F::ZERO);
            "zeroed"
        }
        2 => {
            c.iter_mut().for_each(|x| *x = -*x);
            "negated"
        }
        3 => {
            c.iter_mut().for_each(|x| *x = F::random(&mut *r));
            "random"
        }
        4 => {
            c.rotate_right(1);
            "rotated"
        }
        5 => {
            let k = r.nonzero::<F>();
            c.iter_mut().for_each(|x| *x += k);
            "shifted"
        }
        6 => {
            c.reverse();
            "reversed"
        }
        7 => {
            c.iter_mut().filter(|x| !x.is_zero_vartime()).for_each(|x| *x += F::random(&mut *r));
            "redrawn"
        }
        _ => {
            if let Some(o) = other {
                c = o.iter_coeffs().collect();
            }
            "spliced"
        }
    };
    *p = sparse::Polynomial::from_coeffs(c);
    name
}
/// Corrupts one component; what was done, or `None` when nothing changed.
pub fn corrupt(p: &mut Proof, other: &Proof, slot: usize, kind: usize, r: &mut VRng) -> Option<String> {
    let mut o = other.clone();
    let os = verif::slots(&mut o).swap_remove(slot).1;
    let mut slots = verif::slots(p);
    let scalars: Vec<Fp> = slots.iter().filter_map(|(_, s)| if let Slot::Scalar(f) = s { Some(**f) } else { None }).collect();
    let hosts: Vec<EqAffine> = slots.iter().filter_map(|(_, s)| if let Slot::Host(f) = s { Some(**f) } else { None }).collect();
    let bridges: Vec<EpAffine> = slots.iter().filter_map(|(_, s)| if let Slot::Bridge(f) = s { Some(**f) } else { None }).collect();
    let (name, s) = slots.swap_remove(slot);
    let done = match (s, os) {
        (Slot::Native(p), Slot::Native(o)) => {
            // a copy that differs only in blinding is as good as the original
            if kind == 8 && same_but_blinding(p, o) {
                return None;
            }
            let before = p.clone();
            let n = poly(p, Some(&*o), kind, r);
            before.iter_coeffs().ne(p.iter_coeffs()).then(|| n.to_string())
        }
        (Slot::Nested(p), Slot::Nested(o)) => {
            let before = p.clone();
            let n = poly(p, Some(&*o), kind, r);
            before.iter_coeffs().ne(p.iter_coeffs()).then(|| n.to_string())
        }
        (Slot::Host(c), Slot::Host(o)) => {
            let before = *c;
            let n = point(c, *o, kind, &hosts, r);
            (before != *c).then_some(n)
        }
        (Slot::Bridge(c), Slot::Bridge(o)) => {
            let before = *c;
            let n = point(c, *o, kind, &bridges, r);
            (before != *c).then_some(n)
        }
        (Slot::Scalar(f), Slot::Scalar(o)) => {
            let before = *f;
            *f = match kind {
                0 => *f + Fp::ONE,
                1 => Fp::ZERO,
                2 => -*f,
                3 => r.field(),
                4 => f.double(),
                5 => *r.pick(&scalars),
                6 => Option::<Fp>::from(f.invert()).unwrap_or(Fp::ONE),
                7 => Fp::ONE,
                _ => *o,
            };
            (before != *f).then(|| format!("kind {kind}"))
        }
        (Slot::Header(h), Slot::Header(o)) => {
            let before = h.clone();
            let n = h.len();
            match kind {
                0 => h[r.below(n)] += Fp::ONE,
                1 => h[n - 1] += r.nonzero::<Fp>(),
                2 => h[0] = r.field(),
                3 => h.push(Fp::ZERO),
                4 => {
                    h.pop();
                }
                5 => h.clear(),
                6 => h.reverse(),
                7 => h.insert(0, Fp::ZERO),
                _ => *h = o.clone(),
            }
            (before != *h).then(|| format!("{before:?} -> {h:?}"))
        }
        (Slot::Index(i), Slot::Index(_)) => {
            let before = format!("{i:?}");
            let to = match kind {
                0..=4 => r.below(40),
                5 => 15 + r.below(6),
                6 => 1 << r.range(5, 30),
                7 => r.below(13),
                _ => u32::MAX as usize,
            };
            *i = CircuitIndex::new(to);
            let after = format!("{i:?}");
            (before != after).then(|| format!("{before} -> {after}"))
        }
        (Slot::Steps(v), Slot::Steps(o)) => {
            let before: Vec<Vec<_>> = v.iter().map(|p| p.iter_coeffs().collect()).collect();
            let k = r.below(v.len());
            let n = if kind == 4 && v.len() > 1 {
                let j = r.below(v.len());
                v.swap(k, j);
                "swapped"
            } else {
                poly(&mut v[k], Some(&o[k]), kind, r)
            };
            let after: Vec<Vec<_>> = v.iter().map(|p| p.iter_coeffs().collect()).collect();
            (before != after).then(|| format!("{n} at {k}"))
        }
        _ => unreachable!(),
    };
    done.map(|d| format!("{name}: {d}"))
}
/// The gate no circuit constrains, which carries the blinding, aside.
fn same_but_blinding<F: PrimeField>(a: &sparse::Polynomial<F, R>, b: &sparse::Polynomial<F, R>) -> bool {
    let n = <R as Rank>::n();
    let at = |p: &sparse::Polynomial<F, R>| {
        let mut c: Vec<F> = p.iter_coeffs().collect();
        c.resize(4 * n, F::ZERO);
        for i in [0, 2 * n - 1, 2 * n, 4 * n - 1] {
            c[i] = F::ZERO;
        }
        c
    };
    at(a) == at(b)
}
/// Whether the accumulated claim of a proof still holds: the claim relates
/// only the product of its polynomials to the value, so some changes of a
/// sparse claim leave a claim that is just as good.
pub fn still_claims(p: &Proof) -> bool {
    let mut q = p.clone();
    let (mut a, mut b, mut v) = (vec![], vec![], None);
    for (n, s) in verif::slots(&mut q) {
        match (n.as_str(), s) {
            ("ab.a_poly", Slot::Native(p)) => a = p.iter_coeffs().collect(),
            ("ab.b_poly", Slot::Native(p)) => b = p.iter_coeffs().collect(),
            ("ab.c", Slot::Scalar(c)) => v = Some(*c),
            _ => {}
        }
    }
    let n = 4 * <R as Rank>::n();
    a.resize(n, Fp::ZERO);
    b.resize(n, Fp::ZERO);
    Some(a.iter().zip(b.iter().rev()).map(|(a, b)| *a * b).sum()) == v
}
fn point<A: ragu_arithmetic::CurveAffine>(c: &mut A, other: A, kind: usize, all: &[A], r: &mut VRng) -> String {
    let cur = c.to_curve();
    *c = match kind {
        0 => (cur + cur).into(),
        1 => A::identity(),
        2 => (-cur).into(),
        3 => (A::generator() * A::ScalarExt::from(r.u64())).into(),
        4 => (cur + A::generator()).into(),
        5 | 6 => *r.pick(all),
        7 => A::generator(),
        _ => other,
    };
    format!("point kind {kind}")
}
/// Replaces every component whose name starts with one of the prefixes.
pub fn graft(p: &mut Proof, other: &Proof, pre: &[&str]) -> bool {
    let mut o = other.clone();
    let os = verif::slots(&mut o);
    let mut changed = false;
    for ((n, s), (_, t)) in verif::slots(p).into_iter().zip(os) {
        if !pre.iter().any(|x| n.starts_with(x)) {
            continue;
        }
        match (s, t) {
            (Slot::Native(a), Slot::Native(b)) => {
                changed |= a.iter_coeffs().ne(b.iter_coeffs());
                *a = b.clone();
            }
            (Slot::Nested(a), Slot::Nested(b)) => *a = b.clone(),
            (Slot::Host(a), Slot::Host(b)) => *a = *b,
            (Slot::Bridge(a), Slot::Bridge(b)) => {
                changed |= a != b;
                *a = *b;
            }
            (Slot::Scalar(a), Slot::Scalar(b)) => {
                changed |= a != b;
                *a = *b;
            }
            (Slot::Header(a), Slot::Header(b)) => *a = b.clone(),
            (Slot::Index(a), Slot::Index(b)) => *a = *b,
            (Slot::Steps(a), Slot::Steps(b)) => *a = b.clone(),
            _ => unreachable!(),
        }
    }
    changed
}
pub const GRAFTS: &[&[&str]] = &[
    &["ab."],
    &["p."],
    &["challenges."],
    &["hashes_", "inner_collapse", "outer_collapse", "compute_v"],
    &["preamble."],
    &["query."],
    &["eval."],
    &["inner_error."],
    &["outer_error."],
    &["application.circuit_id", "application.left_header", "application.right_header", "application.rx", "application.commitment"],
    &["p.", "ab."],
    &["challenges.", "hashes_"],
    &["preamble.", "s_prime.", "inner_error.", "outer_error."],
    &["query.", "f.", "eval.", "p."],
];
pub fn pasta() -> &'static ragu_pasta::PastaParams {
    use ragu_arithmetic::Cycle;
    Pasta::baked()
}

// ------------------------------------------------------- misplaced witnesses

/// Which coefficients of a polynomial the application's masks leave free.
pub struct Masks {
    native: Vec<(String, Vec<bool>)>,
    nested: Vec<(String, Vec<bool>)>,
}
const STAGED: [(&str, verif::native::InternalCircuitIndex); 10] = {
    use verif::native::InternalCircuitIndex::*;
    [
        ("preamble.rx", PreambleStage),
        ("inner_error.rx", InnerErrorStage),
        ("outer_error.rx", OuterErrorStage),
        ("query.rx", QueryStage),
        ("eval.rx", EvalStage),
        ("inner_collapse.rx", InnerErrorFinalStaged),
        ("hashes_1.rx", OuterErrorFinalStaged),
        ("hashes_2.rx", OuterErrorFinalStaged),
        ("outer_collapse.rx", OuterErrorFinalStaged),
        ("compute_v.rx", EvalFinalStaged),
    ]
};
const NESTED: [(&str, verif::nested::InternalCircuitIndex); 11] = {
    use verif::nested::InternalCircuitIndex::*;
    [
        ("p.endoscalar_rx", EndoscalarStage),
        ("p.points_rx", PointsStage),
        ("p.step_rxs", PointsFinalStaged),
        ("preamble.bridge.rx", BridgePreamble),
        ("s_prime.bridge.rx", BridgeSPrime),
        ("inner_error.bridge.rx", BridgeInnerError),
        ("outer_error.bridge.rx", BridgeOuterError),
        ("ab.bridge.rx", BridgeAB),
        ("query.bridge.rx", BridgeQuery),
        ("f.bridge.rx", BridgeF),
        ("eval.bridge.rx", BridgeEval),
    ]
};
/// Circuits of the native side with the stages whose values they are summed with.
const SUMS: [(&str, &[&str]); 5] = [
    ("hashes_1.rx", &["preamble.rx", "outer_error.rx"]),
    ("hashes_2.rx", &["outer_error.rx"]),
    ("inner_collapse.rx", &["preamble.rx", "inner_error.rx", "outer_error.rx"]),
    ("outer_collapse.rx", &["preamble.rx", "outer_error.rx"]),
    ("compute_v.rx", &["preamble.rx", "query.rx", "eval.rx"]),
];
impl Masks {
    pub fn new<const HS: usize>(w: &World<HS>, r: &mut VRng) -> Masks {
        fn free<F: PrimeField>(s: &sparse::Polynomial<F, R>) -> Vec<bool> {
            let mut c: Vec<F> = s.iter_coeffs().collect();
            c.resize(4 * <R as Rank>::n(), F::ZERO);
            c.iter().rev().map(|c| c.is_zero_vartime()).collect()
        }
        let (a, b) = (verif::native_registry(&w.app), verif::nested_registry(&w.app));
        let (ya, yb) = (Fp::random(&mut *r), pasta_curves::Fq::random(&mut *r));
        Masks {
            native: STAGED.iter().map(|(n, i)| (n.to_string(), free(&a.circuit_y(i.circuit_index(), ya)))).collect(),
            nested: NESTED.iter().map(|(n, i)| (n.to_string(), free(&b.circuit_y(i.circuit_index(), yb)))).collect(),
        }
    }
}
/// A coefficient no mask of `of` leaves alone; wires of early gates mostly.
fn masked(free: &[bool], r: &mut VRng) -> Option<usize> {
    let n = free.len() / 4;
    for _ in 0..64 {
        let g = if r.chance(3, 4) { r.below(1500) } else { r.below(n) };
        let i = match r.below(8) {
            0 => g,
            1 => 4 * n - 1 - g,
            2..=4 => 2 * n + g,
            _ => 2 * n - 1 - g,
        };
        if !free[i] {
            return Some(i);
        }
    }
    None
}
fn dense<F: PrimeField>(p: &sparse::Polynomial<F, R>) -> Vec<F> {
    let mut c: Vec<F> = p.iter_coeffs().collect();
    c.resize(4 * <R as Rank>::n(), F::ZERO);
    c
}
/// Adds to one wire of gate `g` and keeps the gate's product right, in a
/// polynomial that is checked only in sum with others.
fn bend<F: PrimeField>(c: &mut [F], sum: &[F], i: usize, by: F) {
    let n = c.len() / 4;
    c[i] += by;
    if i >= 2 * n && i < 3 * n {
        // left wire: the product follows the right one
        let g = i - 2 * n;
        c[g] += by * sum[2 * n - 1 - g];
    } else if i >= n && i < 2 * n {
        let g = 2 * n - 1 - i;
        c[g] += by * sum[2 * n + g];
    }
}
/// Puts part of a witness where it does not belong, in a way the circuits'
/// own claims need not notice; `None` when nothing was found to misplace.
pub fn misplace(p: &mut Proof, m: &Masks, kind: usize, r: &mut VRng) -> Option<(String, Vec<String>)> {
    let mut q = p.clone();
    let mut nat: Vec<(String, Vec<Fp>)> = vec![];
    let mut nes: Vec<(String, Vec<Vec<pasta_curves::Fq>>)> = vec![];
    for (n, s) in verif::slots(&mut q) {
        match s {
            Slot::Native(f) if m.native.iter().any(|x| x.0 == n) => nat.push((n, dense(f))),
            Slot::Nested(f) if m.nested.iter().any(|x| x.0 == n) => nes.push((n, vec![dense(f)])),
            Slot::Steps(f) => nes.push((n, f.iter().map(dense).collect())),
            _ => {}
        }
    }
    let order: Vec<String> = nat.iter().map(|x| x.0.clone()).collect();
    let at = |n: &str| order.iter().position(|x| x == n).unwrap();
    let free = |n: &str| &m.native.iter().find(|x| x.0 == n).unwrap().1;
    let mut changed = vec![];
    let what = match kind {
        // a stray wire in a stage
        0 => {
            let (n, _) = STAGED[r.below(5)];
            let i = masked(free(n), r)?;
            let k = at(n);
            nat[k].1[i] += r.nonzero::<Fp>();
            changed.push(n.to_string());
            format!("{n}: stray wire at {i}")
        }
        // a wire moved between polynomials of the same sums
        1 => {
            let (a, b) = (STAGED[r.below(5)].0, STAGED[r.below(10)].0);
            if a == b {
                return None;
            }
            let i = masked(if r.bool() { free(a) } else { free(b) }, r)?;
            let (k, l) = (at(a), at(b));
            let by = if r.bool() && nat[k].1[i] != Fp::ZERO { nat[k].1[i] } else { r.nonzero::<Fp>() };
            nat[k].1[i] -= by;
            nat[l].1[i] += by;
            changed.extend([a.to_string(), b.to_string()]);
            format!("{a}: wire {i} moved to {b}")
        }
        // a circuit that disagrees with a stage it reads
        2 | 3 => {
            let (n, with) = SUMS[r.below(5)];
            let k = at(n);
            let sum: Vec<Fp> = (0..nat[k].1.len()).map(|i| nat[k].1[i] + with.iter().map(|w| nat[at(w)].1[i]).sum::<Fp>()).collect();
            let i = masked(free(n), r)?;
            bend(&mut nat[k].1, &sum, i, r.nonzero());
            changed.push(n.to_string());
            format!("{n}: own idea of stage wire {i}")
        }
        // the same on the other curve
        4 => {
            let j = r.below(nes.len());
            let k = r.below(nes[j].1.len());
            let n = nes[j].0.clone();
            let f = &m.nested.iter().find(|x| x.0 == n).unwrap().1;
            let i = masked(f, r)?;
            nes[j].1[k][i] += r.nonzero::<pasta_curves::Fq>();
            changed.push(n.clone());
            format!("{n} {k}: stray wire at {i}")
        }
        _ => {
            let find = |n: &str| nes.iter().position(|x| x.0 == n).unwrap();
            let (e, s, t) = (find("p.endoscalar_rx"), find("p.points_rx"), find("p.step_rxs"));
            let k = r.below(nes[t].1.len());
            let sum: Vec<_> = (0..nes[s].1[0].len()).map(|i| nes[e].1[0][i] + nes[s].1[0][i] + nes[t].1[k][i]).collect();
            let i = masked(&m.nested[2].1, r)?;
            bend(&mut nes[t].1[k], &sum, i, r.nonzero());
            changed.push("p.step_rxs".into());
            format!("endoscaling step {k}: own idea of stage wire {i}")
        }
    };
    for (n, s) in verif::slots(p) {
        if !changed.contains(&n) {
            continue;
        }
        match s {
            Slot::Native(f) => *f = sparse::Polynomial::from_coeffs(nat[at(&n)].1.clone()),
            Slot::Nested(f) => *f = sparse::Polynomial::from_coeffs(nes.iter().find(|x| x.0 == n).unwrap().1[0].clone()),
            Slot::Steps(f) => *f = nes.iter().find(|x| x.0 == n).unwrap().1.iter().map(|c| sparse::Polynomial::from_coeffs(c.clone())).collect(),
            _ => {}
        }
    }
    Some((what, changed))
}
pub const MISPLACED: usize = 6;
/// Publishes commitments that fit the polynomials again.
pub fn recommit(p: &mut Proof, polys: &[String]) {
    use ragu_arithmetic::Cycle;
    let mut q = p.clone();
    for (n, s) in verif::slots(&mut q) {
        if let (Slot::Native(f), true) = (s, polys.contains(&n)) {
            let to = if n.ends_with(".rx") { n.replace(".rx", ".commitment") } else if n == "p.poly" { "p.commitment".into() } else { n.replace("_poly", "_commitment") };
            let c = f.commit_to_affine(Pasta::host_generators(pasta()));
            for (m, t) in verif::slots(p) {
                if let (Slot::Host(h), true) = (t, m == to) {
                    *h = c;
                }
            }
        }
    }
}
