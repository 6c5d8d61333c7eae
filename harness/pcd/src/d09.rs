//! The recursion circuits bind every value they relate.
use crate::apps::Val;
use crate::corrupt::pasta;
use crate::d02::grow;
use crate::d06::parts;
use crate::world::*;
use ff::{Field, PrimeField};
use group::Curve;
use pasta_curves::{EpAffine, Fp};
use ragu_circuits::polynomials::{ProductionRank, Rank, sparse::Polynomial};
use ragu_circuits::registry::CircuitIndex;
use ragu_circuits::staging::StageExt;
use ragu_circuits::{Circuit, CircuitExt};
use ragu_core::drivers::emulator::Emulator;
use ragu_core::maybe::{Always, Maybe, MaybeKind};
use ragu_primitives::{Element, GadgetExt};
use ragu_pasta::Pasta;
use ragu_pcd::verif::native::circuits::{compute_v, hashes_1, hashes_2, inner_collapse, outer_collapse};
use ragu_pcd::verif::native::stages::{eval, inner_error, outer_error, preamble, query};
use ragu_pcd::verif::native::{InternalCircuitIndex, InternalCircuitValues, RevdotParameters as RP, RxIndex, RxValues, total_circuit_counts, unified};
use ragu_pcd::verif::{self, Slot};
use ragu_primitives::vec::FixedVec;
use vh::{Case, Ctx, Res, VRng, catch, ensure};

type P = Polynomial<Fp, R>;
#[derive(Clone, Copy, PartialEq, Debug)]
enum U {
    E(Fp),
    P(EpAffine),
}
/// The public slots of an internal circuit in order, and where a proof records each.
const SLOTS: [(&str, &str); 21] = [
    ("bridge_preamble_commitment", "preamble.bridge.commitment"),
    ("w", "challenges.w"),
    ("bridge_s_prime_commitment", "s_prime.bridge.commitment"),
    ("y", "challenges.y"),
    ("z", "challenges.z"),
    ("bridge_inner_error_commitment", "inner_error.bridge.commitment"),
    ("mu", "challenges.mu"),
    ("nu", "challenges.nu"),
    ("bridge_outer_error_commitment", "outer_error.bridge.commitment"),
    ("mu_prime", "challenges.mu_prime"),
    ("nu_prime", "challenges.nu_prime"),
    ("c", "ab.c"),
    ("bridge_ab_commitment", "ab.bridge.commitment"),
    ("x", "challenges.x"),
    ("bridge_query_commitment", "query.bridge.commitment"),
    ("alpha", "challenges.alpha"),
    ("bridge_f_commitment", "f.bridge.commitment"),
    ("u", "challenges.u"),
    ("bridge_eval_commitment", "eval.bridge.commitment"),
    ("pre_beta", "challenges.pre_beta"),
    ("v", "p.v"),
];
type Slots = [U; 21];
fn slots(p: &Proof) -> Slots {
    let q = parts(p);
    SLOTS.map(|(_, at)| q.scalar.get(at).map(|f| U::E(*f)).unwrap_or_else(|| U::P(q.bridge[at])))
}
fn instance(s: &Slots) -> unified::Instance<Pasta> {
    let e = |i: usize| match s[i] {
        U::E(f) => f,
        _ => unreachable!(),
    };
    let p = |i: usize| match s[i] {
        U::P(f) => f,
        _ => unreachable!(),
    };
    unified::Instance {
        bridge_preamble_commitment: p(0),
        w: e(1),
        bridge_s_prime_commitment: p(2),
        y: e(3),
        z: e(4),
        bridge_inner_error_commitment: p(5),
        mu: e(6),
        nu: e(7),
        bridge_outer_error_commitment: p(8),
        mu_prime: e(9),
        nu_prime: e(10),
        c: e(11),
        bridge_ab_commitment: p(12),
        x: e(13),
        bridge_query_commitment: p(14),
        alpha: e(15),
        bridge_f_commitment: p(16),
        u: e(17),
        bridge_eval_commitment: p(18),
        pre_beta: e(19),
        v: e(20),
        coverage: Default::default(),
    }
}
/// The instance polynomial at y: slots, extra outputs, suffix 0, then one.
fn ky(s: &Slots, extra: &[Fp], y: Fp) -> Fp {
    use pasta_curves::arithmetic::CurveAffine;
    let mut v = vec![];
    for u in s {
        match u {
            U::E(f) => v.push(*f),
            U::P(p) => {
                let c = p.coordinates().unwrap();
                v.extend([*c.x(), *c.y()]);
            }
        }
    }
    v.extend(extra);
    v.extend([Fp::ZERO, Fp::ONE]);
    v.iter().fold(Fp::ZERO, |a, o| a * y + o)
}

type InnerW = inner_error::Witness<Pasta, RP>;
type OuterW = outer_error::Witness<Pasta, RP>;
const ST: usize = 3;
const GROUPS: usize = 19;
const SIZE: usize = 7;
fn inner_w(v: &[Fp]) -> InnerW {
    let per = SIZE * (SIZE - 1);
    InnerW { error_terms: FixedVec::from_fn(|g| FixedVec::from_fn(|i| v[g * per + i])) }
}
fn outer_w(v: &[Fp]) -> OuterW {
    let e = GROUPS * (GROUPS - 1);
    let child = |k: usize| outer_error::ChildKyValues { application: v[k], unified: v[k + 1], unified_bridge: v[k + 2] };
    let k = e + GROUPS;
    OuterW {
        error_terms: FixedVec::from_fn(|i| v[i]),
        collapsed: FixedVec::from_fn(|i| v[e + i]),
        ky: outer_error::KyValues { left: child(k), right: child(k + 3) },
        sponge_state_elements: FixedVec::from_fn(|i| v[k + 6 + i]),
    }
}
fn rxv(v: &[Fp], k: &mut usize) -> RxValues<Fp> {
    RxValues::from_fn(|_| {
        *k += 1;
        v[*k - 1]
    })
}
fn one(v: &[Fp], k: &mut usize) -> Fp {
    *k += 1;
    v[*k - 1]
}
fn query_w(v: &[Fp]) -> query::Witness<Pasta> {
    let k = &mut 0;
    let fixed_registry = InternalCircuitValues::from_fn(|_| one(v, k));
    let registry_wxy = one(v, k);
    let child = |k: &mut usize| query::ChildEvaluationsWitness {
        rx: rxv(v, k),
        a_poly_at_xz: one(v, k),
        b_poly_at_x: one(v, k),
        child_registry_xy_at_current_w: one(v, k),
        current_registry_xy_at_child_circuit_id: one(v, k),
        current_registry_wy_at_child_x: one(v, k),
    };
    let left = child(k);
    let right = child(k);
    query::Witness { fixed_registry, registry_wxy, left, right }
}
fn eval_w(v: &[Fp]) -> eval::Witness<Fp> {
    let k = &mut 0;
    let child = |k: &mut usize| eval::ChildEvaluationsWitness { rx: rxv(v, k), a_poly: one(v, k), b_poly: one(v, k), registry_xy_poly: one(v, k), p_poly: one(v, k) };
    let left = child(k);
    let right = child(k);
    let current = eval::CurrentStepWitness {
        registry_wx0: one(v, k),
        registry_wx1: one(v, k),
        registry_wy: one(v, k),
        a_poly: one(v, k),
        b_poly: one(v, k),
        registry_xy: one(v, k),
    };
    eval::Witness { left, right, current }
}
/// Where a stage keeps its values, found by marking them.
fn decode(p: &P, n: usize, mk: &dyn Fn(Fp, &[Fp]) -> P) -> Result<Vec<Fp>, String> {
    let marks: Vec<Fp> = (0..n).map(|i| Fp::from(1_000_000_007 + i as u64)).collect();
    let m: Vec<Fp> = mk(Fp::ZERO, &marks).iter_coeffs().collect();
    let real: Vec<Fp> = p.iter_coeffs().collect();
    let mut out = vec![];
    for x in &marks {
        out.push(real[m.iter().position(|y| y == x).ok_or("a stage lost one of its values")?]);
    }
    // the blinding is whatever is left over
    let bare: Vec<Fp> = mk(Fp::ZERO, &out).iter_coeffs().collect();
    let left = real.iter().zip(&bare).filter(|(a, b)| a != b).count();
    ensure_ok(left <= 2, "a stage polynomial does not hold its recorded values alone")?;
    Ok(out)
}
fn ensure_ok(c: bool, m: &str) -> Res {
    if c { Ok(()) } else { Err(m.into()) }
}

/// Everything one honest fuse told its recursion circuits.
struct Told<'a, const HS: usize> {
    w: &'a World<HS>,
    left: Proof,
    right: Proof,
    /// Output headers of the children, as the fuse wrote them.
    heads: (Vec<Fp>, Vec<Fp>),
    inst: Slots,
    outer: Vec<Fp>,
    inner: Vec<Fp>,
    query: Vec<Fp>,
    eval: Vec<Fp>,
    /// Recorded stage polynomials: preamble, outer error, inner error, query, eval.
    stage: [P; 5],
    /// Recorded circuit traces.
    rx: [P; 5],
    /// Claim challenges and the registry restricted to each circuit.
    y: Fp,
    z: Fp,
    sy: Vec<P>,
    tz: P,
}
const NAMES: [&str; 5] = ["hashes_1", "hashes_2", "inner_collapse", "outer_collapse", "compute_v"];
const STAGES: [&str; 5] = ["preamble", "outer_error", "inner_error", "query", "eval"];
/// Stages each circuit reads.
const READS: [&[usize]; 5] = [&[0, 1], &[1], &[0, 1, 2], &[0, 1], &[0, 3, 4]];
const IDS: [InternalCircuitIndex; 5] = [
    InternalCircuitIndex::Hashes1Circuit,
    InternalCircuitIndex::Hashes2Circuit,
    InternalCircuitIndex::InnerCollapseCircuit,
    InternalCircuitIndex::OuterCollapseCircuit,
    InternalCircuitIndex::ComputeVCircuit,
];
/// One input of the circuits.
#[derive(Clone, Debug, PartialEq)]
enum In {
    Inst(usize),
    /// A value of the outer error, inner error, query or eval stage (1–4).
    Stage(usize, usize),
    /// Children: side, then what.
    Slot(bool, usize),
    Head(bool, bool, usize),
    Out(bool, usize),
    /// The output header only where the step's instance repeats it.
    Said(bool, usize),
    Index(bool),
}
impl In {
    fn stage(&self) -> Option<usize> {
        match self {
            In::Inst(_) | In::Said(..) => None,
            In::Stage(s, _) => Some(*s),
            _ => Some(0),
        }
    }
    fn name(&self) -> String {
        match self {
            In::Inst(i) => format!("instance {}", SLOTS[*i].0),
            In::Stage(s, i) => format!("{} value {i}", STAGES[*s]),
            In::Slot(r, i) => format!("{} child's {}", side(*r), SLOTS[*i].0),
            In::Head(r, h, i) => format!("{} child's {} child header [{i}]", side(*r), side(*h)),
            In::Out(r, i) => format!("{} child's output header [{i}]", side(*r)),
            In::Said(r, i) => format!("{} child's output header [{i}] as published", side(*r)),
            In::Index(r) => format!("{} child's step", side(*r)),
        }
    }
}
fn side(r: bool) -> &'static str {
    if r { "right" } else { "left" }
}

fn set(p: &mut Proof, at: &str, f: impl Fn(Slot<'_, Pasta, R>)) {
    for (n, s) in verif::slots(p) {
        if n == at {
            return f(s);
        }
    }
    unreachable!("{at}")
}
fn bump(u: U, r: &mut VRng) -> U {
    match u {
        U::E(f) => U::E(match r.below(4) {
            0 => f + Fp::ONE,
            1 => -f + f.is_zero().unwrap_u8().then(),
            _ => f + r.nonzero::<Fp>(),
        }),
        U::P(p) => U::P(match r.below(2) {
            0 if !bool::from(group::prime::PrimeCurveAffine::is_identity(&p)) => -p,
            _ => (p + crate::apps::point(r)).to_affine(),
        }),
    }
}
trait Then {
    fn then(self) -> Fp;
}
impl Then for u8 {
    fn then(self) -> Fp {
        Fp::from(self as u64)
    }
}
fn change(f: Fp, r: &mut VRng) -> Fp {
    match bump(U::E(f), r) {
        U::E(g) if g != f => g,
        _ => f + Fp::ONE,
    }
}

impl<'a, const HS: usize> Told<'a, HS> {
    fn new(w: &'a World<HS>, p: &Proof, left: &Proof, right: &Proof, r: &mut VRng) -> Result<Self, String> {
        let q = parts(p);
        let reg = verif::native_registry(&w.app);
        let stage = STAGES.map(|s| q.native[&format!("{s}.rx")].clone());
        let rx = NAMES.map(|s| q.native[&format!("{s}.rx")].clone());
        let e = GROUPS * (GROUPS - 1) + GROUPS + 6 + ST;
        let (y, z) = (Fp::random(&mut *r), Fp::random(&mut *r));
        Ok(Told {
            w,
            left: left.clone(),
            right: right.clone(),
            heads: headers(p),
            inst: slots(p),
            outer: decode(&stage[1], e - ST + outer_states(), &|a, v| outer_error::Stage::<Pasta, R, HS, RP>::rx(a, &outer_w(v)).unwrap())?,
            inner: decode(&stage[2], GROUPS * SIZE * (SIZE - 1), &|a, v| inner_error::Stage::<Pasta, R, HS, RP>::rx(a, &inner_w(v)).unwrap())?,
            query: decode(&stage[3], query_len(), &|a, v| query::Stage::<Pasta, R, HS>::rx(a, &query_w(v)).unwrap())?,
            eval: decode(&stage[4], eval_len(), &|a, v| eval::Stage::<Pasta, R, HS>::rx(a, &eval_w(v)).unwrap())?,
            stage,
            rx,
            y,
            z,
            sy: IDS.iter().map(|i| reg.circuit_y(i.circuit_index(), y)).collect(),
            tz: ProductionRank::tz(z),
        })
    }
    fn accepts(&self, k: usize, rx: &P, stages: &[P; 5], inst: &Slots, heads: &(Vec<Fp>, Vec<Fp>)) -> bool {
        let mut a = rx.clone();
        READS[k].iter().for_each(|&s| a.add_assign(&stages[s]));
        let mut b = a.clone();
        b.dilate(self.z);
        b.add_assign(&self.sy[k]);
        b.add_assign(&self.tz);
        let extra: Vec<Fp> = if k == 0 { heads.0.iter().chain(&heads.1).copied().collect() } else { vec![] };
        a.revdot(&b) == ky(inst, &extra, self.y)
    }
    /// The claim of circuit `k` when a prover uses these inputs throughout (`redo`), or only in what it publishes.
    fn verdict(&self, c: &mut Case, k: usize, ins: &[In], redo: bool, twist: &mut VRng) -> Result<bool, String> {
        let (mut left, mut right) = (self.left.clone(), self.right.clone());
        let (mut outer, mut inner, mut query, mut eval) = (self.outer.clone(), self.inner.clone(), self.query.clone(), self.eval.clone());
        let mut inst = self.inst;
        let mut outs = self.heads.clone();
        for i in ins {
            match i {
                In::Inst(i) => {
                    let mut b = bump(inst[*i], twist);
                    if b == inst[*i] {
                        b = bump(U::E(Fp::ONE), twist);
                    }
                    inst[*i] = b;
                }
                In::Stage(s, i) => {
                    let v = [&mut outer, &mut inner, &mut query, &mut eval][*s - 1].get_mut(*i).unwrap();
                    *v = change(*v, twist);
                }
                In::Slot(r, i) => {
                    let seed = twist.u64();
                    set(if *r { &mut right } else { &mut left }, SLOTS[*i].1, |s| match s {
                        Slot::Scalar(f) => *f = change(*f, &mut VRng::new(seed)),
                        Slot::Bridge(p) => {
                            if let U::P(q) = bump(U::P(*p), &mut VRng::new(seed)) {
                                *p = q
                            }
                        }
                        _ => unreachable!(),
                    });
                }
                In::Head(r, h, i) => {
                    let seed = twist.u64();
                    set(if *r { &mut right } else { &mut left }, if *h { "application.right_header" } else { "application.left_header" }, |s| match s {
                        Slot::Header(v) => v[*i] = change(v[*i], &mut VRng::new(seed)),
                        _ => unreachable!(),
                    });
                }
                In::Said(..) => {}
                In::Out(r, i) => {
                    let v = if *r { &mut outs.1 } else { &mut outs.0 };
                    v[*i] = change(v[*i], twist);
                }
                In::Index(r) => {
                    // hashes_1 admits any index of the registry's domain, compute_v only the one queried
                    let big = 1usize << total_circuit_counts(self.w.acts.len()).1;
                    let other = if k == 0 { big + twist.below(big) } else { twist.below(big) };
                    set(if *r { &mut right } else { &mut left }, "application.circuit_id", |s| match s {
                        Slot::Index(i) => {
                            *i = CircuitIndex::new(if usize::from(*i) == other { other ^ 1 } else { other });
                        }
                        _ => unreachable!(),
                    });
                }
            }
        }
        let bad = |e: ragu_core::Error| format!("{e:?}");
        let pre = preamble::Witness::<Pasta, R, HS>::new(&left, &right, &outs.0, &outs.1).map_err(bad)?;
        let (ow, iw, qw, ew) = (outer_w(&outer), inner_w(&inner), query_w(&query), eval_w(&eval));
        let mut stages = self.stage.clone();
        for s in ins.iter().filter_map(In::stage) {
            let alpha = twist.field();
            stages[s] = match s {
                0 => preamble::Stage::<Pasta, R, HS>::rx(alpha, &pre),
                1 => outer_error::Stage::<Pasta, R, HS, RP>::rx(alpha, &ow),
                2 => inner_error::Stage::<Pasta, R, HS, RP>::rx(alpha, &iw),
                3 => query::Stage::<Pasta, R, HS>::rx(alpha, &qw),
                _ => eval::Stage::<Pasta, R, HS>::rx(alpha, &ew),
            }
            .map_err(bad)?;
        }
        let rx = if redo {
            c.event("circuits traced", 1);
            let i = instance(&inst);
            let t = match k {
                0 => hashes_1::Circuit::<Pasta, R, HS, RP>::new(pasta(), total_circuit_counts(self.w.acts.len()).1)
                    .trace(hashes_1::Witness { unified: i, preamble_witness: &pre, outer_error_witness: &ow })
                    .map(|t| t.into_parts().0),
                1 => hashes_2::Circuit::<Pasta, R, HS, RP>::new(pasta()).trace(hashes_2::Witness { unified: i, outer_error_witness: &ow }).map(|t| t.into_parts().0),
                2 => inner_collapse::Circuit::<Pasta, R, HS, RP>::new()
                    .trace(inner_collapse::Witness { preamble_witness: &pre, unified: i, outer_error_witness: &ow, inner_error_witness: &iw })
                    .map(|t| t.into_parts().0),
                3 => outer_collapse::Circuit::<Pasta, R, HS, RP>::new()
                    .trace(outer_collapse::Witness { unified: i, preamble_witness: &pre, outer_error_witness: &ow })
                    .map(|t| t.into_parts().0),
                _ => compute_v::Circuit::<Pasta, R, HS>::new()
                    .trace(compute_v::Witness { unified: i, preamble_witness: &pre, query_witness: &qw, eval_witness: &ew })
                    .map(|t| t.into_parts().0),
            };
            let t = match t {
                Ok(t) => t,
                Err(_) => {
                    c.event("no witness", 1);
                    return Ok(false);
                }
            };
            verif::native_registry(&self.w.app).assemble(&t, IDS[k].circuit_index(), &mut vh_rng(twist)).map_err(bad)?
        } else {
            self.rx[k].clone()
        };
        for i in ins {
            if let In::Said(r, i) = i {
                let v = if *r { &mut outs.1 } else { &mut outs.0 };
                v[*i] = change(v[*i], twist);
            }
        }
        Ok(self.accepts(k, &rx, &stages, &inst, &outs))
    }
    /// What circuit `k` must not accept any other value of, given the rest.
    fn bound(&self, k: usize, base_case: bool) -> Vec<In> {
        let slot = |n: &str| SLOTS.iter().position(|s| s.0 == n).unwrap();
        let inst = |l: &[&str]| l.iter().map(|n| In::Inst(slot(n))).collect::<Vec<_>>();
        let e = GROUPS * (GROUPS - 1);
        let mut v = vec![];
        match k {
            0 => {
                v = inst(&["bridge_preamble_commitment", "w", "bridge_s_prime_commitment", "y", "z", "bridge_inner_error_commitment"]);
                for r in [false, true] {
                    (0..21).for_each(|i| v.push(In::Slot(r, i)));
                    for i in 0..HS {
                        v.extend([In::Head(r, false, i), In::Head(r, true, i), In::Out(r, i), In::Said(r, i)]);
                    }
                    v.push(In::Index(r));
                }
                (e + GROUPS..self.outer.len()).for_each(|i| v.push(In::Stage(1, i)));
            }
            1 => {
                v = inst(&["mu", "nu", "bridge_outer_error_commitment", "mu_prime", "nu_prime", "bridge_ab_commitment", "x", "bridge_query_commitment", "alpha", "bridge_f_commitment", "u", "bridge_eval_commitment", "pre_beta"]);
                (e + GROUPS + 6..self.outer.len()).for_each(|i| v.push(In::Stage(1, i)));
            }
            2 => {
                v = inst(&["mu", "nu"]);
                (0..self.inner.len()).for_each(|i| v.push(In::Stage(2, i)));
                (e..e + GROUPS + 6).for_each(|i| v.push(In::Stage(1, i)));
                v.extend([In::Slot(false, slot("c")), In::Slot(true, slot("c"))]);
            }
            3 if !base_case => {
                v = inst(&["mu_prime", "nu_prime", "c"]);
                (0..e + GROUPS).for_each(|i| v.push(In::Stage(1, i)));
            }
            3 => {}
            _ => {
                v = inst(&["w", "y", "z", "x", "mu", "nu", "mu_prime", "nu_prime", "alpha", "u", "pre_beta", "v"]);
                (0..self.query.len()).for_each(|i| v.push(In::Stage(3, i)));
                (0..self.eval.len()).for_each(|i| v.push(In::Stage(4, i)));
                for r in [false, true] {
                    ["u", "y", "x", "v"].iter().for_each(|n| v.push(In::Slot(r, slot(n))));
                    v.push(In::Index(r));
                }
            }
        }
        v
    }
}
/// The queries every fuse must answer: which evaluation at `u`, at which point.
fn asked<const HS: usize>(t: &Told<HS>) -> Vec<(String, usize, Vec<Fp>)> {
    let n = RxIndex::ALL.len();
    let l = n + 4;
    let (a, b) = (parts(&t.left).scalar, parts(&t.right).scalar);
    let own = |k: &str| match t.inst[SLOTS.iter().position(|s| s.0 == k).unwrap()] {
        U::E(f) => f,
        _ => unreachable!(),
    };
    let step = |p: &Proof| {
        let mut q = p.clone();
        verif::slots(&mut q).into_iter().find_map(|(_, s)| if let Slot::Index(i) = s { Some(i.omega_j::<Fp>()) } else { None }).unwrap()
    };
    let (w, x, y, xz) = (own("w"), own("x"), own("y"), own("x") * own("z"));
    let mut v = vec![];
    for (name, at, c) in [("left", 0, &a), ("right", l, &b)] {
        for (i, id) in RxIndex::ALL.iter().enumerate() {
            v.push((format!("{name} child's {id:?}"), at + i, vec![xz]));
        }
        v.push((format!("{name} child's a"), at + n, vec![xz]));
        v.push((format!("{name} child's b"), at + n + 1, vec![x]));
        v.push((format!("{name} child's registry_xy"), at + n + 2, vec![w]));
        v.push((format!("{name} child's p"), at + n + 3, vec![c["challenges.u"]]));
    }
    v.push(("registry_wx0".into(), 2 * l, vec![a["challenges.y"], y]));
    v.push(("registry_wx1".into(), 2 * l + 1, vec![b["challenges.y"], y]));
    v.push(("registry_wy".into(), 2 * l + 2, vec![a["challenges.x"], b["challenges.x"], x]));
    v.push(("a".into(), 2 * l + 3, vec![xz]));
    v.push(("b".into(), 2 * l + 4, vec![x]));
    let mut at = vec![w, step(&t.left), step(&t.right)];
    at.extend(InternalCircuitIndex::ALL.iter().map(|i| i.circuit_index().omega_j::<Fp>()));
    v.push(("registry_xy".into(), 2 * l + 5, at));
    v
}
/// Claimed values that are compared with an evaluation, and at which points.
fn claimed<const HS: usize>(t: &Told<HS>) -> Vec<(String, usize, Vec<Fp>)> {
    let (n, k) = (RxIndex::ALL.len(), InternalCircuitIndex::ALL.len());
    let q = asked(t);
    let pts = |s: &str| q.iter().find(|x| x.0 == s).unwrap().2.clone();
    let mut v: Vec<_> = (0..k).map(|i| (format!("registry_xy at {:?}", InternalCircuitIndex::ALL[i]), i, vec![pts("registry_xy")[3 + i]])).collect();
    v.push(("registry_wxy".into(), k, vec![pts("registry_wy")[2], pts("registry_xy")[0]]));
    for (i, side) in ["left", "right"].iter().enumerate() {
        let at = k + 1 + i * (n + 5) + n + 2;
        v.push((format!("{side} child's registry at w"), at, vec![pts("registry_xy")[0], pts(["registry_wx0", "registry_wx1"][i])[0]]));
        v.push((format!("registry at {side} child's step"), at + 1, vec![pts("registry_xy")[1 + i]]));
        v.push((format!("registry at {side} child's x"), at + 2, vec![pts("registry_wy")[i], pts("registry_wx0")[1]]));
    }
    v
}
/// Solves a linear system given by the inverse of its matrix.
fn invert(mut m: Vec<Vec<Fp>>) -> Vec<Vec<Fp>> {
    let n = m.len();
    let mut inv: Vec<Vec<Fp>> = (0..n).map(|i| (0..n).map(|j| Fp::from((i == j) as u64)).collect()).collect();
    for k in 0..n {
        let p = (k..n).find(|&i| m[i][k] != Fp::ZERO).expect("distinct points");
        m.swap(k, p);
        inv.swap(k, p);
        let d = m[k][k].invert().unwrap();
        for j in 0..n {
            m[k][j] *= d;
            inv[k][j] *= d;
        }
        for i in 0..n {
            if i != k && m[i][k] != Fp::ZERO {
                let f = m[i][k];
                for j in 0..n {
                    let (a, b) = (m[k][j], inv[k][j]);
                    m[i][j] -= f * a;
                    inv[i][j] -= f * b;
                }
            }
        }
    }
    inv
}
/// The final evaluation is a sum of quotients, one for each query. As a
/// function of `u` it has a pole at every queried point, and the residue says
/// which evaluations are compared there.
fn quotients<const HS: usize>(c: &mut Case, t: &Told<HS>) -> Res {
    let bad = |e: ragu_core::Error| format!("compute_v: {e:?}");
    let pre = preamble::Witness::<Pasta, R, HS>::new(&t.left, &t.right, &t.heads.0, &t.heads.1).map_err(bad)?;
    let circuit = compute_v::Circuit::<Pasta, R, HS>::new();
    let v = |u: Fp, query: &[Fp], eval: &[Fp]| -> Result<Fp, String> {
        let mut inst = t.inst;
        inst[17] = U::E(u);
        let (qw, ew) = (query_w(query), eval_w(eval));
        let w = compute_v::Witness { unified: instance(&inst), preamble_witness: &pre, query_witness: &qw, eval_witness: &ew };
        let mut dr = Emulator::execute();
        let out = circuit.witness(&mut dr, Always::maybe_just(|| w)).map_err(bad)?.into_parts().0;
        let mut wires: Vec<Element<'_, _>> = vec![];
        out.write(&mut dr, &mut wires).map_err(bad)?;
        // the last slot, before the suffix
        Ok(*wires[wires.len() - 2].value().take())
    };
    let (asked, claimed) = (asked(t), claimed(t));
    let mut pts: Vec<Fp> = vec![];
    for p in asked.iter().flat_map(|a| &a.2) {
        if !pts.contains(p) {
            pts.push(*p);
        }
    }
    let m = pts.len() + 1;
    let us: Vec<Fp> = (0..=m).map(|_| Fp::random(&mut c.rng)).collect();
    let row = |u: Fp| -> Vec<Fp> { std::iter::once(Fp::ONE).chain(pts.iter().map(|p| (u - p).invert().unwrap())).collect() };
    let inv = invert(us[..m].iter().map(|u| row(*u)).collect());
    let last = row(us[m]);
    // constant part and residues
    let mut parts = |query: &[Fp], eval: &[Fp]| -> Result<Vec<Fp>, String> {
        let vs: Vec<Fp> = us.iter().map(|u| v(*u, query, eval)).collect::<Result<_, _>>()?;
        let out: Vec<Fp> = inv.iter().map(|r| r.iter().zip(&vs).map(|(a, b)| *a * b).sum()).collect();
        ensure_ok(out.iter().zip(&last).map(|(a, b)| *a * b).sum::<Fp>() == vs[m], "the final evaluation has poles at other points than those queried")?;
        Ok(out)
    };
    let base = parts(&t.query, &t.eval)?;
    ensure!(v_of(&t.inst) == v(u_of(&t.inst), &t.query, &t.eval)?, "the recorded final evaluation is not the one the recorded values give");
    // evaluations
    let mut weights: Vec<(Fp, Vec<(Fp, String)>)> = pts.iter().map(|p| (*p, vec![])).collect();
    let mut plain: Vec<(Fp, String)> = vec![];
    for (name, i, at) in &asked {
        let mut e = t.eval.clone();
        e[*i] += Fp::ONE;
        let d: Vec<Fp> = parts(&t.query, &e)?.iter().zip(&base).map(|(a, b)| *a - b).collect();
        c.eval();
        ensure!(d[0] != Fp::ZERO, "the evaluation of {name} is not part of the final evaluation");
        if let Some(o) = plain.iter().find(|o| o.0 == d[0]) {
            return Err(format!("{name} and {} have the same weight in the final evaluation", o.1));
        }
        plain.push((d[0], name.clone()));
        for (j, p) in pts.iter().enumerate() {
            let r = d[1 + j];
            if !at.contains(p) {
                ensure!(r == Fp::ZERO, "the evaluation of {name} is queried at a point it has nothing to do with");
                continue;
            }
            ensure!(r != Fp::ZERO, "the evaluation of {name} is not queried at one of its points (point {} of {})", at.iter().position(|x| x == p).unwrap(), at.len());
            if let Some(o) = weights[j].1.iter().find(|o| o.0 == r) {
                return Err(format!("the queries of {name} and {} have the same weight", o.1));
            }
            weights[j].1.push((r, name.clone()));
            c.event("queries found", 1);
            c.seen(&("query", HS, name.as_str(), j));
        }
    }
    for (name, i, at) in &claimed {
        let mut q = t.query.clone();
        q[*i] += Fp::ONE;
        let d: Vec<Fp> = parts(&q, &t.eval)?.iter().zip(&base).map(|(a, b)| *a - b).collect();
        c.eval();
        for p in at {
            let j = pts.iter().position(|x| x == p).unwrap();
            ensure!(d[1 + j] != Fp::ZERO, "the claimed {name} is not compared at one of its points");
            c.event("claimed values found", 1);
        }
    }
    c.event("final evaluations taken apart", 1);
    Ok(())
}
fn u_of(s: &Slots) -> Fp {
    match s[17] {
        U::E(f) => f,
        _ => unreachable!(),
    }
}
fn v_of(s: &Slots) -> Fp {
    match s[20] {
        U::E(f) => f,
        _ => unreachable!(),
    }
}
fn outer_states() -> usize {
    use ragu_arithmetic::{Cycle, PoseidonPermutation};
    <<Pasta as Cycle>::CircuitPoseidon as PoseidonPermutation<Fp>>::T
}
fn query_len() -> usize {
    InternalCircuitIndex::ALL.len() + 1 + 2 * (ragu_pcd::verif::native::RxIndex::ALL.len() + 5)
}
fn eval_len() -> usize {
    2 * (ragu_pcd::verif::native::RxIndex::ALL.len() + 4) + 6
}
fn vh_rng(r: &mut VRng) -> VRng {
    VRng::new(r.u64())
}

fn told<const HS: usize>(c: &mut Case, w: &World<HS>, ops: usize, per: usize) -> Res {
    let mut made = grow(c, w, ops)?;
    // a fuse with exactly one trivial child, itself a real proof
    let mut rr = VRng::new(c.rng.u64());
    let unit = w.app.rerandomize(w.unit.proof.clone().carry::<()>(()), &mut rr).map_err(|e| format!("rerandomize: {e:?}"))?;
    made.push((Node { proof: verif::split(unit).0, val: Val::Unit, size: 1, depth: 1 }, usize::MAX, usize::MAX, usize::MAX));
    let unit_at = made.len() - 1;
    let odd: Vec<(usize, usize, usize)> = (0..w.acts.len())
        .flat_map(|a| (0..made.len()).flat_map(move |i| [(a, i, unit_at), (a, unit_at, i)]))
        .filter(|&(a, i, j)| {
            let v = |i: usize| if i < made.len() { &made[i].0.val } else { &Val::Unit };
            !w.acts[a].leaf && (w.acts[a].takes)(v(i), v(j)) && (*v(i) == Val::Unit) != (*v(j) == Val::Unit)
        })
        .collect();
    if !odd.is_empty() {
        let (a, i, j) = odd[c.rng.below(odd.len())];
        let at = |i: usize| if i < made.len() { &made[i].0 } else { &w.unit };
        let d = (w.acts[a].go)(&w.app, &mut Odd::Good(VRng::new(c.rng.u64())), &mut c.rng, at(i), at(j), false);
        let (n, _) = d.got.map_err(|e| format!("honest fuse: {e:?}"))?;
        made.push((n, a, i, j));
    }
    let at = |i: usize| if i < made.len() { made[i].0.proof.clone() } else { w.unit.proof.clone() };
    let unit = |i: usize| i >= made.len() || made[i].0.val == Val::Unit;
    // one fuse of each kind: both children trivial, one, none
    for kind in 0..3 {
        let Some((n, _, i, j)) = made.iter().rev().find(|m| m.1 != usize::MAX && [m.2, m.3].iter().filter(|i| !unit(**i)).count() == kind) else { continue };
        c.event(["fuses of trivial children", "fuses of one trivial child", "fuses of two children"][kind], 1);
        let t = Told::new(w, &n.proof, &at(*i), &at(*j), &mut VRng::new(c.rng.u64()))?;
        if kind == 2 || c.rng.chance(1, 3) {
            quotients(c, &t)?;
        }
        for k in 0..5 {
            c.eval();
            ensure!(t.accepts(k, &t.rx[k], &t.stage, &t.inst, &t.heads), "{}: the recorded honest trace is refused", NAMES[k]);
            let mut r = VRng::new(c.rng.u64());
            ensure!(t.verdict(c, k, &[], true, &mut r)?, "{}: an honest trace from the recorded values is refused", NAMES[k]);
            let mut v = t.bound(k, kind == 0);
            // the many error terms are sampled; everything else is altered every time
            let terms = |i: &In| matches!(i, In::Stage(2, _)) || matches!(i, In::Stage(1, j) if *j < GROUPS * (GROUPS - 1));
            while v.iter().filter(|i| terms(i)).count() > per {
                let i = c.rng.below(v.len());
                if terms(&v[i]) {
                    v.swap_remove(i);
                }
            }
            for i in v {
                for redo in [true, false] {
                    c.eval();
                    let mut r = VRng::new(c.rng.u64());
                    let ok = catch(|| t.verdict(c, k, std::slice::from_ref(&i), redo, &mut r)).unwrap_or(Ok(false))?;
                    ensure!(!ok, "{}: {} altered{} and still accepted ({} non-trivial children)", NAMES[k], i.name(), if redo { " by a prover that traces with it" } else { " after tracing" }, kind);
                    c.event("alterations refused", 1);
                    c.seen(&(w.name, kind, k, i.name(), redo));
                }
            }
            if k == 3 && kind == 0 {
                // the combined claim starts fresh where there is nothing below
                c.eval();
                let mut r = VRng::new(c.rng.u64());
                let free = t.verdict(c, k, &[In::Inst(11)], true, &mut r)?;
                ensure!(free, "outer_collapse: base case does not leave the combined claim free");
            }
        }
    }
    Ok(())
}
pub fn d09(x: &Ctx) {
    x.rule("The values an honest fuse gave its five recursion circuits are recovered from the recorded stage polynomials; every input a circuit is responsible for is altered, by a prover that traces the circuit with the altered value and by one that swaps it in afterwards, and the circuit's claim must fail at random challenges; the final evaluation is taken apart into its quotients and every query must be among them with a weight of its own. Distinct: application, kind of children, circuit, input, way.");
    let per = x.n(60, 2000);
    x.cases("bound", x.n(6, 60), |c| match c.idx % 3 {
        0 => told(c, &rich::<4>().unwrap(), 7, per),
        1 => told(c, &two::<2>().unwrap(), 4, per),
        _ => told(c, &wide::<7>().unwrap(), 4, per),
    });
}
