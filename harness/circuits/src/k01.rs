//! Wiring and trace polynomials of random circuits against the model.
use circ::util::{Fld, dense, gen_net, mixes, outs_of};
use circ::{
    Model, eval2, horner,
    nets::{Gen, Mix, Net, NetBody, NoisyOut, OutKind},
    pow, restrict, with_outs,
};
use ff::{FromUniformBytes, PrimeField};
use pasta_curves::{Fp, Fq};
use ragu_circuits::{
    Circuit, CircuitExt,
    polynomials::{R, Rank, sparse},
    registry::{CircuitIndex, RegistryBuilder},
    verif::{self, Object, Place},
};
use vh::{Case, Ctx, Res, VRng, ensure, ensure_eq, small::*};

pub type T = R<7>;
pub type Big = R<13>;

/// A packing of the segments in some other order; the root stays first.
pub fn shuffled(r: &mut VRng, plan: &[Place]) -> Vec<Place> {
    let mut out = plan.to_vec();
    for which in 0..2 {
        let mut ord: Vec<usize> = (1..plan.len()).collect();
        for i in (1..ord.len()).rev() {
            ord.swap(i, r.below(i + 1));
        }
        let mut at = if which == 0 { plan[0].2 } else { plan[0].3 };
        for s in ord {
            if which == 0 {
                out[s].0 = at;
                at += plan[s].2;
            } else {
                out[s].1 = at;
                at += plan[s].3;
            }
        }
    }
    out
}

/// Evaluation points with the special ones boosted.
fn point<F: Fld, K: Rank>(r: &mut VRng) -> F {
    match r.below(8) {
        0 => F::ZERO,
        1 => F::ONE,
        2 => -F::ONE,
        // a root of unity of order dividing 4n
        3 => pow(F::ROOT_OF_UNITY, 1usize << (F::S - F::S.min(r.below(K::RANK as usize + 1) as u32))),
        4 => F::from(2),
        5 => r.field(),
        _ => r.uniform(),
    }
}

/// Every evaluation strategy against the model under one plan.
fn wiring<F: Fld, K: Rank>(c: &mut Case, o: &Object<'_, F, K>, terms: &[(usize, usize, F)], plan: &[Place], points: usize) -> Res {
    for _ in 0..points {
        let (x, y): (F, F) = (point::<F, K>(&mut c.rng), point::<F, K>(&mut c.rng));
        // the wiring polynomial has no X^0 term, so it vanishes at x = 0
        let want = eval2(terms, x, y);
        ensure_eq!(o.sxy(x, y, plan), want, "s(x, y) at {x:?} {y:?}");
        let sx = o.sx(x, plan);
        ensure_eq!(dense(&sx), restrict(terms, K::num_coeffs(), Some(x), None), "s(x, Y) at {x:?}");
        ensure_eq!(sx.eval(y), want, "s(x, Y) evaluated");
        let sy = o.sy(y, plan);
        ensure_eq!(dense(&sy), restrict(terms, K::num_coeffs(), None, Some(y)), "s(X, y) at {y:?}");
        ensure_eq!(sy.eval(x), want, "s(X, y) evaluated");
        c.eval();
        c.event("wiring evaluations compared", 5);
        c.event("points with x or y zero", (x == F::ZERO || y == F::ZERO) as u64);
    }
    Ok(())
}

fn note<F: Fld>(c: &mut Case, m: &Model<F>) {
    c.seen(&m.segs.iter().map(|s| (s.gates, s.cons.len(), s.path.clone())).collect::<Vec<_>>());
    c.event("circuits", 1);
    c.event("routine segments", m.segs.len() as u64 - 1);
    c.event("gates", m.gates() as u64);
    c.event("constraints", m.constraints() as u64);
}

fn k01_circuit<F: Fld, K: Rank, C: Circuit<F>>(c: &mut Case, circuit: C, points: usize) -> Res {
    let m = circ::structure(&circuit).map_err(|e| format!("recording failed: {e}"))?;
    note(c, &m);
    let plan = m.plan();
    let o = Object::<F, K>::new(circuit).map_err(|e| format!("circuit rejected: {e}"))?;
    let t = m.terms(&plan, K::n());
    ensure!(t.iter().all(|(i, j, _)| *i < K::num_coeffs() && *i > 0 && *j < K::num_coeffs()), "model out of range");
    let own = o.plan();
    // any placement is legitimate as long as it is the one the library uses
    let t_own = if own == plan { t.clone() } else { m.terms(&own, K::n()) };
    wiring(c, &o, &t_own, &own, points)?;
    if plan.len() > 2 {
        let p2 = shuffled(&mut c.rng, &plan);
        c.event("other floor plans", (p2 != plan) as u64);
        wiring(c, &o, &m.terms(&p2, K::n()), &p2, 1 + points / 2)?;
    }
    c.sample(&format!("segments:{}", plan.len().min(4)), || format!("plan {plan:?}, {} terms", t.len()));
    Ok(())
}

fn k01_case<F: Fld>(c: &mut Case) -> Res {
    if c.rng.chance(1, 8) {
        let mix = mixes(&mut c.rng);
        let (p, _) = gen_net::<F, T>(&mut c.rng, mix, 1);
        let n = Net::<F, NoisyOut>::new(p);
        if circ::structure(&n).is_ok_and(|m: Model<F>| m.gates() <= T::n()) {
            return k01_circuit::<F, T, _>(c, n, 3);
        }
        return Ok(());
    }
    let (mix, k) = (mixes(&mut c.rng), outs_of(&mut c.rng));
    let (p, _) = gen_net::<F, T>(&mut c.rng, mix, k);
    with_outs!(k, p, |n| k01_circuit::<F, T, _>(c, n, 4))
}

pub fn run(x: &Ctx) {
    crate::chain::run(x);
    x.rule("Each random circuit's driver calls are recorded and turned into the bivariate wiring polynomial by the documented wire-to-monomial layout; s(x,y), s(x,Y) and s(X,y) must match it coefficient by coefficient under the library's floor plan and under shuffled ones, at random points, zero, one and roots of unity.");
    x.cases("pasta Fp", x.n(2600, 36000), k01_case::<Fp>);
    x.cases("pasta Fq", x.n(600, 12000), k01_case::<Fq>);
    x.cases("F_65537", x.n(3000, 48000), k01_case::<F65537>);
    x.cases("F_7681", x.n(2000, 36000), k01_case::<F7681>);
    x.cases("F_257", x.n(1200, 24000), k01_case::<F257>);
    x.cases("production rank", x.n(100, 720), |c| {
        let mix = Mix { len: 400, depth: 3, calls: 60, ..Mix::default() };
        let k = outs_of(&mut c.rng);
        let (p, _) = gen_net::<F65537, Big>(&mut c.rng, mix, k);
        with_outs!(k, p, |n| k01_circuit::<F65537, Big, _>(c, n, 2))
    });
}

// ------------------------------------------------------------------ K02

/// `<r, r(zX) + s(X, y) + t(X, z)>` in the library's own operations.
fn lhs<F: Fld, K: Rank>(r: &sparse::Polynomial<F, K>, sy: &sparse::Polynomial<F, K>, z: F) -> F {
    let mut rhs = r.clone();
    rhs.dilate(z);
    rhs.add_assign(sy);
    rhs.add_assign(&K::tz(z));
    r.revdot(&rhs)
}

fn k02_circuit<F: Fld, K: Rank, C>(c: &mut Case, circuit: C, w: Vec<F>, tampers: usize) -> Res
where
    C: for<'a> Circuit<F, Witness<'a> = Vec<F>, Instance<'a> = Vec<F>> + Clone + 'static,
{
    let m = circ::witnessed(&circuit, w.clone()).map_err(|e| format!("recording failed: {e}"))?;
    note(c, &m);
    let alpha: F = c.rng.field();
    let other = Object::<F, K>::new(circuit.clone()).map_err(|e| format!("circuit rejected: {e}"))?;
    let plan = other.plan();
    // a registry with the circuit at a random place
    let before = c.rng.below(3);
    let mut b = RegistryBuilder::<F, K>::new();
    for _ in 0..before {
        b = b.register_circuit(()).map_err(|e| e.to_string())?;
    }
    let reg = b.register_circuit(circuit.clone()).and_then(|b| b.finalize()).map_err(|e| e.to_string())?;
    let ix = CircuitIndex::new(before);
    let trace = circuit.trace(w).map_err(|e| format!("trace failed: {e}"))?.into_output();
    let r = reg.assemble_with_alpha(&trace, ix, alpha).map_err(|e| format!("assembly failed: {e}"))?;
    let n = K::n();
    let want = m.trace(&plan, n, alpha);
    ensure_eq!(dense(&r), want, "assembled trace");
    ensure!(m.accepts(&plan, n, &want, &m.outs), "the recorded witness does not satisfy the recorded circuit");
    let mut key = vec![F::ZERO; 4 * n];
    let identity = |r: &[F], outs: &[F], rng: &mut VRng, tries: usize| -> bool {
        // true when every challenge is satisfied
        let rp = sparse::Polynomial::<F, K>::from_coeffs(r.to_vec());
        (0..tries).all(|_| {
            let (y, z): (F, F) = (rng.uniform(), rng.uniform());
            let sy = other.sy(y, &plan);
            lhs(&rp, &sy, z) == horner(&Model::ky(outs), y)
        })
    };
    // in the registry the key term pairs with c[0], which is zero
    for _ in 0..2 {
        let (y, z): (F, F) = (c.rng.field(), c.rng.field());
        let sy = reg.circuit_y(ix, y);
        ensure_eq!(lhs(&r, &sy, z), horner(&Model::ky(&m.outs), y), "identity through the registry at y={y:?} z={z:?}");
        c.event("identities checked", 1);
    }
    key[0] = F::ONE;
    ensure!(identity(&want, &m.outs, &mut c.rng, 3), "identity fails for a satisfying trace");
    for _ in 0..tampers {
        let mut t = want.clone();
        let mut outs = m.outs.clone();
        let kind = c.rng.below(5);
        match kind {
            0 if !outs.is_empty() => {
                let i = c.rng.below(outs.len());
                outs[i] += c.rng.nonzero::<F>();
            }
            1 if !outs.is_empty() => {
                outs.push(c.rng.field());
            }
            2 => {
                // two coefficients of one gate
                let g = c.rng.below(m.gates().max(1));
                for _ in 0..2 {
                    let k = [g, 2 * n - 1 - g, 2 * n + g, 4 * n - 1 - g][c.rng.below(4)];
                    t[k] = c.rng.field();
                }
            }
            3 => {
                // anywhere, including unused gates
                let k = c.rng.below(4 * n);
                t[k] += c.rng.nonzero::<F>();
            }
            _ => {
                let g = c.rng.below(m.gates().max(1));
                let k = [g, 2 * n - 1 - g, 2 * n + g, 4 * n - 1 - g][c.rng.below(4)];
                t[k] += c.rng.nonzero::<F>();
            }
        }
        let ok = m.accepts(&plan, n, &t, &outs);
        let tries = if F::NUM_BITS > 200 { 1 } else { 8 };
        let got = identity(&t, &outs, &mut c.rng, tries);
        ensure_eq!(got, ok, "kind {kind}: identity against the satisfaction of every gate and constraint");
        c.eval();
        c.event(if ok { "tampered traces that still satisfy" } else { "violations that must be noticed" }, 1);
    }
    c.sample("trace", || format!("{} segments, outs {}", m.segs.len(), m.outs.len()));
    Ok(())
}

fn k02_case<F: Fld>(c: &mut Case) -> Res {
    let (mix, k) = (mixes(&mut c.rng), outs_of(&mut c.rng));
    let (p, w) = gen_net::<F, T>(&mut c.rng, mix, k);
    with_outs!(k, p, |n| k02_circuit::<F, T, _>(c, n, w, 12))
}

pub fn run_k02(x: &Ctx) {
    x.rule("Each random circuit is recorded with a satisfying witness; the assembled trace must equal the model's coefficients and satisfy the revdot identity at random challenges. Traces and outputs changed at single wires, pairs of wires, unused gates and outputs must satisfy the identity exactly when a direct check of every gate and every recorded constraint succeeds.");
    x.assume("identity checks over small fields use eight independent challenges, over the Pasta fields one; a false acceptance has probability below 2^-60 per case");
    x.cases("pasta Fp", x.n(16000, 160000), k02_case::<Fp>);
    x.cases("pasta Fq", x.n(4000, 40000), k02_case::<Fq>);
    x.cases("F_65537", x.n(12000, 160000), k02_case::<F65537>);
}

// ------------------------------------------------------------------ K03

fn k03_circuit<F: Fld, C>(c: &mut Case, circuit: C, w: Vec<F>) -> Res
where
    C: for<'a> Circuit<F, Witness<'a> = Vec<F>>,
{
    let s = circ::structure(&circuit).map_err(|e| format!("recording failed: {e}"))?;
    let m = circ::witnessed(&circuit, w.clone()).map_err(|e| format!("recording failed: {e}"))?;
    note(c, &m);
    let q = verif::measure(&circuit).map_err(|e| format!("measuring failed: {e}"))?;
    ensure_eq!(q.degree_ky, s.n_out, "degree of k(Y)");
    ensure_eq!((q.num_gates, q.num_constraints), (s.gates(), s.constraints()), "totals");
    ensure_eq!(q.segments.len(), s.segs.len(), "number of segments");
    for (i, (a, b)) in q.segments.iter().zip(&s.segs).enumerate() {
        ensure_eq!((a.0, a.1), (b.gates as usize, b.cons.len()), "size of segment {i}");
        ensure_eq!(a.2.is_none(), i == 0, "only the root has no fingerprint");
    }
    // placement: root at the origin, nothing overlaps, nothing is skipped
    ensure_eq!(q.plan.len(), s.segs.len(), "plan length");
    ensure_eq!((q.plan[0].0, q.plan[0].1), (0, 0), "root placement");
    for (what, start, len) in [("gates", 0usize, 2usize), ("constraints", 1, 3)] {
        let get = |p: &Place, k: usize| [p.0, p.1, p.2, p.3][k];
        let mut v: Vec<(usize, usize)> = q.plan.iter().map(|p| (get(p, start), get(p, len))).collect();
        v.sort();
        let mut at = 0;
        for (s, l) in v {
            ensure_eq!(s, at, "{what}: segments leave a gap or overlap");
            at = s + l;
        }
    }
    for (i, (p, g)) in q.plan.iter().zip(&s.segs).enumerate() {
        ensure_eq!((p.2, p.3), (g.gates as usize, g.cons.len()), "planned size of segment {i}");
    }
    // the trace
    let t = circuit.trace(w).map_err(|e| format!("trace failed: {e}"))?.into_output();
    let got = verif::trace_segments(&t);
    ensure_eq!(got.len(), m.segs.len(), "segments of the trace");
    for (i, (a, b)) in got.iter().zip(&m.segs).enumerate() {
        let start = (i == 0) as usize;
        for k in 0..4 {
            ensure_eq!(a[k].len(), b.vals.len(), "segment {i} wire {k} length");
            let want: Vec<F> = b.vals.iter().map(|v| v[k]).collect();
            ensure_eq!(a[k][start..], want[start..], "segment {i} wire {k}");
        }
    }
    // assembly places each value where the plan says, under any plan
    let alpha = c.rng.field();
    for k in 0..2 {
        let plan = if k == 0 { q.plan.clone() } else { shuffled(&mut c.rng, &q.plan) };
        if m.gates() <= T::n() {
            let r = verif::assemble::<F, T>(&t, &plan, alpha).map_err(|e| e.to_string())?;
            ensure_eq!(dense(&r), m.trace(&plan, T::n(), alpha), "assembled under plan {k}");
        } else {
            let r = verif::assemble::<F, Big>(&t, &plan, alpha).map_err(|e| e.to_string())?;
            ensure_eq!(dense(&r), m.trace(&plan, Big::n(), alpha), "assembled under plan {k}");
        }
        c.eval();
    }
    let depth = m.segs.iter().map(|s| s.path.len()).max().unwrap_or(0);
    c.event("deepest nesting of a circuit, summed", depth as u64);
    c.event("segments compared", got.len() as u64);
    c.sample(&format!("depth:{depth}"), || format!("paths {:?}", m.segs.iter().map(|s| s.path.clone()).take(6).collect::<Vec<_>>()));
    Ok(())
}

/// The same body with predictions flipped on or off.
fn repredict<F: Fld>(r: &mut VRng, p: &NetBody<F>, how: usize) -> NetBody<F> {
    use circ::nets::{I, Pred, Sub};
    use std::sync::Arc;
    fn body<F: Fld>(r: &mut VRng, b: &[I<F>], how: usize) -> Vec<I<F>> {
        b.iter()
            .map(|i| match i {
                I::Call(s, v) => {
                    let pred = match how {
                        0 => Pred::Unknown,
                        1 => Pred::Known,
                        _ => [Pred::Known, Pred::Unknown][r.below(2)],
                    };
                    I::Call(Arc::new(Sub { shape: s.shape, pred, body: body(r, &s.body, how), outs: s.outs.clone(), delay: s.delay }), v.clone())
                }
                o => o.clone(),
            })
            .collect()
    }
    NetBody { ops: body(r, &p.ops, how), outs: p.outs.clone() }
}

fn k03_case<F: Fld>(c: &mut Case, mix: Mix) -> Res {
    let k = outs_of(&mut c.rng);
    let (p, w) = gen_net::<F, Big>(&mut c.rng, mix, k);
    let mut traces = vec![];
    for how in 0..3 {
        let p = repredict(&mut c.rng, &p, how);
        with_outs!(k, p, |n| {
            k03_circuit::<F, _>(c, n.clone(), w.clone())?;
            traces.push(verif::trace_segments(&n.trace(w.clone()).map_err(|e| e.to_string())?.into_output()));
        });
    }
    ensure!(traces[0] == traces[1] && traces[0] == traces[2], "prediction changed the trace");
    c.event("predictions toggled", 2);
    if c.rng.chance(1, 6) {
        let (p, w) = gen_net::<F, Big>(&mut c.rng, mix, 1);
        k03_circuit::<F, _>(c, Net::<F, NoisyOut>::new(p), w)?;
    }
    Ok(())
}

pub fn run_k03(x: &Ctx) {
    x.rule("Measured segment sizes, the floor plan, the trace segments and the assembled trace of random nested and repeated routines are compared with an independent recording of the same circuit; the same circuit with predictions on, off and mixed must give the same trace.");
    let m = |len, depth, calls| Mix { len, depth, calls, ..Mix::default() };
    x.cases("shallow", x.n(12000, 120000), move |c| k03_case::<F65537>(c, m(12, 1, 4)));
    x.cases("nested", x.n(12000, 120000), move |c| k03_case::<F65537>(c, m(12, 3, 5)));
    x.cases("deep", x.n(4800, 60000), move |c| k03_case::<F7681>(c, m(10, 6, 9)));
    x.cases("wide", x.n(3200, 40000), move |c| k03_case::<Fp>(c, m(60, 2, 14)));
}

// ------------------------------------------------------------------ K12

fn k12_circuit<F: Fld, C>(c: &mut Case, circuit: C, w: Vec<F>, plain: bool) -> Res
where
    C: for<'a> Circuit<F, Witness<'a> = Vec<F>, Instance<'a> = Vec<F>> + Clone + 'static,
{
    let m = circ::witnessed(&circuit, w.clone()).map_err(|e| format!("recording failed: {e}"))?;
    note(c, &m);
    let ser = |v: &[F]| -> Vec<F> { if plain { v.to_vec() } else { vec![v[0] * v[0], v[0] * v[0] + v[0]] } };
    let inst: Vec<F> = if plain { m.outs.clone() } else { vec![m.outs[1] - m.outs[0]] };
    ensure_eq!(ser(&inst), m.outs, "serialized outputs of the witness");
    let ky = |v: &[F], y: F| circuit.ky(v.to_vec(), y).map_err(|e| format!("ky failed: {e}"));
    for _ in 0..6 {
        let y: F = c.rng.field();
        ensure_eq!(ky(&inst, y)?, horner(&Model::ky(&m.outs), y), "k(y) of the satisfied instance");
        let rnd: Vec<F> = inst.iter().map(|_| c.rng.field()).collect();
        ensure_eq!(ky(&rnd, y)?, horner(&Model::ky(&ser(&rnd)), y), "k(y) of another instance");
        c.event("instance evaluations compared", 2);
    }
    // recover the coefficients by interpolation over distinct points
    let deg = m.outs.len();
    let pts: Vec<F> = (0..=deg as u64 + 1).map(F::from).collect();
    let vals = pts.iter().map(|p| ky(&inst, *p)).collect::<Result<Vec<_>, _>>()?;
    let mut coeffs = ragu_arithmetic::poly_with_roots(&[]);
    coeffs.clear();
    coeffs.extend(interpolate(&pts, &vals));
    coeffs.truncate(deg + 1);
    ensure_eq!(coeffs, Model::ky(&m.outs), "coefficients of k(Y)");
    // reject another instance of the same length
    let o = Object::<F, T>::new(circuit.clone()).map_err(|e| e.to_string())?;
    let plan = o.plan();
    let r = verif::assemble::<F, T>(&circuit.trace(w).map_err(|e| e.to_string())?.into_output(), &plan, c.rng.field()).map_err(|e| e.to_string())?;
    for _ in 0..4 {
        let mut bad = inst.clone();
        match c.rng.below(3) {
            0 if bad.len() > 1 => {
                let (i, j) = (c.rng.below(bad.len()), c.rng.below(bad.len()));
                bad.swap(i, j);
            }
            1 if !bad.is_empty() => bad.rotate_left(1),
            _ if !bad.is_empty() => {
                let i = c.rng.below(bad.len());
                bad[i] += c.rng.nonzero::<F>();
            }
            _ => {}
        }
        let same = ser(&bad) == m.outs;
        let tries = if F::NUM_BITS > 200 { 1 } else { 6 };
        let mut accepted = true;
        for _ in 0..tries {
            let (y, z): (F, F) = (c.rng.uniform(), c.rng.uniform());
            accepted &= lhs(&r, &o.sy(y, &plan), z) == ky(&bad, y)?;
        }
        ensure_eq!(accepted, same, "a trace for {:?} against the instance {:?}", inst, bad);
        c.event(if same { "same instance" } else { "other instances rejected" }, 1);
        c.eval();
    }
    Ok(())
}

fn interpolate<F: Fld>(xs: &[F], ys: &[F]) -> Vec<F> {
    let n = xs.len();
    let mut out = vec![F::ZERO; n];
    for i in 0..n {
        let mut b = vec![F::ONE];
        let mut den = F::ONE;
        for j in (0..n).filter(|j| *j != i) {
            den *= xs[i] - xs[j];
            let mut nb = vec![F::ZERO; b.len() + 1];
            for (k, v) in b.iter().enumerate() {
                nb[k + 1] += v;
                nb[k] -= xs[j] * v;
            }
            b = nb;
        }
        let s = ys[i] * den.invert().unwrap();
        for (o, v) in out.iter_mut().zip(&b) {
            *o += s * v;
        }
    }
    out
}

fn k12_case<F: Fld>(c: &mut Case) -> Res {
    let mix = mixes(&mut c.rng);
    if c.rng.chance(1, 5) {
        loop {
            let (p, w) = gen_net::<F, T>(&mut c.rng, mix, 1);
            let n = Net::<F, NoisyOut>::new(p);
            if circ::structure(&n).is_ok_and(|m: Model<F>| m.gates() <= T::n()) {
                return k12_circuit::<F, _>(c, n, w, false);
            }
        }
    }
    let k = outs_of(&mut c.rng);
    let (p, w) = gen_net::<F, T>(&mut c.rng, mix, k);
    with_outs!(k, p, |n| k12_circuit::<F, _>(c, n, w, true))
}

pub fn run_k12(x: &Ctx) {
    x.rule("k(Y) computed natively from an instance must be the polynomial 1 + sum of the serialized outputs in order, for the outputs the witness produced and for arbitrary instances, including gadgets whose serialization computes; the assembled trace must satisfy the identity for its own instance and fail for swapped, rotated and changed instances.");
    x.cases("pasta Fp", x.n(30000, 400000), k12_case::<Fp>);
    x.cases("F_65537", x.n(30000, 400000), k12_case::<F65537>);
}

#[allow(dead_code)]
fn _bounds<F: Fld, O: OutKind<F>>() {}
