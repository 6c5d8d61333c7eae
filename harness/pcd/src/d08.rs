//! Folding of revdot claims and accumulation by endoscaling.
use ff::{Field, FromUniformBytes, PrimeField, WithSmallOrderMulGroup};
use group::prime::PrimeCurveAffine;
use group::{Curve, Group};
use pasta_curves::arithmetic::CurveAffine;
use pasta_curves::{EpAffine, EqAffine, Fp, Fq};
use prog::{Budget, Expect, Feeder, Frag, Io, St, attack, conform};
use ragu_arithmetic::Uendo;
use ragu_circuits::CircuitExt;
use ragu_circuits::polynomials::{ProductionRank, R, sparse::Polynomial};
use ragu_circuits::staging::{MultiStage, StageExt};
use ragu_core::Result;
use ragu_core::drivers::{Driver, DriverValue};
use ragu_core::maybe::Maybe;
use ragu_pcd::verif::endoscalar::*;
use ragu_pcd::verif::fold_revdot::{self as fr, ClaimFolder, NumErrorTerms, Parameters};
use ragu_pcd::verif::native::RevdotParameters;
use ragu_primitives::Element;
use ragu_primitives::vec::{CollectFixed, ConstLen, FixedVec, Len};
use ragu_testing::registry::{Handle, TestRegistry, TestRegistryBuilder};
use std::collections::HashMap;
use std::marker::PhantomData;
use std::sync::Mutex;
use vh::small::{F97, F7681};
use vh::{Case, Ctx, Res, VRng, catch, ensure, ensure_eq};

trait Fld: PrimeField + FromUniformBytes<64> + Ord {}
impl<F: PrimeField + FromUniformBytes<64> + Ord> Fld for F {}

#[derive(Clone, Copy, Default)]
struct Shape<const N: usize, const M: usize>;
impl<const N: usize, const M: usize> Parameters for Shape<N, M> {
    type NumGroups = ConstLen<N>;
    type GroupSize = ConstLen<M>;
}
type T = R<7>;

fn pow<F: Field>(x: F, n: usize) -> F {
    (0..n).fold(F::ONE, |a, _| a * x)
}
/// Values of one two-layer reduction.
struct Terms<F> {
    mu: F,
    nu: F,
    mu2: F,
    nu2: F,
    /// N groups of M×(M−1).
    inner: Vec<Vec<F>>,
    outer: Vec<F>,
    /// N×M diagonals.
    ky: Vec<F>,
}
/// Sum over the matrix whose diagonal is `ky` and whose rest is `err`, row by row.
fn matrix<F: Field>(mu: F, nu: F, err: &[F], ky: &[F]) -> Option<F> {
    let m = ky.len();
    let (l, r) = (Option::<F>::from(mu.invert())?, mu * nu);
    let mut at = 0;
    let mut s = F::ZERO;
    for i in 0..m {
        for j in 0..m {
            let t = if i == j {
                ky[i]
            } else {
                at += 1;
                err[at - 1]
            };
            s += pow(l, m - 1 - i) * pow(r, m - 1 - j) * t;
        }
    }
    Some(s)
}
impl<F: Field> Terms<F> {
    fn model(&self) -> (Vec<F>, St) {
        let n = self.inner.len();
        let m = self.ky.len() / n;
        let mut out = vec![];
        for g in 0..n {
            match matrix(self.mu, self.nu, &self.inner[g], &self.ky[g * m..][..m]) {
                Some(v) => out.push(v),
                None => return (vec![], St::Err),
            }
        }
        let c = out.clone();
        match matrix(self.mu2, self.nu2, &self.outer, &c) {
            Some(v) => {
                out.push(v);
                (out, St::Ok)
            }
            None => (out, St::Err),
        }
    }
    fn flat(&self) -> Vec<F> {
        let mut v = vec![self.mu, self.nu, self.mu2, self.nu2];
        self.inner.iter().for_each(|g| v.extend(g));
        v.extend(&self.outer);
        v.extend(&self.ky);
        v
    }
}

struct Fold<P>(PhantomData<P>);
impl<F: Fld, P: Parameters> Frag<F> for Fold<P> {
    fn run<'dr, D: Driver<'dr, F = F>, I: Feeder<'dr, D>>(&self, dr: &mut D, feed: &mut I, io: &mut Io<'dr, D>, w: DriverValue<D, Vec<F>>) -> Result<()> {
        let (n, m) = (P::NumGroups::len(), P::GroupSize::len());
        let count = 4 + n * m * (m - 1) + n * (n - 1) + n * m;
        for k in 0..count {
            let e = feed.input(dr, D::just(|| w.snag()[k]))?;
            io.ins.push(e);
        }
        let mut it = io.ins.clone().into_iter();
        let [mu, nu, mu2, nu2] = core::array::from_fn(|_| it.next().unwrap());
        let mut inner = vec![];
        for _ in 0..n {
            inner.push(it.by_ref().take(m * (m - 1)).collect_fixed::<NumErrorTerms<P::GroupSize>>()?);
        }
        let outer = it.by_ref().take(n * (n - 1)).collect_fixed::<NumErrorTerms<P::NumGroups>>()?;
        let one = ClaimFolder::new(dr, &mu, &nu)?;
        for g in inner.iter() {
            let ky: FixedVec<_, P::GroupSize> = it.by_ref().take(m).collect_fixed()?;
            let c = one.fold_inner::<P>(dr, g, &ky)?;
            io.outs.push(c);
        }
        let two = ClaimFolder::new(dr, &mu2, &nu2)?;
        let ky: FixedVec<_, P::NumGroups> = io.outs.iter().cloned().collect_fixed()?;
        let c = two.fold_outer::<P>(dr, &outer, &ky)?;
        io.outs.push(c);
        Ok(())
    }
}
struct Layers<P>(usize, PhantomData<P>);
impl<F: Fld, P: Parameters> Frag<F> for Layers<P> {
    fn run<'dr, D: Driver<'dr, F = F>, I: Feeder<'dr, D>>(&self, dr: &mut D, feed: &mut I, io: &mut Io<'dr, D>, w: DriverValue<D, Vec<F>>) -> Result<()> {
        for k in 0..self.0 + 2 {
            let e = feed.input(dr, D::just(|| w.snag()[k]))?;
            io.ins.push(e);
        }
        let (s, src) = (&io.ins[..2], &io.ins[2..]);
        let r: Element<'dr, D> = fr::fold_two_layer::<D, P>(dr, src, &s[0], &s[1])?;
        io.outs.push(r);
        Ok(())
    }
}

fn scalar<F: Fld>(r: &mut VRng) -> F {
    match r.below(12) {
        0 => F::ZERO,
        1 => F::ONE,
        2 => -F::ONE,
        _ => r.uniform(),
    }
}
fn poly<F: Fld>(r: &mut VRng) -> (Vec<F>, Polynomial<F, T>) {
    let n = 4 << 5;
    let mut v = vec![F::ZERO; n];
    match r.below(6) {
        0 => {}
        1 => v[r.below(n)] = r.uniform(),
        2 => {
            let (a, b) = (r.below(n), r.below(n));
            for k in a.min(b)..a.max(b) {
                v[k] = r.uniform();
            }
        }
        _ => v.iter_mut().for_each(|x| *x = r.uniform()),
    }
    (v.clone(), Polynomial::from_coeffs(v))
}
fn dot<F: Field>(a: &[F], b: &[F]) -> F {
    a.iter().zip(b.iter().rev()).map(|(x, y)| *x * *y).sum()
}
fn lin<F: Field>(ps: &[Vec<F>], s: F, m: usize) -> Vec<F> {
    let mut o = vec![F::ZERO; 128];
    for (i, p) in ps.iter().enumerate() {
        let k = pow(s, m - 1 - i);
        o.iter_mut().zip(p).for_each(|(x, y)| *x += k * y);
    }
    o
}

fn fold<F: Fld, P: Parameters>(c: &mut Case, all: Option<Vec<F>>) -> Res {
    let (n, m) = (P::NumGroups::len(), P::GroupSize::len());
    let r = &mut c.rng;
    let count = match r.below(4) {
        0 => n * m,
        1 => r.below(3).min(n * m),
        _ => r.below(n * m + 1),
    };
    let (ad, a): (Vec<_>, Vec<_>) = (0..count).map(|_| poly::<F>(r)).unzip();
    let (bd, b): (Vec<_>, Vec<_>) = (0..count).map(|_| poly::<F>(r)).unzip();
    let (mu, nu, mu2, nu2): (F, F, F, F) = (scalar(r), scalar(r), scalar(r), scalar(r));
    // error terms of the first layer
    let zero = vec![F::ZERO; 128];
    let grp = |d: &[Vec<F>], g: usize, i: usize| d.get(g * m + i).unwrap_or(&zero).clone();
    let err = fr::inner_error_terms::<F, T, P>(&a, &b);
    let mut want = vec![];
    for g in 0..n {
        let mut e = vec![];
        for i in 0..m {
            for j in (0..m).filter(|j| *j != i) {
                e.push(dot(&grp(&ad, g, i), &grp(&bd, g, j)));
            }
        }
        want.push(e);
    }
    let inner: Vec<Vec<F>> = err.iter().map(|g| g.iter().copied().collect()).collect();
    ensure_eq!(inner, want, "inner error terms of {count} claims in {n} groups of {m}");
    let mut ky: Vec<F> = (0..count).map(|i| dot(&ad[i], &bd[i])).collect();
    ky.resize(n * m, F::ZERO);
    // folding with arbitrary scales
    let (s1, s2): (F, F) = (scalar(r), scalar(r));
    let first = fr::fold_inner::<Polynomial<F, T>, F, P>(&a, s1);
    let firstd: Vec<Vec<F>> = (0..n).map(|g| lin(&(0..m).map(|i| grp(&ad, g, i)).collect::<Vec<_>>(), s1, m)).collect();
    for g in 0..n {
        ensure_eq!(first[g].iter_coeffs().collect::<Vec<_>>(), firstd[g], "group {g} of {count} polynomials folded in {n} groups of {m}");
    }
    let both = fr::fold_outer::<Polynomial<F, T>, F, P>(first, s2);
    let bothd = lin(&firstd, s2, n);
    ensure_eq!(both.iter_coeffs().collect::<Vec<_>>(), bothd, "{count} polynomials folded twice in {n} groups of {m}");
    // evaluations folded in the circuit
    let x: F = r.uniform();
    let ev: Vec<F> = a.iter().map(|p| p.eval(x)).collect();
    let out = both.eval(x);
    let mut w = vec![s1, s2];
    w.extend(&ev);
    let x = Expect { ins: w.clone(), outs: vec![out], status: St::Ok };
    conform(c, &Layers::<P>(count, PhantomData), &w, &x).map_err(|e| format!("folding {count} evaluations in {n} groups of {m}: {e}"))?;
    if count < 8 {
        attack(c, &Layers::<P>(count, PhantomData), &x, &all, Budget::default()).map_err(|e| format!("folding {count} evaluations in {n} groups of {m}: {e}"))?;
    }
    // claims, end to end
    let r = &mut c.rng;
    let mut outer: Vec<F> = (0..n * (n - 1)).map(|_| r.uniform()).collect();
    if let (Some(i1), Some(i2)) = (Option::<F>::from(mu.invert()), Option::<F>::from(mu2.invert())) {
        let fa = fr::fold_inner::<Polynomial<F, T>, F, P>(&a, i1);
        let fb = fr::fold_inner::<Polynomial<F, T>, F, P>(&b, mu * nu);
        outer = fr::outer_error_terms::<F, T, P>(&fa.iter().collect::<Vec<_>>(), &fb.iter().collect::<Vec<_>>()).iter().copied().collect();
        let mut e = vec![];
        for i in 0..n {
            for j in (0..n).filter(|j| *j != i) {
                e.push(dot(&fa[i].iter_coeffs().collect::<Vec<_>>(), &fb[j].iter_coeffs().collect::<Vec<_>>()));
            }
        }
        ensure_eq!(outer, e, "outer error terms of {n} groups");
        let t = Terms { mu, nu, mu2, nu2, inner: inner.clone(), outer: outer.clone(), ky: ky.clone() };
        let (cs, st) = t.model();
        ensure_eq!(st, St::Ok, "model");
        for g in 0..n {
            ensure_eq!(fa[g].revdot(&fb[g]), cs[g], "group {g} of {count} claims in {n} groups of {m}");
        }
        // the outer layer scales by its own pair
        let fa = fr::fold_outer::<Polynomial<F, T>, F, P>(fa, i2);
        let fb = fr::fold_outer::<Polynomial<F, T>, F, P>(fb, mu2 * nu2);
        ensure_eq!(fa.revdot(&fb), cs[n], "{count} claims folded into one, {n} groups of {m}");
        c.event("claims folded natively", count as u64);
    }
    // and in the circuit: consistent, then with one term off
    let off = c.rng.below(3);
    let mut t = Terms { mu, nu, mu2, nu2, inner, outer, ky };
    if off > 0 {
        let r = &mut c.rng;
        let d: F = r.nonzero();
        match r.below(3) {
            0 if m > 1 => t.inner[r.below(n)][r.below(m * (m - 1))] += d,
            1 if n > 1 => t.outer[r.below(n * (n - 1))] += d,
            _ => t.ky[r.below(n * m)] += d,
        }
    }
    let (outs, status) = t.model();
    let x = Expect { ins: t.flat(), outs, status };
    conform(c, &Fold::<P>(PhantomData), &x.ins, &x).map_err(|e| format!("folding claims, {n} groups of {m}: {e}"))?;
    if n * m <= 9 {
        attack(c, &Fold::<P>(PhantomData), &x, &all, Budget { tries: 1, ..Budget::default() }).map_err(|e| format!("folding claims, {n} groups of {m}: {e}"))?;
    }
    c.eval();
    c.event("claims folded in the circuit", (n * m) as u64);
    c.seen(&("fold", n, m, count, mu.is_zero_vartime(), off));
    Ok(())
}
/// One claim too many is refused, not dropped.
fn excess<F: Fld, P: Parameters>(c: &mut Case) -> Res {
    let (n, m) = (P::NumGroups::len(), P::GroupSize::len());
    let k = n * m + 1 + c.rng.below(m);
    let a: Vec<_> = (0..k).map(|_| poly::<F>(&mut c.rng).1).collect();
    let s: F = c.rng.uniform();
    ensure!(catch(|| fr::fold_inner::<Polynomial<F, T>, F, P>(&a, s)).is_err(), "{k} polynomials fit in {n} groups of {m}");
    ensure!(catch(|| fr::inner_error_terms::<F, T, P>(&a, &a)).is_err(), "error terms of {k} claims fit in {n} groups of {m}");
    c.eval();
    c.event("claims beyond the shape refused", 1);
    Ok(())
}

fn shape<F: Fld>(c: &mut Case, all: Option<Vec<F>>) -> Res {
    macro_rules! go {
        ($($n:literal $m:literal),*) => {{
            let fs: &[(fn(&mut Case, Option<Vec<F>>) -> Res, fn(&mut Case) -> Res)] = &[$((fold::<F, Shape<$n, $m>>, excess::<F, Shape<$n, $m>>)),*, (fold::<F, RevdotParameters>, excess::<F, RevdotParameters>)];
            let k = c.idx / 3 % fs.len();
            (fs[k].0)(c, all)?;
            if c.rng.chance(1, 4) { (fs[k].1)(c)?; }
            Ok(())
        }};
    }
    go!(1 1, 1 2, 2 1, 2 2, 2 3, 3 2, 3 3, 4 5, 5 4, 7 2, 1 9, 9 1)
}

// ---------------------------------------------------------------- endoscaling

fn model_lift<F: WithSmallOrderMulGroup<3>>(e: Uendo) -> F {
    let h = Uendo::BITS as usize / 2;
    let bit = |i: usize| (e >> i) & (1 as Uendo) == 1 as Uendo;
    let mut s = (F::ZETA + F::ONE) * (F::ONE + F::ONE) * pow(F::ONE + F::ONE, h);
    for i in 0..h {
        let sign = if bit(2 * i) { -F::ONE } else { F::ONE };
        let z = if bit(2 * i + 1) { F::ZETA } else { F::ONE };
        s += pow(F::ONE + F::ONE, h - 1 - i) * sign * z;
    }
    s
}
/// A registry of all steps and masks for one number of points.
struct Set<C: CurveAffine, const K: usize> {
    reg: TestRegistry<'static, C::Base, ProductionRank>,
    steps: Vec<Handle>,
    masks: [Handle; 3],
}
trait Pt: CurveAffine + PrimeCurveAffine<Curve = <Self as CurveAffine>::CurveExt, Scalar = <Self as CurveAffine>::ScalarExt> {}
impl<C: CurveAffine + PrimeCurveAffine<Curve = <C as CurveAffine>::CurveExt, Scalar = <C as CurveAffine>::ScalarExt>> Pt for C {}

impl<C: Pt, const K: usize> Set<C, K>
where
    C::Base: Fld,
{
    fn new() -> Result<Self> {
        let mut b = TestRegistryBuilder::new();
        let steps = (0..NumStepsLen::<K>::len()).map(|s| b.register_circuit(MultiStage::new(EndoscalingStep::<C, ProductionRank, K>::new(s)))).collect::<Result<Vec<_>>>()?;
        let masks = [
            b.register_bonding(<EndoscalarStage as StageExt<C::Base, ProductionRank>>::mask()?),
            b.register_bonding(<PointsStage<C, K> as StageExt<C::Base, ProductionRank>>::mask()?),
            b.register_bonding(<PointsStage<C, K> as StageExt<C::Base, ProductionRank>>::final_mask()?),
        ];
        Ok(Set { reg: b.finalize()?, steps, masks })
    }
}
type Poly<C> = Polynomial<<C as CurveAffine>::Base, ProductionRank>;

fn horner<C: Pt>(e: C::Scalar, first: C, rest: &[C]) -> C::Curve {
    rest.iter().fold(first.to_curve(), |a, p| a * e + p.to_curve())
}
fn point<C: Pt>(r: &mut VRng) -> C {
    loop {
        let s: C::Scalar = if r.chance(1, 5) { C::Scalar::from(1 + r.below(3) as u64) } else { C::Scalar::random(&mut *r) };
        let p = (C::Curve::generator() * s).to_affine();
        if !bool::from(p.is_identity()) {
            return p;
        }
    }
}
fn endo(r: &mut VRng) -> Uendo {
    let v = r.u128() as Uendo;
    match r.below(8) {
        0 => 0,
        1 => Uendo::MAX,
        2 => (1 as Uendo) << r.below(Uendo::BITS as usize),
        _ => v,
    }
}
/// The points one step reads: the accumulator it starts from, its inputs, and its result.
fn reads<C: CurveAffine, const K: usize>(w: &PointsWitness<C, K>, s: usize) -> (C, Vec<C>, C) {
    let from = if s == 0 { w.initial } else { w.interstitials[s - 1] };
    (from, w.inputs.iter().copied().skip(4 * s).take(4).collect(), w.interstitials[s])
}
/// Whether some addition of a step meets equal or opposite points.
fn degenerate<C: Pt>(e: C::Scalar, from: C, ins: &[C]) -> bool {
    let mut acc = from.to_curve();
    for p in ins {
        let s = acc * e;
        let p = p.to_curve();
        if bool::from(s.is_identity()) || s == p || s == -p {
            return true;
        }
        acc = s + p;
    }
    false
}

fn endoscaling<C: Pt, const K: usize>(c: &mut Case, set: &Set<C, K>) -> Res
where
    C::Base: Fld,
    C::Scalar: WithSmallOrderMulGroup<3> + Fld,
{
    let n = NumStepsLen::<K>::len();
    ensure_eq!(n, ((K - 1).div_ceil(4)).max(1), "steps for {K} points");
    let r = &mut c.rng;
    let e = endo(r);
    let l: C::Scalar = model_lift(e);
    let mut pts: Vec<C> = (0..K).map(|_| point::<C>(r)).collect();
    // sometimes an addition of equal or opposite points
    let trap = r.chance(1, 4).then(|| 1 + r.below(K - 1));
    if let Some(t) = trap {
        let q = horner(l, pts[0], &pts[1..t]) * l;
        pts[t] = if r.bool() { q.to_affine() } else { (-q).to_affine() };
    } else if r.chance(1, 4) && K > 2 {
        let (i, j) = (r.below(K), r.below(K));
        pts[i] = pts[j];
    }
    let honest = match catch(|| PointsWitness::<C, K>::new(e, &pts)) {
        Ok(w) => w,
        Err(p) => return Err(format!("witness for {K} points panicked: {p}")),
    };
    ensure_eq!(honest.initial, pts[0], "first of {K} points");
    ensure_eq!(honest.inputs.iter().copied().collect::<Vec<_>>(), pts[1..].to_vec(), "inputs of {K} points");
    for s in 0..n {
        let want = horner(l, pts[0], &pts[1..(4 * (s + 1) + 1).min(K)]).to_affine();
        ensure_eq!(honest.interstitials[s], want, "accumulator after step {s} of {n} with {K} points, challenge {e:?}");
    }
    let total = pts[1..].iter().enumerate().fold(pts[0].to_curve() * pow(l, K - 1), |a, (i, p)| a + p.to_curve() * pow(l, K - 2 - i));
    ensure_eq!(honest.interstitials[n - 1], total.to_affine(), "combination of {K} points, challenge {e:?}");
    c.event("native accumulations", 1);

    // one alteration, or none
    let mut w = honest.clone();
    let mut f = e;
    let r = &mut c.rng;
    let what = match r.below(6) {
        0 => {
            f = e ^ ((1 as Uendo) << r.below(Uendo::BITS as usize));
            "challenge"
        }
        1 => {
            w.interstitials[r.below(n)] = point(r);
            "accumulator"
        }
        2 => {
            w.inputs[r.below(K - 1)] = point(r);
            "input"
        }
        3 => {
            w.initial = point(r);
            "first point"
        }
        4 => {
            let k = r.below(n);
            w.interstitials[k] = (-w.interstitials[k].to_curve()).to_affine();
            "negated accumulator"
        }
        _ => "nothing",
    };
    let fl: C::Scalar = model_lift(f);
    let id = |w: &PointsWitness<C, K>| w.interstitials.iter().chain(w.inputs.iter()).chain([&w.initial]).any(|p| bool::from(p.is_identity()));
    type S = EndoscalarStage;
    let rx = |f: Uendo, w: &PointsWitness<C, K>, a: C::Base| -> Result<(Poly<C>, Poly<C>)> {
        Ok((<S as StageExt<C::Base, ProductionRank>>::rx(a, f)?, <PointsStage<C, K> as StageExt<C::Base, ProductionRank>>::rx(a, w)?))
    };
    let (a1, a2): (C::Base, C::Base) = (c.rng.uniform(), c.rng.uniform());
    let stages = catch(|| rx(f, &w, a1)).map_err(|p| format!("stages panicked: {p}"))?;
    ensure_eq!(stages.is_err(), id(&w), "stage of {K} points refused: {:?}", stages.err().map(|e| e.to_string()));
    let Ok((er, pr)) = rx(f, &w, a1) else {
        c.event("identity points refused", 1);
        return Ok(());
    };
    let y: C::Base = c.rng.uniform();
    for (m, p) in [(0, &er), (1, &pr)] {
        ensure_eq!(p.revdot(&set.reg.y(set.masks[m], y)), C::Base::ZERO, "stage {m} of {K} points against its mask");
    }
    for s in 0..n {
        let m = MultiStage::new(EndoscalingStep::<C, ProductionRank, K>::new(s));
        let go = |f: Uendo, w: &PointsWitness<C, K>| m.trace(EndoscalingStepWitness { endoscalar: f, points: w }).map(|t| t.into_output());
        let (from, ins, out) = reads(&w, s);
        let bad = degenerate(fl, from, &ins);
        let t = catch(|| go(f, &w)).map_err(|p| format!("step {s} of {n} panicked: {p}"))?;
        ensure_eq!(t.is_err(), bad, "step {s} of {n} with {K} points refused: {:?}", t.err().map(|e| e.to_string()));
        c.eval();
        if bad {
            c.event("coincident points refused", 1);
            continue;
        }
        let y: C::Base = c.rng.uniform();
        let sy = set.reg.y(set.steps[s], y);
        let want = m.ky((), y).map_err(|e| e.to_string())?;
        let fin = set.reg.assemble(&go(f, &w).unwrap(), set.steps[s], a2).map_err(|e| e.to_string())?;
        ensure_eq!(fin.revdot(&set.reg.y(set.masks[2], y)), C::Base::ZERO, "final part of step {s} against its mask");
        let holds = |fin: &Poly<C>, er: &Poly<C>, pr: &Poly<C>| {
            let mut l = fin.clone();
            l.add_assign(er);
            l.add_assign(pr);
            l.revdot(&sy) == want
        };
        let right = horner(fl, from, &ins).to_affine() == out;
        ensure_eq!(holds(&fin, &er, &pr), right, "step {s} of {n} with {K} points, altered: {what}; challenge {f:?}");
        c.event(if right { "steps accepted" } else { "wrong steps rejected" }, 1);
        // the honest remainder of the trace over the altered stages
        if what != "nothing" && !id(&honest) {
            let (hf, hi, ho) = reads(&honest, s);
            if degenerate(l, hf, &hi) {
                continue;
            }
            let hfin = set.reg.assemble(&go(e, &honest).unwrap(), set.steps[s], a2).map_err(|e| e.to_string())?;
            let same = e == f && hf == from && hi == ins && ho == out;
            ensure_eq!(holds(&hfin, &er, &pr), same, "step {s} of {n} with {K} points: stages altered after the fact ({what})");
            c.event(if same { "unrelated alterations ignored" } else { "stale traces rejected" }, 1);
        }
    }
    c.seen(&("endo", K, what, trap, std::any::type_name::<C>()));
    Ok(())
}

pub fn d08(x: &Ctx) {
    x.rule("Folding matches the sum over each group's matrix of products, natively and in the circuit, for consistent and inconsistent terms; claims beyond the shape are refused.");
    x.rule("Accumulation matches Horner's rule under the lifted challenge; every endoscaling step accepts exactly the right result and refuses coincident or identity points.");
    x.cases("folding", x.n(120, 3000), |c| match c.idx % 3 {
        0 => shape::<Fp>(c, None),
        1 => shape::<F97>(c, Some((0..97).map(F97::from).collect())),
        _ => shape::<F7681>(c, None),
    });
    macro_rules! sizes {
        ($label:literal, $c:ty, $($k:literal),*) => {{
            $(let set = Mutex::new(HashMap::<usize, Set<$c, $k>>::new());
            match Set::<$c, $k>::new() {
                Ok(s) => { set.lock().unwrap().insert($k, s); }
                Err(e) => x.inconclusive(&format!("registry for {} points: {e}", $k)),
            }
            let s = set.into_inner().unwrap();
            x.serial(concat!($label, $k), x.n(6, 60), |c| endoscaling::<$c, $k>(c, &s[&$k]));)*
        }};
    }
    if x.quick() {
        sizes!("accumulation over Pallas, points ", EpAffine, 2, 3, 6, 9, 11);
        sizes!("accumulation over Vesta, points ", EqAffine, 5, 10, 37);
    } else {
        sizes!("accumulation over Pallas, points ", EpAffine, 2, 3, 4, 5, 6, 8, 9, 11, 13, 14, 37);
        sizes!("accumulation over Vesta, points ", EqAffine, 2, 5, 7, 10, 12, 17, 21, 37);
    }
    let _ = Fq::ONE;
}
