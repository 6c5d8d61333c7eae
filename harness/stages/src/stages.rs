//! Staged witnesses, their masks and bonding circuits.
use circ::util::{Fld, dense, mixes, outs_of};
use circ::{
    Model, eval2,
    nets::{Co, Gen, I, List, Mix, NetBody, OutKind, St, SHAPES, Term, outputs_on, run as run_ops},
    restrict,
};
use core::marker::PhantomData;
use ff::PrimeField;
use pasta_curves::{Fp, Fq};
use ragu_circuits::{
    BondingObject, CircuitExt, WithAux,
    polynomials::{R, Rank, sparse},
    registry::{CircuitIndex, RegistryBuilder},
    staging::{MultiStage, MultiStageCircuit, Stage, StageBuilder, StageExt},
    verif::Object,
};
use ragu_core::{
    Error, Result,
    drivers::{Driver, DriverValue},
    gadgets::{Bound, Kind},
    maybe::Maybe,
};
use ragu_primitives::{
    Boolean, Element,
    vec::{CollectFixed, FixedVec, Len},
};
use std::cell::RefCell;
use vh::{Case, Ctx, Res, VRng, ensure, ensure_eq, small::*};

pub type T = R<7>;

/// Sizes of the stages of the case being run.
#[derive(Clone, Copy, Default, Debug)]
pub struct Size {
    values: usize,
    elements: usize,
    booleans: usize,
    /// Whether the witness is computed through gates of its own.
    work: bool,
}
thread_local! { static SIZES: RefCell<Vec<Size>> = const { RefCell::new(vec![]) }; }
fn size(d: usize) -> Size {
    SIZES.with(|s| s.borrow()[d - 1])
}
fn set(s: &[Size]) {
    SIZES.with(|t| *t.borrow_mut() = s.to_vec());
}

pub trait Depth: Send + Sync + 'static {
    const D: usize;
}
impl Depth for () {
    const D: usize = 0;
}
#[derive(Clone)]
pub struct Stg<P>(PhantomData<P>);
impl<P> Default for Stg<P> {
    fn default() -> Self {
        Stg(PhantomData)
    }
}
impl<P: Depth> Depth for Stg<P> {
    const D: usize = P::D + 1;
}
#[derive(Clone)]
pub struct L<P, const K: usize>(PhantomData<P>);
impl<P: Depth, const K: usize> Len for L<P, K> {
    fn len() -> usize {
        let s = size(P::D);
        if K == 0 { s.elements } else { s.booleans }
    }
}

impl<F: PrimeField, K: Rank, P: Stage<F, K> + Depth> Stage<F, K> for Stg<P> {
    type Parent = P;
    type Witness<'s> = Vec<F>;
    type OutputKind = Kind![F; (FixedVec<Element<'_, _>, L<Stg<P>, 0>>, FixedVec<Boolean<'_, _>, L<Stg<P>, 1>>)];
    fn values() -> usize {
        size(Self::D).values
    }
    fn witness<'dr, 's: 'dr, D: Driver<'dr, F = F>>(&self, dr: &mut D, witness: DriverValue<D, Vec<F>>) -> Result<Bound<'dr, D, Self::OutputKind>>
    where
        Self: 'dr,
    {
        let s = size(Self::D);
        let mut e = vec![];
        for i in 0..s.elements {
            let v = D::just(|| witness.snag()[i]);
            e.push(if s.work && i % 2 == 1 {
                // the value as a sum of a product and a difference
                let x = Element::alloc(dr, v)?;
                let q = x.square(dr)?;
                let d = x.sub(dr, &q);
                q.add(dr, &d)
            } else {
                Element::alloc(dr, v)?
            });
        }
        let mut b = vec![];
        for i in 0..s.booleans {
            b.push(Boolean::alloc(dr, D::just(|| witness.snag()[s.elements + i] == F::ONE))?);
        }
        Ok((e.into_iter().collect_fixed()?, b.into_iter().collect_fixed()?))
    }
}
type S0 = ();
type S1 = Stg<S0>;
type S2 = Stg<S1>;
type S3 = Stg<S2>;
type S4 = Stg<S3>;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Use {
    Enforced,
    Unenforced,
    Skipped,
    /// Configured but never turned into wires.
    Dropped,
}

/// A circuit over stages whose wires, in order, start its program.
impl<F, S, O> Clone for Prog<F, S, O> {
    fn clone(&self) -> Self {
        Prog { uses: self.uses.clone(), p: self.p.clone(), _m: PhantomData }
    }
}
pub struct Prog<F, S, O> {
    uses: Vec<Use>,
    p: std::sync::Arc<NetBody<F>>,
    _m: PhantomData<fn() -> (S, O)>,
}
type Wit<F> = (Vec<Vec<F>>, Vec<F>);

fn wires<'dr, D: Driver<'dr>>(st: &mut St<'dr, D>, e: impl Iterator<Item = Element<'dr, D>>) {
    for e in e {
        st.w.push((e.wire().clone(), D::just(|| *e.value().take())));
    }
}

macro_rules! staged {
    ($last:ty; $($i:expr, $g:ident, $s:ty);*) => {
        impl<F: PrimeField, K: Rank, O: OutKind<F>> MultiStageCircuit<F, K> for Prog<F, $last, O> {
            type Last = $last;
            type Instance<'s> = Vec<F>;
            type Witness<'s> = Wit<F>;
            type Output = O::K;
            type Aux<'s> = ();
            fn instance<'dr, 's: 'dr, D: Driver<'dr, F = F>>(&self, dr: &mut D, instance: DriverValue<D, Vec<F>>) -> Result<Bound<'dr, D, O::K>>
            where
                Self: 'dr,
            {
                let v = (0..O::N).map(|i| Element::alloc(dr, D::just(|| instance.snag()[i]))).collect::<Result<Vec<_>>>()?;
                Ok(O::pack(v))
            }
            fn witness<'a, 'dr, 's: 'dr, D: Driver<'dr, F = F>>(&self, b: StageBuilder<'a, 'dr, D, K, (), $last>, witness: DriverValue<D, Wit<F>>) -> Result<WithAux<Bound<'dr, D, O::K>, DriverValue<D, ()>>>
            where
                Self: 'dr,
            {
                $(
                    let ($g, b) = match self.uses[$i] {
                        Use::Skipped => (None, b.skip_stage::<$s>()?),
                        Use::Enforced => {
                            let (g, b) = b.add_stage::<$s>()?;
                            (Some(g), b)
                        }
                        _ => {
                            let (g, b) = b.configure_stage(<$s>::default())?;
                            (Some(g), b)
                        }
                    };
                )*
                let dr = b.finish();
                let mut st = St { w: vec![] };
                $(
                    if let Some(g) = $g {
                        let w = D::just(|| witness.snag().0[$i].clone());
                        let o = match self.uses[$i] {
                            Use::Enforced => Some(g.enforced(dr, w)?),
                            Use::Unenforced => Some(g.unenforced(dr, w)?),
                            _ => None,
                        };
                        if let Some((e, b)) = o {
                            wires(&mut st, e.into_inner().into_iter());
                            wires(&mut st, b.into_inner().into_iter().map(|b| b.element()));
                        }
                    }
                )*
                let supply = D::just(|| witness.snag().1.clone());
                run_ops(dr, &mut st, &self.p.ops, &supply, &D::just(|| F::from(5)))?;
                let o = self.p.outs.iter().map(|i| Element::promote(st.w[*i].0.clone(), st.w[*i].1.clone())).collect();
                Ok(WithAux::new(O::pack(o), D::unit()))
            }
        }
    };
}
staged!(S0;);
staged!(S1; 0, g1, S1);
staged!(S2; 0, g1, S1; 1, g2, S2);
staged!(S3; 0, g1, S1; 1, g2, S2; 2, g3, S3);
staged!(S4; 0, g1, S1; 1, g2, S2; 2, g3, S3; 3, g4, S4);

/// Runs an expression with the stage type of a depth and the output kind.
macro_rules! with_stage {
    ($d:expr, |$S:ident| $e:expr) => {
        match $d {
            0 => { type $S = S0; $e }
            1 => { type $S = S1; $e }
            2 => { type $S = S2; $e }
            3 => { type $S = S3; $e }
            _ => { type $S = S4; $e }
        }
    };
}

fn gates(s: &Size) -> usize {
    s.values.div_ceil(2)
}

fn sizes(r: &mut VRng, depth: usize, n: usize) -> Vec<Size> {
    (0..depth)
        .map(|_| {
            let elements = [0, 1, 2, 3, 5, 8][r.below(6)].min(n / 4);
            let booleans = if r.chance(1, 3) { r.below(4) } else { 0 };
            let values = elements + booleans + if r.chance(1, 2) { r.below(5) } else { 0 };
            Size { values, elements, booleans, work: r.chance(1, 3) }
        })
        .collect()
}
fn stage_values<F: PrimeField>(r: &mut VRng, s: &Size) -> Vec<F> {
    let mut v: Vec<F> = (0..s.elements).map(|_| r.field()).collect();
    v.extend((0..s.booleans).map(|_| if r.bool() { F::ONE } else { F::ZERO }));
    v
}
/// Trace coefficient of a wire.
fn at(n: usize, slot: usize, g: usize) -> usize {
    match slot {
        0 => 2 * n + g,
        1 => 2 * n - 1 - g,
        2 => g,
        _ => 4 * n - 1 - g,
    }
}
fn expect_rx<F: PrimeField>(n: usize, skip: usize, s: &Size, v: &[F], alpha: F) -> Vec<F> {
    let mut r = vec![F::ZERO; 4 * n];
    r[at(n, 3, 0)] = alpha;
    for (i, v) in v.iter().enumerate() {
        r[at(n, if i % 2 == 0 { 1 } else { 3 }, skip + i / 2)] = *v;
    }
    let _ = s;
    r
}
/// The wiring terms of a mask leaving gate 0 and `skip..skip + num` free.
fn mask_terms<F: PrimeField>(n: usize, skip: usize, num: usize) -> Vec<(usize, usize, F)> {
    let mut t = vec![];
    for g in 1..n {
        if g >= skip && g < skip + num {
            continue;
        }
        for s in 0..4 {
            let x = 4 * n - 1 - at(n, s, g);
            t.push((x, x, F::ONE));
        }
    }
    t
}

fn rx_of<F: Fld, K: Rank, S: Stage<F, K> + Default>(alpha: F, w: S::Witness<'_>, how: bool) -> Result<sparse::Polynomial<F, K>> {
    if how { S::rx(alpha, w) } else { S::default().rx_configured(alpha, w) }
}

/// rx of the stage at a depth (1-based).
fn rx_at<F: Fld, K: Rank>(d: usize, alpha: F, w: Vec<F>, how: bool) -> Result<sparse::Polynomial<F, K>> {
    match d {
        1 => rx_of::<F, K, S1>(alpha, w, how),
        2 => rx_of::<F, K, S2>(alpha, w, how),
        3 => rx_of::<F, K, S3>(alpha, w, how),
        _ => rx_of::<F, K, S4>(alpha, w, how),
    }
}

/// A mask against its terms, and as an acceptance test.
fn mask_check<F: Fld, K: Rank>(c: &mut Case, o: &Object<'_, F, K>, skip: usize, num: usize) -> Res {
    let n = K::n();
    let t = mask_terms::<F>(n, skip, num);
    let plan = o.plan();
    for _ in 0..2 {
        let (x, y): (F, F) = match c.rng.below(5) {
            0 => (F::ZERO, c.rng.field()),
            1 => (c.rng.field(), F::ZERO),
            2 => (F::ONE, F::ONE),
            3 => {
                let x: F = c.rng.nonzero();
                (x, x.invert().unwrap())
            }
            _ => (c.rng.field(), c.rng.field()),
        };
        ensure_eq!(o.sxy(x, y, &plan), eval2(&t, x, y), "mask at ({x:?}, {y:?}), skip {skip}, gates {num}, n {n}");
        ensure_eq!(dense(&o.sx(x, &plan)), restrict(&t, K::num_coeffs(), Some(x), None), "mask restricted to x, skip {skip}, gates {num}");
        ensure_eq!(dense(&o.sy(y, &plan)), restrict(&t, K::num_coeffs(), None, Some(y)), "mask restricted to y, skip {skip}, gates {num}");
        c.eval();
    }
    let y: F = c.rng.uniform();
    let sy = o.sy(y, &plan);
    // anything in the region passes
    let mut r = vec![F::ZERO; 4 * n];
    for g in std::iter::once(0).chain(skip..skip + num) {
        for s in 0..4 {
            r[at(n, s, g)] = c.rng.field();
        }
    }
    let p = sparse::Polynomial::<F, K>::from_coeffs(r.clone());
    ensure_eq!(p.revdot(&sy), F::ZERO, "a polynomial inside the region fails its mask, skip {skip}, gates {num}");
    // one coefficient outside it does not
    if 1 + num < n {
        let g = loop {
            let g = 1 + c.rng.below(n - 1);
            if g < skip || g >= skip + num {
                break g;
            }
        };
        let edge = [skip.saturating_sub(1), skip + num, n - 1, 1][c.rng.below(4)];
        for g in [g, edge] {
            if g == 0 || g >= n || (g >= skip && g < skip + num) {
                continue;
            }
            for s in 0..4 {
                let v: F = c.rng.nonzero();
                r[at(n, s, g)] += v;
                let p = sparse::Polynomial::<F, K>::from_coeffs(r.clone());
                ensure!(p.revdot(&sy) != F::ZERO, "a coefficient of gate {g} wire {s} outside the region passes, skip {skip}, gates {num}");
                r[at(n, s, g)] -= v;
                c.event("coefficients outside a region rejected", 1);
            }
        }
    }
    c.event("masks", 1);
    Ok(())
}

fn bound_error(e: &Error) -> Option<usize> {
    match e {
        Error::GateBoundExceeded { limit } => Some(*limit),
        _ => None,
    }
}

fn k08_stage<F: Fld, K: Rank, S: Stage<F, K> + Depth>(c: &mut Case, sz: &[Size]) -> Res {
    let n = K::n();
    let skip = 1 + sz[..S::D - 1].iter().map(gates).sum::<usize>();
    let num = gates(&sz[S::D - 1]);
    ensure_eq!(S::skip_gates(), skip, "skip_gates of stage {} of {sz:?}", S::D);
    ensure_eq!(S::num_gates(), num, "num_gates of stage {} of {sz:?}", S::D);
    let fits = skip + num <= n;
    match S::mask() {
        Ok(b) => {
            ensure!(fits, "mask of a stage beyond the last gate: {sz:?}");
            mask_check::<F, K>(c, &Object::bonding(b), skip, num)?;
        }
        Err(e) => ensure!(!fits && bound_error(&e) == Some(n), "mask: {e:?} for {sz:?}"),
    }
    match S::final_mask() {
        Ok(b) => {
            ensure!(fits, "final mask beyond the last gate: {sz:?}");
            mask_check::<F, K>(c, &Object::bonding(b), skip + num, n - skip - num)?;
        }
        Err(e) => ensure!(!fits && bound_error(&e) == Some(n), "final mask: {e:?} for {sz:?}"),
    }
    for i in 0..num {
        let mut v = vec![F::ZERO; 4 * n];
        if skip + i < n {
            let g = S::generator_index_for_b(i);
            v[g] = F::ONE;
            ensure_eq!(g, at(n, 1, skip + i), "generator index of allocation {i}");
        }
    }
    ensure!(vh::catch(|| S::generator_index_for_b(num)).is_err(), "generator index beyond the stage");
    Ok(())
}

fn k08_circuit<F: Fld, K: Rank, S, O>(c: &mut Case, sz: &[Size], n_out: usize) -> Res
where
    S: Stage<F, K> + Depth,
    O: OutKind<F>,
    Prog<F, S, O>: for<'a> MultiStageCircuit<F, K, Witness<'a> = Wit<F>, Instance<'a> = Vec<F>> + Clone,
{
    let n = K::n();
    let uses: Vec<Use> = sz.iter().map(|_| *c.rng.pick(&[Use::Enforced, Use::Enforced, Use::Unenforced, Use::Skipped, Use::Dropped])).collect();
    let vals: Vec<Vec<F>> = sz.iter().map(|s| stage_values(&mut c.rng, s)).collect();
    let init: Vec<F> = vals.iter().zip(&uses).filter(|(_, u)| matches!(u, Use::Enforced | Use::Unenforced)).flat_map(|(v, _)| v.clone()).collect();
    let mix = Mix { len: 10, ..mixes(&mut c.rng) };
    let (body, supply) = Gen::new(&mut c.rng, mix).net_on(init.clone(), n_out);
    let outs = outputs_on(&body, init, &supply);
    let circuit = MultiStage::<F, K, _>::new(Prog::<F, S, O> { uses: uses.clone(), p: body.into(), _m: PhantomData });
    let w: Wit<F> = (vals.clone(), supply);
    let m: Model<F> = circ::witnessed(&circuit, w.clone()).map_err(|e| format!("recording failed: {e}"))?;
    if m.gates() > n || m.constraints() >= 4 * n {
        return Ok(());
    }
    let total = 1 + sz.iter().map(gates).sum::<usize>();
    let o = Object::<F, K>::new(circuit.clone()).map_err(|e| format!("staged circuit rejected: {e}"))?;
    let plan = o.plan();
    // the final trace is the recorded one, zero in every stage
    let trace = circuit.trace(w).map_err(|e| format!("trace failed: {e}"))?.into_output();
    let before = c.rng.below(2);
    let mut b = RegistryBuilder::<F, K>::new();
    for _ in 0..before {
        b = b.register_circuit(()).map_err(|e| e.to_string())?;
    }
    let reg = b.register_circuit(circuit.clone()).and_then(|b| b.finalize()).map_err(|e| e.to_string())?;
    let alpha: F = c.rng.field();
    let fin = reg.assemble_with_alpha(&trace, CircuitIndex::new(before), alpha).map_err(|e| e.to_string())?;
    let fd = dense(&fin);
    ensure_eq!(fd, m.trace(&plan, n, alpha), "final trace");
    for g in 1..total {
        for s in 0..4 {
            ensure_eq!(fd[at(n, s, g)], F::ZERO, "the final trace fills gate {g} of a stage ({sz:?})");
        }
    }
    // stage polynomials
    let mut sum = fin.clone();
    let mut skip = 1;
    let mut rxs = vec![];
    for (i, s) in sz.iter().enumerate() {
        let a: F = if c.rng.chance(1, 4) { F::ZERO } else { c.rng.field() };
        let how = c.rng.bool();
        let rx = rx_at::<F, K>(i + 1, a, vals[i].clone(), how).map_err(|e| format!("stage {i} of {sz:?}: {e}"))?;
        ensure_eq!(dense(&rx), expect_rx(n, skip, s, &vals[i], a), "stage polynomial {i} of {sz:?}");
        sum.add_assign(&rx);
        skip += gates(s);
        rxs.push(rx);
    }
    let sd = dense(&sum);
    ensure!(m.accepts(&plan, n, &sd, &outs), "stages plus final trace do not satisfy the circuit ({sz:?}, {uses:?})");
    ensure!(fin.revdot(&Object::bonding(S::final_mask().map_err(|e| e.to_string())?).sy(c.rng.nonzero(), &[])) == F::ZERO, "final trace fails its mask");
    // identity in the library's own operations, honest and with a changed stage value
    let (y, z): (F, F) = (c.rng.uniform(), c.rng.uniform());
    let sy = o.sy(y, &plan);
    let lhs = |r: &sparse::Polynomial<F, K>| {
        let mut d = r.clone();
        d.dilate(z);
        d.add_assign(&sy);
        d.add_assign(&K::tz(z));
        r.revdot(&d)
    };
    let ky = circuit.ky(outs.clone(), y).map_err(|e| e.to_string())?;
    ensure_eq!(lhs(&sum), ky, "revdot identity of a staged circuit");
    if total > 1 && F::NUM_BITS > 200 {
        let g = 1 + c.rng.below(total - 1);
        let s = c.rng.below(4);
        let mut t = sd.clone();
        t[at(n, s, g)] += c.rng.nonzero::<F>();
        let ok = m.accepts(&plan, n, &t, &outs);
        let p = sparse::Polynomial::<F, K>::from_coeffs(t);
        ensure_eq!(lhs(&p) == ky, ok, "changed wire {s} of stage gate {g}: verdict differs from the recorded constraints");
        c.event(if ok { "changed stage wires that are unconstrained" } else { "changed stage wires detected" }, 1);
    }
    // stages reject each other's polynomials
    let y: F = c.rng.uniform();
    for i in 0..sz.len() {
        let mask = with_stage!(i + 1, |S| <S as StageExt<F, K>>::mask()).map_err(|e| e.to_string())?;
        let sy = Object::bonding(mask).sy(y, &[]);
        for (j, rx) in rxs.iter().enumerate() {
            let zero = j == i || vals[j].iter().all(|v| *v == F::ZERO);
            if F::NUM_BITS > 200 || j == i {
                ensure_eq!(rx.revdot(&sy) == F::ZERO, zero, "mask of stage {i} against the polynomial of stage {j} ({sz:?})");
                c.event("stage and mask pairs", 1);
            }
        }
    }
    c.event("staged circuits", 1);
    c.event("stages", sz.len() as u64);
    c.event("stages skipped or dropped", uses.iter().filter(|u| matches!(u, Use::Skipped | Use::Dropped)).count() as u64);
    c.event("odd stages", sz.iter().filter(|s| s.values % 2 == 1).count() as u64);
    c.seen(&(format!("{sz:?}"), uses.len(), m.gates(), m.constraints()));
    c.sample(&format!("depth {}", sz.len()), || format!("{sz:?} {uses:?}, {} gates, {} constraints", m.gates(), m.constraints()));
    c.eval();
    Ok(())
}

/// A chain whose last stage ends near the last gate.
fn edge_case<F: Fld, K: Rank>(c: &mut Case, mut sz: Vec<Size>) -> Res {
    let depth = sz.len();
    // near the last gate
    let room = K::n() - 1 - sz[..depth - 1].iter().map(gates).sum::<usize>();
    let l = &mut sz[depth - 1];
    let d = c.rng.below(5) as isize - 2;
    l.values = (2 * room as isize + d) as usize;
    set(&sz);
    with_stage!(depth, |S| staged_stage::<F, K, S>(c, &sz))?;
    let l = sz[depth - 1];
    let v = stage_values(&mut c.rng, &l);
    let how = c.rng.bool();
    let r = vh::catch(|| rx_at::<F, K>(depth, F::ONE, v.clone(), how)).map_err(|p| format!("stage beyond the last gate panics: {p} ({sz:?})"))?;
    let fits = gates(&l) <= room;
    match r {
        Ok(p) => {
            ensure!(fits, "a stage beyond the last gate produced a polynomial ({sz:?})");
            ensure_eq!(dense(&p), expect_rx(K::n(), 1 + sz[..depth - 1].iter().map(gates).sum::<usize>(), &l, &v, F::ONE), "stage polynomial at the last gate");
        }
        Err(e) => ensure!(!fits && bound_error(&e) == Some(K::n()), "stage polynomial: {e:?}"),
    }
    c.event("stages at the last gate", 1);
    c.event("stages beyond the last gate", !fits as u64);
    c.seen(&(depth, sz.iter().map(|s| s.values).collect::<Vec<_>>()));
    // as a circuit
    macro_rules! prog { ($S:ty) => { MultiStage::<F, K, _>::new(Prog::<F, $S, List<0>> { uses: sz.iter().map(|_| Use::Skipped).collect(), p: NetBody { ops: vec![], outs: vec![] }.into(), _m: PhantomData }) } }
    let r = with_stage!(depth, |S| RegistryBuilder::<F, K>::new().register_circuit(prog!(S))).map(|_| ());
    let q = with_stage!(depth, |S| prog!(S).into_bonding_object()).map(|_| ());
    for (r, what) in [(r, "registration"), (q, "bonding object")] {
        match r {
            Ok(_) => ensure!(fits, "{what} of a circuit with stages beyond the last gate ({sz:?})"),
            Err(e) => ensure!(!fits && bound_error(&e) == Some(K::n()), "{what} of a circuit over {sz:?}: {e:?}"),
        }
    }
    Ok(())
}
/// Capacity limits of stages.
pub fn k10_stages<F: Fld, K: Rank>(c: &mut Case) -> Res {
    let depth = 1 + c.rng.below(4);
    let sz = sizes(&mut c.rng, depth, K::n());
    if c.rng.chance(1, 4) {
        return k08_overfull::<F, K>(c, sz);
    }
    edge_case::<F, K>(c, sz)
}
fn k08_case<F: Fld, K: Rank>(c: &mut Case) -> Res {
    let depth = c.rng.below(5);
    let sz = sizes(&mut c.rng, depth, K::n());
    if depth > 0 && c.rng.chance(1, 6) {
        return edge_case::<F, K>(c, sz);
    }
    if depth > 0 && c.rng.chance(1, 6) {
        return k08_overfull::<F, K>(c, sz);
    }
    set(&sz);
    if depth > 0 {
        let d = 1 + c.rng.below(depth);
        with_stage!(d, |S| staged_stage::<F, K, S>(c, &sz))?;
    }
    let n_out = outs_of(&mut c.rng);
    macro_rules! go { ($n:literal) => { with_stage!(depth, |S| k08_circuit::<F, K, S, List<$n>>(c, &sz, $n)) } }
    match n_out {
        0 => go!(0),
        1 => go!(1),
        2 => go!(2),
        _ => go!(5),
    }
}
/// The base stage has no polynomial of its own.
trait MaybeStage {
    fn go<F: Fld, K: Rank>(c: &mut Case, sz: &[Size]) -> Res;
}
impl MaybeStage for () {
    fn go<F: Fld, K: Rank>(_: &mut Case, _: &[Size]) -> Res {
        ensure_eq!(<() as Stage<F, K>>::skip_gates(), 1, "base stage");
        Ok(())
    }
}
macro_rules! ms { ($($s:ty)*) => { $( impl MaybeStage for $s { fn go<F: Fld, K: Rank>(c: &mut Case, sz: &[Size]) -> Res { k08_stage::<F, K, $s>(c, sz) } } )* } }
ms!(S1 S2 S3 S4);
fn staged_stage<F: Fld, K: Rank, S: MaybeStage>(c: &mut Case, sz: &[Size]) -> Res {
    S::go::<F, K>(c, sz)
}

/// A stage yielding more wires than it declares is refused everywhere.
fn k08_overfull<F: Fld, K: Rank>(c: &mut Case, mut sz: Vec<Size>) -> Res {
    let depth = sz.len();
    let bad = c.rng.below(depth);
    let wires = sz[bad].elements + sz[bad].booleans;
    if wires == 0 {
        return Ok(());
    }
    sz[bad].values = wires - 1 - c.rng.below(wires.min(3));
    set(&sz);
    let limit = gates(&sz[bad]);
    let vals: Vec<Vec<F>> = sz.iter().map(|s| stage_values(&mut c.rng, s)).collect();
    let how = c.rng.bool();
    match rx_at::<F, K>(bad + 1, F::ONE, vals[bad].clone(), how) {
        Ok(_) => return Err(format!("a stage of {wires} wires fits {} values", sz[bad].values)),
        Err(e) => ensure_eq!(bound_error(&e), Some(limit), "overfull stage polynomial: {e:?}"),
    }
    let u = *c.rng.pick(&[Use::Enforced, Use::Unenforced, Use::Skipped]);
    macro_rules! go {
        ($S:ty) => {{
            let p = MultiStage::<F, K, _>::new(Prog::<F, $S, List<0>> { uses: vec![u; depth], p: NetBody { ops: vec![], outs: vec![] }.into(), _m: PhantomData });
            (p.trace((vals.clone(), vec![])).err(), Object::<F, K>::new(p).err())
        }};
    }
    let (a, b) = with_stage!(depth, |S| go!(S));
    for e in [a, b] {
        let e = e.ok_or("a circuit with an overfull stage is accepted")?;
        ensure_eq!(bound_error(&e), Some(limit), "overfull stage in a circuit: {e:?}");
    }
    c.event("overfull stages refused", 1);
    c.seen(&(wires, sz[bad].values, bad));
    Ok(())
}

/// Every mask of a small rank.
fn all_masks<F: Fld, K: Rank>(x: &Ctx, label: &str) {
    let n = K::n();
    x.cases(label, n, |c| {
        let skip = 1 + c.idx;
        for num in 0..n + 2 - skip.min(n) {
            let sz = [Size { values: 2 * (skip - 1), ..Size::default() }, Size { values: 2 * num, ..Size::default() }];
            set(&sz);
            k08_stage::<F, K, S2>(c, &sz)?;
            c.seen(&(skip, num));
        }
        Ok(())
    });
}

pub fn run_k08(x: &Ctx) {
    x.rule("Chains of up to four stages with generated sizes (odd, empty, partly filled, at and beyond the last gate) are built, traced and combined; each stage polynomial, final trace and mask must equal the documented layout coefficient by coefficient, their sum must satisfy the recorded constraints, and masks must accept exactly their regions. Every mask of the small rank is checked.");
    all_masks::<Fq, T>(x, "all masks");
    x.cases("pasta Fp", x.n(60000, 1000000), k08_case::<Fp, T>);
    x.cases("pasta Fq", x.n(15000, 300000), k08_case::<Fq, T>);
    x.cases("F_65537", x.n(60000, 1000000), k08_case::<F65537, T>);
    x.cases("production rank", x.n(200, 5000), k08_case::<Fp, R<13>>);
}

/// Bonding objects for registries, with the terms they stand for.
pub enum Bond<F> {
    /// The mask of a stage after others, or of the final trace.
    Mask(Vec<Size>, bool),
    Linear(std::sync::Arc<NetBody<F>>),
}
impl<F> Clone for Bond<F> {
    fn clone(&self) -> Self {
        match self {
            Bond::Mask(s, f) => Bond::Mask(s.clone(), *f),
            Bond::Linear(p) => Bond::Linear(p.clone()),
        }
    }
}
impl<F: Fld> Bond<F> {
    pub fn random(r: &mut VRng) -> Self {
        if r.bool() {
            let d = 1 + r.below(3);
            Bond::Mask(sizes(r, d, T::n()), r.chance(1, 3))
        } else {
            let n_out = r.below(2);
            loop {
                let (p, w) = Gen::new(r, Mix { len: 8, depth: 1, calls: 2, linear: true, ..Mix::default() }).net(n_out);
                let _ = w;
                if n_out == p.outs.len() && !illegal(&p.ops) {
                    return Bond::Linear(p.into());
                }
            }
        }
    }
    pub fn linear(p: NetBody<F>) -> Self {
        Bond::Linear(p.into())
    }
    /// The object, its terms, and its gate and constraint counts.
    pub fn build(&self) -> Result<(BondingObject<'static, F, T>, Vec<(usize, usize, F)>, (usize, usize))> {
        let n = T::n();
        match self {
            Bond::Mask(sz, fin) => {
                set(sz);
                let o = with_stage!(sz.len(), |S| if *fin { <S as StageExt<F, T>>::final_mask() } else { <S as StageExt<F, T>>::mask() })?;
                let total: usize = sz.iter().map(gates).sum();
                let last = gates(sz.last().unwrap());
                let (skip, num) = if *fin { (1 + total, n - 1 - total) } else { (1 + total - last, last) };
                Ok((o, mask_terms(n, skip, num), (n, 4 * n - 1)))
            }
            Bond::Linear(p) => {
                macro_rules! go {
                    ($o:ty) => {{
                        let c = MultiStage::<F, T, _>::new(Prog::<F, (), $o> { uses: vec![], p: p.clone(), _m: PhantomData });
                        let m: Model<F> = circ::structure(&c)?;
                        let t = m.terms(&m.plan(), n).into_iter().filter(|(x, y, _)| !(*y == 0 && *x == 2 * n)).collect();
                        Ok((c.into_bonding_object()?, t, (m.gates(), m.constraints() - 1)))
                    }};
                }
                match p.outs.len() {
                    0 => go!(List<0>),
                    _ => go!(List<1>),
                }
            }
        }
    }
}

// ------------------------------------------------------------------ K09

/// Why a bonding circuit must be refused, if it must.
fn illegal<F: PrimeField>(ops: &[I<F>]) -> bool {
    fn one<F>(t: &[Term<F>]) -> bool {
        t.iter().any(|t| matches!(t, Term::One(_)))
    }
    ops.iter().any(|i| match i {
        I::Mul(..) | I::Gate(_) | I::GateAux(_) | I::Const(_) | I::Zero(..) => true,
        I::Add(t) | I::Lin(t) => one(t),
        I::Taut(t) => one(t),
        I::Call(s, _) => illegal(&s.body),
        I::Alloc(_) | I::AllocAux | I::Empty | I::Drop(_) | I::Fail(_) => false,
    })
}

fn spoil<F: PrimeField>(r: &mut VRng, p: &mut NetBody<F>, h: usize) {
    // nothing after the change may shift
    let i = match r.below(8) {
        0 if h > 0 => I::Mul(r.below(h), r.below(h)),
        1 => I::GateAux(r.bool()),
        2 => I::Const([Co::Zero, Co::One, Co::Any(F::from(3))][r.below(3)].clone()),
        3 => I::Add(vec![Term::One(Co::One)]),
        4 => I::Lin(vec![Term::One(Co::Any(F::from(9)))]),
        5 => I::Zero(vec![], F::ONE),
        6 => I::Call(
            std::sync::Arc::new(circ::nets::Sub { shape: 7, pred: circ::nets::Pred::Unknown, body: vec![I::GateAux(false)], outs: vec![], delay: 0 }),
            vec![],
        ),
        _ => I::Call(
            std::sync::Arc::new(circ::nets::Sub { shape: 0, pred: circ::nets::Pred::Known, body: vec![I::Const(Co::One)], outs: vec![0], delay: 0 }),
            vec![],
        ),
    };
    p.ops.push(i);
}

fn k09_circuit<F: Fld, K: Rank, S, O>(c: &mut Case, sz: &[Size], n_out: usize, noisy: bool) -> Res
where
    S: Stage<F, K> + Depth,
    O: OutKind<F>,
    Prog<F, S, O>: for<'a> MultiStageCircuit<F, K, Last = S, Output = O::K, Aux<'a> = (), Witness<'a> = Wit<F>, Instance<'a> = Vec<F>> + Clone,
{
    let n = K::n();
    let uses: Vec<Use> = sz.iter().map(|_| *c.rng.pick(&[Use::Enforced, Use::Unenforced, Use::Unenforced, Use::Unenforced, Use::Skipped])).collect();
    let vals: Vec<Vec<F>> = sz.iter().map(|s| stage_values(&mut c.rng, s)).collect();
    let init: Vec<F> = vals.iter().zip(&uses).filter(|(_, u)| matches!(u, Use::Enforced | Use::Unenforced)).flat_map(|(v, _)| v.clone()).collect();
    let calls = if c.rng.chance(1, 3) { 3 } else { 0 };
    let mix = Mix { len: 8, calls, depth: if calls > 0 { 2 } else { 0 }, linear: true, ..mixes(&mut c.rng) };
    let mix = Mix { len: 8, calls, depth: if calls > 0 { 2 } else { 0 }, ..mix };
    let (mut body, supply) = Gen::new(&mut c.rng, mix).net_on(init.clone(), 0);
    ensure!(!illegal(&body.ops), "generator made an illegal bonding circuit");
    let mut w = init.clone();
    body.ops.iter().for_each(|i| circ::nets::step(&mut w, i, &supply, F::from(5)));
    let mut h = w.len();
    while n_out > 0 && h == 0 {
        body.ops.push(I::AllocAux);
        h += 1;
    }
    body.outs = (0..n_out).map(|_| c.rng.below(h)).collect();
    // a constant as an output is a reference to ONE as well
    let spoiled = c.rng.chance(2, 5);
    if spoiled {
        spoil(&mut c.rng, &mut body, h);
    }
    let one_out = !spoiled && n_out > 0 && c.rng.chance(1, 4);
    // enforcing a stage of booleans needs gates
    let bools = sz.iter().zip(&uses).any(|(s, u)| *u == Use::Enforced && s.booleans > 0);
    let bad = illegal(&body.ops) || bools || noisy || one_out;
    let prog = OneOut { p: Prog::<F, S, O> { uses: uses.clone(), p: body.into(), _m: PhantomData }, on: one_out };
    let circuit = MultiStage::<F, K, _>::new(prog);
    let m: Model<F> = circ::structure(&circuit).map_err(|e| format!("recording failed: {e}"))?;
    if m.gates() > n {
        return Ok(());
    }
    let b = match circuit.into_bonding_object() {
        Ok(b) => {
            ensure!(!bad, "an illegal bonding circuit was accepted (stages {sz:?}, {uses:?}, constant output {one_out}, noisy output {noisy})");
            b
        }
        Err(Error::InvalidWitness(_)) if bad => {
            c.event("illegal bonding circuits refused", 1);
            c.seen(&(sz.len(), uses.len(), m.gates(), m.constraints(), bad));
            return Ok(());
        }
        Err(e) => return Err(format!("bonding circuit ({}): {e:?}", if bad { "illegal" } else { "legal" })),
    };
    let o = Object::<F, K>::bonding(b);
    ensure_eq!(o.counts(), (m.gates(), m.constraints() - 1), "counts of a bonding circuit");
    let plan = o.plan();
    let t: Vec<_> = m.terms(&plan, n).into_iter().filter(|(x, y, _)| !(*y == 0 && *x == 2 * n)).collect();
    ensure!(t.iter().all(|(_, y, _)| *y != 0), "bonding model has a constant term");
    for _ in 0..2 {
        let (x, y): (F, F) = match c.rng.below(4) {
            0 => (F::ZERO, c.rng.field()),
            1 => (c.rng.field(), F::ZERO),
            _ => (c.rng.field(), c.rng.field()),
        };
        ensure_eq!(o.sxy(x, y, &plan), eval2(&t, x, y), "bonding polynomial at ({x:?}, {y:?})");
        ensure_eq!(dense(&o.sx(x, &plan)), restrict(&t, K::num_coeffs(), Some(x), None), "bonding polynomial restricted to x");
        ensure_eq!(dense(&o.sy(y, &plan)), restrict(&t, K::num_coeffs(), None, Some(y)), "bonding polynomial restricted to y");
        c.eval();
    }
    // acceptance of stage polynomials, and of changed ones
    let mut sum = sparse::Polynomial::<F, K>::default();
    for (i, v) in vals.iter().enumerate() {
        let (a, how) = (c.rng.field(), c.rng.bool());
        sum.add_assign(&rx_at::<F, K>(i + 1, a, v.clone(), how).map_err(|e| e.to_string())?);
    }
    let mut d = dense(&sum);
    for round in 0..3 {
        let mut by_y = vec![F::ZERO; 4 * n];
        for (x, y, k) in &t {
            by_y[*y] += *k * d[4 * n - 1 - *x];
        }
        let y: F = c.rng.uniform();
        let got = sparse::Polynomial::<F, K>::from_coeffs(d.clone()).revdot(&o.sy(y, &plan));
        ensure_eq!(got, circ::horner(&by_y, y), "bonding check of stage polynomials");
        let ok = by_y.iter().all(|v| *v == F::ZERO);
        c.event(if ok { "satisfied bonding checks" } else { "violated bonding checks" }, 1);
        if F::NUM_BITS > 200 {
            ensure_eq!(got == F::ZERO, ok, "bonding verdict");
        }
        let total = sz.iter().map(gates).sum::<usize>();
        if total == 0 {
            break;
        }
        let g = 1 + c.rng.below(total);
        d[at(n, if c.rng.bool() { 1 } else { 3 }, g)] += c.rng.nonzero::<F>();
        let _ = round;
    }
    c.event("bonding circuits accepted", 1);
    c.seen(&(format!("{sz:?}"), uses.len(), m.gates(), m.constraints(), n_out));
    c.sample(&format!("outputs {n_out}"), || format!("{sz:?} {uses:?}: {} terms", t.len()));
    Ok(())
}

/// A staged circuit whose first output is replaced by ONE.
#[derive(Clone)]
struct OneOut<P> {
    p: P,
    on: bool,
}
impl<F: PrimeField, K: Rank, S, O: OutKind<F>> MultiStageCircuit<F, K> for OneOut<Prog<F, S, O>>
where
    S: Stage<F, K>,
    Prog<F, S, O>: for<'a> MultiStageCircuit<F, K, Last = S, Output = O::K, Aux<'a> = (), Witness<'a> = Wit<F>, Instance<'a> = Vec<F>>,
{
    type Last = S;
    type Instance<'s> = Vec<F>;
    type Witness<'s> = Wit<F>;
    type Output = O::K;
    type Aux<'s> = ();
    fn instance<'dr, 's: 'dr, D: Driver<'dr, F = F>>(&self, dr: &mut D, i: DriverValue<D, Vec<F>>) -> Result<Bound<'dr, D, O::K>>
    where
        Self: 'dr,
    {
        self.p.instance(dr, i)
    }
    fn witness<'a, 'dr, 's: 'dr, D: Driver<'dr, F = F>>(&self, b: StageBuilder<'a, 'dr, D, K, (), S>, w: DriverValue<D, Wit<F>>) -> Result<WithAux<Bound<'dr, D, O::K>, DriverValue<D, ()>>>
    where
        Self: 'dr,
    {
        let o = self.p.witness(b, w)?;
        Ok(if self.on { WithAux::new(O::pack((0..O::N).map(|_| Element::one()).collect()), D::unit()) } else { o })
    }
}

fn k09_case<F: Fld, K: Rank>(c: &mut Case) -> Res {
    let depth = c.rng.below(5);
    let sz = sizes(&mut c.rng, depth, K::n());
    set(&sz);
    macro_rules! go { ($o:ty, $n:expr, $noisy:expr) => { with_stage!(depth, |S| k09_circuit::<F, K, S, $o>(c, &sz, $n, $noisy)) } }
    match c.rng.below(8) {
        0..=3 => go!(List<0>, 0, false),
        4 => go!(List<1>, 1, false),
        5 => go!(List<2>, 2, false),
        6 => go!(circ::nets::NoisyOut, 1, true),
        _ => go!(List<5>, 5, false),
    }
}

pub fn run_k09(x: &Ctx) {
    x.rule("Generated linear circuits over generated stages become bonding objects whose polynomials must equal the recorded constraints without the constant one, coefficient by coefficient; stage polynomials, honest and with one value changed, must be judged as the recorded constraints judge them. The same circuits with one operation a bonding circuit may not use, anywhere including nested routines and outputs, must be refused.");
    x.cases("pasta Fp", x.n(120000, 3000000), k09_case::<Fp, T>);
    x.cases("pasta Fq", x.n(40000, 1000000), k09_case::<Fq, T>);
    x.cases("F_65537", x.n(60000, 2000000), k09_case::<F65537, T>);
}
