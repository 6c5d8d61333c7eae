//! Sparse polynomials in lock step with dense coefficient vectors.
use circ::util::Fld;
use ff::Field;
use circ::{horner, pow};
use pasta_curves::{EpAffine, EqAffine, Fp, Fq, arithmetic::CurveAffine};
use ragu_arithmetic::{Domain, FixedGenerators, Ring};
use ragu_circuits::polynomials::{
    R, Rank,
    sparse::{Polynomial, View},
};
use std::sync::OnceLock;
use vh::{Case, Ctx, Res, VRng, catch, ensure, ensure_eq, small::*};

type T = R<7>;

/// Values over stretches of every length around the interesting ones.
fn stretches<F: Fld>(r: &mut VRng, out: &mut [F]) {
    let mut i = 0;
    let sparse = r.bool();
    if r.chance(1, 3) {
        i += r.below(out.len() + 1);
    }
    while i < out.len() {
        let fill = match r.below(6) {
            0 => 1,
            1 => r.below(40),
            _ => 1 + r.below(4),
        };
        for v in out[i..].iter_mut().take(fill) {
            *v = r.field();
        }
        i += fill;
        i += match r.below(8) {
            0 => 0,
            1 => r.below(60),
            // around the length at which a gap starts a new block
            _ => 1 + r.below(if sparse { 9 } else { 6 }),
        };
    }
}

fn coefficients<F: Fld, K: Rank>(r: &mut VRng) -> Vec<F> {
    let (len, n) = (K::num_coeffs(), K::n());
    let mut d = vec![F::ZERO; len];
    match r.below(9) {
        0 => {}
        // single values at boundaries
        1 => {
            for _ in 0..1 + r.below(4) {
                let at = *r.pick(&[0, 1, n - 1, n, 2 * n - 1, 2 * n, 3 * n - 1, 3 * n, len - 2, len - 1]);
                d[at] = r.nonzero();
            }
        }
        2 => d.iter_mut().for_each(|v| *v = r.field()),
        3 => {
            let (a, b) = (r.below(len), r.below(len));
            stretches(r, &mut d[a.min(b)..=a.max(b)]);
        }
        // isolated values with gaps of one length
        4 => {
            let (step, off) = (1 + r.below(9), r.below(4));
            for i in (off..len).step_by(step) {
                d[i] = r.nonzero();
            }
        }
        _ => stretches(r, &mut d),
    }
    d
}

struct Wires<F>([Vec<F>; 4]);
fn wires<F: Fld, K: Rank>(r: &mut VRng) -> Wires<F> {
    let n = K::n();
    Wires(core::array::from_fn(|_| {
        let any = r.below(n + 1);
        let len = *r.pick(&[0, 1, n, n, n - 1, any]);
        let mut v = vec![F::ZERO; len];
        match r.below(3) {
            0 => v.iter_mut().for_each(|v| *v = r.field()),
            _ => stretches(r, &mut v),
        }
        v
    }))
}

fn view<F: Fld, K: Rank>(w: Wires<F>, trace: bool) -> (Polynomial<F, K>, Vec<F>) {
    let n = K::n();
    let mut d = vec![F::ZERO; 4 * n];
    let at = |s: usize, i: usize| match s {
        0 => 2 * n + i,
        1 => 2 * n - 1 - i,
        2 => i,
        _ => 4 * n - 1 - i,
    };
    for (s, v) in w.0.iter().enumerate() {
        for (i, v) in v.iter().enumerate() {
            let k = at(s, i);
            d[if trace { k } else { 4 * n - 1 - k }] = *v;
        }
    }
    let [a, b, c, e] = w.0;
    macro_rules! build {
        ($v:expr) => {{
            let mut v = $v;
            (v.a, v.b, v.c, v.d) = (a, b, c, e);
            v.build()
        }};
    }
    (if trace { build!(View::<F, K, _>::trace()) } else { build!(View::<F, K, _>::wiring()) }, d)
}

fn make<F: Fld, K: Rank>(r: &mut VRng) -> (Polynomial<F, K>, Vec<F>) {
    match r.below(6) {
        0 => {
            let w = wires::<F, K>(r);
            view(w, r.bool())
        }
        1 => (if r.bool() { Polynomial::new() } else { Polynomial::default() }, vec![F::ZERO; K::num_coeffs()]),
        _ => {
            let d = coefficients::<F, K>(r);
            // the vector may stop after the last value
            let mut s = d.clone();
            if r.bool() {
                let k = s.iter().rposition(|v| *v != F::ZERO).map_or(0, |k| k + 1);
                s.truncate(k + r.below(s.len() - k + 1));
            }
            (Polynomial::from_coeffs(s), d)
        }
    }
}

/// Everything that can be read from a polynomial.
fn same<F: Fld, K: Rank>(r: &mut VRng, p: &Polynomial<F, K>, d: &[F], what: &str) -> Res {
    let it = p.iter_coeffs();
    ensure_eq!(it.len(), K::num_coeffs(), "{what}: coefficient count");
    ensure_eq!(it.collect::<Vec<F>>(), d.to_vec(), "{what}: coefficients");
    match r.below(4) {
        0 => {
            let mut back: Vec<F> = p.iter_coeffs().rev().collect();
            back.reverse();
            ensure_eq!(back, d.to_vec(), "{what}: coefficients in reverse");
        }
        1 => {
            let mut it = p.iter_coeffs();
            let (mut lo, mut hi) = (0, d.len());
            while lo < hi {
                let run = 1 + r.below(12);
                let front = r.bool();
                for _ in 0..run {
                    if lo == hi {
                        break;
                    }
                    if front {
                        ensure_eq!(it.next(), Some(d[lo]), "{what}: coefficient {lo} from the front");
                        lo += 1;
                    } else {
                        hi -= 1;
                        ensure_eq!(it.next_back(), Some(d[hi]), "{what}: coefficient {hi} from the back");
                    }
                    ensure_eq!(it.len(), hi - lo, "{what}: remaining length");
                    ensure_eq!(it.size_hint(), (hi - lo, Some(hi - lo)), "{what}: size hint");
                }
            }
            ensure!(it.next().is_none() && it.next_back().is_none(), "{what}: iteration past the end");
        }
        2 => {
            let z: F = r.field();
            ensure_eq!(p.eval(z), horner(d, z), "{what}: evaluation at {z:?}");
            for z in [F::ZERO, F::ONE, -F::ONE] {
                ensure_eq!(p.eval(z), horner(d, z), "{what}: evaluation at {z:?}");
            }
        }
        _ => {
            let k = r.below(d.len() + 1);
            ensure_eq!(p.iter_coeffs().nth(k), d.get(k).copied(), "{what}: coefficient {k} by skipping");
        }
    }
    Ok(())
}

fn rank<F: Fld>(c: &mut Case) -> Res {
    history::<F, T>(c, 14)
}

fn scalar<F: Fld>(r: &mut VRng) -> F {
    match r.below(6) {
        0 => F::ZERO,
        1 => F::ONE,
        2 => -F::ONE,
        _ => r.field(),
    }
}

/// A history of operations over a pool of polynomials.
fn history<F: Fld, K: Rank>(c: &mut Case, steps: usize) -> Res {
    let r = &mut c.rng;
    let mut pool: Vec<(Polynomial<F, K>, Vec<F>)> = (0..3).map(|_| make(r)).collect();
    for (p, d) in &pool {
        same(r, p, d, "as made")?;
    }
    let mut log = vec![];
    for _ in 0..steps {
        let (i, j) = (r.below(pool.len()), r.below(pool.len()));
        let (q, e) = pool[j].clone();
        let (p, d) = &mut pool[i];
        let op = r.below(16);
        log.push((op, i, j));
        match op {
            0 => {
                let s = scalar(r);
                match r.below(2) {
                    0 => p.scale(s),
                    _ => <Polynomial<F, K> as Ring>::scale_assign(p, s),
                }
                d.iter_mut().for_each(|v| *v *= s);
            }
            1..=3 => {
                match r.below(3) {
                    0 => p.add_assign(&q),
                    1 => *p += &q,
                    _ => <Polynomial<F, K> as Ring>::add_assign(p, &q),
                }
                d.iter_mut().zip(&e).for_each(|(a, b)| *a += *b);
            }
            4..=5 => {
                match r.below(3) {
                    0 => p.sub_assign(&q),
                    1 => *p -= &q,
                    _ => <Polynomial<F, K> as Ring>::sub_assign(p, &q),
                }
                d.iter_mut().zip(&e).for_each(|(a, b)| *a -= *b);
            }
            6 => {
                p.negate();
                d.iter_mut().for_each(|v| *v = -*v);
            }
            7 => {
                let z = scalar::<F>(r);
                p.dilate(z);
                d.iter_mut().enumerate().for_each(|(k, v)| *v *= pow(z, k));
            }
            8 => {
                let len = d.len();
                let want = (0..len).fold(F::ZERO, |a, k| a + d[k] * e[len - 1 - k]);
                ensure_eq!(p.revdot(&q), want, "revdot after {log:?}");
                ensure_eq!(q.revdot(p), want, "revdot the other way after {log:?}");
            }
            9 => {
                let s = scalar(r);
                let k = r.below(5);
                let picks: Vec<usize> = (0..k).map(|_| r.below(pool.len())).collect();
                let f = match r.below(2) {
                    0 => Polynomial::fold(picks.iter().map(|i| &pool[*i].0), s),
                    _ => Polynomial::fold(picks.iter().map(|i| pool[*i].0.clone()), s),
                };
                let mut g = vec![F::ZERO; K::num_coeffs()];
                for i in &picks {
                    g.iter_mut().zip(&pool[*i].1).for_each(|(a, b)| *a = *a * s + *b);
                }
                pool[i] = (f, g);
            }
            // cancel part of a polynomial exactly, to make and remove blocks
            10..=12 => {
                let len = d.len();
                let mut e = vec![F::ZERO; len];
                for _ in 0..1 + r.below(3) {
                    let a = r.below(len);
                    let b = (a + 1 + r.below(20)).min(len);
                    for k in a..b {
                        e[k] = if r.chance(3, 4) { d[k] } else { r.field() };
                    }
                }
                let q = Polynomial::<F, K>::from_coeffs(e.clone());
                if r.bool() {
                    p.sub_assign(&q);
                } else {
                    let mut q = q;
                    q.negate();
                    p.add_assign(&q);
                }
                d.iter_mut().zip(&e).for_each(|(a, b)| *a -= *b);
            }
            13 => pool[i] = (q, e),
            14 => {
                // an inverse leaves nothing behind
                let (mut z, zero) = (q.clone(), vec![F::ZERO; K::num_coeffs()]);
                z.sub_assign(&q);
                same(r, &z, &zero, "p - p")?;
                ensure_eq!(z.revdot(&q), F::ZERO, "zero revdot");
            }
            _ => pool[i] = make(r),
        }
        let (p, d) = &pool[i];
        same(r, p, d, &format!("after {log:?}"))?;
    }
    (0..steps).for_each(|_| c.eval());
    c.event("operations in step", steps as u64);
    c.seen(&log);
    Ok(())
}

/// Transforms over vectors of polynomials act coefficient-wise.
fn transform<F: Fld>(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let domain = Domain::<F>::new(r.below(5) as u32);
    let (mut p, d): (Vec<Polynomial<F, T>>, Vec<Vec<F>>) = (0..domain.n()).map(|_| make(r)).unzip();
    let inverse = r.bool();
    if inverse { domain.ring_ifft::<Polynomial<F, T>>(&mut p) } else { domain.ring_fft::<Polynomial<F, T>>(&mut p) }
    let n = domain.n();
    let w = if inverse { domain.omega().invert().unwrap() } else { domain.omega() };
    let s = if inverse { F::from(n as u64).invert().unwrap() } else { F::ONE };
    for (i, p) in p.iter().enumerate() {
        let mut want = vec![F::ZERO; T::num_coeffs()];
        for (j, d) in d.iter().enumerate() {
            let k = pow(w, i * j) * s;
            want.iter_mut().zip(d).for_each(|(a, b)| *a += *b * k);
        }
        same(&mut c.rng, p, &want, "transformed")?;
        c.eval();
    }
    c.seen(&(n, inverse, hash(&d)));
    Ok(())
}
fn hash<F: Fld>(d: &[Vec<F>]) -> u64 {
    vh::hash64(&d.iter().map(|d| d.iter().map(|v| *v == F::ZERO).collect::<Vec<_>>()).collect::<Vec<_>>())
}

fn limits<F: Fld, K: Rank>(c: &mut Case) -> Res {
    let r = &mut c.rng;
    let (len, n) = (K::num_coeffs(), K::n());
    // full views and vectors are accepted
    let w = Wires(core::array::from_fn(|_| (0..n).map(|_| r.nonzero()).collect()));
    let trace = r.bool();
    let (p, d) = view::<F, K>(w, trace);
    same(r, &p, &d, "full view")?;
    let p = Polynomial::<F, K>::from_coeffs(d.clone());
    same(r, &p, &d, "full vector")?;
    // anything longer is refused, zeros included
    let over = 1 + r.below(3);
    let mut s = vec![F::ZERO; len + over];
    if r.bool() {
        s[r.below(len)] = F::ONE;
    }
    ensure!(catch(|| Polynomial::<F, K>::from_coeffs(s)).is_err(), "vector of {} coefficients accepted", len + over);
    let bad = r.below(4);
    let w = Wires::<F>(core::array::from_fn(|i| {
        let len = if i == bad { n + over } else { r.below(n + 1) };
        if r.bool() { vec![F::ZERO; len] } else { (0..len).map(|_| r.field()).collect() }
    }));
    let trace = r.bool();
    ensure!(catch(|| view_only::<F, K>(w, trace)).is_err(), "view with {} entries in buffer {bad} accepted", n + over);
    c.event("overfull views and vectors refused", 2);
    c.seen(&(bad, over, trace, K::RANK));
    c.eval();
    Ok(())
}
fn view_only<F: Fld, K: Rank>(w: Wires<F>, trace: bool) {
    let [a, b, c, e] = w.0;
    if trace {
        let mut v = View::<F, K, _>::trace();
        (v.a, v.b, v.c, v.d) = (a, b, c, e);
        v.build();
    } else {
        let mut v = View::<F, K, _>::wiring();
        (v.a, v.b, v.c, v.d) = (a, b, c, e);
        v.build();
    }
}

/// Generators with known discrete logarithms.
struct Gens<C: CurveAffine> {
    g: Vec<C>,
    h: C,
    log: Vec<C::ScalarExt>,
    log_h: C::ScalarExt,
}
impl<C: CurveAffine> FixedGenerators<C> for Gens<C> {
    fn g(&self) -> &[C] {
        &self.g
    }
    fn h(&self) -> &C {
        &self.h
    }
}
fn gens<C: CurveAffine>(extra: usize) -> Gens<C>
where
    C::ScalarExt: Fld,
{
    let mut r = VRng::new(77);
    let n = T::num_coeffs() + extra;
    let log: Vec<C::ScalarExt> = (0..n).map(|_| r.nonzero()).collect();
    let g = log.iter().map(|e| (C::generator() * *e).into()).collect();
    let log_h: C::ScalarExt = r.uniform();
    Gens { g, h: C::from(C::generator() * log_h), log, log_h }
}

fn commit<C: CurveAffine>(c: &mut Case, gens: &Gens<C>) -> Res
where
    C::ScalarExt: Fld,
{
    let r = &mut c.rng;
    let (mut p, mut d) = make::<C::ScalarExt, T>(r);
    for _ in 0..r.below(3) {
        let (q, e) = make::<C::ScalarExt, T>(r);
        p.add_assign(&q);
        d.iter_mut().zip(&e).for_each(|(a, b)| *a += *b);
    }
    let e = d.iter().zip(&gens.log).fold(<C::ScalarExt as Field>::ZERO, |a, (c, l)| a + *c * *l);
    let want: C = (C::generator() * e).into();
    ensure_eq!(p.commit_to_affine::<C>(gens), want, "affine commitment");
    ensure_eq!(C::from(p.commit::<C>(gens)), want, "commitment");
    let (v, b): (C::ScalarExt, C::ScalarExt) = (scalar(r), scalar(r));
    let want: C = (C::generator() * (gens.log[0] * v + gens.log_h * b)).into();
    ensure_eq!(gens.short_commit(v, b), want, "commitment to one value");
    c.eval();
    c.event("commitments", 3);
    c.seen(&d.iter().map(|v| *v == <C::ScalarExt as Field>::ZERO).collect::<Vec<_>>());
    Ok(())
}

fn random<F: Fld>(c: &mut Case) -> Res {
    let mut g = rand::rng();
    let p = Polynomial::<F, T>::random(&mut g);
    let q = Polynomial::<F, T>::random(&mut g);
    let (p, q): (Vec<F>, Vec<F>) = (p.iter_coeffs().collect(), q.iter_coeffs().collect());
    ensure_eq!(p.len(), T::num_coeffs(), "random polynomial");
    let mut all: Vec<F> = p.into_iter().chain(q).collect();
    all.push(F::ZERO);
    all.sort();
    ensure!(all.windows(2).all(|w| w[0] != w[1]), "random coefficients repeat");
    c.eval();
    Ok(())
}

pub fn run(x: &Ctx) {
    x.rule("Histories of operations over pools of sparse polynomials run in step with dense vectors: coefficients read forwards, backwards, from both ends and by skipping, evaluations, revdots, folds, exact cancellations of stretches, transforms over polynomials, and commitments under generators of known discrete logarithm. Patterns favour gaps around the merge tolerance, block and rank boundaries, and small fields where values cancel.");
    x.cases("F_17", x.n(90000, 1500000), rank::<F17>);
    x.cases("F_257", x.n(90000, 1500000), rank::<F257>);
    x.cases("F_65537", x.n(50000, 600000), rank::<F65537>);
    x.cases("pasta Fp", x.n(25000, 300000), rank::<Fp>);
    x.cases("pasta Fq", x.n(6000, 100000), rank::<Fq>);
    x.cases("production rank", x.n(400, 5000), |c| history::<F7681, R<13>>(c, 12));
    x.cases("transforms", x.n(2000, 20000), transform::<F257>);
    x.cases("limits", x.n(2000, 20000), limits::<F257, T>);
    x.cases("limits, production rank", x.n(10, 100), limits::<F65537, R<13>>);
    static P: OnceLock<Gens<EqAffine>> = OnceLock::new();
    static Q: OnceLock<Gens<EpAffine>> = OnceLock::new();
    x.cases("commitments, vesta", x.n(60, 1500), |c| commit(c, P.get_or_init(|| gens(0))));
    x.cases("commitments, pallas", x.n(30, 700), |c| commit(c, Q.get_or_init(|| gens(5))));
    x.cases("random polynomials", x.n(8, 50), random::<Fp>);
}
