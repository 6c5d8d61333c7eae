//! The auxiliary polynomial of the gate identity.
use circ::util::{Fld, dense};
use circ::pow;
use pasta_curves::{Fp, Fq};
use prog::{Budget, Expect, Feeder, Frag, Io, St, attack, conform};
use ragu_circuits::polynomials::{R, Rank, sparse::Polynomial, txz::Evaluate};
use ragu_core::{
    Result,
    drivers::{Driver, DriverValue},
    maybe::Maybe,
};
use vh::{Case, Ctx, Res, VRng, ensure_eq, small::*};

type T = R<7>;
type P = R<13>;

/// The documented sum.
fn sum<F: Fld, K: Rank>(x: F, z: F) -> F {
    let n = K::n();
    (0..n).fold(F::ZERO, |a, i| a - pow(x, 4 * n - 1 - i) * (pow(z, 2 * n - 1 - i) + pow(z, 2 * n + i)))
}

struct Txz<K>(core::marker::PhantomData<K>, bool);
impl<F: Fld, K: Rank> Frag<F> for Txz<K> {
    fn run<'dr, D: Driver<'dr, F = F>, I: Feeder<'dr, D>>(&self, dr: &mut D, feed: &mut I, io: &mut Io<'dr, D>, w: DriverValue<D, Vec<F>>) -> Result<()> {
        let x = feed.input(dr, D::just(|| w.snag()[0]))?;
        let z = feed.input(dr, D::just(|| w.snag()[1]))?;
        io.ins = vec![x.clone(), z.clone()];
        let e = if self.1 { Evaluate::<K>::new() } else { Evaluate::default() };
        io.outs.push(dr.routine(e, (x, z))?);
        Ok(())
    }
}

fn point<F: Fld, K: Rank>(r: &mut VRng) -> F {
    match r.below(8) {
        0 => F::ZERO,
        1 => F::ONE,
        2 => -F::ONE,
        3 => pow(F::ROOT_OF_UNITY, 1usize << (F::S - F::S.min(r.below(K::RANK as usize + 2) as u32))),
        4 => F::from(r.below(10) as u64),
        _ => r.uniform(),
    }
}

fn at<F: Fld, K: Rank>(c: &mut Case, x: F, z: F, all: Option<Vec<F>>) -> Res {
    let n = K::n();
    let want = sum::<F, K>(x, z);
    ensure_eq!(K::txz(x, z), want, "t(x, z) at {x:?} {z:?}");
    let (tz, tx) = (K::tz(z), K::tx(x));
    ensure_eq!(tz.eval(x), want, "t(X, z) at {x:?} {z:?}");
    ensure_eq!(tx.eval(z), want, "t(x, Z) at {x:?} {z:?}");
    let mut d = vec![F::ZERO; 4 * n];
    let mut e = d.clone();
    for i in 0..n {
        d[4 * n - 1 - i] -= pow(z, 2 * n - 1 - i) + pow(z, 2 * n + i);
        let v = pow(x, 4 * n - 1 - i);
        e[2 * n - 1 - i] -= v;
        e[2 * n + i] -= v;
    }
    ensure_eq!(dense(&tz), d, "t(X, z) at {z:?}");
    ensure_eq!(dense(&tx), e, "t(x, Z) at {x:?}");
    c.eval();
    // in a circuit: x and z must be invertible there
    let ok = x != F::ZERO && z != F::ZERO;
    let g = Txz::<K>(core::marker::PhantomData, c.rng.bool());
    let s = Expect { ins: vec![x, z], outs: if ok { vec![want] } else { vec![] }, status: if ok { St::Ok } else { St::Err } };
    conform(c, &g, &[x, z], &s).map_err(|m| format!("t in a circuit: {m}"))?;
    attack(c, &g, &s, &all, Budget::default()).map_err(|m| format!("t in a circuit: {m}"))?;
    c.event(if ok { "circuit evaluations" } else { "circuit evaluations refused" }, 1);
    c.seen(&format!("{x:?}{z:?}{}", K::RANK));
    Ok(())
}

/// The identity counts exactly the gates that fail.
fn gates<F: Fld, K: Rank>(c: &mut Case) -> Res {
    let n = K::n();
    let r = &mut c.rng;
    let mut t = vec![F::ZERO; 4 * n];
    let used = r.below(n + 1);
    let bad = if r.bool() { 0 } else { 1 + r.below(3) };
    let mut gates: Vec<[F; 4]> = (0..n)
        .map(|i| {
            if i >= used {
                return [F::ZERO; 4];
            }
            let (a, b): (F, F) = (r.field(), r.field());
            if r.chance(1, 4) {
                [a, F::ZERO, F::ZERO, r.field()]
            } else {
                [a, b, a * b, if a * b == F::ZERO { r.field() } else { F::ZERO }]
            }
        })
        .collect();
    for _ in 0..bad {
        let (i, s) = (r.below(n), r.below(4));
        gates[i][s] += r.nonzero::<F>();
    }
    for (i, [a, b, m, d]) in gates.iter().enumerate() {
        (t[2 * n + i], t[2 * n - 1 - i], t[i], t[4 * n - 1 - i]) = (*a, *b, *m, *d);
    }
    let p = Polynomial::<F, K>::from_coeffs(t);
    let ok = gates.iter().all(|[a, b, m, d]| *a * *b == *m && *m * *d == F::ZERO);
    let mut clean = true;
    for k in 0..3 {
        let z: F = if k == 0 { r.uniform() } else { point::<F, K>(r) };
        let mut rhs = p.clone();
        rhs.dilate(z);
        rhs.add_assign(&K::tz(z));
        let want = gates.iter().enumerate().fold(F::ZERO, |s, (i, [a, b, m, d])| {
            s + (*a * *b - *m) * (pow(z, 2 * n - 1 - i) + pow(z, 2 * n + i)) + *m * *d * (pow(z, i) + pow(z, 4 * n - 1 - i))
        });
        ensure_eq!(p.revdot(&rhs), want, "gate identity at {z:?}");
        if k == 0 {
            clean = want == F::ZERO;
        }
    }
    if F::NUM_BITS > 200 {
        ensure_eq!(clean, ok, "gate identity verdict");
    }
    c.eval();
    c.event(if ok { "traces with all gates satisfied" } else { "traces with a failing gate" }, 1);
    Ok(())
}

pub fn run(x: &Ctx) {
    x.rule("t(x, z), t(X, z), t(x, Z) and the circuit gadget are compared with the documented sum, coefficient by coefficient: at every pair of points of tiny fields, and at zero, one, minus one, roots of unity and random points of the others, for both ranks. The gadget runs under every driver with a hostile prover looking for other results. Gate identities of random traces, honest and with single wires changed, equal the sum over failing gates.");
    x.cases("every pair of F_17", 17 * 17, |c| at::<F17, T>(c, F17::from((c.idx % 17) as u64), F17::from((c.idx / 17) as u64), Some((0..17u64).map(F17::from).collect())));
    x.cases("every pair of F_13", 13 * 13, |c| at::<F13, T>(c, F13::from((c.idx % 13) as u64), F13::from((c.idx / 13) as u64), Some((0..13u64).map(F13::from).collect())));
    x.cases("production rank, F_17", 17 * 17, |c| at::<F17, P>(c, F17::from((c.idx % 17) as u64), F17::from((c.idx / 17) as u64), Some((0..17u64).map(F17::from).collect())));
    fn any<F: Fld, K: Rank>(c: &mut Case) -> Res {
        let (x, z) = (point::<F, K>(&mut c.rng), point::<F, K>(&mut c.rng));
        at::<F, K>(c, x, z, None)
    }
    x.cases("pasta Fp", x.n(400, 12000), any::<Fp, T>);
    x.cases("pasta Fq", x.n(200, 6000), any::<Fq, T>);
    x.cases("F_65537", x.n(600, 20000), any::<F65537, T>);
    x.cases("production rank, Fp", x.n(40, 600), any::<Fp, P>);
    x.cases("production rank, F_65537", x.n(60, 1200), any::<F65537, P>);
    x.cases("gates, Fp", x.n(600, 20000), gates::<Fp, T>);
    x.cases("gates, F_17", x.n(1500, 40000), gates::<F17, T>);
    x.cases("gates, production rank", x.n(20, 400), gates::<Fp, P>);
}
