//! Public parameters: curve generators and permutation constants.
use ff::{Field, PrimeField};
use group::prime::PrimeCurveAffine;
use group::{Curve, Group};
use pasta_curves::arithmetic::{CurveAffine, CurveExt};
use pasta_curves::{EpAffine, EqAffine, Fp, Fq};
use ragu_arithmetic::{Cycle, FixedGenerators, PoseidonPermutation};
use ragu_core::drivers::emulator::{Emulator, Wired};
use ragu_core::maybe::Maybe;
use ragu_pasta::{Pasta, PastaParams};
use ragu_primitives::{Element, poseidon::Sponge};
use std::collections::{HashMap, HashSet};
use std::sync::OnceLock;
use vh::{Case, Ctx, Res, ensure, ensure_eq};

const COUNT: usize = 1 << 13;

// ---------------------------------------------------------------- generators

fn generated() -> &'static PastaParams {
    static P: OnceLock<PastaParams> = OnceLock::new();
    P.get_or_init(Pasta::generate)
}
/// The documented derivation: 0 and the little-endian index, or 1 for the blinding generator.
fn derive<C: CurveAffine>(i: Option<u32>) -> C {
    let h = C::CurveExt::hash_to_curve("Ragu-Parameters");
    match i {
        Some(i) => {
            let mut m = vec![0u8];
            m.extend(i.to_le_bytes());
            h(&m).into()
        }
        None => h(&[1]).into(),
    }
}
fn xy<C: CurveAffine>(p: &C) -> Option<(C::Base, C::Base)> {
    Option::from(p.coordinates()).map(|c: pasta_curves::arithmetic::Coordinates<C>| (*c.x(), *c.y()))
}

/// A slice of the generators of one curve, from every source.
fn slice<C: CurveAffine>(c: &mut Case, what: &str, lo: usize, n: usize, baked: &dyn FixedGenerators<C>, made: &dyn FixedGenerators<C>) -> Res {
    ensure_eq!(baked.g().len(), COUNT, "number of baked {what} generators");
    ensure_eq!(made.g().len(), COUNT, "number of {what} generators");
    for i in lo..(lo + n).min(COUNT) {
        let p = baked.g()[i];
        ensure_eq!(p, made.g()[i], "{what} generator {i}: baked and generated");
        let Some((x, y)) = xy(&p) else { return Err(format!("{what} generator {i} is the identity")) };
        ensure_eq!(y.square(), x.square() * x + C::Base::from(5), "{what} generator {i} off the curve");
        ensure_eq!(p, derive(Some(i as u32)), "{what} generator {i} is not the hash of its index");
        c.eval();
        c.seen(&format!("{x:?}"));
    }
    c.event("generators checked", n as u64);
    Ok(())
}
/// All generators of one curve together.
fn all<C: CurveAffine + PrimeCurveAffine<Curve = <C as CurveAffine>::CurveExt>>(c: &mut Case, what: &str, g: &dyn FixedGenerators<C>, again: &dyn FixedGenerators<C>) -> Res {
    ensure_eq!(*g.h(), *again.h(), "blinding generator of {what}: baked and generated");
    ensure_eq!(*g.h(), derive(None), "blinding generator of {what} is not the documented hash");
    let mut at: HashMap<Vec<u8>, String> = HashMap::new();
    let mut key = |p: &C, name: String| -> Res {
        let Some((x, _)) = xy(p) else { return Err(format!("{what}: {name} is the identity")) };
        match at.insert(x.to_repr().as_ref().to_vec(), name.clone()) {
            Some(o) => Err(format!("{what}: {name} equals {o} up to sign")),
            None => Ok(()),
        }
    };
    key(g.h(), "the blinding generator".into())?;
    for (i, p) in g.g().iter().enumerate() {
        key(p, format!("generator {i}"))?;
    }
    key(&C::CurveExt::generator().to_affine(), "the standard base point".into())?;
    // no small multiple of one is another
    for (name, p) in [("the blinding generator".to_string(), *g.h())].into_iter().chain(g.g().iter().enumerate().step_by(61).map(|(i, p)| (format!("generator {i}"), *p))) {
        let mut m = p.to_curve();
        for k in 2..6 {
            m += p.to_curve();
            let (x, _) = xy(&m.to_affine()).unwrap();
            if let Some(o) = at.get(x.to_repr().as_ref()) {
                return Err(format!("{what}: {o} is {k} times {name} up to sign"));
            }
        }
    }
    c.eval();
    c.event("generators pairwise distinct", at.len() as u64);
    c.seen(what);
    Ok(())
}
/// Commitments tell positions apart.
fn commits<C: CurveAffine + PrimeCurveAffine<Curve = <C as CurveAffine>::CurveExt>>(c: &mut Case, what: &str, g: &dyn FixedGenerators<C>) -> Res
where
    C::ScalarExt: PrimeField,
{
    let r = &mut c.rng;
    let n = 1 + r.below(24);
    let mut used = HashSet::new();
    let terms: Vec<(usize, C::ScalarExt)> = (0..n)
        .map(|_| (r.below(COUNT), match r.below(4) {
            0 => C::ScalarExt::ONE,
            1 => -C::ScalarExt::ONE,
            _ => C::ScalarExt::random(&mut *r),
        }))
        .filter(|t| used.insert(t.0))
        .collect();
    let commit = |t: &[(usize, C::ScalarExt)]| -> C::CurveExt { ragu_arithmetic::mul(t.iter().map(|t| &t.1), t.iter().map(|t| &g.g()[t.0])) };
    let base = commit(&terms);
    let naive = terms.iter().fold(C::CurveExt::identity(), |a, (i, v)| a + derive::<C>(Some(*i as u32)) * *v);
    ensure_eq!(base, naive, "{what}: commitment to {} positions", terms.len());
    let mut other = terms.clone();
    let k = r.below(other.len());
    let to = loop {
        let i = r.below(COUNT);
        if !used.contains(&i) {
            break i;
        }
    };
    let from = other[k].0;
    other[k].0 = to;
    ensure!(commit(&other) != base, "{what}: a value moved from position {from} to {to} leaves the commitment unchanged");
    if terms.len() > 1 {
        let mut sw = terms.clone();
        let (a, b) = (r.below(sw.len()), r.below(sw.len()));
        let (va, vb) = (sw[a].1, sw[b].1);
        (sw[a].1, sw[b].1) = (vb, va);
        ensure_eq!(commit(&sw) == base, va == vb, "{what}: values of positions {} and {} exchanged", sw[a].0, sw[b].0);
    }
    // single values with blinding
    let (v, b): (C::ScalarExt, C::ScalarExt) = (C::ScalarExt::random(&mut *r), if r.chance(1, 4) { C::ScalarExt::ZERO } else { C::ScalarExt::random(&mut *r) });
    let s = g.short_commit(v, b);
    let want: C = (derive::<C>(Some(0)) * v + derive::<C>(None) * b).into();
    ensure_eq!(s, want, "{what}: short commitment");
    ensure!(v == b || g.short_commit(b, v) != s, "{what}: value and blinding can be exchanged");
    c.eval();
    c.event("commitments compared", 3);
    c.seen(&(what.to_string(), from, to));
    Ok(())
}

fn g01(x: &Ctx) {
    x.rule("Generators of both curves, generated and baked, equal the documented derivation one by one; all distinct, on the curve, never the identity; commitments separate positions.");
    x.assume("The map from bytes to curve points is the stand-in's; its quality is out of scope.");
    // first use from many threads at once
    x.serial("concurrent first use", 1, |c| {
        let gate = std::sync::Barrier::new(16);
        let ps: Vec<usize> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..16).map(|_| s.spawn(|| { gate.wait(); Pasta::baked() as *const _ as usize })).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        ensure!(ps.iter().all(|p| *p == ps[0]), "threads see different parameters");
        c.eval();
        c.event("threads racing for the parameters", 16);
        Ok(())
    });
    let (b, g) = (Pasta::baked(), generated());
    x.cases("generators", 64, |c| {
        let lo = c.idx / 2 * 256;
        if c.idx % 2 == 0 {
            slice(c, "Pallas", lo, 256, Pasta::nested_generators(b), Pasta::nested_generators(g))
        } else {
            slice(c, "Vesta", lo, 256, Pasta::host_generators(b), Pasta::host_generators(g))
        }
    });
    x.cases("distinct", 2, |c| {
        if c.idx == 0 {
            all::<EpAffine>(c, "Pallas", Pasta::nested_generators(b), Pasta::nested_generators(g))
        } else {
            all::<EqAffine>(c, "Vesta", Pasta::host_generators(b), Pasta::host_generators(g))
        }
    });
    x.cases("reproducible", 1, |c| {
        let again = Pasta::generate();
        ensure!(Pasta::nested_generators(&again).g() == Pasta::nested_generators(g).g() && Pasta::nested_generators(&again).h() == Pasta::nested_generators(g).h(), "Pallas generators differ between runs");
        ensure!(Pasta::host_generators(&again).g() == Pasta::host_generators(g).g() && Pasta::host_generators(&again).h() == Pasta::host_generators(g).h(), "Vesta generators differ between runs");
        c.eval();
        Ok(())
    });
    x.cases("commitments", x.n(200, 5000), |c| {
        let p = if c.rng.bool() { b } else { g };
        if c.idx % 2 == 0 {
            commits::<EpAffine>(c, "Pallas", Pasta::nested_generators(p))
        } else {
            commits::<EqAffine>(c, "Vesta", Pasta::host_generators(p))
        }
    });
}

// ---------------------------------------------------------------- permutation

/// The Grain generator of the Poseidon reference implementation.
struct Grain(Vec<bool>);
impl Grain {
    fn new(n: usize, t: usize, full: usize, part: usize) -> Self {
        let mut s = vec![];
        for (v, k) in [(1, 2), (0, 4), (n, 12), (t, 12), (full, 10), (part, 10), ((1 << 30) - 1, 30)] {
            s.extend((0..k).rev().map(|i| v >> i & 1 == 1));
        }
        let mut g = Grain(s);
        for _ in 0..160 {
            g.step();
        }
        g
    }
    fn step(&mut self) -> bool {
        let b = [62, 51, 38, 23, 13, 0].iter().fold(false, |a, i| a ^ self.0[*i]);
        self.0.remove(0);
        self.0.push(b);
        b
    }
    fn bit(&mut self) -> bool {
        loop {
            let (a, b) = (self.step(), self.step());
            if a {
                return b;
            }
        }
    }
    /// A big-endian number, and whether it is below the modulus.
    fn number<F: PrimeField>(&mut self, n: usize) -> (F, bool) {
        let mut v = F::ZERO;
        let mut bytes = vec![0u8; 32];
        for i in 0..n {
            let b = self.bit();
            v = v.double() + if b { F::ONE } else { F::ZERO };
            let at = n - 1 - i;
            bytes[at / 8] |= (b as u8) << (at % 8);
        }
        (v, v.to_repr().as_ref() == &bytes[..])
    }
}
type Table<F> = Vec<Vec<F>>;
fn standard<F: PrimeField>(t: usize, full: usize, part: usize) -> (Table<F>, Table<F>) {
    let n = F::NUM_BITS as usize;
    let mut g = Grain::new(n, t, full, part);
    let rc = (0..full + part)
        .map(|_| {
            (0..t)
                .map(|_| loop {
                    let (v, ok) = g.number(n);
                    if ok {
                        break v;
                    }
                })
                .collect()
        })
        .collect();
    let l: Vec<F> = loop {
        let l: Vec<F> = (0..2 * t).map(|_| g.number(n).0).collect();
        if (0..l.len()).all(|i| (0..i).all(|j| l[i] != l[j])) {
            break l;
        }
    };
    let mds = (0..t).map(|i| (0..t).map(|j| (l[i] + l[t + j]).invert().unwrap()).collect()).collect();
    (rc, mds)
}
fn det<F: Field>(mut m: Table<F>) -> F {
    let n = m.len();
    let mut d = F::ONE;
    for k in 0..n {
        let Some(p) = (k..n).find(|i| m[*i][k] != F::ZERO) else { return F::ZERO };
        if p != k {
            m.swap(p, k);
            d = -d;
        }
        d *= m[k][k];
        let inv = m[k][k].invert().unwrap();
        for i in k + 1..n {
            let f = m[i][k] * inv;
            for j in k..n {
                let t = m[k][j];
                m[i][j] -= f * t;
            }
        }
    }
    d
}
fn subsets(n: usize, k: usize) -> Vec<Vec<usize>> {
    (0..1usize << n).filter(|m| m.count_ones() as usize == k).map(|m| (0..n).filter(|i| m >> i & 1 == 1).collect()).collect()
}
fn tables<F: PrimeField, P: PoseidonPermutation<F>>(c: &mut Case, what: &str, p: &P) -> Res {
    ensure_eq!((P::T, P::RATE, P::FULL_ROUNDS, P::PARTIAL_ROUNDS, P::ALPHA), (5, 4, 8, 56, 5), "documented shape of {what}");
    let (rc, mds) = standard::<F>(5, 8, 56);
    let (r, m): (Table<F>, Table<F>) = (p.round_constants().map(|r| r.to_vec()).collect(), p.mds_matrix().map(|r| r.to_vec()).collect());
    ensure_eq!(p.mds_matrix().len(), 5, "{what}: announced rows of the matrix");
    for (k, (name, got, want)) in [("round constants", &r, &rc), ("matrix", &m, &mds)].into_iter().enumerate() {
        ensure_eq!(got.len(), want.len(), "{what}: rows of the {name}");
        for (i, (a, b)) in got.iter().zip(want).enumerate() {
            ensure_eq!(a.len(), b.len(), "{what}: width of row {i} of the {name}");
            for (j, (a, b)) in a.iter().zip(b).enumerate() {
                ensure_eq!(a, b, "{what}: entry {j} of row {i} of the {name} is not the standard one");
                c.eval();
                c.seen(&(what.to_string(), k, i, j));
            }
        }
    }
    c.event("constants compared", 345);
    for k in 1..=5 {
        for rows in subsets(5, k) {
            for cols in subsets(5, k) {
                let d = det(rows.iter().map(|i| cols.iter().map(|j| m[*i][*j]).collect()).collect());
                ensure!(d != F::ZERO, "{what}: the minor of rows {rows:?} and columns {cols:?} vanishes");
                c.event("minors nonzero", 1);
            }
        }
    }
    // iterating twice gives the same
    ensure!(p.round_constants().map(|r| r.to_vec()).eq(r), "{what}: constants change between uses");
    Ok(())
}
/// The permutation as the sponge runs it, against the standard tables.
fn runs<F: PrimeField, P: PoseidonPermutation<F>>(c: &mut Case, what: &str, p: &'static P, std: &(Table<F>, Table<F>)) -> Res {
    let n = 1 + c.rng.below(4);
    let msg: Vec<F> = (0..n).map(|_| match c.rng.below(4) {
        0 => F::ZERO,
        1 => -F::ONE,
        _ => F::random(&mut c.rng),
    }).collect();
    let mut s = vec![F::ZERO; 5];
    s[..n].copy_from_slice(&msg);
    for r in 0..64 {
        for i in 0..5 {
            s[i] += std.0[r][i];
        }
        let k = if (4..60).contains(&r) { 1 } else { 5 };
        for x in s.iter_mut().take(k) {
            *x = x.square().square() * *x;
        }
        s = std.1.iter().map(|row| row.iter().zip(&s).map(|(a, b)| *a * *b).sum()).collect();
    }
    let got: Vec<F> = Emulator::<Wired<F>>::emulate_wired(msg.clone(), |dr, w| {
        let mut sp = Sponge::new(dr, p);
        for i in 0..n {
            let e = Element::alloc(dr, w.as_ref().map(|w| w[i]))?;
            sp.absorb(dr, &e)?;
        }
        (0..4).map(|_| Ok(*sp.squeeze(dr)?.value().take())).collect::<ragu_core::Result<Vec<F>>>()
    })
    .map_err(|e| format!("{what}: sponge refused: {e}"))?;
    ensure_eq!(got, s[..4].to_vec(), "{what}: permutation of {msg:?}");
    c.eval();
    c.event("permutations run", 1);
    c.seen(&format!("{msg:?}"));
    Ok(())
}

fn g02(x: &Ctx) {
    x.rule("Every constant equals the output of the Grain generator; every minor of the matrix is nonzero; the sponge computes the standard permutation.");
    let params = Pasta::baked();
    let (a, b) = (Pasta::circuit_poseidon(params), Pasta::scalar_poseidon(params));
    x.cases("tables", 2, |c| if c.idx == 0 { tables::<Fp, _>(c, "the circuit field", a) } else { tables::<Fq, _>(c, "the scalar field", b) });
    let (sa, sb) = (standard::<Fp>(5, 8, 56), standard::<Fq>(5, 8, 56));
    x.cases("permutation", x.n(200, 20000), |c| if c.idx % 2 == 0 { runs(c, "the circuit field", a, &sa) } else { runs(c, "the scalar field", b, &sb) });
}

fn main() {
    vh::main(&[("G01", g01), ("G02", g02)]);
}
