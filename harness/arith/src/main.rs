//! Monitors for ragu_arithmetic: A01-A06.
use ff::{Field, PrimeField};
use group::prime::PrimeCurveAffine;
use group::{Curve, Group};
use pasta_curves::{Ep, EpAffine, Eq, EqAffine, Fp, Fq};
use ragu_arithmetic::{Coeff, CurveAffine, Domain, Ring};
use vh::small::*;
use vh::{Case, Ctx, Res, catch, ensure, ensure_eq};

/// Runs `f` once per thread-pool size (once, in the serial build).
fn per_pool(c: &mut Case, sizes: &[usize], f: impl Fn(&mut Case, usize) -> Res + Send + Sync) -> Res {
    #[cfg(feature = "multicore")]
    {
        for &t in sizes {
            let pool = rayon::ThreadPoolBuilder::new().num_threads(t).build().unwrap();
            c.event(&format!("ran with {t} worker threads"), 1);
            pool.install(|| f(c, t))?;
        }
        Ok(())
    }
    #[cfg(not(feature = "multicore"))]
    {
        let _ = sizes;
        c.event("ran in the serial build", 1);
        f(c, 1)
    }
}

// ---------------------------------------------------------------- A01

/// Naive transform: out[i] = sum_j in[j] w^(ij), for any module given by closures.
fn naive_eval<F: Field>(coeffs: &[F], x: F) -> F {
    let mut p = F::ONE;
    let mut r = F::ZERO;
    for c in coeffs {
        r += *c * p;
        p *= x;
    }
    r
}

/// Linear forms over the input coordinates: one transform yields its matrix.
struct Forms<F>(core::marker::PhantomData<F>);
impl<F: PrimeField> Ring for Forms<F> {
    type R = Vec<F>;
    type F = F;
    fn scale_assign(r: &mut Vec<F>, by: F) {
        r.iter_mut().for_each(|x| *x *= by);
    }
    fn add_assign(r: &mut Vec<F>, o: &Vec<F>) {
        r.iter_mut().zip(o).for_each(|(a, b)| *a += *b);
    }
    fn sub_assign(r: &mut Vec<F>, o: &Vec<F>) {
        r.iter_mut().zip(o).for_each(|(a, b)| *a -= *b);
    }
}
struct Points<C>(core::marker::PhantomData<C>);
impl<C: Curve + Default> Ring for Points<C> {
    type R = C;
    type F = C::Scalar;
    fn scale_assign(r: &mut C, by: C::Scalar) {
        *r *= by;
    }
    fn add_assign(r: &mut C, o: &C) {
        *r += o;
    }
    fn sub_assign(r: &mut C, o: &C) {
        *r -= o;
    }
}

/// The n-th root that the domain must use: the field's 2^S root squared down.
fn root<F: PrimeField>(k: u32) -> F {
    let mut w = F::ROOT_OF_UNITY;
    for _ in k..F::S {
        w = w.square();
    }
    w
}

fn forms_matrix<F: PrimeField + std::hash::Hash>(c: &mut Case, name: &str, k: u32) -> Res {
    let d = Domain::<F>::new(k);
    let n = 1usize << k;
    ensure_eq!(d.n(), n, "{name}: domain size for k={k}");
    ensure_eq!(d.log2_n(), k, "{name}: log2 of domain size");
    ensure_eq!(d.omega(), root::<F>(k), "{name}: primitive root for k={k}");
    let id: Vec<Vec<F>> = (0..n).map(|i| (0..n).map(|j| if i == j { F::ONE } else { F::ZERO }).collect()).collect();
    let mut fwd = id.clone();
    d.ring_fft::<Forms<F>>(&mut fwd);
    let w = d.omega();
    let mut wi = F::ONE;
    for (i, row) in fwd.iter().enumerate() {
        let mut p = F::ONE;
        for (j, v) in row.iter().enumerate() {
            ensure!(*v == p, "{name}: forward matrix k={k} entry ({i},{j}) = {v:?}, expected {p:?}");
            p *= wi;
        }
        wi *= w;
        c.seen(&(name, k, i, "fwd"));
    }
    let mut both = fwd;
    d.ring_ifft::<Forms<F>>(&mut both);
    ensure!(both == id, "{name}: inverse after forward is not the identity map, k={k}");
    let mut inv = id.clone();
    d.ring_ifft::<Forms<F>>(&mut inv);
    d.ring_fft::<Forms<F>>(&mut inv);
    ensure!(inv == id, "{name}: forward after inverse is not the identity map, k={k}");
    c.event("full transform matrices compared", 2);
    c.sample("matrix", || format!("{name} k={k}: all {n}x{n} entries equal w^(ij)"));
    Ok(())
}

fn fft_values<F: PrimeField + std::hash::Hash>(c: &mut Case, name: &str, k: u32, full: bool) -> Res {
    let d = Domain::<F>::new(k);
    let n = 1usize << k;
    let style = c.rng.below(4);
    let v: Vec<F> = (0..n)
        .map(|_| match style {
            0 => c.rng.uniform(),
            1 => c.rng.field(),
            2 => if c.rng.chance(1, 8) { c.rng.field() } else { F::ZERO },
            _ => -F::ONE,
        })
        .collect();
    let mut e = v.clone();
    d.fft(&mut e);
    let w = root::<F>(k);
    let idx: Vec<usize> = if full { (0..n).collect() } else { (0..12).map(|_| c.rng.below(n)).collect() };
    for i in idx {
        let x = w.pow_vartime([i as u64]);
        let want = naive_eval(&v, x);
        ensure!(e[i] == want, "{name}: k={k} style={style} value at index {i}: got {:?} expected {want:?}", e[i]);
    }
    let evals = e.clone();
    d.ifft(&mut e);
    ensure!(e == v, "{name}: k={k} inverse transform does not recover the coefficients");
    // inverse first, then forward
    let mut g = evals.clone();
    d.ifft(&mut g);
    d.fft(&mut g);
    ensure!(g == evals, "{name}: k={k} forward transform of the inverse is not the identity");
    c.seen(&(name, k, v.iter().take(8).map(|x| vh::hash64(x)).collect::<Vec<_>>()));
    Ok(())
}

fn a01(x: &Ctx) {
    x.rule("Linear-form modules recover the complete transform matrix for each size; random/sparse/extreme vectors and curve-point vectors are transformed and compared with direct evaluation, in thread pools of several sizes (parallel build) and in the serial build. A case is non-trivial when its (field, size, vector prefix) is new.");
    x.assume("field arithmetic of the stand-in pasta_curves crate is correct");
    let pools: &[usize] = &[1, 2, 3, 4, 8, 32];
    x.cases("matrix-fp", 8, |c| {
        let k = c.idx as u32;
        per_pool(c, pools, |c, _| forms_matrix::<Fp>(c, "Fp", k))
    });
    x.cases("matrix-fq", 7, |c| {
        let k = c.idx as u32;
        per_pool(c, pools, |c, _| forms_matrix::<Fq>(c, "Fq", k))
    });
    x.cases("matrix-small", 1, |c| {
        per_pool(c, pools, |c, _| {
            for k in 0..=5 {
                forms_matrix::<F97>(c, "F97", k)?;
            }
            for k in 0..=4 {
                forms_matrix::<F17>(c, "F17", k)?;
            }
            for k in 0..=2 {
                forms_matrix::<F13>(c, "F13", k)?;
            }
            for k in 0..=8 {
                forms_matrix::<F257>(c, "F257", k)?;
            }
            Ok(())
        })
    });
    x.cases("values-fp", x.n(60, 600), |c| {
        let k = (c.idx % 10) as u32;
        per_pool(c, &[1, 2, 8, 64], |c, _| fft_values::<Fp>(c, "Fp", k, k < 8))
    });
    x.cases("values-large", x.n(14, 90), |c| {
        let k = 10 + (c.idx % if c.tier == vh::Tier::Quick { 7 } else { 9 }) as u32;
        per_pool(c, &[1, 8], |c, _| if c.idx % 2 == 0 { fft_values::<Fp>(c, "Fp", k, false) } else { fft_values::<Fq>(c, "Fq", k, false) })
    });
    x.cases("values-small", x.n(200, 3000), |c| {
        per_pool(c, &[1, 4], |c, _| {
            let k = c.rng.below(17) as u32;
            fft_values::<F65537>(c, "F65537", k, k < 8)?;
            let k = c.rng.below(9) as u32;
            fft_values::<F257>(c, "F257", k, true)
        })
    });
    x.cases("points", x.n(8, 60), |c| {
        let k = (c.idx % 6) as u32;
        let n = 1usize << k;
        let scal: Vec<Fq> = (0..n).map(|_| c.rng.field()).collect();
        let pts: Vec<Ep> = scal.iter().map(|s| Ep::generator() * s).collect();
        per_pool(c, &[1, 4], |c, _| {
            let d = Domain::<Fq>::new(k);
            let mut p = pts.clone();
            d.ring_fft::<Points<Ep>>(&mut p);
            for (i, q) in p.iter().enumerate() {
                let e = naive_eval(&scal, root::<Fq>(k).pow_vartime([i as u64]));
                ensure!(*q == Ep::generator() * e, "curve-point transform differs at {i}, k={k}");
            }
            d.ring_ifft::<Points<Ep>>(&mut p);
            ensure!(p == pts, "curve-point inverse transform differs, k={k}");
            c.seen(&("points", k, format!("{:?}", scal[0])));
            Ok(())
        })
    });
    x.cases("bitreverse", 1, |c| {
        for l in 0..=32u32 {
            for _ in 0..2000 {
                let v = (c.rng.u64() as u32) & if l == 0 { 0 } else { u32::MAX >> (32 - l) };
                let mut want = 0u32;
                for b in 0..l {
                    if (v >> b) & 1 == 1 {
                        want |= 1 << (l - 1 - b);
                    }
                }
                let got = ragu_arithmetic::bitreverse(v, l);
                ensure!(got == want, "bit reversal of {v:#x} over {l} bits: {got:#x}, expected {want:#x}");
                c.eval();
            }
        }
        Ok(())
    });
    x.cases("misuse", 1, |c| {
        ensure!(catch(|| Domain::<F17>::new(5)).is_err(), "a domain larger than the field supports was created");
        ensure!(catch(|| Domain::<Fp>::new(33)).is_err(), "a domain larger than the field supports was created");
        ensure!(catch(|| Domain::<Fp>::new(3).fft(&mut [Fp::ZERO; 7])).is_err(), "a vector of the wrong length was transformed");
        ensure!(catch(|| Domain::<Fp>::new(3).fft(&mut [Fp::ZERO; 16])).is_err(), "a vector of the wrong length was transformed");
        for k in 0..=32 {
            let d = Domain::<Fp>::new(k);
            ensure!(d.n() == 1usize << k && d.log2_n() == k && d.omega() == root::<Fp>(k), "domain parameters for k={k}");
            c.eval();
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- A02

fn lagrange_def<F: PrimeField>(w: F, n: usize, i: usize, x: F) -> F {
    let mut num = F::ONE;
    let mut den = F::ONE;
    let wi = w.pow_vartime([i as u64]);
    let mut wj = F::ONE;
    for j in 0..n {
        if j != i {
            num *= x - wj;
            den *= wi - wj;
        }
        wj *= w;
    }
    num * den.invert().unwrap()
}

fn ell_point<F: PrimeField + std::hash::Hash>(c: &mut Case, name: &str, k: u32, x: F, amounts: &[usize]) -> Res {
    let d = Domain::<F>::new(k);
    let n = 1usize << k;
    let w = root::<F>(k);
    let mut member = false;
    if n <= 1 << 12 {
        let mut p = F::ONE;
        for _ in 0..n {
            member |= p == x;
            p *= w;
        }
    } else {
        member = x.pow_vartime([n as u64]) == F::ONE;
    }
    ensure!(d.contains(x) == member, "{name}: membership of {x:?} in the domain of size {n} reported as {}", !member);
    for &m in amounts {
        match d.ell(x, m) {
            None => ensure!(member, "{name}: no coefficients returned for non-member {x:?}, n={n}"),
            Some(v) => {
                ensure!(!member, "{name}: coefficients returned for member {x:?}, n={n}");
                ensure!(v.len() == m, "{name}: {} coefficients returned, {m} requested", v.len());
                let idx: Vec<usize> = if m <= 64 { (0..m).collect() } else { (0..6).map(|_| c.rng.below(m)).chain([0, m - 1]).collect() };
                for i in idx {
                    let want = lagrange_def(w, n, i, x);
                    ensure!(v[i] == want, "{name}: coefficient {i} of {m} at {x:?} n={n}: got {:?}, expected {want:?}", v[i]);
                }
                if m == n {
                    // interpolation property on a random polynomial
                    let p: Vec<F> = (0..n).map(|_| c.rng.uniform()).collect();
                    let mut e = p.clone();
                    d.fft(&mut e);
                    let s = v.iter().zip(&e).fold(F::ZERO, |a, (l, e)| a + *l * *e);
                    ensure!(s == naive_eval(&p, x), "{name}: Lagrange coefficients do not interpolate at {x:?}, n={n}");
                }
            }
        }
        c.seen(&(name, k, x, m));
    }
    c.event(if member { "member points" } else { "non-member points" }, 1);
    Ok(())
}

fn a02(x: &Ctx) {
    x.rule("Exhaustive over all points, sizes and prefix lengths of small prime fields; special and random points (roots of every 2-power order, zero, neighbours) over the Pasta fields. Non-trivial: a new (field, size, point, prefix length).");
    fn exhaustive<F: PrimeField + std::hash::Hash>(c: &mut Case, name: &str, p: u64, maxk: u32) -> Res {
        for k in 0..=maxk {
            let n = 1usize << k;
            for v in 0..p {
                let amounts: Vec<usize> = if n <= 16 { (0..=n).collect() } else { vec![0, 1, c.rng.below(n), n] };
                ell_point::<F>(c, name, k, F::from(v), &amounts)?;
            }
        }
        c.sample("exhaustive", || format!("{name}: all {p} points, sizes 2^0..2^{maxk}"));
        Ok(())
    }
    x.cases("small", 6, |c| match c.idx {
        0 => exhaustive::<F7>(c, "F7", 7, 1),
        1 => exhaustive::<F13>(c, "F13", 13, 2),
        2 => exhaustive::<F17>(c, "F17", 17, 4),
        3 => exhaustive::<F97>(c, "F97", 97, 5),
        4 => exhaustive::<F193>(c, "F193", 193, 6),
        _ => exhaustive::<F257>(c, "F257", 257, if c.tier == vh::Tier::Quick { 5 } else { 8 }),
    });
    fn big<F: PrimeField + std::hash::Hash>(c: &mut Case, name: &str) -> Res {
        let k = (c.idx % 11) as u32;
        let n = 1usize << k;
        let x = match c.rng.below(6) {
            0 => root::<F>(k).pow_vartime([c.rng.u64() % (2 * n as u64)]),
            1 => root::<F>(k + 1).pow_vartime([c.rng.u64()]),
            2 => root::<F>(c.rng.below(33) as u32).pow_vartime([c.rng.u64()]),
            3 => root::<F>(k) * F::MULTIPLICATIVE_GENERATOR,
            4 => c.rng.field(),
            _ => c.rng.uniform(),
        };
        let m = c.rng.below(n + 1);
        ell_point::<F>(c, name, k, x, &[0, 1.min(n), m, n])?;
        c.sample("big", || format!("{name}: k={k} x={x:?} prefix={m}"));
        Ok(())
    }
    x.cases("fp", x.n(500, 8000), |c| big::<Fp>(c, "Fp"));
    x.cases("fq", x.n(300, 5000), |c| big::<Fq>(c, "Fq"));
    x.cases("huge", x.n(20, 200), |c| {
        let k = c.rng.range(11, 32) as u32;
        let j = c.rng.below(33) as u32;
        let p = root::<Fp>(j).pow_vartime([c.rng.u64()]);
        let d = Domain::<Fp>::new(k);
        let member = p.pow_vartime([1u64 << k]) == Fp::ONE;
        ensure!(d.contains(p) == member, "membership in the domain of size 2^{k}");
        ensure!(d.ell(p, 3).is_none() == member, "membership disagreement in the domain of size 2^{k}");
        let p: Fp = c.rng.uniform();
        let v = d.ell(p, 5).ok_or("random point reported in a domain")?;
        // l_i(x) = w^i (x^n - 1) / (n (x - w^i))
        let n = Fp::from(1u64 << k);
        for (i, l) in v.iter().enumerate() {
            let wi = root::<Fp>(k).pow_vartime([i as u64]);
            let want = wi * (p.pow_vartime([1u64 << k]) - Fp::ONE) * (n * (p - wi)).invert().unwrap();
            ensure!(*l == want, "coefficient {i} in the domain of size 2^{k}");
        }
        c.seen(&("huge", k, j));
        Ok(())
    });
}

// ---------------------------------------------------------------- A03

fn msm_case<C: CurveAffine>(c: &mut Case, len: usize) -> Res
where
    C::ScalarExt: std::hash::Hash,
{
    let g = C::generator();
    // a pool of bases with known discrete logs (cheap to build for large lengths)
    let pool_n = len.clamp(1, 24);
    let mut pool: Vec<(C::ScalarExt, C)> = (0..pool_n)
        .map(|_| {
            let s: C::ScalarExt = c.rng.field();
            (s, (g * s).to_affine())
        })
        .collect();
    match c.rng.below(4) {
        0 => pool[0] = (C::ScalarExt::ZERO, C::identity()),
        1 if pool_n > 1 => {
            let (s, p) = pool[0];
            pool[1] = (-s, -p);
        }
        _ => {}
    }
    let style = c.rng.below(7);
    let konst: C::ScalarExt = c.rng.field();
    let small_bits = c.rng.range(1, 20) as u64;
    let mut coeffs = Vec::with_capacity(len);
    let mut bases = Vec::with_capacity(len);
    let mut want = C::ScalarExt::ZERO;
    for i in 0..len {
        let a: C::ScalarExt = match style {
            0 => c.rng.uniform(),
            1 => c.rng.field(),
            2 => -C::ScalarExt::ONE,
            3 => konst,
            4 => C::ScalarExt::from(c.rng.u64() & ((1 << small_bits) - 1)),
            5 => C::ScalarExt::from(2).pow_vartime([c.rng.below(255) as u64]),
            _ => if c.rng.chance(1, 10) { c.rng.uniform() } else { C::ScalarExt::ZERO },
        };
        let (s, p) = pool[if style == 3 { 0 } else if i < pool_n { i } else { c.rng.below(pool_n) }];
        coeffs.push(a);
        bases.push(p);
        want += a * s;
    }
    let want = g * want;
    per_pool(c, &[1, 2, 8], |c, t| {
        let got = ragu_arithmetic::mul(coeffs.iter(), bases.iter());
        ensure!(got == want, "multi-scalar multiplication of {len} terms (scalar style {style}, {t} threads) is wrong");
        c.seen(&(len, style, coeffs.first(), t));
        Ok(())
    })?;
    c.event("terms multiplied", len as u64);
    c.sample("msm", || format!("len={len} style={style} first scalar={:?}", coeffs.first()));
    Ok(())
}

fn a03(x: &Ctx) {
    x.rule("Lengths straddle every window-width threshold; scalars are random, special, constant, tiny, single-bit or sparse; bases have known discrete logarithms and include the identity, repeats and opposite points, so the expected sum is one scalar multiplication. Non-trivial: a new (length, style, first scalar, thread count).");
    x.assume("curve addition and scalar multiplication of the stand-in pasta_curves crate are correct");
    let mut lens: Vec<usize> = (0..70).collect();
    for t in [148usize, 149, 150, 255, 256, 257, 403, 404, 405, 1096, 1097, 1098, 2980, 2981, 2982, 4096, 8103, 8104, 8192, 22027, 59875] {
        lens.push(t);
    }
    if !x.quick() {
        lens.extend([22026, 22028, 59874, 59876, 65536, 162755]);
    }
    let nl = lens.len();
    x.cases("pallas", x.n(nl * 2, nl * 12), |c| msm_case::<EpAffine>(c, lens[c.idx % nl]));
    x.cases("vesta", x.n(nl, nl * 8), |c| msm_case::<EqAffine>(c, lens[c.idx % nl]));
    x.cases("naive", x.n(150, 2000), |c| {
        // fully independent naive sum on short random inputs
        let len = c.rng.below(20);
        let coeffs: Vec<Fq> = (0..len).map(|_| c.rng.field()).collect();
        let bases: Vec<EpAffine> = (0..len)
            .map(|_| if c.rng.chance(1, 8) { EpAffine::identity() } else { Ep::random(&mut c.rng).to_affine() })
            .collect();
        let mut want = Ep::identity();
        for (a, b) in coeffs.iter().zip(&bases) {
            want += *b * a;
        }
        let got = ragu_arithmetic::mul(coeffs.iter(), bases.iter());
        ensure!(got == want, "multi-scalar multiplication of {len} terms differs from the naive sum");
        c.seen(&format!("{:?}", coeffs));
        Ok(())
    });
    fn affine<C: CurveAffine, const N: usize>(c: &mut Case) -> Res {
        let mut p = [C::Curve::identity(); N];
        for p in p.iter_mut() {
            *p = match c.rng.below(5) {
                0 => C::Curve::identity(),
                1 => C::Curve::generator(),
                2 => {
                    let r: C::Scalar = c.rng.field();
                    C::Curve::generator() * r
                }
                _ => C::Curve::random(&mut c.rng).double(),
            };
        }
        let a: [C; N] = ragu_arithmetic::batch_to_affine::<C, N>(p);
        for (i, (p, a)) in p.iter().zip(a).enumerate() {
            ensure!(p.to_affine() == a && a.to_curve() == *p, "batch conversion to affine changed point {i} of {N}");
            ensure!(bool::from(a.is_identity()) == bool::from(p.is_identity()), "identity lost at {i} of {N}");
        }
        c.seen(&format!("{a:?}"));
        Ok(())
    }
    x.cases("affine", x.n(60, 1000), |c| {
        affine::<EpAffine, 0>(c)?;
        affine::<EpAffine, 1>(c)?;
        affine::<EqAffine, 2>(c)?;
        affine::<EqAffine, 3>(c)?;
        affine::<EpAffine, 7>(c)?;
        affine::<EqAffine, 16>(c)
    });
}

// ---------------------------------------------------------------- A04

fn a04(x: &Ctx) {
    x.rule("Random and special inputs of every length 0..70 (and larger powers of two and neighbours) compared with schoolbook definitions over small and Pasta fields. Non-trivial: a new (function, field, length, inputs).");
    fn helpers<F: PrimeField + std::hash::Hash>(c: &mut Case, name: &str) -> Res {
        let len = match c.rng.below(8) {
            0 => c.rng.below(4),
            1 => 1usize << c.rng.below(9),
            2 => (1usize << c.rng.range(1, 8)) + 1,
            _ => c.rng.below(70),
        };
        let v: Vec<F> = (0..len).map(|_| c.rng.field()).collect();
        let x: F = c.rng.field();
        // eval
        let want = naive_eval(&v, x);
        ensure!(ragu_arithmetic::eval(&v, x) == want, "{name}: evaluation of {len} coefficients at {x:?}");
        ensure!(ragu_arithmetic::eval(v.iter(), x) == want, "{name}: evaluation by iterator of {len} coefficients");
        c.seen(&(name, "eval", len, x, &v));
        // dot
        let u: Vec<F> = (0..len).map(|_| c.rng.field()).collect();
        let mut want = F::ZERO;
        for i in 0..len {
            want += v[i] * u[i];
        }
        ensure!(ragu_arithmetic::dot(&v, &u) == want, "{name}: inner product of {len} entries");
        let rev: F = ragu_arithmetic::dot(v.iter().rev(), u.iter().rev());
        ensure!(rev == want, "{name}: inner product through reversed iterators");
        if len > 0 {
            let l2 = c.rng.below(len);
            ensure!(catch(|| ragu_arithmetic::dot(&v, &u[..l2])).is_err(), "{name}: inner product of lengths {len} and {l2} accepted");
            ensure!(catch(|| ragu_arithmetic::dot(&v[..l2], &u)).is_err(), "{name}: inner product of lengths {l2} and {len} accepted");
        }
        c.seen(&(name, "dot", len, &u));
        // factor: q * (X - b) + r == a with r = a(b)
        if len >= 1 {
            let b: F = c.rng.field();
            let mut a = v.clone();
            if c.rng.bool() {
                // force b to be a root
                let r = naive_eval(&a, b);
                a[0] -= r;
            }
            let r = naive_eval(&a, b);
            let q = ragu_arithmetic::factor(a.iter().copied(), b);
            ensure!(q.len() == len - 1, "{name}: quotient of {len} coefficients has {}", q.len());
            let mut back = vec![F::ZERO; len];
            for (i, qi) in q.iter().enumerate() {
                back[i + 1] += *qi;
                back[i] -= b * qi;
            }
            back[0] += r;
            ensure!(back == a, "{name}: quotient by X - {b:?} of {len} coefficients is wrong");
            let mut it: Vec<F> = ragu_arithmetic::factor_iter(a.iter().copied(), b).collect();
            it.reverse();
            ensure!(it == q, "{name}: streaming quotient differs from the eager one");
            c.seen(&(name, "factor", len, b, &a));
        } else {
            ensure!(catch(|| ragu_arithmetic::factor(Vec::<F>::new(), x)).is_err(), "{name}: an empty dividend was accepted");
            ensure!(catch(|| ragu_arithmetic::factor_iter(Vec::<F>::new(), x).count()).is_err(), "{name}: an empty dividend was accepted by the streaming form");
        }
        // geosum
        let m = match c.rng.below(5) {
            0 => c.rng.below(5),
            1 => (1usize << c.rng.below(12)) - 1,
            2 => 1usize << c.rng.below(12),
            _ => c.rng.below(3000),
        };
        let r: F = match c.rng.below(6) {
            0 => F::ONE,
            1 => -F::ONE,
            2 => F::ZERO,
            3 => root::<F>(c.rng.below(F::S as usize + 1) as u32),
            _ => c.rng.field(),
        };
        let mut want = F::ZERO;
        let mut p = F::ONE;
        for _ in 0..m {
            want += p;
            p *= r;
        }
        ensure!(ragu_arithmetic::geosum(r, m) == want, "{name}: geometric sum of {m} terms with ratio {r:?}");
        c.seen(&(name, "geosum", r, m));
        // closed form for huge m
        if r != F::ONE {
            let m = (c.rng.u64() >> c.rng.below(60)) as usize;
            let want = (r.pow_vartime([m as u64]) - F::ONE) * (r - F::ONE).invert().unwrap();
            ensure!(ragu_arithmetic::geosum(r, m) == want, "{name}: geometric sum of {m} terms with ratio {r:?}");
        } else {
            let m = c.rng.u64() as usize;
            ensure!(ragu_arithmetic::geosum(r, m) == F::from(m as u64), "{name}: geometric sum of {m} ones");
        }
        Ok(())
    }
    fn roots<F: PrimeField + std::hash::Hash>(c: &mut Case, name: &str, max: usize) -> Res {
        let len = if c.idx <= max.min(80) { c.idx } else { c.rng.below(max + 1) };
        let style = c.rng.below(4);
        let k: F = c.rng.field();
        let rs: Vec<F> = (0..len)
            .map(|_| match style {
                0 => c.rng.uniform(),
                1 => c.rng.field(),
                2 => k,
                _ => F::ZERO,
            })
            .collect();
        let got = ragu_arithmetic::poly_with_roots(&rs);
        ensure!(got.len() == len + 1, "{name}: polynomial with {len} roots has {} coefficients", got.len());
        if len <= 300 {
            let mut want = vec![F::ONE];
            for r in &rs {
                let mut next = vec![F::ZERO; want.len() + 1];
                for (i, w) in want.iter().enumerate() {
                    next[i + 1] += *w;
                    next[i] -= *w * r;
                }
                want = next;
            }
            ensure!(got == want, "{name}: polynomial with {len} roots (style {style}) differs from the product");
        } else {
            for _ in 0..3 {
                let x: F = c.rng.uniform();
                let want = rs.iter().fold(F::ONE, |a, r| a * (x - r));
                ensure!(naive_eval(&got, x) == want, "{name}: polynomial with {len} roots (style {style}) is wrong");
            }
        }
        c.seen(&(name, "roots", len, &rs));
        c.sample("roots", || format!("{name}: {len} roots style {style}"));
        Ok(())
    }
    x.cases("fp", x.n(3000, 60000), |c| helpers::<Fp>(c, "Fp"));
    x.cases("fq", x.n(1500, 30000), |c| helpers::<Fq>(c, "Fq"));
    x.cases("small", x.n(6000, 100000), |c| {
        helpers::<F97>(c, "F97")?;
        helpers::<F257>(c, "F257")?;
        helpers::<F7>(c, "F7")
    });
    x.cases("roots-fp", x.n(300, 3000), |c| roots::<Fp>(c, "Fp", if c.idx % 50 == 49 { 1500 } else { 140 }));
    x.cases("roots-fq", x.n(150, 1500), |c| roots::<Fq>(c, "Fq", 140));
    x.cases("roots-small", x.n(400, 4000), |c| roots::<F257>(c, "F257", 200));
    x.cases("low-bits", x.n(200, 2000), |c| {
        let f: Fp = c.rng.field();
        let want = u64::from_le_bytes(f.to_repr()[..8].try_into().unwrap());
        ensure!(ragu_arithmetic::low_u64(&f) == want, "low 64 bits of {f:?}");
        let v = c.rng.u64();
        ensure!(ragu_arithmetic::low_u64(&Fq::from(v)) == v, "low 64 bits of {v}");
        ensure!(ragu_arithmetic::low_u64(&(Fp::from_u128((7u128 << 64) | v as u128))) == v, "low 64 bits of a wide value");
        c.seen(&v);
        Ok(())
    });
}

// ---------------------------------------------------------------- A05

fn variants<F: Field>(v: &[F]) -> Vec<(Coeff<F>, F)> {
    let mut o = vec![
        (Coeff::Zero, F::ZERO),
        (Coeff::One, F::ONE),
        (Coeff::Two, F::ONE + F::ONE),
        (Coeff::NegativeOne, -F::ONE),
    ];
    for x in v {
        o.push((Coeff::Arbitrary(*x), *x));
        o.push((Coeff::NegativeArbitrary(*x), -*x));
        o.push((Coeff::from(*x), *x));
    }
    o
}
fn a05(x: &Ctx) {
    x.rule("All ordered pairs of variants over complete small fields; random expression trees over Pasta and small fields tracked against their field value. Non-trivial: a new operand pair or expression.");
    fn pairs<F: PrimeField + std::hash::Hash>(c: &mut Case, name: &str, p: u64) -> Res {
        let all: Vec<F> = (0..p).map(F::from).collect();
        let vs = variants(&all);
        for (a, av) in &vs {
            ensure!(a.value() == *av, "{name}: value of {a:?}");
            ensure!(a.is_zero() == av.is_zero_vartime(), "{name}: zero flag of {a:?}");
            for (b, bv) in &vs {
                let s = *a + *b;
                ensure!(s.value() == *av + *bv, "{name}: {a:?} + {b:?} = {s:?}");
                ensure!(s.is_zero() == (*av + *bv).is_zero_vartime(), "{name}: zero flag of {a:?} + {b:?}");
                let m = *a * *b;
                ensure!(m.value() == *av * *bv, "{name}: {a:?} * {b:?} = {m:?}");
                ensure!(m.is_zero() == (*av * *bv).is_zero_vartime(), "{name}: zero flag of {a:?} * {b:?}");
                c.seen(&(name, format!("{a:?} {b:?}")));
            }
        }
        c.sample("pairs", || format!("{name}: {}^2 operand pairs, both operations", vs.len()));
        Ok(())
    }
    x.cases("pairs", 4, |c| match c.idx {
        0 => pairs::<F7>(c, "F7", 7),
        1 => pairs::<F13>(c, "F13", 13),
        2 => pairs::<F17>(c, "F17", 17),
        _ => pairs::<Sf<3, 2, 1>>(c, "F3", 3),
    });
    fn trees<F: PrimeField + std::hash::Hash>(c: &mut Case, name: &str) -> Res {
        let leaves: Vec<F> = (0..4).map(|_| c.rng.field()).collect();
        let mut pool = variants(&leaves);
        let mut trace = String::new();
        for _ in 0..40 {
            let (a, av) = *c.pick(&pool);
            let (b, bv) = *c.pick(&pool);
            let (r, rv) = if c.rng.bool() { (a + b, av + bv) } else { (a * b, av * bv) };
            if trace.len() < 200 {
                trace.push_str(&format!("{r:?} "));
            }
            ensure!(r.value() == rv, "{name}: {a:?} with {b:?} gave {r:?}, expected {rv:?}");
            ensure!(r.is_zero() == rv.is_zero_vartime(), "{name}: zero flag of {r:?}");
            pool.push((r, rv));
            c.eval();
        }
        c.seen(&trace);
        c.sample("tree", || format!("{name}: {trace}"));
        Ok(())
    }
    x.cases("trees", x.n(4000, 80000), |c| {
        trees::<Fp>(c, "Fp")?;
        trees::<Fq>(c, "Fq")?;
        trees::<F97>(c, "F97")
    });
}

// ---------------------------------------------------------------- A06

#[cfg(ragu_verif)]
fn a06(x: &Ctx) {
    use ragu_arithmetic::verif::WideUendo as U;
    use rand::RngExt;
    x.rule("Random operation programs on (integer, model) pairs where the model is a 136-entry bit vector; every shift amount 0..=300 on structured values; sampled values per bit. Non-trivial: a new (operation, operands) or model state.");
    const B: usize = 136;
    type M = [bool; B];
    fn show(m: &M) -> String {
        // same digits as the integer's debug rendering: 3 limbs of 16 digits
        let mut limbs = [0u64; 3];
        for (i, b) in m.iter().enumerate() {
            if *b {
                limbs[i / 64] |= 1 << (i % 64);
            }
        }
        format!("{:016x}{:016x}{:016x}", limbs[2], limbs[1], limbs[0])
    }
    fn digits(u: &U) -> String {
        // hexadecimal digits of the rendering, whatever surrounds them
        let s = format!("{u:?}");
        let s = s.split("0x").nth(1).unwrap_or(&s).to_string();
        s.chars().filter(|c| c.is_ascii_hexdigit()).collect()
    }
    fn same(u: &U, m: &M, what: &str) -> Res {
        let (a, b) = (digits(u), show(m));
        ensure!(
            a.trim_start_matches('0') == b.trim_start_matches('0'),
            "{what}: integer shows 0x{a}, expected 0x{b}"
        );
        Ok(())
    }
    /// Builds the integer from its model using only conversions, shifts and or;
    /// each piece is itself checked against the model.
    fn build(m: &M) -> Result<U, String> {
        let mut lo = 0u128;
        for i in 0..128 {
            if m[i] {
                lo |= 1 << i;
            }
        }
        let mut hi = 0u64;
        for i in 128..B {
            if m[i] {
                hi |= 1 << (i - 128);
            }
        }
        let u = (U::from(hi) << 128) | U::from(lo);
        same(&u, m, "construction from parts")?;
        Ok(u)
    }
    fn random_model(c: &mut Case) -> M {
        let style = c.rng.below(6);
        let k = c.rng.below(B);
        let k2 = c.rng.below(B);
        let mut m = [false; B];
        for (i, b) in m.iter_mut().enumerate() {
            *b = match style {
                0 => c.rng.bool(),
                1 => true,
                2 => i == k,
                3 => i >= k.min(k2) && i <= k.max(k2),
                4 => i % 2 == k % 2,
                _ => i != k,
            };
        }
        m
    }
    fn shl(m: &M, s: usize) -> M {
        let mut r = [false; B];
        for i in 0..B {
            if i >= s {
                r[i] = m[i - s];
            }
        }
        r
    }
    fn shr(m: &M, s: usize) -> M {
        let mut r = [false; B];
        for i in 0..B {
            if i.checked_add(s).is_some_and(|j| j < B) {
                r[i] = m[i + s];
            }
        }
        r
    }
    x.cases("constants", 1, |c| {
        ensure!(U::BITS as usize == B, "width is {}", U::BITS);
        same(&U::ZERO, &[false; B], "zero")?;
        let mut one = [false; B];
        one[0] = true;
        same(&U::ONE, &one, "one")?;
        same(&U::default(), &[false; B], "default")?;
        c.eval();
        Ok(())
    });
    x.cases("conversions", x.n(400, 5000), |c| {
        let v = c.rng.u128() >> c.rng.below(128);
        let mut m = [false; B];
        for (i, b) in m.iter_mut().enumerate().take(128) {
            *b = (v >> i) & 1 == 1;
        }
        same(&U::from(v), &m, "conversion from u128")?;
        let w = v as u64;
        let mut m = [false; B];
        for (i, b) in m.iter_mut().enumerate().take(64) {
            *b = (w >> i) & 1 == 1;
        }
        same(&U::from(w), &m, "conversion from u64")?;
        ensure!(U::from(w) == U::from(w as u128), "conversions of {w} differ");
        c.seen(&v);
        Ok(())
    });
    x.cases("shifts", x.n(80, 1500), |c| {
        let m = random_model(c);
        let u = build(&m)?;
        for s in (0..=300usize).chain([511, 512, 1024, 4096, 1 << 20, 1 << 32, (1 << 32) + 3, 1 << 40, usize::MAX - 64, usize::MAX - 1, usize::MAX]) {
            same(&(u << s), &shl(&m, s), &format!("0x{} << {s}", show(&m)))?;
            same(&(u >> s), &shr(&m, s), &format!("0x{} >> {s}", show(&m)))?;
            let mut w = u;
            w <<= s;
            ensure!(w == u << s, "shift-assign by {s} differs from shift");
            c.seen(&("shift", s, show(&m)));
        }
        Ok(())
    });
    x.cases("programs", x.n(3000, 60000), |c| {
        let mut pool: Vec<(U, M)> = vec![(U::ZERO, [false; B])];
        for _ in 0..4 {
            let m = random_model(c);
            pool.push((build(&m)?, m));
        }
        for _ in 0..30 {
            let (a, am) = *c.pick(&pool);
            let (b, bm) = *c.pick(&pool);
            let s = match c.rng.below(4) {
                0 => *c.pick(&[0usize, 1, 63, 64, 65, 71, 72, 127, 128, 129, 135, 136, 137, 192]),
                _ => c.rng.below(140),
            };
            let op = c.rng.below(6);
            let mut rm = am;
            let r = match op {
                0 => {
                    rm.iter_mut().zip(bm).for_each(|(x, y)| *x &= y);
                    a & b
                }
                1 => {
                    rm.iter_mut().zip(bm).for_each(|(x, y)| *x |= y);
                    a | b
                }
                2 => {
                    rm.iter_mut().zip(bm).for_each(|(x, y)| *x |= y);
                    let mut t = a;
                    t |= b;
                    t
                }
                3 => {
                    rm = shl(&am, s);
                    a << s
                }
                4 => {
                    rm = shr(&am, s);
                    a >> s
                }
                _ => {
                    rm = shl(&am, s);
                    let mut t = a;
                    t <<= s;
                    t
                }
            };
            same(&r, &rm, &format!("operation {op} (shift {s}) on 0x{} and 0x{}", show(&am), show(&bm)))?;
            ensure!((a == b) == (am == bm), "equality of 0x{} and 0x{}", show(&am), show(&bm));
            ensure!((a != b) == (am != bm), "inequality of 0x{} and 0x{}", show(&am), show(&bm));
            ensure!(r == build(&rm)?, "value equal to its model compares unequal");
            pool.push((r, rm));
            c.seen(&(op, s, show(&am), show(&bm)));
        }
        Ok(())
    });
    x.cases("near-equal", x.n(100, 1000), |c| {
        let m = random_model(c);
        let u = build(&m)?;
        for i in 0..B {
            let mut n = m;
            n[i] = !n[i];
            let v = build(&n)?;
            ensure!(u != v && !(u == v), "values differing only in bit {i} compare equal");
            c.seen(&("near", i, show(&m)));
        }
        Ok(())
    });
    x.cases("sampling", x.n(4, 40), |c| {
        let mut ones = [0usize; B];
        let n = 600;
        let mut seen = std::collections::HashSet::new();
        for _ in 0..n {
            let u: U = c.rng.random();
            let d = digits(&u);
            let t = d.trim_start_matches('0').to_string();
            ensure!(t.len() <= B / 4, "sampled value 0x{t} is wider than {B} bits");
            for (i, ch) in t.chars().rev().enumerate() {
                let v = ch.to_digit(16).unwrap();
                for k in 0..4 {
                    if (v >> k) & 1 == 1 {
                        ones[4 * i + k] += 1;
                    }
                }
            }
            seen.insert(t);
        }
        for (i, o) in ones.iter().enumerate() {
            ensure!(*o > n / 4 && *o < 3 * n / 4, "bit {i} set in {o} of {n} sampled values");
        }
        ensure!(seen.len() == n, "sampled values repeat: {} distinct of {n}", seen.len());
        c.seen(&seen.iter().next());
        Ok(())
    });
}
#[cfg(not(ragu_verif))]
fn a06(x: &Ctx) {
    x.inconclusive("built without the ragu_verif hook");
}

fn main() {
    // used only to silence unused warnings in one configuration
    let _ = Eq::identity();
    vh::main(&[("A01", a01), ("A02", a02), ("A03", a03), ("A04", a04), ("A05", a05), ("A06", a06)]);
}
