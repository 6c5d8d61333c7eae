use ff::{Field, PrimeField, WithSmallOrderMulGroup};
use group::prime::PrimeCurveAffine;
use pasta_curves::arithmetic::CurveAffine;
use pasta_curves::{EpAffine, EqAffine, Fp, Fq};
use prog::{Budget, Expect, Feeder, Frag, Io, St, attack, conform};
use ragu_arithmetic::Uendo;
use ragu_core::Result;
use ragu_core::drivers::{Driver, DriverValue};
use ragu_core::maybe::Maybe;
use ragu_primitives::{Element, Endoscalar, GadgetExt, Point, extract_endoscalar, lift_endoscalar};
use std::collections::HashMap;
use std::sync::Mutex;
use vh::small::{F97, F193, F7681, F65537};
use vh::{Case, Ctx, Res, ensure, ensure_eq};

const N: usize = Uendo::BITS as usize;

fn bit(e: Uendo, i: usize) -> bool {
    (e >> i) & (1 as Uendo) == 1 as Uendo
}
fn fb<F: Field>(b: bool) -> F {
    if b { F::ONE } else { F::ZERO }
}
/// Algorithm 2 of [BGH19], written with explicit powers: 2^(N/2) * 2(zeta + 1) + sum 2^(N/2-1-i) * (+-1)(zeta^b).
fn model_lift<F: WithSmallOrderMulGroup<3>>(e: Uendo) -> F {
    let h = N / 2;
    let mut pow = vec![F::ONE];
    for i in 0..h {
        let p = pow[i];
        pow.push(p + p);
    }
    let mut s = (F::ZETA + F::ONE) * (F::ONE + F::ONE) * pow[h];
    for i in 0..h {
        let sign = if bit(e, 2 * i) { F::ZERO - F::ONE } else { F::ONE };
        let z = if bit(e, 2 * i + 1) { F::ZETA } else { F::ONE };
        s += pow[h - 1 - i] * sign * z;
    }
    s
}
/// Bit i says whether value + i is a square (zero included), by Euler's criterion.
fn model_extract<F: PrimeField>(v: F) -> Uendo {
    // (p-1)/2 from the repr of -1
    let mut exp = vec![];
    let r = (F::ZERO - F::ONE).to_repr();
    let b = r.as_ref();
    for i in 0..4 {
        let l = u64::from_le_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
        let hi = if i < 3 { u64::from_le_bytes(b[8 * i + 8..8 * i + 16].try_into().unwrap()) } else { 0 };
        exp.push(l >> 1 | hi << 63);
    }
    let mut out = 0 as Uendo;
    let mut x = v;
    for i in 0..N {
        let e = x.pow_vartime(&exp);
        if e == F::ONE || x.is_zero_vartime() {
            out |= (1 as Uendo) << i;
        }
        x += F::ONE;
    }
    out
}

fn challenge(c: &mut Case) -> Uendo {
    let r = c.rng.u128() as Uendo;
    match c.rng.below(10) {
        0 => 0,
        1 => Uendo::MAX,
        2 => (1 as Uendo) << c.rng.below(N),
        3 => !((1 as Uendo) << c.rng.below(N)),
        4 => (Uendo::MAX / 3) << c.rng.below(2),
        5 => r >> c.rng.below(N),
        6 => r << c.rng.below(N),
        _ => r,
    }
}

#[derive(Clone, Copy, Debug)]
enum What {
    Bits,
    Lift,
}
struct Bits<'a> {
    e: &'a Uendo,
    what: What,
}
impl<F: PrimeField + WithSmallOrderMulGroup<3>> Frag<F> for Bits<'_> {
    fn run<'dr, D: Driver<'dr, F = F>, I: Feeder<'dr, D>>(&self, dr: &mut D, _: &mut I, io: &mut Io<'dr, D>, _: DriverValue<D, Vec<F>>) -> Result<()> {
        let e = *self.e;
        let g = Endoscalar::alloc(dr, D::just(|| e))?;
        let bs: Vec<_> = g.bits().collect();
        assert_eq!(bs.len(), N, "number of bits");
        io.ins.extend(bs.iter().map(|b| b.element()));
        match self.what {
            What::Bits => {
                // a second pass and the clone give the same bits
                io.outs.extend(g.clone().bits().map(|b| b.element()));
            }
            What::Lift => {
                let l = g.lift(dr)?;
                io.outs.push(l);
            }
        }
        Ok(())
    }
}
struct Scale<C: CurveAffine> {
    e: Uendo,
    p: C,
}
impl<C: CurveAffine> Frag<C::Base> for Scale<C> {
    fn run<'dr, D: Driver<'dr, F = C::Base>, I: Feeder<'dr, D>>(&self, dr: &mut D, _: &mut I, io: &mut Io<'dr, D>, _: DriverValue<D, Vec<C::Base>>) -> Result<()> {
        let (e, p) = (self.e, self.p);
        let g = Endoscalar::alloc(dr, D::just(|| e))?;
        io.ins.extend(g.bits().map(|b| b.element()));
        let p = Point::alloc(dr, D::just(|| p))?;
        p.write(dr, &mut io.ins)?;
        let q = g.group_scale(dr, &p)?;
        q.write(dr, &mut io.outs)
    }
}
struct Extract<F> {
    v: F,
}
impl<F: PrimeField + WithSmallOrderMulGroup<3>> Frag<F> for Extract<F> {
    fn run<'dr, D: Driver<'dr, F = F>, I: Feeder<'dr, D>>(&self, dr: &mut D, feed: &mut I, io: &mut Io<'dr, D>, _: DriverValue<D, Vec<F>>) -> Result<()> {
        let v = self.v;
        let e = feed.input(dr, D::just(|| v))?;
        io.ins.push(e.clone());
        let g = Endoscalar::extract(dr, e)?;
        io.outs.extend(g.bits().map(|b| b.element()));
        let l = g.lift(dr)?;
        io.outs.push(l);
        Ok(())
    }
}

fn bits_lift<F: PrimeField + WithSmallOrderMulGroup<3>>(c: &mut Case, atk: bool) -> Res {
    let e = challenge(c);
    c.seen(&(F::MODULUS, e));
    let native: F = lift_endoscalar(e);
    let model = model_lift::<F>(e);
    ensure_eq!(native, model, "native lift of {e:#x}");
    let ins: Vec<F> = (0..N).map(|i| fb(bit(e, i))).collect();
    let x = Expect { ins: ins.clone(), outs: ins.clone(), status: St::Ok };
    conform(c, &Bits { e: &e, what: What::Bits }, &[], &x).map_err(|m| format!("bits of {e:#x}: {m}"))?;
    let x = Expect { ins, outs: vec![model], status: St::Ok };
    conform(c, &Bits { e: &e, what: What::Lift }, &[], &x).map_err(|m| format!("lift of {e:#x}: {m}"))?;
    if atk {
        attack(c, &Bits { e: &e, what: What::Lift }, &x, &None, Budget { tries: 1, steps: 200_000, ..Default::default() })?;
        // a pinned non-bit has no witness
        let mut y = x.clone();
        let k = c.rng.below(N);
        y.ins[k] = F::from(2) + c.rng.field::<F>().square();
        if y.ins[k] != F::ZERO && y.ins[k] != F::ONE {
            y.status = St::Unsat;
            attack(c, &Bits { e: &e, what: What::Bits }, &y, &None, Budget { tries: 1, ..Default::default() }).map_err(|m| format!("bit {k} is not a bit: {m}"))?;
        }
    }
    Ok(())
}

fn scale<C: CurveAffine>(c: &mut Case, atk: bool) -> Res {
    let e = challenge(c);
    let k: <C as CurveAffine>::ScalarExt = c.rng.nonzero();
    let p: C = (C::generator() * k).into();
    c.seen(&format!("{e}{k:?}"));
    let s = model_lift::<<C as CurveAffine>::ScalarExt>(e);
    ensure_eq!(lift_endoscalar::<<C as CurveAffine>::ScalarExt>(e), s, "native lift of {e:#x}");
    let q: C = (p * s).into();
    let co = p.coordinates().unwrap();
    let mut ins: Vec<C::Base> = (0..N).map(|i| fb(bit(e, i))).collect();
    ins.extend([*co.x(), *co.y()]);
    let co = q.coordinates().unwrap();
    let x = Expect { ins, outs: vec![*co.x(), *co.y()], status: St::Ok };
    let g = Scale { e, p };
    conform(c, &g, &[], &x).map_err(|m| format!("{e:#x} times [{k:?}]G: {m}"))?;
    if atk {
        attack(c, &g, &x, &None, Budget { tries: 1, steps: 400_000, ..Default::default() }).map_err(|m| format!("{e:#x} times [{k:?}]G: {m}"))?;
    }
    Ok(())
}

fn extract<F: PrimeField + WithSmallOrderMulGroup<3>>(c: &mut Case, v: F, atk: bool) -> Res {
    c.seen(&(F::MODULUS, format!("{v:?}")));
    let m = model_extract(v);
    let n = extract_endoscalar(v);
    ensure_eq!(n, m, "native extraction from {v:?}");
    ensure_eq!(extract_endoscalar(v), n, "extraction from {v:?} repeated");
    let bits: Vec<F> = (0..N).map(|i| fb(bit(m, i))).collect();
    let mut outs = bits.clone();
    outs.push(model_lift::<F>(m));
    let x = Expect { ins: vec![v], outs, status: St::Ok };
    let g = Extract { v };
    conform(c, &g, &[], &x).map_err(|e| format!("extraction from {v:?}: {e}"))?;
    if atk {
        // flip bits one at a time (every result is a bit or depends on them only)
        let e = prog::structure(&g);
        let sys = rec::System::of(&e.rec);
        let mut ambiguous = vec![];
        let mut t = v;
        for i in 0..N {
            if t.is_zero_vartime() {
                ambiguous.push(i);
            }
            t += F::ONE;
        }
        for _ in 0..3 {
            let i = c.rng.below(N);
            if ambiguous.contains(&i) {
                continue;
            }
            let wrong = if c.rng.below(3) == 0 { c.rng.field::<F>() } else { F::ONE - bits[i] };
            if wrong == bits[i] {
                continue;
            }
            let fixed = vec![prog::fix(&sys, &e.ins[0], v), prog::fix(&sys, &e.outs[i], wrong)];
            let (s, cut) = prog::search(&sys, &fixed, c.rng.u64(), &None, Budget { leaves: 20, steps: 100_000, tries: 1 }, &|_| true);
            c.event(if cut { "attack cut short" } else { "attack exhausted" }, 1);
            if s.is_some() {
                return Err(format!("extraction from {v:?} accepts {wrong:?} for bit {i} instead of {:?}", bits[i]));
            }
        }
    }
    Ok(())
}

/// Values around the points where the residue test meets zero.
fn near<F: PrimeField>(c: &mut Case) -> F {
    match c.rng.below(5) {
        0 => F::ZERO - F::from(c.rng.below(140) as u64),
        1 => F::from(c.rng.below(140) as u64),
        2 => c.rng.field(),
        _ => c.rng.uniform(),
    }
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Random and patterned challenges: bits, lift and group scaling in-circuit against a power-sum model, curve scalar multiplication and the native functions, under every driver; extraction against Euler's criterion; lifts of sampled challenges kept in a table to observe collisions; a hostile prover looks for other results.");
    ctx.assume("A value v with v + i = 0 leaves bit i free to a dishonest prover (zero is a square either way); those bits are judged for honest provers only.");
    ctx.cases("bits and lift Fp", ctx.n(320, 16000), |c| bits_lift::<Fp>(c, c.idx % 8 == 0));
    ctx.cases("bits and lift Fq", ctx.n(320, 16000), |c| bits_lift::<Fq>(c, c.idx % 8 == 0));
    ctx.cases("bits and lift F97", ctx.n(160, 8000), |c| bits_lift::<F97>(c, false));
    ctx.cases("group scaling Pallas", ctx.n(120, 6000), |c| scale::<EpAffine>(c, c.idx % 12 == 0));
    ctx.cases("group scaling Vesta", ctx.n(120, 6000), |c| scale::<EqAffine>(c, c.idx % 12 == 0));
    ctx.cases("extraction Fp", ctx.n(120, 6000), |c| {
        let v = near(c);
        extract::<Fp>(c, v, c.idx % 6 == 0)
    });
    ctx.cases("extraction Fq", ctx.n(120, 6000), |c| {
        let v = near(c);
        extract::<Fq>(c, v, c.idx % 6 == 0)
    });
    ctx.cases("extraction F193, every value", 193, |c| extract::<F193>(c, F193::from(c.idx as u64), c.idx % 16 == 0));
    ctx.cases("extraction F7681", ctx.n(200, 30724), |c| {
        let v = near(c);
        extract::<F7681>(c, v, c.idx % 16 == 0)
    });
    ctx.cases("extraction F65537", ctx.n(200, 12000), |c| {
        let v = near(c);
        extract::<F65537>(c, v, c.idx % 16 == 0)
    });
    // injectivity on sampled challenges
    let seen: Mutex<HashMap<[u8; 32], Uendo>> = Mutex::new(HashMap::new());
    let seen_q: Mutex<HashMap<[u8; 32], Uendo>> = Mutex::new(HashMap::new());
    ctx.cases("distinct challenges, distinct lifts", ctx.n(400, 16000), |c| {
        let base = challenge(c);
        for k in 0..64usize {
            // neighbours that swap adjacent digit pairs, negate digits or differ in few bits
            let e = match k % 4 {
                0 => base ^ ((1 as Uendo) << c.rng.below(N)),
                1 => base ^ ((3 as Uendo) << (2 * c.rng.below(N / 2))),
                2 => base ^ ((0xf as Uendo) << (2 * c.rng.below(N / 2 - 1))),
                _ => challenge(c),
            };
            let l: Fp = lift_endoscalar(e);
            let o = *seen.lock().unwrap().entry(l.to_repr()).or_insert(e);
            ensure!(o == e, "challenges {o:#x} and {e:#x} lift to the same element of Fp");
            let l: Fq = lift_endoscalar(e);
            let o = *seen_q.lock().unwrap().entry(l.to_repr()).or_insert(e);
            ensure!(o == e, "challenges {o:#x} and {e:#x} lift to the same element of Fq");
            c.seen(&e);
        }
        Ok(())
    });
    ctx.count("distinct lifts held", seen.lock().unwrap().len() as u64);
    let _ = EpAffine::generator();
}
