use ff::{Field, PrimeField};
use prog::ops::{Co, Mix, Op, Prog, gen_prog, rewitness, zero_over_zero};
use prog::{Budget, St, attack, conform, search, structure};
use rec::System;
use vh::small::{F7, F13, F97, F257};
use vh::{Case, Ctx, Res};

pub fn small_fields_all<F: PrimeField>() -> Option<Vec<F>> {
    // enumerable when the modulus is small
    let two = F::from(2);
    let mut x = two;
    let mut v = vec![F::ZERO, F::ONE];
    while x != F::ZERO && v.len() < 300 {
        v.push(x);
        x += F::ONE;
    }
    if v.len() < 300 { Some(v) } else { None }
}

pub fn random<F: PrimeField>(c: &mut Case, len: (usize, usize), mix: &Mix, attacks: bool) -> Res {
    let n = c.rng.range(len.0, len.1);
    let (p, w) = gen_prog::<F>(&mut c.rng, n, mix);
    let x = p.expect(&w);
    for o in &p.ops {
        c.event(&format!("op {}", o.name()), 1);
    }
    c.seen(&format!("{:?}{:?}", p.ops, w));
    c.sample("program", || format!("{} witness {:?} -> {:?}", p.ops.iter().map(|o| o.name()).collect::<Vec<_>>().join(" "), w, x.status));
    let tag = |e: String| format!("{e}; program {:?}", p.ops);
    conform(c, &p, &w, &x).map_err(tag)?;
    let all = small_fields_all::<F>();
    if attacks {
        let b = Budget { tries: 2, ..Default::default() };
        attack(c, &p, &x, &all, b).map_err(tag)?;
        control(c, &p, &w, &all);
    }
    // other witnesses of the same program
    for _ in 0..2 {
        let w2 = rewitness(&mut c.rng, &p);
        if zero_over_zero(&p, &w2) {
            continue;
        }
        let Some(q) = p.stopped(&w2) else { continue };
        let x2 = q.expect(&w2);
        c.seen(&format!("{:?}{:?}", q.ops, w2));
        conform(c, &q, &w2, &x2).map_err(tag)?;
        if attacks {
            attack(c, &q, &x2, &all, Budget { tries: 1, ..Default::default() }).map_err(tag)?;
        }
    }
    Ok(())
}

/// Sensitivity control: with one constraint removed the hostile prover should
/// often succeed. Recorded as evidence only.
fn control<F: PrimeField>(c: &mut Case, p: &Prog<F>, w: &[F], all: &Option<Vec<F>>) {
    let x = p.expect(w);
    if x.status != St::Ok || c.rng.below(4) != 0 {
        return;
    }
    let e = structure(p);
    let mut sys = System::of(&e.rec);
    if sys.zeros.is_empty() {
        return;
    }
    let k = c.rng.below(sys.zeros.len());
    sys.zeros.remove(k);
    let mut fixed: Vec<_> = e.ins.iter().zip(&x.ins).map(|(w, v)| prog::fix(&sys, w, *v)).collect();
    let mut hit = false;
    for (o, v) in e.outs.iter().zip(&x.outs) {
        let d: F = c.rng.nonzero();
        fixed.push(prog::fix(&sys, o, *v + d));
        let (s, _) = search(&sys, &fixed, c.rng.u64(), all, Budget::default(), &|_| true);
        fixed.pop();
        if s.is_some() {
            hit = true;
            break;
        }
    }
    c.event(if hit { "control: dropped constraint exploited" } else { "control: dropped constraint not exploited" }, 1);
}

/// One operation on fixed inputs, judged on every pair of field elements.
fn exhaustive<F: PrimeField>(ctx: &Ctx, name: &str, all: Vec<F>) {
    let s = F::from(3);
    let mut ops: Vec<Op<F>> = vec![
        Op::One, Op::Zero, Op::Const(s), Op::Mul(0, 1), Op::Mul(0, 0), Op::Sq(0), Op::Add(0, 1), Op::Sub(0, 1), Op::Dbl(0), Op::Neg(0), Op::Inv(0),
        Op::InvW(0, F::ZERO), Op::InvW(0, F::ONE), Op::Div(0, 1), Op::Div(1, 1), Op::IsZ(0), Op::IsEq(0, 1), Op::Fold(vec![], 0), Op::Fold(vec![0], 1), Op::Fold(vec![0, 1], 1),
        Op::Fold(vec![0, 1, 0], 1), Op::Sum(vec![]), Op::Sum(vec![0]), Op::Sum(vec![0, 1, 1]), Op::MAdd(vec![]), Op::MAdd(vec![(0, s), (1, -s), (0, F::ONE)]),
        Op::EnfZ(0), Op::EnfEq(0, 1), Op::Consist(0), Op::Rewire(0), Op::Write(vec![0, 1, 0], vec![]),
    ];
    for k in 0..4 {
        ops.push(Op::Root(0, k));
    }
    for k in [Co::Zero, Co::One, Co::Two, Co::Neg, Co::Arb(s), Co::NegArb(s)] {
        ops.push(Op::Scale(0, k.clone()));
        ops.push(Op::AddC(0, 1, k));
    }
    let p = all.len();
    let ops = &ops;
    let allr = &all;
    ctx.cases(&format!("each operation, every input pair, {name}"), ops.len() * p, move |c| {
        let op = &ops[c.idx / p];
        let a = allr[c.idx % p];
        for &b in allr {
            let kind = (c.idx + c.rng.below(2)) % 3;
            let first = match kind { 0 => vec![Op::In, Op::In], 1 => vec![Op::Alloc, Op::In], _ => vec![Op::In, Op::AllocSq] };
            let prog = Prog { ops: first.into_iter().chain([op.clone()]).collect() };
            let w = [a, b];
            if zero_over_zero(&prog, &w) {
                continue;
            }
            let x = prog.expect(&w);
            c.seen(&format!("{name}{op:?}{a:?}{b:?}"));
            conform(c, &prog, &w, &x).map_err(|e| format!("{op:?}: {e}"))?;
            attack(c, &prog, &x, &Some(allr.clone()), Budget { leaves: 200, ..Default::default() }).map_err(|e| format!("{op:?}: {e}"))?;
        }
        Ok(())
    });
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Each operation and random programs of them run under the recording driver (with and without witnesses), the simulator and three emulators; values, verdicts and event logs are compared with plain field arithmetic, then a hostile prover searches the recorded constraints, inputs fixed, for a different result (every wrong value on F7/F13/F17-sized fields).");
    ctx.assume("Division of zero by zero is documented as unconstrained and excluded.");
    exhaustive::<F7>(ctx, "F7", crate::all(7).unwrap());
    if !ctx.quick() {
        exhaustive::<F13>(ctx, "F13", crate::all(13).unwrap());
    }
    let mix = Mix { els: 10, bools: 1, calls: 1, fail: 25 };
    ctx.cases("random programs F7", ctx.n(2400, 48000), |c| random::<F7>(c, (6, 16), &mix, true));
    ctx.cases("random programs F13", ctx.n(2400, 48000), |c| random::<F13>(c, (6, 20), &mix, true));
    ctx.cases("random programs F97", ctx.n(2400, 48000), |c| random::<F97>(c, (6, 24), &mix, true));
    ctx.cases("random programs F257", ctx.n(1200, 24000), |c| random::<F257>(c, (6, 24), &mix, true));
    ctx.cases("random programs Fp", ctx.n(2400, 48000), |c| random::<pasta_curves::Fp>(c, (6, 30), &mix, true));
    ctx.cases("random programs Fq", ctx.n(600, 16000), |c| random::<pasta_curves::Fq>(c, (6, 30), &mix, true));
    ctx.cases("long programs Fp", ctx.n(120, 1200), |c| random::<pasta_curves::Fp>(c, (150, 400), &mix, false));
    roots(ctx);
}

/// Roots of unity of every order on Fp, near misses, and long exponents.
fn roots(ctx: &Ctx) {
    type F = pasta_curves::Fp;
    ctx.cases("roots of unity Fp", ctx.n(720, 6000), |c| {
        let k = c.rng.below(33) as u32;
        let mut w = F::ROOT_OF_UNITY;
        for _ in 0..(32 - c.rng.below(33)) {
            w = w.square();
        }
        if c.rng.below(4) == 0 {
            w = c.rng.field();
        }
        if c.rng.below(6) == 0 {
            w += F::ONE;
        }
        let k = if c.rng.below(12) == 0 { 1000 } else { k };
        let p = Prog { ops: vec![Op::In, Op::Root(0, k)] };
        let x = p.expect(&[w]);
        c.event(&format!("root check {:?}", x.status), 1);
        c.seen(&(format!("{w:?}"), k));
        conform(c, &p, &[w], &x)?;
        if x.status != St::Ok {
            attack(c, &p, &x, &None, Budget::default())?;
        }
        Ok(())
    });
}
