use crate::p02::random;
use ff::{Field, PrimeField};
use prog::ops::{Mix, Op, Prog};
use prog::{Budget, Expect, St, attack, conform};
use vh::small::{F7, F13, F97, F257};
use vh::{Case, Ctx, Res};

fn b<F: Field>(x: bool) -> F {
    if x { F::ONE } else { F::ZERO }
}

/// An allocated Boolean pinned to anything but 0 or 1 must be refused by the constraints.
fn nonbit<F: PrimeField>(c: &mut Case, v: F, all: &Option<Vec<F>>) -> Res {
    for ops in [vec![Op::BAlloc], vec![Op::BAlloc, Op::BConsist(0)], vec![Op::BAlloc, Op::Not(0)], vec![Op::BAlloc, Op::BAlloc, Op::And(0, 1)]] {
        let p = Prog { ops };
        let st = if v == F::ZERO || v == F::ONE { St::Ok } else { St::Unsat };
        if st == St::Ok {
            continue;
        }
        c.seen(&format!("nonbit{v:?}{}", p.ops.len()));
        attack(c, &p, &Expect { ins: vec![v], outs: vec![], status: st }, all, Budget::default()).map_err(|e| format!("Boolean allocated as {v:?}: {e}"))?;
    }
    Ok(())
}

fn tables<F: PrimeField>(ctx: &Ctx, name: &str, all: Option<Vec<F>>) {
    let ops: Vec<Op<F>> = vec![
        Op::Not(0), Op::And(0, 1), Op::And(0, 0), Op::Sel(0, 0, 1), Op::Sel(1, 1, 0), Op::Sel(0, 0, 0), Op::CEq(0, 0, 1), Op::CEq(1, 0, 0), Op::BEl(0), Op::BEnfEq(0, 1), Op::Pack(vec![]), Op::Pack(vec![0]),
        Op::Pack(vec![0, 1]), Op::Pack(vec![1, 0]), Op::Pack(vec![0, 1, 0]), Op::Pack(vec![0, 0, 1, 1, 0]), Op::BConsist(0), Op::BRewire(0), Op::Sendable(0, 1), Op::Write(vec![0], vec![1, 0]),
    ];
    let pairs: Vec<(F, F)> = match &all {
        Some(a) if a.len() <= 13 => a.iter().flat_map(|x| a.iter().map(move |y| (*x, *y))).collect(),
        _ => {
            let mut r = vh::VRng::new(7);
            (0..24).map(|i| { let x: F = r.field(); (x, if i % 4 == 0 { x } else { r.field() }) }).collect()
        }
    };
    let (ops, pairs, all) = (&ops, &pairs, &all);
    ctx.cases(&format!("truth tables {name}"), ops.len() * 4, move |c| {
        let op = &ops[c.idx / 4];
        let (x, y) = (c.idx & 1 == 1, c.idx & 2 == 2);
        let uses_els = matches!(op, Op::Sel(..) | Op::CEq(..) | Op::Sendable(..) | Op::Write(..));
        for (u, v) in pairs.iter().take(if uses_els { pairs.len() } else { 1 }) {
            let p = Prog { ops: vec![Op::In, Op::In, Op::BAlloc, Op::BAlloc, op.clone()] };
            let w = [*u, *v, b(x), b(y)];
            let e = p.expect(&w);
            c.seen(&format!("{name}{op:?}{w:?}"));
            conform(c, &p, &w, &e).map_err(|m| format!("{op:?}: {m}"))?;
            attack(c, &p, &e, all, Budget { leaves: 200, tries: 3, ..Default::default() }).map_err(|m| format!("{op:?}: {m}"))?;
        }
        Ok(())
    });
}

/// Packing whole bit strings, including lengths around multiples of the capacity.
fn packing<F: PrimeField>(c: &mut Case) -> Res {
    let cap = F::CAPACITY as usize;
    let base = cap * c.rng.below(3);
    let n = (base + c.rng.below(5)).saturating_sub(2);
    let bits: Vec<F> = (0..n).map(|_| b(c.rng.bool())).collect();
    let mut ops: Vec<Op<F>> = bits.iter().map(|_| Op::BAlloc).collect();
    ops.push(Op::Pack((0..n).collect()));
    let p = Prog { ops };
    let e = p.expect(&bits);
    c.seen(&format!("{cap}{bits:?}"));
    c.event("bits packed", n as u64);
    conform(c, &p, &bits, &e)?;
    attack(c, &p, &e, &None, Budget { tries: 1, ..Default::default() })
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Truth tables of every Boolean operation (all pairs of select/compare operands on tiny fields), whole-string packing, allocated non-bits, and random programs; judged by a plain reference under every driver and by a hostile prover over the recorded constraints.");
    tables::<F7>(ctx, "F7", crate::all(7));
    tables::<F13>(ctx, "F13", crate::all(13));
    tables::<F97>(ctx, "F97", crate::all(97));
    tables::<pasta_curves::Fp>(ctx, "Fp", None);
    ctx.cases("non-bits F7", 7, |c| nonbit::<F7>(c, F7::from(c.idx as u64), &crate::all(7)));
    ctx.cases("non-bits F97", 97, |c| nonbit::<F97>(c, F97::from(c.idx as u64), &crate::all(97)));
    ctx.cases("non-bits Fp", ctx.n(360, 8000), |c| {
        let v = c.rng.field();
        nonbit::<pasta_curves::Fp>(c, v, &None)
    });
    ctx.cases("packing F97", ctx.n(360, 8000), packing::<F97>);
    ctx.cases("packing F257", ctx.n(360, 8000), packing::<F257>);
    ctx.cases("packing Fp", ctx.n(48, 800), packing::<pasta_curves::Fp>);
    let mix = Mix { els: 3, bools: 8, calls: 1, fail: 25 };
    ctx.cases("random programs F7", ctx.n(2400, 48000), |c| random::<F7>(c, (6, 18), &mix, true));
    ctx.cases("random programs F13", ctx.n(2400, 48000), |c| random::<F13>(c, (6, 20), &mix, true));
    ctx.cases("random programs F97", ctx.n(2400, 48000), |c| random::<F97>(c, (6, 24), &mix, true));
    ctx.cases("random programs Fp", ctx.n(2400, 48000), |c| random::<pasta_curves::Fp>(c, (6, 30), &mix, true));
}
