use ff::PrimeField;
use prog::ops::{Mix, Op, Pred, Prog, gen_prog, rewitness, zero_over_zero};
use prog::{conform, record, same_events, structure};
use rec::{Ev, W};
use std::collections::HashMap;
use std::sync::Arc;
use vh::small::{F7, F97};
use vh::{Case, Ctx, Res, ensure, ensure_eq};

/// Every witness of a program produces the same events.
fn witness_independent<F: PrimeField>(c: &mut Case) -> Res {
    let mix = Mix { els: 8, bools: 5, calls: 3, fail: 0 };
    let n = c.rng.range(8, 40);
    let (p, w) = gen_prog::<F>(&mut c.rng, n, &mix);
    let tag = |e: String| format!("{e}; program {:?}", p.ops);
    let x = p.expect(&w);
    conform(c, &p, &w, &x).map_err(tag)?;
    let base = structure(&p);
    c.event("events compared", base.rec.ev.len() as u64);
    c.sample("program", || format!("{} events, {} routines, depth {}: {:?}", base.rec.ev.len(), base.rec.routines, base.rec.max_depth, p.ops.iter().map(|o| o.name()).collect::<Vec<_>>()));
    for _ in 0..4 {
        let w2 = rewitness(&mut c.rng, &p);
        let s = record(&p, &w2);
        c.seen(&format!("{:?}{w2:?}", p.ops));
        // a refused witness stops early; what was emitted must still agree
        same_events(&s.rec.ev, &base.rec.ev, s.err.is_none()).map_err(|e| tag(format!("witness {w:?} vs {w2:?}: {e}")))?;
        if let Some(q) = p.stopped(&w2).filter(|_| !zero_over_zero(&p, &w2)) {
            let x2 = q.expect(&w2);
            conform(c, &q, &w2, &x2).map_err(tag)?;
        }
    }
    // twice in a row on fresh drivers
    let again = structure(&p);
    same_events(&again.rec.ev, &base.rec.ev, true)?;
    Ok(())
}

/// Body of the k-th routine span with wires named by first use.
fn body<F: PrimeField>(ev: &[Ev<F>], k: usize) -> Vec<Ev<F>> {
    let mut start = None;
    let mut seen = 0;
    let (mut g, mut l) = (0u32, 0u32);
    let mut depth = 0usize;
    let mut out = vec![];
    let mut map: HashMap<W, W> = HashMap::new();
    map.insert(W::One, W::One);
    let mut ext = 0u32;
    let (mut lg, mut ll) = (0u32, 0u32);
    let mut tr = |t: &[(W, F)], map: &mut HashMap<W, W>| -> Vec<(W, F)> {
        t.iter()
            .map(|(w, c)| {
                let x = *map.entry(*w).or_insert_with(|| {
                    ext += 1;
                    W::X(ext - 1)
                });
                (x, *c)
            })
            .collect()
    };
    for e in ev {
        let inside = start.is_some();
        match e {
            Ev::Enter => {
                if !inside && seen == k {
                    start = Some(depth);
                } else if inside {
                    out.push(Ev::Enter);
                }
                seen += 1;
                depth += 1;
            }
            Ev::Exit => {
                depth -= 1;
                if start == Some(depth) {
                    return out;
                }
                if inside {
                    out.push(Ev::Exit);
                }
            }
            Ev::Gate => {
                if inside {
                    for i in 0..4 {
                        map.insert(W::G(g, i), W::G(lg, i));
                    }
                    lg += 1;
                    out.push(Ev::Gate);
                }
                g += 1;
            }
            Ev::Add(t) => {
                if inside {
                    let t = tr(t, &mut map);
                    out.push(Ev::Add(t));
                    map.insert(W::L(l), W::L(ll));
                    ll += 1;
                }
                l += 1;
            }
            Ev::Zero(t) => {
                if inside {
                    let t = tr(t, &mut map);
                    out.push(Ev::Zero(t));
                }
            }
        }
    }
    out
}

/// The same block as a routine at different places, nested, repeated and with
/// or without prediction, against the block written inline.
fn routine_placement<F: PrimeField>(c: &mut Case) -> Res {
    let mix = Mix { els: 8, bools: 4, calls: 2, fail: 0 };
    // a block valid on generic inputs: retry until it accepts
    let (blk, w) = loop {
        let (p, w) = gen_prog::<F>(&mut c.rng, 16, &mix);
        let w = w.clone();
        if let Some(Op::Call(b, ..)) = p.ops.iter().find(|o| matches!(o, Op::Call(..))) {
            break (b.clone(), w);
        }
    };
    let pre = c.rng.below(4);
    let mk = |pred: Pred, shift: usize| -> Prog<F> {
        let mut ops = vec![Op::In, Op::In];
        for k in 0..shift {
            ops.push(if k % 2 == 0 { Op::Mul(0, 1) } else { Op::Add(0, 1) });
        }
        ops.push(Op::Call(blk.clone(), 0, 1, pred));
        Prog { ops }
    };
    let w2 = [w[0], w[1]];
    let a = structure(&mk(Pred::Unknown, 0));
    let reference = body(&a.rec.ev, 0);
    ensure!(a.rec.routines >= 1, "routine not observed");
    let mut variants: Vec<(String, Prog<F>, usize)> = vec![
        ("predicted".into(), mk(Pred::Known, 0), 0),
        (format!("after {} operations", pre + 1), mk(Pred::Unknown, pre + 1), 0),
        (format!("predicted after {} operations", pre + 2), mk(Pred::Known, pre + 2), 0),
    ];
    // twice in a row: second occurrence
    let mut twice = mk(Pred::Unknown, 0);
    twice.ops.push(Op::Call(blk.clone(), 0, 1, Pred::Known));
    let per = a.rec.routines;
    variants.push(("second invocation".into(), twice, per));
    // inside another routine
    let wrap = Arc::new(Prog { ops: vec![Op::Sq(0), Op::Call(blk.clone(), 0, 1, Pred::Unknown)] });
    let nested = Prog { ops: vec![Op::In, Op::In, Op::Call(wrap, 0, 1, Pred::Known)] };
    variants.push(("nested".into(), nested, 1));
    for (name, p, k) in variants {
        for with in [false, true] {
            let ev = if with {
                let s = record(&p, &w2);
                if s.err.is_some() {
                    continue;
                }
                s.rec.ev
            } else {
                structure(&p).rec.ev
            };
            let b = body(&ev, k);
            c.seen(&(format!("{:?}", blk.ops), name.clone(), with));
            c.event("routine bodies compared", 1);
            ensure_eq!(b.len(), reference.len(), "routine body length, {name}");
            same_events(&b, &reference, true).map_err(|e| format!("{name}: {e}; block {:?}", blk.ops))?;
        }
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    ctx.rule("Event logs (gates, linear wires with coefficients, constraints, routine boundaries) of random programs are compared across witness values, with and without witnesses, and with the counts of the simulator; routine bodies are compared across positions, nesting, repetition and prediction with wires renamed by first use.");
    ctx.cases("witness independence F7", ctx.n(2400, 32000), witness_independent::<F7>);
    ctx.cases("witness independence F97", ctx.n(2400, 32000), witness_independent::<F97>);
    ctx.cases("witness independence Fp", ctx.n(2400, 32000), witness_independent::<pasta_curves::Fp>);
    ctx.cases("routine placement F97", ctx.n(2400, 32000), routine_placement::<F97>);
    ctx.cases("routine placement Fp", ctx.n(2400, 32000), routine_placement::<pasta_curves::Fp>);
}
