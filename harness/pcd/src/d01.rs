//! Random derivation histories against a native model of every step.
use crate::apps::Val;
use crate::world::*;
use vh::{Case, Ctx, Res, VRng, ensure, ensure_eq};

fn history<const HS: usize>(c: &mut Case, w: &World<HS>, ops: usize) -> Res {
    let mut nodes: Vec<Node> = vec![];
    let mut used = vec![0; w.acts.len()];
    // rotate which steps come first
    for u in used.iter_mut() {
        *u = c.rng.below(2);
    }
    let mut trace = vec![];
    for k in 0..ops {
        if !nodes.is_empty() && c.rng.chance(1, 10) {
            let i = c.rng.below(nodes.len());
            if nodes[i].val.trivial() {
                continue;
            }
            let mut rng = Odd::sample(&mut c.rng);
            trace.push(format!("rerandomize {i} ({})", rng.name()));
            let n = (w.act_for(&nodes[i].val).rerand)(&w.app, &mut rng, &nodes[i]).map_err(|e| format!("{}: {trace:?}: {e:?}", w.name))?;
            ensure_eq!(n.val, nodes[i].val, "data after rerandomizing");
            check(c, w, &n, &nodes[i].val.clone(), &trace)?;
            c.event("rerandomizations", 1);
            nodes.push(n);
            continue;
        }
        let (a, i, j) = w.choose(&mut c.rng, &nodes, &mut used, k < 2);
        let at = |i: usize| if i < nodes.len() { &nodes[i] } else { &w.unit };
        let mut rng = Odd::sample(&mut c.rng);
        let name = format!("{} {i} {j} ({})", w.acts[a].name, rng.name());
        trace.push(name);
        let d = (w.acts[a].go)(&w.app, &mut rng, &mut c.rng, at(i), at(j), false);
        let Some((val, aux)) = d.want else {
            // the step refuses the witness, or no verifier accepts the result
            match d.got {
                Err(_) => c.event("refused", 1),
                Ok((n, _)) => {
                    let r = w.verify(&n.proof, &n.val, VRng::new(c.rng.u64()));
                    ensure!(!matches!(r, Ok(true)), "{}: {trace:?}: a proof of a violated step was accepted", w.name);
                    c.eval();
                    c.event("violating proofs refused", 1);
                }
            }
            continue;
        };
        let (n, got_aux) = d.got.map_err(|e| format!("{}: {trace:?}: {e:?}", w.name))?;
        ensure_eq!(n.val, val, "{}: {trace:?}: header data", w.name);
        ensure_eq!(got_aux, aux, "{}: {trace:?}: auxiliary data", w.name);
        let (l, r) = headers(&n.proof);
        ensure_eq!(Some(l), at(i).val.encoding(HS), "{}: {trace:?}: left header", w.name);
        ensure_eq!(Some(r), at(j).val.encoding(HS), "{}: {trace:?}: right header", w.name);
        check(c, w, &n, &val, &trace)?;
        c.event("fuses", 1);
        c.event(&format!("step {}", w.acts[a].name), 1);
        c.event(&format!("depth {}", n.depth.min(9)), 1);
        c.seen(&(w.name, HS, w.acts[a].name, n.depth, rng.name(), n.size));
        // keep the deepest and some of the rest
        if nodes.len() > 9 {
            let k = c.rng.below(nodes.len() - 3);
            nodes.remove(k);
        }
        nodes.push(n);
    }
    c.sample("history", || format!("{} HEADER_SIZE={HS}: {trace:?}", w.name));
    Ok(())
}
fn check<const HS: usize>(c: &mut Case, w: &World<HS>, n: &Node, val: &Val, trace: &[String]) -> Res {
    for _ in 0..1 + c.rng.below(2) {
        let r = w.verify(&n.proof, val, VRng::new(c.rng.u64()));
        ensure!(matches!(r, Ok(true)), "{} HEADER_SIZE={HS}: {trace:?}: honest proof gave {r:?}", w.name);
        c.eval();
    }
    Ok(())
}
pub fn d01(x: &Ctx) {
    x.rule("Random derivation trees of five applications (header sizes 1, 2, 4, 7 and 9; 1 to 20 steps; every header type) are built with ordinary, stuck and dying randomness; every proof must verify, carry the data, auxiliary output and child headers a native model computes. Distinct: application, step, depth, randomness, tree size.");
    let ops = x.n(8, 24);
    x.cases("histories", x.n(16, 1200), |c| match c.idx % 8 {
        0 | 3 | 6 => history(c, &rich::<4>().map_err(|e| format!("{e:?}"))?, ops),
        1 => history(c, &many::<3>().map_err(|e| format!("{e:?}"))?, ops),
        2 => history(c, &wide::<7>().map_err(|e| format!("{e:?}"))?, ops),
        4 => history(c, &wide::<9>().map_err(|e| format!("{e:?}"))?, ops),
        5 => history(c, &two::<2>().map_err(|e| format!("{e:?}"))?, ops),
        _ => history(c, &bare::<1>().map_err(|e| format!("{e:?}"))?, 3),
    });
}
