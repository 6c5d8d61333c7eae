//! Routine fingerprints against canonical routine structure.
use std::collections::HashMap;
use std::sync::Arc;

use circ::{
    Canon, Step,
    nets::{Co, Gen, I, List, Mix, Net, NetBody, Pred, SHAPES, Sub, Term},
};
use pasta_curves::{Fp, Fq};
use ragu_circuits::{RoutineFingerprint, verif};
use vh::{Case, Ctx, Res, VRng, ensure, ensure_eq};

use circ::util::Fld;

/// A change that keeps the number of wires; `None` when nothing applies.
fn mutate<F: Fld>(r: &mut VRng, s: &Sub<F>) -> Option<Sub<F>> {
    let mut b = s.body.clone();
    let mut shape = s.shape;
    let mut outs = s.outs.clone();
    let k = r.below(14);
    let pick = |r: &mut VRng, b: &[I<F>], f: fn(&I<F>) -> bool| -> Option<usize> {
        let v: Vec<usize> = (0..b.len()).filter(|i| f(&b[*i])).collect();
        if v.is_empty() { None } else { Some(v[r.below(v.len())]) }
    };
    match k {
        0..=2 => {
            let i = pick(r, &b, |i| matches!(i, I::Add(t) | I::Taut(t) if !t.is_empty()))?;
            if let I::Add(t) | I::Taut(t) = &mut b[i] {
                let j = r.below(t.len());
                t[j] = match t[j].clone() {
                    Term::W(i, c) => match r.below(3) {
                        0 => Term::W(i, Co::Any(c.val() + F::ONE)),
                        1 => Term::W(i.saturating_sub(1), c),
                        _ => Term::One(c),
                    },
                    Term::Cloned(i, c) => Term::W(i, Co::Any(c.val().double())),
                    Term::One(c) => Term::One(Co::Any(c.val() + F::ONE)),
                    Term::Gain(c) => Term::Gain(Co::Any(c.val() - F::ONE)),
                };
            }
        }
        3 => {
            let i = pick(r, &b, |i| matches!(i, I::Mul(x, y) if x != y))?;
            if let I::Mul(x, y) = b[i].clone() {
                b[i] = I::Mul(y, x);
            }
        }
        4 => {
            let at = r.below(b.len() + 1);
            b.insert(at, I::Empty);
        }
        5 => {
            let i = pick(r, &b, |i| matches!(i, I::Empty))?;
            b.remove(i);
        }
        6 => {
            // a constant becomes an allocation or the reverse
            let i = pick(r, &b, |i| matches!(i, I::Const(_) | I::AllocAux))?;
            b[i] = if matches!(b[i], I::AllocAux) { I::Const(Co::One) } else { I::AllocAux };
        }
        7 => {
            let i = pick(r, &b, |i| matches!(i, I::Call(..)))?;
            if let I::Call(s, v) = b[i].clone() {
                if r.bool() && !v.is_empty() {
                    let mut v = v;
                    v.rotate_left(1);
                    b[i] = I::Call(s, v);
                } else {
                    b[i] = I::Call(Arc::new(mutate(r, &s)?), v);
                }
            }
        }
        8 => {
            // an allocation pair becomes the two free wires of a gate
            let i = pick(r, &b, |i| matches!(i, I::GateAux(_)))?;
            b.splice(i..=i, [I::AllocAux, I::AllocAux, I::AllocAux, I::AllocAux]);
        }
        11 | 12 => {
            // wires of a nested routine become the caller's own
            let i = pick(r, &b, |i| matches!(i, I::Call(..)))?;
            if let I::Call(s, _) = b[i].clone() {
                b.splice(i..=i, (0..SHAPES[s.shape].1).map(|_| I::AllocAux));
            }
        }
        13 => b.push(I::AllocAux),
        9 => {
            // the same arity with other types
            shape = match shape {
                1 => 9,
                9 => 1,
                2 => 8,
                8 => 2,
                3 => 10,
                10 => 3,
                _ => return None,
            };
        }
        _ => {
            if outs.is_empty() {
                return None;
            }
            let j = r.below(outs.len());
            outs[j] = outs[r.below(outs.len())];
        }
    }
    Some(Sub { shape, pred: if r.bool() { Pred::Known } else { Pred::Unknown }, body: b, outs, delay: 0 })
}

/// A circuit calling the routines in some context.
fn host<F: Fld>(r: &mut VRng, subs: &[Arc<Sub<F>>]) -> NetBody<F> {
    let mut ops = vec![];
    let mut h = 0;
    for i in 0..1 + r.below(6) {
        ops.push(I::Alloc(i));
        h += 1;
    }
    for _ in 0..subs.len() + r.below(3) {
        let s = &subs[r.below(subs.len())];
        if r.chance(1, 3) {
            ops.push(I::Mul(r.below(h), r.below(h)));
            h += 3;
        }
        if r.chance(1, 4) {
            ops.push(I::Alloc(0));
            h += 1;
        }
        let ins = (0..SHAPES[s.shape].0).map(|_| r.below(h)).collect();
        let mut s = s.clone();
        if r.chance(1, 4) {
            // nest it
            let (i, o) = SHAPES[s.shape];
            let mut body = vec![];
            if r.bool() {
                body.push(I::AllocAux);
            }
            let at = i + body.len();
            body.push(I::Call(s.clone(), (0..i).collect()));
            s = Arc::new(Sub { shape: s.shape, pred: Pred::Unknown, body, outs: (at..at + o).collect(), delay: 0 });
        }
        h += SHAPES[s.shape].1;
        ops.push(I::Call(s, ins));
    }
    NetBody { ops, outs: vec![h - 1] }
}

type Exact<F> = (Canon<F>, Vec<Step>);

fn case<F: Fld>(c: &mut Case) -> Res {
    // a family of related routines
    let mut subs: Vec<Arc<Sub<F>>> = vec![];
    while subs.len() < 6 {
        let mix = Mix { len: 10, depth: 2, calls: 4, ..Mix::default() };
        let (p, _) = Gen::<F>::new(&mut c.rng, mix).net(1);
        for i in p.ops {
            if let I::Call(s, _) = i {
                subs.push(s);
            }
        }
    }
    for _ in 0..24 {
        let base = subs[c.rng.below(subs.len())].clone();
        if let Some(m) = mutate(&mut c.rng, &base) {
            subs.push(Arc::new(m));
        }
    }
    let mut by_exact: Vec<(Exact<F>, RoutineFingerprint)> = vec![];
    let mut by_fp: HashMap<RoutineFingerprint, Canon<F>> = HashMap::new();
    let mut exact_ix: HashMap<u64, Vec<usize>> = HashMap::new();
    let mut calls = 0;
    for _ in 0..14 {
        let k = 1 + c.rng.below(4);
        let chosen: Vec<_> = (0..k).map(|_| subs[c.rng.below(subs.len())].clone()).collect();
        let n = Net::<F, List<1>>::new(host(&mut c.rng, &chosen));
        let m = circ::isolated(&n).map_err(|e| format!("recording failed: {e}"))?;
        let q = verif::measure(&n).map_err(|e| format!("measuring failed: {e}"))?;
        ensure_eq!(q.segments.len(), m.segs.len(), "number of segments");
        for i in 1..m.segs.len() {
            let canon = m.canon(i);
            let steps = m.segs[i].steps.clone();
            let fp = q.segments[i].2.ok_or("routine segment without a fingerprint")?;
            calls += 1;
            c.seen(&(canon.gates, canon.cons.len(), steps.len(), fp));
            let h = vh::hash64(&(canon.gates, canon.cons.len(), &steps));
            let bucket = exact_ix.entry(h).or_default();
            for b in bucket.iter() {
                let (e, f) = &by_exact[*b];
                if e.0 == canon && e.1 == steps {
                    ensure!(*f == fp, "two invocations with the same structure got different fingerprints: {:?} and {:?}", f, fp);
                    c.event("equal structures, equal fingerprints", 1);
                }
            }
            if bucket.len() < 40 {
                bucket.push(by_exact.len());
                by_exact.push(((canon.clone(), steps), fp));
            }
            match by_fp.get(&fp) {
                Some(o) => ensure!(*o == canon, "different structures share fingerprint {:?}: {:?} and {:?}", fp, o, canon),
                None => {
                    by_fp.insert(fp, canon);
                }
            }
        }
        c.eval();
    }
    c.event("routine invocations fingerprinted", calls);
    c.event("distinct fingerprints", by_fp.len() as u64);
    // related but different structures really were present
    let v: Vec<_> = by_fp.values().collect();
    let near = v.iter().enumerate().flat_map(|(i, a)| v[i + 1..].iter().map(move |b| (a, b))).filter(|(a, b)| a.gates == b.gates && a.cons.len() == b.cons.len()).count();
    c.event("pairs differing only in coefficients, wires or types", near as u64);
    c.sample("family", || format!("{} routines, {calls} invocations, {} fingerprints", subs.len(), by_fp.len()));
    Ok(())
}

pub fn run(x: &Ctx) {
    x.rule("Families of routines and small mutations of them (a coefficient, a wire, an operand order, an extra empty constraint, another input type) are invoked in many circuits, contexts and nestings. Invocations whose recorded steps are identical must share a fingerprint; those whose gates, constraints or types differ must not.");
    x.assume("wires of a routine are renamed apart from its caller, as a routine cannot observe which caller wires coincide");
    x.cases("pasta Fp", x.n(40000, 600000), case::<Fp>);
    x.cases("pasta Fq", x.n(10000, 200000), case::<Fq>);
}
