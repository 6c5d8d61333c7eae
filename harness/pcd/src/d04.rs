//! Registration histories, and steps an application does not know.
use crate::apps::*;
use crate::world::*;
use pasta_curves::Fp;
use ragu_core::{Error, Result as Rr};
use ragu_pasta::Pasta;
use ragu_pcd::{step::Step, verif};
use std::collections::BTreeMap;
use vh::{Case, Ctx, Res, VRng, catch, ensure};

type B = Build<4>;
struct Reg {
    name: &'static str,
    index: usize,
    /// Suffix and type of each header, output first.
    headers: Vec<(usize, &'static str)>,
    add: fn(B) -> Rr<B>,
    /// Whether running the step as a seed in this application yields
    /// something that verifies.
    seed: Option<fn(&App<4>, &mut VRng) -> Rr<bool>>,
}
fn seed_as<S: Modeled + Step<Pasta, Left = (), Right = ()>>(app: &App<4>, r: &mut VRng) -> Rr<bool> {
    let (w, _) = S::sample(r, &Val::Unit, &Val::Unit, false);
    let (pcd, _) = app.seed(&mut Odd::Good(VRng::new(r.u64())), S::default(), w)?;
    app.verify(&pcd, VRng::new(r.u64()))
}
macro_rules! regs {
    ($($kind:ident $s:ident<$($g:literal),*> [$($suf:literal $ty:literal),*]);* $(;)?) => {
        vec![$(Reg {
            name: concat!(stringify!($s), "<", $(stringify!($g), ",",)* ">"),
            index: [$($g),*][0],
            headers: vec![$(($suf, $ty)),*],
            add: |b| b.register($s::<$($g),*>),
            seed: regs!(@$kind $s<$($g),*>),
        }),*]
    };
    (@leaf $s:ident<$($g:literal),*>) => { Some(seed_as::<$s<$($g),*>>) };
    (@node $s:ident<$($g:literal),*>) => { None };
}
fn universe() -> Vec<Reg> {
    regs! {
        leaf Leaf<0, 0> [0 "Num"]; leaf Leaf<0, 1> [1 "Num"]; leaf Leaf<0, 2> [2 "Num"];
        leaf Leaf<1, 0> [0 "Num"]; leaf Leaf<1, 1> [1 "Num"]; leaf Leaf<1, 2> [2 "Num"];
        leaf Leaf<2, 0> [0 "Num"]; leaf Leaf<2, 1> [1 "Num"]; leaf Leaf<2, 2> [2 "Num"];
        leaf Leaf<3, 0> [0 "Num"]; leaf Leaf<3, 1> [1 "Num"];
        leaf Leaf<4, 1> [1 "Num"]; leaf Leaf<5, 1> [1 "Num"];
        leaf Spot<0, 0> [0 "Curve"]; leaf Spot<1, 0> [0 "Curve"]; leaf Spot<1, 1> [1 "Curve"]; leaf Spot<2, 2> [2 "Curve"]; leaf Spot<3, 2> [2 "Curve"];
        leaf Void<0, 1> [1 "Empty"]; leaf Void<1, 2> [2 "Empty"]; leaf Void<2, 3> [3 "Empty"]; leaf Void<3, 3> [3 "Empty"];
        leaf Wide<0, 0, 1> [0 "Arr1"]; leaf Wide<1, 0, 1> [0 "Arr1"]; leaf Wide<1, 0, 2> [0 "Arr2"]; leaf Wide<2, 4, 3> [4 "Arr3"]; leaf Wide<3, 4, 2> [4 "Arr2"]; leaf Wide<3, 4, 3> [4 "Arr3"];
        node Hash<0, 0, 0, 0> [0 "Num", 0 "Num", 0 "Num"]; node Hash<1, 0, 1, 2> [2 "Num", 0 "Num", 1 "Num"];
        node Hash<2, 0, 1, 2> [2 "Num", 0 "Num", 1 "Num"]; node Hash<2, 1, 1, 1> [1 "Num", 1 "Num", 1 "Num"]; node Hash<3, 0, 0, 5> [5 "Num", 0 "Num", 0 "Num"];
        node Mix<1, 0, 0, 3> [3 "Two", 0 "Num", 0 "Num"]; node Mix<2, 0, 0, 0> [0 "Two", 0 "Num", 0 "Num"]; node Mix<2, 0, 1, 3> [3 "Two", 0 "Num", 1 "Num"]; node Mix<3, 1, 1, 3> [3 "Two", 1 "Num", 1 "Num"];
        node Same<1, 0, 1, 1> [1 "Flag", 0 "Num", 1 "Num"]; node Same<2, 0, 0, 4> [4 "Flag", 0 "Num", 0 "Num"]; node Same<3, 0, 1, 6> [6 "Flag", 0 "Num", 1 "Num"];
        node Pick<3, 4, 3, 0> [0 "Num", 4 "Flag", 3 "Two"]; node Pick<4, 4, 3, 0> [0 "Num", 4 "Flag", 3 "Two"]; node Pick<4, 3, 3, 0> [0 "Num", 3 "Flag", 3 "Two"];
        node Gone<1, 0, 0> [0 "Num", 0 "Num"]; node Gone<4, 1, 1> [1 "Num", 1 "Num"]; node Back<2, 0, 1> [1 "Num", 0 "Num"]; node Back<5, 0, 0> [0 "Num", 0 "Num"];
        node Double<3, 2, 0, 2> [2 "Curve", 2 "Curve", 0 "Num"]; node Blank<4, 3, 2, 7> [7 "Empty", 3 "Two", 2 "Curve"]; node Start<5, 3, 3, 0> [0 "Num", 3 "Empty", 3 "Empty"]
    }
}
fn initialization(e: &Error) -> bool {
    matches!(e, Error::Initialization(_))
}
fn fits(u: &[Reg], seen: &BTreeMap<usize, &'static str>, count: usize, k: usize) -> bool {
    let mut m = seen.clone();
    u[k].index == count && u[k].headers.iter().all(|(s, t)| *m.entry(*s).or_insert(t) == *t)
}
fn history(c: &mut Case, u: &[Reg], finish: bool) -> Res {
    let mut b = B::new();
    let mut seen: BTreeMap<usize, &'static str> = BTreeMap::new();
    let mut done: Vec<usize> = vec![];
    let len = c.rng.below(6);
    let mut trace = vec![];
    while done.len() < len {
        let good: Vec<usize> = (0..u.len()).filter(|k| fits(u, &seen, done.len(), *k)).collect();
        let same: Vec<usize> = (0..u.len()).filter(|k| u[*k].index == done.len()).collect();
        let k = match c.rng.below(if finish { 20 } else { 6 }) {
            0 => c.rng.below(u.len()),
            1 if !same.is_empty() => *c.rng.pick(&same),
            _ if !good.is_empty() => *c.rng.pick(&good),
            _ => break,
        };
        let ok = fits(u, &seen, done.len(), k);
        trace.push(u[k].name);
        c.eval();
        match (u[k].add)(b) {
            Ok(n) => {
                ensure!(ok, "registration {trace:?} was accepted");
                b = n;
            }
            Err(e) => {
                ensure!(!ok, "registration {trace:?} was refused: {e:?}");
                ensure!(initialization(&e), "registration {trace:?} failed with {e:?}");
                c.event("refused registrations", 1);
                let why = if u[k].index != done.len() { "index" } else { "suffix" };
                c.event(&format!("refused for {why}"), 1);
                c.seen(&trace);
                return Ok(());
            }
        }
        c.event("accepted registrations", 1);
        seen.extend(u[k].headers.iter().cloned());
        done.push(k);
    }
    c.seen(&trace);
    c.sample("history", || format!("{trace:?}"));
    if !finish {
        return Ok(());
    }
    let app = b.finalize(Pasta::baked()).map_err(|e| format!("{trace:?}: {e:?}"))?;
    // every known leaf works; every other step does not
    for (k, r) in u.iter().enumerate() {
        let Some(seed) = r.seed else { continue };
        let known = done.contains(&k);
        // strangers with an index in range only sometimes
        if !known && r.index < done.len() && !c.rng.chance(1, 3) {
            continue;
        }
        // a step equal to the registered one in everything but the type of a
        // header with the same elements is the same circuit
        let twin = done.iter().any(|d| u[*d].index == r.index && same_circuit(&u[*d], r));
        let mut g = VRng::new(c.rng.u64());
        c.eval();
        match catch(|| seed(&app, &mut g)) {
            Ok(Ok(true)) => ensure!(known || twin, "{} was used with an application built from {trace:?}", r.name),
            Ok(Ok(false)) => {
                ensure!(!known, "{} does not work with {trace:?}", r.name);
                c.event("strangers that do not verify", 1);
            }
            Ok(Err(e)) => {
                ensure!(!known, "{} does not work with {trace:?}: {e:?}", r.name);
                if r.index >= done.len() {
                    ensure!(initialization(&e), "{} with {trace:?}: {e:?}", r.name);
                    c.event("unknown indices refused", 1);
                } else {
                    c.event("strangers refused", 1);
                }
            }
            // assertions on the shape of the trace are a refusal too
            Err(p) => {
                ensure!(!known && r.index < done.len(), "{} with an application built from {trace:?}: panic: {p}", r.name);
                c.event("strangers stopped by an assertion", 1);
            }
        }
        if known {
            c.event("known steps used", 1);
        }
    }
    Ok(())
}
/// Same step code up to header types that encode alike.
fn same_circuit(a: &Reg, b: &Reg) -> bool {
    let base = |r: &Reg| r.name.split('<').next().unwrap().to_string();
    base(a) == base(b) && a.headers == b.headers
}
/// An application is a function of its steps and their order.
fn identity(c: &mut Case) -> Res {
    let (a, b) = (two::<4>().unwrap(), two::<4>().unwrap());
    let run = |w: &World<4>, s: u64| (w.acts[0].go)(&w.app, &mut Odd::Good(VRng::new(s)), &mut VRng::new(s), &w.unit, &w.unit, false).got.map(|x| x.0).map_err(|e| format!("{e:?}"));
    let s = c.rng.u64();
    let (x, y) = (run(&a, s)?, run(&b, s)?);
    ensure!(prints(&x.proof) == prints(&y.proof), "two builds of the same application differ");
    c.eval();
    for _ in 0..20 {
        let (w, x, y): (Fp, Fp, Fp) = (c.rng.field(), c.rng.field(), c.rng.field());
        ensure!(verif::native_registry(&a.app).wxy(w, x, y) == verif::native_registry(&b.app).wxy(w, x, y), "registries of two builds");
        c.eval();
    }
    c.event("applications compared", 1);
    Ok(())
}
pub fn d04(x: &Ctx) {
    x.rule("Random registration sequences over 49 steps (every mixture of right, skipped and repeated indices, and of headers with clashing suffixes) are compared with a model of the valid orders; then every known leaf step must work with the finished application and every other step of the universe must be refused or produce nothing that verifies. Distinct: registration sequences.");
    let u = universe();
    x.cases("identity", 1, identity);
    x.cases("histories", x.n(400, 20_000), |c| history(c, &u, false));
    x.cases("applications", x.n(8, 300), |c| history(c, &u, true));
}
