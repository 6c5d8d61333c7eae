//! Corrupted proofs, false claims and foreign proofs never verify.
use crate::apps::{Hv, Val};
use crate::corrupt::*;
use crate::world::*;
use vh::{Case, Ctx, Res, VRng, catch, ensure};

pub type Made = (Node, usize, usize, usize);
/// A few honest nodes, with how each was made.
pub fn grow<const HS: usize>(c: &mut Case, w: &World<HS>, ops: usize) -> Result<Vec<Made>, String> {
    let mut nodes: Vec<Node> = vec![];
    let mut how = vec![];
    let mut used: Vec<usize> = w.acts.iter().map(|_| c.rng.below(3)).collect();
    while nodes.len() < ops {
        let (a, i, j) = w.choose(&mut c.rng, &nodes, &mut used, nodes.len() < 2);
        let at = |i: usize| if i < nodes.len() { &nodes[i] } else { &w.unit };
        let d = (w.acts[a].go)(&w.app, &mut Odd::Good(VRng::new(c.rng.u64())), &mut c.rng, at(i), at(j), false);
        if d.want.is_none() {
            continue;
        }
        let (n, _) = d.got.map_err(|e| format!("honest fuse: {e:?}"))?;
        how.push((a, if i < nodes.len() { i } else { usize::MAX }, if j < nodes.len() { j } else { usize::MAX }));
        nodes.push(n);
    }
    Ok(nodes.into_iter().zip(how).map(|(n, (a, i, j))| (n, a, i, j)).collect())
}
/// The verdict on a proof that must not be accepted.
fn reject(c: &mut Case, what: &str, f: impl FnOnce() -> ragu_core::Result<bool>) -> Res {
    c.eval();
    match catch(f) {
        Ok(Ok(true)) => Err(format!("verification accepted: {what}")),
        Ok(Ok(false)) => {
            c.event("rejections", 1);
            Ok(())
        }
        Ok(Err(_)) => {
            c.event("errors", 1);
            Ok(())
        }
        Err(p) => Err(format!("verification panicked ({p}): {what}")),
    }
}
fn wrong_claims<const HS: usize>(c: &mut Case, w: &World<HS>, t: &Node) -> Res {
    fn as_header<H: Hv, const HS: usize>(c: &mut Case, w: &World<HS>, t: &Node) -> Res {
        let d = H::sample(&mut c.rng);
        let v = H::val(&d);
        if v.encoding(HS) == t.val.encoding(HS) {
            return Ok(());
        }
        c.event("wrong headers", 1);
        reject(c, &format!("{:?} claimed as {v:?}", t.val), || w.app.verify::<_, H>(&t.proof.clone().carry(d), VRng::new(7)))
    }
    use crate::apps::*;
    macro_rules! all { ($($h:ty),*) => { $(as_header::<$h, HS>(c, w, t)?;)* } }
    all!((), Num<0>, Num<1>, Num<3>, Num<5>, Two<0>, Two<1>, Two<3>, Flag<0>, Flag<2>, Curve<0>, Curve<3>, Empty<0>, Empty<4>, Empty<1>, Arr<7, 6>, Arr<0, 1>, Arr<0, 2>, Arr<3, 9>);
    // nearby data
    for _ in 0..4 {
        let v = match &t.val {
            Val::Num(s, a) => Val::Num(*s, *a + c.rng.nonzero::<pasta_curves::Fp>()),
            Val::Two(s, a, b) => match c.rng.below(3) {
                0 => Val::Two(*s, *b, *a),
                1 => Val::Two(*s, *a, *b + c.rng.nonzero::<pasta_curves::Fp>()),
                _ => Val::Two(*s, *a + c.rng.nonzero::<pasta_curves::Fp>(), *b),
            },
            Val::Flag(s, b) => Val::Flag(*s, !*b),
            Val::Curve(s, _) => Val::Curve(*s, crate::apps::point(&mut c.rng)),
            Val::Arr(s, v) => {
                let mut v = v.clone();
                let k = c.rng.below(v.len());
                v[k] += c.rng.nonzero::<pasta_curves::Fp>();
                Val::Arr(*s, v)
            }
            _ => continue,
        };
        if v == t.val {
            continue;
        }
        c.event("wrong data", 1);
        reject(c, &format!("{:?} claimed as {v:?}", t.val), || w.verify(&t.proof, &v, VRng::new(c_seed(&v))))?;
    }
    // the same number under every other suffix of the universe
    Ok(())
}
fn c_seed(v: &Val) -> u64 {
    vh::hash64(&format!("{v:?}"))
}
fn attack<const HS: usize>(c: &mut Case, w: World<HS>, per: usize) -> Res {
    let made = grow(c, &w, 4)?;
    let (mut t, a, i, j) = made[c.rng.range(1, made.len() - 1)].clone();
    let at = |i: usize| if i == usize::MAX { &w.unit } else { &made[i].0 };
    // the same step again
    let d = (w.acts[a].go)(&w.app, &mut Odd::Good(VRng::new(c.rng.u64())), &mut c.rng, at(i), at(j), false);
    let mut other = match d.got {
        Ok((n, _)) => n,
        Err(_) => made[0].0.clone(),
    };
    if !t.val.trivial() && c.rng.chance(1, 3) {
        t = (w.acts[a].rerand)(&w.app, &mut Odd::Good(VRng::new(c.rng.u64())), &t).map_err(|e| format!("{e:?}"))?;
        if c.rng.bool() {
            other = (w.act_for(&other.val).rerand)(&w.app, &mut Odd::Good(VRng::new(c.rng.u64())), &other).map_err(|e| format!("{e:?}"))?;
        }
        c.event("rerandomized targets", 1);
    }
    ensure!(matches!(w.verify(&t.proof, &t.val, VRng::new(1)), Ok(true)), "honest target");
    let second = made[c.rng.below(made.len())].0.clone();

    wrong_claims(c, &w, &t)?;

    let names = names();
    let mut todo = vec![];
    for s in 0..names.len() {
        for k in 0..KINDS {
            // vector components of a nested witness get one kind each
            let own = class(&names[s]);
            let stage = names[s].ends_with(".bridge.rx") && matches!(k, 3 | 5);
            if matches!(own, Class::Both | Class::Own) || stage {
                todo.push((s, k));
            }
        }
    }
    c.event("component corruptions known", todo.len() as u64);
    // every case starts somewhere else
    let start = c.rng.below(todo.len());
    let stride = 61;
    for q in 0..per.min(todo.len()) {
        let (s, k) = todo[(start + q * stride) % todo.len()];
        let mut p = t.proof.clone();
        let o = if c.rng.bool() { &other } else { &second };
        // another trace of the same claim proves the same
        if k == 8 && names[s] == "application.rx" && o.val.encoding(HS) == t.val.encoding(HS) && headers(&o.proof) == headers(&t.proof) {
            continue;
        }
        let Some(what) = corrupt(&mut p, &o.proof, s, k, &mut c.rng) else { continue };
        if matches!(names[s].as_str(), "ab.a_poly" | "ab.b_poly") && still_claims(&p) {
            c.event("equivalent claims", 1);
            continue;
        }
        // sometimes a second corruption, anywhere
        let mut what = what;
        if c.rng.chance(1, 5) {
            let s2 = c.rng.below(names.len());
            if s2 != s {
                let k2 = c.rng.below(KINDS);
                if let Some(x) = corrupt(&mut p, &o.proof, s2, k2, &mut c.rng) {
                    // two changed scalars or polynomials can agree only by design
                    what += &format!(" + {x}");
                    c.event("double corruptions", 1);
                }
            }
        }
        let seed = c.rng.u64();
        // what is no proof at all is invalid, not an error
        if names[s].ends_with("_header") && (3..=5).contains(&k) {
            let r = catch(|| w.verify(&p, &t.val, VRng::new(seed)));
            ensure!(matches!(r, Ok(Ok(false))), "{}: headers of the wrong length: {r:?}", w.name);
            c.event("malformed proofs", 1);
        }
        reject(c, &format!("{} {:?} ({})", w.name, t.val, what), || w.verify(&p, &t.val, VRng::new(seed)))?;
        c.event("corruptions", 1);
        c.event(&format!("corrupted {}", names[s].split('.').next().unwrap()), 1);
        c.seen(&(w.name, s, k));
        c.sample("corruption", || what.chars().take(120).collect());
    }
    // parts of witnesses where they do not belong
    let masks = Masks::new(&w, &mut c.rng);
    for q in 0..per / 2 {
        let mut p = t.proof.clone();
        let k = q % MISPLACED;
        let Some((what, _)) = misplace(&mut p, &masks, k, &mut c.rng) else { continue };
        let seed = c.rng.u64();
        reject(c, &format!("{} {:?} ({what})", w.name, t.val), || w.verify(&p, &t.val, VRng::new(seed)))?;
        c.event("misplaced wires", 1);
        c.seen(&(w.name, "misplaced", k, what.split(' ').next().unwrap_or("")));
    }
    // whole sections from elsewhere
    for g in GRAFTS {
        for o in [&other, &second] {
            let mut p = t.proof.clone();
            if !graft(&mut p, &o.proof, g) {
                continue;
            }
            if g[0].starts_with("application") && o.val.encoding(HS) == t.val.encoding(HS) && headers(&o.proof) == headers(&t.proof) {
                continue;
            }
            let seed = c.rng.u64();
            reject(c, &format!("{} {:?} with {g:?} of {:?}", w.name, t.val, o.val), || w.verify(&p, &t.val, VRng::new(seed)))?;
            c.event("grafts", 1);
            c.seen(&(w.name, g[0], g.len()));
        }
    }
    Ok(())
}
fn foreign(c: &mut Case) -> Res {
    let (w, x, y, o) = (two::<4>(), two_more::<4>(), rich::<4>(), one::<4>());
    let (w, x, y, o) = (w.unwrap(), x.unwrap(), y.unwrap(), o.unwrap());
    let w2 = two::<4>().unwrap();
    let wide = two::<5>().unwrap();
    let made = grow(c, &w, 3)?;
    for (n, ..) in &made {
        let seed = c.rng.u64();
        // another build of the same application is the same application
        ensure!(matches!(w2.verify(&n.proof, &n.val, VRng::new(seed)), Ok(true)), "a second build of an application refused its proof");
        c.event("same application", 1);
        use crate::apps::Num;
        reject(c, "a proof of an application with fewer steps", || verify_as::<Num<3>, 4>(&x.app, &n.proof, &n.val, VRng::new(seed)))?;
        reject(c, "a proof of another application", || verify_as::<Num<3>, 4>(&y.app, &n.proof, &n.val, VRng::new(seed)))?;
        reject(c, "a proof of an application with more steps", || verify_as::<Num<3>, 4>(&o.app, &n.proof, &n.val, VRng::new(seed)))?;
        reject(c, "a proof for another header size", || verify_as::<Num<3>, 5>(&wide.app, &n.proof, &n.val, VRng::new(seed)))?;
        c.event("foreign applications", 4);
        c.seen(&("foreign", n.depth));
    }
    Ok(())
}
/// The placeholder proofs of a seed are not proofs of anything.
fn placeholder(c: &mut Case) -> Res {
    let w = two::<4>().unwrap();
    use crate::apps::*;
    macro_rules! claim { ($($h:ty),*) => { $({
        let d = <$h>::sample(&mut c.rng);
        reject(c, "the placeholder of a seed", || w.app.verify::<_, $h>(&w.unit.proof.clone().carry(d), VRng::new(3)))?;
        c.event("placeholders", 1);
    })* } }
    claim!((), Num<3>, Num<0>, Two<0>, Empty<0>, Flag<1>);
    Ok(())
}
pub fn d02(x: &Ctx) {
    x.rule("Honest proofs of five applications are corrupted component by component (nine kinds per component; also pairs of corruptions, whole sections taken from other honest proofs, wrong data, wrong header types, headers that do not fit, other applications, placeholder proofs); verification must not accept and must not panic. Distinct: application, component, kind.");
    x.assume("Components that only a later fuse consumes (cached native commitments) are decided under D07; components listed in DESIGN.md as not yet bound by the protocol are not mutated within their stage.");
    x.cases("foreign", x.n(1, 6), foreign);
    x.cases("placeholder", x.n(1, 4), placeholder);
    let per = x.n(70, 400);
    x.cases("corruptions", x.n(8, 240), |c| match c.idx % 5 {
        0 | 3 => attack(c, rich::<4>().unwrap(), per),
        1 => attack(c, wide::<7>().unwrap(), per),
        2 => attack(c, two::<2>().unwrap(), per),
        _ => attack(c, many::<3>().unwrap(), per),
    });
}
