//! Failing steps, mismatched or corrupted children, rerandomization.
use crate::apps::*;
use crate::corrupt::*;
use crate::d02::grow;
use crate::world::*;
use pasta_curves::Fp;
use ragu_core::Result as Rr;
use ragu_pasta::Pasta;
use vh::{Case, Ctx, Res, VRng, catch, ensure, ensure_eq};

fn good(r: &mut VRng) -> Odd {
    Odd::Good(VRng::new(r.u64()))
}
/// A fuse whose result, if any, must not verify.
fn no_proof<const HS: usize>(c: &mut Case, w: &World<HS>, what: &str, strict: bool, f: impl FnOnce() -> Rr<(Proof, Val)>) -> Res {
    c.eval();
    match catch(f) {
        Ok(Ok((p, v))) => {
            for k in 0..2 {
                let r = catch(|| w.verify(&p, &v, VRng::new(k)));
                match r {
                    Ok(Ok(true)) => return Err(format!("{}: a proof came out of: {what}", w.name)),
                    Ok(_) => {}
                    Err(p) => return Err(format!("{}: verifying the result of {what} panicked: {p}", w.name)),
                }
            }
            c.event("results that do not verify", 1);
        }
        Ok(Err(_)) => c.event("refused", 1),
        Err(p) if strict => return Err(format!("{}: {what}: panic: {p}", w.name)),
        Err(_) => c.event("panics on components no caller can produce", 1),
    }
    Ok(())
}
/// Something honest still works, exactly as in a fresh application.
fn usable<const HS: usize>(c: &mut Case, w: &World<HS>, fresh: &World<HS>) -> Res {
    let a = w.acts.iter().find(|a| a.leaf).unwrap();
    let (s, t) = (c.rng.u64(), c.rng.u64());
    let run = |w: &World<HS>| -> std::result::Result<Node, String> {
        let d = (a.go)(&w.app, &mut Odd::Good(VRng::new(s)), &mut VRng::new(t), &w.unit, &w.unit, false);
        d.got.map(|x| x.0).map_err(|e| format!("{e:?}"))
    };
    let (x, y) = (run(w)?, run(fresh)?);
    ensure!(matches!(w.verify(&x.proof, &x.val, VRng::new(1)), Ok(true)), "{}: honest proof after failures", w.name);
    ensure!(prints(&x.proof) == prints(&y.proof), "{}: failures changed what the application computes", w.name);
    c.event("usable afterwards", 1);
    Ok(())
}
// Steps that lie about what they were given or what they return.
macro_rules! liar {
    ($name:ident, $l:ident, $r:ident, $o:ident) => {
        #[derive(Clone, Default)]
        pub struct $name;
        impl ragu_pcd::step::Step<Pasta> for $name {
            const INDEX: ragu_pcd::step::Index = ragu_pcd::step::Index::new(0);
            type Witness<'s> = (Fp, Fp, Fp);
            type Aux<'s> = ();
            type Left = Num<3>;
            type Right = Num<3>;
            type Output = Num<3>;
            fn witness<'dr, 's: 'dr, D: ragu_core::drivers::Driver<'dr, F = Fp>, const HS: usize>(
                &self,
                dr: &mut D,
                w: ragu_core::drivers::DriverValue<D, (Fp, Fp, Fp)>,
                left: ragu_core::drivers::DriverValue<D, Fp>,
                right: ragu_core::drivers::DriverValue<D, Fp>,
            ) -> Rr<(
                (ragu_pcd::step::Encoded<'dr, D, Num<3>, HS>, ragu_pcd::step::Encoded<'dr, D, Num<3>, HS>, ragu_pcd::step::Encoded<'dr, D, Num<3>, HS>),
                ragu_core::drivers::DriverValue<D, Fp>,
                ragu_core::drivers::DriverValue<D, ()>,
            )>
            where
                Self: 'dr,
            {
                use ragu_core::maybe::Maybe;
                use ragu_pcd::step::Encoded;
                let wl = w.as_ref().map(|w| w.0);
                let wr = w.as_ref().map(|w| w.1);
                let wo = w.as_ref().map(|w| w.2);
                let _ = (&wl, &wr, &wo);
                let l: Encoded<'dr, D, Num<3>, HS> = Encoded::new(dr, if $l { wl } else { left })?;
                let r: Encoded<'dr, D, Num<3>, HS> = Encoded::new(dr, if $r { wr } else { right })?;
                let o = l.as_gadget().add(dr, r.as_gadget());
                let v = o.value().map(|v| *v);
                Ok(((l, r, Encoded::from_gadget(o)), if $o { wo } else { v }, D::unit()))
            }
        }
    };
}
const T: bool = true;
const F: bool = false;
liar!(Honest, F, F, F);
liar!(LieLeft, T, F, F);
liar!(LieRight, F, T, F);
liar!(LieOut, F, F, T);
fn liars(c: &mut Case) -> Res {
    fn one<S>(c: &mut Case, s: S, name: &str) -> Res
    where
        S: for<'a> ragu_pcd::step::Step<Pasta, Witness<'a> = (Fp, Fp, Fp), Left = Num<3>, Right = Num<3>, Output = Num<3>> + Clone + 'static,
    {
        let e = |e| format!("{e:?}");
        let app: App<3> = Build::<3>::new().register(s.clone()).map_err(e)?.register(Leaf::<1, 3>).map_err(e)?.finalize(Pasta::baked()).map_err(e)?;
        let mut g = good(&mut c.rng);
        let (a, b) = (c.rng.field::<Fp>(), c.rng.field::<Fp>());
        let x = app.seed(&mut g, Leaf::<1, 3>, a).map_err(e)?.0;
        let y = app.seed(&mut g, Leaf::<1, 3>, b).map_err(e)?.0;
        for lie in [false, true] {
            let d = if lie { c.rng.nonzero() } else { Fp::from(0) };
            let r = catch(|| -> Rr<bool> {
                let out = app.fuse(&mut good(&mut VRng::new(5)), s.clone(), (a + d, b + d, a + b + d), x.clone(), y.clone())?.0;
                app.verify(&out, VRng::new(1))
            });
            let honest = !lie || name == "Honest";
            c.eval();
            match r {
                Ok(Ok(true)) if honest => {}
                Ok(Ok(false)) | Ok(Err(_)) if !honest => c.event("lies that do not verify", 1),
                r => return Err(format!("step {name} (lying: {lie}): {r:?}")),
            }
            c.seen(&(name, lie));
        }
        Ok(())
    }
    match c.idx % 4 {
        0 => one(c, LieLeft, "LieLeft"),
        1 => one(c, LieRight, "LieRight"),
        2 => one(c, LieOut, "LieOut"),
        _ => one(c, Honest, "Honest"),
    }
}
/// Witnesses that violate the step.
fn failing(c: &mut Case) -> Res {
    let w = rich::<4>().map_err(|e| format!("{e:?}"))?;
    let nums: Vec<Node> = {
        let leaf = &w.acts[0];
        (0..3).map(|_| (leaf.go)(&w.app, &mut good(&mut c.rng), &mut c.rng, &w.unit, &w.unit, false).got.map(|x| x.0)).collect::<Rr<_>>().map_err(|e| format!("{e:?}"))?
    };
    let mix = &w.acts[2];
    let two = (mix.go)(&w.app, &mut good(&mut c.rng), &mut c.rng, &nums[0], &nums[1], false).got.map_err(|e| format!("{e:?}"))?.0;
    let pool = [&nums[0], &nums[1], &nums[2], &two];
    for _ in 0..12 {
        let a = c.rng.pick(&w.acts.iter().filter(|a| a.can_fail).collect::<Vec<_>>()).name;
        let a = w.acts.iter().find(|x| x.name == a).unwrap();
        let (l, r) = (*c.rng.pick(&pool), *c.rng.pick(&pool));
        if !(a.takes)(&l.val, &r.val) {
            continue;
        }
        let mut rng = good(&mut c.rng);
        let mut wr = VRng::new(c.rng.u64());
        c.event(&format!("failing {}", a.name), 1);
        let tag = c.rng.below(1 << 20);
        c.seen(&(a.name, tag));
        no_proof(c, &w, &format!("a violated {}", a.name), true, || (a.go)(&w.app, &mut rng, &mut wr, l, r, true).got.map(|(n, _)| (n.proof, n.val)))?;
    }
    usable(c, &w, &rich::<4>().unwrap())
}
/// Spoils a proof a later step is to build on: one component, with or
/// without a commitment that fits it again, or a misplaced witness under a
/// fitting commitment.
fn spoil(c: &mut Case, m: &Masks, n: &mut Node, o: &Node, names: &[String], s: usize, k: usize) -> Option<String> {
    if c.rng.chance(1, 3) {
        let (x, polys) = misplace(&mut n.proof, m, c.rng.below(4), &mut c.rng)?;
        recommit(&mut n.proof, &polys);
        c.event("misplaced wires committed to", 1);
        return Some(x);
    }
    let poly = names[s].ends_with("_poly") || names[s].ends_with(".poly") || (names[s].ends_with(".rx") && !names[s].contains("bridge"));
    let again = poly && class(&names[s]) == Class::Both && c.rng.bool();
    if again && k == 8 && names[s] == "application.rx" && headers(&o.proof) == headers(&n.proof) {
        return None;
    }
    let mut x = corrupt(&mut n.proof, &o.proof, s, k, &mut c.rng)?;
    if again {
        if still_claims(&n.proof) && names[s].starts_with("ab.") {
            return None;
        }
        recommit(&mut n.proof, &names[s..=s]);
        x += ", committed to";
        c.event("corruptions committed to", 1);
    }
    Some(x)
}
/// Children that do not prove what they are said to prove.
fn mismatched<const HS: usize>(c: &mut Case, w: World<HS>, fresh: World<HS>, alien: Proof, per: usize) -> Res {
    let made = grow(c, &w, 4)?;
    let nodes: Vec<&Node> = made.iter().map(|m| &m.0).collect();
    // every step over two nontrivial children that are available
    let mut fits = vec![];
    for (k, a) in w.acts.iter().enumerate() {
        for (i, l) in nodes.iter().enumerate() {
            for (j, r) in nodes.iter().enumerate() {
                if (a.takes)(&l.val, &r.val) && !l.val.trivial() && !r.val.trivial() && !a.can_fail {
                    fits.push((k, i, j));
                }
            }
        }
    }
    if fits.is_empty() {
        return Ok(());
    }
    let names = names();
    let masks = Masks::new(&w, &mut c.rng);
    for _ in 0..per {
        let (k, i, j) = *c.rng.pick(&fits);
        let a = &w.acts[k];
        let (mut l, mut r) = (nodes[i].clone(), nodes[j].clone());
        let right = c.rng.bool();
        let victim = if right { &mut r } else { &mut l };
        let mut strict = true;
        let what = match c.rng.below(8) {
            // another value of the same header
            0 => {
                let old = victim.val.clone();
                victim.val = match old.clone() {
                    Val::Num(s, a) => Val::Num(s, a + c.rng.nonzero::<Fp>()),
                    Val::Two(s, a, b) => Val::Two(s, a + c.rng.nonzero::<Fp>(), b),
                    Val::Flag(s, b) => Val::Flag(s, !b),
                    Val::Curve(s, p) => {
                        let q = point(&mut c.rng);
                        if q == p {
                            continue;
                        }
                        Val::Curve(s, q)
                    }
                    Val::Arr(s, mut v) => {
                        let k = c.rng.below(v.len());
                        v[k] += c.rng.nonzero::<Fp>();
                        Val::Arr(s, v)
                    }
                    _ => continue,
                };
                format!("a child proving {old:?} passed as {:?}", victim.val)
            }
            // the proof of another node
            1 => {
                let o = *c.rng.pick(&nodes);
                if o.val == victim.val {
                    continue;
                }
                victim.proof = o.proof.clone();
                format!("the proof of {:?} passed as {:?}", o.val, victim.val)
            }
            2 => {
                victim.proof = w.unit.proof.clone();
                "a placeholder passed as a child".into()
            }
            3 => {
                victim.proof = alien.clone();
                "a proof of another application passed as a child".into()
            }
            _ => {
                strict = false;
                let s = loop {
                    let s = c.rng.below(names.len());
                    if matches!(class(&names[s]), Class::Both | Class::Parent) {
                        break s;
                    }
                };
                let o = *c.rng.pick(&nodes);
                let k = c.rng.below(KINDS);
                let x = match spoil(c, &masks, victim, o, &names, s, k) {
                    Some(x) => x,
                    None => continue,
                };
                c.event(&format!("child {}", names[s].split('.').next().unwrap()), 1);
                c.seen(&(w.name, names[s].as_str(), k));
                x
            }
        };
        let what = format!("{} of {:?}, {:?}; {} child: {what}", a.name, nodes[i].val, nodes[j].val, if right { "right" } else { "left" });
        c.sample("child", || what.chars().take(200).collect());
        let mut rng = good(&mut c.rng);
        let mut wr = VRng::new(c.rng.u64());
        no_proof(c, &w, &what, strict, || (a.go)(&w.app, &mut rng, &mut wr, &l, &r, false).got.map(|(n, _)| (n.proof, n.val)))?;
        c.event("bad children", 1);
    }
    usable(c, &w, &fresh)
}
/// A trivial header excuses nothing next to one that is not.
fn half_trivial(c: &mut Case) -> Res {
    let w = rich::<4>().map_err(|e| format!("{e:?}"))?;
    let mut seed = || (w.acts[0].go)(&w.app, &mut good(&mut c.rng), &mut c.rng, &w.unit, &w.unit, false).got.map(|x| x.0).map_err(|e| format!("{e:?}"));
    let (x, y) = (seed()?, seed()?);
    let back = w.acts.iter().find(|a| a.name == "Back").unwrap();
    let mut bad = vec![("the placeholder", w.unit.proof.clone()), ("a proof of a number", y.proof.clone())];
    let mut z = x.proof.clone();
    corrupt(&mut z, &y.proof, names().iter().position(|n| n == "ab.c").unwrap(), 0, &mut c.rng);
    bad.push(("a corrupted proof", z));
    for (n, p) in bad {
        let r = Node { proof: p, val: Val::Unit, size: 0, depth: 0 };
        let (mut rng, mut wr) = (good(&mut c.rng), VRng::new(c.rng.u64()));
        no_proof(c, &w, &format!("{n} passed for the trivial header"), true, || (back.go)(&w.app, &mut rng, &mut wr, &x, &r, false).got.map(|(n, _)| (n.proof, n.val)))?;
        c.event("half trivial", 1);
        c.seen(&("half", n));
    }
    Ok(())
}
fn alien(c: &mut Case) -> Proof {
    let o = one::<4>().unwrap();
    (o.acts[0].go)(&o.app, &mut good(&mut c.rng), &mut c.rng, &o.unit, &o.unit, false).got.unwrap().0.proof
}
pub fn d07(x: &Ctx) {
    x.rule("Steps are run with witnesses that violate them, with children carrying other data, other nodes' proofs, placeholders, foreign or corrupted proofs, and with step code that lies about its inputs or output; nothing that comes out may verify, and afterwards the application must compute exactly what a fresh one computes. Distinct: application, component, kind, step.");
    x.cases("liars", 4, liars);
    x.cases("failing", x.n(1, 24), failing);
    x.cases("half-trivial", x.n(1, 8), half_trivial);
    let per = x.n(9, 40);
    x.cases("children", x.n(8, 240), |c| {
        let p = alien(c);
        match c.idx % 4 {
            0 | 2 => mismatched(c, rich::<4>().unwrap(), rich::<4>().unwrap(), p, per),
            1 => mismatched(c, wide::<7>().unwrap(), wide::<7>().unwrap(), p, per),
            _ => mismatched(c, two::<2>().unwrap(), two::<2>().unwrap(), p, per),
        }
    });
}

// ------------------------------------------------------------------- D03

/// Components that are public functions of the registry or of data both
/// proofs share.
fn may_repeat(n: &str) -> bool {
    matches!(n, "application.circuit_id" | "application.left_header" | "application.right_header")
}
fn differ(c: &mut Case, a: &Proof, b: &Proof, what: &str) -> Res {
    for ((n, x), (_, y)) in prints(a).into_iter().zip(prints(b)) {
        if may_repeat(&n) {
            continue;
        }
        c.event("components compared", 1);
        ensure!(x != y, "{what}: component {n} is unchanged");
    }
    // nor does a component of one appear anywhere else in the other
    let (pa, pb) = (prints(a), prints(b));
    for (n, x) in &pa {
        for (m, y) in &pb {
            if x == y && !may_repeat(n) && !may_repeat(m) {
                return Err(format!("{what}: component {n} reappears as {m}"));
            }
        }
    }
    Ok(())
}
fn rerandomized<const HS: usize>(c: &mut Case, w: World<HS>, bad: usize) -> Res {
    let made = grow(c, &w, 3)?;
    let nodes: Vec<&Node> = made.iter().map(|m| &m.0).collect();
    let t = nodes[c.rng.below(nodes.len())];
    let re = |r: &mut VRng, n: &Node| {
        let a = w.act_for(&n.val);
        (a.rerand)(&w.app, &mut good(r), n).map_err(|e| format!("{e:?}"))
    };
    let (r1, r2) = (re(&mut c.rng, t)?, re(&mut c.rng, t)?);
    let r3 = re(&mut c.rng, &r1)?;
    for (n, r) in [("once", &r1), ("again", &r2), ("twice", &r3)] {
        ensure_eq!(r.val, t.val, "data rerandomized {n}");
        for k in 0..2 {
            let v = w.verify(&r.proof, &t.val, VRng::new(k));
            ensure!(matches!(v, Ok(true)), "{}: {:?} rerandomized {n}: {v:?}", w.name, t.val);
            c.eval();
        }
        ensure_eq!(headers(&r.proof), (t.val.encoding(HS).unwrap(), Val::Unit.encoding(HS).unwrap()), "headers of a rerandomized proof");
        c.event("rerandomized", 1);
    }
    c.seen(&(w.name, format!("{:?}", t.val)));
    if !t.val.trivial() {
        differ(c, &t.proof, &r1.proof, "original against rerandomized")?;
        differ(c, &r1.proof, &r2.proof, "two rerandomizations")?;
        differ(c, &r1.proof, &r3.proof, "rerandomized against rerandomized twice")?;
    }
    // the result can be used like the original
    let uses: Vec<_> = w.acts.iter().filter(|a| !a.can_fail && (a.takes)(&r1.val, &r3.val)).collect();
    if let Some(a) = uses.get(c.rng.below(uses.len().max(1))) {
        let s = c.rng.u64();
        let go = |l: &Node, r: &Node| (a.go)(&w.app, &mut Odd::Good(VRng::new(3)), &mut VRng::new(s), l, r, false);
        let d = go(&r1, &r3);
        let (n, aux) = d.got.map_err(|e| format!("{e:?}"))?;
        let (want, waux) = d.want.unwrap();
        ensure_eq!((&n.val, &aux), (&want, &waux), "fuse of rerandomized proofs");
        ensure!(matches!(w.verify(&n.proof, &n.val, VRng::new(4)), Ok(true)), "{}: fuse of rerandomized proofs", w.name);
        c.event("fused afterwards", 1);
    }
    if t.val.trivial() {
        return Ok(());
    }
    // an invalid proof stays invalid
    let names = names();
    let masks = Masks::new(&w, &mut c.rng);
    for _ in 0..bad {
        let mut n = t.clone();
        let what = match c.rng.below(5) {
            0 => {
                n.proof = w.unit.proof.clone();
                "a placeholder".to_string()
            }
            1 => {
                let o = *c.rng.pick(&nodes);
                if o.val == t.val {
                    continue;
                }
                n.proof = o.proof.clone();
                format!("a proof of {:?}", o.val)
            }
            _ => {
                let s = loop {
                    let s = c.rng.below(names.len());
                    if class(&names[s]) == Class::Both {
                        break s;
                    }
                };
                let o = *c.rng.pick(&nodes);
                let k = c.rng.below(KINDS);
                let Some(x) = spoil(c, &masks, &mut n, o, &names, s, k) else { continue };
                c.seen(&(names[s].as_str(), k));
                x
            }
        };
        let a = w.act_for(&t.val);
        let mut rng = good(&mut c.rng);
        no_proof(c, &w, &format!("rerandomizing {what} as {:?}", t.val), false, || (a.rerand)(&w.app, &mut rng, &n).map(|n| (n.proof, n.val)))?;
        c.event("invalid proofs rerandomized", 1);
    }
    Ok(())
}
pub fn d03(x: &Ctx) {
    x.rule("Random honest proofs are rerandomized once, twice and with other randomness: results must verify with the same data, differ from the original and from one another in every component, share none, and fuse like the original; corrupted or false proofs must not verify after rerandomization. Distinct: application, header value, corrupted component, kind.");
    let bad = x.n(4, 16);
    x.cases("rerandomize", x.n(8, 300), |c| match c.idx % 4 {
        0 | 3 => rerandomized(c, rich::<4>().unwrap(), bad),
        1 => rerandomized(c, wide::<7>().unwrap(), bad),
        _ => rerandomized(c, two::<2>().unwrap(), bad),
    });
}
