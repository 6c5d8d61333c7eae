//! The transcript of a fuse, recomputed independently.

use crate::corrupt::pasta;
use crate::d02::grow;
use crate::poseidon::{Duplex, Par};
use crate::world::*;
use ff::Field;
use pasta_curves::{EpAffine, EqAffine, Fp, Fq};
use prog::{Budget, Expect, Feeder, Frag, Io, St, attack, conform};
use ragu_arithmetic::{CurveAffine, Cycle};
use ragu_core::{
    Result as Rr,
    drivers::{Driver, DriverValue},
    maybe::Maybe,
};
use ragu_pasta::Pasta;
use ragu_pcd::verif::{self, Slot, transcript::Transcript};
use ragu_primitives::{GadgetExt, io::Buffer};
use std::collections::BTreeMap;
use vh::{Case, Ctx, Res, VRng, ensure, ensure_eq};

/// Everything a proof records, by name.
pub struct Parts {
    pub native: BTreeMap<String, ragu_circuits::polynomials::sparse::Polynomial<Fp, R>>,
    pub nested: BTreeMap<String, ragu_circuits::polynomials::sparse::Polynomial<Fq, R>>,
    pub host: BTreeMap<String, EqAffine>,
    pub bridge: BTreeMap<String, EpAffine>,
    pub scalar: BTreeMap<String, Fp>,
}
pub fn parts(p: &Proof) -> Parts {
    let mut q = p.clone();
    let mut o = Parts { native: BTreeMap::new(), nested: BTreeMap::new(), host: BTreeMap::new(), bridge: BTreeMap::new(), scalar: BTreeMap::new() };
    for (n, s) in verif::slots(&mut q) {
        match s {
            Slot::Native(x) => drop(o.native.insert(n, x.clone())),
            Slot::Nested(x) => drop(o.nested.insert(n, x.clone())),
            Slot::Host(x) => drop(o.host.insert(n, *x)),
            Slot::Bridge(x) => drop(o.bridge.insert(n, *x)),
            Slot::Scalar(x) => drop(o.scalar.insert(n, *x)),
            _ => {}
        }
    }
    o
}
/// Messages and the challenges drawn after each.
const FLOW: &[(&str, &[&str])] = &[
    ("preamble", &["w"]),
    ("s_prime", &["y", "z"]),
    ("inner_error", &["mu", "nu"]),
    ("outer_error", &["mu_prime", "nu_prime"]),
    ("ab", &["x"]),
    ("query", &["alpha"]),
    ("f", &["u"]),
    ("eval", &["pre_beta"]),
];
/// Commitments each message must carry.
fn carried(stage: &str) -> &'static [&'static str] {
    match stage {
        "preamble" => &["preamble.commitment"],
        "s_prime" => &["s_prime.registry_wx0_commitment", "s_prime.registry_wx1_commitment"],
        "inner_error" => &["inner_error.commitment", "inner_error.registry_wy_commitment"],
        "outer_error" => &["outer_error.commitment"],
        "ab" => &["ab.a_commitment", "ab.b_commitment"],
        "query" => &["query.commitment", "query.registry_xy_commitment"],
        "f" => &["f.commitment"],
        _ => &["eval.commitment"],
    }
}
const CHILD: &[&str] = &["application", "hashes_1", "hashes_2", "inner_collapse", "outer_collapse", "compute_v"];
fn tag(d: &mut Duplex, p: &Par, tag: &[u8]) {
    d.absorb(p, Fp::from(tag.len() as u64));
    for c in tag.chunks(16) {
        let mut b = [0u8; 16];
        b[..c.len()].copy_from_slice(c);
        let v = u128::from_le_bytes(b);
        d.absorb(p, Fp::from((v >> 64) as u64) * Fp::from(1u64 << 32).square() + Fp::from(v as u64));
    }
}
fn replay(c: &mut Case, p: &Proof, what: &str) -> Res {
    let par = Par::fp();
    let q = parts(p);
    let mut d = Duplex::new(par);
    tag(&mut d, par, verif::TAG);
    for (stage, names) in FLOW {
        let m = q.bridge[&format!("{stage}.bridge.commitment")];
        let xy = m.coordinates().unwrap();
        d.absorb(par, *xy.x());
        d.absorb(par, *xy.y());
        for n in *names {
            ensure_eq!(q.scalar[&format!("challenges.{n}")], d.squeeze(par), "{what}: challenge {n}");
            c.event("challenges recomputed", 1);
            c.eval();
        }
    }
    Ok(())
}
/// Commitments are commitments, messages carry what they must.
fn bound(c: &mut Case, p: &Proof, kids: &[&Proof], what: &str) -> Res {
    let q = parts(p);
    let (hg, ng) = (Pasta::host_generators(pasta()), Pasta::nested_generators(pasta()));
    for (n, com) in &q.host {
        let poly = match n.as_str() {
            n if n.ends_with("_commitment") => n.replace("_commitment", "_poly"),
            "f.commitment" => "f.poly".into(),
            "p.commitment" => "p.poly".into(),
            n => n.replace(".commitment", ".rx"),
        };
        ensure_eq!(*com, q.native[&poly].commit_to_affine(hg), "{what}: {n} is not the commitment to {poly}");
        c.event("native commitments", 1);
        c.eval();
    }
    for (n, com) in &q.bridge {
        let rx = &q.nested[&n.replace(".commitment", ".rx")];
        ensure_eq!(*com, rx.commit_to_affine(ng), "{what}: {n}");
        c.event("bridge commitments", 1);
    }
    for (stage, _) in FLOW {
        let rx = &q.nested[&format!("{stage}.bridge.rx")];
        let mut have: Vec<Fq> = rx.iter_coeffs().filter(|x| !x.is_zero_vartime()).collect();
        let mut want: Vec<(String, EqAffine)> = carried(stage).iter().map(|n| (n.to_string(), q.host[*n])).collect();
        if *stage == "preamble" {
            for (k, kid) in kids.iter().enumerate() {
                let kp = parts(kid);
                for n in CHILD {
                    want.push((format!("child {k} {n}"), kp.host[&format!("{n}.commitment")]));
                }
            }
        }
        for (n, pt) in want {
            let xy = pt.coordinates().unwrap();
            for v in [*xy.x(), *xy.y()] {
                let Some(k) = have.iter().position(|h| *h == v) else {
                    return Err(format!("{what}: the {stage} message does not contain the commitment {n}"));
                };
                have.swap_remove(k);
                c.event("commitments found in messages", 1);
            }
        }
    }
    ensure_eq!(q.native["p.poly"].eval(q.scalar["challenges.u"]), q.scalar["p.v"], "{what}: p(u)");
    ensure_eq!(q.native["ab.a_poly"].revdot(&q.native["ab.b_poly"]), q.scalar["ab.c"], "{what}: a * b");
    Ok(())
}
fn flow<const HS: usize>(c: &mut Case, w: World<HS>, w2: World<HS>) -> Res {
    let made = grow(c, &w, 4)?;
    for (n, a, i, j) in &made {
        let what = format!("{} {:?}", w.name, n.val);
        replay(c, &n.proof, &what)?;
        let at = |i: usize| if i == usize::MAX { &w.unit.proof } else { &made[i].0.proof };
        bound(c, &n.proof, &[at(*i), at(*j)], &what)?;
        c.seen(&(w.name, *a, n.depth));
    }
    // twice the same, in this and in another build of the application
    let (_, a, i, j) = made.last().unwrap();
    let at = |i: usize| if i == usize::MAX { &w.unit } else { &made[i].0 };
    let (s, t) = (c.rng.u64(), c.rng.u64());
    let run = |w: &World<HS>, mut g: Odd, t: u64| (w.acts[*a].go)(&w.app, &mut g, &mut VRng::new(t), at(*i), at(*j), false).got.map(|x| x.0).map_err(|e| format!("{e:?}"));
    let x = run(&w, Odd::Good(VRng::new(s)), t)?;
    ensure!(prints(&x.proof) == prints(&run(&w, Odd::Good(VRng::new(s)), t)?.proof), "{}: a replay gave another proof", w.name);
    ensure!(prints(&x.proof) == prints(&run(&w2, Odd::Good(VRng::new(s)), t)?.proof), "{}: a replay in another build gave another proof", w.name);
    c.event("replays", 2);
    // a transcript that forks somewhere
    for k in 0..2 {
        let cut = if k == 0 { c.rng.below(60) } else { c.rng.below(20_000) };
        let y = run(&w, Odd::Fork(VRng::new(s), cut, VRng::new(t)), t)?;
        let (p, q) = (parts(&x.proof), parts(&y.proof));
        let mut forked = false;
        let mut at = "never";
        for (stage, names) in FLOW {
            let n = format!("{stage}.bridge.commitment");
            if !forked && p.bridge[&n] != q.bridge[&n] {
                forked = true;
                at = stage;
            }
            for n in *names {
                let n = format!("challenges.{n}");
                ensure_eq!(p.scalar[&n] != q.scalar[&n], forked, "{}: {n} after a fork at {at}", w.name);
                c.eval();
            }
        }
        c.event(&format!("forked at {at}"), 1);
        c.seen(&("fork", at));
        replay(c, &y.proof, "forked")?;
    }
    Ok(())
}

// ------------------------------------------------- the transcript on its own

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Absorb,
    Squeeze,
    /// Save the state, resume from it, squeeze, go on.
    Resume,
}
struct Script {
    tag: Vec<u8>,
    ops: Vec<Op>,
}
impl Frag<Fp> for Script {
    fn run<'dr, D: Driver<'dr, F = Fp>, I: Feeder<'dr, D>>(&self, dr: &mut D, feed: &mut I, io: &mut Io<'dr, D>, w: DriverValue<D, Vec<Fp>>) -> Rr<()> {
        let params = Pasta::circuit_poseidon(pasta());
        let n = self.ops.iter().filter(|o| **o == Op::Absorb).count();
        for i in 0..n {
            io.ins.push(feed.input(dr, w.as_ref().map(|w| w[i]))?);
        }
        let mut t = Transcript::new(dr, params, &self.tag)?;
        let mut k = 0;
        for o in &self.ops {
            match o {
                Op::Absorb => {
                    if k % 2 == 0 {
                        t.write(dr, &io.ins[k])?;
                    } else {
                        io.ins[k].write(dr, &mut t)?;
                    }
                    k += 1;
                }
                Op::Squeeze => io.outs.push(t.challenge(dr)?),
                Op::Resume => {
                    let copy = t.clone();
                    let saved = t.save_state(dr).map_err(|_| ragu_core::Error::InvalidWitness("save".into()))?;
                    let mut r = Transcript::resume_from_state(saved, params);
                    let a = r.challenge(dr)?;
                    let mut copy = copy;
                    let b = copy.challenge(dr)?;
                    io.outs.push(a);
                    io.outs.push(b);
                    t = r.into_transcript();
                }
            }
        }
        Ok(())
    }
}
fn script(c: &mut Case) -> Res {
    let tag_: Vec<u8> = (0..c.rng.below(40)).map(|_| c.rng.u64() as u8).collect();
    let mut ops = vec![];
    let mut absorbing = true;
    for _ in 0..1 + c.rng.below(14) {
        ops.push(match c.rng.below(5) {
            0 | 1 => Op::Absorb,
            2 if absorbing => Op::Resume,
            _ => Op::Squeeze,
        });
        absorbing = match ops.last().unwrap() {
            Op::Absorb => true,
            _ => false,
        };
    }
    let w: Vec<Fp> = ops.iter().filter(|o| **o == Op::Absorb).map(|_| c.rng.field()).collect();
    let par = Par::fp();
    let mut d = Duplex::new(par);
    tag(&mut d, par, &tag_);
    let (mut outs, mut k) = (vec![], 0);
    for o in &ops {
        match o {
            Op::Absorb => {
                d.absorb(par, w[k]);
                k += 1;
            }
            Op::Squeeze => outs.push(d.squeeze(par)),
            Op::Resume => {
                let v = d.squeeze(par);
                outs.extend([v, v]);
            }
        }
    }
    c.event("scripted challenges", outs.len() as u64);
    c.seen(&(tag_.len(), format!("{ops:?}")));
    let s = Script { tag: tag_, ops };
    let x = Expect { ins: w.clone(), outs, status: St::Ok };
    conform(c, &s, &w, &x)?;
    if c.idx % 16 == 0 {
        attack(c, &s, &x, &None, Budget { leaves: 4, ..Budget::default() })?;
    }
    Ok(())
}
/// Different tags and messages lead to different challenges.
fn apart(c: &mut Case) -> Res {
    let params = Pasta::circuit_poseidon(pasta());
    let first = |tag: &[u8], m: &[Fp]| -> Fp {
        let dr = &mut ragu_core::drivers::emulator::Emulator::execute();
        let mut t = Transcript::new(dr, params, tag).unwrap();
        for v in m {
            let e = ragu_primitives::Element::constant(dr, *v);
            t.write(dr, &e).unwrap();
        }
        *t.challenge(dr).unwrap().value().take()
    };
    let mut seen: Vec<(Fp, String)> = vec![];
    let base: Vec<u8> = (0..c.rng.range(1, 36)).map(|_| c.rng.u64() as u8 | 1).collect();
    let mut tags = vec![base.clone(), vec![]];
    for k in 0..base.len() {
        let mut t = base.clone();
        t[k] ^= 1 << c.rng.below(8);
        tags.push(t);
        tags.push(base[..k].to_vec());
        let mut t = base.clone();
        t.insert(k, 0);
        tags.push(t);
    }
    for k in 1..4 {
        let mut t = base.clone();
        t.extend(vec![0; k]);
        tags.push(t);
    }
    tags.sort();
    tags.dedup();
    let m: Fp = c.rng.field();
    for t in tags {
        let f = first(&t, &[m]);
        if let Some((_, o)) = seen.iter().find(|s| s.0 == f) {
            return Err(format!("tags {o} and {t:?} give the same challenge"));
        }
        seen.push((f, format!("{t:?}")));
        c.event("tags told apart", 1);
        c.eval();
    }
    Ok(())
}
pub fn d06(x: &Ctx) {
    x.rule("The transcript of random honest fuses is recomputed with an independent Poseidon duplex sponge from the recorded messages; every cached commitment and message must be the commitment to the recorded polynomial and contain the commitments it stands for; replays must be identical and forks of the prover's randomness must change exactly the challenges after the fork. The transcript itself runs random scripts under all drivers, with a hostile prover. Distinct: application, step, depth, fork, script.");
    x.cases("apart", x.n(4, 40), apart);
    x.cases("scripts", x.n(60, 4000), script);
    x.cases("flows", x.n(8, 240), |c| match c.idx % 4 {
        0 | 3 => flow(c, rich::<4>().unwrap(), rich::<4>().unwrap()),
        1 => flow(c, wide::<7>().unwrap(), wide::<7>().unwrap()),
        _ => flow(c, two::<2>().unwrap(), two::<2>().unwrap()),
    });
}
