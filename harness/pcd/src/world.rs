//! Applications, random derivation histories and the proofs they produce.
use crate::apps::*;
use pasta_curves::Fp;
use ragu_circuits::polynomials::{ProductionRank, sparse};
use ragu_core::Result;
use ragu_pasta::Pasta;
use ragu_pcd::{Application, ApplicationBuilder, Pcd, Proof as Prf, verif::{self, Slot}};
use rand::rand_core::{TryCryptoRng, TryRng};
use std::convert::Infallible;
use vh::VRng;

pub type R = ProductionRank;
pub type App<const HS: usize> = Application<'static, Pasta, R, HS>;
pub type Build<const HS: usize> = ApplicationBuilder<'static, Pasta, R, HS>;
pub type Proof = Prf<Pasta, R>;

/// Generators a prover might hand to the library.
#[derive(Clone)]
pub enum Odd {
    Good(VRng),
    /// The same word for ever.
    Stuck(u64),
    /// Good for a while, then stuck.
    Dying(VRng, usize),
    /// One stream for a while, then another.
    Fork(VRng, usize, VRng),
}
impl Odd {
    pub fn sample(r: &mut VRng) -> Odd {
        match r.below(6) {
            0 => Odd::Stuck(0),
            1 => Odd::Stuck([1, u64::MAX, 1 << 63, 0x0101010101010101][r.below(4)]),
            2 => Odd::Dying(VRng::new(r.u64()), r.below(4000)),
            _ => Odd::Good(VRng::new(r.u64())),
        }
    }
    fn word(&mut self) -> u64 {
        match self {
            Odd::Good(r) => r.u64(),
            Odd::Stuck(w) => *w,
            Odd::Dying(r, k) => {
                if *k == 0 {
                    return 0;
                }
                *k -= 1;
                r.u64()
            }
            Odd::Fork(a, k, b) => {
                if *k == 0 {
                    return b.u64();
                }
                *k -= 1;
                a.u64()
            }
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Odd::Good(_) => "good",
            Odd::Stuck(_) => "stuck",
            Odd::Dying(..) => "dying",
            Odd::Fork(..) => "fork",
        }
    }
}
impl TryRng for Odd {
    type Error = Infallible;
    fn try_next_u32(&mut self) -> std::result::Result<u32, Infallible> {
        Ok(self.word() as u32)
    }
    fn try_next_u64(&mut self) -> std::result::Result<u64, Infallible> {
        Ok(self.word())
    }
    fn try_fill_bytes(&mut self, dst: &mut [u8]) -> std::result::Result<(), Infallible> {
        for c in dst.chunks_mut(8) {
            c.copy_from_slice(&self.word().to_le_bytes()[..c.len()]);
        }
        Ok(())
    }
}
impl TryCryptoRng for Odd {}

/// A proof with the data it claims.
#[derive(Clone)]
pub struct Node {
    pub proof: Proof,
    pub val: Val,
    /// Operations below it.
    pub size: usize,
    pub depth: usize,
}

/// One step of an application, with its native model.
pub struct Act<const HS: usize> {
    pub name: &'static str,
    pub takes: fn(&Val, &Val) -> bool,
    pub go: fn(&App<HS>, &mut Odd, &mut VRng, &Node, &Node, bool) -> Done,
    pub rerand: fn(&App<HS>, &mut Odd, &Node) -> Result<Node>,
    pub verify: fn(&App<HS>, &Proof, &Val, VRng) -> Result<bool>,
    pub leaf: bool,
    pub can_fail: bool,
    /// Whether a value is what this step outputs.
    pub makes: fn(&Val) -> bool,
}
/// What one fuse did next to what it should have done.
pub struct Done {
    pub got: Result<(Node, Val)>,
    pub want: Option<(Val, Val)>,
}
pub fn verify_as<H: Hv, const HS: usize>(app: &App<HS>, p: &Proof, v: &Val, r: VRng) -> Result<bool> {
    let d = H::data(v).expect("a value of this header");
    app.verify::<_, H>(&p.clone().carry(d), r)
}
pub fn act<S: Modeled + 'static, const HS: usize>(name: &'static str, can_fail: bool) -> Act<HS> {
    fn go<S: Modeled + 'static, const HS: usize>(app: &App<HS>, rng: &mut Odd, r: &mut VRng, l: &Node, ri: &Node, fail: bool) -> Done {
        let (w, want) = S::sample(r, &l.val, &ri.val, fail);
        let lp: Pcd<Pasta, R, S::Left> = l.proof.clone().carry(S::Left::data(&l.val).unwrap());
        let rp: Pcd<Pasta, R, S::Right> = ri.proof.clone().carry(S::Right::data(&ri.val).unwrap());
        let got = app.fuse(rng, S::default(), w, lp, rp).map(|(pcd, aux)| {
            let aux = S::aux(&aux);
            let (proof, data) = verif::split(pcd);
            (Node { proof, val: S::Output::val(&data), size: l.size + ri.size + 1, depth: l.depth.max(ri.depth) + 1 }, aux)
        });
        Done { got, want }
    }
    fn rerand<S: Modeled + 'static, const HS: usize>(app: &App<HS>, rng: &mut Odd, n: &Node) -> Result<Node> {
        let p: Pcd<Pasta, R, S::Output> = n.proof.clone().carry(S::Output::data(&n.val).unwrap());
        let (proof, data) = verif::split(app.rerandomize(p, rng)?);
        Ok(Node { proof, val: S::Output::val(&data), size: n.size + 1, depth: n.depth + 1 })
    }
    Act {
        name,
        takes: |a, b| S::Left::data(a).is_some() && S::Right::data(b).is_some(),
        go: go::<S, HS>,
        rerand: rerand::<S, HS>,
        verify: verify_as::<S::Output, HS>,
        leaf: S::Left::data(&Val::Unit).is_some() && S::Right::data(&Val::Unit).is_some(),
        can_fail,
        makes: |v| S::Output::data(v).is_some(),
    }
}

pub struct World<const HS: usize> {
    pub name: &'static str,
    pub app: App<HS>,
    pub acts: Vec<Act<HS>>,
    pub unit: Node,
}
macro_rules! world {
    ($name:ident, $($s:ident<$($g:literal),*> $fail:literal),* $(,)?) => {
        pub fn $name<const HS: usize>() -> Result<World<HS>> {
            let b = Build::<HS>::new();
            $(let b = b.register($s::<$($g),*>)?;)*
            let app = b.finalize(Pasta::baked())?;
            let unit = Node { proof: verif::trivial(&app), val: Val::Unit, size: 0, depth: 0 };
            Ok(World { name: stringify!($name), app, acts: vec![$(act::<$s<$($g),*>, HS>(stringify!($s), $fail)),*], unit })
        }
    };
}
// Every header type, four slots.
world!(
    rich,
    Leaf<0, 0> false, Hash<1, 0, 0, 0> false, Mix<2, 0, 0, 1> false, Same<3, 0, 0, 2> false, Pick<4, 2, 1, 0> false,
    Spot<5, 3> false, Double<6, 3, 0, 3> false, Root<7, 0, 1, 0> true, Blank<8, 1, 3, 4> false, Start<9, 4, 4, 5> false,
    Hash<10, 5, 0, 0> false, Bail<11, 0, 0, 0> true, Gone<12, 0, 5> false, Back<13, 0, 0> false,
    Fore<14, 0, 0> false,
);
// Wide headers.
world!(wide, Wide<0, 7, 6> false, Turn<1, 7, 7, 7, 6> false, Leaf<2, 0> false, Hash<3, 0, 0, 1> false, Back<4, 1, 0> false, Fore<5, 0, 1> false);
// Headers that only carry their suffix.
world!(bare, Void<0, 0> false);
world!(two, Leaf<0, 3> false, Hash<1, 3, 3, 3> false);
// Enough steps for the next power of two, with large suffixes.
world!(
    many,
    Leaf<0, 0> false, Leaf<1, 1> false, Leaf<2, 1000000> false, Hash<3, 0, 1, 2> false, Hash<4, 2, 1000000, 0> false,
    Mix<5, 0, 0, 3> false, Mix<6, 1, 1, 3> false, Mix<7, 2, 0, 3> false, Back<8, 0, 1> false, Back<9, 1, 2> false,
    Back<10, 2, 0> false, Same<11, 0, 1, 4> false, Same<12, 1, 2, 4> false, Pick<13, 4, 3, 0> false, Spot<14, 5> false,
    Double<15, 5, 0, 5> false, Blank<16, 3, 5, 6> false, Start<17, 6, 6, 2> false, Gone<18, 2, 2> false, Bail<19, 0, 1, 2> true,
);
// The same steps as `two`, in a different order or company.
world!(two_more, Leaf<0, 3> false, Hash<1, 3, 3, 3> false, Back<2, 3, 3> false);
world!(one, Leaf<0, 3> false);

pub enum Move {
    Step { act: usize, left: usize, right: usize, fail: bool },
    Rerandomize { node: usize },
}
impl<const HS: usize> World<HS> {
    pub fn act_for(&self, v: &Val) -> &Act<HS> {
        self.acts.iter().find(|a| (a.makes)(v)).expect("some step outputs this")
    }
    pub fn verify(&self, p: &Proof, v: &Val, r: VRng) -> Result<bool> {
        if v.trivial() {
            verify_as::<(), HS>(&self.app, p, v, r)
        } else {
            (self.act_for(v).verify)(&self.app, p, v, r)
        }
    }
    /// A random applicable step over the given nodes; index `nodes.len()` is
    /// the placeholder of a seed.
    pub fn choose(&self, r: &mut VRng, nodes: &[Node], used: &mut [usize], leaf_bias: bool) -> (usize, usize, usize) {
        let at = |i: usize| if i < nodes.len() { &nodes[i] } else { &self.unit };
        let mut opts = vec![];
        for (k, a) in self.acts.iter().enumerate() {
            for i in 0..=nodes.len() {
                for j in 0..=nodes.len() {
                    // the placeholder only ever comes in pairs
                    if (i == nodes.len()) == (j == nodes.len()) && (a.takes)(&at(i).val, &at(j).val) {
                        opts.push((k, i, j));
                    }
                }
            }
        }
        let min = opts.iter().filter(|o| !leaf_bias || self.acts[o.0].leaf).map(|o| used[o.0]).min();
        let least: Vec<_> = opts.iter().filter(|o| (!leaf_bias || self.acts[o.0].leaf) && Some(used[o.0]) == min).collect();
        let o = if !least.is_empty() && r.chance(2, 3) { **r.pick(&least) } else { *r.pick(&opts) };
        used[o.0] += 1;
        o
    }
}

// ------------------------------------------------------------ looking inside

pub fn headers(p: &Proof) -> (Vec<Fp>, Vec<Fp>) {
    let mut q = p.clone();
    let (mut l, mut r) = (vec![], vec![]);
    for (n, s) in verif::slots(&mut q) {
        match (n.as_str(), s) {
            ("application.left_header", Slot::Header(h)) => l = h.clone(),
            ("application.right_header", Slot::Header(h)) => r = h.clone(),
            _ => {}
        }
    }
    (l, r)
}
/// Fingerprints of all components.
pub fn prints(p: &Proof) -> Vec<(String, u64)> {
    let mut q = p.clone();
    fn poly<F: ff::PrimeField>(p: &sparse::Polynomial<F, R>) -> u64 {
        let c: Vec<Vec<u8>> = p.iter_coeffs().map(|c| c.to_repr().as_ref().to_vec()).collect();
        vh::hash64(&c)
    }
    verif::slots(&mut q)
        .into_iter()
        .map(|(n, s)| {
            let h = match s {
                Slot::Native(p) => poly(p),
                Slot::Nested(p) => poly(p),
                Slot::Host(c) => vh::hash64(&format!("{c:?}")),
                Slot::Bridge(c) => vh::hash64(&format!("{c:?}")),
                Slot::Scalar(f) => vh::hash64(&format!("{f:?}")),
                Slot::Header(h) => vh::hash64(&format!("{h:?}")),
                Slot::Index(i) => vh::hash64(&format!("{i:?}")),
                Slot::Steps(v) => vh::hash64(&v.iter().map(poly).collect::<Vec<_>>()),
            };
            (n, h)
        })
        .collect()
}
