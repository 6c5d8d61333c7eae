//! The sponge against an independent Poseidon permutation and duplex model.
use ff::{Field, PrimeField};
use prog::{Budget, Expect, Feeder, Frag, Io, St, attack, conform};
use ragu_arithmetic::PoseidonPermutation;
use ragu_core::drivers::{Driver, DriverValue};
use ragu_core::maybe::Maybe;
use ragu_core::{Error, Result};
use ragu_pasta::{Fp, Fq, PoseidonFp, PoseidonFq};
use ragu_primitives::io::Buffer;
use ragu_primitives::poseidon::{PoseidonStateLen, SaveError, Sponge, SpongeState};
use ragu_primitives::vec::FixedVec;
use ragu_primitives::{Element, GadgetExt};
use vh::small::{F7, F17, F97};
use vh::{Case, Ctx, Res, VRng, ensure_eq};

// ------------------------------------------------------------------- model

struct Par<F> {
    t: usize,
    rate: usize,
    full: usize,
    part: usize,
    rc: Vec<Vec<F>>,
    mds: Vec<Vec<F>>,
}
fn par<F: Field, P: PoseidonPermutation<F>>(p: &P) -> Par<F> {
    assert_eq!(P::ALPHA, 5);
    Par {
        t: P::T,
        rate: P::RATE,
        full: P::FULL_ROUNDS,
        part: P::PARTIAL_ROUNDS,
        rc: p.round_constants().map(|r| r.to_vec()).collect(),
        mds: p.mds_matrix().map(|r| r.to_vec()).collect(),
    }
}
impl<F: Field> Par<F> {
    fn permute(&self, s: &mut [F]) {
        let rounds = self.full + self.part;
        for r in 0..rounds {
            for i in 0..self.t {
                s[i] += self.rc[r][i];
            }
            let partial = r >= self.full / 2 && r < self.full / 2 + self.part;
            for i in 0..if partial { 1 } else { self.t } {
                let x = s[i];
                s[i] = x * x * x * x * x;
            }
            let o = s.to_vec();
            for i in 0..self.t {
                let mut a = F::ZERO;
                for j in 0..self.t {
                    a += self.mds[i][j] * o[j];
                }
                s[i] = a;
            }
        }
    }
}
#[derive(Clone)]
enum Mode<F> {
    Absorb(Vec<F>),
    /// Rate elements still to be handed out, in order.
    Squeeze(Vec<F>),
}
#[derive(Clone)]
struct Duplex<F> {
    s: Vec<F>,
    m: Mode<F>,
}
impl<F: Field> Duplex<F> {
    fn new(p: &Par<F>) -> Self {
        Duplex { s: vec![F::ZERO; p.t], m: Mode::Absorb(vec![]) }
    }
    fn mix(&mut self, p: &Par<F>, v: &[F], perms: &mut usize) {
        for (a, b) in self.s.iter_mut().zip(v) {
            *a += b;
        }
        p.permute(&mut self.s);
        *perms += 1;
    }
    fn absorb(&mut self, p: &Par<F>, v: F, perms: &mut usize) {
        match &mut self.m {
            Mode::Squeeze(_) => self.m = Mode::Absorb(vec![v]),
            Mode::Absorb(q) if q.len() < p.rate => q.push(v),
            Mode::Absorb(q) => {
                let q = std::mem::take(q);
                self.mix(p, &q, perms);
                self.m = Mode::Absorb(vec![v]);
            }
        }
    }
    /// `None`: refused, nothing was ever absorbed.
    fn squeeze(&mut self, p: &Par<F>, perms: &mut usize) -> Option<F> {
        match &mut self.m {
            Mode::Absorb(q) if q.is_empty() => None,
            Mode::Absorb(q) => {
                let q = std::mem::take(q);
                self.mix(p, &q, perms);
                self.m = Mode::Squeeze(self.s[..p.rate].to_vec());
                self.squeeze(p, perms)
            }
            Mode::Squeeze(q) => {
                if q.is_empty() {
                    p.permute(&mut self.s);
                    *perms += 1;
                    *q = self.s[..p.rate].to_vec();
                }
                Some(q.remove(0))
            }
        }
    }
    fn save(&mut self, p: &Par<F>, perms: &mut usize) -> std::result::Result<Vec<F>, SaveError> {
        match &mut self.m {
            Mode::Squeeze(_) => Err(SaveError::AlreadyInSqueezeMode),
            Mode::Absorb(q) if q.is_empty() => Err(SaveError::NothingAbsorbed),
            Mode::Absorb(q) => {
                let q = std::mem::take(q);
                self.mix(p, &q, perms);
                Ok(self.s.clone())
            }
        }
    }
    fn resume(p: &Par<F>, s: Vec<F>) -> Self {
        Duplex { m: Mode::Squeeze(s[..p.rate].to_vec()), s }
    }
}

// -------------------------------------------------------------------- usage

#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Op {
    /// Absorb the next witness value (directly, or through the buffer interface).
    Absorb(bool),
    /// Absorb the last squeezed value.
    Feed,
    Squeeze,
    /// Save; when permitted, resume and go on with the resumed sponge.
    Save { write: bool, rebuild: bool },
    /// Keep a copy aside / swap with the copy.
    Fork,
    Swap,
    Fresh,
    /// Resume from a state of witnessed elements.
    Load,
}
struct Use<F: Field, P: PoseidonPermutation<F>> {
    ops: Vec<Op>,
    params: &'static P,
    refused: Vec<bool>,
    _f: std::marker::PhantomData<F>,
}

impl<F: PrimeField, P: PoseidonPermutation<F>> Frag<F> for Use<F, P> {
    fn run<'dr, D: Driver<'dr, F = F>, I: Feeder<'dr, D>>(&self, dr: &mut D, feed: &mut I, io: &mut Io<'dr, D>, w: DriverValue<D, Vec<F>>) -> Result<()> {
        let mut sp: Sponge<'dr, D, P> = Sponge::new(dr, self.params);
        let mut kept: Option<Sponge<'dr, D, P>> = None;
        let mut k = 0;
        let mut last: Option<Element<'dr, D>> = None;
        let mut input = |dr: &mut D, io: &mut Io<'dr, D>| -> Result<Element<'dr, D>> {
            let i = k;
            k += 1;
            let e = feed.input(dr, D::just(|| w.as_ref().take()[i]))?;
            io.ins.push(e.clone());
            Ok(e)
        };
        for (op, refused) in self.ops.iter().zip(&self.refused) {
            match op {
                Op::Absorb(buf) => {
                    let e = input(dr, io)?;
                    if *buf { Buffer::write(&mut sp, dr, &e)? } else { sp.absorb(dr, &e)? }
                }
                Op::Feed => {
                    if let Some(e) = &last {
                        sp.absorb(dr, e)?
                    }
                }
                Op::Squeeze => match sp.squeeze(dr) {
                    Ok(e) => {
                        assert!(!*refused, "squeezing an empty sponge was accepted");
                        io.outs.push(e.clone());
                        last = Some(e);
                    }
                    Err(Error::Initialization(_)) if *refused => {}
                    Err(e) => return Err(e),
                },
                Op::Save { write, rebuild } => {
                    match sp.clone().save_state(dr) {
                        Ok(st) => {
                            assert!(!*refused, "saving the sponge was accepted at a point where it must be refused");
                            let mut st: SpongeState<'dr, D, P> = st;
                            if *write {
                                let n = io.outs.len();
                                st.write(dr, &mut io.outs)?;
                                assert_eq!(io.outs.len() - n, P::T, "serialized state size");
                            }
                            if *rebuild {
                                st = SpongeState::from_elements(st.into_elements());
                            }
                            sp = Sponge::resume(st, self.params);
                        }
                        Err(_) => assert!(*refused, "saving the sponge was refused at a permitted point"),
                    }
                }
                Op::Fork => kept = Some(sp.clone()),
                Op::Swap => {
                    if let Some(k) = &mut kept {
                        std::mem::swap(k, &mut sp);
                    }
                }
                Op::Fresh => sp = Sponge::new(dr, self.params),
                Op::Load => {
                    let mut v = vec![];
                    for _ in 0..P::T {
                        v.push(input(dr, io)?);
                    }
                    let v: FixedVec<Element<'dr, D>, PoseidonStateLen<F, P>> = FixedVec::try_from(v)?;
                    sp = Sponge::resume(SpongeState::from_elements(v), self.params);
                }
            }
        }
        Ok(())
    }
}

/// Evaluates the model; also says which operations must be refused.
fn model<F: Field>(p: &Par<F>, ops: &[Op], w: &[F]) -> (Vec<F>, Vec<F>, Vec<bool>, Vec<String>, usize) {
    let mut d = Duplex::new(p);
    let mut kept: Option<Duplex<F>> = None;
    let (mut ins, mut outs, mut refused, mut errs) = (vec![], vec![], vec![], vec![]);
    let mut perms = 0;
    let mut it = w.iter();
    let mut last = None;
    for op in ops {
        let mut r = false;
        match op {
            Op::Absorb(_) => {
                let v = *it.next().unwrap();
                ins.push(v);
                d.absorb(p, v, &mut perms);
            }
            Op::Feed => {
                if let Some(v) = last {
                    d.absorb(p, v, &mut perms);
                }
            }
            Op::Squeeze => match d.squeeze(p, &mut perms) {
                Some(v) => {
                    outs.push(v);
                    last = Some(v);
                }
                None => r = true,
            },
            Op::Save { write, .. } => match d.save(p, &mut perms) {
                Ok(s) => {
                    if *write {
                        outs.extend(&s);
                    }
                    d = Duplex::resume(p, s);
                }
                Err(e) => {
                    r = true;
                    errs.push(format!("{e:?}"));
                }
            },
            Op::Fork => kept = Some(d.clone()),
            Op::Swap => {
                if let Some(k) = &mut kept {
                    std::mem::swap(k, &mut d);
                }
            }
            Op::Fresh => d = Duplex::new(p),
            Op::Load => {
                let s: Vec<F> = (0..p.t).map(|_| *it.next().unwrap()).collect();
                ins.extend(&s);
                d = Duplex::resume(p, s);
            }
        }
        refused.push(r);
    }
    (ins, outs, refused, errs, perms)
}

fn pattern(r: &mut VRng, n: usize, t: usize, rate: usize) -> (Vec<Op>, usize) {
    let mut ops = vec![];
    let mut k = 0;
    while ops.len() < n {
        match r.below(16) {
            0..=4 => {
                let b = r.bool();
                let m = if r.below(3) == 0 { r.range(1, 2 * rate + 2) } else { 1 };
                for _ in 0..m {
                    ops.push(Op::Absorb(b));
                    k += 1;
                }
            }
            5..=9 => {
                let m = if r.below(3) == 0 { r.range(1, 2 * rate + 2) } else { 1 };
                for _ in 0..m {
                    ops.push(Op::Squeeze);
                }
            }
            10 => ops.push(Op::Feed),
            11 | 12 => ops.push(Op::Save { write: r.bool(), rebuild: r.bool() }),
            13 => ops.push(Op::Fork),
            14 => ops.push(Op::Swap),
            _ => match r.below(5) {
                0 => ops.push(Op::Fresh),
                1 => {
                    ops.push(Op::Load);
                    k += t;
                }
                _ => {}
            },
        }
    }
    (ops, k)
}

fn check<F: PrimeField, P: PoseidonPermutation<F>>(c: &mut Case, params: &'static P, ops: Vec<Op>, k: usize, all: &Option<Vec<F>>, atk: Option<Budget>) -> Res {
    let p = par::<F, P>(params);
    let w: Vec<F> = (0..k).map(|_| c.rng.field()).collect();
    let (ins, outs, refused, errs, perms) = model(&p, &ops, &w);
    c.event("permutations", perms as u64);
    c.event("absorbed", ins.len() as u64);
    c.event("squeezed", outs.len() as u64);
    c.event("refused operations", refused.iter().filter(|x| **x).count() as u64);
    for e in errs {
        c.event(&format!("save refused: {e}"), 1);
    }
    c.seen(&(ops.clone(), format!("{w:?}"), P::T, P::RATE));
    c.sample("usage", || format!("T={} rate={} {ops:?}", P::T, P::RATE));
    let g = Use { ops: ops.clone(), params, refused, _f: std::marker::PhantomData };
    let x = Expect { ins, outs, status: St::Ok };
    conform(c, &g, &w, &x).map_err(|e| format!("{e}; usage {ops:?}"))?;
    save_kinds::<F, P>(c, params, &ops, &w)?;
    if let Some(b) = atk {
        attack(c, &g, &x, all, b).map_err(|e| format!("{e}; usage {ops:?}"))?;
    }
    Ok(())
}

/// The refusal names the reason.
fn save_kinds<F: PrimeField, P: PoseidonPermutation<F>>(c: &mut Case, params: &'static P, ops: &[Op], w: &[F]) -> Res {
    use ragu_core::drivers::emulator::Emulator;
    let p = par::<F, P>(params);
    let mut got = vec![];
    let r = Emulator::emulate_wireless((), |dr, _| {
        let mut sp = Sponge::new(dr, params);
        let mut it = w.iter();
        for op in ops {
            match op {
                Op::Absorb(_) => {
                    let e = Element::constant(dr, *it.next().unwrap());
                    sp.absorb(dr, &e)?;
                }
                Op::Squeeze => {
                    let _ = sp.squeeze(dr);
                }
                Op::Save { .. } => {
                    got.push(sp.clone().save_state(dr).err());
                }
                _ => break,
            }
        }
        Ok(())
    });
    ensure_eq!(r.is_ok(), true, "emulated run");
    // the same prefix of the model, without resuming
    let mut d = Duplex::new(&p);
    let mut it = w.iter();
    let mut want = vec![];
    let mut perms = 0;
    for op in ops {
        match op {
            Op::Absorb(_) => d.absorb(&p, *it.next().unwrap(), &mut perms),
            Op::Squeeze => {
                d.squeeze(&p, &mut perms);
            }
            Op::Save { .. } => want.push(d.clone().save(&p, &mut perms).err()),
            _ => break,
        }
    }
    c.event("save verdicts compared", want.len() as u64);
    ensure_eq!(got, want, "save verdicts of {ops:?}");
    Ok(())
}

// ----------------------------------------------------------- tiny parameters

struct Tiny<F, const T: usize, const R: usize, const FU: usize, const PA: usize> {
    rc: Vec<Vec<F>>,
    mds: Vec<Vec<F>>,
}
impl<F: PrimeField, const T: usize, const R: usize, const FU: usize, const PA: usize> PoseidonPermutation<F> for Tiny<F, T, R, FU, PA> {
    const T: usize = T;
    const RATE: usize = R;
    const FULL_ROUNDS: usize = FU;
    const PARTIAL_ROUNDS: usize = PA;
    const ALPHA: isize = 5;
    fn round_constants(&self) -> impl Iterator<Item = &[F]> {
        self.rc.iter().map(|r| &r[..])
    }
    fn mds_matrix(&self) -> impl ExactSizeIterator<Item = &[F]> {
        self.mds.iter().map(|r| &r[..])
    }
}
impl<F: PrimeField, const T: usize, const R: usize, const FU: usize, const PA: usize> Tiny<F, T, R, FU, PA> {
    fn leak(r: &mut VRng) -> &'static Self {
        Box::leak(Box::new(Tiny {
            rc: (0..FU + PA).map(|_| (0..T).map(|_| r.field()).collect()).collect(),
            mds: (0..T).map(|_| (0..T).map(|_| r.field()).collect()).collect(),
        }))
    }
}

macro_rules! tiny {
    ($ctx:expr, $f:ty, $p:expr, $n:expr, $t:expr, $r:expr, $fu:expr, $pa:expr) => {{
        let all: Option<Vec<$f>> = if $p == 0 { None } else { Some((0..$p).map(<$f>::from).collect()) };
        $ctx.cases(concat!(stringify!($f), " T=", stringify!($t), " rate=", stringify!($r)), $n, move |c| {
            let mut seed = VRng::new(c.rng.u64());
            let params = Tiny::<$f, $t, $r, $fu, $pa>::leak(&mut seed);
            let n = c.rng.range(3, 14);
            let (ops, k) = pattern(&mut c.rng, n, $t, $r);
            check(c, params, ops, k, &all, Some(Budget { tries: 1, ..Default::default() }))
        });
    }};
}

fn p05(ctx: &Ctx) {
    ctx.rule("Random absorb/squeeze/save/resume/fork patterns on the Pasta parameters and on random small parameter sets; outputs, saved states and refusals are compared, under every driver, with an independently written permutation and duplex model, and a hostile prover searches the recorded rounds for other outputs.");
    let n = ctx.n(1000, 16000);
    tiny!(ctx, F7, 7, n, 2, 1, 2, 1);
    tiny!(ctx, F7, 7, n, 3, 2, 4, 3);
    tiny!(ctx, F17, 17, n, 3, 1, 2, 4);
    tiny!(ctx, F97, 97, n, 4, 3, 4, 2);
    tiny!(ctx, F97, 97, n, 5, 4, 2, 0);
    tiny!(ctx, Fp, 0, n, 3, 2, 4, 4);
    ctx.cases("Pasta Fp", ctx.n(300, 6000), |c| {
        let n = c.rng.range(3, 24);
        let (ops, k) = pattern(&mut c.rng, n, 5, 4);
        check(c, &PoseidonFp, ops, k, &None, None)
    });
    ctx.cases("Pasta Fq", ctx.n(300, 6000), |c| {
        let n = c.rng.range(3, 24);
        let (ops, k) = pattern(&mut c.rng, n, 5, 4);
        check(c, &PoseidonFq, ops, k, &None, None)
    });
    let b = Some(Budget { tries: 1, steps: 400_000, ..Default::default() });
    ctx.cases("Pasta Fp, hostile prover", ctx.n(30, 240), |c| {
        let mut ops = vec![Op::Absorb(false); c.rng.range(1, 6)];
        let k = ops.len();
        ops.push(Op::Squeeze);
        check(c, &PoseidonFp, ops, k, &None, b)
    });
    ctx.cases("Pasta Fq, hostile prover", ctx.n(20, 240), |c| {
        let mut ops = vec![Op::Absorb(false); c.rng.range(1, 4)];
        let k = ops.len();
        ops.push(Op::Save { write: true, rebuild: false });
        check(c, &PoseidonFq, ops, k, &None, b)
    });
    let _ = Fq::ONE;
}

fn main() {
    vh::main(&[("P05", p05)]);
}
