//! Independent Poseidon permutation and duplex sponge.
use ff::Field;
use pasta_curves::Fp;
use ragu_arithmetic::{Cycle, PoseidonPermutation};
use ragu_pasta::Pasta;
use std::sync::OnceLock;

pub struct Par {
    t: usize,
    rate: usize,
    full: usize,
    part: usize,
    rc: Vec<Vec<Fp>>,
    mds: Vec<Vec<Fp>>,
}
fn par<P: PoseidonPermutation<Fp>>(p: &P) -> Par {
    Par {
        t: P::T,
        rate: P::RATE,
        full: P::FULL_ROUNDS,
        part: P::PARTIAL_ROUNDS,
        rc: p.round_constants().map(|r| r.to_vec()).collect(),
        mds: p.mds_matrix().map(|r| r.to_vec()).collect(),
    }
}
impl Par {
    pub fn fp() -> &'static Par {
        static P: OnceLock<Par> = OnceLock::new();
        P.get_or_init(|| par(Pasta::circuit_poseidon(Pasta::baked())))
    }
    fn permute(&self, s: &mut [Fp]) {
        for r in 0..self.full + self.part {
            for i in 0..self.t {
                s[i] += self.rc[r][i];
            }
            let partial = r >= self.full / 2 && r < self.full / 2 + self.part;
            for x in s.iter_mut().take(if partial { 1 } else { self.t }) {
                *x = x.square().square() * *x;
            }
            let o = s.to_vec();
            for i in 0..self.t {
                s[i] = (0..self.t).map(|j| self.mds[i][j] * o[j]).sum();
            }
        }
    }
}
#[derive(Clone)]
pub struct Duplex {
    s: Vec<Fp>,
    q: Vec<Fp>,
    squeezing: bool,
}
impl Duplex {
    pub fn new(p: &Par) -> Self {
        Duplex { s: vec![Fp::ZERO; p.t], q: vec![], squeezing: false }
    }
    fn mix(&mut self, p: &Par) {
        for (a, b) in self.s.iter_mut().zip(std::mem::take(&mut self.q)) {
            *a += b;
        }
        p.permute(&mut self.s);
    }
    pub fn absorb(&mut self, p: &Par, v: Fp) {
        if self.squeezing {
            self.squeezing = false;
            self.q.clear();
        }
        if self.q.len() == p.rate {
            self.mix(p);
        }
        self.q.push(v);
    }
    pub fn squeeze(&mut self, p: &Par) -> Fp {
        if !self.squeezing || self.q.is_empty() {
            if self.squeezing {
                p.permute(&mut self.s);
            } else {
                self.mix(p);
            }
            self.squeezing = true;
            self.q = self.s[..p.rate].to_vec();
        }
        self.q.remove(0)
    }
}
