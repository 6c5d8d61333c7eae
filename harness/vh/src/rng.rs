//! Deterministic generator usable wherever the library wants an RNG.
use core::convert::Infallible;
use rand_core::{TryCryptoRng, TryRng};

#[derive(Clone, Debug)]
pub struct VRng {
    s: u64,
}
impl VRng {
    pub fn new(seed: u64) -> Self {
        VRng { s: seed }
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn u64(&mut self) -> u64 {
        self.s = self.s.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.s;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn u128(&mut self) -> u128 {
        ((self.u64() as u128) << 64) | self.u64() as u128
    }
    /// Uniform in `0..n` (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        (((self.u64() as u128) * (n as u128)) >> 64) as usize
    }
    /// Uniform in `a..=b`.
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    pub fn bool(&mut self) -> bool {
        self.u64() >> 63 == 1
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    /// Random element of a prime field with the special values boosted.
    pub fn field<F: ff::PrimeField>(&mut self) -> F {
        match self.below(16) {
            0 => F::ZERO,
            1 => F::ONE,
            2 => -F::ONE,
            3 => F::from(2),
            4 => F::from(self.u64() & 0xff),
            5 => -F::from(self.u64() & 0xff),
            6 => F::ROOT_OF_UNITY,
            7 => F::from(1u64 << self.below(64)),
            8 => {
                // a power of two anywhere in the field
                let k = self.below(F::NUM_BITS as usize) as u64;
                F::from(2).pow_vartime([k])
            }
            _ => F::random(self),
        }
    }
    pub fn uniform<F: ff::Field>(&mut self) -> F {
        F::random(self)
    }
    pub fn nonzero<F: ff::PrimeField>(&mut self) -> F {
        loop {
            let f = self.field::<F>();
            if !f.is_zero_vartime() {
                return f;
            }
        }
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
}
impl TryRng for VRng {
    type Error = Infallible;
    fn try_next_u32(&mut self) -> Result<u32, Infallible> {
        Ok((self.u64() >> 32) as u32)
    }
    fn try_next_u64(&mut self) -> Result<u64, Infallible> {
        Ok(self.u64())
    }
    fn try_fill_bytes(&mut self, dst: &mut [u8]) -> Result<(), Infallible> {
        for c in dst.chunks_mut(8) {
            let b = self.u64().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
        Ok(())
    }
}
impl TryCryptoRng for VRng {}
