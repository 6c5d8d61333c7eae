//! Offline stand-in for `blake2b_simd`: portable BLAKE2b (RFC 7693) with the
//! builder API, sequential mode only.
#![no_std]
pub const OUTBYTES: usize = 64;
pub const BLOCKBYTES: usize = 128;
pub const PERSONALBYTES: usize = 16;
pub const SALTBYTES: usize = 16;

const IV: [u64; 8] = [
    0x6A09E667F3BCC908, 0xBB67AE8584CAA73B, 0x3C6EF372FE94F82B, 0xA54FF53A5F1D36F1,
    0x510E527FADE682D1, 0x9B05688C2B3E6C1F, 0x1F83D9ABFB41BD6B, 0x5BE0CD19137E2179,
];
const SIGMA: [[u8; 16]; 10] = [
    [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
    [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
    [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
    [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
    [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
    [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
    [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
    [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
    [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
    [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
];

fn compress(h: &mut [u64; 8], block: &[u8; 128], t: u128, last: bool) {
    let mut m = [0u64; 16];
    for (i, w) in m.iter_mut().enumerate() {
        let mut b = [0u8; 8];
        b.copy_from_slice(&block[i * 8..i * 8 + 8]);
        *w = u64::from_le_bytes(b);
    }
    let mut v = [0u64; 16];
    v[..8].copy_from_slice(h);
    v[8..].copy_from_slice(&IV);
    v[12] ^= t as u64;
    v[13] ^= (t >> 64) as u64;
    if last {
        v[14] = !v[14];
    }
    macro_rules! g {
        ($a:expr,$b:expr,$c:expr,$d:expr,$x:expr,$y:expr) => {
            v[$a] = v[$a].wrapping_add(v[$b]).wrapping_add($x);
            v[$d] = (v[$d] ^ v[$a]).rotate_right(32);
            v[$c] = v[$c].wrapping_add(v[$d]);
            v[$b] = (v[$b] ^ v[$c]).rotate_right(24);
            v[$a] = v[$a].wrapping_add(v[$b]).wrapping_add($y);
            v[$d] = (v[$d] ^ v[$a]).rotate_right(16);
            v[$c] = v[$c].wrapping_add(v[$d]);
            v[$b] = (v[$b] ^ v[$c]).rotate_right(63);
        };
    }
    for r in 0..12 {
        let s = &SIGMA[r % 10];
        let m = |i: usize| m[s[i] as usize];
        g!(0, 4, 8, 12, m(0), m(1));
        g!(1, 5, 9, 13, m(2), m(3));
        g!(2, 6, 10, 14, m(4), m(5));
        g!(3, 7, 11, 15, m(6), m(7));
        g!(0, 5, 10, 15, m(8), m(9));
        g!(1, 6, 11, 12, m(10), m(11));
        g!(2, 7, 8, 13, m(12), m(13));
        g!(3, 4, 9, 14, m(14), m(15));
    }
    for i in 0..8 {
        h[i] ^= v[i] ^ v[i + 8];
    }
}

#[derive(Clone, Debug)]
pub struct Params {
    hash_length: u8,
    salt: [u8; 16],
    personal: [u8; 16],
}
impl Default for Params {
    fn default() -> Self {
        Self::new()
    }
}
impl Params {
    pub fn new() -> Self {
        Params { hash_length: 64, salt: [0; 16], personal: [0; 16] }
    }
    pub fn hash_length(&mut self, n: usize) -> &mut Self {
        assert!((1..=64).contains(&n));
        self.hash_length = n as u8;
        self
    }
    pub fn salt(&mut self, s: &[u8]) -> &mut Self {
        assert!(s.len() <= 16);
        self.salt = [0; 16];
        self.salt[..s.len()].copy_from_slice(s);
        self
    }
    pub fn personal(&mut self, s: &[u8]) -> &mut Self {
        assert!(s.len() <= 16);
        self.personal = [0; 16];
        self.personal[..s.len()].copy_from_slice(s);
        self
    }
    pub fn to_state(&self) -> State {
        let mut p = [0u8; 64];
        p[0] = self.hash_length;
        p[2] = 1;
        p[3] = 1;
        p[32..48].copy_from_slice(&self.salt);
        p[48..64].copy_from_slice(&self.personal);
        let mut h = IV;
        for i in 0..8 {
            let mut b = [0u8; 8];
            b.copy_from_slice(&p[i * 8..i * 8 + 8]);
            h[i] ^= u64::from_le_bytes(b);
        }
        State { h, buf: [0; 128], buflen: 0, t: 0, hash_length: self.hash_length }
    }
    pub fn hash(&self, input: &[u8]) -> Hash {
        self.to_state().update(input).finalize()
    }
}
#[derive(Clone, Debug)]
pub struct State {
    h: [u64; 8],
    buf: [u8; 128],
    buflen: usize,
    t: u128,
    hash_length: u8,
}
impl Default for State {
    fn default() -> Self {
        Self::new()
    }
}
impl State {
    pub fn new() -> Self {
        Params::new().to_state()
    }
    pub fn update(&mut self, mut input: &[u8]) -> &mut Self {
        while !input.is_empty() {
            if self.buflen == 128 {
                self.t += 128;
                let b = self.buf;
                compress(&mut self.h, &b, self.t, false);
                self.buflen = 0;
            }
            let n = core::cmp::min(128 - self.buflen, input.len());
            self.buf[self.buflen..self.buflen + n].copy_from_slice(&input[..n]);
            self.buflen += n;
            input = &input[n..];
        }
        self
    }
    pub fn finalize(&self) -> Hash {
        let mut h = self.h;
        let mut b = [0u8; 128];
        b[..self.buflen].copy_from_slice(&self.buf[..self.buflen]);
        compress(&mut h, &b, self.t + self.buflen as u128, true);
        let mut bytes = [0u8; 64];
        for i in 0..8 {
            bytes[i * 8..i * 8 + 8].copy_from_slice(&h[i].to_le_bytes());
        }
        Hash { bytes, len: self.hash_length }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Hash {
    bytes: [u8; 64],
    len: u8,
}
impl Hash {
    pub fn as_bytes(&self) -> &[u8] {
        &self.bytes[..self.len as usize]
    }
    pub fn as_array(&self) -> &[u8; 64] {
        &self.bytes
    }
}
impl AsRef<[u8]> for Hash {
    fn as_ref(&self) -> &[u8] {
        self.as_bytes()
    }
}
pub fn blake2b(input: &[u8]) -> Hash {
    State::new().update(input).finalize()
}

#[cfg(test)]
mod tests {
    #[test]
    fn abc() {
        let h = super::blake2b(b"abc");
        assert_eq!(&h.as_bytes()[..8], &[0xba, 0x80, 0xa5, 0x3f, 0x98, 0x1c, 0x4d, 0x0d]);
    }
}
