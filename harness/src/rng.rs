//! Small deterministic generator; every random choice of a run comes from it.

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn hash_bytes(bs: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    let mut it = bs.chunks_exact(8);
    for c in &mut it {
        let mut w = [0u8; 8];
        w.copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(w)).wrapping_mul(0x0000_0100_0000_01b3);
        h ^= h >> 29;
    }
    for b in it.remainder() {
        h = (h ^ u64::from(*b)).wrapping_mul(0x0000_0100_0000_01b3);
    }
    mix(h ^ bs.len() as u64)
}

impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(mix(seed ^ 0x5bd1_e995)) }

    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }

    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: u64) -> u64 { self.next() % n }

    pub fn usize(&mut self, n: usize) -> usize { self.below(n as u64) as usize }

    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 { lo + self.below(hi - lo + 1) }

    pub fn chance(&mut self, num: u64, den: u64) -> bool { self.below(den) < num }

    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.usize(v.len());
        &v[i]
    }

    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.usize(i + 1);
            v.swap(i, j);
        }
    }

    /// Bytes with enough structure to expose reordering: every position is
    /// distinguishable from its neighbours.
    pub fn bytes(&mut self, len: usize) -> Vec<u8> {
        let mut v = Vec::with_capacity(len + 8);
        while v.len() < len {
            v.extend_from_slice(&self.next().to_le_bytes());
        }
        v.truncate(len);
        v
    }

    /// Compressible text-like bytes.
    pub fn text(&mut self, len: usize) -> Vec<u8> {
        const W: [&str; 12] = ["lorem ", "ipsum ", "dolor ", "sit ", "amet ", "\r\n", "<p>", "</p>",
            "consectetur ", "0123456789", "aaaaaaaaaaaaaaaa", "BARC2 "];
        let mut v = Vec::with_capacity(len + 16);
        while v.len() < len {
            if self.chance(1, 8) {
                let x = self.next();
                v.extend_from_slice(format!("{:x}", x).as_bytes());
            } else {
                let w = *self.pick(&W);
                v.extend_from_slice(w.as_bytes());
            }
        }
        v.truncate(len);
        v
    }
}
