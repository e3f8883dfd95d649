//! Small deterministic PRNG (splitmix64 seeding + xoshiro256**). Every random choice of every
//! workload comes from here, so (property, seed, case index) replays a case exactly.

#[derive(Clone, Debug)]
pub struct Rng {
    s: [u64; 4],
}

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut x = seed;
        Rng {
            s: [
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
                splitmix(&mut x),
            ],
        }
    }

    /// A generator for one case of one workload.
    pub fn for_case(seed: u64, stream: &str, index: u64) -> Rng {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for b in stream.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        let mut x = seed.wrapping_mul(0x2545_F491_4F6C_DD1D) ^ h;
        let a = splitmix(&mut x);
        Rng::new(a ^ index.wrapping_mul(0xD6E8_FEB8_6659_FD93))
    }

    pub fn u64(&mut self) -> u64 {
        let r = self.s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    /// Uniform in 0..n (n > 0).
    pub fn below(&mut self, n: usize) -> usize {
        ((self.u64() as u128 * n as u128) >> 64) as usize
    }

    /// Uniform in lo..=hi.
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }

    pub fn byte(&mut self) -> u8 {
        (self.u64() >> 56) as u8
    }

    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }

    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }

    /// Roughly log-uniform in lo..=hi (integers only: the same on every platform).
    pub fn logrange(&mut self, lo: usize, hi: usize) -> usize {
        let lo = lo.max(1);
        if hi <= lo {
            return hi.max(1).min(lo);
        }
        let a = lo.ilog2() as usize;
        let b = hi.ilog2() as usize;
        let e = self.range(a, b);
        let l = (1usize << e).max(lo);
        let h = (1usize << e).saturating_mul(2).saturating_sub(1).min(hi);
        self.range(l, h.max(l))
    }

    pub fn fill(&mut self, out: &mut Vec<u8>, n: usize) {
        let end = out.len() + n;
        out.reserve(n + 8);
        while out.len() + 8 <= end {
            out.extend_from_slice(&self.u64().to_le_bytes());
        }
        while out.len() < end {
            let b = self.byte();
            out.push(b);
        }
    }

    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i + 1);
            xs.swap(i, j);
        }
    }
}
