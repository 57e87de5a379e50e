#[derive(Clone)]
pub struct Rng {
    s: [u64; 2],
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn mix2(a: u64, b: u64) -> u64 {
    mix(mix(a) ^ b.rotate_left(17) ^ 0x1234_5678_9abc_def1)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng {
            s: [mix(seed) | 1, mix(seed ^ 0xabcd_ef01_2345_6789)],
        }
    }

    // xoroshiro128+
    pub fn u(&mut self) -> u64 {
        let s0 = self.s[0];
        let mut s1 = self.s[1];
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.s[0] = s0.rotate_left(24) ^ s1 ^ (s1 << 16);
        self.s[1] = s1.rotate_left(37);
        mix(r)
    }

    /// `0..n`, `n > 0`
    pub fn n(&mut self, n: usize) -> usize {
        ((self.u() as u128 * n as u128) >> 64) as usize
    }

    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.n(hi - lo + 1)
    }

    /// true with probability `a / b`
    pub fn p(&mut self, a: usize, b: usize) -> bool {
        self.n(b) < a
    }

    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        &s[self.n(s.len())]
    }

    pub fn weighted(&mut self, w: &[u32]) -> usize {
        let tot: u64 = w.iter().map(|x| *x as u64).sum();
        if tot == 0 {
            return self.n(w.len())
        }
        let mut r = (self.u() as u128 * tot as u128 >> 64) as u64;
        for (i, x) in w.iter().enumerate() {
            if r < *x as u64 {
                return i
            }
            r -= *x as u64;
        }
        w.len() - 1
    }

    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.n(i + 1);
            v.swap(i, j);
        }
    }
}
