//! Small deterministic PRNG (splitmix64 / xorshift), no dependencies.
#[derive(Clone, Debug)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Rng {
        let mut r = Rng(seed ^ 0x9e37_79b9_7f4a_7c15);
        r.next();
        r.next();
        r
    }
    /// Independent stream for a named purpose and index.
    pub fn derive(seed: u64, name: &str, idx: u64) -> Rng {
        let mut h = 0xcbf2_9ce4_8422_2325u64;
        for b in name.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
        }
        Rng::new(seed.wrapping_mul(0x2545_f491_4f6c_dd1d) ^ h ^ idx.wrapping_mul(0xd6e8_feb8_6659_fd93))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    pub fn u32(&mut self) -> u32 {
        (self.next() >> 32) as u32
    }
    pub fn u16(&mut self) -> u16 {
        (self.next() >> 48) as u16
    }
    pub fn u8(&mut self) -> u8 {
        (self.next() >> 56) as u8
    }
    /// 0..n (n > 0)
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n > 0);
        (((self.next() >> 32) as u128 * n as u128) >> 32) as usize
    }
    /// lo..=hi
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        assert!(hi >= lo, "range {}..={}", lo, hi);
        lo + self.below(hi - lo + 1)
    }
    pub fn irange(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as usize) as i64
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn bool(&mut self) -> bool {
        self.next() >> 63 == 1
    }
    pub fn f64(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let i = self.below(v.len());
        &v[i]
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
}

/// Image contents: a mix of noise, gradients, extremes and flat areas so that every bit
/// position, sign and run length of the codecs is exercised.
pub fn image(rng: &mut Rng, width: usize, height: usize, max: u32) -> Vec<u16> {
    let style = rng.below(8);
    let mut out = Vec::with_capacity(width * height);
    let base = rng.below(max as usize + 1) as i64;
    let (gx, gy) = (rng.irange(-20, 20), rng.irange(-20, 20));
    let noise = [0i64, 1, 5, 50, 500, 5000][rng.below(6)];
    for y in 0..height {
        for x in 0..width {
            let v: i64 = match style {
                0 | 1 => rng.below(max as usize + 1) as i64,
                2 => {
                    if rng.bool() {
                        0
                    } else {
                        max as i64
                    }
                }
                3 => base + gx * x as i64 + gy * y as i64,
                4 => base + rng.irange(-noise, noise),
                5 => {
                    // smooth with sparse spikes
                    if rng.chance(1, 20) {
                        rng.below(max as usize + 1) as i64
                    } else {
                        base + gx * (x / 2) as i64
                    }
                }
                6 => ((x * 31 + y * 17) as i64 * 7 + base) & 0xffff,
                _ => base + gx * x as i64 + gy * y as i64 + rng.irange(-noise, noise),
            };
            out.push(v.max(0).min(max as i64) as u16);
        }
    }
    out
}
