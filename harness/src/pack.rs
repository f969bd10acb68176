//! Writers for bit streams and sample packings.

#[derive(Default, Clone)]
pub struct Msb {
    pub out: Vec<u8>,
    acc: u64,
    n: u32,
}
impl Msb {
    pub fn new() -> Msb {
        Msb::default()
    }
    pub fn put(&mut self, v: u32, bits: u32) {
        if bits == 0 {
            return;
        }
        let v = (v as u64) & ((1u64 << bits) - 1);
        self.acc = (self.acc << bits) | v;
        self.n += bits;
        while self.n >= 8 {
            self.n -= 8;
            self.out.push((self.acc >> self.n) as u8);
        }
        self.acc &= (1u64 << self.n) - 1;
    }
    pub fn bits(&self) -> usize {
        self.out.len() * 8 + self.n as usize
    }
    /// pad with the given bit
    pub fn finish(mut self, one: bool) -> Vec<u8> {
        while self.n != 0 {
            self.put(one as u32, 1);
        }
        self.out
    }
}

#[derive(Default, Clone)]
pub struct Lsb {
    pub out: Vec<u8>,
    acc: u64,
    n: u32,
}
impl Lsb {
    pub fn new() -> Lsb {
        Lsb::default()
    }
    pub fn put(&mut self, v: u32, bits: u32) {
        let v = (v as u64) & ((1u64 << bits) - 1);
        self.acc |= v << self.n;
        self.n += bits;
        while self.n >= 8 {
            self.out.push(self.acc as u8);
            self.acc >>= 8;
            self.n -= 8;
        }
    }
    pub fn finish(mut self) -> Vec<u8> {
        if self.n > 0 {
            self.out.push(self.acc as u8);
        }
        self.out
    }
}

pub fn msb(vals: &[u16], bits: u32) -> Vec<u8> {
    let mut m = Msb::new();
    for &v in vals {
        m.put(v as u32, bits);
    }
    m.finish(false)
}
pub fn lsb(vals: &[u16], bits: u32) -> Vec<u8> {
    let mut m = Lsb::new();
    for &v in vals {
        m.put(v as u32, bits);
    }
    m.finish()
}
/// reverse the bytes of each group of n
pub fn swap(mut b: Vec<u8>, n: usize) -> Vec<u8> {
    while b.len() % n != 0 {
        b.push(0);
    }
    for c in b.chunks_mut(n) {
        c.reverse();
    }
    b
}
pub fn u16s(vals: &[u16], big: bool) -> Vec<u8> {
    vals.iter().flat_map(|&v| if big { v.to_be_bytes() } else { v.to_le_bytes() }).collect()
}
/// JPEG byte stuffing
pub fn stuff(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(b.len() + b.len() / 64);
    for &x in b {
        o.push(x);
        if x == 0xff {
            o.push(0);
        }
    }
    o
}
/// 12 bit rows with a control byte every 10 samples
pub fn wcontrol(vals: &[u16], width: usize, big: bool, ctl: &mut dyn FnMut() -> u8) -> Vec<u8> {
    let perline = width * 12 / 8 + ((width + 2) / 10);
    let mut out = Vec::new();
    for row in vals.chunks(width) {
        let start = out.len();
        for grp in row.chunks(10) {
            out.extend(if big { msb(grp, 12) } else { lsb(grp, 12) });
            if grp.len() == 10 {
                out.push(ctl());
            }
        }
        while out.len() - start < perline {
            out.push(ctl());
        }
        assert_eq!(out.len() - start, perline);
    }
    out
}

/// The decoders' deterministic dither around a tone curve
pub struct Curve(pub Vec<u16>);
impl Curve {
    pub fn dither(&self, code: u16, rand: &mut u32) -> u16 {
        let t = &self.0;
        let i = code as usize;
        let c = t[i] as i64;
        let lo = if i > 0 { t[i - 1] as i64 } else { c };
        let hi = if i + 1 < t.len() { t[i + 1] as i64 } else { c };
        let base = if c == 0 { 0 } else { c - (hi - lo + 2) / 4 };
        let delta = hi - lo;
        let v = base + ((delta * (*rand as i64 & 2047) + 1024) >> 12);
        *rand = 15700u32.wrapping_mul(*rand & 65535).wrapping_add(*rand >> 16);
        v as u16
    }
}

/// A monotonic curve with n points that the dither can represent
pub fn random_curve(rng: &mut crate::rng::Rng, n: usize, max: u32) -> Vec<u16> {
    let style = rng.below(5);
    let step = (max as usize / n).max(1);
    let mut v: Vec<i64> = Vec::with_capacity(n);
    let mut cur: i64 = if rng.bool() { 0 } else { rng.below(64) as i64 };
    for i in 0..n {
        let d = match style {
            0 => step as i64,
            1 => rng.below(2 * step + 1) as i64,
            2 => if i % 16 < 8 { 0 } else { rng.below(4 * step + 1) as i64 },
            3 => ((i as i64 * max as i64 / n as i64) * i as i64 / n as i64) - cur,
            _ => rng.below(3) as i64,
        };
        // keep the spread of the dither non-negative
        let d = d.max(0).min(cur.max(1));
        v.push(cur);
        cur = (cur + d).min(max as i64);
    }
    // second pass: base = c - (hi-lo+2)/4 must not go below zero
    for i in 1..n {
        let lo = v[i - 1];
        let c = v[i];
        if c > 0 && i + 1 < n {
            let maxhi = c * 4 - 2 + lo;
            if v[i + 1] > maxhi {
                v[i + 1] = maxhi.max(c);
            }
        }
    }
    for i in 1..n {
        if v[i] < v[i - 1] {
            v[i] = v[i - 1];
        }
    }
    // the first point
    if n > 1 && v[0] > 0 && (v[1] - v[0] + 2) / 4 > v[0] {
        v[1] = v[0];
    }
    let out: Vec<u16> = v.iter().map(|&x| x as u16).collect();
    for i in 0..n {
        let c = out[i] as i64;
        let lo = if i > 0 { out[i - 1] as i64 } else { c };
        let hi = if i + 1 < n { out[i + 1] as i64 } else { c };
        if c > 0 && c < (hi - lo + 2) / 4 {
            // extremely steep start: fall back to a straight line
            return (0..n).map(|i| ((i as u64 * max as u64) / n as u64) as u16).collect();
        }
    }
    out
}
