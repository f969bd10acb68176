//! Lossless JPEG encoder for the variants found in raw files.
use crate::huff::*;
use crate::pack::*;
use crate::rng::Rng;

/// What differs between the users of the format.
#[derive(Clone, Copy)]
pub struct Kind {
    pub extra16: bool,
    pub csfix: bool,
    pub predictor: u8,
    /// sampling factors of the first component
    pub sub: (u8, u8),
    /// point transform: the samples coded are this many bits shorter than the precision
    pub pt: u32,
}
pub const PLAIN: Kind = Kind { extra16: false, csfix: false, predictor: 1, sub: (1, 1), pt: 0 };

pub struct Header {
    pub bytes: Vec<u8>,
    pub tables: Vec<Huff>, // per component
}

/// Everything up to the entropy coded data, with random tables.
pub fn header(rng: &mut Rng, k: Kind, comps: usize, fw: usize, fh: usize, precision: u32, maxcat: u32) -> Header {
    let maxlen = precision.min(16);
    let ntab = if k.predictor == 8 { 1 } else { rng.range(1, comps.min(4)) };
    let mut slots: Vec<u8> = vec![0, 1, 2, 3];
    if rng.bool() {
        rng.shuffle(&mut slots);
    }
    let mut tabs = Vec::new();
    for _ in 0..ntab {
        let top = if rng.bool() { maxcat } else { 16 };
        let syms: Vec<u8> = (0..=top as u8).collect();
        tabs.push(Huff::random(rng, &syms, maxlen.max(5)));
    }
    let sel: Vec<usize> = (0..comps).map(|i| if i < ntab { i } else { rng.below(ntab) }).collect();

    let mut ids: Vec<u8> = (0..comps as u8).collect();
    let mut cs = ids.clone();
    if k.csfix {
        if rng.bool() {
            for c in cs.iter_mut() {
                *c = rng.u8();
            }
        }
    } else {
        match rng.below(3) {
            0 => {}
            1 => ids.iter_mut().for_each(|x| *x += 1),
            _ => {
                let b = rng.below(200) as u8;
                ids.iter_mut().for_each(|x| *x = b + 3 * *x);
                ids.reverse();
            }
        }
        cs = ids.clone();
    }

    let mut sof = vec![0xff, 0xc3];
    sof.extend(&((8 + comps * 3) as u16).to_be_bytes());
    sof.push(precision as u8);
    sof.extend(&(fh as u16).to_be_bytes());
    sof.extend(&(fw as u16).to_be_bytes());
    sof.push(comps as u8);
    for i in 0..comps {
        sof.push(ids[i]);
        sof.push(if i == 0 { k.sub.0 << 4 | k.sub.1 } else { 0x11 });
        sof.push(0);
    }
    let mut dhts: Vec<Vec<u8>> = Vec::new();
    if rng.bool() {
        let mut body = Vec::new();
        for i in 0..ntab {
            body.extend(tabs[i].dht(slots[i]));
        }
        dhts.push(body);
    } else {
        for i in 0..ntab {
            dhts.push(tabs[i].dht(slots[i]));
        }
    }
    // a table can be defined again, the last definition counts
    let again = rng.chance(1, 6);
    let mut first = Vec::new();
    if again {
        for i in 0..ntab {
            let syms: Vec<u8> = (0..=rng.below(17) as u8).collect();
            let t = Huff::random(rng, &syms, maxlen.max(5));
            let d = t.dht(slots[i]);
            first.extend(&[0xff, 0xc4]);
            first.extend(&((d.len() + 2) as u16).to_be_bytes());
            first.extend(d);
        }
    }
    let mut segs = vec![sof];
    for d in dhts {
        let mut s = vec![0xff, 0xc4];
        s.extend(&((d.len() + 2) as u16).to_be_bytes());
        s.extend(d);
        segs.push(s);
    }
    if rng.bool() {
        rng.shuffle(&mut segs);
    }
    if rng.chance(1, 4) {
        segs.insert(rng.below(segs.len() + 1), b"\xff\xfe\x00\x07hello".to_vec());
    }
    let mut out = vec![0xff, 0xd8];
    out.extend(first);
    for s in segs {
        out.extend(s);
    }
    out.extend(&[0xff, 0xda]);
    out.extend(&((6 + 2 * comps) as u16).to_be_bytes());
    out.push(comps as u8);
    for i in 0..comps {
        out.push(cs[i]);
        out.push(slots[sel[i]] << 4);
    }
    out.extend(&[k.predictor, 0, k.pt as u8]);
    let tables = sel.iter().map(|&i| tabs[i].clone()).collect();
    Header { bytes: out, tables }
}

/// Predictor 1 coding of `comps` interleaved components; `img` has rows of fw*comps samples.
pub fn scan(rng: &mut Rng, h: &Header, k: Kind, img: &[u16], fw: usize, precision: u32) -> Vec<u8> {
    let comps = h.tables.len();
    let rowlen = fw * comps;
    let mut m = Msb::new();
    let base = 1i32 << (precision - k.pt - 1);
    let nrows = img.len() / rowlen;
    for r in 0..nrows {
        for c in 0..rowlen {
            let v = img[r * rowlen + c] as i32;
            let p = if c >= comps {
                img[r * rowlen + c - comps] as i32
            } else if r > 0 {
                img[(r - 1) * rowlen + c] as i32
            } else {
                base
            };
            put_diff(&mut m, &h.tables[c % comps], v - p, k.extra16, rng.u32());
        }
    }
    stuff(&m.finish(rng.bool()))
}

/// A complete stream: `img` has `fh` rows of fw*comps samples below 2^precision.
pub fn encode(rng: &mut Rng, k: Kind, img: &[u16], comps: usize, fw: usize, fh: usize, precision: u32) -> Vec<u8> {
    assert_eq!(img.len(), fw * fh * comps);
    let h = header(rng, k, comps, fw, fh, precision, precision);
    let mut out = h.bytes.clone();
    out.extend(scan(rng, &h, k, img, fw, precision));
    out.extend(&[0xff, 0xd9]);
    out
}

/// Pairs of lengths followed by pairs of differences in byte swapped 32 bit words.
pub fn encode_hasselblad(rng: &mut Rng, img: &[u16], w: usize, h: usize) -> Vec<u8> {
    let k = Kind { predictor: 8, extra16: true, ..PLAIN };
    let hd = header(rng, k, 1, w, h, 16, 16);
    let t = &hd.tables[0];
    let mut m = Msb::new();
    for row in img.chunks(w) {
        let mut p = [0x8000i32; 2];
        for pair in row.chunks(2) {
            let d = [pair[0] as i32 - p[0], pair[1] as i32 - p[1]];
            let c = [category(d[0]), category(d[1])];
            t.put(&mut m, c[0] as u8);
            t.put(&mut m, c[1] as u8);
            for i in 0..2 {
                put_diff_bits(&mut m, d[i], c[i]);
                if c[i] == 16 {
                    m.put(rng.u32() & 0xffff, 16);
                }
                p[i] = pair[i] as i32;
            }
        }
    }
    let mut out = hd.bytes;
    out.extend(swap(m.finish(false), 4));
    out
}

/// Strips of 8 rows separated by markers.
pub fn encode_leaf(rng: &mut Rng, img: &[u16], w: usize, h: usize, precision: u32, pt: u32) -> Vec<u8> {
    let k = Kind { extra16: true, csfix: true, pt, ..PLAIN };
    let hd = header(rng, k, 2, w / 2, h, precision, precision);
    let mut out = hd.bytes.clone();
    let n = (h + 7) / 8;
    for (i, strip) in img.chunks(w * 8).enumerate() {
        out.extend(scan(rng, &hd, k, strip, w / 2, precision));
        if i + 1 < n {
            out.extend(&[0xff, 0xd0 + (i % 8) as u8]);
        }
    }
    out.extend(&[0xff, 0xd9]);
    out
}

/// Subsampled YCbCr: `y` has w*h samples, `cb` and `cr` one per block.
pub fn encode_yuv(rng: &mut Rng, y: &[u16], cb: &[u16], cr: &[u16], w: usize, h: usize, vsub: usize, precision: u32) -> Vec<u8> {
    let k = Kind { sub: (2, vsub as u8), ..PLAIN };
    let hd = header(rng, k, 3, w, h, precision, 16);
    let mut m = Msb::new();
    let base = 1i32 << (precision - 1);
    let bw = w / 2;
    for br in 0..h / vsub {
        for bc in 0..bw {
            let b = br * bw + bc;
            let (mut py, pb, pr) = if bc > 0 {
                (y[(br * vsub + vsub - 1) * w + bc * 2 - 1] as i32, cb[b - 1] as i32, cr[b - 1] as i32)
            } else if br > 0 {
                // the first pixel of the block above
                (y[(br - 1) * vsub * w] as i32, cb[b - bw] as i32, cr[b - bw] as i32)
            } else {
                (base, base, base)
            };
            for v in 0..vsub {
                for x in 0..2 {
                    let cur = y[(br * vsub + v) * w + bc * 2 + x] as i32;
                    put_diff(&mut m, &hd.tables[0], cur - py, false, 0);
                    py = cur;
                }
            }
            put_diff(&mut m, &hd.tables[1], cb[b] as i32 - pb, false, 0);
            put_diff(&mut m, &hd.tables[2], cr[b] as i32 - pr, false, 0);
        }
    }
    let mut out = hd.bytes;
    out.extend(stuff(&m.finish(rng.bool())));
    out.extend(&[0xff, 0xd9]);
    out
}
