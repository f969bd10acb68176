//! Samsung SRW, Fuji RAF, Phase One IIQ, Canon CRW and Kodak DCR.
use crate::case::*;
use crate::cat::Cam;
use crate::huff::*;
use crate::pack::*;
use crate::tiff::*;
use crate::vendor1::{longs, shorts};

// ---------------------------------------------------------------- Samsung

fn is_samsung(c: &Cam) -> bool {
    c.make == "SAMSUNG" && c.mode.is_empty()
}

/// bits needed for a two's complement value, 0 for 0
fn sbits(v: i32) -> u32 {
    if v == 0 {
        return 0;
    }
    let mut n = 1;
    while v < -(1 << (n - 1)) || v >= 1 << (n - 1) {
        n += 1;
    }
    n
}

/// Samples as stored (before the red/blue swap), row by row
fn srw1_encode(g: &mut G, s: &[u16], w: usize, h: usize) -> (Vec<u8>, Vec<u32>) {
    let mut out = Vec::new();
    let mut offs = Vec::new();
    let at = |r: usize, c: usize| s[r * w + c] as i32;
    for row in 0..h {
        if g.lay.pad {
            let n = g.rng.below(5);
            out.extend(g.rng.bytes(n));
        }
        offs.push(out.len() as u32);
        let mut len = [if row < 2 { 7i32 } else { 4 }; 4];
        let mut m = Msb::new();
        for col in (0..w).step_by(16) {
            // on the first rows there is nothing above to predict from
            let dir = row > 1 && g.rng.bool();
            let mut adj = [0i32; 16];
            for c in 0..16 {
                if col + c >= w {
                    continue;
                }
                let pred = if dir {
                    if c % 2 == 0 { at(row - 1, col + c) } else { at(row - 2, col + c) }
                } else if col == 0 {
                    128
                } else {
                    at(row, col - if c % 2 == 0 { 2 } else { 1 })
                };
                adj[c] = at(row, col + c) - pred;
            }
            // order of the groups: even low, even high, odd low, odd high
            let mut need = [0i32; 4];
            for c in 0..16 {
                let k = (c & 1) * 2 | (c >> 3);
                need[k] = need[k].max(sbits(adj[c]) as i32);
            }
            m.put(dir as u32, 1);
            let mut ops = [0; 4];
            for k in 0..4 {
                let mut choice = vec![];
                if len[k] >= need[k] {
                    choice.push(0);
                }
                if len[k] + 1 >= need[k] && len[k] < 15 {
                    choice.push(1);
                }
                if len[k] - 1 >= need[k] && len[k] > 0 {
                    choice.push(2);
                }
                choice.push(3);
                ops[k] = *g.rng.pick(&choice);
                m.put(ops[k], 2);
            }
            for k in 0..4 {
                match ops[k] {
                    1 => len[k] += 1,
                    2 => len[k] -= 1,
                    3 => {
                        len[k] = (need[k] + if g.rng.chance(1, 4) { g.rng.below(3) as i32 } else { 0 }).min(15);
                        m.put(len[k] as u32, 4);
                    }
                    _ => {}
                }
            }
            for c in (0..16).step_by(2) {
                m.put(adj[c] as u32, len[c >> 3] as u32);
            }
            for c in (1..16).step_by(2) {
                m.put(adj[c] as u32, len[2 | (c >> 3)] as u32);
            }
        }
        let mut b = swap(m.finish(false), 4);
        b.extend(g.slack(4));
        out.extend(b);
    }
    (out, offs)
}

fn srw2_encode(img: &[u16], w: usize, h: usize) -> Vec<u8> {
    // (code, code length) by number of difference bits
    let table = |n: u32| match n {
        0 => (0b110100, 6),
        1 => (0b11011, 5),
        2 => (0b1111, 4),
        3 => (0b1100, 4),
        4 => (0b000, 3),
        5 => (0b10, 2),
        6 => (0b01, 2),
        7 => (0b001, 3),
        8 => (0b1110, 4),
        9 => (0b1101010, 7),
        10 => (0b11010110, 8),
        11 => (0b110101110, 9),
        12 => (0b1101011110, 10),
        _ => (0b1101011111, 10),
    };
    let mut m = Msb::new();
    let mut up = [[0i32; 2]; 2];
    for row in 0..h {
        let mut left = [0i32; 2];
        for col in 0..w {
            let v = img[row * w + col] as i32;
            let pred = if col < 2 { up[row & 1][col] } else { left[col & 1] };
            let d = v - pred;
            let n = 32 - d.abs().leading_zeros();
            let (c, l) = table(n);
            m.put(c, l);
            if n > 0 {
                m.put((if d > 0 { d } else { d + (1 << n) - 1 }) as u32, n);
            }
            left[col & 1] = v;
            if col < 2 {
                up[row & 1][col] = v;
            }
        }
    }
    m.finish(true)
}

fn srw3_encode(g: &mut G, img: &mut [u16], w: usize, h: usize, depth: u32) -> Vec<u8> {
    let opt = g.rng.below(8) as u32;
    let (skip, mv, qp) = (opt & 1 != 0, opt & 2 != 0, opt & 4 != 0);
    let init = g.rng.below(1 << depth.min(14)) as u32;
    let mut hd = Msb::new();
    hd.put(g.rng.u32(), 16);
    hd.put(g.rng.u32(), 4);
    hd.put(depth - 1, 4);
    hd.put(g.rng.u32(), 8);
    hd.put(w as u32, 16);
    hd.put(h as u32, 16);
    hd.put(g.rng.u32(), 16);
    hd.put(g.rng.u32(), 4);
    hd.put(opt, 4);
    hd.put(g.rng.u32(), 24);
    hd.put(g.rng.u32(), 2);
    hd.put(init, 14);
    let mut out = swap(hd.finish(false), 4);
    assert_eq!(out.len(), 16);
    for row in 0..h {
        let mut m = Msb::new();
        let mut motion = 7usize;
        let mut mode = [[if row < 2 { 7i32 } else { 4 }; 2]; 3];
        for col in (0..w).step_by(16) {
            let mut scale = 0i32;
            if !qp && col & 63 == 0 {
                // scaled differences only in the last block of a line
                let k = if col + 16 == w && g.rng.bool() { g.rng.range(1, 3) } else { *g.rng.pick(&[0, 0, 0, 3]) };
                m.put(k as u32, 2);
                scale = match k {
                    0 => 0,
                    1 => -2,
                    2 => 2,
                    _ => {
                        let v = if col + 16 == w { g.rng.below(5) as u32 } else { 0 };
                        m.put(v, 12);
                        v as i32
                    }
                };
            }
            // reference pixels that stay inside of the line
            let usable = |mo: usize| -> bool {
                if mo == 7 {
                    return true;
                }
                if row < 2 {
                    return false;
                }
                let off = [-4i64, -2, -2, 0, 0, 2, 4][mo];
                let avg = [0, 0, 1, 0, 1, 0, 0][mo];
                let lo = col as i64 - 1 + off;
                let hi = col as i64 + 16 + off + if avg != 0 { 2 } else { 0 };
                (off == 0 || lo >= 0) && (col as i64 + off >= 0) && hi < w as i64 + if off == 0 && avg == 0 { 1 } else { 0 }
            };
            if mv {
                motion = if row >= 2 && g.rng.bool() { 3 } else { 7 };
                m.put((motion == 3) as u32, 1);
            } else {
                let c: Vec<usize> = (0..8).filter(|&x| usable(x)).collect();
                let n = *g.rng.pick(&c);
                if usable(motion) && g.rng.bool() {
                    m.put(1, 1);
                } else {
                    motion = n;
                    m.put(0, 1);
                    m.put(n as u32, 3);
                }
            }
            let at = |r: usize, c: i64| img[r * w + c as usize] as i32;
            let mut pred = [0i32; 16];
            for i in 0..16 {
                pred[i] = if motion == 7 {
                    if col == 0 { init as i32 } else { at(row, col as i64 - 2 + (i as i64 & 1)) }
                } else {
                    let off = [-4i64, -2, -2, 0, 0, 2, 4][motion];
                    let avg = motion == 2 || motion == 4;
                    let (r, c) = if (row + i) & 1 == 1 {
                        (row - 2, (col + i) as i64 + off)
                    } else if i % 2 == 1 {
                        (row - 1, (col + i) as i64 - 1 + off)
                    } else {
                        (row - 1, (col + i) as i64 + 1 + off)
                    };
                    if avg { (at(r, c) + at(r, c + 2) + 1) >> 1 } else { at(r, c) }
                };
            }
            // position of the n-th difference
            let pos = |n: usize| if row % 2 == 1 { ((n & 7) << 1) + 1 - (n >> 3) } else { ((n & 7) << 1) + (n >> 3) };
            let max = (1i32 << depth) - 1;
            let allzero = !skip && g.rng.chance(1, 6);
            let mut diffs = [0i32; 16];
            let step = scale * 2 + 1;
            for n in 0..16 {
                let p = pos(n);
                let want = img[row * w + col + p] as i32;
                let d = if allzero { 0 } else { (want - pred[p] - scale).div_euclid(step) };
                let lim = (1 << depth) - 1;
                diffs[n] = d.max(-lim).min(lim);
                let v = (pred[p] + diffs[n] * step + scale).max(0).min(max);
                img[row * w + col + p] = v as u16;
            }
            if !skip {
                m.put(allzero as u32, 1);
            }
            let mut len = [0u32; 4];
            if !allzero {
                let mut flags = [0u32; 4];
                let mut probe = mode;
                for k in 0..4 {
                    let need = diffs[k * 4..k * 4 + 4].iter().map(|&d| sbits(d)).max().unwrap() as i32;
                    let c = if row % 2 == 1 { k >> 1 } else { ((k >> 1) + 2) % 3 };
                    let cap = (depth as i32 + 1).min(15);
                    let mut ch = vec![3];
                    let b = probe[c][0];
                    if b >= need && b <= cap {
                        ch.push(0);
                    }
                    if b + 1 >= need && b + 1 <= cap {
                        ch.push(1);
                    }
                    if b - 1 >= need && b - 1 <= cap && b > 0 {
                        ch.push(2);
                    }
                    flags[k] = *g.rng.pick(&ch);
                    len[k] = match flags[k] {
                        0 => b,
                        1 => b + 1,
                        2 => b - 1,
                        _ => (need + if g.rng.chance(1, 4) { 1 } else { 0 }).min(cap),
                    } as u32;
                    probe[c][0] = probe[c][1];
                    probe[c][1] = len[k] as i32;
                }
                for k in 0..4 {
                    m.put(flags[k], 2);
                }
                for k in 0..4 {
                    if flags[k] == 3 {
                        m.put(len[k], 4);
                    }
                }
                mode = probe;
            }
            for n in 0..16 {
                m.put(diffs[n] as u32, len[n >> 2]);
            }
        }
        // every line starts at a multiple of 16 bytes
        let used = (m.bits() + 7) / 8;
        let mut b = swap(m.finish(false), 4);
        let full = (used + 15) / 16 * 16;
        b.resize(full.max(b.len()), 0);
        b.truncate(full.max(b.len()));
        let fill = g.rng.u8();
        while b.len() % 16 != 0 {
            b.push(fill);
        }
        out.extend(b);
    }
    out.extend(g.slack(16));
    out
}

/// kind: 0 plain, 1/2/3 the three compressions
fn srw(g: &mut G, kind: usize) -> Case {
    let mut t = g.tiff();
    let big = t.big();
    let (w, h);
    let (img, data, comp, bits): (Vec<u16>, Vec<u8>, u32, u16);
    let mut extra = None;
    let name;
    match kind {
        0 => {
            let d = g.dims(2, 1, 2, 1);
            w = d.0;
            h = d.1;
            let c = g.rng.below(4);
            bits = if c % 2 == 0 { 12 } else { 14 };
            comp = if c < 2 { 32769 } else { 32770 };
            img = g.image(w, h, (1 << bits) - 1);
            if comp == 32770 && bits == 12 {
                data = if g.cam.hint("little_endian") { lsb(&img, 12) } else { msb(&img, 12) };
            } else {
                let hi = if g.rng.bool() { 0xffffu16 << bits } else { 0 };
                let v: Vec<u16> = img.iter().map(|x| x | (g.rng.u16() & hi)).collect();
                data = u16s(&v, false);
            }
            name = "srw-plain";
        }
        1 => {
            let k = if g.rng.bool() { 16 } else { 2 };
            let d = g.dims(16, 2, k, 2);
            w = d.0;
            h = d.1;
            bits = 12;
            comp = 32770;
            let stored = g.image(w, h, 4095);
            let (b, offs) = srw1_encode(g, &stored, w, h);
            data = b;
            extra = Some(t.blob(longs(&offs, false)));
            let mut i = stored;
            for r in (0..h).step_by(2) {
                for c in (0..w).step_by(2) {
                    i.swap(r * w + c + 1, (r + 1) * w + c);
                }
            }
            img = i;
            name = "srw1";
        }
        2 => {
            let d = g.dims(2, 1, 1, 1);
            w = d.0;
            h = d.1;
            bits = 12;
            comp = 32772;
            img = g.image(w, h, 4095);
            data = srw2_encode(&img, w, h);
            name = "srw2";
        }
        _ => {
            let d = g.dims(16, 1, 16, 1);
            w = d.0;
            h = d.1;
            bits = 14;
            comp = 32773;
            let depth = *g.rng.pick(&[12u32, 14, 14, 14]);
            let mut i = g.image(w, h, (1 << depth) - 1);
            data = srw3_encode(g, &mut i, w, h, depth);
            img = i;
            name = "srw3";
        }
    }
    let d = t.blob(data);
    let mut raw = Ifd::new()
        .long(0x100, w as u32)
        .long(0x101, h as u32)
        .short(0x102, bits)
        .with(0x103, Val::Long(vec![comp]))
        .with(0x111, Val::OffsetTo(vec![(d, 0)]));
    if let Some(x) = extra {
        raw.add(0xa010, Val::OffsetTo(vec![(x, 0)]));
    }
    let lev: Vec<u32> = (0..4).map(|_| g.mul() as u32).collect();
    let blk: Vec<u32> = (0..4).map(|i| g.rng.below(lev[i] as usize + 1) as u32).collect();
    let mn = Ifd::new().with(0xa021, Val::RelIfd(4, 4, longs(&lev, big))).with(0xa028, Val::RelIfd(4, 4, longs(&blk, big)));
    let exif = Ifd::new().with(0x927c, Val::Maker { prefix: vec![], ifd: mn, big });
    let ifd0 = g.ifd0().with(0x8769, Val::Ifds(vec![exif]));
    let chain = g.place_raw(ifd0, raw);
    let file = t.finish(&chain);
    let f = |i: usize| lev[i] as f32 - blk[i] as f32;
    let wb = [f(0), f(1), f(3), NAN];
    g.case(name, file, w, h, img, wb)
}
pub fn srw_plain(g: &mut G) -> Case {
    srw(g, 0)
}
pub fn srw_compressed(g: &mut G) -> Case {
    let k = 1 + g.rng.below(3);
    srw(g, k)
}

// ---------------------------------------------------------------- Fuji

fn is_fuji(c: &Cam) -> bool {
    c.make == "FUJIFILM" && c.mode.is_empty()
}

pub fn raf(g: &mut G) -> Case {
    let rotate = if g.cam.hint("fuji_rotation") {
        1
    } else if g.cam.hint("fuji_rotation_alt") {
        2
    } else {
        0
    };
    let crop = g.cam.crops;
    let (minw, minh) = if rotate > 0 { (crop[1] + crop[3] + 4, crop[0] + crop[2] + 4) } else { (8, 1) };
    let (w, h) = g.dims(minw, minh, 8, if rotate > 0 { 2 } else { 1 });
    // the first directory belongs to the embedded JPEG
    let exif_big = g.rng.bool();
    let old = g.rng.chance(1, 3);
    let (img, data, bps);
    if g.cam.hint("double_width") {
        img = g.image(w, h, 0xffff);
        let mut v = Vec::new();
        for r in img.chunks(w) {
            v.extend(u16s(r, false));
            v.extend(g.rng.bytes(2 * w));
        }
        data = v;
        bps = 16;
    } else if g.cam.hint("jpeg32") {
        img = g.image(w, h, 4095);
        data = swap(msb(&img, 12), 4);
        bps = 12;
    } else {
        bps = if old { 16 } else { *g.rng.pick(&[12u16, 14, 16]) };
        match bps {
            12 => {
                img = g.image(w, h, 4095);
                data = lsb(&img, 12);
            }
            14 => {
                img = g.image(w, h, 0x3fff);
                let hi = if g.rng.bool() { 0xc000 } else { 0 };
                let v: Vec<u16> = img.iter().map(|x| x | (g.rng.u16() & hi)).collect();
                data = u16s(&v, false);
            }
            _ => {
                img = g.image(w, h, 0xffff);
                data = u16s(&img, exif_big);
            }
        }
    }
    let v = [g.mul(), g.mul(), g.mul(), g.mul()];
    // the camera's own big endian directory
    let newwb = !old && g.rng.bool();
    let mut fd: Vec<u8> = Vec::new();
    let mut n = 0u32;
    let mut put = |tag: u16, b: &[u8]| {
        fd.extend(&tag.to_be_bytes());
        fd.extend(&(b.len() as u16).to_be_bytes());
        fd.extend(b);
        n += 1;
    };
    put(0x111, &[1, 2, 3, 4]);
    if old {
        put(0x100, &shorts(&[h as u16, w as u16], true));
    }
    if g.lay.unknown {
        // the camera's own settings, usually the largest entry
        let len = match g.lay.seed % 8 {
            0 => 65535,
            1 => 65532 - (g.lay.seed / 8 % 4) as usize,
            2 => (g.lay.seed / 8 % 65536) as usize,
            _ => 30,
        };
        put(0x4000, &vec![9; len]);
    }
    if g.lay.unknown && g.lay.seed % 16 == 3 {
        // and many small ones
        for k in 0..g.lay.seed / 16 % 900 {
            put(0x5000 + k as u16, &vec![k as u8; (k % 9) as usize]);
        }
    }
    put(0x2ff0, &shorts(&v, true));
    let mut fdir = n.to_be_bytes().to_vec();
    fdir.extend(fd);
    fdir.extend(&[0; 8]);

    // first TIFF: make and model
    let first = {
        let mut lay = g.lay.clone();
        lay.big = exif_big;
        lay.tail = 0;
        lay.gap = 0;
        let t = Tiff::new(&lay);
        let i = g.ifd0();
        t.finish(&[i])
    };
    let second = if old {
        if data.starts_with(b"II") || data.starts_with(b"MM") {
            // would be taken for a directory; not a sample any of these cameras can have
            return raf(g);
        }
        data.clone()
    } else {
        let mut lay = g.lay.clone();
        lay.seed ^= 0x55;
        lay.gap = 0;
        let mut t = Tiff::new(&lay);
        let d = t.blob(data.clone());
        let mut sub = Ifd::new()
            .long(0xf001, w as u32)
            .long(0xf002, h as u32)
            .with(0xf007, Val::OffsetTo(vec![(d, 0)]));
        if bps != 16 || g.rng.bool() {
            sub.add(0xf003, Val::Long(vec![bps as u32]));
        }
        if newwb {
            sub.add(0xf00e, Val::Long(vec![v[0] as u32, v[1] as u32, v[2] as u32]));
        }
        let i = Ifd::new().with(0xf000, Val::Ifds(vec![sub]));
        t.finish(&[i])
    };
    let mut lrng = crate::rng::Rng::new(g.lay.seed);
    let mut file = b"FUJIFILMCCD-RAW 0201FF".to_vec();
    file.resize(160 + if g.lay.pad { lrng.below(40) } else { 0 }, 0);
    let mut parts = vec![(84, first), (92, fdir), (100, second)];
    if g.lay.shuffle {
        lrng.shuffle(&mut parts);
    }
    let far = lrng.below(3);
    for (k, (at, b)) in parts.into_iter().enumerate() {
        if g.lay.pad {
            let k = lrng.below(50);
            file.extend(lrng.bytes(k));
        }
        if k == far {
            file.resize(file.len() + g.lay.gap, 0);
        }
        let mut p = file.len();
        if at == 84 {
            // the TIFF header follows 12 bytes of JPEG
            file.extend(b"\xff\xd8\xff\xe1\x01\x00Exif\0\0");
        }
        if at == 100 && old && g.rng.bool() {
            p = file.len();
        }
        file[at..at + 4].copy_from_slice(&(p as u32).to_be_bytes());
        file.extend(b);
    }
    file.extend(vec![0u8; 8]);
    file.extend(lrng.bytes(g.lay.tail));
    let wb = if newwb { [v[1] as f32, v[0] as f32, v[2] as f32, NAN] } else { [v[1] as f32, v[0] as f32, v[3] as f32, NAN] };
    if rotate == 0 {
        return g.case(if old { "raf-old" } else { "raf" }, file, w, h, img, wb);
    }
    let (cw, ch) = (w - crop[1] - crop[3], h - crop[0] - crop[2]);
    let rw = if rotate == 1 { cw + ch / 2 } else { ch + cw / 2 };
    let rh = rw - 1;
    let mut out = vec![0u16; rw * rh];
    for r in 0..ch {
        for c in 0..cw {
            let (or, oc) = if rotate == 1 {
                (cw - 1 - c + r / 2, (r + 1) / 2 + c)
            } else {
                (rw - ch - 1 + r - c / 2, (c + 1) / 2 + r)
            };
            out[or * rw + oc] = img[(r + crop[0]) * w + c + crop[3]];
        }
    }
    let mut c = g.case("raf-rotated", file, rw, rh, out, wb);
    c.crops = [0; 4];
    c.black = [g.cam.black; 4];
    c
}

// ---------------------------------------------------------------- Phase One

fn is_iiq(c: &Cam) -> bool {
    (c.make == "Phase One A/S" || c.make == "Leaf") && c.mode.is_empty()
}

pub fn iiq(g: &mut G) -> Case {
    let mut t = g.tiff();
    let (w, h) = g.dims(1, 1, 1, 1);
    let img = g.image(w, h, 0xffff);
    let lens = [8u32, 7, 6, 9, 11, 10, 5, 12, 14, 13];
    let mut data = Vec::new();
    let mut offs = vec![0u32; h];
    let mut order: Vec<usize> = (0..h).collect();
    if g.lay.shuffle {
        g.rng.shuffle(&mut order);
    }
    for &row in &order {
        if g.lay.pad {
            let k = g.rng.below(4);
            data.extend(g.rng.bytes(k));
        }
        offs[row] = data.len() as u32;
        let mut m = Msb::new();
        let mut pred = [0i32; 2];
        let mut len = [0u32; 2];
        let px = &img[row * w..(row + 1) * w];
        for col in 0..w {
            if col >= w & !7 {
                len = [14, 14];
            } else if col & 7 == 0 {
                for i in 0..2 {
                    // bits needed for this parity in the next 8 samples
                    let mut p = pred[i];
                    let mut need = 5;
                    for k in 0..4 {
                        let v = px[col + k * 2 + i] as i32;
                        let d = v - p;
                        let mut n = 5;
                        while n < 14 && (d < 1 - (1 << (n - 1)) || d > 1 << (n - 1)) {
                            n += 1;
                        }
                        need = need.max(n);
                        p = v;
                    }
                    let keep = len[i] != 0 && (len[i] == 14 || len[i] >= need) && g.rng.bool();
                    if keep {
                        m.put(1, 1);
                    } else {
                        let n = if g.rng.chance(1, 4) { g.rng.range(need as usize, 14) as u32 } else { need };
                        let k = lens.iter().position(|&x| x == n).unwrap();
                        let j = k as u32 / 2 + 1;
                        m.put(0, j);
                        if j < 5 {
                            m.put(1, 1);
                        }
                        m.put(k as u32 & 1, 1);
                        len[i] = n;
                    }
                }
            }
            let n = len[col & 1];
            let v = px[col] as i32;
            if n == 14 {
                m.put(v as u32, 16);
            } else {
                m.put((v - pred[col & 1] - 1 + (1 << (n - 1))) as u32, n);
            }
            pred[col & 1] = v;
        }
        data.extend(swap(m.finish(false), 4));
        data.extend(g.slack(4));
    }
    let wbv: Vec<f32> = (0..3).map(|_| (g.rng.f64() * 4.0 + 0.01) as f32).collect();
    let black = g.rng.u16();
    let d = t.blob(data);
    let s = t.blob(longs(&offs, false));
    let wbd = t.blob(wbv.iter().flat_map(|x| x.to_le_bytes()).collect());
    // directory entries: tag, type, length, value or offset from the header at 8
    let mut ent: Vec<(u32, u32, Option<usize>)> = vec![
        (0x107, 0, Some(wbd)),
        (0x108, w as u32, None),
        (0x109, h as u32, None),
        (0x10f, 0, Some(d)),
        (0x21c, 0, Some(s)),
        (0x21d, (black as u32) << 2 | (g.rng.u32() & 3), None),
    ];
    if g.lay.unknown {
        ent.push((0x10e, 5, None));
        ent.push((0x301, 0xffffffff, None));
        if g.rng.chance(1, 8) {
            for k in 0..g.rng.range(1, 150) as u32 {
                ent.push((0x400 + k, g.rng.u32(), None));
            }
        }
    }
    if g.lay.shuffle {
        g.rng.shuffle(&mut ent);
    }
    let mut b = (ent.len() as u32).to_le_bytes().to_vec();
    b.extend(&[0; 4]);
    let mut fix = Vec::new();
    for (tag, v, target) in &ent {
        b.extend(&tag.to_le_bytes());
        b.extend(&4u32.to_le_bytes());
        b.extend(&4u32.to_le_bytes());
        if let Some(x) = target {
            fix.push((b.len(), *x));
        }
        b.extend(&v.to_le_bytes());
    }
    let dir = t.blob_le(b);
    for (at, x) in fix {
        t.reloc(dir, at, x, -8);
    }
    let h2 = t.blob_le(vec![b'I', b'I', b'I', b'I', 1, 2, 3, 4, 0, 0, 0, 0]);
    t.set_pos(h2, 8);
    t.reloc(h2, 8, dir, -8);
    let ifd0 = g.ifd0();
    let file = t.finish(&[ifd0]);
    let mut c = g.case("iiq", file, w, h, img, [wbv[0], wbv[1], wbv[2], NAN]);
    c.black = [black; 4];
    c
}

// ---------------------------------------------------------------- Canon CRW

struct Heap {
    vals: Vec<u8>,
    ent: Vec<[u8; 10]>,
}
impl Heap {
    fn new() -> Heap {
        Heap { vals: vec![], ent: vec![] }
    }
    fn add(&mut self, tag: u16, b: &[u8]) {
        while self.vals.len() % 2 != 0 {
            self.vals.push(0);
        }
        let mut e = [0u8; 10];
        e[0..2].copy_from_slice(&tag.to_le_bytes());
        e[2..6].copy_from_slice(&(b.len() as u32).to_le_bytes());
        e[6..10].copy_from_slice(&(self.vals.len() as u32).to_le_bytes());
        self.vals.extend(b);
        self.ent.push(e);
    }
    fn inline(&mut self, tag: u16, b: &[u8]) {
        let mut e = [0u8; 10];
        e[0..2].copy_from_slice(&(tag | 0x4000).to_le_bytes());
        e[2..2 + b.len()].copy_from_slice(b);
        self.ent.push(e);
    }
    fn finish(mut self) -> Vec<u8> {
        let n = self.vals.len() as u32;
        let mut o = std::mem::take(&mut self.vals);
        o.extend(&(self.ent.len() as u16).to_le_bytes());
        for e in &self.ent {
            o.extend(e);
        }
        o.extend(&n.to_le_bytes());
        o
    }
}

fn crw_huff(t: &[u8]) -> Huff {
    let mut order = Vec::new();
    let mut p = 16;
    for l in 0..16 {
        for _ in 0..t[l] {
            order.push((t[p], l as u32 + 1));
            p += 1;
        }
    }
    Huff::from_order(order)
}

fn is_canon(c: &Cam) -> bool {
    c.make == "Canon" && c.mode.is_empty() && c.filesize == 0
}

pub fn crw(g: &mut G) -> Case {
    g.orient = None;
    let pro70 = g.cam.model == "Canon PowerShot Pro70";
    let lowbits = !g.cam.hint("nolowbits");
    let (mut w, h) = if pro70 { (1552, 1024) } else { g.dims(16, 16, 32, 4) };
    let wide = !pro70 && g.rng.chance(1, 40) && lowbits && w <= 2672;
    let h = if wide { 16.max((h + 3) / 4 * 4) } else { h };
    if wide {
        w = 2672;
    }
    let img;
    let data;
    if pro70 {
        img = g.image(w, h, 1023);
        data = swap(msb(&img, 10), 2);
    } else {
        let high = g.image(w, h, 1023);
        let mut d: Vec<u8> = Vec::new();
        let mut out = high.clone();
        if lowbits {
            let low: Vec<u16> = (0..w * h).map(|_| g.rng.u16() & 3).collect();
            for i in 0..w * h {
                out[i] = high[i] << 2 | low[i];
                if wide && out[i] < 512 {
                    out[i] += 2;
                }
            }
            d.extend(low.chunks(4).map(|c| (c[0] | c[1] << 2 | c[2] << 4 | c[3] << 6) as u8));
        }
        let fill = g.rng.bytes(514);
        d.extend(fill);
        // the differences in blocks of 64
        let table = g.rng.below(3);
        let (h1, h2) = (crw_huff(&crate::crwtab::FIRST[table]), crw_huff(&crate::crwtab::SECOND[table]));
        let mut m = Msb::new();
        let mut carry = 0i32;
        let mut base = [512i32; 2];
        for b in 0..w * h / 64 {
            let mut diff = [0i32; 64];
            for i in 0..64 {
                if (b * 64 + i) % w == 0 {
                    base = [512; 2];
                }
                let v = high[b * 64 + i] as i32;
                diff[i] = v - base[i & 1];
                base[i & 1] = v;
            }
            let d0 = diff[0] - carry;
            carry = diff[0];
            if d0 == 0 && h1.has(0xff) && g.rng.chance(1, 4) {
                h1.put(&mut m, 0xff);
            } else {
                let c = category(d0);
                h1.put(&mut m, c as u8);
                put_diff_bits(&mut m, d0, c);
            }
            let mut i = 1;
            while i < 64 {
                let run = diff[i..].iter().take_while(|&&x| x == 0).count();
                if i + run == 64 {
                    h2.put(&mut m, 0);
                    break;
                }
                if run > 15 {
                    h2.put(&mut m, 0xf0);
                    i += 16;
                    continue;
                }
                if run > 0 && h2.has(0xff) && g.rng.chance(1, 20) {
                    // skips a single zero
                    h2.put(&mut m, 0xff);
                    i += 1;
                    continue;
                }
                let d = diff[i + run];
                let c = category(d);
                h2.put(&mut m, (run as u8) << 4 | c as u8);
                put_diff_bits(&mut m, d, c);
                i += run + 1;
            }
        }
        let one = g.rng.bool();
        d.extend(stuff(&m.finish(one)));
        d.extend(g.slack(8));
        data = d;
        img = out;
        return crw_file(g, w, h, img, data, Some(table));
    }
    crw_file(g, w, h, img, data, None)
}

fn crw_file(g: &mut G, w: usize, h: usize, img: Vec<u16>, data: Vec<u8>, table: Option<usize>) -> Case {
    let mut root = Heap::new();
    // raw data always comes first, right after the header of 26 bytes
    root.vals = data;
    let mut sub = Heap::new();
    sub.add(0x080a, format!("{}\0{}\0", g.cam.make, g.cam.model).as_bytes());
    let mut props = Heap::new();
    let mut sensor: Vec<u16> = (0..17).map(|_| g.rng.u16()).collect();
    sensor[1] = w as u16;
    sensor[2] = h as u16;
    props.add(0x1031, &shorts(&sensor, false));
    if let Some(t) = table {
        if g.rng.bool() {
            props.inline(0x1835, &longs(&[t as u32, 7], false));
        } else {
            props.add(0x1835, &longs(&[t as u32, 7, 9, 11], false));
        }
    }
    let k = g.rng.below(6);
    let mut wb = [NAN; 4];
    let woff = g.cam.wb_offset;
    let f = |v: u16| v as f32;
    let mut used = k;
    if k == 0 {
        let n = woff + 8;
        let v: Vec<u16> = (0..n).map(|_| g.mul()).collect();
        props.add(0x10a9, &shorts(&v, false));
        wb = [f(v[woff]), f(v[woff + 1]), f(v[woff + 3]), NAN];
    }
    let mut have_ci2 = false;
    if k == 1 || k == 2 {
        let mut v: Vec<u16> = (0..80).map(|_| g.mul()).collect();
        v[0] = if k == 1 { g.rng.range(513, 65535) as u16 } else { g.rng.range(0, 512) as u16 };
        props.add(0x102c, &shorts(&v, false));
        if !g.cam.hint("nocinfo2") {
            have_ci2 = true;
            wb = if k == 1 { [f(v[62]), f(v[63]), f(v[60]), f(v[61])] } else { [f(v[51]), (f(v[50]) + f(v[53])) / 2.0, f(v[52]), NAN] };
        } else {
            used = 5;
        }
    }
    if k == 3 || (k == 1 && g.rng.bool()) {
        let v: Vec<u16> = (0..384).map(|_| g.mul()).collect();
        props.add(0x0032, &shorts(&v, false));
        if k == 3 || !have_ci2 {
            wb = [1024.0 / f(v[36]), 1024.0 / f(v[37]), 1024.0 / f(v[39]), NAN];
        }
    }
    if k == 4 {
        let mut v: Vec<u16> = (0..woff + 10).map(|_| g.mul()).collect();
        if v.len() == 384 {
            v.push(0);
        }
        let mut o = v.clone();
        if g.cam.hint("wb_mangle") {
            o[woff] ^= 0x410;
            o[woff + 1] ^= 0x45f3;
            o[woff + 2] ^= 0x410;
        }
        props.add(0x0032, &shorts(&o, false));
        wb = [f(v[woff + 1]), f(v[woff]), f(v[woff + 2]), NAN];
    }
    let _ = used;
    if g.lay.unknown {
        props.add(0x1005, &[1; 9]);
        sub.inline(0x5004, &[2; 8]);
    }
    let mut p = props.finish();
    if g.lay.unknown && g.rng.chance(1, 6) {
        // deeper than usual
        for k in 0..g.rng.range(1, 6) as u16 {
            let mut d = Heap::new();
            d.add(0x3010 + k, &p);
            p = d.finish();
        }
    }
    if g.rng.bool() {
        sub.add(0x300b, &p);
        root.add(0x300a, &sub.finish());
    } else {
        root.add(0x2807, &sub.finish());
        root.add(0x300a, &p);
    }
    let start = 26u32;
    let mut file = b"II".to_vec();
    file.extend(&start.to_le_bytes());
    file.extend(b"HEAPCCDR");
    file.resize(26, 0);
    file.extend(root.finish());
    g.case("crw", file, w, h, img, wb)
}

// ---------------------------------------------------------------- Kodak DCR

pub fn dcr(g: &mut G) -> Case {
    let mut t = g.tiff();
    let (w, h) = match g.rng.below(3) {
        0 => (4 * g.rng.range(60, 200), g.rng.range(1, 6)),
        _ => g.dims(4, 1, 4, 1),
    };
    // the largest differences there can be need the largest tables
    let n = if g.rng.chance(1, 24) { *g.rng.pick(&[16384usize, 32768]) } else { *g.rng.pick(&[256usize, 1024, 4096, 4096]) };
    let curve = Curve(random_curve(&mut g.rng, n, if n > 4096 { 65535 } else { 16383 }));
    let codes = g.image(w, h, n as u32 - 1);
    let mut data = Vec::new();
    let mut rand = 0u32;
    let mut out = Vec::new();
    for row in codes.chunks(w) {
        for seg in row.chunks(256) {
            let mut pred = [0i32; 2];
            let mut lens = Vec::new();
            let mut l = Lsb::new();
            let mut avail = if seg.len() & 7 == 4 { 16 } else { 0 };
            let mut words = avail / 16;
            for (i, &v) in seg.iter().enumerate() {
                let d = v as i32 - pred[i & 1];
                pred[i & 1] = v as i32;
                let c = category(d);
                lens.push(c as u8);
                if avail < c {
                    avail += 32;
                    words += 2;
                }
                avail -= c;
                if c > 0 {
                    l.put((if d > 0 { d } else { d + (1 << c) - 1 }) as u32, c);
                }
                out.push(curve.dither(v, &mut rand));
            }
            data.extend(lens.chunks(2).map(|p| p[0] | p[1] << 4));
            let mut b = l.finish();
            b.resize(words as usize * 2, 0);
            data.extend(swap(b, 2));
        }
    }
    let d = t.blob(data);
    let raw = Ifd::new()
        .long(0x100, w as u32)
        .long(0x101, h as u32)
        .with(0x111, Val::OffsetTo(vec![(d, 0)]))
        .with(0x828e, Val::Byte(vec![0, 1, 1, 2]));
    let mut kifd = Ifd::new().with(0x90d, Val::Short(curve.0.clone()));
    let wb = if g.rng.chance(3, 4) {
        let v = [g.mul(), g.mul(), g.mul()];
        let len = 46 + g.rng.below(50);
        let mut b = g.rng.bytes(len);
        b[40..46].copy_from_slice(&shorts(&v, true));
        kifd.add(0x3fd, Val::Undef(b));
        [2048.0 / v[0] as f32, 2048.0 / v[1] as f32, 2048.0 / v[2] as f32, NAN]
    } else {
        kifd.add(0x3fd, Val::Undef(g.rng.bytes(20)));
        [NAN; 4]
    };
    let ifd0 = g.ifd0().with(0x8290, Val::Ifds(vec![kifd]));
    let chain = g.place_raw(ifd0, raw);
    let file = t.finish(&chain);
    g.case("dcr", file, w, h, out, wb)
}

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "srw-plain", class: Class::Uncompressed, accepts: is_samsung, gen: srw_plain, cost: 1 },
        Family { name: "srw-compressed", class: Class::Vendor, accepts: is_samsung, gen: srw_compressed, cost: 1 },
        Family { name: "raf", class: Class::Uncompressed, accepts: is_fuji, gen: raf, cost: 1 },
        Family { name: "iiq", class: Class::Vendor, accepts: is_iiq, gen: iiq, cost: 1 },
        Family { name: "crw", class: Class::Vendor, accepts: |c| is_canon(c) && c.model != "Canon PowerShot Pro70", gen: crw, cost: 1 },
        Family { name: "crw-pro70", class: Class::Uncompressed, accepts: |c| is_canon(c) && c.model == "Canon PowerShot Pro70", gen: crw, cost: 50 },
        Family { name: "dcr", class: Class::Curve, accepts: |c| c.make == "Kodak" && c.mode.is_empty() && c.model != "DCS560C", gen: dcr, cost: 1 },
    ]
}
