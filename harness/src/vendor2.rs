//! Pentax PEF, Olympus ORF and Panasonic RW2.
use crate::case::*;
use crate::cat::Cam;
use crate::huff::*;
use crate::pack::*;
use crate::tiff::*;
use crate::vendor1::{flat_ifd, longs, shorts};

type Entries = Vec<(u16, u16, u32, Vec<u8>)>;

// ---------------------------------------------------------------- Pentax

fn pentax_maker(g: &mut G, e: &Entries, big: bool) -> (Val, bool) {
    let mut i = Ifd::new();
    for (tag, typ, count, data) in e {
        i.add(*tag, Val::Raw(*typ, *count, data.clone()));
    }
    match g.rng.below(3) {
        0 => (Val::Maker { prefix: b"AOC\0".to_vec(), ifd: i, big }, big),
        1 => {
            let mut p = b"AOC\0".to_vec();
            p.extend(if big { b"MM" } else { b"II" });
            (Val::Maker { prefix: p, ifd: i, big }, big)
        }
        _ => {
            let mut b = b"PENTAX \0".to_vec();
            b.extend(if big { b"MM" } else { b"II" });
            b.extend(flat_ifd(e, big, 10));
            (Val::Undef(b), big)
        }
    }
}

fn is_pentax(c: &Cam) -> bool {
    (c.make == "PENTAX" || c.make == "PENTAX Corporation" || c.make == "RICOH IMAGING COMPANY, LTD.") && c.mode.is_empty()
}

/// kind: 0 plain 16 bit, 1 packed 12 bit, 2 compressed
fn pef(g: &mut G, kind: usize) -> Case {
    let mut t = g.tiff();
    let big = t.big();
    let (w, h) = g.dims(2, 1, 2, 1);
    let mut e: Entries = Vec::new();
    let (img, data, comp, name);
    match kind {
        0 => {
            img = g.image(w, h, 0xffff);
            data = u16s(&img, true);
            comp = 1;
            name = "pef-16";
        }
        1 => {
            img = g.image(w, h, 4095);
            data = msb(&img, 12);
            comp = 32773;
            name = "pef-12";
        }
        _ => {
            let own = g.rng.chance(3, 4);
            let (huff, max) = if own {
                let depth = g.rng.range(13, 15);
                let syms: Vec<u8> = (0..depth as u8).collect();
                let hf = Huff::random(&mut g.rng, &syms, 12);
                let mut b = p16(big, ((depth + 4) & 15) as u16).to_vec();
                b.extend(g.rng.bytes(12));
                for s in 0..depth {
                    let (c, l) = hf.code(s as u8);
                    b.extend(&p16(big, (c << (12 - l)) as u16));
                }
                for s in 0..depth {
                    b.push(hf.code(s as u8).1 as u8);
                }
                b.extend(&[0; 6]);
                e.push((0x220, 7, b.len() as u32, b));
                (hf, (1u32 << (depth - 1)) - 1)
            } else {
                let l = [2u32, 2, 3, 3, 3, 4, 5, 6, 7, 8, 9, 10, 10];
                let s = [3u8, 4, 2, 5, 1, 6, 0, 7, 8, 9, 10, 11, 12];
                (Huff::from_order(s.iter().cloned().zip(l.iter().cloned()).collect()), 4095)
            };
            img = g.image(w, h, max);
            let mut m = Msb::new();
            let mut up = [[0i32; 2]; 2];
            for row in 0..h {
                let mut left = up[row & 1];
                for col in 0..w {
                    let s = col & 1;
                    let v = img[row * w + col] as i32;
                    put_diff(&mut m, &huff, v - left[s], false, 0);
                    left[s] = v;
                    if col < 2 {
                        up[row & 1][s] = v;
                    }
                }
            }
            let one = g.rng.bool();
            let mut d = m.finish(one);
            d.extend(g.slack(8));
            data = d;
            comp = 65535;
            name = if own { "pef-huffman" } else { "pef-legacy" };
        }
    }
    let v = [g.mul(), g.mul(), g.mul(), g.mul()];
    let black = if g.rng.bool() { Some([g.rng.u16(), g.rng.u16(), g.rng.u16(), g.rng.u16()]) } else { None };
    // the makernote may have a byte order of its own, the huffman table uses the file's
    let mbig = g.rng.bool();
    e.push((0x201, 3, 4, shorts(&v, mbig)));
    if let Some(b) = black {
        e.push((0x200, 3, 4, shorts(&b, mbig)));
    }
    let mn = {
        let mut i = Ifd::new();
        for (tag, typ, count, data) in &e {
            i.add(*tag, Val::Raw(*typ, *count, data.clone()));
        }
        if mbig == big {
            pentax_maker(g, &e, big).0
        } else if g.rng.bool() {
            let mut p = b"AOC\0".to_vec();
            p.extend(if mbig { b"MM" } else { b"II" });
            Val::Maker { prefix: p, ifd: i, big: mbig }
        } else {
            let mut b = b"PENTAX \0".to_vec();
            b.extend(if mbig { b"MM" } else { b"II" });
            b.extend(flat_ifd(&e, mbig, 10));
            Val::Undef(b)
        }
    };
    let d = t.blob(data);
    let raw = Ifd::new()
        .long(0x100, w as u32)
        .long(0x101, h as u32)
        .with(0x103, if comp == 65535 && g.rng.bool() { Val::Long(vec![comp]) } else { Val::Short(vec![comp as u16]) })
        .with(0x111, Val::OffsetTo(vec![(d, 0)]));
    let exif = Ifd::new().with(0x927c, mn);
    let ifd0 = g.ifd0().with(0x8769, Val::Ifds(vec![exif]));
    let chain = g.place_raw(ifd0, raw);
    let file = t.finish(&chain);
    let mut c = g.case(name, file, w, h, img, [v[0] as f32, v[1] as f32, v[3] as f32, NAN]);
    c.black = black.unwrap_or([g.cam.black; 4]);
    c
}
pub fn pef_plain(g: &mut G) -> Case {
    let k = g.rng.below(2);
    pef(g, k)
}
pub fn pef_compressed(g: &mut G) -> Case {
    pef(g, 2)
}

// ---------------------------------------------------------------- Olympus

fn is_olympus(c: &Cam) -> bool {
    c.make.starts_with("OLYMPUS") && c.mode.is_empty()
}

fn orf_encode(img: &[u16], w: usize, h: usize, junk: &mut dyn FnMut() -> u32) -> Vec<u8> {
    let mut m = Msb::new();
    let at = |r: usize, c: usize| img[r * w + c] as i32;
    for row in 0..h {
        let mut acarry = [[0i32; 3]; 2];
        for col in 0..w {
            let s = col & 1;
            let v = at(row, col);
            let pred = if row < 2 && col < 2 {
                0
            } else if row < 2 {
                at(row, col - 2)
            } else if col < 2 {
                at(row - 2, col)
            } else {
                let (l, u, nw) = (at(row, col - 2), at(row - 2, col), at(row - 2, col - 2));
                if (l < nw && nw < u) || (u < nw && nw < l) {
                    if (l - nw).abs() > 32 || (u - nw).abs() > 32 {
                        l + u - nw
                    } else {
                        (l + u) >> 1
                    }
                } else if (l - nw).abs() > (u - nw).abs() {
                    l
                } else {
                    u
                }
            };
            let a = &mut acarry[s];
            let i = if a[2] < 3 { 2 } else { 0 };
            let mut nbits = 2 + i;
            while (a[0] >> (nbits + i)) & 0xffff != 0 {
                nbits += 1;
            }
            let nbits = nbits.min(16) as u32;
            let delta = v - pred;
            let low = delta & 3;
            let diff = delta >> 2;
            let x = diff - a[1];
            let sign = x < 0;
            let mag = if sign { -1 - x } else { x };
            let high = mag >> nbits;
            m.put(sign as u32, 1);
            m.put(low as u32, 2);
            if high < 12 {
                m.put(1, high as u32 + 1);
            } else {
                m.put(0, 12);
                assert!(nbits <= 15 && high < 1 << (15 - nbits));
                m.put((high as u32) << 1 | (junk() & 1), 16 - nbits);
            }
            m.put(mag as u32 & ((1 << nbits) - 1), nbits);
            a[0] = mag;
            a[1] = (diff * 3 + a[1]) >> 5;
            a[2] = if mag > 16 { 0 } else { a[2] + 1 };
        }
    }
    m.finish(false)
}

/// kind: 0 unpacked, 1 control bytes, 2 interlaced, 3 msb32, 4 compressed
fn orf(g: &mut G, kind: usize) -> Case {
    let mut t = g.tiff();
    let big = t.big();
    let (w, h);
    let (img, data, size, name): (Vec<u16>, Vec<u8>, usize, &str);
    match kind {
        0 => {
            let d = g.dims(1, 1, 1, 1);
            w = d.0;
            h = d.1;
            img = g.image(w, h, 4095);
            let v: Vec<u16> = img.iter().map(|x| x << 4 | (g.rng.u16() & 15)).collect();
            data = u16s(&v, big);
            size = data.len() + if g.rng.bool() { 0 } else { 100 };
            name = "orf-unpacked";
        }
        1 => {
            let d = g.dims(10, 10, 2, 1);
            w = d.0;
            h = d.1;
            img = g.image(w, h, 4095);
            let mut r = g.rng.clone();
            data = wcontrol(&img, w, false, &mut || r.u8());
            size = g.rng.range(w * h / 10 * 16, w * h * 2 - 1);
            name = "orf-control";
        }
        2 => {
            let d = g.dims(20, 10, 2, 1);
            w = d.0.min(3498);
            h = d.1;
            img = g.image(w, h, 4095);
            let mut first: Vec<u16> = Vec::new();
            let mut second: Vec<u16> = Vec::new();
            for r in 0..h {
                if r % 2 == 0 { &mut first } else { &mut second }.extend(&img[r * w..(r + 1) * w]);
            }
            let mut b = msb(&first, 12);
            let at = (b.len() / 2048 + 1) * 2048;
            b.resize(at, 0xee);
            b.extend(msb(&second, 12));
            data = b;
            size = g.rng.range(w * h * 3 / 2, w * h / 10 * 16 - 1);
            name = "orf-interlaced";
        }
        3 => {
            let d = g.dims(3504, 1, 8, 1);
            w = d.0;
            h = 1 + g.rng.below(6);
            let _ = d.1;
            img = g.image(w, h, 4095);
            data = swap(msb(&img, 12), 4);
            size = g.rng.range(w * h * 3 / 2, w * h / 10 * 16 - 1);
            name = "orf-msb32";
        }
        _ => {
            let d = g.dims(2, 6, 2, 1);
            w = d.0;
            h = d.1;
            let max = *g.rng.pick(&[4095u32, 4095, 4095, 16383]);
            img = g.image(w, h, max);
            let mut r = g.rng.clone();
            let mut b = g.rng.bytes(7);
            b.extend(orf_encode(&img, w, h, &mut || r.u32()));
            b.extend(g.slack(16));
            data = b;
            size = g.rng.below((w * h * 12 / 8).min(w * h / 10 * 16));
            name = "orf-compressed";
        }
    }
    let d = t.blob(data);
    let counts = if g.rng.chance(1, 3) && size > 2 {
        let a = g.rng.below(size);
        Val::Long(vec![a as u32, (size - a) as u32])
    } else {
        Val::Long(vec![size as u32])
    };
    let raw = Ifd::new().long(0x100, w as u32).long(0x101, h as u32).with(0x111, Val::OffsetTo(vec![(d, 0)])).with(0x117, counts);
    let v = [g.mul(), g.mul(), g.mul(), g.mul()];
    let wb = [v[0] as f32, 256.0, v[1] as f32, NAN];
    let mn = match g.rng.below(4) {
        0 | 1 => {
            let i = Ifd::new().with(0x1017, Val::Short(vec![v[0], v[2]])).with(0x1018, Val::Short(vec![v[1], v[3]]));
            let p = match g.rng.below(2) {
                0 => b"OLYMP\0\x01\0".to_vec(),
                _ => b"OLYMPUS\0II\x03\0".to_vec(),
            };
            Val::Maker { prefix: p, ifd: i, big }
        }
        k => {
            // a directory with offsets relative to the makernote
            let mut b = b"OLYMPUS\0II\x03\0".to_vec();
            let gap = 30 + g.rng.below(20) * 2;
            let mut e: Entries = vec![(0x2040, if g.rng.bool() { 13 } else { 4 }, 1, longs(&[(12 + gap) as u32], big))];
            if g.rng.bool() {
                e.push((0x2010, 4, 1, longs(&[7], big)));
            }
            b.extend(flat_ifd(&e, big, 12));
            b.resize(12 + gap, 0);
            let sub: Entries = if k == 2 { vec![(0x100, 3, 4, shorts(&v, big))] } else { vec![(0x100, 3, 2, shorts(&v[0..2], big))] };
            b.extend(flat_ifd(&sub, big, 12 + gap));
            Val::Undef(b)
        }
    };
    let exif = Ifd::new().with(0x927c, mn);
    let mut ifd0 = g.ifd0().with(0x8769, Val::Ifds(vec![exif]));
    ifd0.e.extend(raw.e);
    let mut hdr = if big { b"MM".to_vec() } else { b"II".to_vec() };
    let magic: &[u8] = if big { b"OR" } else { g.rng.pick(&[b"RO", b"RS", b"*\0"]).as_slice() };
    hdr.extend(magic);
    hdr.extend(&[0; 4]);
    let file = t.finish_with_header(hdr, 4, &[ifd0]);
    g.case(name, file, w, h, img, wb)
}
pub fn orf_plain(g: &mut G) -> Case {
    let k = g.rng.below(4);
    orf(g, k)
}
pub fn orf_compressed(g: &mut G) -> Case {
    orf(g, 4)
}

// ---------------------------------------------------------------- Panasonic

fn is_pana(c: &Cam) -> bool {
    (c.make == "Panasonic" || c.make == "LEICA") && ["1:1", "4:3", "3:2", "16:9"].contains(&c.mode.as_str())
}

/// Dimensions of the aspect ratio of the camera mode
fn pana_dims(g: &mut G, minpix: usize, wstep: usize) -> (usize, usize) {
    let (lo, hi) = match g.cam.mode.as_str() {
        "1:1" => (60, 124),
        "4:3" => (125, 144),
        "3:2" => (145, 164),
        _ => (165, 260),
    };
    loop {
        let w = wstep * g.rng.range(2, 400 / wstep);
        let edge = g.rng.below(6);
        let target = match edge {
            0 => lo,
            1 => hi,
            _ => g.rng.range(lo, hi),
        };
        let h = (w * 100 / target).max(1);
        let h = if edge == 1 { w * 100 / (target + 1) + 1 } else { h };
        let ratio = w * 100 / h;
        if ratio < lo || ratio > hi || w * h < minpix {
            continue;
        }
        if w < g.cam.blackareav.0 + g.cam.blackareav.1 || h < g.cam.blackareah.0 + g.cam.blackareah.1 {
            continue;
        }
        return (w, h);
    }
}

/// Random symbols for a whole image, their samples and the 16 byte groups
fn pana_encode(g: &mut G, w: usize, h: usize) -> (Vec<u16>, Vec<[u8; 16]>) {
    assert!(w % 14 == 0);
    let mut img = Vec::with_capacity(w * h);
    let mut groups = Vec::new();
    let style = g.rng.below(4);
    for _ in 0..w * h / 14 {
        let mut acc: u128 = 0;
        let mut n = 0;
        let mut put = |v: u32, bits: u32| {
            acc = (acc << bits) | v as u128;
            n += bits;
        };
        let mut pred = [0i32; 2];
        let mut nonz = [false; 2];
        let mut sh = 0;
        for i in 0..14 {
            if i % 3 == 2 {
                let b = if style == 0 { 3 } else { g.rng.below(4) as u32 };
                put(b, 2);
                sh = [0, 1, 2, 4][b as usize];
            }
            let p = &mut pred[i & 1];
            if nonz[i & 1] {
                let j = match style {
                    1 => (128 + g.rng.irange(-3, 3)) as u32,
                    2 if g.rng.bool() => 0,
                    _ => g.rng.below(256) as u32,
                };
                put(j, 8);
                if j != 0 {
                    *p -= 0x80 << sh;
                    if *p < 0 || sh == 4 {
                        // only the bits below the coded ones survive
                        *p &= (1 << sh) - 1;
                    }
                    *p += (j as i32) << sh;
                }
            } else {
                let v = if g.rng.chance(if style == 3 { 3 } else { 1 }, 4) { 0 } else { g.rng.below(256) as u32 };
                put(v, 8);
                nonz[i & 1] = v != 0;
                if v != 0 || i > 11 {
                    let b = g.rng.below(16) as u32;
                    put(b, 4);
                    *p = (v << 4 | b) as i32;
                }
            }
            img.push(*p as u16);
        }
        // both channels always get their low bits once, unless they stayed at zero
        let left = 128 - n;
        acc = if left < 128 { acc << left } else { acc };
        groups.push(acc.to_le_bytes());
    }
    (img, groups)
}

/// kind: 0 unpacked, 1 control bytes, 2 compressed, 3 compressed with split blocks
fn rw2(g: &mut G, kind: usize) -> Case {
    if kind < 3 {
        // the format is recognised by the amount of data up to the end of the file
        g.lay.tail = 0;
    }
    let mut t = g.tiff();
    let (w, h);
    let (img, data, name): (Vec<u16>, Vec<u8>, &str);
    match kind {
        0 => {
            let d = pana_dims(g, 100, 1);
            w = d.0;
            h = d.1;
            img = g.image(w, h, 4095);
            let v: Vec<u16> = img.iter().map(|x| x << 4 | (g.rng.u16() & 15)).collect();
            data = u16s(&v, false);
            name = "rw2-unpacked";
        }
        1 => {
            let d = pana_dims(g, 2000, 2);
            w = d.0;
            h = d.1;
            img = g.image(w, h, 4095);
            let mut r = g.rng.clone();
            data = wcontrol(&img, w, false, &mut || r.u8());
            name = "rw2-control";
        }
        _ => {
            let d = pana_dims(g, 1000, 14);
            w = d.0;
            h = d.1;
            let (i, groups) = pana_encode(g, w, h);
            img = i;
            let mut b: Vec<u8> = groups.concat();
            if kind == 3 {
                while b.len() % 0x4000 != 0 {
                    b.push(g.rng.u8());
                }
                for c in b.chunks_mut(0x4000) {
                    // stored from the middle of the block on
                    let v = c.to_vec();
                    for (k, x) in v.iter().enumerate() {
                        c[(k + 0x4000 - 0x2008) % 0x4000] = *x;
                    }
                }
            }
            data = b;
            name = if kind == 3 { "rw2-split" } else { "rw2-compressed" };
        }
    }
    let d = if kind == 3 {
        t.blob(data)
    } else {
        t.blob_last(data)
    };
    let raw = Ifd::new()
        .short(0x2, w as u16)
        .short(0x3, h as u16)
        .with(if kind == 3 { 0x118 } else { 0x111 }, Val::OffsetTo(vec![(d, 0)]));
    let mut ifd0 = g.ifd0();
    ifd0.e.extend(raw.e);
    if kind == 3 && g.rng.bool() {
        // newer cameras have a dummy here
        ifd0.add(0x111, Val::Long(vec![0xffffffff]));
    }
    let v = [g.mul(), g.mul(), g.mul()];
    let wb;
    let k = g.rng.below(3);
    if k < 2 {
        ifd0.add(0x11, Val::Short(vec![v[0]]));
        ifd0.add(0x12, Val::Short(vec![v[2]]));
        wb = [v[0] as f32, 256.0, v[2] as f32, NAN];
    } else {
        wb = [v[0] as f32, v[1] as f32, v[2] as f32, NAN];
    }
    if k > 0 {
        let o = if k == 1 { [3u16, 4, 5] } else { v };
        ifd0.add(0x24, Val::Short(vec![o[0]]));
        ifd0.add(0x25, Val::Short(vec![o[1]]));
        ifd0.add(0x26, Val::Short(vec![o[2]]));
    }
    let mut hdr = if t.big() { b"MM\0U".to_vec() } else { b"IIU\0".to_vec() };
    hdr.extend(&[0; 4]);
    let file = t.finish_with_header(hdr, 4, &[ifd0]);
    g.case(name, file, w, h, img, wb)
}
pub fn rw2_plain(g: &mut G) -> Case {
    let k = g.rng.below(2);
    rw2(g, k)
}
pub fn rw2_compressed(g: &mut G) -> Case {
    let k = 2 + g.rng.below(2);
    rw2(g, k)
}

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "pef-plain", class: Class::Uncompressed, accepts: is_pentax, gen: pef_plain, cost: 1 },
        Family { name: "pef-compressed", class: Class::Vendor, accepts: is_pentax, gen: pef_compressed, cost: 1 },
        Family { name: "orf-plain", class: Class::Uncompressed, accepts: is_olympus, gen: orf_plain, cost: 1 },
        Family { name: "orf-compressed", class: Class::Vendor, accepts: is_olympus, gen: orf_compressed, cost: 1 },
        Family { name: "rw2-plain", class: Class::Uncompressed, accepts: is_pana, gen: rw2_plain, cost: 2 },
        Family { name: "rw2-compressed", class: Class::Vendor, accepts: is_pana, gen: rw2_compressed, cost: 2 },
    ]
}
