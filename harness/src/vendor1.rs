//! Sony ARW, Nikon NEF and NRW.
use crate::case::*;
use crate::huff::*;
use crate::pack::*;
use crate::tiff::*;
use crate::cat::Cam;

/// A directory with its values right behind it, for places where offsets are relative or the
/// bytes get encrypted. `base` is what the offset of the directory's first byte counts as.
pub fn flat_ifd(entries: &[(u16, u16, u32, Vec<u8>)], big: bool, base: usize) -> Vec<u8> {
    let mut e = entries.to_vec();
    e.sort_by_key(|x| x.0);
    let mut out = p16(big, e.len() as u16).to_vec();
    let mut tail: Vec<u8> = Vec::new();
    let len = 2 + e.len() * 12 + 4;
    for (tag, typ, count, data) in &e {
        out.extend(&p16(big, *tag));
        out.extend(&p16(big, *typ));
        out.extend(&p32(big, *count));
        if data.len() <= 4 {
            let mut d = data.clone();
            d.resize(4, 0);
            out.extend(&d);
        } else {
            out.extend(&p32(big, (base + len + tail.len()) as u32));
            tail.extend(data);
            if tail.len() % 2 == 1 {
                tail.push(0);
            }
        }
    }
    out.extend(&[0; 4]);
    out.extend(tail);
    out
}

pub fn shorts(v: &[u16], big: bool) -> Vec<u8> {
    u16s(v, big)
}
pub fn longs(v: &[u32], big: bool) -> Vec<u8> {
    v.iter().flat_map(|&x| p32(big, x)).collect()
}

// ---------------------------------------------------------------- Sony

/// The keystream of the Sony "encryption", from the published description of the format
fn sony_crypt(data: &[u8], key: u32) -> Vec<u8> {
    let mut pad = [0u32; 128];
    let mut k = key;
    for p in pad.iter_mut().take(4) {
        k = k.wrapping_mul(48828125).wrapping_add(1);
        *p = k;
    }
    pad[3] = pad[3] << 1 | (pad[0] ^ pad[2]) >> 31;
    for i in 4..127 {
        pad[i] = (pad[i - 4] ^ pad[i - 2]) << 1 | (pad[i - 3] ^ pad[i - 1]) >> 31;
    }
    for p in pad.iter_mut().take(127) {
        *p = p.swap_bytes();
    }
    let mut i = 127usize;
    data.chunks(4)
        .flat_map(|c| {
            pad[i & 127] = pad[(i + 1) & 127] ^ pad[(i + 65) & 127];
            let ks = pad[i & 127].to_le_bytes();
            i += 1;
            c.iter().zip(ks.to_vec()).map(|(a, b)| a ^ b).collect::<Vec<u8>>()
        })
        .collect()
}

/// The private area with the encrypted white balance
fn sony_wb(g: &mut G, t: &mut Tiff, ifd0: &mut Ifd) -> [f32; 4] {
    let v = [g.mul(), g.mul(), g.mul(), g.mul()];
    let pos = 30000 + g.rng.below(20000) * 2;
    let mut entries = Vec::new();
    let wb = if g.rng.bool() {
        entries.push((0x7303u16, if g.rng.bool() { 3 } else { 8 }, 4u32, shorts(&v, false)));
        [v[1] as f32, v[0] as f32, v[2] as f32, NAN]
    } else {
        entries.push((0x7313, if g.rng.bool() { 3 } else { 8 }, 4, shorts(&v, false)));
        [v[0] as f32, v[1] as f32, v[3] as f32, NAN]
    };
    // things around it
    for k in 0..g.rng.below(6) {
        let n = g.rng.range(5, 600);
        entries.push((0x7400 + k as u16, 7, n as u32, g.rng.bytes(n)));
    }
    let plain = flat_ifd(&entries, false, pos);
    let key = g.rng.u32();
    let mut crypt = sony_crypt(&plain, key);
    let len = crypt.len();
    crypt.extend(g.slack(8).iter().map(|_| 0x77));
    t.blob_at(crypt, pos);
    let privd = Ifd::new().long(0x7200, pos as u32).long(0x7201, len as u32).long(0x7221, key);
    let p = t.ifd_chunk(&privd, false);
    // the tag holds the offset as four bytes in the order of the file
    ifd0.add(0xc634, if g.rng.bool() { Val::OffsetTo(vec![(p, 0)]) } else { Val::OffsetTo(vec![(p, 0)]) });
    wb
}

fn arw_base(g: &mut G) -> (Tiff, Ifd, [f32; 4]) {
    let mut t = g.tiff();
    let mut ifd0 = g.ifd0();
    let wb = sony_wb(g, &mut t, &mut ifd0);
    (t, ifd0, wb)
}

fn arw_finish(g: &mut G, fmt: &str, t: Tiff, mut ifd0: Ifd, raw: Ifd, w: usize, h: usize, out: Vec<u16>, wb: [f32; 4]) -> Case {
    // like the cameras: the raw directory comes first among those with strips
    if g.rng.bool() {
        ifd0.add(0x14a, Val::Ifds(vec![raw]));
    } else {
        ifd0.e.extend(raw.e);
    }
    let file = t.finish(&[ifd0]);
    g.case(fmt, file, w, h, out, wb)
}

fn is_sony(c: &Cam) -> bool {
    c.make == "SONY" && c.mode.is_empty()
}
fn is_srf(c: &Cam) -> bool {
    is_sony(c) && c.bps == 0 && c.model != "DSLR-A100"
}

pub fn arw_plain(g: &mut G) -> Case {
    let (mut t, ifd0, wb) = arw_base(g);
    let r1 = g.cam.model == "DSC-R1";
    let packed = !r1 && g.rng.bool() && (g.cam.bps == 0 || g.cam.bps == 12);
    if packed {
        let (w, h) = g.dims(2, 1, 2, 1);
        let img = g.image(w, h, 4095);
        let data = lsb(&img, 12);
        let n = data.len();
        let d = t.blob(data);
        let raw = Ifd::new()
            .short(0x100, w as u16)
            .short(0x101, h as u16)
            .short(0x102, 12)
            .short(0x103, 32767)
            .with(0x111, Val::OffsetTo(vec![(d, 0)]))
            .long(0x117, n as u32);
        return arw_finish(g, "arw-12", t, ifd0, raw, w, h, img, wb);
    }
    let (w, h) = g.dims(1, 1, 1, 1);
    let img = g.image(w, h, if r1 { 0x3fff } else { 0xffff });
    let data = if r1 {
        let hi = if g.rng.bool() { 0xc000 } else { 0 };
        let v: Vec<u16> = img.iter().map(|x| x | (g.rng.u16() & hi)).collect();
        u16s(&v, true)
    } else {
        u16s(&img, false)
    };
    let n = data.len();
    let d = t.blob(data);
    let raw = Ifd::new()
        .short(0x100, w as u16)
        .short(0x101, h as u16)
        .short(0x102, 14)
        .short(0x103, 1)
        .with(0x111, Val::OffsetTo(vec![(d, 0)]))
        .long(0x117, n as u32);
    arw_finish(g, if r1 { "arw-r1" } else { "arw-16" }, t, ifd0, raw, w, h, img, wb)
}

fn arw1_encode(img: &[u16], w: usize, h: usize, start: &mut Msb) {
    let mut sum = 0i32;
    for x in 0..w {
        let col = w - 1 - x;
        for row in (0..h).step_by(2).chain((1..h).step_by(2)) {
            let v = img[row * w + col] as i32;
            let d = v - sum;
            sum = v;
            let len = 32 - d.abs().leading_zeros();
            match len {
                0 => start.put(0b011, 3),
                1 => start.put(0b11, 2),
                2 => start.put(0b10, 2),
                3 => start.put(0b010, 3),
                n => {
                    start.put(0, 2);
                    let zeros = n - 4;
                    if zeros >= 13 {
                        start.put(0, 13);
                    } else {
                        start.put(1, zeros + 1);
                    }
                }
            }
            if len > 0 {
                let b = if d >= 0 { d } else { d + (1 << len) - 1 };
                start.put(b as u32, len);
            }
        }
    }
}

pub fn arw1(g: &mut G) -> Case {
    let (mut t, ifd0, wb) = arw_base(g);
    let (w, h) = g.dims(1, 10, 1, 2);
    let max = *g.rng.pick(&[4095u32, 4095, 0x3fff, 0xffff]);
    let img = g.image(w, h, max);
    let mut m = Msb::new();
    arw1_encode(&img, w, h, &mut m);
    let one = g.rng.bool();
    let mut data = m.finish(one);
    data.extend(g.slack(8).iter().map(|_| 0x5a));
    let mut count = data.len();
    let bps = if g.cam.bps != 0 { g.cam.bps } else { 12 };
    if w * (h - 8) * bps == count * 8 {
        data.push(0);
        count += 1;
    }
    let d = t.blob(data);
    let raw = Ifd::new()
        .short(0x100, w as u16)
        .short(0x101, h as u16 - 8)
        .short(0x102, 12)
        .short(0x103, 32767)
        .with(0x111, Val::OffsetTo(vec![(d, 0)]))
        .long(0x117, count as u32);
    arw_finish(g, "arw1", t, ifd0, raw, w, h, img, wb)
}

pub fn arw2(g: &mut G) -> Case {
    let (mut t, ifd0, wb) = arw_base(g);
    let (w, h) = g.dims(32, 1, 32, 1);
    // curve knee points
    let mut k: Vec<u16> = (0..4).map(|_| g.rng.below(4096) as u16).collect();
    if g.rng.chance(1, 3) {
        k = vec![2000, 2800, 3100, 3300].iter().map(|&x| x / 2).collect();
    }
    k.sort();
    let mut pts = vec![0u32; 4096];
    for i in 1..4096usize {
        // the slope doubles after each of the four points
        let seg = k.iter().filter(|&&p| i > p as usize).count();
        pts[i] = pts[i - 1] + (1 << seg);
    }
    if pts[4095] > 0xffff {
        // would not fit the samples: use points like the cameras'
        k = vec![2000, 2800, 3400, 3800];
        for i in 1..4096usize {
            let seg = k.iter().filter(|&&p| i > p as usize).count();
            pts[i] = pts[i - 1] + (1 << seg);
        }
    }
    let curve = Curve(pts.iter().map(|&x| x as u16).collect());
    let junk = g.rng.u16() & 0x3;
    let tagv: Vec<u16> = k.iter().map(|&p| (p << 2) | junk).collect();
    let mut data = Vec::new();
    let mut out = vec![0u16; w * h];
    for row in 0..h {
        let mut l = Lsb::new();
        let mut vals = vec![0u16; w];
        for blk in 0..w / 32 {
            for j in 0..2 {
                let style = g.rng.below(4);
                let (min, max) = match style {
                    0 => (g.rng.below(2048), g.rng.below(2048)),
                    1 => { let a = g.rng.below(2048); (a, (a + g.rng.below(200)).min(2047)) }
                    2 => { let a = g.rng.below(2048); (a, a) }
                    _ => (0, 2047),
                };
                let (min, max) = (min.min(max) as u32, min.max(max) as u32);
                let imax = g.rng.below(16);
                let imin = (imax + 1 + g.rng.below(15)) % 16;
                l.put(max, 11);
                l.put(min, 11);
                l.put(imax as u32, 4);
                l.put(imin as u32, 4);
                let delta = max - min;
                let mut sh = 0;
                while (delta >> sh) > 127 {
                    sh += 1;
                }
                for i in 0..16 {
                    let v = if i == imax {
                        max
                    } else if i == imin {
                        min
                    } else {
                        let q = g.rng.below(128) as u32;
                        l.put(q, 7);
                        (min + (q << sh)).min(2047)
                    };
                    vals[blk * 32 + j + i * 2] = v as u16;
                }
            }
        }
        let b = l.finish();
        assert_eq!(b.len(), w);
        let mut rand = u32::from_le_bytes([b[0], b[1], b[2], 0]);
        // the dither runs in storage order: the two interleaved groups of each block
        for blk in 0..w / 32 {
            for j in 0..2 {
                for i in 0..16 {
                    let p = blk * 32 + j + i * 2;
                    out[row * w + p] = curve.dither(vals[p] << 1, &mut rand);
                }
            }
        }
        data.extend(b);
    }
    let n = data.len();
    let d = t.blob(data);
    let raw = Ifd::new()
        .short(0x100, w as u16)
        .short(0x101, h as u16)
        .short(0x102, 8)
        .short(0x103, 32767)
        .with(0x111, Val::OffsetTo(vec![(d, 0)]))
        .long(0x117, n as u32)
        .with(0x7010, Val::Short(tagv));
    arw_finish(g, "arw2", t, ifd0, raw, w, h, out, wb)
}

pub fn srf(g: &mut G) -> Case {
    let (w, h) = g.dims(1, 1, 1, 1);
    let img = g.image(w, h, 0xffff);
    let mut t = g.tiff();
    let key2 = g.rng.u32();
    let mut d = sony_crypt(&u16s(&img, true), key2);
    d.extend(g.slack(8));
    t.blob_at(d, 862144);
    let mut keys = g.rng.bytes(2000);
    let at = keys[0] as usize * 4;
    let at = if at == 0 { keys[0] = 3; 12 } else { at };
    let key1 = u32::from_be_bytes([keys[at], keys[at + 1], keys[at + 2], keys[at + 3]]);
    t.blob_at(keys, 200896);
    let mut head = g.rng.bytes(48);
    head[22..26].copy_from_slice(&key2.to_le_bytes());
    t.blob_at(sony_crypt(&head, key1), 164600);
    let mut ifd0 = g.ifd0();
    ifd0.add(0x100, Val::Short(vec![w as u16]));
    ifd0.add(0x101, Val::Short(vec![h as u16]));
    let file = t.finish(&[ifd0]);
    g.case("srf", file, w, h, img, [NAN; 4])
}

pub fn a100(g: &mut G) -> Case {
    let (w, h) = (3881, 2608);
    let mut img = g.image(w, h, 4095);
    let mut t = g.tiff();
    // The offset to the data is in the sub-IFD tag: data that is not a sensible directory
    // keeps it there, so start with a sum and width that make the first bytes large
    img[w - 1] = 4095;
    img[2 * w + w - 1] = 0;
    let mut m = Msb::new();
    // the first difference: 12 bits coded with a long prefix of zeros; use instead a code
    // with leading ones: first samples small
    img[w - 1] = 1;
    img[2 * w + w - 1] = 0;
    img[4 * w + w - 1] = 1;
    img[6 * w + w - 1] = 0;
    img[8 * w + w - 1] = 1;
    img[10 * w + w - 1] = 0;
    arw1_encode(&img, w, h, &mut m);
    let mut data = m.finish(false);
    data.extend(g.slack(8));
    let d = t.blob(data);
    let v = [g.mul(), g.mul(), g.mul(), g.mul()];
    let mut privd = b"MRI\0\0\0\0\0".to_vec();
    let blocks = [0x505244u32, 0x545457, 0x524946, 0x504144];
    for k in 0..g.rng.below(5) {
        let n = if g.rng.bool() { 24 } else { g.rng.below(3000) };
        privd.extend(&blocks[k].to_be_bytes());
        privd.extend(&(n as u32).to_le_bytes());
        privd.extend(g.rng.bytes(n));
    }
    privd.extend(&0x574247u32.to_be_bytes());
    privd.extend(&12u32.to_le_bytes());
    privd.extend(&[9; 4]);
    privd.extend(shorts(&v, false));
    privd.extend(&[0; 40]);
    let p = t.blob(privd);
    let ifd0 = g.ifd0().with(0x14a, Val::OffsetTo(vec![(d, 0)])).with(0xc634, Val::OffsetTo(vec![(p, 0)]));
    let file = t.finish(&[ifd0]);
    let wb = [v[0] as f32, v[1] as f32, v[3] as f32, NAN];
    g.case("arw-a100", file, w, h, img, wb)
}

// ---------------------------------------------------------------- Nikon

const SERIALMAP: &str = "c1bf6d0d59c5139d83616b4fc77f3d3d5359e3c7e92f95a7951fdf7f2b29c70ddf07ef71893d133d3b13fb0d89c1651fb30d6b29e3fbefa36b477f9535a7474fc7f1599535112961f13db32b0d4389c19d9d8965f1e9dfbf3d7f5397e5e995171d3d8bfbc7e367a707f171a753b52989e52ba71729e94fc5656d6bef0d89492fb34353651d49a3138959ef6bef651d0b5913e34f9db329432b071d95595947fbe5e961472f357f177fef7f959571d3a30b71a3ad0b3bb5fba3bf4f831dade92f7165a3e507353d0db5e9e5473b9def35a3bfb3df53d397534971073561712f432f11df1797fb953b7f6bd325bfadc7c5c5b58bef2fd3076b25499525496d71c7";
const KEYMAP: &str = "a7bcc9ad91df85e5d478d517467c294c4d03e925681186b3bdf76f6122a226342abe1e4614689d4418c240f47e5f1bad0b94b667b40be1ea959c66dce75d6c05dad5df7aeff6db1f824cc06847a1bdee3950564adddfa5f8c6daca90ca01429d8b0c7343750594de24b38034e52cdc9b3fca3345d0db5ff552c321dae222726b3ed05ba8878c065d0fdd091993d0b9fc8b0f8460331c9b45f1f0a3943a1277334d4478283c9efd655716946bfb59d0c82236dbd2639843a1048786f7a626bbd6594dbf6a2eaa2befe678b64ee02fdc7cbe5719327e2ad0b8ba29003c527da8493b2deb2549faa3aa39a7c5a7501136fbc6674af5a512657eb0dfaf4eb3617f2f";

fn hexmap(s: &str) -> Vec<u8> {
    let d: Vec<u8> = s.bytes().filter(|b| *b != b' ').map(|b| (b as char).to_digit(16).unwrap() as u8).collect();
    let v: Vec<u8> = d.chunks(2).map(|c| c[0] * 16 + c[1]).collect();
    assert_eq!(v.len(), 256);
    v
}

/// Entries of the makernote for the white balance, and the result
fn nikon_wb(g: &mut G, big: bool, e: &mut Vec<(u16, u16, u32, Vec<u8>)>) -> [f32; 4] {
    match g.rng.below(6) {
        0 | 1 => {
            let v: Vec<u32> = (0..4).map(|_| g.rng.range(1, 5000) as u32).collect();
            let d: Vec<u32> = (0..4).map(|_| g.rng.range(1, 1000) as u32).collect();
            let mut b = Vec::new();
            for i in 0..4 {
                b.extend(&p32(big, v[i]));
                b.extend(&p32(big, d[i]));
            }
            e.push((0x0c, 5, 4, b));
            if g.rng.bool() {
                // also the other kind, which has lower precedence
                let mut o = b"0100".to_vec();
                o.extend(g.rng.bytes(100));
                e.push((0x97, 7, o.len() as u32, o));
            }
            [v[0] as f32 / d[0] as f32, 1.0, v[1] as f32 / d[1] as f32, NAN]
        }
        k @ 2 | k @ 3 => {
            let mut b = if k == 2 { b"0100".to_vec() } else { b"0103".to_vec() };
            b.extend(g.rng.bytes(120));
            let v = [g.mul(), g.mul(), g.mul()];
            let (ir, ig, ib) = if k == 2 { (36, 38, 37) } else { (10, 11, 12) };
            for (i, x) in [(ir, v[0]), (ig, v[1]), (ib, v[2])].iter() {
                b[i * 2..i * 2 + 2].copy_from_slice(&p16(big, *x));
            }
            e.push((0x97, 7, b.len() as u32, b));
            [v[0] as f32, v[1] as f32, v[2] as f32, NAN]
        }
        k => {
            let (ver, from, off) = if k == 4 { ("0204", 284, 6) } else { ("0205", 4, 14) };
            let v = [g.mul(), g.mul(), g.mul()];
            let mut plain = g.rng.bytes(280);
            plain[off..off + 2].copy_from_slice(&v[0].to_be_bytes());
            plain[off + 2..off + 4].copy_from_slice(&v[1].to_be_bytes());
            plain[off + 6..off + 8].copy_from_slice(&v[2].to_be_bytes());
            // every character but the first NUL counts
            let n = g.rng.range(1, 12);
            let mut serial: Vec<u8> = (0..n)
                .map(|_| if g.rng.chance(5, 6) { b'0' + g.rng.below(10) as u8 } else { *g.rng.pick(b" -DNX#?") })
                .collect();
            let mut no = 0u64;
            for &c in &serial {
                no = no * 10 + if c.is_ascii_digit() { (c - b'0') as u64 } else { (c % 10) as u64 };
            }
            serial.push(0);
            if g.rng.bool() {
                serial.extend(b"77\0");
            }
            let key = g.rng.bytes(4);
            let kn = key.iter().fold(0, |a, b| a ^ b);
            let ci = hexmap(SERIALMAP)[(no & 0xff) as usize] as u32;
            let mut cj = hexmap(KEYMAP)[kn as usize] as u32;
            let mut ck = 0x60u32;
            let crypt: Vec<u8> = plain
                .iter()
                .map(|p| {
                    cj = (cj + ci * ck) & 0xff;
                    ck += 1;
                    p ^ cj as u8
                })
                .collect();
            let mut b = ver.as_bytes().to_vec();
            let fill = g.rng.bytes(from - 4);
            b.extend(fill);
            b.extend(crypt);
            e.push((0x97, 7, b.len() as u32, b));
            e.push((0x1d, 2, serial.len() as u32, serial));
            e.push((0xa7, 7, 4, key));
            [v[0] as f32, v[1] as f32, v[2] as f32, NAN]
        }
    }
}

/// Attach the makernote in one of the forms the cameras use
fn nikon_maker(g: &mut G, t: &Tiff, e: Vec<(u16, u16, u32, Vec<u8>)>, big: bool) -> Val {
    let _ = t;
    let _ = &g;
    let mut b = b"Nikon\0\x02\x10\0\0".to_vec();
    b.extend(if big { b"MM\0*" } else { b"II*\0" });
    b.extend(&p32(big, 8));
    b.extend(flat_ifd(&e, big, 8));
    Val::Undef(b)
}

fn nikon_plain_maker(e: &[(u16, u16, u32, Vec<u8>)], big: bool) -> Val {
    let mut i = Ifd::new();
    for (tag, typ, count, data) in e {
        i.add(*tag, Val::Raw(*typ, *count, data.clone()));
    }
    Val::Maker { prefix: vec![], ifd: i, big }
}

fn nikon_file(g: &mut G, mut t: Tiff, raw: Ifd, e: Vec<(u16, u16, u32, Vec<u8>)>, big: bool, plain: bool) -> Vec<u8> {
    let mn = if plain { nikon_plain_maker(&e, big) } else { nikon_maker(g, &t, e, big) };
    let exif = Ifd::new().with(0x927c, mn);
    let mut ifd0 = g.ifd0();
    ifd0.add(0x8769, Val::Ifds(vec![exif]));
    let thumb = t.blob(vec![3; 64]);
    if g.rng.bool() {
        // the preview image comes first, without colour filter
        ifd0.add(0x111, Val::OffsetTo(vec![(thumb, 0)]));
        ifd0.add(0x100, Val::Long(vec![160]));
        ifd0.add(0x101, Val::Long(vec![120]));
        ifd0.add(0x103, Val::Short(vec![1]));
        ifd0.add(0x14a, Val::Ifds(vec![raw]));
        t.finish(&[ifd0])
    } else {
        let chain = g.place_raw(ifd0, raw);
        t.finish(&chain)
    }
}

fn is_nef(c: &Cam) -> bool {
    c.make == "NIKON CORPORATION" && (c.mode == "12bit" || c.mode == "14bit")
}
fn nef_bps(g: &G) -> u32 {
    if g.cam.mode == "12bit" { 12 } else { 14 }
}

pub fn nef_plain(g: &mut G) -> Case {
    let bps = nef_bps(g);
    let mut t = g.tiff();
    let big = t.big();
    let max = (1u32 << bps) - 1;
    let (w, h, img, data, comp);
    let mut tagw = 0;
    if g.cam.model == "NIKON D100" {
        w = 3040;
        h = 1 + g.rng.below(6);
        img = g.image(w, h, 4095);
        let mut r = g.rng.clone();
        data = wcontrol(&img, w, true, &mut || r.u8());
        comp = 34713;
        tagw = 3034;
    } else {
        let d = g.dims(2, 1, if bps == 12 { 2 } else { 4 }, 1);
        w = d.0;
        h = d.1;
        img = g.image(w, h, max);
        // either kind of compression tag, the size decides
        if bps == 12 {
            data = if big { msb(&img, 12) } else { lsb(&img, 12) };
        } else {
            let hi = if g.rng.bool() { 0xc000 } else { 0 };
            let v: Vec<u16> = img.iter().map(|x| x | (g.rng.u16() & hi)).collect();
            data = u16s(&v, big);
        }
        comp = if g.rng.bool() { 1 } else { 34713 };
    }
    let size = w * h * bps as usize / 8;
    let d = t.blob(data);
    let raw = Ifd::new()
        .long(0x100, if tagw > 0 { tagw } else { w as u32 })
        .long(0x101, h as u32)
        .short(0x102, bps as u16)
        .short(0x103, comp)
        .with(0x111, Val::OffsetTo(vec![(d, 0)]))
        .long(0x117, size as u32)
        .with(0x828e, Val::Byte(vec![0, 1, 1, 2]));
    let mut e = Vec::new();
    let mbig = g.rng.bool();
    let plain = g.rng.chance(1, 3);
    let mbig = if plain { big } else { mbig };
    let wb = nikon_wb(g, mbig, &mut e);
    let file = nikon_file(g, t, raw, e, mbig, plain);
    g.case(if bps == 12 { "nef-12" } else { "nef-14" }, file, w, h, img, wb)
}

/// (code lengths, values) of the fixed Nikon codes
fn nikon_tree(n: usize) -> Huff {
    let (bits, vals): (&[u32], &[u8]) = match n {
        0 => (&[0, 1, 5, 1, 1, 1, 1, 1, 1, 2], &[5, 4, 3, 6, 2, 7, 1, 0, 8, 9, 11, 10, 12]),
        1 => (&[0, 1, 5, 1, 1, 1, 1, 1, 1, 2], &[0x39, 0x5a, 0x38, 0x27, 0x16, 5, 4, 3, 2, 1, 0, 11, 12, 12]),
        2 => (&[0, 1, 4, 2, 3, 1, 2], &[5, 4, 6, 3, 7, 2, 8, 1, 9, 0, 10, 11, 12]),
        3 => (&[0, 1, 4, 3, 1, 1, 1, 1, 1, 2], &[5, 6, 4, 7, 8, 3, 9, 2, 1, 0, 10, 11, 12, 13, 14]),
        4 => (&[0, 1, 5, 1, 1, 1, 1, 1, 1, 1, 2], &[8, 0x5c, 0x4b, 0x3a, 0x29, 7, 6, 5, 4, 3, 2, 1, 0, 13, 14]),
        _ => (&[0, 1, 4, 2, 2, 3, 1, 2], &[7, 6, 8, 5, 9, 4, 10, 3, 11, 12, 2, 0, 1, 13, 14]),
    };
    let mut order = Vec::new();
    let mut it = vals.iter();
    for (i, &n) in bits.iter().enumerate() {
        for _ in 0..n {
            if let Some(&v) = it.next() {
                order.push((v, i as u32 + 1));
            }
        }
    }
    Huff::from_order(order)
}

/// differences the code can express after the split, as (code value, bits, difference)
fn split_diff(g: &mut G, h: &Huff, want: i32) -> (u8, u32, u32, i32) {
    // try every code value, take the nearest representable difference (random ties)
    let mut best: Option<(i32, u8, u32, u32, i32)> = None;
    for &(v, _) in &h.order {
        // nbits of the difference including the shifted ones
        let len = (v & 15) as i32;
        let shl = (v >> 4) as i32;
        let n = len - shl;
        if len == 0 {
            let d = want.abs();
            if best.map_or(true, |b| d < b.0) {
                best = Some((d, v, 0, 0, 0));
            }
            continue;
        }
        let expand = |b: i32| {
            let mut d = (((b << 1) + 1) << shl) >> 1;
            if d & (1 << (len - 1)) == 0 {
                d -= (1 << len) - if shl == 0 { 1 } else { 0 };
            }
            d
        };
        // guess and look around
        let guess = if want >= 0 { want >> shl } else { (want + (1 << len)) >> shl };
        for b in guess - 1..=guess + 1 {
            if b < 0 || b >= 1 << n {
                continue;
            }
            let d = expand(b);
            let err = (d - want).abs();
            if best.map_or(true, |x| err < x.0) || (best.map_or(false, |x| err == x.0) && g.rng.bool()) {
                best = Some((err, v, b as u32, n as u32, d));
            }
        }
    }
    let b = best.unwrap();
    (b.1, b.2, b.3, b.4)
}

pub fn nef_compressed(g: &mut G) -> Case {
    let bps = nef_bps(g);
    let full = 1usize << bps;
    let mut t = g.tiff();
    let mbig = g.rng.bool();
    let kind = g.rng.below(5);
    let (w, h) = g.dims(2, 2, 2, 1);
    let preds: Vec<u16> = (0..4).map(|_| g.rng.below(full) as u16).collect();
    let mut meta: Vec<u8> = Vec::new();
    let put = |m: &mut Vec<u8>, v: u16| m.extend(&p16(mbig, v));
    let mut split = 0;
    let (curve, tree, name): (Curve, usize, &str);
    match kind {
        // lossless
        0 | 1 => {
            meta.extend(&[70, if g.rng.bool() { 48 } else { 49 }]);
            for &p in &preds {
                put(&mut meta, p);
            }
            put(&mut meta, g.rng.u16());
            meta.extend(g.rng.bytes(40));
            curve = Curve((0..full).map(|x| x as u16).collect());
            tree = 2;
            name = "nef-lossless";
        }
        // lossy with an interpolated curve, perhaps with a split
        2 | 3 => {
            let step = *g.rng.pick(&[16usize, 32, 64, 128, 256]) * if bps == 14 { 4 } else { 1 };
            let n = full / step + 1;
            let knots = random_curve(&mut g.rng, n, (full * 3).min(65535) as u32);
            meta.extend(&[68, 32]);
            for &p in &preds {
                put(&mut meta, p);
            }
            put(&mut meta, n as u16);
            let mut pts = Vec::with_capacity(full);
            for i in 0..full {
                let (a, b) = (knots[i / step] as usize, knots[i / step + 1] as usize);
                pts.push(((a * (step - i % step) + b * (i % step)) / step) as u16);
            }
            for &k in &knots {
                put(&mut meta, k);
            }
            if meta.len() < 600 {
                meta.resize(600, 0);
            }
            if kind == 3 && meta.len() <= 600 && 12 + n * 2 <= 562 {
                split = g.rng.range(1, h - 1);
            } else if 12 + n * 2 > 562 {
                // the split field overlaps the curve
                split = if mbig { u16::from_be_bytes([meta[562], meta[563]]) as usize } else { u16::from_le_bytes([meta[562], meta[563]]) as usize };
            }
            meta[562..564].copy_from_slice(&p16(mbig, split as u16));
            if 12 + n * 2 > 562 && split != 0 && split < h {
                // not what is tested here
                split = 0;
            }
            curve = Curve(pts);
            tree = 0;
            name = if split > 0 { "nef-split" } else { "nef-lossy" };
        }
        // plain table of points
        _ => {
            let v = *g.rng.pick(&[(68u8, 48u8), (73, 48), (68, 88)]);
            meta.extend(&[v.0, v.1]);
            if v.0 == 73 || v.1 == 88 {
                meta.extend(g.rng.bytes(2110));
            }
            let n = g.rng.range(2, (full / 4).min(0x4001)).max(g.rng.range(2, 0x400));
            for i in 0..4 {
                put(&mut meta, preds[i] % n as u16);
            }
            put(&mut meta, n as u16);
            let pts = random_curve(&mut g.rng, n, full as u32 - 1);
            for &p in &pts {
                put(&mut meta, p);
            }
            meta.extend(&[0; 16]);
            curve = Curve(pts);
            tree = 0;
            name = "nef-table";
        }
    }
    let max = curve.0.len();
    let preds: Vec<i32> = preds.iter().map(|&p| if kind == 4 { p as i32 % max as i32 } else { p as i32 }).collect();
    let tree = tree + if bps == 14 { 3 } else { 0 };
    let first = nikon_tree(tree);
    let img = g.image(w, h, max as u32 - 1);
    let mut codes = vec![0u16; w * h];
    let mut m = Msb::new();
    let mut up = [[preds[0], preds[2]], [preds[1], preds[3]]];
    let second = if split > 0 { Some(nikon_tree(tree + 1)) } else { None };
    for row in 0..h {
        let mut left = up[row & 1];
        for col in 0..w {
            let s = col & 1;
            let want = img[row * w + col] as i32;
            let v = if split > 0 && row >= split {
                let h2 = second.as_ref().unwrap();
                let (mut code, mut b, mut n, mut d) = split_diff(g, h2, want - left[s]);
                if left[s] + d < 0 || left[s] + d >= max as i32 {
                    let z = split_diff(g, h2, 0);
                    code = z.0;
                    b = z.1;
                    n = z.2;
                    d = z.3;
                    assert!(d == 0);
                }
                h2.put(&mut m, code);
                m.put(b, n);
                left[s] + d
            } else {
                let d = want - left[s];
                let c = 32 - d.abs().leading_zeros();
                first.put(&mut m, c as u8);
                put_diff_bits(&mut m, d, c);
                want
            };
            left[s] = v;
            if col < 2 {
                up[row & 1][s] = v;
            }
            codes[row * w + col] = v as u16;
        }
    }
    let one = g.rng.bool();
    let mut data = m.finish(one);
    data.extend(g.slack(8));
    data.resize(data.len().max(3), 0);
    let mut rand = u32::from_be_bytes([0, data[0], data[1], data[2]]);
    let out: Vec<u16> = codes.iter().map(|&c| curve.dither(c, &mut rand)).collect();
    let mut size = data.len();
    while size == w * h * bps as usize / 8 || size == w * h * 3 {
        data.push(0);
        size += 1;
    }
    let d = t.blob(data);
    let raw = Ifd::new()
        .long(0x100, w as u32)
        .long(0x101, h as u32)
        .short(0x102, bps as u16)
        .short(0x103, 34713)
        .with(0x111, Val::OffsetTo(vec![(d, 0)]))
        .long(0x117, size as u32)
        .with(0x828e, Val::Byte(vec![0, 1, 1, 2]));
    let mut e = Vec::new();
    let plain = mbig == t.big() && g.rng.chance(1, 3);
    let wb = nikon_wb(g, mbig, &mut e);
    if g.rng.bool() {
        // only the old tag
        e.push((0x8c, 7, meta.len() as u32, meta));
    } else {
        let other = g.rng.bytes(80);
        e.push((0x8c, 7, other.len() as u32, other));
        e.push((0x96, 7, meta.len() as u32, meta));
    }
    let file = nikon_file(g, t, raw, e, mbig, plain);
    g.case(name, file, w, h, out, wb)
}

pub fn snef(g: &mut G) -> Case {
    let bps = nef_bps(g) as usize;
    let mut t = g.tiff();
    let mbig = g.rng.bool();
    let (w, h) = g.dims(2, 1, 2, 1);
    // a white balance around the usual
    let (r, b) = (g.rng.range(300, 900) as u32, g.rng.range(300, 900) as u32);
    let mut wbv = Vec::new();
    for x in [r, 256, b, 256, 1, 1, 1, 1].chunks(2) {
        wbv.extend(&p32(mbig, x[0]));
        wbv.extend(&p32(mbig, x[1]));
    }
    let (fr, fb) = (r as f32 / 256.0, b as f32 / 256.0);
    let wb = [fr, 1.0, fb, NAN];
    let inv = [(1024.0 / fr) as i64, (1024.0 / fb) as i64];
    let curve = {
        let mut v = Vec::new();
        for i in 0..4096 {
            let x = i as f32 / 4095.0;
            let y: f32 = if x <= 0.04045 { x / 12.92 } else { ((x + 0.055) / (1.0 + 0.055)).powf(2.4) };
            v.push(((y * 65535.0 * 4.0) as i64).max(0).min(65535) as u16);
        }
        Curve(v)
    };
    let mut data = Vec::new();
    let mut out = Vec::new();
    let yimg = g.image(w, h, 4095);
    let cstyle = g.rng.below(3);
    for row in 0..h {
        let mut bytes = Vec::new();
        let mut px = Vec::new();
        for p in 0..w / 2 {
            let mut ch = || match cstyle {
                0 => g.rng.below(4096) as u32,
                1 => 2048,
                _ => 1948 + g.rng.below(200) as u32,
            };
            let (cb, cr) = (ch(), ch());
            let (y1, y2) = (yimg[row * w + p * 2] as u32, yimg[row * w + p * 2 + 1] as u32);
            let mut l = Lsb::new();
            l.put(y1, 12);
            l.put(y2, 12);
            l.put(cb, 12);
            l.put(cr, 12);
            bytes.extend(l.finish());
            px.push((y1, cb, cr));
            px.push((y2, cb, cr));
        }
        let mut rand = u32::from_be_bytes([bytes[0], bytes[1], bytes[2], bytes[3]]);
        for (y, cb, cr) in px {
            let (y, cb, cr) = (y as f32, cb as f32 - 2048.0, cr as f32 - 2048.0);
            let c12 = |x: f32| (x as i64).max(0).min(4095) as u16;
            let rr = curve.dither(c12(y + 1.370705 * cr), &mut rand) as i64;
            let gg = curve.dither(c12(y - 0.337633 * cb - 0.698001 * cr), &mut rand);
            let bb = curve.dither(c12(y + 1.732446 * cb), &mut rand) as i64;
            out.push(((inv[0] * rr + 512) >> 10).max(0).min(32767) as u16);
            out.push(gg);
            out.push(((inv[1] * bb + 512) >> 10).max(0).min(32767) as u16);
        }
        data.extend(bytes);
    }
    let size = data.len();
    let d = t.blob(data);
    let raw = Ifd::new()
        .long(0x100, w as u32)
        .long(0x101, h as u32)
        .short(0x102, bps as u16)
        .short(0x103, 34713)
        .with(0x111, Val::OffsetTo(vec![(d, 0)]))
        .long(0x117, size as u32)
        .with(0x828e, Val::Byte(vec![0, 1, 1, 2]));
    let e = vec![(0x0cu16, 5u16, 4u32, wbv)];
    let file = nikon_file(g, t, raw, e, mbig, false);
    let mono = out.iter().step_by(3).cloned().collect();
    let mut c = g.case("snef", file, w, h, mono, wb);
    c.data = out;
    c.cpp = 3;
    c.black = [0; 4];
    c.white = [65535; 4];
    c
}

pub fn nrw(g: &mut G) -> Case {
    let mut t = g.tiff();
    let (w, h);
    let data;
    let img;
    if g.cam.hint("coolpixsplit") {
        let d = g.dims(1002, 1, 2, 1);
        w = d.0;
        h = d.1;
        img = g.image(w, h, 4095);
        let mut v: Vec<u16> = Vec::new();
        for r in (0..h).step_by(2).chain((1..h).step_by(2)) {
            v.extend(&img[r * w..(r + 1) * w]);
        }
        data = msb(&v, 12);
    } else {
        let d = g.dims(1008, 1, 8, 1);
        w = d.0;
        h = d.1;
        img = g.image(w, h, 4095);
        let m = msb(&img, 12);
        data = if g.cam.hint("msb32") { swap(m, 4) } else { m };
    }
    let d = t.blob(data);
    let raw = Ifd::new()
        .long(0x100, w as u32)
        .long(0x101, h as u32)
        .short(0x102, 12)
        .short(0x103, 1)
        .with(0x111, Val::OffsetTo(vec![(d, 0)]))
        .long(0x117, (w * h * 3 / 2) as u32)
        .with(0x828e, Val::Byte(vec![0, 1, 1, 2]));
    let mbig = g.rng.bool();
    let mut e = Vec::new();
    let mut wb = match g.rng.below(4) {
        0 => {
            let v: Vec<u32> = (0..4).map(|_| g.rng.range(1, 5000) as u32).collect();
            e.push((0x0cu16, 5u16, 2u32, longs(&v, mbig)));
            [v[0] as f32 / v[1] as f32, 1.0, v[2] as f32 / v[3] as f32, NAN]
        }
        1 | 2 => {
            let v: Vec<u32> = (0..4).map(|_| g.rng.below(1 << 24) as u32).collect();
            let k = g.rng.below(2);
            let mut b = if k == 0 { b"NRW 0100".to_vec() } else { b"NRW 0200".to_vec() };
            b.extend(g.rng.bytes(1800));
            let off = if k == 0 { 1556 } else { 56 };
            b[off..off + 16].copy_from_slice(&longs(&v, false));
            e.push((0x14, 7, b.len() as u32, b));
            [(v[0] * 4) as f32, (v[1] + v[2]) as f32, (v[3] * 4) as f32, NAN]
        }
        _ => {
            let v = [g.mul(), g.mul()];
            let mut b = b"0100".to_vec();
            b.extend(g.rng.bytes(1300));
            b[1248..1252].copy_from_slice(&shorts(&v, true));
            e.push((0x14, 7, b.len() as u32, b));
            [v[0] as f32, 256.0, v[1] as f32, NAN]
        }
    };
    if g.cam.hint("nowb") {
        wb = [NAN; 4];
    }
    let file = nikon_file(g, t, raw, e, mbig, false);
    g.case("nrw", file, w, h, img, wb)
}

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "arw-plain", class: Class::Uncompressed, accepts: is_sony, gen: arw_plain, cost: 1 },
        Family { name: "arw1", class: Class::Vendor, accepts: |c| is_sony(c) && c.bps != 8, gen: arw1, cost: 1 },
        Family { name: "arw2", class: Class::Curve, accepts: |c| is_sony(c) && (c.bps == 0 || c.bps == 8), gen: arw2, cost: 1 },
        Family { name: "srf", class: Class::Uncompressed, accepts: is_srf, gen: srf, cost: 4 },
        Family { name: "arw-a100", class: Class::Vendor, accepts: |c| is_sony(c) && c.model == "DSLR-A100", gen: a100, cost: 200 },
        Family { name: "nef-plain", class: Class::Uncompressed, accepts: is_nef, gen: nef_plain, cost: 1 },
        Family { name: "nef-compressed", class: Class::Curve, accepts: |c| is_nef(c) && c.model != "NIKON D100", gen: nef_compressed, cost: 2 },
        Family { name: "snef", class: Class::Yuv, accepts: |c| is_nef(c) && c.model != "NIKON D100", gen: snef, cost: 1 },
        Family { name: "nrw", class: Class::Uncompressed, accepts: |c| c.make == "NIKON" && c.mode.is_empty(), gen: nrw, cost: 2 },
    ]
}
