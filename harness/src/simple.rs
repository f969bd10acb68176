//! Formats with plain or curve-coded samples: MRW, MEF, ARI, ERF, KDC, headerless, DCS.
use crate::case::*;
use crate::pack::*;
use crate::tiff::*;

pub fn is_minolta(c: &crate::cat::Cam) -> bool {
    c.make.to_lowercase().contains("minolta") && c.filesize == 0
}

pub fn mrw(g: &mut G) -> Case {
    let packed = g.rng.bool();
    let (w, h) = g.dims(2, 1, 2, 1);
    let img = g.image(w, h, 4095);
    let data = if packed {
        msb(&img, 12)
    } else {
        // the upper bits of unpacked samples are not part of the value
        let hi = if g.rng.bool() { 0xf000 } else { 0 };
        let v: Vec<u16> = img.iter().map(|x| x | (g.rng.u16() & hi)).collect();
        u16s(&v, true)
    };
    let wbv = [g.mul(), g.mul(), g.mul(), g.mul()];

    let mut prd = g.rng.bytes(24);
    prd[8..10].copy_from_slice(&(h as u16).to_be_bytes());
    prd[10..12].copy_from_slice(&(w as u16).to_be_bytes());
    prd[16] = if packed { 12 } else { 16 };
    let mut wbg = g.rng.bytes(4);
    for v in &wbv {
        wbg.extend(&v.to_be_bytes());
    }
    let ttw = {
        let mut lay = g.lay.clone().be();
        lay.gap = 0;
        let mut t = Tiff::new(&lay);
        let i = t.ifd_chunk(&g.ifd0(), true);
        t.set_pos(i, 8);
        t.blob_at(b"MM\0*\0\0\0\x08".to_vec(), 0);
        t.link()
    };
    let mut blocks = vec![(0x505244u32, prd), (0x574247, wbg), (0x545457, ttw)];
    if g.lay.unknown {
        blocks.push((0x524946, vec![7; 52]));
    }
    let mut lrng = crate::rng::Rng::new(g.lay.seed);
    if g.lay.shuffle {
        lrng.shuffle(&mut blocks);
    }
    if g.lay.pad || g.lay.gap > 0 {
        let padlen = lrng.below(200) + g.lay.gap;
        blocks.push((0x504144, vec![0; padlen]));
    }
    let mut body: Vec<u8> = Vec::new();
    for (tag, d) in &blocks {
        body.extend(&tag.to_be_bytes());
        body.extend(&(d.len() as u32).to_be_bytes());
        body.extend(d);
    }
    let mut file = b"\0MRM".to_vec();
    file.extend(&(body.len() as u32).to_be_bytes());
    file.extend(body);
    file.extend(data);
    file.extend(lrng.bytes(g.lay.tail));
    let f = |i: usize| wbv[i] as f32;
    let wb = if g.cam.hint("swapped_wb") { [f(2), f(0), f(1), NAN] } else { [f(0), f(1), f(3), NAN] };
    g.case(if packed { "mrw-packed" } else { "mrw-unpacked" }, file, w, h, img, wb)
}

pub fn mef(g: &mut G) -> Case {
    let (w, h) = g.dims(2, 1, 2, 1);
    let img = g.image(w, h, 4095);
    let mut t = g.tiff();
    let d = t.blob(msb(&img, 12));
    let raw = Ifd::new()
        .long(0x100, w as u32)
        .with(0x101, Val::Short(vec![h as u16]))
        .with(0x111, Val::OffsetTo(vec![(d, 0)]))
        .with(0x828e, Val::Byte(vec![0, 1, 1, 2]));
    let ifd0 = g.ifd0();
    let chain = g.place_raw(ifd0, raw);
    let file = t.finish(&chain);
    g.case("mef", file, w, h, img, [NAN; 4])
}

pub fn ari(g: &mut G) -> Case {
    g.orient = None;
    let (w, h) = g.dims(8, 1, 8, 1);
    let img = g.image(w, h, 4095);
    let off = 4096 + 4 * g.rng.below(100) + g.lay.gap / 4 * 4;
    let mut file = vec![0u8; off];
    file[0..4].copy_from_slice(b"ARRI");
    file[8..12].copy_from_slice(&(off as u32).to_le_bytes());
    file[20..24].copy_from_slice(&(w as u32).to_le_bytes());
    file[24..28].copy_from_slice(&(h as u32).to_le_bytes());
    let wb: Vec<f32> = (0..3).map(|_| (g.rng.f64() * 4.0 + 0.01) as f32).collect();
    for i in 0..3 {
        file[100 + 4 * i..104 + 4 * i].copy_from_slice(&wb[i].to_le_bytes());
    }
    let m = g.cam.model.clone().into_bytes();
    file[668..668 + m.len()].copy_from_slice(&m);
    file.extend(swap(msb(&img, 12), 4));
    file.extend(vec![0xaa; g.lay.tail]);
    g.case("ari", file, w, h, img, [wb[0], wb[1], wb[2], NAN])
}

pub fn erf(g: &mut G) -> Case {
    let (w, h) = g.dims(2, 1, 2, 1);
    let img = g.image(w, h, 4095);
    let mut t = g.tiff();
    let mut r = g.rng.clone();
    let d = t.blob(wcontrol(&img, w, true, &mut || r.u8()));
    let raw = Ifd::new()
        .long(0x100, w as u32)
        .long(0x101, h as u32)
        .with(0x111, Val::OffsetTo(vec![(d, 0)]))
        .with(0x828e, Val::Byte(vec![0, 1, 1, 2]));
    let (wr, wbl) = (g.mul(), g.mul());
    let mut lv = g.rng.bytes(256);
    lv[48..50].copy_from_slice(&wr.to_be_bytes());
    lv[50..52].copy_from_slice(&wbl.to_be_bytes());
    let mn = Ifd::new().with(0x0e80, Val::Undef(lv));
    let big = t.big();
    let exif = Ifd::new().with(0x927c, Val::Maker { prefix: b"EPSON\0\x01\0".to_vec(), ifd: mn, big });
    let ifd0 = g.ifd0().with(0x8769, Val::Ifds(vec![exif]));
    let chain = g.place_raw(ifd0, raw);
    let file = t.finish(&chain);
    let wb = [wr as f32 * 508.0 * 1.078 / 65536.0, 1.0, wbl as f32 * 382.0 * 1.173 / 65536.0, NAN];
    let mut c = g.case("erf", file, w, h, img, wb);
    c.wb_tol = 1e-5;
    c
}

pub fn kdc(g: &mut G) -> Case {
    let (w, h) = g.dims(82, 71, 2, 1);
    let img = g.image(w, h, 4095);
    let mut t = g.tiff();
    let data = msb(&img, 12);
    let mut offs: Vec<u32> = (0..13 + g.rng.below(4)).map(|_| g.rng.below(1000) as u32).collect();
    // the directory is not allowed to be split by the hard coded data position
    if g.cam.hint("easyshare_offset_hack") {
        let second = g.rng.bool();
        let off = if second { 0x15000 + g.rng.below(0x3000) } else { g.rng.below(0x15000) };
        offs[4] = g.rng.below(off + 1) as u32;
        offs[12] = off as u32 - offs[4];
        t.blob_at(data, if second { 0x17000 } else { 0x15000 });
    } else {
        let pos = 4000 + g.rng.below(3000);
        offs[4] = g.rng.below(pos) as u32;
        offs[12] = pos as u32 - offs[4];
        t.blob_at(data, pos);
    }
    let mut kifd = Ifd::new()
        .long(0xfd00, (w - 80) as u32)
        .long(0xfd01, (h - 70) as u32)
        .with(0xfd04, Val::Long(offs));
    let mut ifd0 = g.ifd0();
    let wb = if g.rng.bool() {
        let v = [g.rng.u32() >> 16, g.rng.u32() >> 16, g.rng.u32() >> 16];
        if g.rng.bool() {
            kifd.add(0xfa2a, Val::Long(v.to_vec()));
            [v[0] as f32, v[1] as f32, v[2] as f32, NAN]
        } else {
            let d = g.rng.range(1, 1000) as u32;
            kifd.add(0xfa2a, Val::Rational(v.iter().map(|&x| (x, d)).collect()));
            [v[0] as f32 / d as f32, v[1] as f32 / d as f32, v[2] as f32 / d as f32, NAN]
        }
    } else {
        let n = *g.rng.pick(&[734usize, 1502]);
        let mut lv = g.rng.bytes(n);
        let (r, b) = (g.mul(), g.mul());
        lv[148..150].copy_from_slice(&r.to_be_bytes());
        lv[150..152].copy_from_slice(&b.to_be_bytes());
        ifd0.add(0x8290, Val::Ifds(vec![Ifd::new().with(0x0f00, Val::Undef(lv))]));
        [r as f32 / 256.0, 1.0, b as f32 / 256.0, NAN]
    };
    ifd0.add(0xfe00, Val::Ifds(vec![kifd]));
    let file = t.finish(&[ifd0]);
    g.case("kdc", file, w, h, img, wb)
}

pub fn naked(g: &mut G) -> Case {
    g.orient = None;
    let (w, h, size) = (g.cam.raw_width, g.cam.raw_height, g.cam.filesize);
    let bits = size * 8 / w / h;
    let aligned = g.cam.hint("12le_16bitaligned");
    let max = if !aligned && bits == 10 { 1023 } else { 4095 };
    let mut img = g.image(w, h, max);
    // don't look like one of the formats with a signature
    img[0] = (img[0] & !0x3f) | 0x15;
    img[1] = 0x155;
    let mut file = if aligned {
        let stride = ((w * 12 / 8 + 1) >> 1) << 1;
        let mut o = Vec::new();
        for row in img.chunks(w) {
            let mut b = msb(row, 12);
            b.resize(stride, 0x55);
            o.extend(b);
        }
        o
    } else if bits == 10 {
        swap(msb(&img, 10), 2)
    } else {
        assert_eq!(bits, 12);
        swap(msb(&img, 12), 2)
    };
    assert!(file.len() <= size, "naked {} {} > {}", g.cam.model, file.len(), size);
    file.resize(size, 0);
    g.case("naked", file, w, h, img, [NAN; 4])
}

pub fn dcs(g: &mut G) -> Case {
    let (w, h) = g.dims(1001, 1, 1, 1);
    let codes = g.image(w, h, 255);
    let curve = Curve(random_curve(&mut g.rng, 256, 4095));
    let mut data = Vec::new();
    let mut out = Vec::new();
    let bytes: Vec<u8> = codes.iter().map(|&c| c as u8).collect();
    for row in bytes.chunks(w) {
        let mut rand = u32::from_le_bytes([row[0], row[1], row[2], row[3]]);
        for &c in row {
            out.push(curve.dither(c as u16, &mut rand));
        }
        data.extend(row);
    }
    let mut t = g.tiff();
    let d = t.blob(data);
    let thumb_d = t.blob(vec![1; 64]);
    let raw = Ifd::new().long(0x100, w as u32).long(0x101, h as u32).with(0x111, Val::OffsetTo(vec![(d, 0)]));
    let mut ifd0 = g.ifd0().with(0x123, Val::Short(curve.0.clone()));
    let chain = match g.rng.below(3) {
        0 => {
            ifd0.e.extend(Ifd::new().long(0x100, 100).long(0x101, 8).with(0x111, Val::OffsetTo(vec![(thumb_d, 0)])).e);
            ifd0.add(0x14a, Val::Ifds(vec![raw]));
            vec![ifd0]
        }
        1 => {
            ifd0.e.extend(Ifd::new().long(0x100, 1000).long(0x101, 8).with(0x111, Val::OffsetTo(vec![(thumb_d, 0)])).e);
            vec![ifd0, raw]
        }
        _ => {
            ifd0.e.extend(raw.e);
            vec![ifd0]
        }
    };
    let file = t.finish(&chain);
    g.case("dcs", file, w, h, out, [NAN; 4])
}

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "mrw", class: Class::Uncompressed, accepts: is_minolta, gen: mrw, cost: 1 },
        Family { name: "mef", class: Class::Uncompressed, accepts: |c| c.make == "Mamiya-OP Co.,Ltd.", gen: mef, cost: 1 },
        Family { name: "ari", class: Class::Uncompressed, accepts: |c| c.make == "ARRI", gen: ari, cost: 1 },
        Family { name: "erf", class: Class::Uncompressed, accepts: |c| c.make == "SEIKO EPSON CORP.", gen: erf, cost: 1 },
        Family { name: "kdc", class: Class::Uncompressed, accepts: |c| c.make == "EASTMAN KODAK COMPANY", gen: kdc, cost: 1 },
        Family { name: "naked", class: Class::Uncompressed, accepts: |c| c.filesize > 0, gen: naked, cost: 200 },
        Family { name: "dcs", class: Class::Curve, accepts: |c| c.make == "KODAK" && c.model != "DCS560C", gen: dcs, cost: 3 },
    ]
}
