//! Raw files with lossless JPEG data: DNG, CR2, 3FR and MOS.
use crate::case::*;
use crate::cat::Cam;
use crate::ljpeg;
use crate::pack::*;
use crate::tiff::*;

fn num(g: &mut G, v: usize) -> Val {
    if v < 65536 && g.rng.bool() { Val::Short(vec![v as u16]) } else { Val::Long(vec![v as u32]) }
}

/// multiply image dimensions of interleaved components: rows of w*cpp samples
fn place(dst: &mut [u16], dstw: usize, x: usize, y: usize, src: &[u16], srcw: usize, w: usize, h: usize) {
    for r in 0..h {
        dst[(y + r) * dstw + x..(y + r) * dstw + x + w].copy_from_slice(&src[r * srcw..r * srcw + w]);
    }
}

/// The compressed image data of a DNG and how it's split.
fn dng_lossless(g: &mut G, raw: &mut Ifd, t: &mut Tiff, img: &[u16], w: usize, h: usize, cpp: usize, prec: u32) -> String {
    let sw = w * cpp;
    let comps = if cpp == 3 {
        3
    } else if sw % 4 == 0 && g.rng.chance(1, 4) {
        4
    } else {
        2
    };
    let max = (1u32 << (prec - g.pt)) - 1;
    if g.rng.bool() {
        // one strip, the frame can be larger than the image
        let (mut fw, mut fh) = ((sw + comps - 1) / comps, h);
        if g.rng.chance(1, 3) {
            fw += g.rng.below(5);
            fh += g.rng.below(3);
        }
        let mut frame = g.image(fw * comps, fh, max);
        place(&mut frame, fw * comps, 0, 0, img, sw, sw, h);
        let d = ljpeg::encode(&mut g.rng, ljpeg::Kind { pt: g.pt, ..ljpeg::PLAIN }, &frame, comps, fw, fh, prec);
        let b = t.blob(d);
        raw.add(0x111, Val::OffsetTo(vec![(b, 0)]));
        format!("strip {}c frame {}x{}", comps, fw, fh)
    } else {
        let unit = comps / cpp.min(comps); // pixels per group of components
        let unit = unit.max(1);
        let maxw = (w + unit - 1) / unit;
        let tw = if comps == 4 {
            // these are only ever used for whole rows
            w
        } else {
            unit * match g.rng.below(3) {
                0 => g.rng.range(1, maxw),
                1 => maxw,
                _ => g.rng.range((maxw + 1) / 2, maxw + 3),
            }
        };
        let th = match g.rng.below(3) {
            0 => g.rng.range(1, h),
            1 => h,
            _ => g.rng.range((h + 1) / 2, h + 3),
        };
        let (nc, nr) = ((w + tw - 1) / tw, (h + th - 1) / th);
        if nc * nr > 400 {
            return dng_lossless(g, raw, t, img, w, h, cpp, prec);
        }
        // edge tiles are usually padded to the full size, but don't have to be
        let full = g.rng.chance(2, 3);
        let mut offs = Vec::new();
        for r in 0..nr {
            for c in 0..nc {
                let (bw, bh) = (tw.min(w - c * tw) * cpp, th.min(h - r * th));
                let (fw, fh) = if full { (tw * cpp / comps, th) } else { ((bw + comps - 1) / comps, bh) };
                let mut frame = g.image(fw * comps, fh, max);
                let mut part = Vec::with_capacity(bw * bh);
                for y in 0..bh {
                    let s = (r * th + y) * sw + c * tw * cpp;
                    part.extend(&img[s..s + bw]);
                }
                place(&mut frame, fw * comps, 0, 0, &part, bw, bw, bh);
                let d = ljpeg::encode(&mut g.rng, ljpeg::Kind { pt: g.pt, ..ljpeg::PLAIN }, &frame, comps, fw, fh, prec);
                offs.push((t.blob(d), 0));
            }
        }
        raw.add(0x142, num(g, tw));
        raw.add(0x143, num(g, th));
        raw.add(0x144, Val::OffsetTo(offs));
        format!("tiles {}c {}x{} of {}x{} full {}", comps, nc, nr, tw, th, full)
    }
}

fn dng_common(g: &mut G, mode: usize) -> Case {
    // mode 0: lossless, 1: uncompressed, 2: 8 bit with a curve
    // unknown cameras are fine with DNGs
    if g.rng.chance(1, 3) {
        g.cam.make = format!("Maker {}", g.rng.below(100));
        g.cam.model = format!("Model {}", g.rng.below(100));
        g.cam.clean_make = g.cam.make.clone();
        g.cam.clean_model = g.cam.model.clone();
    }
    let linear = g.rng.chance(1, 4);
    let cpp = if linear { 3 } else { 1 };
    g.cam.blackareah = (0, 0);
    g.cam.blackareav = (0, 0);
    let bits = *g.rng.pick(&[16u32, 16, 12, 10]);
    if g.extent.is_none() && !g.small && g.rng.chance(1, 200) {
        // lines (or columns) whose positions need more than 12 bits
        let (a, b) = (g.rng.range(4000, 12000), g.rng.below(3));
        g.extent = Some(if g.rng.chance(2, 3) { (a, b) } else { (b, a) });
    }
    let odd = g.rng.bool();
    let (w, h) = match mode {
        0 => g.dims(2, 1, if odd { 1 } else { 2 }, 1),
        1 if bits == 12 => g.dims(2, 1, 2, 1),
        1 if bits == 10 => g.dims(4, 1, 4, 1),
        2 => g.dims(4, 1, 1, 1),
        _ => g.dims(1, 1, 1, 1),
    };
    let mut t = g.tiff();
    let mut raw = Ifd::new();
    let mut extra = String::new();
    let mut ifd0 = g.ifd0();
    let img;
    let compression;
    match mode {
        0 => {
            let prec = *g.rng.pick(&[12u32, 13, 14, 15, 16, 16]);
            g.draw_pt();
            img = g.image(w * cpp, h, (1 << (prec - g.pt)) - 1);
            extra = format!("lossless {} bits ", prec) + &dng_lossless(g, &mut raw, &mut t, &img, w, h, cpp, prec);
            compression = 7;
            let v = num(g, prec as usize);
            raw.add(0x102, v);
        }
        1 => {
            img = g.image(w * cpp, h, (1 << bits) - 1);
            let d = match bits {
                16 => u16s(&img, g.lay.big),
                12 => msb(&img, 12),
                _ => msb(&img, 10),
            };
            let b = t.blob(d);
            raw.add(0x111, Val::OffsetTo(vec![(b, 0)]));
            compression = 1;
            let v = num(g, bits as usize);
            raw.add(0x102, v);
        }
        _ => {
            let codes = g.image(w * cpp, h, 255);
            let curve = Curve(random_curve(&mut g.rng, 256, 65535));
            let bytes: Vec<u8> = codes.iter().map(|&c| c as u8).collect();
            let mut out = Vec::new();
            for row in bytes.chunks(w * cpp) {
                let mut rand = u32::from_le_bytes([row[0], row[1], row[2], row[3]]);
                for &c in row {
                    out.push(curve.dither(c as u16, &mut rand));
                }
            }
            img = out;
            let b = t.blob(bytes);
            raw.add(0x111, Val::OffsetTo(vec![(b, 0)]));
            raw.add(0xc618, Val::Short(curve.0.clone()));
            compression = 1;
            let v = num(g, 8);
            raw.add(0x102, v);
        }
    }
    raw.add(0x100, num(g, w));
    raw.add(0x101, num(g, h));
    raw.add(0x103, Val::Short(vec![compression]));
    raw.add(0x106, Val::Short(vec![if linear { 34892 } else { 32803 }]));
    raw.add(0x115, Val::Short(vec![cpp as u16]));

    // calibration
    let white = *g.rng.pick(&[65535usize, 16383, 4095, 1023, 15000]);
    raw.add(0xc61d, num(g, white));
    let nblack = *g.rng.pick(&[0usize, 1, 1, 2, 3, 4]);
    let vals: Vec<u32> = (0..nblack).map(|_| g.rng.below(2000) as u32).collect();
    let mut black = [0u16; 4];
    if nblack > 0 {
        match g.rng.below(3) {
            0 => raw.add(0xc61a, Val::Short(vals.iter().map(|&x| x as u16).collect())),
            1 => raw.add(0xc61a, Val::Long(vals.clone())),
            _ => {
                let d = *g.rng.pick(&[1u32, 10, 256]);
                let f = g.rng.below(d as usize) as u32;
                raw.add(0xc61a, Val::Rational(vals.iter().map(|&x| (x * d + f, d)).collect()))
            }
        };
        for i in 0..4 {
            black[i] = vals[if nblack < 4 { 0 } else { i }] as u16;
        }
    }
    let pattern = if linear {
        String::new()
    } else {
        let n = if g.rng.chance(1, 4) { 36 } else { 4 };
        let v: Vec<u8> = (0..n).map(|_| g.rng.below(3) as u8).collect();
        raw.add(0x828e, Val::Byte(v.clone()));
        v.iter().map(|&x| ['R', 'G', 'B'][x as usize]).collect()
    };
    let mut crops = [0; 4];
    if g.rng.chance(2, 3) {
        let (t, l) = (g.rng.below(h), g.rng.below(w));
        let (b, r) = (g.rng.range(t + 1, h), g.rng.range(l + 1, w));
        let v = vec![t as u32, l as u32, b as u32, r as u32];
        raw.add(0xc68d, if g.rng.bool() { Val::Long(v) } else { Val::Short(v.iter().map(|&x| x as u16).collect()) });
        crops = [t, w - r, h - b, l];
    }
    let mut wb = [NAN; 4];
    if g.rng.chance(2, 3) {
        let v: Vec<(u32, u32)> = (0..3).map(|_| (g.rng.range(1, 2000000) as u32, g.rng.range(1, 1000000) as u32)).collect();
        for i in 0..3 {
            wb[i] = (v[i].1 as f64 / v[i].0 as f64) as f32;
        }
        ifd0.add(0xc628, Val::Rational(v));
    }
    let mut mk = |g: &mut G| -> Vec<(i32, i32)> {
        let n = *g.rng.pick(&[9, 9, 12]);
        // the sign is usually, but not always, that of the numerator
        let neg = if g.rng.chance(1, 8) { -1 } else { 1 };
        (0..n).map(|_| (g.rng.irange(-20000, 20000) as i32, neg * *g.rng.pick(&[10000, 1000, 1, 777]))).collect()
    };
    let (m1, m2) = (mk(g), mk(g));
    let (has1, has2) = (g.rng.chance(2, 3), g.rng.chance(2, 3));
    if has1 {
        ifd0.add(0xc621, Val::SRational(m1.clone()));
    }
    if has2 {
        ifd0.add(0xc622, Val::SRational(m2.clone()));
    }
    let mut matrix = [[0f32; 3]; 4];
    match if has2 { Some(m2) } else if has1 { Some(m1) } else { None } {
        Some(m) => {
            for (i, v) in m.iter().enumerate() {
                matrix[i / 3][i % 3] = (v.0 as f64 / v.1 as f64) as f32;
            }
        }
        None => {
            matrix = [[0.412453, 0.357580, 0.180423], [0.212671, 0.715160, 0.072169], [0.019334, 0.119193, 0.950227], [0.0; 3]];
        }
    }
    ifd0.add(0xc612, Val::Byte(vec![1, 4, 0, 0]));

    // where the raw is and which previews surround it
    let chain = match g.rng.below(4) {
        0 => {
            ifd0.e.extend(raw.e);
            if g.rng.bool() {
                ifd0.add(0xfe, Val::Long(vec![0]));
            }
            vec![ifd0]
        }
        1 => {
            // thumbnail first, raw in the sub directories after a JPEG preview
            let p = t.blob(vec![0x55; 64]);
            ifd0.e.extend(Ifd::new().long(0xfe, 1).long(0x100, 16).long(0x101, 4).short(0x102, 8).short(0x103, 1).short(0x106, 2).short(0x115, 3).with(0x111, Val::OffsetTo(vec![(p, 0)])).e);
            let preview = Ifd::new().long(0xfe, 1).long(0x100, 1024).long(0x101, 768).short(0x103, 7).short(0x115, 3).short(0x106, 6).with(0x111, Val::OffsetTo(vec![(p, 0)]));
            raw.add(0xfe, Val::Long(vec![0]));
            let subs = if g.rng.bool() { vec![preview, raw] } else { vec![raw, preview] };
            ifd0.add(0x14a, Val::Ifds(subs));
            vec![ifd0]
        }
        2 => {
            // other compressions are previews too
            let p = t.blob(vec![0x55; 64]);
            let preview = Ifd::new().long(0x100, 1024).long(0x101, 768).short(0x103, 6).short(0x115, 3).short(0x106, 6).with(0x111, Val::OffsetTo(vec![(p, 0)]));
            ifd0.add(0x14a, Val::Ifds(vec![preview, raw]));
            vec![ifd0]
        }
        _ => {
            // reduced size alternate types have other bits set as well
            let p = t.blob(vec![0x55; 64]);
            let preview = Ifd::new().long(0xfe, 0x10001).long(0x100, 10).long(0x101, 7).short(0x103, 7).short(0x115, 3).short(0x106, 6).with(0x111, Val::OffsetTo(vec![(p, 0)]));
            vec![ifd0, preview, raw]
        }
    };
    let file = t.finish(&chain);
    let blank = g.cam.clone();
    let mut c = g.case(["dng-lossless", "dng-uncompressed", "dng-8bit"][mode], file, w, h, img, wb);
    c.desc = format!("{} {} cpp {} bits {}", c.desc, extra, cpp, bits);
    c.cpp = cpp;
    c.white = [white as u16; 4];
    c.black = black;
    c.crops = crops;
    c.matrix = matrix;
    c.matrix_tol = 1e-6;
    c.pattern = pattern;
    c.cam = Some(blank);
    c
}

pub fn dng_lossless_case(g: &mut G) -> Case {
    dng_common(g, 0)
}
pub fn dng_uncompressed(g: &mut G) -> Case {
    dng_common(g, 1)
}
pub fn dng_8bit(g: &mut G) -> Case {
    dng_common(g, 2)
}

// ---------------------------------------------------------------- CR2

/// the white balance of a Canon file: (makernote, expectation)
fn canon_wb(g: &mut G, sane: bool) -> (Ifd, [f32; 4]) {
    let mut mul = |g: &mut G| if sane { g.rng.range(256, 4096) as u16 } else { g.mul() };
    let v = [mul(g), mul(g), mul(g)];
    let f = [v[0] as f32, v[1] as f32, v[2] as f32, NAN];
    let mut mn = Ifd::new();
    match if sane { 0 } else { g.rng.below(5) } {
        0 | 1 => {
            let off = if g.cam.wb_offset != 0 { g.cam.wb_offset } else { 63 };
            let n = off + 4 + g.rng.below(300);
            let mut d: Vec<u16> = (0..n).map(|_| g.rng.u16()).collect();
            d[off] = v[0];
            d[off + 1] = v[1];
            d[off + 3] = v[2];
            mn.add(0x4001, Val::Short(d));
            // the older tags don't matter then
            if g.rng.bool() {
                mn.add(0x29, Val::Long(vec![g.rng.u32(); 10]));
            }
            (mn, f)
        }
        2 => {
            let mut d: Vec<u32> = (0..5 + g.rng.below(30)).map(|_| g.rng.u32()).collect();
            d[3] = v[0] as u32;
            d[2] = v[1] as u32;
            d[4] = v[2] as u32;
            let big = g.lay.big;
            let b: Vec<u8> = d.iter().flat_map(|&x| p32(big, x)).collect();
            mn.add(0x29, if g.rng.bool() { Val::Undef(b) } else { Val::Long(d) });
            if g.rng.bool() {
                mn.add(0xa4, Val::Short(vec![1, 2, 3, 4]));
            }
            (mn, f)
        }
        3 => {
            mn.add(0xa4, Val::Short(vec![v[0], v[1], v[2], g.rng.u16()]));
            (mn, f)
        }
        _ => (mn, [NAN; 4]),
    }
}

fn cr2_finish(g: &mut G, mut t: Tiff, raw: Ifd, mn: Ifd, old: Option<Id>) -> Vec<u8> {
    let big = t.big();
    let mut ifd0 = g.ifd0();
    let mut exif = Ifd::new().short(0x8827, 100);
    if !mn.e.is_empty() {
        exif.add(0x927c, Val::Maker { prefix: vec![], ifd: mn, big });
    }
    ifd0.add(0x8769, Val::Ifds(vec![exif]));
    if let Some(b) = old {
        ifd0.add(0x81, Val::OffsetTo(vec![(b, 0)]));
        ifd0.e.extend(raw.e);
        return t.finish(&[ifd0]);
    }
    let p = t.blob(vec![3; 32]);
    ifd0.add(0x111, Val::OffsetTo(vec![(p, 0)]));
    let thumb = Ifd::new().long(0x100, 160).long(0x101, 120).with(0x111, Val::OffsetTo(vec![(p, 0)]));
    match g.rng.below(3) {
        0 => t.finish(&[ifd0, thumb.clone(), thumb, raw]),
        1 => t.finish(&[ifd0, raw]),
        _ => {
            ifd0.add(0x14a, Val::Ifds(vec![thumb, raw]));
            t.finish(&[ifd0])
        }
    }
}

/// distribute an image in vertical slices: the order in which its samples are stored
fn sliced(img: &[u16], w: usize, widths: &[usize]) -> Vec<u16> {
    let mut out = Vec::with_capacity(img.len());
    let mut start = 0;
    for &fw in widths {
        for row in img.chunks(w) {
            out.extend(&row[start..start + fw]);
        }
        start += fw;
    }
    assert_eq!(start, w);
    out
}

pub fn cr2(g: &mut G) -> Case {
    cr2_gen(g, false)
}
pub fn cr2_curve(g: &mut G) -> Case {
    cr2_gen(g, true)
}

fn cr2_gen(g: &mut G, lin: bool) -> Case {
    let comps = *g.rng.pick(&[2usize, 2, 4]);
    let dbl = g.cam.hint("double_line");
    let prec = if lin { 12 } else { *g.rng.pick(&[12u32, 13, 14, 14, 15, 16]) };
    let (w, h) = g.dims(2, 1, comps, if dbl { 2 } else { 1 });
    let (jw, jh) = if dbl { (w * 2, h / 2) } else { (w, h) };
    if !lin {
        g.draw_pt();
    }
    let mut img = g.image(w, h, (1 << (prec - g.pt)) - 1);
    // slices: n of the same width and the last one
    let nslices = if g.rng.chance(2, 3) { g.rng.below(5.min(w)) } else { 0 };
    let mut widths = vec![w];
    let mut tag = None;
    if nslices > 0 {
        let fw = g.rng.range(1, (w - 1) / nslices);
        widths = vec![fw; nslices];
        widths.push(w - nslices * fw);
        tag = Some(vec![nslices as u16, fw as u16, (w - nslices * fw) as u16]);
    } else if g.rng.bool() {
        tag = Some(vec![0, g.rng.u16(), g.rng.u16()]);
    }
    let buf = sliced(&img, w, &widths);
    let d = ljpeg::encode(&mut g.rng, ljpeg::Kind { pt: g.pt, ..ljpeg::PLAIN }, &buf, comps, jw / comps, jh, prec);
    let mut t = g.tiff();
    let b = t.blob(d);
    let mut raw = Ifd::new();
    if let Some(v) = tag.clone() {
        raw.add(0xc640, Val::Short(v));
    }
    let old = g.rng.chance(1, 4);
    if !old {
        raw.add(0x111, Val::OffsetTo(vec![(b, 0)]));
        if g.rng.chance(3, 4) {
            raw.add(0xc5d8, Val::Long(vec![1]));
        } else {
            raw.add(0x828e, Val::Byte(vec![0, 1, 1, 2]));
        }
        if g.rng.bool() {
            // sizes in the directory don't matter here
            let (a, b) = (num(g, w), num(g, h));
            raw.add(0x100, a);
            raw.add(0x101, b);
        }
    }
    if lin {
        let curve = Curve(random_curve(&mut g.rng, 4096, 65535));
        raw.add(0x123, Val::Short(curve.0.clone()));
        // applied in storage order
        let mut rand = buf[0] as u32;
        let dith: Vec<u16> = buf.iter().map(|&c| curve.dither(c, &mut rand)).collect();
        let mut pos = 0;
        let mut start = 0;
        for &fw in &widths {
            for r in 0..h {
                img[r * w + start..r * w + start + fw].copy_from_slice(&dith[pos..pos + fw]);
                pos += fw;
            }
            start += fw;
        }
    }
    let (mn, wb) = canon_wb(g, false);
    let file = cr2_finish(g, t, raw, mn, if old { Some(b) } else { None });
    let mut c = g.case(if lin { "cr2-curve" } else { "cr2" }, file, w, h, img, wb);
    c.desc = format!("{} {}c {} bits slices {:?} old {}", c.desc, comps, prec, tag, old);
    c
}

/// YCbCr to RGB the way Canon stores reduced size raws
pub fn canon_rgb(y: i32, cb: i32, cr: i32, wb: [f32; 4], yoff: i32) -> [u16; 3] {
    let c1 = (1048576.0 / wb[0]) as i64;
    let c2 = wb[1] as i64;
    let c3 = (1048576.0 / wb[2]) as i64;
    let y = (y - yoff) as i64;
    let (cb, cr) = ((cb - 16383) as i64, (cr - 16383) as i64);
    let clamp = |v: i64| v.max(0).min(65535) as u16;
    [
        clamp((c1 * (y + cr)) >> 8),
        clamp((c2 * (y + ((-778 * cb - cr * 2048) >> 12))) >> 8),
        clamp((c3 * (y + cb)) >> 8),
    ]
}

pub fn cr2_sraw(g: &mut G) -> Case {
    let vsub = *g.rng.pick(&[1usize, 2]);
    let (w, h) = g.dims(4, 2, 2, 2);
    // the frame of the JPEG can have another shape than the image
    let nslices = if g.rng.chance(2, 3) { g.rng.below(4.min(w / 2)) } else { 0 };
    let mut widths = vec![w];
    let mut tag = None;
    if nslices > 0 {
        let fw = if vsub == 2 {
            // all slices are as wide here
            let mut n = nslices + 1;
            while w % (2 * n) != 0 {
                n -= 1;
            }
            if n > 1 { tag = Some(vec![(n - 1) as u16, (w / n * 3) as u16, (w / n * 3) as u16]); }
            widths = vec![w / n; n];
            0
        } else {
            2 * g.rng.range(1, (w / 2 - 1) / nslices)
        };
        if vsub == 1 {
            widths = vec![fw; nslices];
            widths.push(w - nslices * fw);
            tag = Some(vec![nslices as u16, (fw * 2) as u16, ((w - nslices * fw) * 2) as u16]);
        }
    }
    // frame
    let swapped = tag.is_some() && g.rng.chance(1, 3);
    let (jw, jh) = if swapped { (h, w) } else { (w, h) };
    let prec = *g.rng.pick(&[15u32, 15, 16, 14]);
    let ymax = if g.rng.bool() { 32767 } else { 65535 };
    let y = g.image(jw, jh, ymax);
    let (bw, bh) = (jw / 2, jh / vsub);
    let cmax = *g.rng.pick(&[32767u32, 32767, 65535]);
    let mut cb = g.image(bw, bh, cmax);
    let mut cr = g.image(bw, bh, cmax);
    if g.rng.bool() {
        // the usual case: chroma close to neutral
        for v in cb.iter_mut().chain(cr.iter_mut()) {
            *v = (16383 + (*v as i32 - 16383) / 16) as u16;
        }
    }
    let d = ljpeg::encode_yuv(&mut g.rng, &y, &cb, &cr, jw, jh, vsub, prec);
    let (mn, wb) = canon_wb(g, true);
    let yoff = if g.cam.hint("40d_yuv") { 512 } else { 0 };
    // pixels in storage order: blocks of vsub rows
    let mut img = vec![0u16; w * h * 3];
    let mut seq = 0;
    let mut start = 0;
    for &fw in &widths {
        for r in (0..h).step_by(vsub) {
            for c in 0..fw {
                for v in 0..vsub {
                    let (jr, jc) = (seq / jw * vsub + v, seq % jw);
                    let b = jr / vsub * bw + jc / 2;
                    let p = canon_rgb(y[jr * jw + jc] as i32, cb[b] as i32, cr[b] as i32, wb, yoff);
                    let o = ((r + v) * w + start + c) * 3;
                    img[o..o + 3].copy_from_slice(&p);
                }
                seq += 1;
            }
        }
        start += fw;
    }
    let mut t = g.tiff();
    let b = t.blob(d);
    let mut raw = Ifd::new().with(0x111, Val::OffsetTo(vec![(b, 0)])).long(0xc5d8, 1);
    if let Some(v) = tag.clone() {
        raw.add(0xc640, Val::Short(v));
    }
    // without a size in the directory the image is the longer way round
    let has_size = swapped && w < h || !swapped && w < h || g.rng.bool();
    if has_size {
        let (a, b) = (num(g, w), num(g, h));
        raw.add(0x100, a);
        raw.add(0x101, b);
    }
    let file = cr2_finish(g, t, raw, mn, None);
    g.cam.blackareah = (0, 0);
    g.cam.blackareav = (0, 0);
    let mut c = g.case(if vsub == 2 { "cr2-420" } else { "cr2-422" }, file, w, h, Vec::new(), wb);
    c.desc = format!("{} frame {}x{} {} bits slices {:?} size tags {}", c.desc, jw, jh, prec, tag, has_size);
    c.data = img;
    c.cpp = 3;
    c.white = [65535; 4];
    c.black = [0; 4];
    c.black_tol = 0;
    c.crops = [0; 4];
    c
}

// ---------------------------------------------------------------- 3FR

pub fn tfr(g: &mut G) -> Case {
    let plain = g.rng.chance(1, 3);
    let (w, h) = g.dims(2, 1, 2, 1);
    let prec = if plain { *g.rng.pick(&[14u32, 15, 16]) } else { 16 };
    if plain {
        g.draw_pt();
    }
    let img = g.image(w, h, (1 << (prec - g.pt)) - 1);
    let d = if plain {
        let k = ljpeg::Kind { extra16: true, pt: g.pt, ..ljpeg::PLAIN };
        ljpeg::encode(&mut g.rng, k, &img, 2, w / 2, h, prec)
    } else {
        ljpeg::encode_hasselblad(&mut g.rng, &img, w, h)
    };
    let mut t = g.tiff();
    let b = t.blob(d);
    let p = t.blob(vec![9; 40]);
    let mut raw = Ifd::new();
    raw.add(0x100, num(g, w));
    raw.add(0x101, num(g, h));
    raw.add(0x111, Val::OffsetTo(vec![(b, 0)]));
    raw.add(0xc61d, Val::Short(vec![g.rng.u16()]));
    let mut ifd0 = g.ifd0();
    let v: Vec<(u32, u32)> = (0..3).map(|_| (g.rng.range(1, 2000000) as u32, g.rng.range(1, 1000000) as u32)).collect();
    ifd0.add(0xc628, Val::Rational(v.clone()));
    let mut wb = [NAN; 4];
    for i in 0..3 {
        wb[i] = (v[i].1 as f64 / v[i].0 as f64) as f32;
    }
    let chain = match g.rng.below(3) {
        0 => {
            ifd0.e.extend(Ifd::new().long(0x100, 32).long(0x101, 10).with(0x111, Val::OffsetTo(vec![(p, 0)])).e);
            ifd0.add(0x14a, Val::Ifds(vec![raw]));
            vec![ifd0]
        }
        1 => vec![ifd0, raw],
        _ => {
            ifd0.e.extend(raw.e);
            vec![ifd0]
        }
    };
    let file = t.finish(&chain);
    g.case(if plain { "3fr-ljpeg" } else { "3fr" }, file, w, h, img, wb)
}

// ---------------------------------------------------------------- MOS

pub fn is_leaf(c: &Cam) -> bool {
    c.make == "Leaf"
}

fn mos_common(g: &mut G, compressed: bool) -> Case {
    g.orient = None;
    let (w, h) = g.dims(2, 1, 2, 1);
    let prec = if compressed { *g.rng.pick(&[14u32, 15, 16, 16]) } else { 16 };
    if compressed {
        g.draw_pt();
    }
    let img = g.image(w, h, (1 << (prec - g.pt)) - 1);
    let mut t = g.tiff();
    let d = if compressed {
        let stored = if g.cam.hint("interlaced") {
            // top half in the even rows, bottom half backwards in the odd ones
            let mut s = vec![0u16; w * h];
            for row in 0..h {
                let o = if row % 2 == 1 { h - 1 - row / 2 } else { row / 2 };
                s[row * w..row * w + w].copy_from_slice(&img[o * w..o * w + w]);
            }
            s
        } else {
            img.clone()
        };
        ljpeg::encode_leaf(&mut g.rng, &stored, w, h, prec, g.pt)
    } else {
        u16s(&img, g.lay.big)
    };
    let b = t.blob(d);
    let comp = if compressed { *g.rng.pick(&[7u16, 99]) } else { 1 };
    let mut raw = Ifd::new();
    raw.add(0x100, num(g, w));
    raw.add(0x101, num(g, h));
    raw.add(0x103, Val::Short(vec![comp]));
    raw.add(0x144, Val::OffsetTo(vec![(b, 0)]));
    let serial = if g.rng.bool() { "(LI300123   )/Hasselblad" } else { "" };
    let xmp = format!(
        "<x:xmpmeta><rdf:Description><tiff:Model>{}{}</tiff:Model><tiff:Make>{}</tiff:Make></rdf:Description></x:xmpmeta>",
        g.cam.model, serial, g.cam.make
    );
    let mut ifd0 = Ifd::new();
    let software = match g.extra.iter().find(|e| e.0 == 0x131) {
        Some((_, v)) => v.clone(),
        None => g.ascii("Camera Library"),
    };
    ifd0.add(0x131, software);
    ifd0.add(0x2bc, if g.rng.bool() { Val::Byte(xmp.into_bytes()) } else { Val::Ascii(xmp) });
    let n0 = g.rng.below(100);
    let mut meta = g.rng.bytes(n0);
    let mut wb = [NAN; 4];
    if g.rng.chance(3, 4) {
        let v: Vec<usize> = (0..4).map(|_| g.rng.range(1, 60000)).collect();
        meta.extend(b"PKTS\0\0\0\x01NeutObj_neutrals");
        meta.extend(vec![b'x'; 28]);
        meta.extend(format!("{}\n{}\n{}\n{}\0", v[0], v[1], v[2], v[3]).into_bytes());
        for i in 0..3 {
            wb[i] = v[0] as f32 / v[i + 1] as f32;
        }
    }
    let n1 = 30 + g.rng.below(60);
    meta.extend(g.rng.bytes(n1));
    ifd0.add(0x8606, Val::Undef(meta));
    let chain = g.place_raw(ifd0, raw);
    let file = t.finish(&chain);
    let mut c = g.case(if compressed { "mos-ljpeg" } else { "mos" }, file, w, h, img, wb);
    c.desc = format!("{} {} bits", c.desc, prec);
    c
}

pub fn mos_ljpeg(g: &mut G) -> Case {
    mos_common(g, true)
}
pub fn mos_plain(g: &mut G) -> Case {
    mos_common(g, false)
}

fn is_canon(c: &Cam) -> bool {
    (c.make == "Canon" || c.model == "DCS560C") && c.filesize == 0
}

pub fn families() -> Vec<Family> {
    vec![
        Family { name: "dng-lossless", class: Class::Ljpeg, accepts: |c| c.filesize == 0 && c.mode.is_empty(), gen: dng_lossless_case, cost: 1 },
        Family { name: "dng-uncompressed", class: Class::Uncompressed, accepts: |c| c.filesize == 0 && c.mode.is_empty(), gen: dng_uncompressed, cost: 1 },
        Family { name: "dng-8bit", class: Class::Curve, accepts: |c| c.filesize == 0 && c.mode.is_empty(), gen: dng_8bit, cost: 1 },
        Family { name: "cr2", class: Class::Ljpeg, accepts: |c| is_canon(c) && !c.hint("linearization"), gen: cr2, cost: 1 },
        Family { name: "cr2-curve", class: Class::Curve, accepts: |c| is_canon(c) && c.hint("linearization"), gen: cr2_curve, cost: 1 },
        Family { name: "cr2-sraw", class: Class::Yuv, accepts: |c| is_canon(c) && !c.hint("linearization") && !c.hint("double_line"), gen: cr2_sraw, cost: 1 },
        Family { name: "3fr", class: Class::Ljpeg, accepts: |c| c.make == "Hasselblad", gen: tfr, cost: 1 },
        Family { name: "mos", class: Class::Uncompressed, accepts: is_leaf, gen: mos_plain, cost: 1 },
        Family { name: "mos-ljpeg", class: Class::Ljpeg, accepts: is_leaf, gen: mos_ljpeg, cost: 1 },
    ]
}
