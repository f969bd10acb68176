//! Checks that compare decoded files with what was encoded into them (C03 to C10, C12).
use crate::case::*;
use crate::cat::Cam;
use crate::report::*;
use crate::rng::Rng;
use crate::tiff::Layout;
use rawloader::RawImage;

pub fn families() -> Vec<Family> {
    let mut v = Vec::new();
    v.extend(crate::simple::families());
    v.extend(crate::lj::families());
    v.extend(crate::vendor1::families());
    v.extend(crate::vendor2::families());
    v.extend(crate::vendor3::families());
    v
}

/// The cameras of a family in a shuffled but fixed order
pub fn cams_of(f: &Family) -> Vec<Cam> {
    let mut v: Vec<Cam> = catalogue().cams.values().filter(|c| (f.accepts)(c)).cloned().collect();
    Rng::derive(7, f.name, 0).shuffle(&mut v);
    v
}

pub fn make_g(seed: u64, f: &Family, cams: &[Cam], i: u64) -> G {
    let mut g = G::new(seed, f.name, i, cams[i as usize % cams.len()].clone());
    g.big = i % 40 == 39;
    g
}

pub fn nontrivial(c: &Case) -> bool {
    c.data.iter().any(|&x| x != c.data[0])
}

pub type Judge = fn(&Case, &RawImage) -> Result<(), String>;

pub fn judge(c: &Case, j: Judge) -> Verdict {
    match decode(&c.file) {
        Err(e) => Verdict::Broken(format!("{}: not decoded: {}", c.desc, e), Some(c.file.clone())),
        Ok(img) => match j(c, &img) {
            Err(e) => Verdict::Broken(format!("{}: {}", c.desc, e), Some(c.file.clone())),
            Ok(()) => Verdict::Held(hash(&c.file), nontrivial(c), c.desc.clone()),
        },
    }
}

pub fn family_streams<'a>(cfg: &'a Cfg, pick: &dyn Fn(&Family) -> bool, quick: u64, small: bool, tag: &'static str, j: Judge) -> Vec<Stream<'a>> {
    let mut v = Vec::new();
    for f in families() {
        if !pick(&f) {
            continue;
        }
        let cams = cams_of(&f);
        // every camera at least once
        let n = (cfg.n(quick) / f.cost as u64).max(cams.len() as u64);
        let name = format!("{}{}", tag, f.name);
        let seed = cfg.seed;
        if !small {
            // the size of real photographs
            let f = f.clone();
            let cams = cams.clone();
            v.push(stream(&format!("full-{}", name), cfg.n(1), move |i| {
                let mut g = make_g(seed ^ 0xf011, &f, &cams, seed.wrapping_add(i) % 100_000);
                g.full = true;
                judge(&(f.gen)(&mut g), j)
            }));
        }
        v.push(stream(&name, n, move |i| {
            let mut g = make_g(seed, &f, &cams, i);
            if small && i % 8 != 0 {
                g.small = true;
                g.big = false;
            }
            judge(&(f.gen)(&mut g), j)
        }));
    }
    v
}

/// C12: the same content in different layouts
pub fn layout_streams<'a>(cfg: &'a Cfg) -> Vec<Stream<'a>> {
    let mut v = Vec::new();
    for f in families() {
        if f.name == "naked" {
            continue; // no container
        }
        let cams = cams_of(&f);
        let n = cfg.n(1200) / f.cost as u64 + 1;
        let seed = cfg.seed;
        v.push(stream(f.name, n, move |i| {
            let mut files: Vec<(Case, RawImage)> = Vec::new();
            let mut h = 0;
            for k in 0..4 {
                let mut g = make_g(seed ^ 0x1200, &f, &cams, i);
                g.small = i % 4 != 0;
                let mut r = Rng::derive(seed, f.name, i * 4 + k);
                g.lay = Layout::random(&mut r);
                g.lay.big = k & 1 == 1;
                let c = (f.gen)(&mut g);
                let img = match decode(&c.file) {
                    Ok(x) => x,
                    Err(e) => return Verdict::Broken(format!("{}: not decoded: {}", c.desc, e), Some(c.file)),
                };
                if let Err(e) = all(&c, &img) {
                    return Verdict::Broken(format!("{}: {}", c.desc, e), Some(c.file));
                }
                if let Some((c0, i0)) = files.first() {
                    // the generators draw the content independently of the layout, except
                    // where the layout itself is part of it
                    if c0.data == c.data && c0.wb.map(|x| x.to_bits()) == c.wb.map(|x| x.to_bits()) {
                        if let Err(e) = same_image(i0, &img) {
                            return Verdict::Broken(format!("{}: differs between layouts: {}", c.desc, e), Some(c.file));
                        }
                    }
                }
                h ^= hash(&c.file).rotate_left(k as u32);
                files.push((c, img));
            }
            let distinct = files.windows(2).any(|w| w[0].0.file != w[1].0.file);
            Verdict::Held(h, distinct && nontrivial(&files[0].0), files[0].0.desc.clone())
        }));
    }
    v
}

/// C12: blocks far from each other in large files
pub fn far_streams<'a>(cfg: &'a Cfg) -> Vec<Stream<'a>> {
    static ONE: std::sync::Mutex<()> = std::sync::Mutex::new(());
    let seed = cfg.seed;
    let fams: Vec<Family> = families().into_iter().filter(|f| f.name != "naked").collect();
    let n = cfg.n(3 * fams.len() as u64);
    let fams2 = fams.clone();
    let run = move |f: &Family, i: u64, gap: usize| {
        let cams = cams_of(f);
        let mut g = make_g(seed ^ 0xfa12, f, &cams, i);
        g.small = true;
        g.big = false;
        g.lay.gap = gap;
        let c = (f.gen)(&mut g);
        let far = c.file.len() > gap;
        let keep = |c: Case| if gap < 1 << 28 { Some(c.file) } else { None };
        match decode(&c.file) {
            Ok(img) => match all(&c, &img) {
                Ok(()) => Verdict::Held(hash(c.desc.as_bytes()), far && nontrivial(&c), format!("{} bytes {}", c.file.len(), c.desc)),
                Err(e) => Verdict::Broken(format!("{}: {}", c.desc, e), keep(c)),
            },
            Err(e) => Verdict::Broken(format!("{}: not decoded: {}", c.desc, e), keep(c)),
        }
    };
    let mut v = Vec::new();
    v.push(stream("apart", n, move |i| {
        let mut r = Rng::derive(seed, "apart", i);
        let gap = *r.pick(&[1usize << 15, 1 << 16, 1 << 17, 1 << 22, 1 << 24]) + r.below(100);
        run(&fams[i as usize % fams.len()], i, gap)
    }));
    // beyond the signed 32 bit numbers; one at a time, they need memory
    v.push(stream("beyond", cfg.n(2), move |i| {
        let mut r = Rng::derive(seed, "beyond", i);
        let f = r.pick(&fams2).clone();
        let _guard = ONE.lock().unwrap_or_else(|e| e.into_inner());
        run(&f, i, (1 << 31) + r.below(100))
    }));
    v
}

/// Two decoded images are the same in every field.
pub fn same_image(a: &RawImage, b: &RawImage) -> Result<(), String> {
    let f = |x: &RawImage| {
        (
            x.make.clone(),
            x.model.clone(),
            x.clean_make.clone(),
            x.clean_model.clone(),
            (x.width, x.height, x.cpp),
            x.wb_coeffs.map(|v| if v.is_nan() { 0x7fc00000 } else { v.to_bits() }),
            x.whitelevels,
            x.blacklevels,
            x.xyz_to_cam.map(|r| r.map(|v| if v.is_nan() { 0x7fc00000 } else { v.to_bits() })),
            x.crops,
            format!("{:?}", x.orientation),
        )
    };
    let (fa, fb) = (f(a), f(b));
    if fa != fb {
        return Err(format!("{:?} and {:?}", fa, fb));
    }
    if a.cfa.is_valid() != b.cfa.is_valid() || (0..24).any(|r| (0..24).any(|c| a.cfa.color_at(r, c) != b.cfa.color_at(r, c))) {
        return Err(format!("colour filters {:?} and {:?}", a.cfa, b.cfa));
    }
    if a.data != b.data {
        let n = a.data.iter().zip(&b.data).take_while(|(x, y)| x == y).count();
        return Err(format!("sample {} differs", n));
    }
    Ok(())
}

pub fn all(c: &Case, img: &RawImage) -> Result<(), String> {
    c.check_data(img)?;
    c.check_wb(img)?;
    c.check_meta(img)
}

// ---------------------------------------------------------------- C09

/// Names that are close to a listed one but not listed
fn near_name(rng: &mut Rng, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    match rng.below(8) {
        0 => format!("{}X", s),
        1 => format!("{} II", s),
        2 if c.len() > 1 => {
            c.pop();
            c.into_iter().collect()
        }
        3 => s.to_lowercase(),
        4 => s.to_uppercase(),
        5 => {
            let i = rng.below(c.len());
            c[i] = if c[i] == '7' { '8' } else { '7' };
            c.into_iter().collect()
        }
        6 => {
            let i = rng.below(c.len());
            c.insert(i, *rng.pick(&[' ', '-', '0', 'x']));
            c.into_iter().collect()
        }
        _ => s.split(' ').next().unwrap().to_string(),
    }
}

pub fn unlisted_streams<'a>(cfg: &'a Cfg) -> Vec<Stream<'a>> {
    let mut v = Vec::new();
    for f in families() {
        // DNG files describe themselves, headerless ones have no name
        if f.name.starts_with("dng") || f.name == "naked" || f.name == "arw-a100" {
            continue;
        }
        let cams = cams_of(&f);
        let n = cfg.n(400) / f.cost as u64 + 4;
        let seed = cfg.seed;
        v.push(stream(&format!("unlisted-{}", f.name), n, move |i| {
            let mut g = make_g(seed ^ 0x900, &f, &cams, i);
            g.small = true;
            g.sloppy = 0;
            let mut r = Rng::derive(seed, "unlisted", i);
            let old = g.cam.clone();
            if f.name != "ari" && r.chance(1, 5) {
                g.cam.make = near_name(&mut r, &old.make);
            } else {
                g.cam.model = near_name(&mut r, &old.model);
            }
            let clean = |s: &str| s.trim().to_string();
            let (mk, md) = (clean(&g.cam.make), clean(&g.cam.model));
            let listed = loader().cameras.keys().any(|k| k.0 == mk && k.1 == md);
            if listed || (mk == old.make && md == old.model) || md.is_empty() || mk.is_empty() {
                return Verdict::Held(0, false, String::new());
            }
            let c = (f.gen)(&mut g);
            match decode(&c.file) {
                Err(_) => Verdict::Held(hash(&c.file), true, format!("{:?} {:?} is an error", mk, md)),
                Ok(img) => Verdict::Broken(
                    format!("{}: the file names the unlisted camera {:?} {:?} and was decoded as {:?} {:?}", f.name, mk, md, img.make, img.model),
                    Some(c.file),
                ),
            }
        }));
    }
    v
}

/// Shooting modes that are not listed for the camera
pub fn unlisted_mode_streams<'a>(cfg: &'a Cfg) -> Vec<Stream<'a>> {
    let mut v = Vec::new();
    for f in families() {
        let modes: &[&str] = match f.name {
            "nef-plain" | "nef-compressed" | "snef" => &["12bit", "14bit"],
            "rw2-plain" | "rw2-compressed" => &["1:1", "4:3", "3:2", "16:9"],
            _ => continue,
        };
        let mut cams = Vec::new();
        for c in cams_of(&f) {
            for m in modes {
                let key = (c.make.clone(), c.model.clone(), m.to_string());
                if !loader().cameras.contains_key(&key) && !catalogue().cams.contains_key(&key) {
                    let mut d = c.clone();
                    d.mode = m.to_string();
                    cams.push(d);
                }
            }
        }
        if cams.is_empty() {
            continue;
        }
        let seed = cfg.seed;
        v.push(stream(&format!("unlisted-mode-{}", f.name), cfg.n(400), move |i| {
            let mut g = make_g(seed ^ 0x901, &f, &cams, i);
            g.small = true;
            let c = (f.gen)(&mut g);
            match decode(&c.file) {
                Err(_) => Verdict::Held(hash(&c.file), true, format!("{} {} mode {} is an error", g.cam.make, g.cam.model, g.cam.mode)),
                Ok(_) => Verdict::Broken(format!("{}: mode {:?} is not listed for {:?} but was decoded", f.name, g.cam.mode, g.cam.model), Some(c.file)),
            }
        }));
    }
    v
}

/// Every entry of the catalogue, straight from the loader's table
pub fn table_stream<'a>(cfg: &'a Cfg) -> Stream<'a> {
    let cams: Vec<Cam> = catalogue().cams.values().cloned().collect();
    let n = cams.len() as u64;
    let seed = cfg.seed;
    stream("table", n, move |i| {
        let c = &cams[i as usize];
        let cam = match loader().check_supported_with_everything(&c.make, &c.model, &c.mode) {
            Ok(x) => x,
            Err(e) => return Verdict::Broken(format!("{:?} {:?} {:?}: {}", c.make, c.model, c.mode, e), None),
        };
        for h in [
            "12le_16bitaligned", "40d_yuv", "coolpixsplit", "double_line", "double_width", "easyshare_offset_hack", "fuji_rotation",
            "fuji_rotation_alt", "interlaced", "jpeg32", "linearization", "little_endian", "msb32", "nocinfo2", "nolowbits", "nowb",
            "swapped_wb", "wb_mangle",
        ] {
            if cam.find_hint(h) != c.hint(h) {
                return Verdict::Broken(format!("{:?} {:?} {:?}: hint {}", c.make, c.model, c.mode, h), None);
            }
        }
        for h in &c.hints {
            if !cam.find_hint(h) {
                return Verdict::Broken(format!("{:?} {:?} {:?}: hint {} is missing", c.make, c.model, c.mode, h), None);
            }
        }
        if (cam.filesize, cam.raw_width, cam.raw_height) != (c.filesize, c.raw_width, c.raw_height) || cam.mode != c.mode {
            return Verdict::Broken(format!("{:?} {:?} {:?}: raw size", c.make, c.model, c.mode), None);
        }
        // an image of this camera
        let mut rng = Rng::derive(seed, "table", i);
        let w = (c.blackareav.0 + c.blackareav.1).max(c.crops[1] + c.crops[3]) + rng.range(1, 20);
        let h = (c.blackareah.0 + c.blackareah.1).max(c.crops[0] + c.crops[2]) + rng.range(1, 20);
        let data = crate::rng::image(&mut rng, w, h, 65535);
        let wb = [2.0, 1.0, 1.5, 1.25];
        let g = G::new(seed, "table", i, c.clone());
        let mut want = g.case("table", vec![], w, h, data.clone(), wb);
        want.orientation = None;
        let img = match nopanic("RawImage::new", || RawImage::new(cam, w, h, wb, data)) {
            Ok(x) => x,
            Err(e) => return Verdict::Broken(format!("{:?} {:?} {:?}: {}", c.make, c.model, c.mode, e), None),
        };
        match all(&want, &img) {
            Ok(()) => Verdict::Held(hash(want.desc.as_bytes()), true, want.desc.clone()),
            Err(e) => Verdict::Broken(format!("{}: {}", want.desc, e), None),
        }
    })
}

pub fn db(c: &Case, img: &RawImage) -> Result<(), String> {
    // everything the database decides, including how the samples are stored
    c.check_ident(img)?;
    c.check_colour(img)?;
    c.check_levels(img)?;
    c.check_geometry(img)?;
    c.check_data(img)
}

pub fn stored(c: &Case, img: &RawImage) -> Result<(), String> {
    c.check_levels(img)?;
    c.check_geometry(img)?;
    c.check_colour(img)?;
    c.check_orientation(img)
}
