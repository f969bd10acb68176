//! C11: what decides how a file is decoded.
use crate::case::*;
use crate::cat::Cam;
use crate::files::*;
use crate::report::*;
use crate::rng::Rng;
use crate::tiff::Val;
use rawloader::RawImage;
use std::io::{Error, ErrorKind, Read};

/// A scratch directory, removed when dropped
pub struct Scratch(pub String);
impl Scratch {
    pub fn new(tag: &str) -> Scratch {
        let base = if std::path::Path::new("/dev/shm").is_dir() { "/dev/shm" } else { "/tmp" };
        let d = format!("{}/mon-{}-{}", base, tag, std::process::id());
        let _ = std::fs::remove_dir_all(&d);
        std::fs::create_dir_all(&d).expect("scratch directory");
        Scratch(d)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// Delivers the bytes in random pieces, with interruptions.
pub struct Chunky<'a> {
    pub data: &'a [u8],
    pub pos: usize,
    pub rng: Rng,
    pub style: usize,
    pub calls: usize,
}

impl<'a> Chunky<'a> {
    pub fn new(data: &'a [u8], rng: Rng, style: usize) -> Chunky<'a> {
        Chunky { data, pos: 0, rng, style, calls: 0 }
    }
}

impl<'a> Read for Chunky<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.rng.chance(1, 4) {
            return Err(Error::new(ErrorKind::Interrupted, "interrupted"));
        }
        let left = self.data.len() - self.pos;
        let most = match self.style {
            0 => 1 + self.data.len() / 5000,
            1 => self.rng.range(1, 100) * (1 + self.data.len() / 100_000),
            2 => self.rng.range(1, 5000),
            _ => 4096,
        };
        let n = left.min(most).min(buf.len());
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

pub fn decode_reader(rd: &mut dyn Read) -> Result<RawImage, String> {
    match nopanic("decode", std::panic::AssertUnwindSafe(|| loader().decode(rd))) {
        Ok(r) => r,
        Err(e) => Err(e),
    }
}

fn small_case(seed: u64, f: &Family, cams: &[Cam], i: u64, extra: Vec<(u16, Val)>) -> Case {
    let mut g = make_g(seed, f, cams, i);
    g.small = i % 3 != 0;
    g.big = false;
    g.extra = extra;
    (f.gen)(&mut g)
}

fn must(c: &Case, file: &[u8], what: &str) -> Verdict {
    match decode(file) {
        Err(e) => Verdict::Broken(format!("{}: {}: not decoded: {}", c.desc, what, e), Some(file.to_vec())),
        Ok(img) => match all(c, &img) {
            Err(e) => Verdict::Broken(format!("{}: {}: {}", c.desc, what, e), Some(file.to_vec())),
            Ok(()) => Verdict::Held(hash(file), nontrivial(c), format!("{}: {}", what, c.desc)),
        },
    }
}

fn must_fail(file: &[u8], what: &str) -> Verdict {
    match decode(file) {
        Err(e) => Verdict::Held(hash(file), true, format!("{}: {}", what, e.lines().next().unwrap_or(""))),
        Ok(img) => Verdict::Broken(format!("{}: decoded as {:?} {:?} {}x{}", what, img.make, img.model, img.width, img.height), Some(file.to_vec())),
    }
}

const NAMES: [&str; 22] = [
    "a", "a.nef", "a.NEF", "a.CR2", "a.dng", "a.mrw", "a.raf", "a.x3f", "a.crw", "a.ari", "a.jpg", "a.tif", "a.txt", "a.gz", ".dng", "a.", "a b.raw", "\u{e9}\u{4e2d}.rw2", "-o.orf", "a.mos", "a.raw.ppm", "A.ARW",
];

const HEADS: [&[u8]; 14] = [
    b"\xff\xd8\xff\xe1", b"\x89PNG\r\n\x1a\n", b"GIF89a", b"BM", b"%PDF-1.4", b"PK\x03\x04", b"\x1f\x8b\x08", b"RIFF\0\0\0\0WEBP", b"\0\0\0\x18ftypcrx ", b"8BPS", b"\x7fELF", b"FFmpeg", b"HEAPCCDR", b"ARR",
];

pub fn c11<'a>(cfg: &'a Cfg, dir: &'a Scratch) -> Vec<Stream<'a>> {
    let seed = cfg.seed;
    let mut v = Vec::new();
    let naked_sizes: Vec<usize> = {
        let mut s: Vec<usize> = catalogue().cams.values().map(|c| c.filesize).filter(|&n| n > 0).collect();
        s.extend(loader().naked.keys().cloned());
        s.sort();
        s.dedup();
        s
    };
    for f in families() {
        let cams = cams_of(&f);
        let big = f.cost >= 50;
        // whatever it is called
        {
            let (f, cams) = (family(f.name), cams.clone());
            v.push(stream(&format!("name-{}", f.name), if big { cfg.n(2) } else { cfg.n(120) }, move |i| {
                let c = small_case(seed ^ 0x1101, &f, &cams, i, vec![]);
                let mut r = Rng::derive(seed, "names", i);
                let mut names: Vec<String> = (0..3).map(|_| r.pick(&NAMES).to_string()).collect();
                if r.chance(1, 5) {
                    names.push("x".repeat(r.range(100, 255)));
                }
                let mem = match decode(&c.file) {
                    Ok(x) => x,
                    Err(e) => return Verdict::Broken(format!("{}: not decoded: {}", c.desc, e), Some(c.file)),
                };
                let d = format!("{}/{}-{}", dir.0, f.name, i);
                let _ = std::fs::create_dir_all(&d);
                let mut res = Ok(());
                for n in names {
                    let p = format!("{}/{}", d, n);
                    if let Err(e) = std::fs::write(&p, &c.file) {
                        res = Err(Verdict::Unclear(format!("cannot write {}: {}", p, e)));
                        break;
                    }
                    let img = match nopanic("decode", || rawloader::decode(&p)) {
                        Err(e) => Err(e),
                        Ok(Err(e)) => Err(format!("error {}", e)),
                        Ok(Ok(img)) => all(&c, &img).and_then(|_| same_image(&mem, &img)),
                    };
                    let same = std::fs::read(&p).map(|b| b == c.file).unwrap_or(false);
                    let _ = std::fs::remove_file(&p);
                    if let Err(e) = img {
                        res = Err(Verdict::Broken(format!("{}: called {:?}: {}", c.desc, n, e), Some(c.file.clone())));
                        break;
                    }
                    if !same {
                        res = Err(Verdict::Broken(format!("{}: called {:?}: the file was modified", c.desc, n), Some(c.file.clone())));
                        break;
                    }
                }
                let _ = std::fs::remove_dir_all(&d);
                match res {
                    Err(v) => v,
                    Ok(()) => Verdict::Held(hash(&c.file), nontrivial(&c), c.desc.clone()),
                }
            }));
        }
        // however it is read
        {
            let (f, cams) = (family(f.name), cams.clone());
            v.push(stream(&format!("reader-{}", f.name), if big { cfg.n(2) } else { cfg.n(100) }, move |i| {
                let c = small_case(seed ^ 0x1102, &f, &cams, i, vec![]);
                let mut r = Chunky::new(&c.file, Rng::derive(seed, "reader", i), i as usize % 4);
                match decode_reader(&mut r) {
                    Err(e) => Verdict::Broken(format!("{}: not decoded from a reader with short reads: {}", c.desc, e), Some(c.file.clone())),
                    Ok(img) => match all(&c, &img) {
                        Err(e) => Verdict::Broken(format!("{}: from a reader with short reads: {}", c.desc, e), Some(c.file.clone())),
                        Ok(()) => Verdict::Held(hash(&c.file), nontrivial(&c), format!("{} reads: {}", r.calls, c.desc)),
                    },
                }
            }));
        }
        // the make counts before the software, and what has a make or a signature is never taken for a dump
        let has_ifd0 = !["mrw", "ari", "naked", "crw", "crw-pro70", "mos", "mos-ljpeg"].contains(&f.name);
        if has_ifd0 && !big {
            let (f, cams) = (family(f.name), cams.clone());
            v.push(stream(&format!("software-{}", f.name), cfg.n(60), move |i| {
                let sw = ["Camera Library", "Camera Library 1.0", "rawloader", ""][i as usize % 4];
                let c = small_case(seed ^ 0x1103, &f, &cams, i, vec![(0x131, Val::Ascii(sw.to_string()))]);
                must(&c, &c.file, &format!("with software {:?}", sw))
            }));
        }
        if !f.name.starts_with("rw2") && !f.name.starts_with("crw") && f.name != "naked" && f.name != "arw-a100" {
            let (f, cams, sizes) = (family(f.name), cams.clone(), naked_sizes.clone());
            v.push(stream(&format!("padded-{}", f.name), cfg.n(3), move |i| {
                let c = small_case(seed ^ 0x1104, &f, &cams, i, vec![]);
                let s = sizes[(Rng::derive(seed, "padded", i).below(4)).min(sizes.len() - 1)];
                let mut b = c.file.clone();
                if b.len() > s {
                    return Verdict::Held(0, false, String::new());
                }
                b.resize(s, 0);
                must(&c, &b, &format!("padded to {} bytes, the size of a headerless file", s))
            }));
        }
        // a damaged signature is not recognised any more
        if f.name != "naked" {
            let (f, cams) = (family(f.name), cams.clone());
            v.push(stream(&format!("signature-{}", f.name), if big { cfg.n(2) } else { cfg.n(60) }, move |i| {
                let c = small_case(seed ^ 0x1105, &f, &cams, i, vec![]);
                let mut b = c.file.clone();
                let mut r = Rng::derive(seed, "signature", i);
                let span = match f.name {
                    "mrw" | "ari" => 0..4,
                    "crw" | "crw-pro70" => 6..14,
                    "raf" => 0..8,
                    _ => 0..2,
                };
                let k = r.range(span.start, span.end - 1);
                let old = b[k];
                while b[k] == old {
                    b[k] = if r.bool() { r.u8() } else { old ^ (1 << r.below(8)) };
                }
                must_fail(&b, &format!("{} with byte {} changed from {:02x} to {:02x}", f.name, k, old, b[k]))
            }));
        }
    }
    // Leaf files without a make are known by their software
    for n in ["mos", "mos-ljpeg"] {
        let f = family(n);
        let cams = cams_of(&f);
        v.push(stream(&format!("software-{}", n), cfg.n(100), move |i| {
            let mut g = make_g(seed ^ 0x1106, &f, &cams, i);
            g.small = true;
            let c = (f.gen)(&mut g);
            let pos = match c.file.windows(14).position(|w| w == b"Camera Library") {
                Some(p) => p,
                None => return Verdict::Unclear("no software tag".to_string()),
            };
            let mut b = c.file.clone();
            let k = Rng::derive(seed, "mos", i).below(14);
            b[pos + k] ^= 0x20;
            must_fail(&b, &format!("{} with the software spelt differently", n))
        }));
        let f = family(n);
        let cams = cams_of(&f);
        v.push(stream(&format!("software-like-{}", n), cfg.n(100), move |i| {
            let mut g = make_g(seed ^ 0x1108, &f, &cams, i);
            g.small = true;
            let sw = ["Camera Library 4.1", "Camera Librar", "A Camera Library", "Camera  Library", "camera library", "Camera", "Library", "", "Camera Library\u{e9}", "CameraLibrary"][i as usize % 10];
            g.extra = vec![(0x131, Val::Ascii(sw.to_string()))];
            let c = (f.gen)(&mut g);
            must_fail(&c.file, &format!("{} with software {:?}", n, sw))
        }));
    }
    // headerless files
    let nf = family("naked");
    let ncams = cams_of(&nf);
    let sizes = naked_sizes.clone();
    v.push(stream("naked", cfg.n(80), move |i| {
        let cams = &ncams;
        let mut g = make_g(seed ^ 0x1107, &nf, cams, i);
        g.small = true;
        // the cheapest ones more often
        if i % 4 != 0 {
            g.cam = cams.iter().min_by_key(|c| c.filesize).unwrap().clone();
        }
        let c = (nf.gen)(&mut g);
        let mut r = Rng::derive(seed, "naked11", i);
        let mut b = c.file.clone();
        let mut off = |b: &mut Vec<u8>, n: i64| {
            let l = (b.len() as i64 + n) as usize;
            b.resize(l, 0);
        };
        match i % 10 {
            0 => must(&c, &b, "as it is"),
            1 | 2 => {
                let d = *r.pick(&[-1i64, 1, -2, 2, -16, 16, 100, -4096]);
                off(&mut b, d);
                if sizes.contains(&b.len()) {
                    return Verdict::Held(0, false, String::new());
                }
                must_fail(&b, &format!("{} and {} bytes", c.file.len(), d))
            }
            3 | 4 => {
                // a signature at the start counts more than the size
                let all: [(usize, &[u8]); 4] = [(0, b"FOVb"), (0, b"ARRI"), (0, b"\0MRM"), (6, b"HEAPCCDR")];
                let (at, s) = *r.pick(&all);
                b[at..at + s.len()].copy_from_slice(s);
                must_fail(&b, &format!("{:?} in a file with the size of a headerless one", String::from_utf8_lossy(s)))
            }
            k => {
                // TIFF files that don't name a camera are still known by their size
                let big = r.bool();
                let mut t = crate::tiff::Tiff::new(&crate::tiff::Layout::plain(big));
                let h = match k {
                    5 => t.finish(&[crate::tiff::Ifd::new()]),
                    6 => {
                        let mut x = crate::tiff::Layout::plain(big);
                        x.unknown = true;
                        t = crate::tiff::Tiff::new(&x);
                        t.finish(&[crate::tiff::Ifd::new().long(0x100, 3).long(0x101, 4), crate::tiff::Ifd::new()])
                    }
                    7 => t.finish(&[crate::tiff::Ifd::new().ascii(0x131, "CHDK")]),
                    8 => {
                        let mut x = t.finish(&[crate::tiff::Ifd::new()]);
                        let m = r.range(4001, 65535) as u16;
                        x[8..10].copy_from_slice(&crate::tiff::p16(big, m));
                        x
                    }
                    _ => {
                        // but not if they name an unknown one
                        let mk = r.pick(&["CASIO", "Sony", "canon", "Nokia"]).to_string();
                        let x = t.finish(&[crate::tiff::Ifd::new().ascii(0x10f, &mk).ascii(0x110, &c.model)]);
                        b[..x.len()].copy_from_slice(&x);
                        return must_fail(&b, &format!("TIFF naming {:?} in a file with the size of a headerless one", mk));
                    }
                };
                b[..h.len()].copy_from_slice(&h);
                let img = match decode(&b) {
                    Ok(x) => x,
                    Err(e) => return Verdict::Broken(format!("{} starting with a TIFF that names no camera ({}): {}", c.desc, k, e), Some(b)),
                };
                let r = c.check_ident(&img).and_then(|_| c.check_colour(&img));
                if let Err(e) = r {
                    return Verdict::Broken(format!("{} starting with a TIFF that names no camera ({}): {}", c.desc, k, e), Some(b));
                }
                if (img.width, img.height) != (c.width, c.height) || img.data[300..] != c.data[300..] {
                    return Verdict::Broken(format!("{} starting with a TIFF that names no camera ({}): not the same image", c.desc, k), Some(b));
                }
                Verdict::Held(hash(&b), true, format!("headerless file starting with a TIFF that names no camera ({})", k))
            }
        }
    }));
    // sizes near those of headerless files
    let sizes = naked_sizes.clone();
    v.push(stream("naked-size", sizes.len() as u64 * 48, move |i| {
        let n = sizes[i as usize / 48];
        let k = i % 48;
        let d = if k < 40 { (1i64 << (k / 2)) * if k % 2 == 0 { 1 } else { -1 } } else { Rng::derive(seed, "naked-size", i).range(1, 70000) as i64 - 35000 };
        // or the next multiple of usual block sizes
        let l = match k {
            40 => (n + 511) / 512 * 512,
            41 => (n + 4095) / 4096 * 4096,
            42 => n / 512 * 512,
            43 => n / 4096 * 4096,
            44 => n / 2,
            45 => n * 2,
            _ => (n as i64 + d).max(100) as usize,
        };
        if sizes.contains(&l) {
            return Verdict::Held(0, false, String::new());
        }
        must_fail(&vec![0x55; l], &format!("{} bytes, where {} is the size of a headerless file", l, n))
    }));
    // anything else
    let sizes = naked_sizes;
    v.push(stream("other", cfg.n(4000), move |i| {
        let mut r = Rng::derive(seed, "other", i);
        let n = match r.below(5) {
            0 => r.below(40),
            1 => r.below(300),
            2 => r.range(300, 3000),
            _ => r.range(100, 9000),
        };
        let mut b = match r.below(4) {
            0 => vec![*r.pick(&[0u8, 0xff, 0x49, 0x20]); n],
            1 => (0..n).map(|_| b"Canon NIKON ARRI FOVb\n"[r.below(22)]).collect(),
            _ => r.bytes(n),
        };
        if r.bool() {
            let h = *r.pick(&HEADS);
            let l = h.len().min(b.len());
            b[..l].copy_from_slice(&h[..l]);
        }
        if sizes.contains(&b.len()) {
            return Verdict::Held(0, false, String::new());
        }
        must_fail(&b, "no known content")
    }));
    // makes that no decoder handles
    v.push(stream("make", cfg.n(400), move |i| {
        let mut r = Rng::derive(seed, "make", i);
        let mut x = crate::tiff::Layout::random(&mut r);
        x.tail = r.below(2000);
        let mk = r.pick(&["CASIO COMPUTER CO.,LTD.", "Google", "Apple", "NIKON CORP", "Canon Inc.", "SONY ", "sony", "", "FUJI", "Leica Camera AG", "SIGMA"]).to_string();
        if mk == "SONY " {
            // blanks at the end do not count; without a model it is an error all the same
        }
        let t = crate::tiff::Tiff::new(&x);
        let b = t.finish(&[crate::tiff::Ifd::new().ascii(0x10f, &mk).ascii(0x110, "X100").ascii(0x131, "Camera Library").long(0x100, 4).long(0x101, 4)]);
        must_fail(&b, &format!("make {:?}", mk))
    }));
    v
}

pub fn family(n: &str) -> Family {
    families().into_iter().find(|f| f.name == n).unwrap()
}
