//! C01 and C02: hostile files, decoded in worker processes that may die.
use crate::case::*;
use crate::files::*;
use crate::recog::Scratch;
use crate::report::*;
use crate::rng::Rng;
use crate::tiff::{Ifd, Layout, Tiff, Val};
use rawloader::RawImage;
use std::collections::HashMap;
use std::io::{BufRead, BufReader, Read, Write};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(r: i32, l: *const RLimit) -> i32;
}

/// Memory a worker may have
const MEM: u64 = 6 << 30;
/// Processor seconds one case may take (the same again, alone and twice as long, before it counts)
const CPU_S: f64 = 60.0;
const WALL_S: f64 = 100.0;

// ---------------------------------------------------------------- the files

pub struct Maker {
    seed: u64,
    fams: Vec<Family>,
    cams: Vec<Vec<crate::cat::Cam>>,
    pool: HashMap<(usize, u64), Arc<Case>>,
    light: Vec<usize>,
    sweepable: Vec<usize>,
    plans: HashMap<usize, Arc<Vec<(u64, Place, usize)>>>,
}

const NASTY32: [u32; 34] = [
    0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 255, 256, 0x7fff, 0x8000, 0xffff, 0x10000, 0x10001, 99_999, 150_000, 200_000, 200_001, 22_360, 500_000_000, 0x7ffffff0, 0x7fffffff, 0x80000000, 0x80000001,
    0xfffffff0, 0xfffffffd, 0xfffffffe, 0xffffffff, 0x55555555,
];
const DIM_TAGS: [u16; 36] = [
    0x02, 0x03, 0x04, 0x05, 0x06, 0x07, 0x08, 0x09, 0x0a, 0x17, 0x100, 0x101, 0x102, 0x103, 0x106, 0x111, 0x112, 0x115, 0x116, 0x117, 0x118, 0x142, 0x143, 0x144, 0x145, 0x14a, 0x828d, 0x828e, 0xc612, 0xc61a, 0xc61d, 0xc640, 0xc68d,
    0xf000, 0x8769, 0x927c,
];

fn put16(b: &mut [u8], p: usize, big: bool, v: u16) {
    b[p..p + 2].copy_from_slice(&crate::tiff::p16(big, v));
}
fn put32(b: &mut [u8], p: usize, big: bool, v: u32) {
    b[p..p + 4].copy_from_slice(&crate::tiff::p32(big, v));
}
fn get16(b: &[u8], p: usize, big: bool) -> u16 {
    if big {
        u16::from_be_bytes([b[p], b[p + 1]])
    } else {
        u16::from_le_bytes([b[p], b[p + 1]])
    }
}
fn get32(b: &[u8], p: usize, big: bool) -> u32 {
    if big {
        u32::from_be_bytes([b[p], b[p + 1], b[p + 2], b[p + 3]])
    } else {
        u32::from_le_bytes([b[p], b[p + 1], b[p + 2], b[p + 3]])
    }
}

/// Places that look like directory entries: (position, big endian)
fn entries(b: &[u8]) -> Vec<(usize, bool)> {
    let mut v = Vec::new();
    let n = b.len().min(60_000);
    let mut p = 0;
    while p + 12 <= n {
        for &big in &[false, true] {
            let t = get16(b, p + 2, big);
            let c = get32(b, p + 4, big);
            if t >= 1 && t <= 13 && c > 0 && c < 70_000 && get16(b, p, big) != 0 {
                v.push((p, big));
            }
        }
        p += 1;
    }
    v
}

/// What one sweep step does to one place of a file
const SWEEP_OPS: usize = 12;

/// Position, big endian, is an entry
type Place = (usize, bool, bool);

/// Places for the sweep: directory entries with another next to them, and for files that
/// are no TIFFs the words at both ends
fn places(b: &[u8]) -> Vec<Place> {
    let e = entries(b);
    let has: std::collections::HashSet<(usize, bool)> = e.iter().cloned().collect();
    let mut v: Vec<Place> = e.iter().filter(|&&(p, g)| has.contains(&(p + 12, g)) || (p >= 12 && has.contains(&(p - 12, g)))).map(|&(p, g)| (p, g, true)).collect();
    let tiff = b.starts_with(b"II*\0") || b.starts_with(b"MM\0*");
    let n = b.len();
    let (head, tail) = if tiff { (16, 0) } else { (192, 192) };
    for p in (0..head.min(n.max(4) - 4)).chain(n.max(tail + 4) - tail - 4..n.max(4) - 4) {
        if p % 2 == 0 {
            v.push((p, p % 4 == 0 && b.starts_with(b"MM"), false));
        }
    }
    v
}

fn sweep(b: &mut Vec<u8>, place: Place, op: usize) {
    let (p, g, entry) = place;
    let n = b.len();
    if !entry {
        match op {
            0 => put32(b, p, g, 0xffffffff),
            1 => put32(b, p, g, 0x7fffffff),
            2 => put32(b, p, g, 0),
            3 => put32(b, p, g, n as u32),
            4 => put16(b, p, g, 0xffff),
            5 => put16(b, p, g, 0),
            6 => put16(b, p, g, 0x7fff),
            7 => put16(b, p, g, 1),
            8 => put32(b, p, g, 0x00ffffff),
            9 => put16(b, p, g, 2),
            10 => put16(b, p, g, 0x8001),
            _ => put32(b, p, g, p as u32),
        }
        return;
    }
    let ty = get16(b, p + 2, g);
    let count = get32(b, p + 4, g) as usize;
    let size = match ty {
        1 | 2 | 6 | 7 => 1,
        3 | 8 => 2,
        5 | 10 | 12 => 8,
        _ => 4,
    };
    // where the values are
    let at = if count * size <= 4 { p + 8 } else { get32(b, p + 8, g) as usize };
    match op {
        0 => put32(b, p + 8, g, 0xffffffff),
        1 => {
            put16(b, p + 2, g, 4);
            put32(b, p + 4, g, 1);
            put32(b, p + 8, g, 0xffffffff);
        }
        2 => {
            put16(b, p + 2, g, 4);
            put32(b, p + 4, g, 1);
            put32(b, p + 8, g, 0x7fffffff);
        }
        // the same values as longs
        3 => put16(b, p + 2, g, 4),
        4 => put32(b, p + 4, g, 0xffffffff),
        5 => put32(b, p + 4, g, 0),
        6 => put32(b, p + 8, g, 0),
        // extreme values, all of them and the first
        7 | 8 | 9 => {
            let len = if op == 7 { size } else { count * size };
            let v = if op == 9 { 0 } else { 0xff };
            if at + len <= n {
                for x in &mut b[at..at + len] {
                    *x = v;
                }
            }
        }
        // the same with larger values
        10 | 11 => {
            let len = if op == 10 { 4 } else { count * 4 };
            put16(b, p + 2, g, 4);
            let at = if count <= 1 { p + 8 } else { get32(b, p + 8, g) as usize };
            if at + len <= n {
                for x in &mut b[at..at + len] {
                    *x = 0xff;
                }
            }
        }
        _ => {}
    }
}

fn nasty(r: &mut Rng, old: u32, c: &Case) -> u32 {
    let dims = [c.width as u32, c.height as u32, (c.width * c.cpp) as u32, c.file.len() as u32, (c.width * c.height) as u32];
    match r.below(6) {
        0 | 1 => *r.pick(&NASTY32),
        2 => old.wrapping_add(*r.pick(&[1u32, 2, 3, 0xffffffff, 0xfffffffe, 16, 0xfffffff0])),
        3 => *r.pick(&[old.wrapping_mul(2), old / 2, old.wrapping_mul(3), old.wrapping_mul(16), old ^ (1 << r.clone().below(32)), old << 8, old << 16]),
        4 => {
            let d = *r.pick(&dims);
            d.wrapping_add(*r.pick(&[0u32, 0, 1, 2, 0xffffffff, 0xfffffffe, 4]))
        }
        _ => r.u32() >> r.below(32),
    }
}

fn mutate(r: &mut Rng, b: &mut Vec<u8>, c: &Case, other: &[u8]) -> &'static str {
    if b.len() < 32 {
        return "tiny";
    }
    match r.below(12) {
        0 => {
            let n = match r.below(3) {
                0 => b.len() - r.range(1, 20),
                1 => r.below(200.min(b.len())),
                _ => r.below(b.len()),
            };
            b.truncate(n);
            "cut"
        }
        1 => {
            for _ in 0..r.range(1, 8) {
                let p = r.below(b.len());
                b[p] = if r.bool() { r.u8() } else { *r.pick(&[0u8, 0xff, 0x7f, 0x80, 1]) };
            }
            "bytes"
        }
        2 => {
            for _ in 0..r.range(1, 4) {
                let p = r.below(b.len());
                b[p] ^= 1 << r.below(8);
            }
            "bits"
        }
        3 | 4 | 5 => {
            // the entries that say how large things are
            let mut e = entries(b);
            let want: Vec<(usize, bool)> = e.iter().cloned().filter(|&(p, big)| DIM_TAGS.contains(&get16(b, p, big))).collect();
            if !want.is_empty() && r.chance(4, 5) {
                e = want;
            }
            if e.is_empty() {
                return "none";
            }
            for _ in 0..r.range(1, 3) {
                let (p, big) = *r.pick(&e);
                match r.below(8) {
                    0 => {
                        let v = nasty(r, get32(b, p + 4, big), c);
                        put32(b, p + 4, big, v);
                    }
                    1 => {
                        let v = r.below(16) as u16;
                        put16(b, p + 2, big, v);
                    }
                    2 => {
                        let v = *r.pick(&DIM_TAGS);
                        put16(b, p, big, v);
                    }
                    _ => {
                        if get16(b, p + 2, big) == 3 && get32(b, p + 4, big) <= 2 {
                            let o = get16(b, p + 8, big) as u32;
                            let v = nasty(r, o, c) as u16;
                            put16(b, p + 8, big, v);
                        } else {
                            let o = get32(b, p + 8, big);
                            let v = nasty(r, o, c);
                            put32(b, p + 8, big, v);
                        }
                    }
                }
            }
            "entry"
        }
        6 | 7 => {
            // wherever the width or the height is stored
            let vals = [c.width, c.height, c.width * c.cpp, c.width / 2, c.height / 2, c.width - c.crops[1].min(c.width - 1)];
            let mut hits = Vec::new();
            let n = b.len().min(60_000);
            for p in 0..n - 4 {
                for &v in &vals {
                    if v > 3 && v < 65536 {
                        for &big in &[false, true] {
                            if get16(b, p, big) == v as u16 {
                                hits.push((p, big));
                            }
                        }
                    }
                }
            }
            if hits.is_empty() {
                return "none";
            }
            for _ in 0..r.range(1, 2) {
                let (p, big) = *r.pick(&hits);
                let v = nasty(r, get16(b, p, big) as u32, c) as u16;
                put16(b, p, big, v);
            }
            "size"
        }
        8 => {
            // JPEG headers
            let mut hits = Vec::new();
            for p in 0..b.len() - 20 {
                if b[p] == 0xff && [0xc3, 0xc4, 0xda, 0xd8].contains(&b[p + 1]) {
                    hits.push(p);
                }
            }
            if hits.is_empty() {
                return "none";
            }
            for _ in 0..r.range(1, 3) {
                let p = *r.pick(&hits) + r.range(1, 18);
                b[p] = match r.below(4) {
                    0 => r.u8(),
                    1 => b[p].wrapping_add(1),
                    2 => b[p].wrapping_sub(1),
                    _ => *r.pick(&[0u8, 0xff, 1, 2, 3, 4, 16, 17]),
                };
            }
            "jpeg"
        }
        9 => {
            // words anywhere in the head
            for _ in 0..r.range(1, 3) {
                let p = r.below((b.len() - 4).min(4000));
                let big = r.bool();
                let v = nasty(r, get32(b, p, big), c);
                if r.bool() {
                    put32(b, p, big, v);
                } else {
                    put16(b, p, big, v as u16);
                }
            }
            "word"
        }
        10 => {
            // a piece of another file
            if other.len() > 8 {
                let n = r.range(1, other.len().min(b.len()).min(400));
                let s = r.below(other.len() - n + 1);
                let d = r.below(b.len() - n + 1);
                b[d..d + n].copy_from_slice(&other[s..s + n]);
            }
            "splice"
        }
        _ => {
            let n = r.range(1, 60);
            let p = r.below(b.len());
            if r.bool() {
                let x = r.bytes(n);
                b.splice(p..p, x);
            } else {
                let e = (p + n).min(b.len());
                b.drain(p..e);
            }
            "shift"
        }
    }
}

/// Small files that point in circles and claim a lot
fn structure(r: &mut Rng) -> Vec<u8> {
    let make = *r.pick(&["SONY", "NIKON CORPORATION", "Canon", "PENTAX", "OLYMPUS IMAGING CORP.", "SAMSUNG", "Panasonic", "FUJIFILM", "KODAK", "Kodak", "Hasselblad", "Phase One A/S", "EASTMAN KODAK COMPANY"]);
    let big = r.bool();
    match r.below(6) {
        0 | 1 | 2 => {
            // directories that refer to each other
            let n = r.range(1, 6);
            let per = r.range(1, 40);
            let mut b = if big { b"MM\0*".to_vec() } else { b"II*\0".to_vec() };
            b.extend(crate::tiff::p32(big, 8));
            let size = 2 + (per + 2) * 12 + 4;
            let at = |k: usize| 8 + k * size;
            let table = 8 + n * size;
            let tcount = r.range(1, 300);
            for _ in 0..n {
                b.extend(crate::tiff::p16(big, per as u16 + 2));
                for j in 0..per {
                    let tag = *r.pick(&[0x14au16, 0x8769, 0xf000, 0x8290, 0xfe00, 0x927c, 0x14a, 0x14a]);
                    b.extend(crate::tiff::p16(big, tag));
                    let many = tag != 0x927c && r.bool();
                    b.extend(crate::tiff::p16(big, if r.chance(1, 10) { 13 } else { 4 }));
                    if many {
                        b.extend(crate::tiff::p32(big, if r.chance(1, 8) { *r.pick(&NASTY32) } else { tcount as u32 }));
                        b.extend(crate::tiff::p32(big, table as u32));
                    } else {
                        b.extend(crate::tiff::p32(big, if tag == 0x927c { 1000 } else { 1 }));
                        b.extend(crate::tiff::p32(big, if r.chance(1, 8) { *r.pick(&NASTY32) } else { at((j + 1) % n) as u32 }));
                    }
                }
                b.extend(crate::tiff::p16(big, 0x10f));
                b.extend(crate::tiff::p16(big, 2));
                b.extend(crate::tiff::p32(big, 20));
                b.extend(crate::tiff::p32(big, (table + tcount * 4) as u32));
                b.extend(crate::tiff::p16(big, 0x110));
                b.extend(crate::tiff::p16(big, 2));
                b.extend(crate::tiff::p32(big, 20));
                b.extend(crate::tiff::p32(big, (table + tcount * 4) as u32));
                b.extend(crate::tiff::p32(big, if r.bool() { at(r.below(n)) as u32 } else { 0 }));
            }
            for _ in 0..tcount {
                b.extend(crate::tiff::p32(big, at(r.below(n)) as u32));
            }
            let mut m = make.as_bytes().to_vec();
            m.resize(40, 0);
            b.extend(m);
            b
        }
        3 => {
            // a heap (CRW) whose directories contain themselves
            let n = r.range(1, 60);
            let mut b = b"II\x1a\0\0\0HEAPCCDR".to_vec();
            b.resize(26, 0);
            let dir = b.len();
            b.extend((n as u16).to_le_bytes());
            for _ in 0..n {
                let typ: u16 = *r.pick(&[0x2800, 0x3000, 0x2807, 0x300a, 0x080a, 0x2005]);
                b.extend(typ.to_le_bytes());
                let (len, off): (u32, u32) = match r.below(4) {
                    0 => (*r.pick(&NASTY32), *r.pick(&NASTY32)),
                    1 => (r.below(2000) as u32, r.below(100) as u32),
                    _ => (0, 0),
                };
                // 0: everything from the start to the end
                b.extend(if len == 0 && off == 0 { 0xdead_0001u32 } else { len }.to_le_bytes());
                b.extend(off.to_le_bytes());
            }
            let end = b.len() + 4;
            for k in 0..n {
                let p = dir + 2 + k * 10 + 2;
                if get32(&b, p, false) == 0xdead_0001 {
                    put32(&mut b, p, false, (end - if r.clone().bool() { 26 } else { 0 }) as u32);
                }
            }
            b.extend(((dir - if r.bool() { 26 } else { 0 }) as u32).to_le_bytes());
            let hl = *r.pick(&[0u32, 26, 14]);
            b[2..6].copy_from_slice(&hl.to_le_bytes());
            b
        }
        4 => {
            // Minolta blocks of odd lengths
            let mut b = b"\0MRM".to_vec();
            b.extend((*r.pick(&[10u32, 100, 1000, 0xfffffff8, 0x7fffffff, 0])).to_be_bytes());
            for _ in 0..r.range(1, 20) {
                b.extend(*r.pick(&[b"\0PRD", b"\0WBG", b"\0TTW", b"\0RIF", b"\0PAD"]));
                b.extend((*r.pick(&[0u32, 1, 8, 24, 0xfffffff8, 0xfffffff0, 0xffffffff, 0x7fffffff])).to_be_bytes());
                let n = r.below(30);
                b.extend(r.bytes(n));
            }
            b.resize(b.len() + r.below(400), 0);
            b
        }
        _ => {
            // any claim of size with hardly any data
            let cam = {
                let v: Vec<_> = catalogue().cams.values().filter(|c| c.filesize == 0).collect();
                (*r.pick(&v)).clone()
            };
            let mut x = Layout::random(r);
            x.tail = r.below(3000);
            let mut t = Tiff::new(&x);
            let n = r.below(4000);
            let data = if r.bool() { vec![*r.pick(&[0u8, 0xff, 0x55, 1]); n] } else { r.bytes(n) };
            let d = t.blob(data);
            let dim = |r: &mut Rng| match r.below(4) {
                0 => *r.pick(&NASTY32),
                1 => r.range(1, 200) as u32,
                _ => *r.pick(&[22_000u32, 22_360, 65_535, 100_000, 199_999, 5_000, 2_500]),
            };
            let mut i = Ifd::new().ascii(0x10f, &cam.make).ascii(0x110, &cam.model);
            if r.chance(1, 4) {
                i.add(0xc612, Val::Byte(vec![1, 4, 0, 0]));
            }
            let (w, h) = (dim(r), dim(r));
            i.add(0x100, Val::Long(vec![w]));
            i.add(0x101, Val::Long(vec![h]));
            i.add(0x102, Val::Short(vec![*r.pick(&[8u16, 12, 14, 16, 0, 255])]));
            i.add(0x103, Val::Short(vec![*r.pick(&[1u16, 7, 99, 32767, 32770, 32772, 32773, 34713, 34892, 34925, 65000, 65535, 6, 1])]));
            i.add(0x106, Val::Short(vec![*r.pick(&[32803u16, 34892, 2])]));
            i.add(0x111, Val::OffsetTo(vec![(d, 0)]));
            i.add(0x115, Val::Short(vec![*r.pick(&[1u16, 3, 4])]));
            i.add(0x117, Val::Long(vec![*r.pick(&[n as u32, 0xffffffff, 0, w.wrapping_mul(h), w.wrapping_mul(h).wrapping_mul(2)])]));
            if r.bool() {
                let (tw, th) = (dim(r), dim(r));
                i.add(0x142, Val::Long(vec![tw]));
                i.add(0x143, Val::Long(vec![th]));
                i.add(0x144, Val::OffsetTo(vec![(d, 0); r.range(1, 5)]));
                i.add(0x145, Val::Long(vec![100]));
            }
            i.add(0xc640, Val::Short(vec![r.u16() >> r.below(14), r.u16() >> r.below(14), r.u16()]));
            i.add(0x828d, Val::Short(vec![2, 2]));
            i.add(0x828e, Val::Byte(vec![0, 1, 1, 2]));
            t.finish(&[i])
        }
    }
}

impl Maker {
    pub fn new(seed: u64) -> Maker {
        let fams = families();
        let cams = fams.iter().map(cams_of).collect();
        let mut light = Vec::new();
        for (i, f) in fams.iter().enumerate() {
            // the compressed ones are the most interesting
            let n = match f.cost {
                c if c >= 50 => 0,
                _ => 4,
            };
            light.extend(std::iter::repeat(i).take(n));
        }
        let mut sweepable = light.clone();
        sweepable.dedup();
        Maker { seed, fams, cams, pool: HashMap::new(), light, sweepable, plans: HashMap::new() }
    }

    fn base(&mut self, fam: usize, k: u64) -> Arc<Case> {
        if let Some(c) = self.pool.get(&(fam, k)) {
            return c.clone();
        }
        let f = &self.fams[fam];
        let cams = &self.cams[fam];
        let mut g = G::new(self.seed ^ 0x0100, f.name, k, cams[k as usize % cams.len()].clone());
        g.small = k % 3 != 0;
        g.sloppy = 0;
        let c = Arc::new((f.gen)(&mut g));
        self.pool.insert((fam, k), c.clone());
        c
    }

    /// The steps of the sweep of a family: first every tag that some file of it has, then
    /// every place of those files
    fn plan(&mut self, fam: usize) -> Arc<Vec<(u64, Place, usize)>> {
        if let Some(p) = self.plans.get(&fam) {
            return p.clone();
        }
        let mut tags = std::collections::HashSet::new();
        let (mut first, mut rest) = (Vec::new(), Vec::new());
        for k in (0..14).filter(|k| k % 3 != 0) {
            let c = self.base(fam, k);
            for p in places(&c.file) {
                let new = if p.2 { tags.insert((get16(&c.file, p.0, p.1), p.1)) } else { k == 1 };
                if new {
                    first.push((k, p));
                } else {
                    rest.push((k, p));
                }
            }
        }
        let mut v = Vec::new();
        for l in &[first, rest] {
            for op in 0..SWEEP_OPS {
                v.extend(l.iter().map(|&(k, p)| (k, p, op)));
            }
        }
        if v.is_empty() {
            v.push((1, (0, false, false), 0));
        }
        if std::env::var("MON_PLAN").is_ok() {
            eprintln!("{} {} {} {:?}", self.fams[fam].name, v.len(), tags.len(), tags.contains(&(0xc640, false)));
        }
        let v = Arc::new(v);
        self.plans.insert(fam, v.clone());
        v
    }

    /// Case number n: file content, kind
    pub fn make(&mut self, n: u64) -> (Vec<u8>, String) {
        let mut r = Rng::derive(self.seed, "hostile", n);
        // one in four goes through all entries of files of all kinds
        if n % 4 == 3 {
            let idx = (n / 4) as usize;
            let nf = self.sweepable.len();
            let fam = self.sweepable[idx % nf];
            let j = idx / nf;
            let plan = self.plan(fam);
            let (k, place, op) = plan[j % plan.len()];
            let c = self.base(fam, k);
            let mut b = c.file.clone();
            sweep(&mut b, place, op);
            return (b, format!("{} sweep", self.fams[fam].name));
        }
        let kind = r.below(100);
        if kind < 12 {
            return (structure(&mut r), "structure".to_string());
        }
        if kind < 14 {
            let l = r.below(600);
            let mut b = r.bytes(l);
            let s: &[&[u8]] = &[b"II*\0\x08\0\0\0", b"MM\0*\0\0\0\x08", b"FUJIFILMCCD-RAW ", b"\0MRM", b"ARRI", b"FOVb", b"IIRO\x08\0\0\0", b"IIU\0\x18\0\0\0", b"II\x1a\0\0\0HEAPCCDR", b"IIII"];
            let h = r.pick(s);
            let k = h.len().min(b.len());
            b[..k].copy_from_slice(&h[..k]);
            return (b, "random".to_string());
        }
        let (fam, k) = if kind == 14 && r.chance(1, 8) { (r.below(self.fams.len()), r.below(2) as u64) } else { (self.light[r.below(self.light.len())], r.below(40) as u64) };
        let c = self.base(fam, k);
        let o = {
            let f2 = self.light[r.below(self.light.len())];
            self.base(f2, r.clone().below(40) as u64)
        };
        let mut b = c.file.clone();
        if kind == 15 {
            return (b, format!("{} untouched", self.fams[fam].name));
        }
        let mut what = String::new();
        for _ in 0..[1, 1, 1, 2, 2, 4][r.below(6)] {
            what = mutate(&mut r, &mut b, &c, &o.file).to_string();
        }
        (b, format!("{} {}", self.fams[fam].name, what))
    }
}

// ---------------------------------------------------------------- the worker

pub enum Seen {
    Fine(String),
    /// 1: C01, 2: C02
    Bad(u8, String),
}

fn sane(img: &RawImage) -> Result<(), String> {
    let want = img.width.checked_mul(img.height).and_then(|x| x.checked_mul(img.cpp));
    if want != Some(img.data.len()) {
        return Err(format!("image of {}x{}x{} holds {} samples ({} {})", img.width, img.height, img.cpp, img.data.len(), img.make, img.model));
    }
    Ok(())
}

pub fn observe(res: Result<RawImage, String>, r: &mut Rng) -> Seen {
    let img = match res {
        Err(e) if e.contains("panic") => return Seen::Fine("contained".to_string()),
        Err(_) => return Seen::Fine("error".to_string()),
        Ok(i) => i,
    };
    if let Err(e) = sane(&img) {
        return Seen::Bad(2, e);
    }
    let n = img.data.len();
    if n > 3_000_000 {
        return Seen::Fine("image (large)".to_string());
    }
    let (w, h) = (img.width, img.height);
    let lims = [
        (0, 0),
        (1, 1),
        (*r.pick(&[w, w + 1, w.max(1) - 1, w / 2, w / 2 + 1, w / 3, 7]), *r.pick(&[h, h + 1, h.max(1) - 1, h / 2, h / 3, 5, 0])),
        (usize::max_value(), usize::max_value()),
        (usize::max_value(), 1),
        (0, r.range(1, 50)),
        (r.range(1, 50), 0),
        (1 << 33, (1 << 32) + 1),
    ];
    let some = if n > 300_000 { 2 } else { 3 };
    let mut rendered = 0;
    for k in 0..some {
        let (a, b) = if k == 0 { (0, 0) } else { *r.pick(&lims) };
        let which = r.below(3);
        let got: Result<Result<(usize, usize, usize), String>, String> = match which {
            0 => nopanic("to_srgb", || img.to_srgb(a, b).map(|o| (o.width, o.height, o.data.len()))),
            1 => nopanic("to_rgb", || img.to_rgb(a, b).map(|o| (o.width, o.height, o.data.len()))),
            _ => nopanic("to_linear_rgb", || img.to_linear_rgb(a, b).map(|o| (o.width, o.height, o.data.len()))),
        };
        match got {
            Err(e) => return Seen::Bad(1, format!("rendering {}x{}x{} ({} {}, crops {:?}, filter {:?}, {:?}) within {}x{}: {}", w, h, img.cpp, img.make, img.model, img.crops, img.cfa.name, img.orientation, a, b, e)),
            Ok(Err(_)) => {}
            Ok(Ok((x, y, l))) => {
                rendered += 1;
                if x == 0 || y == 0 || x * y * 3 != l {
                    return Seen::Bad(2, format!("rendering of {}x{}x{} within {}x{} is {}x{} with {} values", w, h, img.cpp, a, b, x, y, l));
                }
            }
        }
    }
    Seen::Fine(format!("image, {} renderings", rendered))
}

/// `mon hostile <seed> <dir> <first> <step> <end>`
pub fn worker(a: &[String], out: std::fs::File) {
    let n = |k: usize| a[k].parse::<u64>().unwrap();
    let (seed, dir, first, step, end) = (n(0), a[1].clone(), n(2), n(3), n(4));
    unsafe {
        // the address sanitizer needs address space (and has a limit of its own)
        if std::env::var("ASAN_OPTIONS").is_err() {
            setrlimit(9, &RLimit { cur: MEM, max: MEM });
        }
        setrlimit(4, &RLimit { cur: 0, max: 0 });
    }
    let mut out = out;
    // with the stack that threads have by default
    let t = std::thread::Builder::new().stack_size(2 << 20).spawn(move || {
        let mut m = Maker::new(seed);
        let mut i = first;
        while i < end {
            let (b, what) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| m.make(i))).unwrap_or((vec![], "harness".to_string()));
            let p = format!("{}/{}-{}", dir, i, std::process::id());
            let _ = std::fs::write(&p, &b);
            let _ = writeln!(out, "S {}", i);
            let res = nopanic("decode", || rawloader::decode(&p));
            let mut r = Rng::derive(seed, "observe", i);
            let seen = match res {
                Err(e) => Seen::Bad(1, e),
                Ok(x) => observe(x, &mut r),
            };
            let _ = std::fs::remove_file(&p);
            let h = hash(&b);
            let _ = match seen {
                Seen::Fine(s) => writeln!(out, "E {} {:x} 0 {}|{}", i, h, s, what),
                Seen::Bad(k, s) => writeln!(out, "E {} {:x} {} {}|{}", i, h, k, s.replace('\n', " ").replace('|', "/"), what),
            };
            i += step;
        }
        let _ = writeln!(out, "D");
    });
    let _ = t.unwrap().join();
}

// ---------------------------------------------------------------- the monitor

fn cpu_of(pid: u32) -> Option<f64> {
    let s = std::fs::read_to_string(format!("/proc/{}/stat", pid)).ok()?;
    let s = &s[s.rfind(')')? + 2..];
    let f: Vec<&str> = s.split(' ').collect();
    Some((f[11].parse::<f64>().ok()? + f[12].parse::<f64>().ok()?) / 100.0)
}

struct Run {
    seen: Vec<(u64, u64, u8, String)>,
    /// the case during which it ended and how
    died: Option<(u64, String)>,
}

fn run_worker(exe: &str, seed: u64, dir: &str, first: u64, step: u64, end: u64, factor: f64, deadline: Instant, rayon: usize) -> Result<Run, String> {
    let mut cmd = Command::new(exe);
    if exe.contains("/asan/") {
        cmd.env("ASAN_OPTIONS", "detect_leaks=0:hard_rss_limit_mb=6000:abort_on_error=1");
    } else {
        cmd.env_remove("ASAN_OPTIONS");
    }
    let mut ch = cmd
        .args(["hostile", &seed.to_string(), dir, &first.to_string(), &step.to_string(), &end.to_string()])
        .env("RAYON_NUM_THREADS", rayon.to_string())
        .env("RAYON_RS_NUM_CPUS", rayon.to_string())
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .map_err(|e| format!("cannot run {}: {}", exe, e))?;
    let pid = ch.id();
    let so = ch.stdout.take().unwrap();
    let current: Arc<Mutex<Option<(u64, Instant, f64)>>> = Arc::new(Mutex::new(None));
    let c2 = current.clone();
    let rd = std::thread::spawn(move || {
        let mut seen = Vec::new();
        let mut done = false;
        for l in BufReader::new(so).lines() {
            let l = match l {
                Ok(l) => l,
                Err(_) => break,
            };
            if l == "D" {
                done = true;
            } else if let Some(x) = l.strip_prefix("S ") {
                *c2.lock().unwrap() = Some((x.parse().unwrap_or(0), Instant::now(), -1.0));
            } else if let Some(x) = l.strip_prefix("E ") {
                *c2.lock().unwrap() = None;
                let p: Vec<&str> = x.splitn(4, ' ').collect();
                if p.len() == 4 {
                    seen.push((p[0].parse().unwrap_or(0), u64::from_str_radix(p[1], 16).unwrap_or(0), p[2].parse().unwrap_or(0), p[3].to_string()));
                }
            }
        }
        (seen, done)
    });
    let mut killed = None;
    let mut late = false;
    let status = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break format!("{}", s),
            Ok(None) => {}
            Err(e) => return Err(e.to_string()),
        }
        std::thread::sleep(Duration::from_millis(10));
        let cur = current.lock().unwrap().clone();
        if let Some((i, t, c0)) = cur {
            let wall = t.elapsed().as_secs_f64();
            if wall > 2.0 {
                let c = cpu_of(pid).unwrap_or(0.0);
                if c0 < 0.0 {
                    let mut g = current.lock().unwrap();
                    if let Some(x) = g.as_mut() {
                        if x.0 == i {
                            x.2 = c - 2.0;
                        }
                    }
                } else if c - c0 > CPU_S * factor {
                    killed = Some(format!("used more than {} s of processor time", CPU_S * factor));
                } else if wall > WALL_S * factor && c - c0 < wall / 20.0 {
                    killed = Some(format!("made no progress in {} s", WALL_S * factor));
                }
            }
        }
        if Instant::now() > deadline && killed.is_none() {
            late = true;
        }
        if killed.is_some() || late {
            let _ = ch.kill();
            let _ = ch.wait();
            break killed.clone().unwrap_or_default();
        }
    };
    let (seen, done) = rd.join().map_err(|_| "reader".to_string())?;
    let cur = current.lock().unwrap().clone();
    let died = match cur {
        Some((i, _, _)) if !done && !late => Some((i, status)),
        _ => None,
    };
    Ok(Run { seen, died })
}

pub struct Total {
    pub outcomes: Mutex<HashMap<String, u64>>,
    pub restarts: AtomicU64,
}

/// Run the hostile cases of both builds and report those that break property `which`.
pub fn check(cfg: &Cfg, which: u8, dir: &Scratch, total: &Total) -> Outcome {
    let dev = std::env::current_exe().unwrap().to_str().unwrap().to_string();
    let rel = std::env::var("MON_RELEASE").unwrap_or(dev.replace("/debug/", "/release/"));
    let asan = std::env::var("MON_ASAN").unwrap_or(format!("{}/target/asan/x86_64-unknown-linux-gnu/release/mon", cfg.root));
    let n = cfg.n(if which == 1 { 140_000 } else { 90_000 });
    let seed = cfg.seed.wrapping_mul(4) + which as u64;
    let out = Mutex::new(Outcome::new());
    let deadline = Instant::now() + Duration::from_secs_f64(cfg.cap_s);
    // name, program, workers, cases
    let mut builds: Vec<(&str, String, u64, u64)> = vec![("checked", dev, 4, n), ("release", rel, 3, n)];
    if which == 1 {
        builds.push(("asan", asan, 2, n / 5));
    }
    let handle = |build: &str, exe: &str, run: Run, again: bool| -> Option<u64> {
        let mut next = None;
        {
            let mut o = out.lock().unwrap();
            let mut tt = total.outcomes.lock().unwrap();
            for (i, h, code, what) in run.seen {
                o.evals += 1;
                let name = format!("hostile-{}", build);
                let p = o.per.entry(name.clone()).or_insert((0, 0));
                p.0 += 1;
                p.1 += 1;
                if o.distinct.insert(h) && o.samples.len() < 12 && i % 97 == 0 {
                    o.samples.push(format!("{}:{} {}", name, i, what));
                }
                let key = if code == 0 { what.split('|').next().unwrap_or("").to_string() } else { format!("broken {}", code) };
                *tt.entry(format!("{}: {}", build, key)).or_insert(0) += 1;
                if code == which {
                    let mut m = Maker::new(seed);
                    let (b, w) = m.make(i);
                    o.broken.push((name, i, format!("{}: {} ({} build)", w, what.split('|').next().unwrap_or(""), build), Some(b)));
                }
            }
        }
        if let Some((i, how)) = run.died {
            total.restarts.fetch_add(1, Ordering::SeqCst);
            next = Some(i);
            if which == 1 && !again {
                // alone, with more time: is it really this file?
                let r2 = run_worker(exe, seed, &dir.0, i, 1, i + 1, 2.0, Instant::now() + Duration::from_secs(400), 2);
                let mut o = out.lock().unwrap();
                let name = format!("hostile-{}", build);
                o.evals += 1;
                match r2 {
                    Ok(Run { died: Some((_, how2)), .. }) => {
                        let (b, w) = Maker::new(seed).make(i);
                        o.broken.push((name, i, format!("{}: the process ended or had to be killed while decoding: {} ({} build; at first {})", w, how2, build, how), Some(b)));
                    }
                    Ok(_) => o.unclear.push(format!("{}:{} {} but not when run again", name, i, how)),
                    Err(e) => o.unclear.push(format!("{}:{} {}: {}", name, i, how, e)),
                }
            }
        }
        next
    };
    if let Some((s, i)) = &cfg.only {
        for (b, exe, _, _) in &builds {
            if s == &format!("hostile-{}", b) {
                match run_worker(exe, seed, &dir.0, *i, 1, *i + 1, 2.0, deadline, 2) {
                    Ok(mut r) => {
                        if let Some((_, how)) = r.died.take() {
                            let (f, w) = Maker::new(seed).make(*i);
                            if which == 1 {
                                out.lock().unwrap().broken.push((s.clone(), *i, format!("{}: the process ended or had to be killed while decoding: {}", w, how), Some(f)));
                            }
                        }
                        handle(b, exe, r, true);
                    }
                    Err(e) => out.lock().unwrap().unclear.push(e),
                }
            }
        }
        return out.into_inner().unwrap();
    }
    let enough = || out.lock().unwrap().broken.len() >= cfg.stop.min(6);
    std::thread::scope(|sc| {
        for (b, exe, per, n) in &builds {
            let (per, n) = (*per, *n);
            for k in 0..per {
                let (handle, out, enough) = (&handle, &out, &enough);
                sc.spawn(move || {
                    let mut first = k;
                    while first < n && !enough() && Instant::now() < deadline {
                        // worker processes of moderate life, so that memory is given back
                        let end = n.min(first + per * 3000);
                        match run_worker(exe, seed, &dir.0, first, per, end, 1.0, deadline, 2) {
                            Err(e) => {
                                out.lock().unwrap().unclear.push(e);
                                return;
                            }
                            Ok(r) => match handle(b, exe, r, false) {
                                Some(i) => first = i + per,
                                None => {
                                    first = end + (per - (end - k) % per) % per;
                                }
                            },
                        }
                    }
                });
            }
        }
    });
    let mut o = out.into_inner().unwrap();
    o.capped = Instant::now() >= deadline;
    o.broken.sort_by(|a, b| (&a.0, a.1).cmp(&(&b.0, b.1)));
    o
}

// ---------------------------------------------------------------- I/O failures

struct Failing<'a> {
    data: &'a [u8],
    pos: usize,
    fail: usize,
    kind: std::io::ErrorKind,
}
impl<'a> Read for Failing<'a> {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let left = self.fail.min(self.data.len()) - self.pos;
        if left == 0 {
            return Err(std::io::Error::new(self.kind, "injected"));
        }
        let n = left.min(buf.len()).min(100);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}

/// Failing opens and reads: an error, and nothing else
pub fn io_streams<'a>(cfg: &'a Cfg, dir: &'a Scratch) -> Vec<Stream<'a>> {
    use std::io::ErrorKind::*;
    let seed = cfg.seed;
    let mut v = Vec::new();
    let is_err = |what: String, r: Result<Result<RawImage, String>, String>| match r {
        Err(e) => Verdict::Broken(format!("{}: {}", what, e), None),
        Ok(Ok(i)) => Verdict::Broken(format!("{}: decoded as {} {}", what, i.make, i.model), None),
        Ok(Err(_)) => Verdict::Held(hash(what.as_bytes()), true, what),
    };
    v.push(stream("open", 14, move |i| {
        let d = &dir.0;
        let p = match i {
            0 => format!("{}/missing", d),
            1 => d.clone(),
            2 => "".to_string(),
            3 => format!("{}/a\0b", d),
            4 => "/proc/self/mem".to_string(),
            5 => format!("{}/missing/deeper", d),
            6 => "x".repeat(5000),
            7 => format!("{}/{}", d, "x".repeat(300)),
            8 => {
                let l = format!("{}/loop", d);
                let _ = std::os::unix::fs::symlink(&l, &l);
                l
            }
            9 => {
                let l = format!("{}/empty", d);
                let _ = std::fs::write(&l, b"");
                l
            }
            10 => "/dev/null".to_string(),
            11 => "/".to_string(),
            12 => {
                let l = format!("{}/file", d);
                let _ = std::fs::write(&l, b"x");
                l + "/below"
            }
            _ => "\u{0}".to_string(),
        };
        is_err(format!("open {:?}", p.chars().take(60).collect::<String>()), nopanic("decode", || rawloader::decode(&p)))
    }));
    v.push(stream("read", cfg.n(1500), move |i| {
        let mut r = Rng::derive(seed, "read", i);
        let fams: Vec<Family> = families().into_iter().filter(|f| f.cost < 50).collect();
        let f = r.pick(&fams);
        let cams = cams_of(f);
        let mut g = G::new(seed ^ 0x0101, f.name, i, r.pick(&cams).clone());
        g.small = true;
        let c = (f.gen)(&mut g);
        let kind = *r.pick(&[Other, UnexpectedEof, TimedOut, ConnectionReset, PermissionDenied, InvalidData, OutOfMemory, WouldBlock]);
        // also after everything has been delivered
        let fail = if r.chance(1, 4) { c.file.len() } else { r.below(c.file.len() + 1) };
        let mut rd = Failing { data: &c.file, pos: 0, fail, kind };
        is_err(format!("{} with {:?} after {} bytes", f.name, kind, fail), nopanic("decode", std::panic::AssertUnwindSafe(|| loader().decode(&mut rd))))
    }));
    v
}

/// Judge for valid files: sizes of the image and of some renderings
pub fn sizes(c: &Case, img: &RawImage) -> Result<(), String> {
    sane(img)?;
    let mut r = Rng::new(hash(&c.file));
    match observe(Ok(img.clone()), &mut r) {
        Seen::Fine(_) => Ok(()),
        Seen::Bad(2, e) => Err(e),
        // C01 reports those
        Seen::Bad(_, _) => Ok(()),
    }
}

const VARIANTS: usize = 10;

/// Valid files whose declared size is then changed a little: every place that holds the width or the
/// height, for cameras of every kind.
pub fn declared_streams<'a>(cfg: &'a Cfg) -> Vec<Stream<'a>> {
    let mut v = Vec::new();
    for f in crate::files::families() {
        if f.name == "naked" {
            continue;
        }
        // one camera of each kind
        let mut kinds = std::collections::HashSet::new();
        let cams: Vec<_> = crate::files::cams_of(&f)
            .into_iter()
            .filter(|c| {
                let mut h = c.hints.clone();
                h.sort();
                kinds.insert((h, c.pattern.len(), c.blackareah.1 > 0, c.blackareav.1 > 0, c.bps, c.crops.map(|x| x % 2)))
            })
            .collect();
        let n = (cfg.n(400) / f.cost as u64).max(2 * cams.len() as u64);
        let seed = cfg.seed;
        v.push(stream(&format!("declared-{}", f.name), n, move |i| {
            let mut r = Rng::derive(seed, "declared", i);
            let mut g = crate::files::make_g(seed ^ 0x202, &f, &cams, i);
            g.big = false;
            let c = (f.gen)(&mut g);
            let mut vals: Vec<usize> = vec![c.width, c.height, c.width * c.cpp];
            for d in &g.drawn {
                vals.extend(&[d.0, d.1]);
            }
            vals.retain(|&x| x > 5 && x < 65536);
            let n = c.file.len().min(100_000);
            let mut hits = Vec::new();
            for p in 0..n - 4 {
                for &big in &[false, true] {
                    if vals.contains(&(get16(&c.file, p, big) as usize)) {
                        hits.push((p, big));
                    }
                }
            }
            if hits.is_empty() {
                return Verdict::Held(0, false, String::new());
            }
            let mut h = 0;
            let mut all = 0;
            for k in 0..VARIANTS {
                let mut b = c.file.clone();
                for _ in 0..r.range(1, 2) {
                    let (p, big) = *r.pick(&hits);
                    let o = get16(&b, p, big);
                    let x = match r.below(6) {
                        0 => o.saturating_sub(1),
                        1 => o.saturating_add(1),
                        2 => o / 2,
                        3 => o.saturating_sub(r.range(1, 9) as u16),
                        4 => o.saturating_add(r.range(1, 9) as u16),
                        _ => r.range(1, o as usize + 1) as u16,
                    };
                    put16(&mut b, p, big, x);
                }
                let res = crate::case::decode(&b);
                all += res.is_ok() as usize;
                h ^= hash(&b);
                // rendering costs more than decoding
                let seen = match res {
                    Ok(ref img) if k > 0 => sane(img).err(),
                    res => match observe(res, &mut r) {
                        Seen::Bad(2, e) => Some(e),
                        _ => None,
                    },
                };
                if let Some(e) = seen {
                    return Verdict::Broken(format!("{} with another declared size: {}", c.desc, e), Some(b));
                }
            }
            Verdict::Held(h, all > 0, format!("{}: {} of {} with another declared size decoded", c.desc, all, VARIANTS))
        }));
    }
    v.extend(photographs(cfg, 2));
    v
}

/// Renderings of more pixels than single precision numbers can count
pub fn photographs<'a>(cfg: &'a Cfg, level: usize) -> Vec<Stream<'a>> {
    let mut v = Vec::new();
    let seed = cfg.seed;
    v.push(stream("photograph", cfg.n(9), move |i| {
        let mut r = Rng::derive(seed, "photograph", i);
        let mut p = crate::render::large(&mut r);
        // an odd number of pixels
        let (w, h) = (r.range(4100, 5200) / 4 * 4 + 1, r.range(4100, 4600) / 4 * 4 + 1 + 2 * r.below(2));
        let (cw, ch) = (w + p.img.crops[1] + p.img.crops[3], h + p.img.crops[0] + p.img.crops[2]);
        p.img.width = cw;
        p.img.height = ch;
        p.img.data = (0..cw * ch * p.img.cpp).map(|k| (k * 7919 >> 3) as u16).collect();
        if i % 2 == 0 {
            p.img.cfa = rawloader::CFA::new("");
        }
        if r.chance(1, 2) {
            p.img.orientation = *r.pick(&crate::render::ORIENTATIONS);
        }
        let (mw, mh) = if i % 3 == 2 { (w.max(h) - 1, w.max(h) - 1) } else { (0, 0) };
        let got = match i % 3 {
            0 => nopanic("to_srgb", || p.img.to_srgb(mw, mh).map(|o| (o.width, o.height, o.data.len()))),
            1 => nopanic("to_rgb", || p.img.to_rgb(mw, mh).map(|o| (o.width, o.height, o.data.len()))),
            _ => nopanic("to_linear_rgb", || p.img.to_linear_rgb(mw, mh).map(|o| (o.width, o.height, o.data.len()))),
        };
        match got {
            Ok(Ok((x, y, l))) if x > 0 && y > 0 && x * y * 3 == l => Verdict::Held(hash(p.desc.as_bytes()), true, format!("{}x{} rendered", x, y)),
            Ok(Ok(_)) if level == 1 => Verdict::Held(hash(p.desc.as_bytes()), true, "rendered with another size".to_string()),
            Ok(Ok((x, y, l))) => Verdict::Broken(format!("rendering of {}x{} is {}x{} with {} values", cw, ch, x, y, l), None),
            e if level == 1 => Verdict::Broken(format!("rendering of {}x{}: {:?}", cw, ch, e), None),
            // C01 reports those
            e => Verdict::Held(0, false, format!("{:?}", e)),
        }
    }));
    v
}
