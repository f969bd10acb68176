//! A small TIFF "linker": directories, values and data blocks are chunks that get placed in
//! any order with any padding, and offsets between them are fixed up afterwards.
use crate::rng::Rng;

pub type Id = usize;

#[derive(Clone, Debug)]
pub enum Val {
    Byte(Vec<u8>),
    Ascii(String),
    Short(Vec<u16>),
    Long(Vec<u32>),
    SLong(Vec<i32>),
    Rational(Vec<(u32, u32)>),
    SRational(Vec<(i32, i32)>),
    Undef(Vec<u8>),
    /// any type code with raw bytes (already in the right byte order) and an explicit count
    Raw(u16, u32, Vec<u8>),
    /// sub directories (LONG offsets)
    Ifds(Vec<Ifd>),
    /// sub directories with the IFD type (13)
    Ifds13(Vec<Ifd>),
    /// LONG offset(s) of other chunks, plus an addend
    OffsetTo(Vec<(Id, i64)>),
    /// makernote inline in the file with absolute offsets: prefix bytes then the directory
    Maker { prefix: Vec<u8>, ifd: Ifd, big: bool },
    /// data stored right after the directory, with its offset relative to the directory start
    RelIfd(u16, u32, Vec<u8>),
}

#[derive(Clone, Debug, Default)]
pub struct Ifd {
    pub e: Vec<(u16, Val)>,
}

impl Ifd {
    pub fn new() -> Ifd {
        Ifd { e: Vec::new() }
    }
    pub fn add(&mut self, tag: u16, v: Val) -> &mut Ifd {
        self.e.push((tag, v));
        self
    }
    pub fn with(mut self, tag: u16, v: Val) -> Ifd {
        self.e.push((tag, v));
        self
    }
    pub fn short(self, tag: u16, v: u16) -> Ifd {
        self.with(tag, Val::Short(vec![v]))
    }
    pub fn long(self, tag: u16, v: u32) -> Ifd {
        self.with(tag, Val::Long(vec![v]))
    }
    pub fn ascii(self, tag: u16, s: &str) -> Ifd {
        self.with(tag, Val::Ascii(s.to_string()))
    }
}

#[derive(Clone, Debug)]
struct Fixup {
    at: usize,
    target: Id,
    addend: i64,
}

#[derive(Clone, Debug)]
struct Chunk {
    data: Vec<u8>,
    fixups: Vec<Fixup>,
    big: bool,
    pos: Option<usize>,
    align: usize,
    le_fixups: bool,
}

/// How to lay out a container. `plain` is the most ordinary layout.
#[derive(Clone, Debug)]
pub struct Layout {
    pub big: bool,
    pub shuffle: bool,
    pub pad: bool,
    pub unknown: bool,
    pub tail: usize,
    /// unused bytes somewhere between the blocks
    pub gap: usize,
    /// thousands of unknown tags now and then
    pub many: bool,
    /// the largest block at the end, so that a file cut short still has its directories
    pub last: bool,
    pub seed: u64,
}

impl Layout {
    pub fn plain(big: bool) -> Layout {
        Layout { big, shuffle: false, pad: false, unknown: false, tail: 0, gap: 0, many: false, last: false, seed: 1 }
    }
    pub fn random(rng: &mut Rng) -> Layout {
        Layout {
            big: rng.bool(),
            shuffle: rng.chance(3, 4),
            pad: rng.chance(3, 4),
            unknown: rng.chance(3, 4),
            tail: if rng.bool() { rng.below(300) } else { 0 },
            gap: 0,
            many: true,
            last: rng.chance(1, 6),
            seed: rng.next(),
        }
    }
    pub fn le(mut self) -> Layout {
        self.big = false;
        self
    }
    pub fn be(mut self) -> Layout {
        self.big = true;
        self
    }
}

pub struct Tiff {
    chunks: Vec<Chunk>,
    pub lay: Layout,
    rng: Rng,
    /// what the file has to end with
    final_chunk: Option<Id>,
    /// offsets written to the file are relative to this (normally 0)
    pub base: usize,
}

pub fn p16(big: bool, v: u16) -> [u8; 2] {
    if big {
        v.to_be_bytes()
    } else {
        v.to_le_bytes()
    }
}
pub fn p32(big: bool, v: u32) -> [u8; 4] {
    if big {
        v.to_be_bytes()
    } else {
        v.to_le_bytes()
    }
}

/// Tags no decoder knows about.
const UNKNOWN: [u16; 10] = [0x00ff, 0x0107, 0x0128, 0x013b, 0x0211, 0x8298, 0x9999, 0xa217, 0xc7ff, 0xfdfd];

impl Tiff {
    pub fn new(lay: &Layout) -> Tiff {
        Tiff { chunks: Vec::new(), rng: Rng::new(lay.seed), final_chunk: None, lay: lay.clone(), base: 0 }
    }

    pub fn big(&self) -> bool {
        self.lay.big
    }

    /// A block of raw data.
    pub fn blob(&mut self, data: Vec<u8>) -> Id {
        let big = self.lay.big;
        self.chunks.push(Chunk { data, fixups: vec![], big, pos: None, align: 2, le_fixups: false });
        self.chunks.len() - 1
    }

    /// A block of raw data whose offsets are always little endian.
    pub fn blob_le(&mut self, data: Vec<u8>) -> Id {
        let id = self.blob(data);
        self.chunks[id].le_fixups = true;
        id
    }

    /// The block of raw data that everything else comes before
    pub fn blob_last(&mut self, data: Vec<u8>) -> Id {
        let id = self.blob(data);
        self.final_chunk = Some(id);
        id
    }

    /// A block of raw data at a fixed position in the file.
    pub fn blob_at(&mut self, data: Vec<u8>, pos: usize) -> Id {
        let id = self.blob(data);
        self.chunks[id].pos = Some(pos);
        id
    }

    pub fn reloc(&mut self, chunk: Id, at: usize, target: Id, addend: i64) {
        self.chunks[chunk].fixups.push(Fixup { at, target, addend });
    }

    /// A directory as a chunk of its own (not linked from anywhere).
    pub fn ifd_chunk(&mut self, ifd: &Ifd, big: bool) -> Id {
        self.build_ifd(ifd, &[], big, None)
    }

    pub fn set_pos(&mut self, id: Id, pos: usize) {
        self.chunks[id].pos = Some(pos);
    }

    fn build_ifd(&mut self, ifd: &Ifd, prefix: &[u8], big: bool, next: Option<Id>) -> Id {
        // Reserve the id first so that the directory precedes its values in plain layouts
        self.chunks.push(Chunk { data: vec![], fixups: vec![], big, pos: None, align: 2, le_fixups: false });
        let id = self.chunks.len() - 1;

        let mut entries: Vec<(u16, Val)> = ifd.e.clone();
        if self.lay.unknown {
            // makernotes of some cameras have hundreds of entries
            let n = match self.rng.below(24) {
                0 if self.lay.many && self.rng.chance(1, 16) => self.rng.range(120, 3900),
                0 => self.rng.range(20, 120),
                1 => self.rng.range(4, 30),
                _ => self.rng.below(4),
            };
            let mut have: std::collections::HashSet<u16> = entries.iter().map(|e| e.0).collect();
            for _ in 0..n {
                let t = if n > 4 { self.rng.range(0xd000, 0xefff) as u16 } else { *self.rng.pick(&UNKNOWN) };
                if !have.insert(t) {
                    continue;
                }
                let len = self.rng.below(9);
                let v = match self.rng.below(4) {
                    0 => Val::Undef(self.rng.bytes(len + 1)),
                    1 => Val::Short(vec![self.rng.u16(); len + 1]),
                    2 => Val::Long(vec![self.rng.u32(); len + 1]),
                    _ => {
                        let (typ, size) = *self.rng.pick(&[(2u16, 1usize), (6, 1), (8, 2), (9, 4), (10, 8), (11, 4), (12, 8), (13, 4)]);
                        Val::Raw(typ, len as u32 + 1, self.rng.bytes((len + 1) * size))
                    }
                };
                entries.push((t, v));
            }
            // sub directories that have nothing to do with the raw image
            for (t, v) in entries.iter_mut() {
                if *t != 0x14a || !self.rng.chance(1, 4) {
                    continue;
                }
                if let Val::Ifds(subs) | Val::Ifds13(subs) = v {
                    for _ in 0..self.rng.range(1, 4) {
                        let k = self.rng.below(subs.len() + 1);
                        subs.insert(k, Ifd::new());
                    }
                }
            }
        }
        entries.sort_by_key(|e| e.0);

        let mut data = prefix.to_vec();
        let mut fixups = Vec::new();
        data.extend(&p16(big, entries.len() as u16));
        let ifdlen = prefix.len() + 2 + entries.len() * 12 + 4;
        let mut tail: Vec<u8> = Vec::new();
        for (tag, val) in &entries {
            let mut put = |typ: u16, count: u32, bytes: Vec<u8>, w: &mut Tiff, data: &mut Vec<u8>, fixups: &mut Vec<Fixup>, fx: Vec<Fixup>| {
                data.extend(&p16(big, *tag));
                data.extend(&p16(big, typ));
                data.extend(&p32(big, count));
                if bytes.len() <= 4 {
                    let at = data.len();
                    for f in fx {
                        fixups.push(Fixup { at: at + f.at, ..f });
                    }
                    let mut b = bytes;
                    b.resize(4, 0);
                    data.extend(&b);
                } else {
                    w.chunks.push(Chunk { data: bytes, fixups: fx, big, pos: None, align: 2, le_fixups: false });
                    let vid = w.chunks.len() - 1;
                    fixups.push(Fixup { at: data.len(), target: vid, addend: 0 });
                    data.extend(&[0; 4]);
                }
            };
            match val {
                Val::Byte(v) => put(1, v.len() as u32, v.clone(), self, &mut data, &mut fixups, vec![]),
                Val::Ascii(s) => {
                    let mut b = s.clone().into_bytes();
                    b.push(0);
                    put(2, b.len() as u32, b, self, &mut data, &mut fixups, vec![])
                }
                Val::Short(v) => {
                    let b: Vec<u8> = v.iter().flat_map(|&x| p16(big, x)).collect();
                    put(3, v.len() as u32, b, self, &mut data, &mut fixups, vec![])
                }
                Val::Long(v) => {
                    let b: Vec<u8> = v.iter().flat_map(|&x| p32(big, x)).collect();
                    put(4, v.len() as u32, b, self, &mut data, &mut fixups, vec![])
                }
                Val::SLong(v) => {
                    let b: Vec<u8> = v.iter().flat_map(|&x| p32(big, x as u32)).collect();
                    put(9, v.len() as u32, b, self, &mut data, &mut fixups, vec![])
                }
                Val::Rational(v) => {
                    let b: Vec<u8> = v.iter().flat_map(|&(x, y)| [p32(big, x), p32(big, y)].concat()).collect();
                    put(5, v.len() as u32, b, self, &mut data, &mut fixups, vec![])
                }
                Val::SRational(v) => {
                    let b: Vec<u8> = v.iter().flat_map(|&(x, y)| [p32(big, x as u32), p32(big, y as u32)].concat()).collect();
                    put(10, v.len() as u32, b, self, &mut data, &mut fixups, vec![])
                }
                Val::Undef(v) => put(7, v.len() as u32, v.clone(), self, &mut data, &mut fixups, vec![]),
                Val::Raw(typ, count, v) => put(*typ, *count, v.clone(), self, &mut data, &mut fixups, vec![]),
                Val::Ifds(subs) | Val::Ifds13(subs) => {
                    let mut fx = Vec::new();
                    for (i, s) in subs.iter().enumerate() {
                        let sid = self.build_ifd(s, &[], big, None);
                        fx.push(Fixup { at: i * 4, target: sid, addend: 0 });
                    }
                    let typ = if matches!(val, Val::Ifds13(_)) || (*tag == 0x14a && self.lay.seed % 8 == 0) { 13 } else { 4 };
                    put(typ, subs.len() as u32, vec![0; subs.len() * 4], self, &mut data, &mut fixups, fx)
                }
                Val::OffsetTo(t) => {
                    let fx = t.iter().enumerate().map(|(i, &(id, add))| Fixup { at: i * 4, target: id, addend: add }).collect();
                    put(4, t.len() as u32, vec![0; t.len() * 4], self, &mut data, &mut fixups, fx)
                }
                Val::Maker { prefix, ifd, big: mbig } => {
                    let sid = self.build_ifd(ifd, prefix, *mbig, None);
                    let len = self.chunks[sid].data.len().max(5) as u32;
                    data.extend(&p16(big, *tag));
                    data.extend(&p16(big, 7));
                    data.extend(&p32(big, len));
                    fixups.push(Fixup { at: data.len(), target: sid, addend: 0 });
                    data.extend(&[0; 4]);
                }
                Val::RelIfd(typ, count, bytes) => {
                    assert!(bytes.len() > 4);
                    data.extend(&p16(big, *tag));
                    data.extend(&p16(big, *typ));
                    data.extend(&p32(big, *count));
                    data.extend(&p32(big, (ifdlen + tail.len() - prefix.len()) as u32));
                    tail.extend(bytes);
                    if tail.len() % 2 == 1 {
                        tail.push(0);
                    }
                }
            }
        }
        if let Some(n) = next {
            fixups.push(Fixup { at: data.len(), target: n, addend: 0 });
        }
        data.extend(&[0; 4]);
        data.extend(&tail);
        self.chunks[id].data = data;
        self.chunks[id].fixups = fixups;
        id
    }

    /// Place everything (header first) and return the file.
    pub fn finish(self, chain: &[Ifd]) -> Vec<u8> {
        let big = self.lay.big;
        let mut h = if big { b"MM\0*".to_vec() } else { b"II*\0".to_vec() };
        h.extend(&[0; 4]);
        self.finish_with_header(h, 4, chain)
    }

    /// `header` is placed at 0 and the offset of the first directory stored at `ptr` in it.
    pub fn finish_with_header(mut self, header: Vec<u8>, ptr: usize, chain: &[Ifd]) -> Vec<u8> {
        let big = self.lay.big;
        let hdr = {
            self.chunks.push(Chunk { data: header, fixups: vec![], big, pos: Some(0), align: 1, le_fixups: false });
            self.chunks.len() - 1
        };
        let mut next = None;
        if self.lay.unknown && !chain.is_empty() && self.rng.chance(1, 8) {
            // directories after those that matter
            for _ in 0..if self.rng.chance(1, 8) { self.rng.range(3, 60) } else { self.rng.range(1, 3) } {
                next = Some(self.build_ifd(&Ifd::new(), &[], big, next));
            }
        }
        for ifd in chain.iter().rev() {
            next = Some(self.build_ifd(ifd, &[], big, next));
        }
        if self.lay.unknown && self.lay.many && !chain.is_empty() && self.rng.chance(1, 32) {
            // directories before those that matter
            for _ in 0..self.rng.range(1, 36) {
                next = Some(self.build_ifd(&Ifd::new(), &[], big, next));
            }
        }
        if let Some(n) = next {
            self.reloc(hdr, ptr, n, 0);
        }
        self.link()
    }

    /// Assign positions and apply the fixups.
    pub fn link(mut self) -> Vec<u8> {
        let mut fixed: Vec<(usize, usize)> = Vec::new(); // occupied ranges
        for c in &self.chunks {
            if let Some(p) = c.pos {
                fixed.push((p, p + c.data.len()));
            }
        }
        fixed.sort();
        let mut order: Vec<usize> = (0..self.chunks.len()).filter(|&i| self.chunks[i].pos.is_none()).collect();
        // plain layout: directories (created last) after data is fine for a TIFF
        if self.lay.shuffle {
            self.rng.shuffle(&mut order);
        }
        if self.lay.last {
            if let Some(k) = (0..order.len()).max_by_key(|&k| self.chunks[order[k]].data.len()) {
                let big = order.remove(k);
                order.push(big);
            }
        }
        if let Some(id) = self.final_chunk {
            order.retain(|&i| i != id);
            order.push(id);
        }
        let mut cur = fixed.first().map(|f| if f.0 == 0 { f.1 } else { 0 }).unwrap_or(0);
        let far = if self.lay.gap > 0 && !order.is_empty() { self.rng.below(order.len()) } else { order.len() };
        for (k, i) in order.into_iter().enumerate() {
            if self.lay.pad {
                cur += self.rng.below(40);
            }
            if k == far {
                cur += self.lay.gap;
            }
            let a = self.chunks[i].align;
            let len = self.chunks[i].data.len();
            loop {
                cur = (cur + a - 1) / a * a;
                match fixed.iter().find(|f| cur < f.1 && cur + len > f.0) {
                    Some(f) => cur = f.1,
                    None => break,
                }
            }
            self.chunks[i].pos = Some(cur);
            cur += len;
        }
        let end = self.chunks.iter().map(|c| c.pos.unwrap() + c.data.len()).max().unwrap_or(0);
        let mut out = if self.lay.pad && self.lay.gap == 0 { self.rng.bytes(end + self.lay.tail) } else { vec![0; end + self.lay.tail] };
        for c in &self.chunks {
            let p = c.pos.unwrap();
            let mut d = c.data.clone();
            for f in &c.fixups {
                let v = self.chunks[f.target].pos.unwrap() as i64 + f.addend - self.base as i64;
                let b = if c.le_fixups { p32(false, v as u32) } else { p32(c.big, v as u32) };
                d[f.at..f.at + 4].copy_from_slice(&b);
            }
            out[p..p + d.len()].copy_from_slice(&d);
        }
        out
    }
}
