//! C13: the same result whatever the threads, the company, the history and the reader.
use crate::case::*;
use crate::files::*;
use crate::recog::{decode_reader, Chunky, Scratch};
use crate::report::*;
use crate::rng::Rng;
use rawloader::RawImage;
use std::collections::HashMap;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};

/// Corpus entries of each family
const PER: u64 = 24;

pub fn corpus_size() -> u64 {
    families().len() as u64 * PER
}

/// File number `idx`: for each family a few cameras, several contents of the same size for
/// each, some larger ones, some damaged ones.
pub fn corpus_file(seed: u64, idx: u64) -> (String, Vec<u8>) {
    let f = &families()[(idx / PER) as usize];
    let k = idx % PER;
    if f.cost >= 50 && k >= 2 {
        return (format!("{} (none)", f.name), vec![]);
    }
    let mut cams = cams_of(f);
    let mut r = Rng::derive(seed, "corpus", idx / PER);
    r.shuffle(&mut cams);
    let cam = cams[(k as usize / 4) % cams.len()].clone();
    let mut g = G::new(seed ^ 0x1300, f.name, idx, cam);
    g.small = k < 16;
    g.big = k >= 21 || (k == 3 && f.cost < 4);
    g.lay.last |= k % 4 == 2;
    let c = (f.gen)(&mut g);
    let mut file = c.file;
    if k % 8 == 6 {
        // damaged: some of it is missing, often only some of the image data
        let n = file.len() * (if k < 8 { r.range(1, 9) * 10 } else { Rng::derive(seed, "missing", idx).range(40, 98) }) / 100;
        file.truncate(n);
    }
    (format!("{} of {} {}", k, f.name, c.desc), file)
}

fn hu16(h: &mut u64, v: &[u16]) {
    for c in v.chunks(4) {
        let mut x = 0u64;
        for &e in c {
            x = x << 16 | e as u64;
        }
        *h = (*h ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        *h ^= *h >> 29;
    }
}
fn hf32(h: &mut u64, v: &[f32]) {
    for &e in v {
        let b = if e.is_nan() { 0x7fc0_0000 } else { e.to_bits() };
        *h = (*h ^ b as u64).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        *h ^= *h >> 29;
    }
}

pub fn image_digest(img: &RawImage) -> u64 {
    let mut h = hash(
        format!(
            "{:?}",
            (&img.make, &img.model, &img.clean_make, &img.clean_model, img.width, img.height, img.cpp, img.whitelevels, img.blacklevels, img.crops, img.orientation)
        )
        .as_bytes(),
    );
    hf32(&mut h, &img.wb_coeffs);
    for r in &img.xyz_to_cam {
        hf32(&mut h, r);
    }
    for r in 0..12 {
        for c in 0..12 {
            h = h.wrapping_mul(31) ^ if img.cfa.is_valid() { img.cfa.color_at(r, c) as u64 } else { 9 };
        }
    }
    hu16(&mut h, &img.data);
    h
}

/// Digest of the image and of its renderings; Err if rendering panics or modifies the image.
pub fn full_digest(res: &Result<RawImage, String>) -> Result<(u64, u64), String> {
    let img = match res {
        Err(_) => return Ok((1, 1)),
        Ok(i) => i,
    };
    let d = image_digest(img);
    let mut h = 7u64;
    let n = img.width * img.height;
    let mut lim = vec![(img.width / 3 + 1, img.height / 3 + 1), (img.width * 4 / 5 + 1, 0), (40, 40)];
    if n < 400_000 {
        lim.push((0, 0));
    }
    for (k, &(w, hh)) in lim.iter().enumerate() {
        match nopanic("to_linear_rgb", || img.to_linear_rgb(w, hh))? {
            Ok(o) => {
                h = h.wrapping_mul(31) ^ (o.width * 100_000 + o.height) as u64;
                hf32(&mut h, &o.data);
            }
            Err(_) => h = h.wrapping_mul(37),
        }
        if k == 2 || n < 20_000 {
            if let Ok(o) = nopanic("to_srgb", || img.to_srgb(w, hh))? {
                h = h.wrapping_mul(31) ^ hash(&o.data);
            }
            if let Ok(o) = nopanic("to_rgb", || img.to_rgb(w, hh))? {
                hf32(&mut h, &o.data);
            }
        }
    }
    if image_digest(img) != d {
        return Err("rendering modified the image".to_string());
    }
    Ok((d, h))
}

/// Only one file of false sizes at a time: it may claim a lot of memory.
static DAMAGED: std::sync::Mutex<()> = std::sync::Mutex::new(());

/// A file cut off somewhere, or with some bytes overwritten
fn damaged(r: &mut Rng, file: &[u8]) -> Vec<u8> {
    let mut v = file.to_vec();
    if v.len() < 64 {
        return v;
    }
    if r.bool() {
        v.truncate(r.range(8, file.len()));
        return v;
    }
    for _ in 0..r.range(1, 6) {
        let p = r.below(v.len());
        let e = (p + r.range(1, 200)).min(v.len());
        let k = r.below(3);
        for x in &mut v[p..e] {
            *x = match k {
                0 => 0xff,
                1 => 0,
                _ => r.below(256) as u8,
            };
        }
    }
    v
}

/// `mon digests <order> <seed>`: print the digests of the corpus
pub fn worker(order: &str, seed: u64, out: &mut dyn std::io::Write) {
    let mut ids: Vec<u64> = (0..corpus_size()).collect();
    match order {
        "forward" => {}
        "reverse" => ids.reverse(),
        // twice in a row, and with a failure in between
        o => Rng::derive(seed, o, 0).shuffle(&mut ids),
    }
    let twice = order.ends_with("twice");
    for i in ids {
        let (_, file) = corpus_file(seed, i);
        if file.is_empty() {
            continue;
        }
        for _ in 0..if twice { 2 } else { 1 } {
            let r = decode(&file);
            let _ = match full_digest(&r) {
                Ok((a, b)) => writeln!(out, "{} {:x} {:x}", i, a, b),
                Err(e) => writeln!(out, "{} 0 0 {}", i, e),
            };
            if twice {
                let _ = decode(&file[..file.len() / 2]);
                let cut = Rng::derive(seed, "cut", i).range(8, file.len().max(9));
                let _ = decode(&file[..cut.min(file.len())]);
            }
        }
    }
    let _ = writeln!(out, "done");
    let _ = out.flush();
}

type Lines = HashMap<u64, Vec<(u64, u64, String)>>;

/// Run a process to its end, or kill it after a while.
pub fn output(c: &mut Command, secs: u64) -> Result<(String, String), String> {
    let mut ch = c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| format!("cannot run: {}", e))?;
    let mut so = ch.stdout.take().unwrap();
    let rd = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = std::io::Read::read_to_end(&mut so, &mut v);
        v
    });
    let t = std::time::Instant::now();
    let st = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break format!("{:?}", s),
            Ok(None) if t.elapsed().as_secs() > secs => {
                let _ = ch.kill();
                let _ = ch.wait();
                break "took too long".to_string();
            }
            Ok(None) => std::thread::sleep(std::time::Duration::from_millis(5)),
            Err(e) => return Err(e.to_string()),
        }
    };
    Ok((st, String::from_utf8_lossy(&rd.join().unwrap_or_default()).to_string()))
}

fn run(exe: &str, order: &str, threads: usize, seed: u64) -> Result<Lines, String> {
    let (st, t) = output(
        Command::new(exe)
            .args(["digests", order, &seed.to_string()])
            .env("RAYON_NUM_THREADS", threads.to_string())
            .env("RAYON_RS_NUM_CPUS", threads.to_string()),
        300,
    )?;
    if !t.ends_with("done\n") {
        return Err(format!("the process for order {} with {} threads: {}", order, threads, st));
    }
    let mut m: Lines = HashMap::new();
    for l in t.lines().filter(|l| *l != "done") {
        let p: Vec<&str> = l.splitn(4, ' ').collect();
        let x = |s: &str| u64::from_str_radix(s, 16).unwrap();
        m.entry(p[0].parse().unwrap()).or_default().push((x(p[1]), x(p[2]), p.get(3).unwrap_or(&"").to_string()));
    }
    Ok(m)
}

pub struct Base {
    runs: Vec<(String, usize, Result<Lines, String>)>,
    pub inflight: AtomicUsize,
    pub overlapped: AtomicUsize,
    pub max: AtomicUsize,
}

/// Collect the digests in processes of their own.
pub fn prepare(cfg: &Cfg) -> Base {
    let exe = std::env::current_exe().unwrap().to_str().unwrap().to_string();
    let mut plan: Vec<(&str, usize)> = vec![("forward", 1), ("forward", 8), ("reverse", 2), ("shuffle-a", 5), ("shuffle-twice", 16)];
    if cfg.thorough {
        plan.extend([("shuffle-b", 3), ("shuffle-c", 4), ("shuffle-d", 7), ("shuffle-e", 32), ("forward", 13), ("shuffle-f", 1)]);
    }
    let seed = cfg.seed;
    let runs = std::thread::scope(|s| {
        let h: Vec<_> = plan.iter().map(|&(o, t)| (o, t, s.spawn({ let exe = exe.clone(); move || run(&exe, o, t, seed) }))).collect();
        h.into_iter().map(|(o, t, h)| (o.to_string(), t, h.join().unwrap())).collect()
    });
    Base { runs, inflight: AtomicUsize::new(0), overlapped: AtomicUsize::new(0), max: AtomicUsize::new(0) }
}

pub fn c13<'a>(cfg: &'a Cfg, base: &'a Base, dir: &'a Scratch) -> Vec<Stream<'a>> {
    let seed = cfg.seed;
    let mut v = Vec::new();
    let n = corpus_size();
    let want = |i: u64| -> Option<(u64, u64, String)> { base.runs[0].2.as_ref().ok().and_then(|m| m.get(&i)).and_then(|x| x.first().cloned()) };
    for (o, t, r) in &base.runs {
        v.push(stream(&format!("{}-{}", o, t), n, move |i| {
            let m = match r {
                Err(e) if e.starts_with("cannot") => return Verdict::Unclear(e.clone()),
                Err(e) => return if i == 0 { Verdict::Broken(e.clone(), None) } else { Verdict::Held(0, false, String::new()) },
                Ok(m) => m,
            };
            let w = match want(i) {
                None => return Verdict::Held(0, false, String::new()),
                Some(w) => w,
            };
            let (d, file) = if m.get(&i).map_or(true, |l| l.iter().any(|x| *x != w || !x.2.is_empty())) { corpus_file(seed, i) } else { (String::new(), vec![]) };
            match m.get(&i) {
                None => return Verdict::Unclear(format!("no digest for {}", d)),
                Some(l) => {
                    for x in l {
                        if !x.2.is_empty() {
                            return Verdict::Broken(format!("{}: {}", d, x.2), Some(file));
                        }
                        if x.0 != w.0 {
                            return Verdict::Broken(format!("{}: decodes differently in a process with {} threads, order {}", d, t, o), Some(file));
                        }
                        if x.1 != w.1 {
                            return Verdict::Broken(format!("{}: renders differently in a process with {} threads, order {}", d, t, o), Some(file));
                        }
                    }
                }
            }
            Verdict::Held(hash(format!("{} {} {}", o, t, i).as_bytes()), w.0 != 1, format!("{} threads, order {}", t, o))
        }));
    }
    // everything at once
    v.push(stream("together", cfg.n(6000), move |j| {
        let mut r = Rng::derive(seed, "together", j);
        let i = loop {
            let i = r.below(n as usize) as u64;
            if want(i).is_some() {
                break i;
            }
            if base.runs[0].2.is_err() {
                return Verdict::Held(0, false, String::new());
            }
        };
        let w = want(i).unwrap();
        let (d, file) = corpus_file(seed, i);
        let now = base.inflight.fetch_add(1, Ordering::SeqCst);
        base.max.fetch_max(now + 1, Ordering::SeqCst);
        if now > 0 {
            base.overlapped.fetch_add(1, Ordering::SeqCst);
        }
        let kind = r.below(6);
        let res = match kind {
            0 => decode(&file),
            1 => {
                let p = format!("{}/{}", dir.0, j);
                if std::fs::write(&p, &file).is_err() {
                    return Verdict::Unclear("cannot write".to_string());
                }
                let x = rawloader::decode(&p);
                let same = std::fs::read(&p).map(|b| b == file).unwrap_or(false);
                let _ = std::fs::remove_file(&p);
                if !same {
                    return Verdict::Broken(format!("{}: decoding modified the file", d), Some(file));
                }
                x
            }
            2 => decode_reader(&mut Chunky::new(&file, r.clone(), r.clone().below(4))),
            3 => {
                // from inside a thread pool of some other size
                let k = r.range(1, 6);
                match rayon::ThreadPool::new(rayon::Configuration::new().num_threads(k)) {
                    Ok(p) => p.install(|| decode(&file)),
                    Err(_) => decode(&file),
                }
            }
            4 => {
                // after damaged versions of the same file and of another: whatever a failure leaves
                // behind (half filled buffers, locks, caches) must not be seen
                let (_, other) = corpus_file(seed, r.below(n as usize) as u64);
                for f in [&file, &other, &file] {
                    let d = damaged(&mut r, f);
                    let _one = if d.len() == f.len() { Some(DAMAGED.lock().unwrap_or_else(|e| e.into_inner())) } else { None };
                    let _ = decode(&d);
                }
                decode(&file)
            }
            _ => {
                // after some failures
                let (_, other) = corpus_file(seed, r.below(n as usize) as u64);
                let _ = decode(&other[..other.len() / 2]);
                let _ = decode(&file[..file.len() * 3 / 4]);
                decode(&file)
            }
        };
        let g = full_digest(&res);
        base.inflight.fetch_sub(1, Ordering::SeqCst);
        match g {
            Err(e) => Verdict::Broken(format!("{}: {}", d, e), Some(file)),
            Ok((a, _)) if a != w.0 => Verdict::Broken(format!("{}: decodes differently in the company of others (kind {})", d, kind), Some(file)),
            Ok((_, b)) if b != w.1 => Verdict::Broken(format!("{}: renders differently in the company of others (kind {})", d, kind), Some(file)),
            Ok(_) => Verdict::Held(hash(format!("{} {} {}", j, i, kind).as_bytes()), w.0 != 1, format!("kind {} {}", kind, d)),
        }
    }));
    v
}
