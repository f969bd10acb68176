//! C21: the command line tool.
use crate::case::*;
use crate::files::*;
use crate::recog::Scratch;
use crate::report::*;
use crate::rng::Rng;
use std::fs;
use std::os::unix::process::CommandExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(r: i32, l: *const RLimit) -> i32;
    fn signal(s: i32, h: usize) -> usize;
    fn mkfifo(p: *const std::os::raw::c_char, mode: u32) -> i32;
    fn fcntl(fd: i32, cmd: i32, arg: i32) -> i32;
}

struct Ran {
    ok: bool,
    how: String,
}

/// Run the tool in a directory; the largest file it may write can be limited.
fn run(exe: &str, dir: &str, args: &[&str], limit: Option<u64>, stdout: Option<&str>) -> Result<Ran, String> {
    let mut c = Command::new(exe);
    c.args(args).current_dir(dir).env("RAYON_NUM_THREADS", "2").env("RAYON_RS_NUM_CPUS", "2").stdin(Stdio::null()).stderr(Stdio::null());
    c.stdout(match stdout {
        Some(p) => Stdio::from(fs::OpenOptions::new().write(true).open(p).map_err(|e| format!("cannot open {}: {}", p, e))?),
        None => Stdio::null(),
    });
    unsafe {
        c.pre_exec(move || {
            setrlimit(4, &RLimit { cur: 0, max: 0 });
            if let Some(l) = limit {
                signal(25, 1);
                setrlimit(1, &RLimit { cur: l, max: l });
            }
            Ok(())
        });
    }
    let mut ch = c.spawn().map_err(|e| format!("cannot run {}: {}", exe, e))?;
    let t = Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(s)) => return Ok(Ran { ok: s.success(), how: s.to_string() }),
            Ok(None) if t.elapsed().as_secs() > 120 => {
                let _ = ch.kill();
                let _ = ch.wait();
                return Ok(Ran { ok: false, how: "hang".to_string() });
            }
            Ok(None) => std::thread::sleep(Duration::from_millis(1)),
            Err(e) => return Err(format!("cannot wait: {}", e)),
        }
    }
}

/// Width, height, pixels of a binary PPM with 255 as its maximum
fn ppm(b: &[u8]) -> Result<(usize, usize, &[u8]), String> {
    let mut pos = 0;
    let mut tok = |b: &[u8]| -> Result<String, String> {
        while pos < b.len() && b[pos].is_ascii_whitespace() {
            pos += 1;
        }
        let s = pos;
        while pos < b.len() && !b[pos].is_ascii_whitespace() {
            pos += 1;
        }
        if s == pos || pos >= b.len() {
            return Err("the header is incomplete".to_string());
        }
        Ok(String::from_utf8_lossy(&b[s..pos]).to_string())
    };
    if tok(b)? != "P6" {
        return Err("not a binary PPM".to_string());
    }
    let n = |s: String| s.parse::<usize>().map_err(|_| format!("{:?} in the header", s));
    let (w, h, m) = (n(tok(b)?)?, n(tok(b)?)?, n(tok(b)?)?);
    if m != 255 {
        return Err(format!("maximum {}", m));
    }
    let d = &b[pos + 1..];
    if d.len() != w * h * 3 {
        return Err(format!("{} bytes of pixels for {}x{}", d.len(), w, h));
    }
    Ok((w, h, d))
}

fn compare(out: &str, want: &rawloader::SRGBImage) -> Result<(), String> {
    let b = fs::read(out).map_err(|e| format!("the output cannot be read: {}", e))?;
    let (w, h, d) = ppm(&b)?;
    if (w, h) != (want.width, want.height) {
        return Err(format!("the output is {}x{} instead of {}x{}", w, h, want.width, want.height));
    }
    if d != &want.data[..] {
        let k = d.iter().zip(&want.data).position(|(a, b)| a != b).unwrap_or(0);
        return Err(format!("the output differs from the rendering at value {}", k));
    }
    Ok(())
}

fn listing(d: &str) -> Vec<String> {
    let mut v: Vec<String> = fs::read_dir(d).map(|r| r.filter_map(|e| e.ok()).map(|e| e.file_name().to_string_lossy().to_string()).collect()).unwrap_or_default();
    v.sort();
    v
}

pub fn c21<'a>(cfg: &'a Cfg, dir: &'a Scratch, exe: &'a str) -> Vec<Stream<'a>> {
    let seed = cfg.seed;
    let mut v = Vec::new();
    let some = move |i: u64, tag: &str| -> (Case, Rng) {
        let mut r = Rng::derive(seed, tag, i);
        let fams: Vec<Family> = families().into_iter().filter(|f| f.cost < 4).collect();
        let f = &fams[i as usize % fams.len()];
        let cams = cams_of(f);
        let mut g = G::new(seed ^ 0x2100, f.name, i, r.pick(&cams).clone());
        // crops larger than small images would leave nothing to render
        g.small = false;
        (( f.gen)(&mut g), r)
    };
    let prepare = move |i: u64, tag: &str, c: &Case, name: &str| -> Result<String, Verdict> {
        let d = format!("{}/{}-{}", dir.0, tag, i);
        if let Err(e) = fs::create_dir_all(&d).and_then(|_| fs::write(format!("{}/{}", d, name), &c.file)) {
            return Err(Verdict::Unclear(format!("cannot write: {}", e)));
        }
        Ok(d)
    };
    v.push(stream("works", cfg.n(700), move |i| {
        let (c, mut r) = some(i, "cli-works");
        let name = r.pick(&["a.raw", "photo 1.NEF", "x", "y.tar.gz", "\u{e9}.cr2", "z.ppm"]).to_string();
        let d = match prepare(i, "works", &c, &name) {
            Ok(d) => d,
            Err(v) => return v,
        };
        let img = match decode(&c.file) {
            Ok(x) => x,
            Err(e) => return Verdict::Unclear(format!("{}: {}", c.desc, e)),
        };
        let want = nopanic("to_srgb", || img.to_srgb(0, 0)).and_then(|x| x);
        let full = format!("{}/{}", d, name);
        let form = r.below(5);
        let (arg, outarg, out) = match form {
            0 => (name.clone(), None, format!("{}.ppm", full)),
            1 => (full.clone(), None, format!("{}.ppm", full)),
            2 => (name.clone(), Some("result".to_string()), format!("{}/result", d)),
            3 => {
                let _ = fs::create_dir_all(format!("{}/sub dir", d));
                (name.clone(), Some("sub dir/r.ppm".to_string()), format!("{}/sub dir/r.ppm", d))
            }
            _ => (format!("./{}", name), Some(format!("{}/r.jpg", d)), format!("{}/r.jpg", d)),
        };
        // something longer is there already
        let old = r.chance(1, 3);
        if old {
            let n = c.data.len() * 4 + 500;
            let _ = fs::write(&out, vec![b'x'; n]);
        }
        let mut before = listing(&d);
        let mut args = vec![arg.as_str()];
        if let Some(o) = &outarg {
            args.push(o);
        }
        let ran = match run(exe, &d, &args, None, None) {
            Ok(x) => x,
            Err(e) => return Verdict::Unclear(e),
        };
        let res = (|| {
            match &want {
                Err(_) if ran.ok => return Err("status 0 although the image cannot be rendered".to_string()),
                Err(_) => {}
                Ok(w) => {
                    if !ran.ok {
                        return Err(format!("failed: {}", ran.how));
                    }
                    compare(&out, w)?;
                    let o = out[d.len() + 1..].to_string();
                    if !o.contains('/') && !before.contains(&o) {
                        before.push(o);
                        before.sort();
                    }
                    if listing(&d) != before {
                        return Err(format!("left {:?} instead of {:?}", listing(&d), before));
                    }
                }
            }
            if fs::read(&full).ok().as_ref() != Some(&c.file) {
                return Err("the input file was modified".to_string());
            }
            Ok(())
        })();
        let _ = fs::remove_dir_all(&d);
        match res {
            Err(e) => Verdict::Broken(format!("{} called {:?} form {} (output existed: {}): {}", c.desc, name, form, old, e), Some(c.file)),
            Ok(()) => Verdict::Held(hash(&c.file), want.is_ok(), format!("form {} {}", form, c.desc)),
        }
    }));
    // the output cannot be written completely
    v.push(stream("write", cfg.n(400), move |i| {
        let (c, mut r) = some(i, "cli-write");
        let d = match prepare(i, "write", &c, "in.raw") {
            Ok(d) => d,
            Err(v) => return v,
        };
        let want = match decode(&c.file).and_then(|x| nopanic("to_srgb", || x.to_srgb(0, 0)).and_then(|x| x)) {
            Ok(w) => w,
            Err(_) => {
                let _ = fs::remove_dir_all(&d);
                return Verdict::Held(0, false, String::new());
            }
        };
        let size = (format!("P6 {} {} 255\n", want.width, want.height).len() + want.data.len()) as u64;
        let kind = r.below(8);
        let mut what = String::new();
        let mut fine = false;
        let ran = match kind {
            0 => {
                what = "to /dev/full".to_string();
                run(exe, &d, &["in.raw", "/dev/full"], None, None)
            }
            1 => {
                what = "to a directory that is not there".to_string();
                run(exe, &d, &["in.raw", "none/out.ppm"], None, None)
            }
            2 => {
                what = "to a directory".to_string();
                run(exe, &d, &["in.raw", "."], None, None)
            }
            3 => {
                let _ = fs::create_dir_all(format!("{}/in.raw.ppm", d));
                what = "with a directory in the way".to_string();
                run(exe, &d, &["in.raw"], None, None)
            }
            4 => {
                // nobody reads what it says
                fine = true;
                what = "with a full standard output".to_string();
                run(exe, &d, &["in.raw", "out"], None, Some("/dev/full"))
            }
            _ => {
                // the disk is full after some bytes
                let l = match r.below(4) {
                    0 => size - 1,
                    1 => (r.below(20) as u64).min(size - 1),
                    2 => (size / 8192 * 8192).min(size - 1),
                    _ => r.below(size as usize) as u64,
                };
                what = format!("with space for {} of {} bytes", l, size);
                run(exe, &d, &["in.raw", "out"], Some(l), None)
            }
        };
        let ran = match ran {
            Ok(x) => x,
            Err(e) => return Verdict::Unclear(e),
        };
        let mut bad = None;
        if ran.ok {
            if !fine {
                bad = Some("status 0".to_string());
            } else if let Err(e) = compare(&format!("{}/out", d), &want) {
                bad = Some(format!("status 0 but {}", e));
            }
        }
        if ran.how == "hang" {
            bad = Some("did not end".to_string());
        }
        if fs::read(format!("{}/in.raw", d)).ok().as_ref() != Some(&c.file) {
            bad = Some("the input file was modified".to_string());
        }
        let _ = fs::remove_dir_all(&d);
        match bad {
            Some(e) => Verdict::Broken(format!("{} {}: {}", c.desc, what, e), Some(c.file)),
            None => Verdict::Held(hash(&c.file) ^ kind as u64, true, format!("{}: {}", what, ran.how)),
        }
    }));
    // enough space is enough
    v.push(stream("space", cfg.n(60), move |i| {
        let (c, mut r) = some(i, "cli-space");
        let d = match prepare(i, "space", &c, "in.raw") {
            Ok(d) => d,
            Err(v) => return v,
        };
        let want = match decode(&c.file).and_then(|x| nopanic("to_srgb", || x.to_srgb(0, 0)).and_then(|x| x)) {
            Ok(w) => w,
            Err(_) => {
                let _ = fs::remove_dir_all(&d);
                return Verdict::Held(0, false, String::new());
            }
        };
        let ran = match run(exe, &d, &["in.raw", "out"], Some((want.data.len() + 100 + r.below(2)) as u64), None) {
            Ok(x) => x,
            Err(e) => return Verdict::Unclear(e),
        };
        let res = if ran.ok { compare(&format!("{}/out", d), &want) } else { Err(ran.how) };
        let _ = fs::remove_dir_all(&d);
        match res {
            Err(e) => Verdict::Broken(format!("{} with just enough space: {}", c.desc, e), Some(c.file)),
            Ok(()) => Verdict::Held(hash(&c.file), true, c.desc.clone()),
        }
    }));
    // photographs of the usual size, and output that is not a plain file
    v.push(stream("photo", cfg.n(4), move |i| {
        let mut r = Rng::derive(seed, "cli-photo", i);
        let fams: Vec<Family> = families().into_iter().filter(|f| f.cost == 1 && f.name != "naked").collect();
        let f = r.pick(&fams);
        let cams = cams_of(f);
        let mut g = G::new(seed ^ 0x2101, f.name, i, r.pick(&cams).clone());
        g.full = true;
        let f = if i == 1 || i == 2 {
            // longer than 65535 one way
            g.extent = Some(if i == 1 { (66000, 2) } else { (2, 66000) });
            families().into_iter().find(|f| f.name == "dng-uncompressed").unwrap()
        } else {
            f.clone()
        };
        let c = (f.gen)(&mut g);
        let d = match prepare(i, "photo", &c, "in.raw") {
            Ok(d) => d,
            Err(v) => return v,
        };
        let want = match decode(&c.file).and_then(|x| nopanic("to_srgb", || x.to_srgb(0, 0)).and_then(|x| x)) {
            Ok(w) => w,
            Err(_) => {
                let _ = fs::remove_dir_all(&d);
                return Verdict::Held(0, false, String::new());
            }
        };
        let res = run(exe, &d, &["in.raw"], None, None).and_then(|ran| if ran.ok { compare(&format!("{}/in.raw.ppm", d), &want) } else { Err(ran.how) });
        let _ = fs::remove_dir_all(&d);
        match res {
            Err(e) => Verdict::Broken(format!("{}: {}", c.desc, e), None),
            Ok(()) => Verdict::Held(hash(&c.file), true, c.desc.clone()),
        }
    }));
    v.push(stream("pipe", cfg.n(60), move |i| {
        let (c, mut r) = some(i, "cli-pipe");
        let d = match prepare(i, "pipe", &c, "in.raw") {
            Ok(d) => d,
            Err(v) => return v,
        };
        let want = match decode(&c.file).and_then(|x| nopanic("to_srgb", || x.to_srgb(0, 0)).and_then(|x| x)) {
            Ok(w) => w,
            Err(_) => {
                let _ = fs::remove_dir_all(&d);
                return Verdict::Held(0, false, String::new());
            }
        };
        let p = format!("{}/out", d);
        let name = std::ffi::CString::new(p.clone()).unwrap();
        if unsafe { mkfifo(name.as_ptr(), 0o600) } != 0 {
            return Verdict::Unclear("cannot make a pipe".to_string());
        }
        // the reader may give up early; open for writing too, so that opening never blocks
        let stop = if r.chance(1, 2) { Some(r.below(4000)) } else { None };
        let mut rd = match fs::OpenOptions::new().read(true).write(true).open(&p) {
            Ok(f) => f,
            Err(e) => return Verdict::Unclear(format!("cannot open the pipe: {}", e)),
        };
        let total = format!("P6 {} {} 255\n", want.width, want.height).len() + want.data.len();
        let mut got = Vec::new();
        let ran = std::thread::scope(|s| {
            let t = s.spawn(|| run(exe, &d, &["in.raw", "out"], None, None));
            use std::io::Read;
            let mut b = [0u8; 3000];
            let t0 = Instant::now();
            // nonblocking reads keep this loop from waiting for a tool that failed
            unsafe { fcntl(std::os::unix::io::AsRawFd::as_raw_fd(&rd), 4, 0o4000) };
            while t0.elapsed().as_secs() < 60 {
                if stop.map_or(false, |k| got.len() >= k) {
                    break;
                }
                let over = t.is_finished();
                match rd.read(&mut b) {
                    Ok(n) => got.extend(&b[..n]),
                    Err(_) if over => break,
                    Err(_) => std::thread::sleep(Duration::from_micros(300)),
                }
            }
            drop(rd);
            t.join().unwrap_or(Err("the runner failed".to_string()))
        });
        // a tool that renames a finished file leaves that instead of the pipe
        let replaced = fs::metadata(&p).map(|m| m.is_file()).unwrap_or(false);
        let res = match (ran, stop) {
            (Err(e), _) => return Verdict::Unclear(e),
            (Ok(x), _) if x.ok && replaced => compare(&p, &want),
            (Ok(x), None) if x.ok => {
                let _ = fs::remove_file(&p);
                fs::write(&p, &got).map_err(|e| e.to_string()).and_then(|_| compare(&p, &want))
            }
            (Ok(x), None) => Err(format!("could not write to a pipe: {}", x.how)),
            // what was in the pipe when it closed counts as written
            (Ok(x), Some(_)) if x.ok && total > got.len() + (1 << 20) => Err("status 0 although nobody read the rest".to_string()),
            _ => Ok(()),
        };
        let _ = fs::remove_dir_all(&d);
        match res {
            Err(e) => Verdict::Broken(format!("{} to a pipe, read {:?}: {}", c.desc, stop, e), Some(c.file)),
            Ok(()) => Verdict::Held(hash(&c.file), true, format!("pipe read {:?} of {}: {}", stop, total, c.desc)),
        }
    }));
    // what cannot be decoded
    v.push(stream("refuses", cfg.n(500), move |i| {
        let (c, mut r) = some(i, "cli-refuses");
        let kind = i % 8;
        let mut b = c.file.clone();
        match kind {
            0 => b.clear(),
            1 => {
                let n = r.below(b.len());
                b.truncate(n);
            }
            2 => {
                let n = r.below(3000);
                b = r.bytes(n);
            }
            3 => b = b"P6 1 1 255\nabc".to_vec(),
            4 => {
                b.truncate(c.file.len() / 2);
            }
            5 => {
                for _ in 0..20 {
                    let k = r.below(b.len().min(400));
                    b[k] = r.u8();
                }
            }
            _ => {}
        }
        let d = format!("{}/refuses-{}", dir.0, i);
        let _ = fs::create_dir_all(&d);
        let _ = fs::write(format!("{}/in", d), &b);
        let (args, must): (Vec<&str>, bool) = match kind {
            6 => (vec!["missing"], true),
            7 => (vec![["", ".", "/proc/self/mem", "in/x"][r.below(4)]], true),
            _ => (vec!["in"], decode(&b).is_err()),
        };
        let args = if kind == 6 && r.chance(1, 3) { vec![] } else { args };
        let ran = match run(exe, &d, &args, None, None) {
            Ok(x) => x,
            Err(e) => return Verdict::Unclear(e),
        };
        let same = fs::read(format!("{}/in", d)).ok().as_ref() == Some(&b);
        let _ = fs::remove_dir_all(&d);
        if ran.how == "hang" {
            return Verdict::Broken(format!("{:?} did not end", args), Some(b));
        }
        if ran.ok && must {
            return Verdict::Broken(format!("status 0 for {:?}, case {} from {}", args, kind, c.desc), Some(b));
        }
        if !same {
            return Verdict::Broken(format!("the input file was modified, case {} from {}", kind, c.desc), Some(b));
        }
        Verdict::Held(hash(&b) ^ hash(format!("{:?}", args).as_bytes()), must, format!("{:?} case {}: {}", args, kind, ran.how))
    }));
    v
}
