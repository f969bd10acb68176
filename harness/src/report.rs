//! Running the cases of a check and reporting what was observed.
use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::fd::{AsRawFd, FromRawFd};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}

pub struct Cfg {
    pub prop: String,
    pub seed: u64,
    pub thorough: bool,
    /// run only this case (replay)
    pub only: Option<(String, u64)>,
    pub out: Mutex<fs::File>,
    pub root: String,
    pub cap_s: f64,
    pub threads: usize,
    /// violations after which nothing more is started
    pub stop: usize,
    /// share of the cases to run (for trying out the checks)
    pub scale: f64,
}

impl Cfg {
    pub fn say(&self, s: &str) {
        let mut o = self.out.lock().unwrap();
        let _ = writeln!(o, "{}", s);
        let _ = o.flush();
    }
    /// quick count, multiplied in the thorough tier
    pub fn n(&self, quick: u64) -> u64 {
        if self.thorough {
            (quick as f64 * self.scale * 20.0) as u64
        } else if self.scale == 1.0 {
            quick
        } else {
            (quick as f64 * self.scale) as u64 + 1
        }
    }
}

/// The library prints timings on stdout: keep those out of our report.
pub fn steal_stdout() -> fs::File {
    unsafe {
        let d = dup(1);
        let n = fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
        dup2(n.as_raw_fd(), 1);
        fs::File::from_raw_fd(d)
    }
}

pub enum Verdict {
    /// content hash, whether it says something, description
    Held(u64, bool, String),
    /// what went wrong and the input, if there is one
    Broken(String, Option<Vec<u8>>),
    /// the case could not be judged
    Unclear(String),
}

pub struct Stream<'a> {
    pub name: String,
    pub count: u64,
    pub f: Box<dyn Fn(u64) -> Verdict + Sync + Send + 'a>,
}

pub fn stream<'a, F: Fn(u64) -> Verdict + Sync + Send + 'a>(name: &str, count: u64, f: F) -> Stream<'a> {
    Stream { name: name.to_string(), count, f: Box::new(f) }
}

pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for c in b.chunks(8) {
        let mut v = [0u8; 8];
        v[..c.len()].copy_from_slice(c);
        h = (h ^ u64::from_le_bytes(v)).wrapping_mul(0x9e37_79b9_7f4a_7c15);
        h ^= h >> 29;
    }
    h ^ b.len() as u64
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || c as u32 == 127 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub struct Outcome {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub per: BTreeMap<String, (u64, u64)>,
    pub samples: Vec<String>,
    pub broken: Vec<(String, u64, String, Option<Vec<u8>>)>,
    pub unclear: Vec<String>,
    pub capped: bool,
}

impl Outcome {
    pub fn new() -> Outcome {
        Outcome { evals: 0, distinct: HashSet::new(), per: BTreeMap::new(), samples: vec![], broken: vec![], unclear: vec![], capped: false }
    }
    pub fn join(&mut self, o: Outcome) {
        self.evals += o.evals;
        self.distinct.extend(o.distinct);
        self.per.extend(o.per);
        self.samples.splice(0..0, o.samples);
        self.broken.extend(o.broken);
        self.unclear.extend(o.unclear);
        self.capped |= o.capped;
    }
}

fn msg(e: Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
}

/// Run a library call that must not panic.
pub fn nopanic<T, F: FnOnce() -> T>(what: &str, f: F) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| format!("{} panicked: {}", what, msg(e)))
}

/// How long a single case may take (they take milliseconds)
pub const STUCK_S: f64 = 200.0;

/// Run all the cases and hand the outcome to `finish`, which gives the exit status.
pub fn execute(cfg: &Cfg, streams: &[Stream], finish: &(dyn Fn(Outcome) -> i32 + Sync)) -> i32 {
    let start = Instant::now();
    // interleave the streams so that a cap on the time cuts all of them alike
    let mut work: Vec<(usize, u64)> = Vec::new();
    if let Some((n, i)) = &cfg.only {
        for (k, s) in streams.iter().enumerate() {
            if &s.name == n {
                work.push((k, *i));
            }
        }
    } else {
        let total: u64 = streams.iter().map(|s| s.count).sum();
        let mut keyed = Vec::with_capacity(total as usize);
        for (k, s) in streams.iter().enumerate() {
            for i in 0..s.count {
                keyed.push(((i * 1_000_000) / s.count.max(1), k, i));
            }
        }
        keyed.sort();
        work = keyed.into_iter().map(|(_, k, i)| (k, i)).collect();
    }
    let next = AtomicUsize::new(0);
    let capped = AtomicBool::new(false);
    let out = Mutex::new(Outcome::new());
    let current: Vec<Mutex<Option<(Instant, usize, u64)>>> = (0..cfg.threads).map(|_| Mutex::new(None)).collect();
    let over = AtomicBool::new(false);
    let left = AtomicUsize::new(cfg.threads);
    std::thread::scope(|sc| {
        sc.spawn(|| {
            while !over.load(Ordering::SeqCst) {
                std::thread::sleep(std::time::Duration::from_millis(20));
                for c in &current {
                    let (t, k, i) = match *c.lock().unwrap() {
                        Some(x) => x,
                        None => continue,
                    };
                    if t.elapsed().as_secs_f64() > STUCK_S {
                        let mut g = out.lock().unwrap();
                        let mut o = std::mem::replace(&mut *g, Outcome::new());
                        o.evals += 1;
                        o.broken.push((streams[k].name.clone(), i, format!("did not finish within {} s", STUCK_S), None));
                        std::process::exit(finish(o));
                    }
                }
            }
        });
        for th in 0..cfg.threads {
            let (current, left, over) = (&current, &left, &over);
            let (next, work, capped, out) = (&next, &work, &capped, &out);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(sc, move || { loop {
                    let n = next.fetch_add(1, Ordering::SeqCst);
                    if n >= work.len() {
                        break;
                    }
                    if start.elapsed().as_secs_f64() > cfg.cap_s {
                        capped.store(true, Ordering::SeqCst);
                        break;
                    }
                    let (k, i) = work[n];
                    let s = &streams[k];
                    *current[th].lock().unwrap() = Some((Instant::now(), k, i));
                    let v = match catch_unwind(AssertUnwindSafe(|| (s.f)(i))) {
                        Ok(v) => v,
                        Err(e) => Verdict::Unclear(format!("harness panicked: {}", msg(e))),
                    };
                    *current[th].lock().unwrap() = None;
                    let mut o = out.lock().unwrap();
                    o.evals += 1;
                    let p = o.per.entry(s.name.clone()).or_insert((0, 0));
                    p.0 += 1;
                    match v {
                        Verdict::Held(h, nontrivial, desc) => {
                            if nontrivial {
                                p.1 += 1;
                                if o.distinct.insert(h) && i == 0 && o.samples.len() < 12 {
                                    o.samples.push(format!("{}:{} {}", s.name, i, desc));
                                }
                            }
                        }
                        Verdict::Broken(m, b) => {
                            o.broken.push((s.name.clone(), i, m, b));
                            if o.broken.len() >= cfg.stop {
                                next.store(work.len(), Ordering::SeqCst);
                            }
                        }
                        Verdict::Unclear(m) => o.unclear.push(format!("{}:{} {}", s.name, i, m)),
                    }
                }
                if left.fetch_sub(1, Ordering::SeqCst) == 1 {
                    over.store(true, Ordering::SeqCst);
                }})
                .unwrap();
        }
    });
    let mut o = out.into_inner().unwrap();
    o.capped = capped.load(Ordering::SeqCst);
    o.broken.sort_by(|a, b| (&a.0, a.1).cmp(&(&b.0, b.1)));
    finish(o)
}

/// Write the evidence and the replay files, print the verdict and return the exit status.
pub fn conclude(cfg: &Cfg, start: Instant, rule: &str, o: Outcome, extra: &[(String, String)], assumptions: &[&str], min_distinct: usize) -> i32 {
    for (s, i, m, _) in o.broken.iter().take(10) {
        cfg.say(&format!("{}:{} {}", s, i, m));
    }
    for u in o.unclear.iter().take(10) {
        cfg.say(&format!("inconclusive: {}", u));
    }
    let dir = format!("{}/replay", cfg.root);
    let mut seen = HashSet::new();
    for (s, i, m, b) in o.broken.iter() {
        // one replay for each kind of case
        if !seen.insert(s.clone()) || seen.len() > 8 {
            continue;
        }
        let _ = fs::create_dir_all(&dir);
        let path = format!("{}/{}-{}-{}-{}.txt", dir, cfg.prop, s.replace('/', "_"), i, cfg.seed);
        let mut t = format!(
            "property {}\ncase {}:{}\nseed {}\ntier {}\n{}\nrerun: cd {} && VERIF_SEED={} VERIF_TIER={} ./check.sh {} {}:{}\n",
            cfg.prop,
            s,
            i,
            cfg.seed,
            if cfg.thorough { "thorough" } else { "quick" },
            m,
            cfg.root,
            cfg.seed,
            if cfg.thorough { "thorough" } else { "quick" },
            cfg.prop,
            s,
            i
        );
        if let Some(b) = b {
            let bin = path.replace(".txt", ".bin");
            if fs::write(&bin, b).is_ok() {
                t.push_str(&format!("input {}\n", bin));
            }
        }
        let _ = fs::write(&path, t);
        cfg.say(&format!("VIOLATION property={} replay={}", cfg.prop, path));
    }
    let wall = start.elapsed().as_secs_f64();
    let list = |v: Vec<String>| format!("[{}]", v.join(", "));
    let mut cov = vec![
        format!("\"evaluations\": {}", o.evals),
        format!("\"distinct_nontrivial\": {}", o.distinct.len()),
        format!("\"rule\": {}", js(rule)),
        format!("\"samples\": {}", list(o.samples.iter().map(|s| js(&s.chars().take(400).collect::<String>())).collect())),
        format!("\"exhaustive\": false"),
        format!("\"stopped_by_time_cap\": {}", o.capped),
        format!("\"inconclusive\": {}", o.unclear.len()),
        format!(
            "\"streams\": {{{}}}",
            o.per.iter().map(|(k, v)| format!("{}: {{\"cases\": {}, \"nontrivial\": {}}}", js(k), v.0, v.1)).collect::<Vec<_>>().join(", ")
        ),
    ];
    for (k, v) in extra {
        cov.push(format!("{}: {}", js(k), v));
    }
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  {}\n }},\n \"assumptions\": {},\n \"wall_s\": {:.2},\n \"violations\": {}\n}}\n",
        js(&cfg.prop),
        js(if cfg.thorough { "thorough" } else { "quick" }),
        cfg.seed,
        cov.join(",\n  "),
        list(assumptions.iter().map(|s| js(s)).collect()),
        wall,
        o.broken.len()
    );
    if cfg.only.is_none() {
        let _ = fs::create_dir_all(format!("{}/evidence", cfg.root));
        if let Err(e) = fs::write(format!("{}/evidence/{}.json", cfg.root, cfg.prop), ev) {
            cfg.say(&format!("cannot write evidence: {}", e));
            return 3;
        }
    }
    cfg.say(&format!(
        "{}: {} executions, {} distinct non-trivial, {} violations, {} inconclusive, {:.1} s{}",
        cfg.prop,
        o.evals,
        o.distinct.len(),
        o.broken.len(),
        o.unclear.len(),
        wall,
        if o.capped { " (stopped by the time cap)" } else { "" }
    ));
    if !o.broken.is_empty() {
        return 1;
    }
    if cfg.only.is_some() {
        return 0;
    }
    if o.distinct.len() < min_distinct || o.unclear.len() as u64 * 20 > o.evals {
        cfg.say("too little was observed to give a verdict");
        return 2;
    }
    0
}
