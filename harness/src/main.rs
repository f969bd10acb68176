mod case;
mod cat;
mod cli;
mod crwtab;
mod det;
mod files;
mod hostile;
mod huff;
mod lj;
mod ljpeg;
mod pack;
mod recog;
mod render;
mod report;
mod rng;
mod simple;
mod tiff;
mod vendor1;
mod vendor2;
mod vendor3;
use case::*;
use report::*;
use std::sync::Mutex;
use std::time::Instant;

const MADE: &str = "Each case is a complete raw file built by an independent encoder of the format from random content (camera, size, sample values, code choices, white balance, container layout), decoded by the library and compared with what was encoded. ";

const HOSTILE: &str = "Each case is a file made from a valid small file of some format by cutting, changing bytes, words, directory entries, sizes and JPEG headers, splicing or shifting, or a structure that points in circles or claims sizes without data, or random bytes after a signature. It is decoded by path in a worker process (builds with and without overflow checks and, for C01, with the address sanitizer; 2 MB stack, 6 GB address space, 60 s of processor time) and what decodes is checked for its size and rendered within random limits.";

const PICS: &str = "Each case is an image with random size, crops, content, filter pattern (or three components, or monochrome), levels, white balance and matrix, rendered by the library. ";

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let out = steal_stdout();
    if std::env::var("MON_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    if args.get(1).map_or(false, |a| a == "digests") {
        let mut o = std::io::BufWriter::new(out);
        det::worker(&args[2], args[3].parse().unwrap(), &mut o);
        return;
    }
    if args.get(1).map_or(false, |a| a == "hostile") {
        hostile::worker(&args[2..], out);
        return;
    }
    let env = |k: &str| std::env::var(k).ok();
    let prop = args.get(1).cloned().unwrap_or_default();
    let only = args.get(2).map(|s| {
        let p = s.rfind(':').expect("case is name:index");
        (s[..p].to_string(), s[p + 1..].parse().expect("case is name:index"))
    });
    let thorough = env("VERIF_TIER").map_or(false, |t| t == "thorough");
    let mut cfg = Cfg {
        prop: prop.clone(),
        seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough,
        only,
        out: Mutex::new(out),
        root: env("VERIF_ROOT").unwrap_or("/verif".to_string()),
        cap_s: env("VERIF_CAP").and_then(|s| s.parse().ok()).unwrap_or(if thorough { 1500.0 } else { 400.0 }),
        threads: 8,
        stop: env("MON_STOP").and_then(|s| s.parse().ok()).unwrap_or(40),
        scale: env("MON_SCALE").and_then(|s| s.parse().ok()).unwrap_or(match prop.as_str() {
            // more where cases are cheap
            "C14" | "C20" => 10.0,
            "C11" => 6.0,
            "C09" => 5.0,
            "C12" => 4.0,
            "C03" | "C06" | "C08" | "C10" | "C15" | "C18" | "C19" => 3.0,
            "C04" | "C05" | "C16" | "C17" => 2.0,
            "C07" | "C21" => 1.5,
            _ => 1.0,
        }),
    };
    let start = Instant::now();
    let scratch = recog::Scratch::new(&prop);
    if prop == "C13" {
        cfg.threads = 16;
    }
    let base = if prop == "C13" { Some(det::prepare(&cfg)) } else { None };
    let by_class = |k: Class| move |f: &Family| f.class == k;
    let data: files::Judge = |c, i| c.check_data(i);
    let mut extra: Vec<(String, String)> = vec![];
    let mut assume: Vec<&str> = vec!["the encoders of the harness describe the formats correctly", "files are decoded through RawLoader::decode from memory"];
    let cli = env("MON_CLI").unwrap_or(format!("{}/target/cli/debug/rawloader", cfg.root));
    let total = hostile::Total { outcomes: Default::default(), restarts: Default::default() };
    let pre = match prop.as_str() {
        "C01" => Some(hostile::check(&cfg, 1, &scratch, &total)),
        "C02" => Some(hostile::check(&cfg, 2, &scratch, &total)),
        _ => None,
    };
    let (streams, rule, min): (Vec<Stream>, String, usize) = match prop.as_str() {
        "C01" => (hostile::io_streams(&cfg, &scratch).into_iter().chain(hostile::photographs(&cfg, 1)).collect(), format!("{} Also opens and reads that fail and renderings of more than 2^24 pixels. Non-trivial: all.", HOSTILE), 10000),
        "C02" => {
            let mut s = files::family_streams(&cfg, &|_| true, 1000, true, "", hostile::sizes);
            s.extend(hostile::declared_streams(&cfg));
            (s, format!("{} Also valid files of all formats, the same with slightly changed sizes (ten variants each) and renderings of more than 2^24 pixels. Non-trivial: all.", HOSTILE), 10000)
        }
        "C03" => (files::family_streams(&cfg, &by_class(Class::Uncompressed), 16000, false, "", data), format!("{}Uncompressed formats, all samples compared. Non-trivial: more than one sample value.", MADE), 1000),
        "C04" => (files::family_streams(&cfg, &by_class(Class::Ljpeg), 40000, false, "", data), format!("{}Lossless JPEG formats, all samples compared. Non-trivial: more than one sample value.", MADE), 1000),
        "C05" => (
            files::family_streams(&cfg, &by_class(Class::Vendor), 24000, false, "", data),
            format!("{}Vendor encodings, all samples compared. Non-trivial: more than one sample value.", MADE),
            1000,
        ),
        "C06" => (files::family_streams(&cfg, &by_class(Class::Curve), 50000, false, "", data), format!("{}Curve coded formats, all samples compared with an independent computation of curve and dither. Non-trivial: more than one sample value.", MADE), 1000),
        "C07" => (
            files::family_streams(&cfg, &by_class(Class::Yuv), 40000, false, "", |c, i| {
                c.check_data(i)?;
                c.check_levels(i)?;
                c.check_geometry(i)
            }),
            format!("{}Subsampled YCbCr formats, all samples and the levels compared. Non-trivial: more than one sample value.", MADE),
            1000,
        ),
        "C08" => (files::family_streams(&cfg, &|_| true, 8000, true, "", |c, i| c.check_wb(i)), format!("{}All formats, white balance compared. Non-trivial: more than one sample value.", MADE), 1000),
        "C09" => {
            let mut s = files::family_streams(&cfg, &|_| true, 2000, true, "", files::db);
            s.extend(files::unlisted_streams(&cfg));
            s.extend(files::unlisted_mode_streams(&cfg));
            s.push(files::table_stream(&cfg));
            (s, format!("{}Every camera, alias and mode of the committed catalogue in every format it can occur in; names and modes near to a listed one must be errors.", MADE), 1000)
        }
        "C10" => (files::family_streams(&cfg, &|_| true, 8000, true, "", files::stored), format!("{}All formats; levels, crops, matrix, filter pattern and orientation compared. Non-trivial: more than one sample value.", MADE), 1000),
        "C11" => (recog::c11(&cfg, &scratch), format!("{}Under different names, from readers with short and interrupted reads, with a misleading software tag, padded to the size of a headerless file, with a damaged signature; headerless files with other sizes or another format's signature; content of no known format. Non-trivial: more than one sample value, or an error was returned.", MADE), 1000),
        "C12" => (files::layout_streams(&cfg).into_iter().chain(files::far_streams(&cfg)).collect(), format!("{}Each content in four container layouts (both byte orders, shuffled and padded blocks, unknown tags, trailing bytes) which must all decode to the content, identically; blocks up to 16 MB and some 2 GB apart. Non-trivial: the files differ.", MADE), 1000),
        "C13" => (det::c13(&cfg, base.as_ref().unwrap(), &scratch), "Digests of the decoded image and of four renderings of each file of a generated corpus (all formats, several contents of the same size, large and damaged ones), taken in processes with different numbers of worker threads and in different orders, and in one process by 16 threads at once in random order through files, short reads, thread pools of other sizes and after failures; all must agree. Non-trivial: the file decodes.".to_string(), 1000),
        "C14" => (render::c14(&cfg), "Patterns of the catalogue and random ones of all four sizes; colours at positions up to 2^31, shifts, their composition and periods, crops, and patterns read from generated DNG files. Non-trivial: more than one colour.".to_string(), 100),
        "C15" => (render::c15(&cfg), format!("{}The size of the output is checked against the limits as seen after orientation. Non-trivial: more than one sample value.", PICS), 1000),
        "C16" => (render::c16(&cfg), format!("{}Renderings in all nine orientations are compared bit by bit with the pixels of the normal one, moved by the TIFF definition. Non-trivial: more than one sample value.", PICS), 1000),
        "C17" => (render::c17(&cfg), format!("{}All pixels of the full size rendering compared with an independent double precision model; changes of one sample must stay in its neighbourhood; decoded files too. Non-trivial: more than one sample value.", PICS), 1000),
        "C18" => (render::c18(&cfg), format!("{}All pixels of scaled renderings compared with the exact area averages taken through an independent double precision model. Non-trivial: more than one sample value.", PICS), 1000),
        "C19" => (render::c19(&cfg), format!("{}The three output variants of each are compared with each other, two thirds with degenerate metadata. Non-trivial: more than one sample value.", PICS), 1000),
        "C20" => (render::c20(&cfg), "Matrices of all cameras and random three and four colour matrices; compared with a double precision pseudo-inverse and with the definition. Non-trivial: well conditioned (others are not judged).".to_string(), 1000),
        "C21" => (cli::c21(&cfg, &scratch, &cli), "Each case is a run of the command line tool in a directory of its own: on valid files of all formats with different names and arguments, where the PPM must be the 8-bit rendering of the library; with outputs that cannot be opened or only be written in part (file size limit at any byte, full device); and on missing, unreadable and damaged inputs. Non-trivial: a rendering was compared, or the run had to fail.".to_string(), 500),
        _ => {
            cfg.say(&format!("unknown property {:?}", prop));
            std::process::exit(3)
        }
    };
    let pre = Mutex::new(pre);
    let finish = |mut o: Outcome| {
        let mut extra = extra.clone();
        if let Some(p) = pre.lock().unwrap().take() {
            o.join(p);
            let t = total.outcomes.lock().unwrap();
            let mut k: Vec<_> = t.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
            k.sort();
            extra.push(("outcomes".to_string(), format!("{{{}}}", k.join(", "))));
            extra.push(("workers_lost".to_string(), total.restarts.load(std::sync::atomic::Ordering::SeqCst).to_string()));
        }
        if let Some(b) = &base {
            use std::sync::atomic::Ordering::SeqCst;
            extra.push(("calls_overlapping_others".to_string(), b.overlapped.load(SeqCst).to_string()));
            extra.push(("most_calls_at_once".to_string(), b.max.load(SeqCst).to_string()));
        }
        let st = conclude(&cfg, start, &rule, o, &extra, &assume, min);
        let _ = std::fs::remove_dir_all(&scratch.0);
        st
    };
    let st = execute(&cfg, &streams, &finish);
    drop(streams);
    drop(scratch);
    std::process::exit(st);
}
