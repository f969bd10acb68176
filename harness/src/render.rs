//! Checks of colour filter patterns and renderings (C14 to C20): an independent model of
//! the processing in double precision.
use crate::case::{catalogue, loader};
use crate::cat::{pattern_color, pattern_dims};
use crate::report::*;
use crate::rng::Rng;
use rawloader::decoders::Orientation;
use rawloader::{RGBImage, RawImage, CFA};

pub const XTRANS: &str = "GGRGGBGGBGGRBRGRBGGGBGGRGGRGGBRBGBRG";

pub const ORIENTATIONS: [Orientation; 9] = [
    Orientation::Unknown,
    Orientation::Normal,
    Orientation::HorizontalFlip,
    Orientation::Rotate180,
    Orientation::VerticalFlip,
    Orientation::Transpose,
    Orientation::Rotate90,
    Orientation::Transverse,
    Orientation::Rotate270,
];

pub fn swaps(o: Orientation) -> bool {
    match o {
        Orientation::Transpose | Orientation::Rotate90 | Orientation::Transverse | Orientation::Rotate270 => true,
        _ => false,
    }
}

/// Where the pixel shown at (row, col) of the upright h x w picture comes from, in terms of
/// the TIFF definition of the orientations (which sides row 0 and column 0 are on).
pub fn source(o: Orientation, row: usize, col: usize, w: usize, h: usize) -> (usize, usize) {
    // w, h are the size of the upright picture; for the swapped ones the stored picture
    // is h wide and w tall
    match o {
        Orientation::Unknown | Orientation::Normal => (row, col),
        Orientation::HorizontalFlip => (row, w - 1 - col),
        Orientation::Rotate180 => (h - 1 - row, w - 1 - col),
        Orientation::VerticalFlip => (h - 1 - row, col),
        // 0th row is the left side, 0th column the top
        Orientation::Transpose => (col, row),
        // 0th row is the right side, 0th column the top
        Orientation::Rotate90 => (w - 1 - col, row),
        // 0th row is the right side, 0th column the bottom
        Orientation::Transverse => (w - 1 - col, h - 1 - row),
        // 0th row is the left side, 0th column the bottom
        Orientation::Rotate270 => (col, h - 1 - row),
    }
}

// ---------------------------------------------------------------- the model

const RGB_XYZ: [[f64; 3]; 3] = [[0.412453, 0.357580, 0.180423], [0.212671, 0.715160, 0.072169], [0.019334, 0.119193, 0.950227]];
const WHITE: [f64; 3] = [0.9547, 1.0, 1.08883];

pub fn inv3(m: [[f64; 3]; 3]) -> [[f64; 3]; 3] {
    let mut a = [[0f64; 6]; 3];
    for i in 0..3 {
        for j in 0..3 {
            a[i][j] = m[i][j];
        }
        a[i][3 + i] = 1.0;
    }
    for c in 0..3 {
        let p = (c..3).max_by(|&x, &y| a[x][c].abs().partial_cmp(&a[y][c].abs()).unwrap()).unwrap();
        a.swap(c, p);
        let d = a[c][c];
        for j in 0..6 {
            a[c][j] /= d;
        }
        for r in 0..3 {
            if r != c {
                let f = a[r][c];
                for j in 0..6 {
                    a[r][j] -= f * a[c][j];
                }
            }
        }
    }
    let mut o = [[0f64; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            o[i][j] = a[i][3 + j];
        }
    }
    o
}

/// Camera response to linear RGB, white normalised, with the response to white
pub fn rgb_cam(m: &[[f32; 3]; 4]) -> ([[f64; 3]; 4], [f64; 4]) {
    let mut rc = [[0f64; 3]; 4];
    let mut sum = [0f64; 4];
    for i in 0..4 {
        for j in 0..3 {
            for k in 0..3 {
                rc[i][j] += m[i][k] as f64 * RGB_XYZ[k][j];
            }
            sum[i] += rc[i][j];
        }
        for j in 0..3 {
            rc[i][j] = if sum[i] == 0.0 { 0.0 } else { rc[i][j] / sum[i] };
        }
    }
    (rc, sum)
}

pub fn model_cam_to_xyz(m: &[[f32; 3]; 4]) -> [[f64; 4]; 3] {
    let (a, _) = rgb_cam(m);
    // (A'A)^-1 A'
    let mut ata = [[0f64; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            ata[i][j] = (0..4).map(|k| a[k][i] * a[k][j]).sum();
        }
    }
    let inv = inv3(ata);
    let mut out = [[0f64; 4]; 3];
    for i in 0..3 {
        for j in 0..4 {
            for k in 0..3 {
                let cr: f64 = (0..3).map(|l| inv[k][l] * a[j][l]).sum();
                out[i][j] += RGB_XYZ[i][k] * cr / WHITE[i];
            }
        }
    }
    out
}

fn labf(v: f64) -> f64 {
    let d: f64 = 6.0 / 29.0;
    if v > d * d * d {
        v.cbrt()
    } else {
        v / (3.0 * d * d) + 4.0 / 29.0
    }
}
fn labinv(v: f64) -> f64 {
    let d: f64 = 6.0 / 29.0;
    if v > d {
        v * v * v
    } else {
        3.0 * d * d * (v - 4.0 / 29.0)
    }
}

/// Monotone cubic (Fritsch-Butland) through the fixed points of the base curve
fn base_curve(v: f64) -> f64 {
    let xs = [0.0, 0.30, 0.5, 0.70, 1.0];
    let ys = [0.0, 0.25, 0.5, 0.75, 1.0];
    if v >= 1.0 {
        return 1.0;
    }
    let n = xs.len();
    let s: Vec<f64> = (0..n - 1).map(|i| (ys[i + 1] - ys[i]) / (xs[i + 1] - xs[i])).collect();
    let mut t = vec![s[0]];
    for i in 1..n - 1 {
        let (h0, h1) = (xs[i] - xs[i - 1], xs[i + 1] - xs[i]);
        t.push(3.0 * (h0 + h1) / ((h0 + 2.0 * h1) / s[i - 1] + (2.0 * h0 + h1) / s[i]));
    }
    t.push(s[n - 2]);
    let mut i = 0;
    while i + 2 < n && v >= xs[i + 1] {
        i += 1;
    }
    let h = xs[i + 1] - xs[i];
    let d = v - xs[i];
    let c2 = (3.0 * s[i] - 2.0 * t[i] - t[i + 1]) / h;
    let c3 = (t[i] + t[i + 1] - 2.0 * s[i]) / (h * h);
    ys[i] + t[i] * d + c2 * d * d + c3 * d * d * d
}

pub fn transfer(v: f64) -> f64 {
    let v = v.max(0.0).min(1.0);
    if v <= 0.018 {
        4.5 * v
    } else {
        1.099 * v.powf(0.45) - 0.099
    }
}

/// Camera values of all pixels of the cropped picture: (values, known)
pub fn model_full(img: &RawImage, pat: &str) -> (usize, usize, Vec<([f64; 4], bool)>) {
    let (w, h) = (img.width - img.crops[1] - img.crops[3], img.height - img.crops[0] - img.crops[2]);
    let mut out = Vec::with_capacity(w * h);
    if img.cpp == 3 || pat.is_empty() {
        for r in 0..h {
            for c in 0..w {
                let p = (r + img.crops[0]) * img.width + c + img.crops[3];
                let v = if img.cpp == 3 {
                    [img.data[p * 3] as f64, img.data[p * 3 + 1] as f64, img.data[p * 3 + 2] as f64, 0.0]
                } else {
                    [img.data[p] as f64, img.data[p] as f64, img.data[p] as f64, 0.0]
                };
                out.push((v, true));
            }
        }
        return (w, h, out);
    }
    let colours: Vec<bool> = (0..4).map(|k| pat.bytes().any(|b| b == b"RGBE"[k])).collect();
    let at = |r: usize, c: usize| img.data[(r + img.crops[0]) * img.width + c + img.crops[3]] as f64;
    let col = |r: usize, c: usize| pattern_color(pat, r + img.crops[0], c + img.crops[3]);
    for r in 0..h {
        for c in 0..w {
            let mut s = [0f64; 4];
            let mut n = [0f64; 4];
            for y in r.saturating_sub(1)..(r + 2).min(h) {
                for x in c.saturating_sub(1)..(c + 2).min(w) {
                    s[col(y, x)] += at(y, x);
                    n[col(y, x)] += 1.0;
                }
            }
            let me = col(r, c);
            let mut known = true;
            let mut v = [0f64; 4];
            for k in 0..4 {
                if k == me {
                    v[k] = at(r, c);
                } else if n[k] > 0.0 {
                    v[k] = s[k] / n[k];
                } else if colours[k] {
                    known = false;
                }
            }
            out.push((v, known));
        }
    }
    (w, h, out)
}

/// Area averages of the sensor samples (weights below 1% are not trusted to be seen)
pub fn model_scaled(img: &RawImage, pat: &str, nw: usize, nh: usize, sensor: bool) -> Vec<([f64; 4], bool)> {
    let (w, h) = (img.width - img.crops[1] - img.crops[3], img.height - img.crops[0] - img.crops[2]);
    let src = if sensor { vec![] } else { model_full(img, pat).2 };
    let colours: Vec<bool> = (0..4).map(|k| pat.bytes().any(|b| b == b"RGBE"[k])).collect();
    let mut out = Vec::with_capacity(nw * nh);
    for r in 0..nh {
        for c in 0..nw {
            let (y0, y1) = (r as f64 * h as f64 / nh as f64, (r + 1) as f64 * h as f64 / nh as f64);
            let (x0, x1) = (c as f64 * w as f64 / nw as f64, (c + 1) as f64 * w as f64 / nw as f64);
            let mut s = [0f64; 4];
            let mut n = [0f64; 4];
            let mut known = true;
            for y in y0 as usize..(y1.ceil() as usize).min(h) {
                let wy = (y1.min(y as f64 + 1.0) - y0.max(y as f64)).max(0.0);
                for x in x0 as usize..(x1.ceil() as usize).min(w) {
                    let wx = (x1.min(x as f64 + 1.0) - x0.max(x as f64)).max(0.0);
                    let f = wx * wy;
                    if sensor {
                        let k = pattern_color(pat, y + img.crops[0], x + img.crops[3]);
                        s[k] += f * img.data[(y + img.crops[0]) * img.width + x + img.crops[3]] as f64;
                        n[k] += f;
                    } else {
                        let (v, kn) = src[y * w + x];
                        known &= kn || f < 1e-9;
                        for k in 0..4 {
                            s[k] += f * v[k];
                            n[k] += f;
                        }
                    }
                }
            }
            let mut v = [0f64; 4];
            for k in 0..4 {
                if n[k] > 0.0 {
                    v[k] = s[k] / n[k];
                }
                if sensor && colours[k] && n[k] < 0.01 {
                    known = false;
                }
            }
            out.push((v, known));
        }
    }
    out
}

/// Camera values to linear Rec.709
pub struct Colour {
    black: [f64; 4],
    range: [f64; 4],
    mul: [f64; 4],
    m: [[f64; 4]; 3],
    back: [[f64; 3]; 3],
}

impl Colour {
    pub fn new(img: &RawImage, mono: bool) -> Colour {
        let (_, sum) = rgb_cam(&img.xyz_to_cam);
        let wb: [f64; 4] = if mono {
            [1.0; 4]
        } else if img.wb_coeffs[..3].iter().all(|x| x.is_normal()) {
            img.wb_coeffs.map(|x| x as f64)
        } else {
            sum.map(|x| sum[1] / x)
        };
        let mut mul = [1f64; 4];
        for k in 0..4 {
            if (wb[k] as f32).is_normal() {
                mul[k] = wb[k] / wb[1];
            }
        }
        let mut range = [0f64; 4];
        for k in 0..4 {
            range[k] = img.whitelevels[k] as f64 - img.blacklevels[k] as f64;
        }
        Colour { black: img.blacklevels.map(|x| x as f64), range, mul, m: model_cam_to_xyz(&img.xyz_to_cam), back: inv3(RGB_XYZ) }
    }
    pub fn linear(&self, v: [f64; 4]) -> [f64; 3] {
        let mut p = [0f64; 4];
        for k in 0..4 {
            p[k] = ((v[k] - self.black[k]) / self.range[k] * self.mul[k]).min(1.0);
        }
        let mut xyz = [0f64; 3];
        for i in 0..3 {
            for k in 0..4 {
                if self.m[i][k] != 0.0 {
                    xyz[i] += self.m[i][k] * p[k];
                }
            }
        }
        let (fx, fy, fz) = (labf(xyz[0] / 0.9642), labf(xyz[1]), labf(xyz[2] / 0.8249));
        let l = (116.0 * fy - 16.0) / 100.0;
        let (a, b) = (500.0 * (fx - fy), 200.0 * (fy - fz));
        let l = base_curve(l) * 100.0;
        let f = (l + 16.0) / 116.0;
        let q = [0.9642 * labinv(f + a / 500.0), labinv(f), 0.8249 * labinv(f - b / 200.0)];
        let mut o = [0f64; 3];
        for i in 0..3 {
            for k in 0..3 {
                o[i] += self.back[i][k] * q[k];
            }
        }
        o
    }
}

// ---------------------------------------------------------------- generated images

pub struct Pic {
    pub img: RawImage,
    pub pat: String,
    pub desc: String,
}

fn patterns() -> Vec<String> {
    let mut v: Vec<String> = ["RGGB", "BGGR", "GRBG", "GBRG", "RGBE", "ERBG", XTRANS].iter().map(|s| s.to_string()).collect();
    for c in catalogue().cams.values() {
        if !v.contains(&c.pattern) {
            v.push(c.pattern.clone());
        }
    }
    v.retain(|p| !p.is_empty());
    // a twelve by twelve pattern with all colours everywhere
    let mut p = String::new();
    for r in 0..12 {
        for c in 0..12 {
            p.push(match (r % 2, (c + r / 2) % 2) {
                (0, 0) => 'G',
                (0, _) => 'R',
                (_, 0) => 'B',
                _ => 'G',
            });
        }
    }
    v.push(p);
    v.sort();
    v
}

fn matrices() -> Vec<[[f32; 3]; 4]> {
    catalogue().cams.values().map(|c| c.matrix).filter(|m| m[0] != [0.0; 3]).collect()
}

/// An image with sane metadata
pub fn pic(rng: &mut Rng, maxdim: usize) -> Pic {
    let pats = patterns();
    let mats = matrices();
    let kind = rng.below(10);
    let (cpp, pat) = match kind {
        0 => (3, String::new()),
        1 => (1, String::new()),
        2 => (3, "RGGB".to_string()),
        3..=5 => (1, rng.pick(&["RGGB", "BGGR", "GRBG", "GBRG"]).to_string()),
        _ => (1, rng.pick(&pats).clone()),
    };
    let four = cpp == 1 && pat.contains('E');
    let (mut w, mut h) = match rng.below(5) {
        0 => (rng.range(1, 8), rng.range(1, 8)),
        1 => (rng.range(1, maxdim), rng.range(1, 12)),
        2 => (rng.range(1, 12), rng.range(1, maxdim)),
        _ => (rng.range(1, maxdim), rng.range(1, maxdim)),
    };
    let crops = if rng.bool() { [0; 4] } else { [rng.below(9), rng.below(9), rng.below(9), rng.below(9)] };
    w += crops[1] + crops[3];
    h += crops[0] + crops[2];
    let black = match rng.below(3) {
        0 => [0u16; 4],
        1 => [rng.range(0, 2000) as u16; 4],
        _ => [rng.range(0, 2000) as u16, rng.range(0, 2000) as u16, rng.range(0, 2000) as u16, rng.range(0, 2000) as u16],
    };
    let white = match rng.below(3) {
        0 => [65535u16; 4],
        1 => [rng.range(3000, 65535) as u16; 4],
        _ => [rng.range(3000, 65535) as u16, rng.range(3000, 65535) as u16, rng.range(3000, 65535) as u16, rng.range(3000, 65535) as u16],
    };
    let top = *white.iter().max().unwrap() as u32;
    let data = match rng.below(3) {
        0 => crate::rng::image(rng, w * cpp, h, top),
        // mid tones, so that nothing is hidden by clipping
        _ => (0..w * h * cpp).map(|_| (top as usize / 8 + rng.below(top as usize / 3 + 1)) as u16).collect(),
    };
    let mut m = if rng.chance(1, 6) {
        // something near to the output space
        let inv = inv3(RGB_XYZ);
        let mut m = [[0f32; 3]; 4];
        for i in 0..3 {
            for j in 0..3 {
                m[i][j] = (inv[i][j] + (rng.f64() - 0.5) * 0.2) as f32;
            }
        }
        m
    } else {
        *rng.pick(&mats)
    };
    if four {
        if m[3] == [0.0; 3] {
            for j in 0..3 {
                m[3][j] = (m[1][j] + m[2][j]) / 2.0;
            }
        }
    } else {
        m[3] = [0.0; 3];
    }
    let wb = match rng.below(5) {
        0 => [std::f32::NAN; 4],
        1 => [1.0, 1.0, 1.0, if four { 1.0 } else { std::f32::NAN }],
        2 => *rng.pick(&[[0.0f32, 1.0, 2.0, 1.0], [2.0, std::f32::NAN, 1.5, 1.0], [2.0, 1.0, std::f32::INFINITY, 1.0], [1.0, 0.0, 1.0, 1.0]]),
        _ => {
            let u = [1.0f32, 256.0, 1024.0][rng.below(3)];
            [u * (0.5 + 2.0 * rng.f64() as f32), u, u * (0.5 + 2.0 * rng.f64() as f32), if four && rng.bool() { u * (0.5 + rng.f64() as f32) } else { *rng.pick(&[std::f32::NAN, 0.0, std::f32::INFINITY, 1e-40]) }]
        }
    };
    let img = RawImage {
        make: "make".to_string(),
        model: "model".to_string(),
        clean_make: "make".to_string(),
        clean_model: "model".to_string(),
        width: w,
        height: h,
        cpp,
        wb_coeffs: wb,
        whitelevels: white,
        blacklevels: black,
        xyz_to_cam: m,
        cfa: CFA::new(&pat),
        crops,
        orientation: Orientation::Normal,
        data,
    };
    let desc = format!("{}x{}x{} pattern {:?} crops {:?} black {:?} white {:?} wb {:?} matrix {:?}", w, h, cpp, pat, crops, black, white, wb, m);
    // three component pictures are not demosaiced whatever the filter says
    let pat = if cpp == 3 { String::new() } else { pat };
    Pic { img, pat, desc }
}

/// The same as large as photographs are, or very long and narrow
pub fn large(rng: &mut Rng) -> Pic {
    let mut p = pic(rng, 8);
    let (mut w, mut h) = match rng.below(4) {
        0 => (rng.range(20000, 70000), rng.range(1, 12)),
        1 => (rng.range(1, 12), rng.range(20000, 70000)),
        _ => (rng.range(2500, 4600), rng.range(1900, 3400)),
    };
    w += p.img.crops[1] + p.img.crops[3];
    h += p.img.crops[0] + p.img.crops[2];
    p.img.width = w;
    p.img.height = h;
    let top = *p.img.whitelevels.iter().max().unwrap() as usize;
    let n = p.img.cpp;
    // a slope in a random direction and some noise
    let (a, b) = (rng.below(top / 4 + 1), rng.below(top / 4 + 1));
    p.img.data = (0..w * h * n).map(|i| (top / 8 + a * (i / n / w) / h + b * (i / n % w) / w + rng.below(top / 8)) as u16).collect();
    p.desc = format!("{}x{} of {}", w, h, p.desc);
    p
}

fn held(p: &Pic, i: u64) -> Verdict {
    let b: Vec<u8> = p.img.data.iter().flat_map(|x| x.to_le_bytes()).collect();
    let nontrivial = p.img.data.iter().any(|x| *x != p.img.data[0]);
    Verdict::Held(hash(&b) ^ hash(p.desc.as_bytes()) ^ i, nontrivial, p.desc.clone())
}

pub fn rgb(img: &RawImage, w: usize, h: usize) -> Result<RGBImage, String> {
    nopanic("to_rgb", || img.to_rgb(w, h))?.map_err(|e| format!("to_rgb: {}", e))
}
pub fn lin(img: &RawImage, w: usize, h: usize) -> Result<RGBImage, String> {
    nopanic("to_linear_rgb", || img.to_linear_rgb(w, h))?.map_err(|e| format!("to_linear_rgb: {}", e))
}

fn wrap(r: Result<(), String>, p: &Pic, i: u64) -> Verdict {
    match r {
        Ok(()) => held(p, i),
        Err(e) => Verdict::Broken(format!("{}: {}", p.desc, e), None),
    }
}

// ---------------------------------------------------------------- C14

pub fn c14<'a>(cfg: &'a Cfg) -> Vec<Stream<'a>> {
    let pats = patterns();
    let seed = cfg.seed;
    let p2 = pats.clone();
    let p3 = pats.clone();
    let pick = move |r: &mut Rng, pats: &[String]| -> String {
        match r.below(4) {
            0 => r.pick(pats).clone(),
            k => {
                let n = [4, 36, 16, 144][if k == 1 { 0 } else { r.below(4) }];
                (0..n).map(|_| *r.pick(&['R', 'G', 'B', 'E'])).collect()
            }
        }
    };
    vec![
        stream("pattern", cfg.n(4000), move |i| {
            let mut r = Rng::derive(seed, "c14", i);
            let p = pick(&mut r, &pats);
            let res = nopanic("CFA", || -> Result<(), String> {
                let c = CFA::new(&p);
                let (w, h) = pattern_dims(&p);
                if (c.width, c.height) != (w, h) || c.name != p || !c.is_valid() {
                    return Err(format!("{}: {}x{} {:?} valid {}", p, c.width, c.height, c.name, c.is_valid()));
                }
                for row in 0..60 {
                    for col in 0..60 {
                        if c.color_at(row, col) != pattern_color(&p, row, col) {
                            return Err(format!("{}: colour at {},{}", p, row, col));
                        }
                    }
                }
                for _ in 0..200 {
                    let (row, col) = (r.below(1 << 31), r.below(1 << 31));
                    if c.color_at(row, col) != pattern_color(&p, row, col) {
                        return Err(format!("{}: colour at {},{}", p, row, col));
                    }
                }
                // shifts, their composition and periodicity
                for k in 0..6 {
                    let m = if k < 4 { 60 } else { 100000 };
                    let (x, y, x2, y2) = (r.below(m), r.below(m), r.below(m), r.below(m));
                    let s = c.shift(x, y);
                    let s2 = s.shift(x2, y2);
                    let sum = c.shift(x + x2, y + y2);
                    let per = c.shift(x + w * r.below(9), y + h * r.below(9));
                    let cl = s.clone();
                    if !s.is_valid() || (s.width, s.height) != (w, h) {
                        return Err(format!("{} shifted by {},{} has size {}x{}", p, x, y, s.width, s.height));
                    }
                    for row in 0..50 {
                        for col in 0..50 {
                            let want = pattern_color(&p, row + y, col + x);
                            if s.color_at(row, col) != want || cl.color_at(row, col) != want {
                                return Err(format!("{} shifted by {},{}: colour at {},{}", p, x, y, row, col));
                            }
                            if per.color_at(row, col) != want {
                                return Err(format!("{}: shifts by {},{} and by periods more differ", p, x, y));
                            }
                            if s2.color_at(row, col) != sum.color_at(row, col) || s2.color_at(row, col) != pattern_color(&p, row + y + y2, col + x + x2) {
                                return Err(format!("{}: shifts by {},{} and {},{} do not compose", p, x, y, x2, y2));
                            }
                        }
                    }
                }
                Ok(())
            })
            .and_then(|x| x);
            match res {
                Ok(()) => Verdict::Held(hash(p.as_bytes()), p.bytes().any(|b| b != p.as_bytes()[0]), p),
                Err(e) => Verdict::Broken(e, None),
            }
        }),
        stream("none", 1, move |_| {
            let res = nopanic("CFA", || {
                let c = CFA::new("");
                let s = c.shift(3, 5);
                !c.is_valid() && !s.is_valid() && !c.clone().is_valid() && c.width == 0 && c.height == 0
            });
            match res {
                Ok(true) => Verdict::Held(1, true, "the empty pattern is not valid".to_string()),
                Ok(false) => Verdict::Broken("the empty pattern is valid".to_string(), None),
                Err(e) => Verdict::Broken(e, None),
            }
        }),
        stream("cropped", cfg.n(30000), move |i| {
            let mut r = Rng::derive(seed, "c14c", i);
            let mut p = pic(&mut r, 20);
            if p.img.cpp == 3 || p.pat.is_empty() {
                p.pat = r.pick(&p2).clone();
                p.img.cfa = CFA::new(&p.pat);
            }
            let o = [r.below(50), r.below(50), r.below(50), r.below(50)];
            p.img.crops = o;
            p.img.orientation = *r.pick(&ORIENTATIONS);
            let c = p.img.cropped_cfa();
            for row in 0..50 {
                for col in 0..50 {
                    if c.color_at(row, col) != pattern_color(&p.pat, row + o[0], col + o[3]) {
                        return Verdict::Broken(format!("{}: pattern cropped by {:?}: colour at {},{}", p.pat, o, row, col), None);
                    }
                }
            }
            held(&p, i)
        }),
        // the tag based constructor, seen through decoded DNG files
        stream("from-file", cfg.n(3000), move |i| {
            let _ = &p3;
            let f = crate::files::families().into_iter().find(|f| f.name == "dng-uncompressed").unwrap();
            let cams = crate::files::cams_of(&f);
            let mut g = crate::files::make_g(seed ^ 0x1400, &f, &cams, i);
            g.small = true;
            let c = (f.gen)(&mut g);
            crate::files::judge(&c, |c, img| c.check_colour(img))
        }),
    ]
}

// ---------------------------------------------------------------- C15

/// `None`: fine
fn size_error(cw: usize, ch: usize, mw: usize, mh: usize, w: usize, h: usize) -> Option<String> {
    let bad = |s: &str| Some(format!("{}x{} limited to {}x{} gives {}x{}: {}", cw, ch, mw, mh, w, h, s));
    if w == 0 || h == 0 {
        return bad("empty");
    }
    if mw == 0 || mh == 0 || (cw <= mw && ch <= mh) {
        return if (w, h) != (cw, ch) { bad("not the full size") } else { None };
    }
    if w > mw || h > mh {
        return bad("over the limit");
    }
    if w > cw || h > ch {
        return bad("scaled up");
    }
    if w != mw && h != mh {
        return bad("fills no limit");
    }
    // the ratio within one pixel: the scale follows from the limit that is filled
    let ok_w = w == mw && ((h as f64) - (w as f64) * ch as f64 / cw as f64).abs() <= 1.0001;
    let ok_h = h == mh && ((w as f64) - (h as f64) * cw as f64 / ch as f64).abs() <= 1.0001;
    if !ok_w && !ok_h {
        return bad("ratio not kept");
    }
    None
}

pub fn limits(r: &mut Rng, cw: usize, ch: usize) -> (usize, usize) {
    match r.below(10) {
        0 => (0, 0),
        1 => (0, r.range(1, 50)),
        2 => (r.range(1, 50), 0),
        3 => (cw, ch),
        4 => (cw + r.below(20), ch + r.below(20)),
        5 => ((cw + 1) / 2, (ch + 1) / 2),
        6 => (r.range(1, cw), 100000),
        7 => (1 << 20, r.range(1, ch)),
        _ => (r.range(1, cw + 3), r.range(1, ch + 3)),
    }
}

pub fn c15<'a>(cfg: &'a Cfg) -> Vec<Stream<'a>> {
    let seed = cfg.seed;
    let go = move |i: u64, big: bool| {
        let mut r = Rng::derive(seed, if big { "c15b" } else { "c15" }, i);
        let md = if i % 50 == 0 { 700 } else { 60 };
        let mut p = if big { large(&mut r) } else { pic(&mut r, md) };
        p.img.orientation = *r.pick(&ORIENTATIONS);
        let (mut cw, mut ch) = (p.img.width - p.img.crops[1] - p.img.crops[3], p.img.height - p.img.crops[0] - p.img.crops[2]);
        if swaps(p.img.orientation) {
            std::mem::swap(&mut cw, &mut ch);
        }
        let (mw, mh) = limits(&mut r, cw, ch);
        p.desc = format!("{:?} limits {}x{} {}", p.img.orientation, mw, mh, p.desc);
        let res = (|| {
            let (w, h, n) = match i % 3 {
                0 => rgb(&p.img, mw, mh).map(|o| (o.width, o.height, o.data.len()))?,
                1 => lin(&p.img, mw, mh).map(|o| (o.width, o.height, o.data.len()))?,
                _ => nopanic("to_srgb", || p.img.to_srgb(mw, mh))?.map(|o| (o.width, o.height, o.data.len()))?,
            };
            if n != w * h * 3 {
                return Err(format!("{} values for {}x{}", n, w, h));
            }
            match size_error(cw, ch, mw, mh, w, h) {
                Some(e) => Err(e),
                None => Ok(()),
            }
        })();
        wrap(res, &p, i)
    };
    vec![stream("large", cfg.n(40), move |i| go(i, true)), stream("size", cfg.n(40000), move |i| go(i, false))]
}

// ---------------------------------------------------------------- C16

pub fn c16<'a>(cfg: &'a Cfg) -> Vec<Stream<'a>> {
    let seed = cfg.seed;
    let go = move |i: u64, big: bool| {
        let mut r = Rng::derive(seed, if big { "c16b" } else { "c16" }, i);
        let md = if i % 40 == 0 { 400 } else { 40 };
        let mut p = if big { large(&mut r) } else { pic(&mut r, md) };
        let (cw, ch) = (p.img.width - p.img.crops[1] - p.img.crops[3], p.img.height - p.img.crops[0] - p.img.crops[2]);
        let (mw, mh) = if r.bool() { (0, 0) } else { limits(&mut r, cw, ch) };
        p.desc = format!("limits {}x{} {}", mw, mh, p.desc);
        let linear = r.bool();
        let go = |img: &RawImage, w, h| if linear { lin(img, w, h) } else { rgb(img, w, h) };
        let res = (|| {
            p.img.orientation = Orientation::Normal;
            let plain = go(&p.img, mw, mh)?;
            for o in ORIENTATIONS.iter() {
                p.img.orientation = *o;
                let (w, h) = if swaps(*o) { (plain.height, plain.width) } else { (plain.width, plain.height) };
                let out = if swaps(*o) { go(&p.img, mh, mw)? } else { go(&p.img, mw, mh)? };
                if (out.width, out.height) != (w, h) || out.data.len() != w * h * 3 {
                    return Err(format!("{:?}: {}x{} instead of {}x{}", o, out.width, out.height, w, h));
                }
                for row in 0..h {
                    for col in 0..w {
                        let (sr, sc) = source(*o, row, col, w, h);
                        for k in 0..3 {
                            let (a, b) = (out.data[(row * w + col) * 3 + k], plain.data[(sr * plain.width + sc) * 3 + k]);
                            if a.to_bits() != b.to_bits() {
                                return Err(format!("{:?}: pixel at row {} col {} is {} instead of {}", o, row, col, a, b));
                            }
                        }
                    }
                }
                if i % 7 == 0 && !linear {
                    let s = if swaps(*o) { nopanic("to_srgb", || p.img.to_srgb(mh, mw))?? } else { nopanic("to_srgb", || p.img.to_srgb(mw, mh))?? };
                    if s.data.iter().zip(out.data.iter()).any(|(a, b)| *a != (b * 255.0) as u8) {
                        return Err(format!("{:?}: the 8-bit rendering is different", o));
                    }
                }
            }
            Ok(())
        })();
        wrap(res, &p, i)
    };
    vec![stream("large", cfg.n(6), move |i| go(i, true)), stream("orientation", cfg.n(12000), move |i| go(i, false))]
}

// ---------------------------------------------------------------- C17, C18

fn compare(out: &RGBImage, want: &[([f64; 4], bool)], col: &Colour, gamma: bool, tol: f64) -> Result<usize, String> {
    let mut seen = 0;
    for (n, (v, known)) in want.iter().enumerate() {
        if !known {
            continue;
        }
        let l = col.linear(*v);
        // far below black single precision differences are blown up
        if l.iter().any(|x| x.abs() > 4.0) || (0..4).any(|k| (v[k] - col.black[k]) / col.range[k] * col.mul[k] < -1.0 && col.m[1][k] != 0.0) {
            continue;
        }
        for k in 0..3 {
            let got = out.data[n * 3 + k] as f64;
            let (w, t) = if gamma { (transfer(l[k]), 8.0 * tol) } else { (l[k], tol * (1.0 + l[k].abs())) };
            if !((got - w).abs() <= t) {
                return Err(format!("channel {} of pixel row {} col {} is {} instead of {} (camera values {:?})", k, n / out.width, n % out.width, got, w, v));
            }
        }
        seen += 1;
    }
    Ok(seen)
}

pub fn c17<'a>(cfg: &'a Cfg) -> Vec<Stream<'a>> {
    let seed = cfg.seed;
    let go = move |i: u64, md: usize| {
        let mut r = Rng::derive(seed, "c17", i);
        let p = if md == 0 { large(&mut r) } else { pic(&mut r, md) };
        let res = (|| {
            let (w, h, want) = model_full(&p.img, &p.pat);
            let col = Colour::new(&p.img, p.img.cpp == 1 && p.pat.is_empty());
            let gamma = r.chance(1, 4);
            let (mw, mh) = *r.pick(&[(0, 0), (w, h), (w + 7, h + 1)]);
            let out = if gamma { rgb(&p.img, mw, mh)? } else { lin(&p.img, mw, mh)? };
            if (out.width, out.height) != (w, h) {
                return Err(format!("size {}x{} instead of {}x{}", out.width, out.height, w, h));
            }
            compare(&out, &want, &col, gamma, 4e-4)?;
            Ok(())
        })();
        wrap(res, &p, i)
    };
    vec![
        stream("large", cfg.n(8), move |i| go(i + (1 << 41), 0)),
        stream("pipeline", cfg.n(60000), move |i| go(i, 40)),
        stream("pipeline-wide", cfg.n(1500), move |i| go(i + (1 << 40), 400)),
        // a change of one sample reaches only its neighbourhood
        stream("local", cfg.n(5000), move |i| {
            let mut r = Rng::derive(seed, "c17l", i);
            let p = pic(&mut r, 24);
            let res = (|| {
                let (w, h) = (p.img.width - p.img.crops[1] - p.img.crops[3], p.img.height - p.img.crops[0] - p.img.crops[2]);
                let a = lin(&p.img, 0, 0)?;
                let mut q = p.img.clone();
                let n = r.below(q.data.len());
                q.data[n] = q.data[n].wrapping_add(r.range(1, 65535) as u16);
                let b = lin(&q, 0, 0)?;
                let (pr, pc) = (n / q.cpp / q.width, n / q.cpp % q.width);
                for row in 0..h {
                    for c in 0..w {
                        let (dr, dc) = ((row + q.crops[0]) as isize - pr as isize, (c + q.crops[3]) as isize - pc as isize);
                        let near = if q.cpp == 3 || p.pat.is_empty() { dr == 0 && dc == 0 } else { dr.abs() <= 1 && dc.abs() <= 1 };
                        for k in 0..3 {
                            let x = (row * w + c) * 3 + k;
                            if !near && a.data[x].to_bits() != b.data[x].to_bits() {
                                return Err(format!("changing the sample at row {} col {} changed the pixel at row {} col {}", pr, pc, row + q.crops[0], c + q.crops[3]));
                            }
                        }
                    }
                }
                Ok(())
            })();
            wrap(res, &p, i)
        }),
        stream("decoded", cfg.n(20000), move |i| {
            // decoded files with their real metadata
            let fams = crate::files::families();
            let f = &fams[i as usize % fams.len()];
            if f.cost > 10 {
                return Verdict::Held(0, false, String::new());
            }
            let cams = crate::files::cams_of(f);
            let mut g = crate::files::make_g(seed ^ 0x1700, f, &cams, i / fams.len() as u64);
            g.big = false;
            let c = (f.gen)(&mut g);
            let img = match crate::case::decode(&c.file) {
                Ok(x) => x,
                Err(e) => return Verdict::Unclear(e),
            };
            if img.crops[1] + img.crops[3] >= img.width || img.crops[0] + img.crops[2] >= img.height || img.width * img.height > 300000 {
                return Verdict::Held(0, false, String::new());
            }
            let pat: String = if img.cpp == 3 { String::new() } else { c.pattern.clone() };
            // only sane levels and matrices
            if (0..4).any(|k| img.whitelevels[k] as i32 - (img.blacklevels[k] as i32) < 50) || img.xyz_to_cam[0] == [0.0; 3] {
                return Verdict::Held(0, false, String::new());
            }
            let four = pat.contains('E');
            if (img.xyz_to_cam[3] != [0.0; 3]) != four || !sane(&img) {
                return Verdict::Held(0, false, String::new());
            }
            let mut im = img;
            im.orientation = Orientation::Normal;
            let (_, _, want) = model_full(&im, &pat);
            let col = Colour::new(&im, im.cpp == 1 && pat.is_empty());
            let p = Pic { img: im, pat, desc: c.desc.clone() };
            let res = lin(&p.img, 0, 0).and_then(|o| compare(&o, &want, &col, false, 4e-4).map(|_| ()));
            wrap(res, &p, i)
        }),
    ]
}

/// White balance and matrix for which single precision is enough
fn sane(img: &RawImage) -> bool {
    let b = &img.wb_coeffs;
    let wb = b[..3].iter().all(|x| x.is_normal() && *x / b[1] > 0.01 && *x / b[1] < 100.0) || b[..3].iter().any(|x| !x.is_normal());
    let (a, s) = rgb_cam(&img.xyz_to_cam);
    if !(condition(&a) < 300.0) {
        return false;
    }
    let m = model_cam_to_xyz(&img.xyz_to_cam);
    wb && s[..3].iter().all(|x| x.abs() > 1e-9) && m.iter().all(|r| r.iter().all(|v| v.is_finite() && v.abs() < 8.0))
}

pub fn c18<'a>(cfg: &'a Cfg) -> Vec<Stream<'a>> {
    let seed = cfg.seed;
    let go = move |i: u64, big: bool| {
        let mut r = Rng::derive(seed, if big { "c18b" } else { "c18" }, i);
        let md = if i % 30 == 0 { 400 } else { 90 };
        let mut p = if big { large(&mut r) } else { pic(&mut r, md) };
        let (cw, ch) = (p.img.width - p.img.crops[1] - p.img.crops[3], p.img.height - p.img.crops[0] - p.img.crops[2]);
        // all scale factors, many of them around the size of the blocks
        let (mw, mh) = match r.below(if big { 6 } else { 5 }) {
            _ if i >> 40 != 0 => (r.range(1, cw.min(3)), r.range(1, ch.min(3))),
            5 => (r.range(1, cw.min(5)), r.range(1, ch.min(5))),
            0 => (r.range(1, cw), r.range(1, ch)),
            1 => (r.range((cw + 2) / 3, cw), 1 << 20),
            2 => (1 << 20, r.range((ch + 2) / 3, ch)),
            3 => {
                let f = *r.pick(&[2.0, 2.0, 3.0, 3.0, 12.0, 1.5, 2.5, 4.0, 6.0]);
                let d = r.irange(-1, 1) as f64;
                (((cw as f64 / f + d) as usize).max(1), ((ch as f64 / f + d) as usize).max(1))
            }
            _ => {
                let f = 1.0 + 5.0 * r.f64();
                (((cw as f64 / f) as usize).max(1), ((ch as f64 / f) as usize).max(1))
            }
        };
        p.desc = format!("limits {}x{} {}", mw, mh, p.desc);
        if cw <= mw && ch <= mh {
            return Verdict::Held(0, false, String::new());
        }
        let res = (|| {
            let out = lin(&p.img, mw, mh)?;
            if out.width == 0 || out.height == 0 || out.width > mw.min(cw) || out.height > mh.min(ch) || out.data.len() != out.width * out.height * 3 {
                return Err(format!("size {}x{} for {}x{}", out.width, out.height, cw, ch));
            }
            let (pw, _) = if p.pat.is_empty() { (0, 0) } else { pattern_dims(&p.pat) };
            let block = match pw {
                6 => 3.0,
                12 => 12.0,
                _ => 2.0,
            };
            let scale = (cw as f64 / mw as f64).max(ch as f64 / mh as f64);
            let sensor = !p.pat.is_empty() && scale >= block;
            let want = model_scaled(&p.img, &p.pat, out.width, out.height, sensor);
            let col = Colour::new(&p.img, p.img.cpp == 1 && p.pat.is_empty());
            let area = (cw as f64 / out.width as f64) * (ch as f64 / out.height as f64);
            // sums and positions in single precision
            let top = *p.img.data.iter().max().unwrap() as f64;
            let ratio = (0..3).map(|k| (top / col.range[k] * col.mul[k]).abs()).fold(1.0, f64::max);
            compare(&out, &want, &col, false, 6e-4 + 3.0 * ratio * (2e-6 * area.min(50.0) + 1e-6 * out.width.max(out.height) as f64))?;
            Ok(())
        })();
        wrap(res, &p, i)
    };
    vec![
        stream("tiny", cfg.n(24), move |i| go(i | 1 << 40, true)),
        stream("large", cfg.n(16), move |i| go(i, true)),
        stream("scaled", cfg.n(100000), move |i| go(i, false)),
    ]
}

// ---------------------------------------------------------------- C19

pub fn c19<'a>(cfg: &'a Cfg) -> Vec<Stream<'a>> {
    let seed = cfg.seed;
    let odd_f = |r: &mut Rng| -> f32 {
        *r.pick(&[
            0.0,
            -0.0,
            1.0,
            -1.0,
            std::f32::NAN,
            std::f32::INFINITY,
            std::f32::NEG_INFINITY,
            1e-40,
            -1e-40,
            1e30,
            -1e30,
            3.4e38,
            1e-30,
            1e-7,
            1e7,
            0.5,
            -2.5,
        ])
    };
    let go = move |i: u64, big: bool| {
        let mut r = Rng::derive(seed, if big { "c19b" } else { "c19" }, i);
        let md = if i % 60 == 0 { 300 } else { 30 };
        let mut p = if big { large(&mut r) } else { pic(&mut r, md) };
        // degenerate metadata in most of the cases
        if i % 3 != 0 {
            let n = r.range(1, 4);
            for _ in 0..n {
                match r.below(8) {
                    0 => p.img.whitelevels[r.below(4)] = *r.pick(&[0, 1, 65535]),
                    1 => p.img.blacklevels[r.below(4)] = *r.pick(&[0, 1, 65535]),
                    2 => p.img.blacklevels = p.img.whitelevels,
                    3 => p.img.wb_coeffs[r.below(4)] = odd_f(&mut r),
                    4 => {
                        let (a, b) = (r.below(4), r.below(3));
                        p.img.xyz_to_cam[a][b] = odd_f(&mut r);
                    }
                    5 => {
                        let a = r.below(4);
                        p.img.xyz_to_cam[a] = [0.0; 3];
                    }
                    6 => p.img.xyz_to_cam = [[odd_f(&mut r); 3]; 4],
                    _ => {
                        let x = odd_f(&mut r);
                        p.img.wb_coeffs = [x; 4]
                    }
                }
            }
        }
        p.img.orientation = *r.pick(&ORIENTATIONS);
        let (cw, ch) = (p.img.width - p.img.crops[1] - p.img.crops[3], p.img.height - p.img.crops[0] - p.img.crops[2]);
        let (mw, mh) = if r.bool() { (0, 0) } else { limits(&mut r, cw, ch) };
        p.desc = format!("{:?} limits {}x{} black {:?} white {:?} wb {:?} matrix {:?} {}", p.img.orientation, mw, mh, p.img.blacklevels, p.img.whitelevels, p.img.wb_coeffs, p.img.xyz_to_cam, p.desc);
        let res = (|| {
            let g = rgb(&p.img, mw, mh)?;
            let l = lin(&p.img, mw, mh)?;
            let s = nopanic("to_srgb", || p.img.to_srgb(mw, mh))??;
            if (g.width, g.height) != (l.width, l.height) || (g.width, g.height) != (s.width, s.height) {
                return Err("the sizes differ".to_string());
            }
            let n = g.width * g.height * 3;
            if g.data.len() != n || l.data.len() != n || s.data.len() != n {
                return Err("the lengths differ".to_string());
            }
            for k in 0..n {
                let (gv, lv, sv) = (g.data[k], l.data[k], s.data[k]);
                if !(gv >= 0.0 && gv <= 1.0) {
                    return Err(format!("value {} of the gamma encoded output is {} (linear {})", k, gv, lv));
                }
                if sv != (gv * 255.0) as u8 {
                    return Err(format!("value {} is {} in 8 bits and {} gamma encoded", k, sv, gv));
                }
                if !lv.is_nan() {
                    // steps of a 16 bit table are fine
                    let w = transfer(lv as f64);
                    let d = 2.0 / 65536.0;
                    if (gv as f64) < transfer(lv as f64 - d) - 2e-5 || gv as f64 > transfer(lv as f64 + d) + 2e-5 {
                        return Err(format!("value {} is {} linear, which is {} gamma encoded, but the output is {}", k, lv, w, gv));
                    }
                }
            }
            Ok(())
        })();
        wrap(res, &p, i)
    };
    vec![stream("large", cfg.n(12), move |i| go(i, true)), stream("variants", cfg.n(24000), move |i| go(i, false))]
}

// ---------------------------------------------------------------- C20

/// Condition number of the least squares problem
fn condition(a: &[[f64; 3]; 4]) -> f64 {
    let mut ata = [[0f64; 3]; 3];
    for i in 0..3 {
        for j in 0..3 {
            ata[i][j] = (0..4).map(|k| a[k][i] * a[k][j]).sum();
        }
    }
    if ata.iter().any(|r| r.iter().any(|x| !x.is_finite())) {
        return std::f64::NAN;
    }
    let det = ata[0][0] * (ata[1][1] * ata[2][2] - ata[1][2] * ata[2][1]) - ata[0][1] * (ata[1][0] * ata[2][2] - ata[1][2] * ata[2][0])
        + ata[0][2] * (ata[1][0] * ata[2][1] - ata[1][1] * ata[2][0]);
    let size = (ata[0][0] + ata[1][1] + ata[2][2]) / 3.0;
    if !(det.abs() > 1e-12 * size * size * size) {
        return std::f64::NAN;
    }
    let inv = inv3(ata);
    let norm = |m: &[[f64; 3]; 3]| m.iter().map(|r| r.iter().map(|x| x.abs()).sum::<f64>()).fold(0.0, f64::max);
    norm(&ata) * norm(&inv)
}

fn check_matrix(m: [[f32; 3]; 4], img: &RawImage) -> Result<bool, String> {
    let (a, sum) = rgb_cam(&m);
    // how much single precision can lose
    let cond = condition(&a);
    if !cond.is_finite() || cond > 1e4 || (0..3).any(|i| sum[i].abs() < 1e-3 * m[i].iter().map(|x| x.abs() as f64).sum::<f64>()) {
        return Ok(false);
    }
    if m[3] != [0.0; 3] && sum[3].abs() < 1e-3 * m[3].iter().map(|x| x.abs() as f64).sum::<f64>() {
        return Ok(false);
    }
    let want = model_cam_to_xyz(&m);
    let got = nopanic("cam_to_xyz", || img.cam_to_xyz())?;
    let big = want.iter().flat_map(|r| r.iter()).fold(0f64, |x, y| x.max(y.abs()));
    let amp = (0..4).filter(|&i| sum[i] != 0.0).map(|i| m[i].iter().map(|x| x.abs() as f64).sum::<f64>() / sum[i].abs()).fold(1.0, f64::max);
    let tol = big * (1e-5 + 2e-6 * cond * amp);
    for i in 0..3 {
        for j in 0..4 {
            if !((got[i][j] as f64 - want[i][j]).abs() <= tol) {
                return Err(format!("camera to XYZ is {:?} instead of {:?} for matrix {:?}", got, want, m));
            }
        }
    }
    // the definition itself: it takes the camera's response to each primary back to XYZ
    for p in 0..3 {
        for i in 0..3 {
            let v: f64 = (0..4).map(|j| got[i][j] as f64 * a[j][p]).sum();
            let w = RGB_XYZ[i][p] / WHITE[i];
            if !((v - w).abs() <= tol * 8.0 + 1e-4) {
                return Err(format!("the camera's response to primary {} is taken to {} instead of {} in XYZ component {} for matrix {:?}", p, v, w, i, m));
            }
        }
    }
    let nw = nopanic("neutralwb", || img.neutralwb())?;
    for i in 0..4 {
        if sum[i] == 0.0 {
            continue;
        }
        let w = sum[1] / sum[i];
        if !((nw[i] as f64 - w).abs() <= w.abs() * 1e-4 * amp) {
            return Err(format!("neutral balance is {:?}, component {} should be {} for matrix {:?}", nw, i, w, m));
        }
    }
    Ok(true)
}

pub fn c20<'a>(cfg: &'a Cfg) -> Vec<Stream<'a>> {
    let seed = cfg.seed;
    let cams: Vec<_> = catalogue().cams.values().cloned().collect();
    let ncam = cams.len() as u64;
    let verdict = |r: Result<bool, String>, m: [[f32; 3]; 4]| match r {
        Ok(t) => Verdict::Held(hash(format!("{:?}", m).as_bytes()), t, format!("{:?}", m)),
        Err(e) => Verdict::Broken(e, None),
    };
    vec![
        stream("cameras", ncam, move |i| {
            let c = &cams[i as usize];
            let cam = match loader().check_supported_with_everything(&c.make, &c.model, &c.mode) {
                Ok(x) => x,
                Err(e) => return Verdict::Unclear(e),
            };
            let (w, h) = (c.blackareav.0 + c.blackareav.1 + 1, c.blackareah.0 + c.blackareah.1 + 1);
            let img = RawImage::new(cam, w, h, [1.0; 4], vec![0; w * h]);
            let m = img.xyz_to_cam;
            verdict(check_matrix(m, &img), m)
        }),
        stream("random", cfg.n(200000), move |i| {
            let mut r = Rng::derive(seed, "c20", i);
            let mut p = pic(&mut r, 2);
            let four = r.bool();
            let scale = [1.0f32, 10000.0, 0.001][r.below(3)];
            let style = r.below(4);
            let mut m = [[0f32; 3]; 4];
            for a in 0..if four { 4 } else { 3 } {
                for b in 0..3 {
                    let v = match style {
                        0 => r.f64() * 2.0 - 0.5,
                        1 => if a % 3 == b { 1.0 } else { r.f64() * 0.4 - 0.2 },
                        2 => r.f64() - 0.5,
                        _ => *r.pick(&[0.0, 0.0, 1.0, 0.5, -0.5, 2.0]),
                    };
                    m[a][b] = v as f32 * scale;
                }
            }
            p.img.xyz_to_cam = m;
            verdict(check_matrix(m, &p.img), m)
        }),
    ]
}
