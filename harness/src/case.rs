//! Test cases: a generated file plus everything the decoded image must be.
use crate::cat::{Cam, Catalogue};
use crate::rng::Rng;
use crate::tiff::{Ifd, Layout, Tiff, Val};
use rawloader::decoders::{Orientation, RawLoader};
use rawloader::RawImage;
use std::sync::OnceLock;

pub const NAN: f32 = std::f32::NAN;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Class {
    Uncompressed,
    Ljpeg,
    Vendor,
    Curve,
    Yuv,
}

#[derive(Clone, Debug)]
pub struct Case {
    pub fmt: String,
    pub desc: String,
    pub file: Vec<u8>,
    pub cam: Option<Cam>,
    pub width: usize,
    pub height: usize,
    pub cpp: usize,
    pub data: Vec<u16>,
    /// the samples may as well be this many bits larger
    pub shift: u32,
    pub wb: [f32; 4],
    /// relative tolerance of each coefficient
    pub wb_tol: f32,
    pub white: [u16; 4],
    pub black: [u16; 4],
    pub black_tol: u16,
    pub crops: [usize; 4],
    pub matrix: [[f32; 3]; 4],
    pub matrix_tol: f32,
    /// None: don't care about the name (colours are compared anyway)
    pub pattern: String,
    pub orientation: Option<u16>,
    pub make: String,
    pub model: String,
    pub clean_make: String,
    pub clean_model: String,
}

/// Generation context: everything random comes from `rng`; `cam` and `lay` are chosen by the
/// caller so that they can be varied independently of the content.
pub struct G {
    pub rng: Rng,
    pub cam: Cam,
    pub lay: Layout,
    pub orient: Option<u16>,
    /// use the smallest practical images
    pub small: bool,
    /// cover large dimensions now and then
    pub big: bool,
    /// as large as the files of real cameras
    pub full: bool,
    /// about this size, whatever else is asked for
    pub extent: Option<(usize, usize)>,
    /// the sizes drawn, as the file declares them
    pub drawn: Vec<(usize, usize)>,
    /// decorate make/model strings with trailing blanks and NULs
    pub sloppy: usize,
    /// more tags for the first directory
    pub extra: Vec<(u16, Val)>,
    /// point transform of a lossless JPEG
    pub pt: u32,
}

impl G {
    pub fn new(seed: u64, name: &str, idx: u64, cam: Cam) -> G {
        let mut rng = Rng::derive(seed, name, idx);
        let lay = Layout::random(&mut rng);
        let orient = match rng.below(4) {
            0 => None,
            1 => Some(*rng.pick(&[0u16, 9, 255])),
            _ => Some(rng.range(1, 8) as u16),
        };
        let sloppy = rng.below(4);
        G { rng, cam, lay, orient, small: false, big: false, full: false, extent: None, drawn: vec![], sloppy, extra: vec![], pt: 0 }
    }

    pub fn tiff(&self) -> Tiff {
        Tiff::new(&self.lay)
    }

    /// Image dimensions: multiples of the steps, at least the minima, covering masked areas.
    pub fn dims(&mut self, minw: usize, minh: usize, wstep: usize, hstep: usize) -> (usize, usize) {
        let minw = minw.max(self.cam.blackareav.0 + self.cam.blackareav.1).max(1);
        let minh = minh.max(self.cam.blackareah.0 + self.cam.blackareah.1).max(1);
        let up = |v: usize, s: usize| (v + s - 1) / s * s;
        let (ew, eh) = if self.small {
            (0, 0)
        } else if let Some(e) = self.extent {
            e
        } else if self.full {
            (self.rng.range(4800, 6100), self.rng.range(3500, 4100))
        } else {
            match self.rng.below(6) {
                // lines longer than 12 bits, and many of them
                k if self.big && k < 3 => (self.rng.range(3000, 6000), self.rng.below(3)),
                _ if self.big => (self.rng.below(6), self.rng.range(1500, 3000)),
                0 => (0, 0),
                1 => (self.rng.below(4) * wstep, self.rng.below(4) * hstep),
                2 => (self.rng.below(300), self.rng.below(8)),
                3 => (self.rng.below(20), self.rng.below(120)),
                _ => (self.rng.below(90), self.rng.below(60)),
            }
        };
        let d = (up(minw + ew, wstep), up(minh + eh, hstep));
        self.drawn.push(d);
        d
    }

    pub fn image(&mut self, w: usize, h: usize, max: u32) -> Vec<u16> {
        crate::rng::image(&mut self.rng, w, h, max)
    }

    /// Zeros after the image data: most files have some, but it may also be the end of the file.
    pub fn slack(&mut self, max: usize) -> Vec<u8> {
        vec![0; if self.rng.bool() { 0 } else { self.rng.below(max + 1) }]
    }

    /// Now and then a point transform for lossless JPEG, never where samples become levels
    pub fn draw_pt(&mut self) {
        if self.cam.blackareah.1 == 0 && self.cam.blackareav.1 == 0 && self.rng.chance(1, 16) {
            self.pt = self.rng.range(1, 3) as u32;
        }
    }

    /// A white balance multiplier as stored in 16 bit fields
    pub fn mul(&mut self) -> u16 {
        match self.rng.below(8) {
            0 => 1,
            1 => 0xffff,
            2 => 0x8000,
            3 => 256,
            _ => self.rng.range(1, 65535) as u16,
        }
    }

    pub fn ascii(&self, s: &str) -> Val {
        match self.sloppy {
            1 => Val::Ascii(format!("{}   ", s)),
            2 => Val::Ascii(format!("{}\0\0junk", s)),
            3 => Val::Ascii(format!("  {} \0", s)),
            _ => Val::Ascii(s.to_string()),
        }
    }

    /// First directory with make, model and orientation
    pub fn ifd0(&self) -> Ifd {
        let mut i = Ifd::new();
        i.add(0x010f, self.ascii(&self.cam.make));
        i.add(0x0110, self.ascii(&self.cam.model));
        i.e.extend(self.extra.iter().cloned());
        if let Some(o) = self.orient {
            i.add(0x0112, Val::Short(vec![o]));
        }
        i
    }

    /// Attach the directory describing the raw data in one of the usual places.
    pub fn place_raw(&mut self, mut ifd0: Ifd, raw: Ifd) -> Vec<Ifd> {
        match self.rng.below(4) {
            0 => {
                ifd0.e.extend(raw.e);
                vec![ifd0]
            }
            1 => vec![ifd0, raw],
            2 => {
                let thumb = Ifd::new().long(0x100, 160).long(0x101, 120);
                ifd0.add(0x014a, Val::Ifds(vec![thumb, raw]));
                vec![ifd0]
            }
            _ => {
                ifd0.add(0x014a, Val::Ifds(vec![raw]));
                vec![ifd0]
            }
        }
    }

    /// Case with the catalogue's expectations for the camera.
    pub fn case(&self, fmt: &str, file: Vec<u8>, width: usize, height: usize, data: Vec<u16>, wb: [f32; 4]) -> Case {
        let c = &self.cam;
        let mut black = [c.black; 4];
        let black_tol = 0;
        if c.blackareah.1 != 0 || c.blackareav.1 != 0 {
            let mut sum = [0f64; 4];
            let mut n = [0f64; 4];
            for row in c.blackareah.0..c.blackareah.0 + c.blackareah.1 {
                for col in 0..width {
                    let k = c.color_at(row, col);
                    sum[k] += data[row * width + col] as f64;
                    n[k] += 1.0;
                }
            }
            for row in 0..height {
                for col in c.blackareav.0..c.blackareav.0 + c.blackareav.1 {
                    let k = c.color_at(row, col);
                    sum[k] += data[row * width + col] as f64;
                    n[k] += 1.0;
                }
            }
            for k in 0..4 {
                black[k] = if n[k] > 0.0 { (sum[k] / n[k]) as u16 } else { 0 };
            }
        }
        Case {
            fmt: fmt.to_string(),
            desc: format!("{} \"{}\" \"{}\" mode \"{}\" {}x{} orient {:?} layout {:?}", fmt, c.make, c.model, c.mode, width, height, self.orient, self.lay),
            file,
            cam: Some(c.clone()),
            width,
            height,
            cpp: 1,
            data,
            shift: self.pt,
            wb,
            wb_tol: 1e-6,
            white: [c.white; 4],
            black,
            black_tol,
            crops: c.crops,
            matrix: c.matrix,
            matrix_tol: 0.0,
            pattern: c.pattern.clone(),
            orientation: self.orient,
            make: c.make.clone(),
            model: c.model.clone(),
            clean_make: c.clean_make.clone(),
            clean_model: c.clean_model.clone(),
        }
    }
}

pub fn loader() -> &'static RawLoader {
    static L: OnceLock<RawLoader> = OnceLock::new();
    L.get_or_init(RawLoader::new)
}

pub fn catalogue() -> &'static Catalogue {
    static L: OnceLock<Catalogue> = OnceLock::new();
    L.get_or_init(crate::cat::load)
}

/// Decode from memory, containing panics like the path based entry point does.
pub fn decode(file: &[u8]) -> Result<RawImage, String> {
    let r = std::panic::catch_unwind(|| {
        let mut rd: &[u8] = file;
        loader().decode(&mut rd)
    });
    match r {
        Ok(v) => v,
        Err(e) => Err(format!(
            "panic: {}",
            e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()
        )),
    }
}

pub fn orientation_of(o: Option<u16>) -> Orientation {
    match o {
        Some(1) => Orientation::Normal,
        Some(2) => Orientation::HorizontalFlip,
        Some(3) => Orientation::Rotate180,
        Some(4) => Orientation::VerticalFlip,
        Some(5) => Orientation::Transpose,
        Some(6) => Orientation::Rotate90,
        Some(7) => Orientation::Transverse,
        Some(8) => Orientation::Rotate270,
        _ => Orientation::Unknown,
    }
}

fn feq(a: f32, b: f32, tol: f32) -> bool {
    if a.is_nan() || b.is_nan() {
        return a.is_nan() && b.is_nan();
    }
    if a.is_infinite() || b.is_infinite() {
        return a == b;
    }
    (a - b).abs() <= tol * a.abs().max(b.abs())
}

impl Case {
    pub fn check_data(&self, img: &RawImage) -> Result<(), String> {
        if img.width != self.width || img.height != self.height || img.cpp != self.cpp {
            return Err(format!("size {}x{}x{} instead of {}x{}x{}", img.width, img.height, img.cpp, self.width, self.height, self.cpp));
        }
        if img.data.len() != self.data.len() {
            return Err(format!("{} samples instead of {}", img.data.len(), self.data.len()));
        }
        // with a point transform both the coded and the scaled up samples are fine
        if self.shift > 0 && img.data.iter().zip(self.data.iter()).all(|(a, b)| *a == b << self.shift) {
            return Ok(());
        }
        let mut bad = 0;
        let mut first = None;
        for (i, (a, b)) in img.data.iter().zip(self.data.iter()).enumerate() {
            if a != b {
                bad += 1;
                if first.is_none() {
                    first = Some(i);
                }
            }
        }
        if let Some(i) = first {
            let w = self.width * self.cpp;
            return Err(format!(
                "{} of {} samples differ, first at row {} col {}: got {} expected {}",
                bad,
                self.data.len(),
                i / w,
                i % w,
                img.data[i],
                self.data[i]
            ));
        }
        Ok(())
    }
    pub fn check_wb(&self, img: &RawImage) -> Result<(), String> {
        for i in 0..4 {
            if !feq(img.wb_coeffs[i], self.wb[i], self.wb_tol) {
                return Err(format!("white balance {:?} instead of {:?}", img.wb_coeffs, self.wb));
            }
        }
        Ok(())
    }
    /// identity and everything that comes from the camera database
    pub fn check_ident(&self, img: &RawImage) -> Result<(), String> {
        if img.make != self.make || img.model != self.model {
            return Err(format!("make/model {:?} {:?} instead of {:?} {:?}", img.make, img.model, self.make, self.model));
        }
        if img.clean_make != self.clean_make || img.clean_model != self.clean_model {
            return Err(format!("clean make/model {:?} {:?} instead of {:?} {:?}", img.clean_make, img.clean_model, self.clean_make, self.clean_model));
        }
        Ok(())
    }
    pub fn check_levels(&self, img: &RawImage) -> Result<(), String> {
        if img.whitelevels != self.white {
            return Err(format!("white levels {:?} instead of {:?}", img.whitelevels, self.white));
        }
        for i in 0..4 {
            let d = (img.blacklevels[i] as i32 - self.black[i] as i32).abs();
            if d > self.black_tol as i32 {
                return Err(format!("black levels {:?} instead of {:?} (tolerance {})", img.blacklevels, self.black, self.black_tol));
            }
        }
        Ok(())
    }
    pub fn check_geometry(&self, img: &RawImage) -> Result<(), String> {
        if img.crops != self.crops {
            return Err(format!("crops {:?} instead of {:?}", img.crops, self.crops));
        }
        Ok(())
    }
    pub fn check_orientation(&self, img: &RawImage) -> Result<(), String> {
        if img.orientation != orientation_of(self.orientation) {
            return Err(format!("orientation {:?} instead of {:?}", img.orientation, orientation_of(self.orientation)));
        }
        Ok(())
    }
    pub fn check_colour(&self, img: &RawImage) -> Result<(), String> {
        for i in 0..4 {
            for j in 0..3 {
                if !feq(img.xyz_to_cam[i][j], self.matrix[i][j], self.matrix_tol) {
                    return Err(format!("colour matrix {:?} instead of {:?}", img.xyz_to_cam, self.matrix));
                }
            }
        }
        if self.pattern.is_empty() {
            if img.cfa.is_valid() {
                return Err(format!("colour filter {:?} instead of none", img.cfa.name));
            }
            return Ok(());
        }
        if !img.cfa.is_valid() {
            return Err(format!("no colour filter instead of {}", self.pattern));
        }
        for r in 0..24 {
            for c in 0..24 {
                let want = crate::cat::pattern_color(&self.pattern, r, c);
                if img.cfa.color_at(r, c) != want {
                    return Err(format!("colour filter {} has colour {} at {},{} instead of {} ({})", img.cfa.name, img.cfa.color_at(r, c), r, c, want, self.pattern));
                }
            }
        }
        Ok(())
    }
    pub fn check_meta(&self, img: &RawImage) -> Result<(), String> {
        self.check_ident(img)?;
        self.check_levels(img)?;
        self.check_geometry(img)?;
        self.check_colour(img)?;
        self.check_orientation(img)
    }
}

#[derive(Clone)]
pub struct Family {
    pub name: &'static str,
    pub class: Class,
    pub accepts: fn(&Cam) -> bool,
    pub gen: fn(&mut G) -> Case,
    /// the camera mode is decided by the file, `accepts` sees every mode
    pub cost: usize,
}
