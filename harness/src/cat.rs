//! The camera catalogue as it must be: an independent reading of a committed snapshot of
//! the camera database.
use std::collections::BTreeMap;
use toml::Value;

#[derive(Clone, Debug, PartialEq)]
pub struct Cam {
    pub make: String,
    pub model: String,
    pub mode: String,
    pub clean_make: String,
    pub clean_model: String,
    pub white: u16,
    pub black: u16,
    pub blackareah: (usize, usize),
    pub blackareav: (usize, usize),
    pub matrix: [[f32; 3]; 4],
    pub pattern: String,
    pub crops: [usize; 4],
    pub bps: usize,
    pub wb_offset: usize,
    pub filesize: usize,
    pub raw_width: usize,
    pub raw_height: usize,
    pub hints: Vec<String>,
}

impl Cam {
    fn empty() -> Cam {
        Cam {
            make: String::new(),
            model: String::new(),
            mode: String::new(),
            clean_make: String::new(),
            clean_model: String::new(),
            white: 0,
            black: 0,
            blackareah: (0, 0),
            blackareav: (0, 0),
            matrix: [[0.0; 3]; 4],
            pattern: String::new(),
            crops: [0; 4],
            bps: 0,
            wb_offset: 0,
            filesize: 0,
            raw_width: 0,
            raw_height: 0,
            hints: vec![],
        }
    }
    pub fn hint(&self, h: &str) -> bool {
        self.hints.iter().any(|x| x == h)
    }
    fn apply(&mut self, t: &toml::value::Table) {
        let s = |k: &str| t.get(k).map(|v| v.as_str().unwrap().to_string());
        let n = |k: &str| t.get(k).map(|v| v.as_integer().unwrap());
        let l = |k: &str| t.get(k).map(|v| v.as_array().unwrap().iter().map(|x| x.as_integer().unwrap()).collect::<Vec<i64>>());
        if let Some(v) = s("make") { self.make = v }
        if let Some(v) = s("model") { self.model = v }
        if let Some(v) = s("mode") { self.mode = v }
        if let Some(v) = s("clean_make") { self.clean_make = v }
        if let Some(v) = s("clean_model") { self.clean_model = v }
        if let Some(v) = s("color_pattern") { self.pattern = v }
        if let Some(v) = n("whitepoint") { self.white = v as u16 }
        if let Some(v) = n("blackpoint") { self.black = v as u16 }
        if let Some(v) = n("bps") { self.bps = v as usize }
        if let Some(v) = n("wb_offset") { self.wb_offset = v as usize }
        if let Some(v) = n("filesize") { self.filesize = v as usize }
        if let Some(v) = n("raw_width") { self.raw_width = v as usize }
        if let Some(v) = n("raw_height") { self.raw_height = v as usize }
        if let Some(v) = l("blackareah") { self.blackareah = (v[0] as usize, v[1] as usize) }
        if let Some(v) = l("blackareav") { self.blackareav = (v[0] as usize, v[1] as usize) }
        if let Some(v) = l("crops") { for i in 0..v.len() { self.crops[i] = v[i] as usize } }
        if let Some(v) = l("color_matrix") { for i in 0..v.len() { self.matrix[i / 3][i % 3] = v[i] as f32 } }
        if let Some(v) = t.get("hints") {
            self.hints = v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
        }
    }
    /// Dimensions of one period of the colour filter pattern
    pub fn cfa_dims(&self) -> (usize, usize) {
        pattern_dims(&self.pattern)
    }
    /// Colour index (R 0, G 1, B 2, E 3) at a sensor position
    pub fn color_at(&self, row: usize, col: usize) -> usize {
        pattern_color(&self.pattern, row, col)
    }
}

pub fn pattern_dims(p: &str) -> (usize, usize) {
    match p.len() {
        0 => (0, 0),
        4 => (2, 2),
        16 => (2, 8),
        36 => (6, 6),
        144 => (12, 12),
        n => panic!("pattern of length {}", n),
    }
}

pub fn pattern_color(p: &str, row: usize, col: usize) -> usize {
    let (w, h) = pattern_dims(p);
    match p.as_bytes()[(row % h) * w + col % w] {
        b'R' => 0,
        b'G' => 1,
        b'B' => 2,
        b'E' => 3,
        c => panic!("colour {}", c),
    }
}

pub struct Catalogue {
    pub cams: BTreeMap<(String, String, String), Cam>,
    pub naked: BTreeMap<usize, Cam>,
}

pub fn load() -> Catalogue {
    let v: Value = include_str!("../catalogue.toml").parse().unwrap();
    let mut cams = BTreeMap::new();
    let mut naked = BTreeMap::new();
    for c in v.get("cameras").unwrap().as_array().unwrap() {
        let t = c.as_table().unwrap();
        let mut base = Cam::empty();
        base.apply(t);
        let mut names = vec![(base.model.clone(), base.clean_model.clone())];
        if let Some(a) = t.get("model_aliases") {
            for x in a.as_array().unwrap() {
                names.push((x[0].as_str().unwrap().to_string(), x[1].as_str().unwrap().to_string()));
            }
        }
        let mut modes = vec![base.clone()];
        if let Some(m) = t.get("modes") {
            for x in m.as_array().unwrap() {
                let mut c = base.clone();
                c.apply(x.as_table().unwrap());
                modes.push(c);
            }
        }
        for (model, clean) in &names {
            for m in &modes {
                let mut c = m.clone();
                c.model = model.clone();
                c.clean_model = clean.clone();
                if c.filesize > 0 {
                    naked.insert(c.filesize, c.clone());
                }
                cams.insert((c.make.clone(), c.model.clone(), c.mode.clone()), c);
            }
        }
    }
    Catalogue { cams, naked }
}
