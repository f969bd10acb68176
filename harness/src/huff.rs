//! Huffman tables and the JPEG difference coding shared by several raw formats.
use crate::pack::Msb;
use crate::rng::Rng;

#[derive(Clone, Debug)]
pub struct Huff {
    /// symbols in code order with their length
    pub order: Vec<(u8, u32)>,
    code: Vec<Option<(u32, u32)>>,
}

impl Huff {
    pub fn from_order(order: Vec<(u8, u32)>) -> Huff {
        let mut code = vec![None; 256];
        let mut c = 0u32;
        let mut len = 0;
        for &(s, l) in &order {
            assert!(l >= len);
            if len != 0 {
                c += 1;
            }
            c <<= l - len;
            len = l;
            assert!(c < 1 << l);
            code[s as usize] = Some((c, l));
        }
        Huff { order, code }
    }

    /// A random prefix code for the symbols with no code longer than `maxlen` and, as JPEG
    /// requires, without the code of all ones.
    pub fn random(rng: &mut Rng, symbols: &[u8], maxlen: u32) -> Huff {
        let mut syms = symbols.to_vec();
        rng.shuffle(&mut syms);
        let style = rng.below(4);
        // split leaves of a tree until there is one for each symbol and the unused one
        let mut leaves: Vec<u32> = vec![0];
        while leaves.len() < syms.len() + 1 {
            let open: Vec<usize> = (0..leaves.len()).filter(|&i| leaves[i] < maxlen).collect();
            let i = match style {
                // skewed, but only as long as the rest still fits
                0 => *open.iter().max_by_key(|&&i| leaves[i]).unwrap(),
                // balanced
                1 => *open.iter().min_by_key(|&&i| leaves[i]).unwrap(),
                _ => *rng.pick(&open),
            };
            leaves[i] += 1;
            let l = leaves[i];
            leaves.push(l);
        }
        leaves.sort();
        leaves.pop();
        if rng.chance(1, 4) {
            // leave some codes unused
            for i in 0..leaves.len() {
                if leaves[i] < maxlen && rng.bool() {
                    leaves[i] = rng.range(leaves[i] as usize, maxlen as usize) as u32;
                }
            }
            leaves.sort();
        }
        let order: Vec<(u8, u32)> = syms.iter().cloned().zip(leaves).collect();
        Huff::from_order(order)
    }

    pub fn has(&self, s: u8) -> bool {
        self.code[s as usize].is_some()
    }
    pub fn maxlen(&self) -> u32 {
        self.order.last().unwrap().1
    }
    pub fn put(&self, m: &mut Msb, s: u8) {
        let (c, l) = self.code[s as usize].unwrap_or_else(|| panic!("no code for {}", s));
        m.put(c, l);
    }
    pub fn code(&self, s: u8) -> (u32, u32) {
        self.code[s as usize].unwrap()
    }
    /// the contents of a DHT segment for this table
    pub fn dht(&self, id: u8) -> Vec<u8> {
        let mut bits = [0u8; 16];
        for &(_, l) in &self.order {
            bits[l as usize - 1] += 1;
        }
        let mut o = vec![id];
        o.extend(&bits);
        o.extend(self.order.iter().map(|x| x.0));
        o
    }
}

/// category of a difference modulo 2^16
pub fn category(d: i32) -> u32 {
    let d = d as i16 as i32;
    32 - d.abs().leading_zeros()
}
pub fn put_diff_bits(m: &mut Msb, d: i32, cat: u32) {
    let d = d as i16 as i32;
    if cat == 0 || cat == 16 {
        return;
    }
    let v = if d >= 0 { d } else { d + (1 << cat) - 1 };
    m.put(v as u32, cat);
}
/// `extra16`: 16 extra bits follow the code of the 16 bit difference
pub fn put_diff(m: &mut Msb, h: &Huff, d: i32, extra16: bool, junk: u32) {
    let c = category(d);
    h.put(m, c as u8);
    put_diff_bits(m, d, c);
    if c == 16 && extra16 {
        m.put(junk & 0xffff, 16);
    }
}
