//! The reference model: what one unit at the front of the remaining input means, for each encoding.
//! Written from the Unicode standard (table 3-7), the WHATWG Encoding Standard and the published
//! single-byte tables; it shares no code with the crate under test and does not use core::str::from_utf8.
use crate::encs::{Enc, Kind};

pub const NONE16: u16 = 0xFFFF;

pub struct Single {
    pub dec: [u32; 128],  // 0 = undefined
    pub enc: Vec<u16>,    // indexed by code point < 0x10000; NONE16 = unmapped
}

pub struct Tables {
    pub singles: Vec<(String, Single)>,
    pub big5_dec: Vec<u32>,  // by pointer; 0 = none
    pub big5_enc: Vec<u16>,  // by code point < 0x30000; 0 = none
    /// characters for which WHATWG names a code (pointer >= 5024); the rest of the index is the HKSCS extension
    pub big5_whatwg: Vec<bool>,
    pub jis_dec: Vec<u32>,
    pub jis_enc: Vec<u16>,   // by code point < 0x10000
}

fn idx(txt: &str) -> Vec<(usize, u32)> {
    txt.lines()
        .filter(|l| !l.starts_with('#') && !l.is_empty())
        .map(|l| {
            let mut q = l.split(' ');
            (q.next().unwrap().parse().unwrap(), u32::from_str_radix(q.next().unwrap(), 16).unwrap())
        })
        .collect()
}

pub fn big5_bytes(p: usize) -> [u8; 2] {
    let t = p % 157;
    [(p / 157 + 0x81) as u8, (t + if t < 0x3F { 0x40 } else { 0x62 }) as u8]
}
pub fn sjis_bytes(p: usize) -> [u8; 2] {
    let (l, t) = (p / 188, p % 188);
    [(l + if l < 0x1F { 0x81 } else { 0xC1 }) as u8, (t + if t < 0x3F { 0x40 } else { 0x41 }) as u8]
}
fn w(b: [u8; 2]) -> u16 {
    u16::from_be_bytes(b)
}

impl Tables {
    pub fn load() -> Tables {
        let mut singles = Vec::new();
        for l in include_str!("../../oracle/single_byte.txt").lines() {
            if l.starts_with('#') {
                continue;
            }
            let mut q = l.split(' ');
            let name = q.next().unwrap().to_string();
            let mut s = Single { dec: [0; 128], enc: vec![NONE16; 0x10000] };
            for i in 0..128 {
                s.enc[i] = i as u16;
                let h = q.next().unwrap();
                if h != "-" {
                    let c = u32::from_str_radix(h, 16).unwrap();
                    s.dec[i] = c;
                    s.enc[c as usize] = 128 + i as u16;
                }
            }
            singles.push((name, s));
        }
        let b5 = idx(include_str!("../../oracle/big5.txt"));
        let mut big5_dec = vec![0; 126 * 157];
        let mut big5_enc = vec![0u16; 0x30000];
        let mut big5_whatwg = vec![false; 0x30000];
        for &(p, c) in &b5 {
            big5_dec[p] = c;
        }
        for &(p, c) in &b5 {
            let last = [0x2550, 0x255E, 0x2561, 0x256A, 0x5341, 0x5345].contains(&c);
            if p >= 5024 && (last || !big5_whatwg[c as usize]) {
                big5_enc[c as usize] = w(big5_bytes(p));
                big5_whatwg[c as usize] = true;
            }
        }
        for &(p, c) in &b5 {
            if big5_enc[c as usize] == 0 {
                big5_enc[c as usize] = w(big5_bytes(p));
            }
        }
        let j = idx(include_str!("../../oracle/jis0208.txt"));
        let mut jis_dec = vec![0; 60 * 188];
        let mut jis_enc = vec![0u16; 0x10000];
        for &(p, c) in &j {
            jis_dec[p] = c;
            if !(8272..=8835).contains(&p) && jis_enc[c as usize] == 0 {
                jis_enc[c as usize] = w(sjis_bytes(p));
            }
        }
        for i in 0..1880usize {
            jis_dec[8836 + i] = 0xE000 + i as u32;
            jis_enc[0xE000 + i] = w(sjis_bytes(8836 + i));
        }
        Tables { singles, big5_dec, big5_enc, big5_whatwg, jis_dec, jis_enc }
    }
}

/// Up to 8 bytes inline.
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub struct Small {
    b: [u8; 8],
    n: u8,
}
impl Small {
    pub fn as_slice(&self) -> &[u8] {
        &self.b[..self.n as usize]
    }
    pub fn len(&self) -> usize {
        self.n as usize
    }
    pub fn bytes(x: &[u8]) -> Small {
        let mut s = Small { b: [0; 8], n: x.len() as u8 };
        s.b[..x.len()].copy_from_slice(x);
        s
    }
    /// UTF-8 form of a code point, by the definition (not via char::encode_utf8).
    #[inline]
    pub fn utf8(c: u32) -> Small {
        let mut b = [0u8; 8];
        let n = if c < 0x80 {
            b[0] = c as u8;
            1
        } else if c < 0x800 {
            b[0] = 0xC0 | (c >> 6) as u8;
            b[1] = 0x80 | (c & 0x3F) as u8;
            2
        } else if c < 0x10000 {
            b[0] = 0xE0 | (c >> 12) as u8;
            b[1] = 0x80 | (c >> 6 & 0x3F) as u8;
            b[2] = 0x80 | (c & 0x3F) as u8;
            3
        } else {
            b[0] = 0xF0 | (c >> 18) as u8;
            b[1] = 0x80 | (c >> 12 & 0x3F) as u8;
            b[2] = 0x80 | (c >> 6 & 0x3F) as u8;
            b[3] = 0x80 | (c & 0x3F) as u8;
            4
        };
        Small { b, n }
    }
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum DU {
    Ch { n: usize, s: Small },
    Bad { n: usize },
    Inc,
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum EU {
    Ok { n: usize, s: Small },
    Bad { c: char },
    Inc,
}

fn ch(n: usize, c: u32) -> DU {
    DU::Ch { n, s: Small::utf8(c) }
}

/// Well-formedness of one UTF-8 sequence, Unicode table 3-7. Returns (length, scalar).
#[inline]
pub fn utf8_unit(r: &[u8]) -> Result<(usize, u32), bool /* incomplete */> {
    let b0 = r[0];
    let (need, lo, hi, init) = match b0 {
        0x00..=0x7F => return Ok((1, b0 as u32)),
        0xC2..=0xDF => (1, 0x80, 0xBF, b0 & 0x1F),
        0xE0 => (2, 0xA0, 0xBF, 0),
        0xED => (2, 0x80, 0x9F, 0xD),
        0xE1..=0xEF => (2, 0x80, 0xBF, b0 & 0xF),
        0xF0 => (3, 0x90, 0xBF, 0),
        0xF1..=0xF3 => (3, 0x80, 0xBF, b0 & 7),
        0xF4 => (3, 0x80, 0x8F, 4),
        _ => return Err(false),
    };
    let mut c = init as u32;
    for i in 1..=need {
        if i >= r.len() {
            return Err(true);
        }
        let (l, h) = if i == 1 { (lo, hi) } else { (0x80, 0xBF) };
        if r[i] < l || r[i] > h {
            return Err(false);
        }
        c = c << 6 | (r[i] & 0x3F) as u32;
    }
    Ok((need + 1, c))
}

/// Is the whole slice well-formed UTF-8? Returns the offset of the first problem.
pub fn utf8_valid(mut r: &[u8]) -> Result<(), usize> {
    let n = r.len();
    while !r.is_empty() {
        match utf8_unit(r) {
            Ok((k, _)) => r = &r[k..],
            Err(_) => return Err(n - r.len()),
        }
    }
    Ok(())
}

pub struct Model<'t> {
    pub t: &'t Tables,
    pub kind: Kind,
    pub single: Option<&'t Single>,
}

impl<'t> Model<'t> {
    pub fn new(t: &'t Tables, e: &Enc) -> Model<'t> {
        let single = if e.kind == Kind::Single {
            Some(&t.singles.iter().find(|s| s.0 == e.name).expect("no oracle table").1)
        } else {
            None
        };
        Model { t, kind: e.kind, single }
    }

    /// The first unit of non-empty `r`.
    pub fn dec(&self, r: &[u8]) -> DU {
        match self.kind {
            Kind::Utf8 => match utf8_unit(r) {
                Ok((n, c)) => ch(n, c),
                Err(true) => DU::Inc,
                Err(false) => {
                    let mut n = 1;
                    while n < r.len() && (r[n] >> 6 == 2 || r[n] >= 0xF8) {
                        n += 1;
                    }
                    DU::Bad { n }
                }
            },
            Kind::Utf16 { be } => {
                let u = |i: usize| if be { (r[i] as u32) << 8 | r[i + 1] as u32 } else { (r[i + 1] as u32) << 8 | r[i] as u32 };
                if r.len() < 2 {
                    return DU::Inc;
                }
                match u(0) {
                    0xDC00..=0xDFFF => DU::Bad { n: 2 },
                    h @ 0xD800..=0xDBFF => {
                        if r.len() < 4 {
                            return DU::Inc;
                        }
                        match u(2) {
                            l @ 0xDC00..=0xDFFF => ch(4, 0x10000 + ((h - 0xD800) << 10) + (l - 0xDC00)),
                            _ => DU::Bad { n: 2 },
                        }
                    }
                    c => ch(2, c),
                }
            }
            Kind::Utf32 { be } => {
                if r.len() < 4 {
                    return DU::Inc;
                }
                let mut c = 0u32;
                for i in 0..4 {
                    c = c << 8 | r[if be { i } else { 3 - i }] as u32;
                }
                if c > 0x10FFFF || (0xD800..=0xDFFF).contains(&c) {
                    DU::Bad { n: 4 }
                } else {
                    ch(4, c)
                }
            }
            Kind::Big5 => {
                let a = r[0];
                if a < 0x80 {
                    return ch(1, a as u32);
                }
                if a == 0x80 || a == 0xFF {
                    return DU::Bad { n: 1 };
                }
                if r.len() < 2 {
                    return DU::Inc;
                }
                let b = r[1];
                if (0x40..=0x7E).contains(&b) || (0xA1..=0xFE).contains(&b) {
                    let p = (a as usize - 0x81) * 157 + (b as usize - if b < 0x7F { 0x40 } else { 0x62 });
                    let two: Option<&str> = match p {
                        1133 => Some("\u{CA}\u{304}"),
                        1135 => Some("\u{CA}\u{30C}"),
                        1164 => Some("\u{EA}\u{304}"),
                        1166 => Some("\u{EA}\u{30C}"),
                        _ => None,
                    };
                    if let Some(t) = two {
                        return DU::Ch { n: 2, s: Small::bytes(t.as_bytes()) };
                    }
                    let c = self.t.big5_dec[p];
                    if c != 0 {
                        return ch(2, c);
                    }
                }
                DU::Bad { n: if b < 0x80 { 1 } else { 2 } }
            }
            Kind::Sjis => {
                let a = r[0];
                match a {
                    0..=0x80 => ch(1, a as u32),
                    0xA1..=0xDF => ch(1, 0xFF61 + a as u32 - 0xA1),
                    0xA0 | 0xFD..=0xFF => DU::Bad { n: 1 },
                    _ => {
                        if r.len() < 2 {
                            return DU::Inc;
                        }
                        let b = r[1];
                        if (0x40..=0x7E).contains(&b) || (0x80..=0xFC).contains(&b) {
                            let l = a as usize - if a < 0xA0 { 0x81 } else { 0xC1 };
                            let p = l * 188 + b as usize - if b < 0x7F { 0x40 } else { 0x41 };
                            let c = self.t.jis_dec.get(p).copied().unwrap_or(0);
                            if c != 0 {
                                return ch(2, c);
                            }
                        }
                        DU::Bad { n: if b < 0x80 { 1 } else { 2 } }
                    }
                }
            }
            Kind::Single => {
                let a = r[0];
                if a < 0x80 {
                    return ch(1, a as u32);
                }
                match self.single.unwrap().dec[a as usize - 128] {
                    0 => DU::Bad { n: 1 },
                    c => ch(1, c),
                }
            }
        }
    }

    /// The code of one character (no composition), or None.
    pub fn enc_char(&self, c: u32) -> Option<Small> {
        let two = |x: u16| if x == 0 { None } else { Some(Small::bytes(&x.to_be_bytes())) };
        match self.kind {
            Kind::Utf8 => Some(Small::utf8(c)),
            Kind::Utf16 { be } => {
                let f = |u: u32| if be { [(u >> 8) as u8, u as u8] } else { [u as u8, (u >> 8) as u8] };
                if c < 0x10000 {
                    Some(Small::bytes(&f(c)))
                } else {
                    let d = c - 0x10000;
                    let (h, l) = (f(0xD800 + d / 0x400), f(0xDC00 + d % 0x400));
                    Some(Small::bytes(&[h[0], h[1], l[0], l[1]]))
                }
            }
            Kind::Utf32 { be } => {
                let b = [(c >> 24) as u8, (c >> 16) as u8, (c >> 8) as u8, c as u8];
                Some(Small::bytes(&if be { b } else { [b[3], b[2], b[1], b[0]] }))
            }
            Kind::Big5 => {
                if c < 0x80 {
                    Some(Small::bytes(&[c as u8]))
                } else {
                    two(self.t.big5_enc.get(c as usize).copied().unwrap_or(0))
                }
            }
            Kind::Sjis => match c {
                0..=0x80 => Some(Small::bytes(&[c as u8])),
                0xA5 => Some(Small::bytes(&[0x5C])),
                0x203E => Some(Small::bytes(&[0x7E])),
                0xFF61..=0xFF9F => Some(Small::bytes(&[(c - 0xFF61 + 0xA1) as u8])),
                0x2212 => two(self.t.jis_enc[0xFF0D]),
                _ => two(self.t.jis_enc.get(c as usize).copied().unwrap_or(0)),
            },
            Kind::Single => match self.single.unwrap().enc.get(c as usize) {
                Some(&b) if b != NONE16 => Some(Small::bytes(&[b as u8])),
                _ => None,
            },
        }
    }

    /// The first unit of non-empty `r`; `end`: no more text will follow.
    pub fn enc(&self, r: &str, end: bool) -> EU {
        let mut it = r.chars();
        let c = it.next().unwrap();
        if self.kind == Kind::Big5 && (c == '\u{CA}' || c == '\u{EA}') {
            match (c, it.next()) {
                (_, None) if !end => return EU::Inc,
                (a, Some(b)) if b == '\u{304}' || b == '\u{30C}' => {
                    let x = match (a, b) {
                        ('\u{CA}', '\u{304}') => 0x62,
                        ('\u{CA}', _) => 0x64,
                        (_, '\u{304}') => 0xA3,
                        _ => 0xA5,
                    };
                    return EU::Ok { n: 4, s: Small::bytes(&[0x88, x]) };
                }
                _ => {}
            }
        }
        match self.enc_char(c as u32) {
            Some(s) => EU::Ok { n: c.len_utf8(), s },
            None => EU::Bad { c },
        }
    }
}

/// Why a call must stop.
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Stop {
    Done,
    NoRoom,
    Bad { r: (usize, usize), c: Option<char> },
    Inc,
}
