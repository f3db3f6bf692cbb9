//! The enumerated input spaces ("families"). Each family is finite and is visited completely.
use crate::encs::{Enc, Kind};
use crate::judge::text;
use crate::model::{Model, Tables, DU, EU};
use crate::rt::{Cx, Shared};
use std::sync::Arc;

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Rooms {
    /// every room from 0 to what the whole input needs, plus 5
    All,
    /// 0..=4 and everything within 5 of what the whole input needs
    Edge,
    /// exactly enough, one less, ample
    Tight,
    /// ample
    Full,
    /// far more than enough: up to beyond 2^16 bytes to spare
    Huge,
}
impl Rooms {
    #[inline]
    pub fn each(self, need: usize, mut f: impl FnMut(usize) -> bool) {
        match self {
            Rooms::All => {
                for b in 0..=need + 5 {
                    if !f(b) {
                        return;
                    }
                }
            }
            Rooms::Edge => {
                let lo = need.saturating_sub(5);
                for b in 0..lo.min(5) {
                    if !f(b) {
                        return;
                    }
                }
                for b in lo..=need + 5 {
                    if !f(b) {
                        return;
                    }
                }
            }
            Rooms::Tight => {
                let _ = (need == 0 || f(need - 1)) && f(need) && f(need + 5) && f(need + 40);
            }
            Rooms::Huge => {
                for k in [8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1000, 1024, 4096, 8192, 65535, 65536, 65600] {
                    if !f(need + k) {
                        return;
                    }
                }
            }
            Rooms::Full => {
                f(need + 8);
            }
        }
    }
}

pub type Alpha = Arc<Vec<Vec<u8>>>;

pub const TEXT: &[char] = &[
    'A', '\0', '\u{7F}', '\u{80}', '\u{A5}', '\u{E9}', '\u{CA}', '\u{EA}', '\u{304}', '\u{30C}', '\u{3B1}', '\u{7FF}', '\u{800}',
    '\u{203E}', '\u{2212}', '\u{FF0D}', '\u{4E00}', '\u{306F}', '\u{E000}', '\u{E757}', '\u{E758}', '\u{FF61}', '\u{FF9F}',
    '\u{FFFD}', '\u{FFFF}', '\u{10000}', '\u{2910D}', '\u{1F63A}', '\u{10FFFF}',
];

/// Output-length classes of characters for this encoding plus the special ones.
pub fn text_alpha(_e: &Enc) -> Alpha {
    Arc::new(TEXT.iter().map(|c| c.to_string().into_bytes()).collect())
}
/// A reduced text alphabet (one per behaviour class) for deep words.
pub fn text_small(e: &Enc, m: &Model) -> Alpha {
    let mut v: Vec<char> = vec!['A'];
    // one encodable character per (utf8 length, code length), plus one unencodable per utf8 length
    let mut seen = std::collections::HashSet::new();
    for c in (0x80u32..0x30000).chain([0x10FFFF]) {
        if let Some(ch) = char::from_u32(c) {
            let k = (ch.len_utf8(), m.enc_char(c).map(|s| s.len()));
            if seen.insert(k) {
                v.push(ch);
            }
        }
    }
    if e.kind == Kind::Big5 {
        v.extend(['\u{CA}', '\u{EA}', '\u{304}', '\u{30C}']);
    }
    if e.kind == Kind::Sjis {
        v.extend(['\u{A5}', '\u{2212}', '\u{E000}', '\u{FF61}']);
    }
    let mut s: Vec<char> = vec![];
    for c in v {
        if !s.contains(&c) {
            s.push(c);
        }
    }
    Arc::new(s.iter().map(|c| c.to_string().into_bytes()).collect())
}

pub fn byte_alpha(e: &Enc, t: &Tables) -> Alpha {
    let one = |b: &[u8]| -> Vec<Vec<u8>> { b.iter().map(|&x| vec![x]).collect() };
    Arc::new(match e.kind {
        Kind::Utf8 => one(&[
            0x00, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF, 0xF0, 0xF1,
            0xF3, 0xF4, 0xF5, 0xF8, 0xFB, 0xFC, 0xFE, 0xFF,
        ]),
        Kind::Utf16 { be } => {
            let mut v: Vec<Vec<u8>> = [0u16, 0x41, 0xE9, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFEFF, 0xFFFE, 0xFFFF]
                .iter()
                .map(|u| if be { u.to_be_bytes().to_vec() } else { u.to_le_bytes().to_vec() })
                .collect();
            v.extend(one(&[0x00, 0x41, 0xD8, 0xDC]));
            v
        }
        Kind::Utf32 { be } => {
            let mut v: Vec<Vec<u8>> =
                [0u32, 0x41, 0xE9, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0xFEFF, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0xFFFE0000, 0xFFFFFFFF]
                    .iter()
                    .map(|u| if be { u.to_be_bytes().to_vec() } else { u.to_le_bytes().to_vec() })
                    .collect();
            v.extend(one(&[0x00, 0x41, 0xFF]));
            v
        }
        Kind::Big5 => one(&[
            0x00, 0x3F, 0x40, 0x41, 0x62, 0x64, 0x7E, 0x7F, 0x80, 0x81, 0x87, 0x88, 0x8B, 0xA0, 0xA1, 0xA3, 0xA4, 0xA5, 0xC6, 0xC9, 0xF9, 0xFA,
            0xFE, 0xFF,
        ]),
        Kind::Sjis => one(&[
            0x00, 0x3F, 0x40, 0x41, 0x5C, 0x7E, 0x7F, 0x80, 0x81, 0x82, 0x87, 0x88, 0x9F, 0xA0, 0xA1, 0xDF, 0xE0, 0xEA, 0xED, 0xF0, 0xF9, 0xFA,
            0xFC, 0xFD, 0xFF,
        ]),
        Kind::Single => {
            let s = &t.singles.iter().find(|s| s.0 == e.name).unwrap().1;
            let mut v = vec![0x00, 0x41, 0x7F, 0x80, 0xA0, 0xFF];
            let mut push = |x: Option<usize>| {
                if let Some(x) = x {
                    let b = 0x80 + x as u8;
                    if !v.contains(&b) {
                        v.push(b)
                    }
                }
            };
            push((0..128).find(|&i| s.dec[i] == 0));
            push((0..128).rev().find(|&i| s.dec[i] == 0));
            push((0..128).find(|&i| s.dec[i] >= 0x800));
            push((0..128).find(|&i| s.dec[i] != 0 && s.dec[i] < 0x800));
            one(&v)
        }
    })
}

/// Well-formed units of every output length the decoder can produce, as (bytes) samples.
pub fn good_units(e: &Enc, m: &Model) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    let mut seen = std::collections::HashSet::new();
    for c in [0x41u32, 0x5A].into_iter().chain(0x80..0x30000) {
        if char::from_u32(c).is_none() {
            continue;
        }
        if let Some(s) = m.enc_char(c) {
            let utf8 = crate::model::Small::utf8(c).len();
            if seen.insert((s.len(), utf8)) {
                v.push(s.as_slice().to_vec());
            }
        }
    }
    if e.kind == Kind::Big5 {
        v.push(vec![0x88, 0x62]);
    }
    v
}

/// Byte alphabets for the tail of long inputs: the alphabet plus all good units.
pub fn tails_dec(e: &Enc, m: &Model, t: &Tables) -> Vec<Vec<u8>> {
    let mut v = vec![vec![]];
    v.extend(byte_alpha(e, t).iter().cloned());
    let sym = byte_alpha(e, t);
    v.extend(good_units(e, m));
    if let Kind::Utf8 = e.kind {
        v.extend([&[0xE3u8, 0x81][..], &[0xF0, 0x9F], &[0xF0, 0x9F, 0x98], &[0xE3, 0x41], &[0xED, 0xA0, 0x80], &[0xED, 0xBF, 0xBF], &[0xC0, 0x80], &[0xE0, 0x9F, 0xBF], &[0xF0, 0x8F, 0xBF, 0xBF], &[0xF4, 0x90, 0x80, 0x80], &[0xE3, 0x81, 0x41], &[0xF0, 0x9F, 0x98, 0x41]].iter().map(|x| x.to_vec()));
    }
    if let Kind::Utf16 { be } = e.kind {
        // unpaired / truncated surrogates
        let h = if be { [0xD8, 0x3D] } else { [0x3D, 0xD8] };
        v.push([&h[..], &h[..1]].concat());
        v.push([&h[..], &[0x41, 0x41]].concat());
        v.push([&h[..], &h[..]].concat());
    }
    if matches!(e.kind, Kind::Big5 | Kind::Sjis) {
        for a in sym.iter().filter(|a| a[0] > 0x80) {
            for b in [0x20u8, 0x41, 0x7F, 0xA1, 0xFE, 0xFF] {
                v.push(vec![a[0], b]);
            }
        }
    }
    let mut out: Vec<Vec<u8>> = vec![];
    for x in v {
        if !out.contains(&x) {
            out.push(x);
        }
    }
    out
}
pub fn tails_enc(e: &Enc, m: &Model) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![]];
    v.extend(text_alpha(e).iter().cloned());
    if e.kind == Kind::Big5 {
        for a in ['\u{CA}', '\u{EA}'] {
            for b in ['\u{304}', '\u{30C}', 'A'] {
                v.push(format!("{a}{b}").into_bytes());
            }
        }
    }
    v.extend(text_small(e, m).iter().cloned());
    let mut out: Vec<Vec<u8>> = vec![];
    for x in v {
        if !out.contains(&x) {
            out.push(x);
        }
    }
    out
}
/// Units of text to build long inputs from: one encodable character per (utf8 length, code length).
pub fn text_units(e: &Enc, m: &Model) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = text_small(e, m).iter().filter(|c| m.enc_char(std::str::from_utf8(c).unwrap().chars().next().unwrap() as u32).is_some()).cloned().collect();
    v.retain(|c| &c[..] != "\u{CA}".as_bytes() && &c[..] != "\u{EA}".as_bytes()); // pending letters in Big5
    v.truncate(5);
    if e.kind == Kind::Big5 {
        v.push("\u{CA}\u{304}".as_bytes().to_vec());
    }
    v
}

/// A finite family of inputs; `lo..hi` is the slice of it one job visits.
#[derive(Clone)]
pub enum Fam {
    /// all words of exactly d symbols
    Words { alpha: Alpha, d: u32 },
    /// all byte strings of exactly `len` bytes
    Bytes { len: u32 },
    /// every Unicode scalar value below `top`, between two fixed strings
    Chars { pre: Vec<u8>, post: Vec<u8>, top: u32 },
    /// the model's code of every scalar value, between two fixed strings
    CharCodes { pre: Vec<u8>, post: Vec<u8> },
    /// every pair of bytes between two fixed strings
    Codes { pre: Vec<u8>, post: Vec<u8> },
    /// u^i · s · v^j  for all listed values
    Shape { u: Vec<Vec<u8>>, i: Vec<usize>, s: Vec<Vec<u8>>, v: Vec<Vec<u8>>, j: Vec<usize> },
}
impl Fam {
    pub fn size(&self) -> u64 {
        match self {
            Fam::Words { alpha, d } => (alpha.len() as u64).pow(*d),
            Fam::Bytes { len } => 1u64 << (8 * len),
            Fam::Chars { top, .. } => *top as u64,
            Fam::CharCodes { .. } => 0x110000,
            Fam::Codes { .. } => 0x10000,
            Fam::Shape { u, i, s, v, j } => (u.len() * i.len() * s.len() * v.len() * j.len()) as u64,
        }
    }
    /// Writes member k; false if k is not a member (surrogates).
    #[inline]
    pub fn get(&self, mut k: u64, m: &Model, w: &mut Vec<u8>) -> bool {
        w.clear();
        match self {
            Fam::Words { alpha, d } => {
                let a = alpha.len() as u64;
                for _ in 0..*d {
                    w.extend_from_slice(&alpha[(k % a) as usize]);
                    k /= a;
                }
            }
            Fam::Bytes { len } => {
                for i in (0..*len).rev() {
                    w.push((k >> (8 * i)) as u8);
                }
            }
            Fam::Chars { pre, post, .. } => {
                let c = k as u32;
                if (0xD800..0xE000).contains(&c) {
                    return false;
                }
                w.extend_from_slice(pre);
                w.extend_from_slice(crate::model::Small::utf8(c).as_slice());
                w.extend_from_slice(post);
            }
            Fam::CharCodes { pre, post } => {
                let c = k as u32;
                if (0xD800..0xE000).contains(&c) {
                    return false;
                }
                let Some(x) = m.enc_char(c) else { return false };
                w.extend_from_slice(pre);
                w.extend_from_slice(x.as_slice());
                w.extend_from_slice(post);
            }
            Fam::Codes { pre, post } => {
                w.extend_from_slice(pre);
                w.push((k >> 8) as u8);
                w.push(k as u8);
                w.extend_from_slice(post);
            }
            Fam::Shape { u, i, s, v, j } => {
                let mut take = |n: usize| {
                    let r = (k % n as u64) as usize;
                    k /= n as u64;
                    r
                };
                let (a, b, c, d, e) = (take(u.len()), take(s.len()), take(v.len()), take(j.len()), take(i.len()));
                for _ in 0..i[e] {
                    w.extend_from_slice(&u[a]);
                }
                w.extend_from_slice(&s[b]);
                for _ in 0..j[d] {
                    w.extend_from_slice(&v[c]);
                }
            }
        }
        true
    }
    /// rough cost of one member relative to a short word
    fn weight(&self) -> u64 {
        match self {
            Fam::Shape { i, j, .. } => 1 + (i.iter().max().unwrap_or(&0) + j.iter().max().unwrap_or(&0)) as u64 / 16,
            _ => 1,
        }
    }
}

#[derive(Clone)]
pub struct Space {
    pub enc: usize,
    pub encode: bool,
    pub fam: Fam,
    pub rooms: Rooms,
    pub label: &'static str,
}

pub type Plan = Vec<Space>;

/// Visit every member of every space; the judge is called once per member.
pub fn explore<F>(sh: &Shared, plan: &Plan, judge: F)
where
    F: Fn(&mut Cx, &Enc, &Model, bool, &[u8], Rooms) + Sync,
{
    let mut jobs: Vec<(usize, u64, u64)> = vec![];
    // interleave: small jobs of every space first, so that shallow violations come out early
    for (i, s) in plan.iter().enumerate() {
        let n = s.fam.size();
        let step = (4096 / s.fam.weight()).max(8);
        let mut lo = 0;
        while lo < n {
            jobs.push((i, lo, (lo + step).min(n)));
            lo += step;
        }
    }
    jobs.sort_by_key(|j| j.1);
    sh.par(jobs.len() as u64, |cx, q| {
        let (i, lo, hi) = jobs[q as usize];
        let s = &plan[i];
        let e = sh.encs[s.enc];
        let m = &sh.models[s.enc];
        let mut w = Vec::with_capacity(64);
        let t0 = cx.st.transitions;
        let mut cnt = 0;
        for k in lo..hi {
            if !s.fam.get(k, m, &mut w) {
                continue;
            }
            cnt += 1;
            judge(cx, &e, m, s.encode, &w, s.rooms);
            if cx.stopped() {
                break;
            }
        }
        if lo == 0 && cx.st.samples.len() < 1 && !w.is_empty() {
            let s2 = format!("{} {} {}: {}", s.label, if s.encode { "encode" } else { "decode" }, e.name, crate::rt::short(&w));
            cx.st.samples.push(s2);
        }
        cx.st.traces += cnt;
        let dt = cx.st.transitions - t0;
        cx.st.extra(&format!("inputs[{}]", s.label), cnt);
        cx.st.extra(&format!("calls[{}]", s.label), dt);
    });
}

/// A spread of at most n members of a list (always including the first and last).
pub fn some_of(v: &[Vec<u8>], n: usize) -> Vec<Vec<u8>> {
    if v.len() <= n {
        return v.to_vec();
    }
    (0..n).map(|i| v[i * (v.len() - 1) / (n - 1)].clone()).collect()
}
fn medium(sh: &Shared) -> Vec<usize> {
    if sh.thorough {
        (69..=300).collect()
    } else {
        (69..=132).chain(190..=194).chain(253..=258).collect()
    }
}

pub fn near_pow2(lo: u32, hi: u32) -> Vec<usize> {
    let mut v = vec![];
    for k in lo..=hi {
        for d in -2i64..=2 {
            v.push(((1i64 << k) + d) as usize);
        }
    }
    v
}

/// Repetition counts that bring units of 1..4 bytes next to common block sizes (powers of two, 3*2^k, round decimals).
pub fn round_counts(lo: usize, hi: usize) -> Vec<usize> {
    let mut b: Vec<usize> = vec![200, 250, 300, 400, 500, 600, 700, 750, 800, 900, 1000, 1200, 1500, 2000, 2500, 3000, 4000, 5000, 6000, 7000, 8000, 9000, 10000, 12000, 16000, 20000, 50000, 100000];
    for k in 7..20 {
        b.push(1 << k);
        b.push(3 << (k - 1));
    }
    let mut v: Vec<usize> = b.iter().filter(|&&b| b <= hi).flat_map(|&b| (1..=4usize).flat_map(move |l| [b / l - 1, b / l, b / l + 1])).filter(|&c| c >= lo).collect();
    v.sort();
    v.dedup();
    v
}

/// Whole units and ill-formed units of every behaviour class, for deeper words than the byte alphabet allows.
pub fn unit_alpha(e: &Enc, m: &Model, t: &Tables) -> Alpha {
    let mut v: Vec<Vec<u8>> = vec![b"A".to_vec()];
    let w = |x: &[&[u8]]| -> Vec<Vec<u8>> { x.iter().map(|b| b.to_vec()).collect() };
    match e.kind {
        Kind::Utf8 => v.extend(w(&[b"\xC3\xA9", b"\xE3\x81\x93", b"\xF0\x9F\x98\xBA", b"\x80", b"\xFF", b"\xC3", b"\xE3\x81", b"\xF0\x9F\x98", b"\xF4"])),
        Kind::Utf16 { be } => {
            let u = |x: &[u16]| -> Vec<u8> { x.iter().flat_map(|x| if be { x.to_be_bytes() } else { x.to_le_bytes() }).collect() };
            v = vec![u(&[0x41]), u(&[0xE9]), u(&[0x3053]), u(&[0xD83D, 0xDE3A]), u(&[0xD83D]), u(&[0xDE3A]), vec![0x41]];
        }
        Kind::Utf32 { be } => {
            let u = |x: u32| if be { x.to_be_bytes().to_vec() } else { x.to_le_bytes().to_vec() };
            v = vec![u(0x41), u(0xE9), u(0x3053), u(0x1F63A), u(0xD83D), u(0x110000), vec![0], vec![0, 0]];
        }
        Kind::Big5 => v.extend(w(&[b"\xA4\xB5", b"\xFE\xFD", b"\x88\x62", b"\x88\x66", b"\xA3\xB8", b"\xA4", b"\xA4\x20", b"\x81\xFE", b"\x80"])),
        Kind::Sjis => v.extend(w(&[b"\x80", b"\xB1", b"\x82\xA0", b"\xF0\x40", b"\x83\xB6", b"\x82", b"\x82\x20", b"\x85\xFC", b"\xFD"])),
        Kind::Single => {
            v.extend(good_units(e, m).into_iter().filter(|u| u[0] > 0x7F));
            let s = &t.singles.iter().find(|s| s.0 == e.name).unwrap().1;
            if let Some(i) = (0..128).find(|&i| s.dec[i] == 0) {
                v.push(vec![0x80 + i as u8]);
            }
        }
    }
    Arc::new(v)
}
/// Characters of every behaviour class, few.
pub fn class_chars(e: &Enc, m: &Model) -> Vec<Vec<u8>> {
    let v = text_small(e, m).to_vec();
    if matches!(e.kind, Kind::Big5 | Kind::Sjis) { v } else { v.into_iter().take(8).collect() }
}
/// a · A^k · b for all a, b of a list: two special units at every small distance.
fn doubles(a: &[Vec<u8>], fill: &[u8], top: usize) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for x in a {
        for y in a {
            for k in 0..=top {
                v.push([&x[..], &fill.repeat(k), &y[..]].concat());
            }
        }
    }
    v
}

/// Characters that text processing likes to treat specially next to others (line ends, marks, joiners, byte order marks).
pub const MARKS: &[char] = &[
    '\0', '\n', '\r', '\u{1A}', '\u{1B}', ' ', 'A', 'e', '~', '\\', '\u{A0}', '\u{AD}', '\u{300}', '\u{301}', '\u{302}', '\u{303}', '\u{304}',
    '\u{308}', '\u{309}', '\u{30C}', '\u{323}', '\u{327}', '\u{338}', '\u{5BC}', '\u{64B}', '\u{E33}', '\u{200C}', '\u{200D}', '\u{2028}', '\u{20E3}',
    '\u{3099}', '\u{309A}', '\u{309B}', '\u{FE0F}', '\u{FEFF}', '\u{FF9E}', '\u{FF9F}', '\u{FFFD}', '\u{FFFE}', '\u{1F3FB}', '\u{E0100}',
];
pub fn marks() -> Vec<Vec<u8>> {
    MARKS.iter().map(|c| c.to_string().into_bytes()).collect()
}
/// All characters of the repertoire (for the UTFs: everything up to U+30FF, and every 61st beyond).
pub fn repertoire(e: &Enc, m: &Model) -> Vec<u32> {
    (0..0x110000u32).filter(|&c| char::from_u32(c).is_some() && (!e.is_utf() || c < 0x3100 || c % 61 == 0 || (0xFDD0..0x10000).contains(&c)) && m.enc_char(c).is_some()).collect()
}
/// Codes to embed when decoding: every code of the repertoire, every two-byte combination with a non-ASCII first byte
/// (multi-byte encodings), every unit (UTF-16), every byte (single-byte).
pub fn code_list(e: &Enc, m: &Model) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![];
    match e.kind {
        Kind::Single => return (0..=255u8).map(|b| vec![b]).collect(),
        Kind::Utf16 { .. } => v.extend((0..=0xFFFFu16).map(|u| u.to_be_bytes().to_vec())),
        Kind::Utf32 { be } => v.extend([0x110000u32, 0xD800, 0xDFFF, 0x1000041, 0x80000041, 0x410000].iter().map(|u| if be { u.to_be_bytes().to_vec() } else { u.to_le_bytes().to_vec() })),
        _ => v.extend((0x8000..=0xFFFFu16).map(|u| u.to_be_bytes().to_vec())),
    }
    for c in repertoire(e, m) {
        let x = m.enc_char(c).unwrap().as_slice().to_vec();
        if x.len() > 2 || matches!(e.kind, Kind::Utf32 { .. }) {
            v.push(x);
        }
    }
    v
}

/// Every code (decode) or character (encode) inside a run of the first valid one of its own row
/// (same lead byte, same high byte of the unit, same 256-block of the code space).
pub fn rows(e: &Enc, m: &Model, encode: bool) -> Vec<(Vec<u8>, Vec<u8>)> {
    use std::collections::HashMap;
    let rep = repertoire(e, m);
    let mut first: HashMap<u32, Vec<u8>> = HashMap::new();
    let mut v = vec![];
    if encode {
        for &c in &rep {
            first.entry(c >> 8).or_insert_with(|| crate::model::Small::utf8(c).as_slice().to_vec());
        }
        for &c in &rep {
            v.push((first[&(c >> 8)].clone(), crate::model::Small::utf8(c).as_slice().to_vec()));
        }
        return v;
    }
    let key = |x: &[u8]| -> u32 {
        match e.kind {
            Kind::Single => 1 + (x[0] >> 7) as u32,
            Kind::Utf16 { be } => x[if be { 0 } else { 1 }] as u32,
            Kind::Utf32 { be } => if be { x[2] as u32 } else { x[1] as u32 },
            _ => x[0] as u32,
        }
    };
    for &c in &rep {
        let x = m.enc_char(c).unwrap();
        let x = x.as_slice();
        first.entry(key(x)).or_insert_with(|| x.to_vec());
    }
    let fallback = good_units(e, m)[0].clone();
    for x in code_list(e, m) {
        v.push((first.get(&key(&x)).unwrap_or(&fallback).clone(), x));
    }
    v
}
fn row_runs(e: &Enc, m: &Model, encode: bool) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for (own, x) in rows(e, m, encode) {
        for (a, b) in [(1usize, 1usize), (8, 1), (17, 0), (33, 9)] {
            v.push([&own.repeat(a)[..], &x[..], &own.repeat(b)[..]].concat());
        }
    }
    v
}

/// Bare, and between letters; thorough: also with a letter on one side only. (units, how many letters follow)
fn surroundings(l: &[Vec<u8>], a: &[u8], thorough: bool) -> Vec<(Vec<Vec<u8>>, Vec<usize>)> {
    let after: Vec<Vec<u8>> = l.iter().map(|x| [a, &x[..]].concat()).collect();
    let all = vec![0, 1];
    vec![(l.to_vec(), if thorough { all.clone() } else { vec![0] }), (after, if thorough { all } else { vec![1] })]
}

/// Neighbours in table order: every two (and three) consecutive codes (decode) or characters (encode: in the order of the
/// characters and in the order of their codes), both directions; when encoding, also every ASCII pair and every ASCII
/// letter (single-byte: every character) before every combining mark of U+0300..U+036F.
pub fn sequences(e: &Enc, m: &Model, encode: bool) -> Vec<Vec<u8>> {
    use crate::model::Small;
    let mut lists: Vec<Vec<Vec<u8>>> = vec![];
    if encode {
        let mut rep = repertoire(e, m);
        let txt = |l: &[u32]| -> Vec<Vec<u8>> { l.iter().map(|&c| Small::utf8(c).as_slice().to_vec()).collect() };
        lists.push(txt(&rep));
        if !e.is_utf() {
            rep.sort_by_key(|&c| m.enc_char(c).unwrap().as_slice().to_vec());
            lists.push(txt(&rep));
        }
    } else {
        lists.push(code_list(e, m));
    }
    let mut v = vec![];
    for l in lists {
        for w in l.windows(2) {
            v.push(w.concat());
            v.push([&w[1][..], &w[0][..]].concat());
            v.push([&w[0][..], &w[0][..], &w[1][..]].concat());
            v.push([&w[1][..], &w[0][..], &w[1][..]].concat());
        }
        for w in l.windows(3) {
            v.push(w.concat());
        }
    }
    if encode {
        for a in 0..128u8 {
            for b in 0..128u8 {
                v.push(vec![a, b]);
            }
        }
        let bases: Vec<u32> = if e.kind == Kind::Single { repertoire(e, m) } else { (0x41..0x5B).chain(0x61..0x7B).collect() };
        for c in bases {
            for mark in 0x300..0x370 {
                v.push([Small::utf8(c).as_slice(), Small::utf8(mark).as_slice()].concat());
            }
        }
    }
    v
}

/// Which standard families, at which depth.
#[derive(Copy, Clone)]
pub struct Prof {
    pub words: u64,      // maximal number of words per encoding and direction (depth chosen accordingly)
    pub word_rooms: Rooms,
    pub bytes: u32,      // all byte strings up to this length
    pub byte_rooms: Rooms,
    pub chars: bool,     // all scalar values
    pub char_rooms: Rooms,
    pub char_ctx: usize, // number of contexts
    pub shapes: usize,   // 0 none, 1 block-sized, 2 also long
    pub shape_rooms: Rooms,
    pub long_log2: u32,
    pub mega: bool,      // runs of 2^17 and 2^20 units
}

/// u^i · s for i just above 2^17 and 2^20.
fn mega(e: &Enc, m: &Model, encode: bool, u: &[Vec<u8>], s: &[Vec<u8>], thorough: bool) -> Fam {
    let single = e.kind == Kind::Single;
    // one tail per behaviour (thorough: three)
    let mut seen: std::collections::BTreeMap<usize, usize> = Default::default();
    let mut tails: Vec<Vec<u8>> = vec![];
    for x in s.iter().filter(|x| !x.is_empty()) {
        let k = if encode {
            match m.enc(text(x), false) {
                EU::Ok { .. } => 0,
                EU::Bad { .. } => 1,
                EU::Inc => 2,
            }
        } else {
            match m.dec(x) {
                DU::Ch { .. } => 0,
                DU::Bad { n } => 10 + n.min(4),
                DU::Inc => 20,
            }
        };
        let n = seen.entry(k).or_default();
        *n += 1;
        if *n <= if thorough { 3 } else { 1 } {
            tails.push(x.clone());
        }
    }
    tails.push(vec![]);
    Fam::Shape { u: some_of(u, if single { 2 } else { 9 }), i: if thorough { vec![(1 << 17) + 3, (1 << 18) - 1, (1 << 19) + 1, (1 << 20) + 3] } else { vec![(1 << 17) + 3, (1 << 20) + 3] }, s: tails, v: vec![vec![]], j: vec![0] }
}

pub fn depth_for(a: usize, budget: u64) -> u32 {
    let mut d = 0;
    while (a as u64).pow(d + 1) <= budget {
        d += 1;
    }
    d
}

pub fn plan_dec(sh: &Shared, e: &Enc, p: &Prof) -> Plan {
    let m = &sh.models[e.idx];
    let mut v = vec![];
    let mut add = |fam, rooms, label| v.push(Space { enc: e.idx, encode: false, fam, rooms, label });
    if p.words > 0 {
        let a = byte_alpha(e, sh.t);
        for d in 0..=depth_for(a.len(), p.words) {
            add(Fam::Words { alpha: a.clone(), d }, p.word_rooms, "words");
        }
        let u = unit_alpha(e, m, sh.t);
        for d in 2..=depth_for(u.len(), p.words).min(12) {
            add(Fam::Words { alpha: u.clone(), d }, p.word_rooms, "unit-words");
        }
    }
    for len in 1..=p.bytes {
        if len >= 3 && (e.kind == Kind::Single || (!sh.thorough && matches!(e.kind, Kind::Utf16 { .. } | Kind::Utf32 { .. }))) {
            continue; // (the unit alphabets and wide_units cover these)
        }
        add(Fam::Bytes { len }, p.byte_rooms, "all-bytes");
    }
    if p.shapes > 0 {
        let s = tails_dec(e, m, sh.t);
        let u = good_units(e, m);
        add(
            Fam::Shape {
                u: u.clone(),
                i: (0..=if e.kind == Kind::Single { 36 } else { 68 }).collect(),
                s: s.clone(),
                v: u.iter().take(2).cloned().collect(),
                j: vec![0, 1, 2, 3, 7, 8, 15, 16, 17, 33],
            },
            p.shape_rooms,
            "blocks",
        );
        if p.shapes > 1 {
            let s2: Vec<Vec<u8>> = s.iter().filter(|x| x.len() <= 4).cloned().collect();
            add(Fam::Shape { u: u.clone(), i: medium(sh), s: s2.clone(), v: vec![vec![]], j: vec![0] }, Rooms::Tight, "medium");
            add(Fam::Shape { u: u.iter().take(3).cloned().collect(), i: vec![0, 1, 2, 7, 16, 33], s: some_of(&s, if sh.thorough { 99 } else { 20 }), v: vec![u[0].clone()], j: vec![0, 1] }, Rooms::Huge, "spacious");
            add(Fam::Shape { u: u.clone(), i: vec![12, 17, 33, 40], s: s.clone(), v: u.iter().take(2).cloned().collect(), j: vec![17, 40] }, Rooms::All, "cut-blocks");
            add(Fam::Shape { u: u.clone(), i: vec![100, 260], s: some_of(&s, if sh.thorough { 30 } else { 9 }), v: u.iter().take(2).cloned().collect(), j: vec![130] }, Rooms::All, "cut-blocks");
            let codes = code_list(e, m);
            let mk: Vec<Vec<u8>> = MARKS.iter().filter_map(|&c| m.enc_char(c as u32)).map(|x| x.as_slice().to_vec()).collect();
            let a = good_units(e, m)[0].clone();
            for (l, j) in &surroundings(&codes, &a, sh.thorough) {
                add(Fam::Shape { u: l.clone(), i: vec![1], s: mk.clone(), v: vec![a.clone()], j: j.clone() }, Rooms::Tight, "neighbours");
            }
            for (l, j) in &surroundings(&mk, &a, sh.thorough) {
                add(Fam::Shape { u: l.clone(), i: vec![1], s: codes.clone(), v: vec![a.clone()], j: j.clone() }, Rooms::Tight, "neighbours");
            }
            add(Fam::Shape { u: sequences(e, m, false), i: vec![1], s: vec![vec![]], v: vec![a.clone()], j: vec![0, 1] }, Rooms::Tight, "sequences");
            add(Fam::Shape { u: row_runs(e, m, false), i: vec![1], s: vec![vec![]], v: vec![vec![]], j: vec![0] }, Rooms::Tight, "rows");
            add(Fam::Shape { u: codes.clone(), i: vec![2, 3, 4, 8, 16, 17, 33], s: vec![vec![], a.clone()], v: vec![vec![]], j: vec![0] }, Rooms::Tight, "repeated");
            add(Fam::Shape { u: vec![a.clone()], i: vec![3, 7, 8, 15, 16, 31, 32], s: codes, v: vec![a], j: vec![0, 16, 40] }, Rooms::Tight, "embedded");
            let ua = unit_alpha(e, m, sh.t);
            let fill = good_units(e, m)[0].clone();
            add(Fam::Shape { u: vec![fill.clone()], i: vec![0, 1, 5, 8, 13, 16, 29], s: doubles(&ua, &fill, if sh.thorough { 17 } else { 9 }), v: vec![fill.clone()], j: vec![0, 1, 17] }, Rooms::Tight, "doubles");
            add(Fam::Shape { u: u.clone(), i: round_counts(70, if sh.thorough { 20000 } else { 3000 }), s: some_of(&s2, if sh.thorough { 99 } else { 12 }), v: vec![b"A".to_vec()], j: vec![0] }, Rooms::Tight, "round");
            let cut = p.long_log2.min(if sh.thorough { 14 } else { 11 });
            add(Fam::Shape { u: u.clone(), i: near_pow2(9, cut), s: s2.clone(), v: vec![b"A".to_vec()], j: vec![0, 5] }, Rooms::Tight, "long");
            if p.mega {
                add(mega(e, m, false, &u, &s2, sh.thorough), Rooms::Tight, "mega");
            }
            if p.long_log2 > cut {
                add(Fam::Shape { u: some_of(&u, if e.kind == Kind::Single && !sh.thorough { 2 } else { 99 }), i: near_pow2(cut + 1, p.long_log2), s: some_of(&s2, 7), v: vec![b"A".to_vec()], j: vec![0] }, Rooms::Tight, "very-long");
                if e.kind != Kind::Single {
                    add(Fam::Shape { u: u[..1].to_vec(), i: near_pow2(12, p.long_log2.min(15)), s: s2.clone(), v: vec![b"A".to_vec()], j: vec![1] }, Rooms::Tight, "very-long-tails");
                }
            }
        }
    }
    v
}

/// Quick tier: thin the room classes of the widest families (a full sweep of rooms stays in the words and blocks).
pub fn thin(sh: &Shared, plan: &mut Plan) {
    if sh.thorough {
        return;
    }
    for s in plan.iter_mut() {
        match &s.fam {
            Fam::Bytes { len: 3 } => s.rooms = Rooms::Full,
            Fam::Chars { pre, .. } if !pre.is_empty() || sh.encs[s.enc].kind == Kind::Single => s.rooms = Rooms::Tight,
            _ => {}
        }
    }
}

pub fn contexts() -> Vec<(Vec<u8>, Vec<u8>)> {
    let s = |x: &str| x.as_bytes().to_vec();
    vec![(s(""), s("")), (s("A"), s("A")), (s("\u{E9}"), s("")), (s(""), s("\u{304}")), (s("\u{CA}"), s("\u{10000}")), (s("\u{306F}"), s("\u{306F}")), (s(""), s("\u{FFFF}"))]
}

/// Quick tier: characters tried in the secondary contexts (all that can be in any table, and the first of the rest).
pub fn ctx_top(e: &Enc) -> u32 {
    match e.kind {
        Kind::Single => 0x11000,
        Kind::Utf8 | Kind::Utf16 { .. } | Kind::Utf32 { .. } => 0x20000,
        _ => 0x30000,
    }
}

pub fn plan_enc(sh: &Shared, e: &Enc, p: &Prof) -> Plan {
    let m = &sh.models[e.idx];
    let mut v = vec![];
    let mut add = |fam, rooms, label| v.push(Space { enc: e.idx, encode: true, fam, rooms, label });
    if p.words > 0 {
        let a = text_alpha(e);
        let b = text_small(e, m);
        let da = depth_for(a.len(), p.words);
        for d in 0..=da {
            add(Fam::Words { alpha: a.clone(), d }, p.word_rooms, "words");
        }
        for d in da + 1..=depth_for(b.len(), p.words).min(12) {
            add(Fam::Words { alpha: b.clone(), d }, p.word_rooms, "deep-words");
        }
    }
    if p.chars {
        for (i, (pre, post)) in contexts().into_iter().take(p.char_ctx).enumerate() {
            let top = if i == 0 || sh.thorough { 0x110000 } else { ctx_top(e) };
            add(Fam::Chars { pre, post, top }, p.char_rooms, "all-chars");
        }
    }
    if p.shapes > 0 {
        let s = tails_enc(e, m);
        let u = text_units(e, m);
        add(
            Fam::Shape {
                u: u.clone(),
                i: (0..=if e.kind == Kind::Single { 36 } else { 68 }).collect(),
                s: s.clone(),
                v: u.iter().take(2).cloned().collect(),
                j: vec![0, 1, 2, 3, 7, 8, 15, 16, 17, 33],
            },
            p.shape_rooms,
            "blocks",
        );
        if p.shapes > 1 {
            add(Fam::Shape { u: u.clone(), i: medium(sh), s: s.clone(), v: vec![vec![]], j: vec![0] }, Rooms::Tight, "medium");
            add(Fam::Shape { u: u.iter().take(3).cloned().collect(), i: vec![0, 1, 2, 7, 16, 33], s: some_of(&s, if sh.thorough { 99 } else { 20 }), v: vec![u[0].clone()], j: vec![0, 1] }, Rooms::Huge, "spacious");
            add(Fam::Shape { u: u.clone(), i: vec![12, 17, 33, 40], s: s.clone(), v: u.iter().take(2).cloned().collect(), j: vec![17, 40] }, Rooms::All, "cut-blocks");
            add(Fam::Shape { u: u.clone(), i: vec![100, 260], s: some_of(&s, if sh.thorough { 30 } else { 9 }), v: u.iter().take(2).cloned().collect(), j: vec![130] }, Rooms::All, "cut-blocks");
            let rep: Vec<Vec<u8>> = repertoire(e, m).into_iter().map(|c| crate::model::Small::utf8(c).as_slice().to_vec()).collect();
            for (l, j) in &surroundings(&rep, b"A", sh.thorough) {
                add(Fam::Shape { u: l.clone(), i: vec![1], s: marks(), v: vec![b"A".to_vec()], j: j.clone() }, Rooms::Tight, "neighbours");
            }
            for (l, j) in &surroundings(&marks(), b"A", sh.thorough) {
                add(Fam::Shape { u: l.clone(), i: vec![1], s: rep.clone(), v: vec![b"A".to_vec()], j: j.clone() }, Rooms::Tight, "neighbours");
            }
            add(Fam::Shape { u: sequences(e, m, true), i: vec![1], s: vec![vec![]], v: vec![b"A".to_vec()], j: vec![0, 1] }, Rooms::Tight, "sequences");
            add(Fam::Shape { u: row_runs(e, m, true), i: vec![1], s: vec![vec![]], v: vec![vec![]], j: vec![0] }, Rooms::Tight, "rows");
            add(Fam::Shape { u: rep.clone(), i: vec![2, 3, 4, 8, 16, 17, 33], s: vec![vec![], b"A".to_vec()], v: vec![vec![]], j: vec![0] }, Rooms::Tight, "repeated");
            add(Fam::Shape { u: vec![b"A".to_vec()], i: vec![3, 7, 8, 15, 16, 31, 32], s: rep, v: vec![b"A".to_vec()], j: vec![0, 16, 40] }, Rooms::Tight, "embedded");
            let ca = class_chars(e, m);
            add(Fam::Shape { u: vec![b"A".to_vec()], i: vec![0, 1, 5, 8, 13, 16, 29], s: doubles(&ca, b"A", if sh.thorough { 17 } else { 9 }), v: vec![b"A".to_vec()], j: vec![0, 1, 17] }, Rooms::Tight, "doubles");
            add(Fam::Shape { u: u.clone(), i: round_counts(70, if sh.thorough { 20000 } else { 3000 }), s: some_of(&s, if sh.thorough { 99 } else { 12 }), v: vec![b"A".to_vec()], j: vec![0] }, Rooms::Tight, "round");
            let cut = p.long_log2.min(if sh.thorough { 14 } else { 11 });
            add(Fam::Shape { u: u.clone(), i: near_pow2(9, cut), s: s.clone(), v: vec![b"A".to_vec()], j: vec![0, 5] }, Rooms::Tight, "long");
            if p.mega {
                add(mega(e, m, true, &u, &s, sh.thorough), Rooms::Tight, "mega");
            }
            if p.long_log2 > cut {
                add(Fam::Shape { u: some_of(&u, if e.kind == Kind::Single && !sh.thorough { 2 } else { 99 }), i: near_pow2(cut + 1, p.long_log2), s: some_of(&s, 7), v: vec![b"A".to_vec()], j: vec![0] }, Rooms::Tight, "very-long");
                if e.kind != Kind::Single {
                    add(Fam::Shape { u: u[..1].to_vec(), i: near_pow2(12, p.long_log2.min(15)), s: s.clone(), v: vec![b"A".to_vec()], j: vec![1] }, Rooms::Tight, "very-long-tails");
                }
            }
        }
    }
    v
}
