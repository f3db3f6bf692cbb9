//! One function per property: which spaces are explored, and what is checked on every execution.
use crate::encs::{Enc, Kind};
use crate::gen::*;
use crate::giant::{vast, Ask};
use crate::judge::*;
use crate::model::*;
use crate::rt::*;
use crate::sess::*;
use std::cell::RefCell;

pub struct Doc {
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
}

const ORACLE: &str = "the oracle tables in /verif/oracle (cross-checked against CPython's codecs) are the published mappings";
pub const BOUND: &str = "inputs outside the enumerated families (longer words, other long shapes) are covered only through the closure and context-independence checks";

pub fn prof(sh: &Shared, e: &Enc) -> Prof {
    let single = e.kind == Kind::Single;
    if sh.thorough {
        Prof {
            words: if single { 1_000_000 } else { 30_000_000 },
            word_rooms: Rooms::All,
            bytes: if single { 2 } else { 3 },
            byte_rooms: Rooms::All,
            chars: true,
            char_rooms: Rooms::All,
            char_ctx: 7,
            shapes: 2,
            shape_rooms: Rooms::Edge,
            long_log2: if single { 16 } else { 18 },
            mega: true,
        }
    } else {
        Prof {
            words: if single { 30_000 } else { 1_000_000 },
            word_rooms: Rooms::All,
            bytes: if single { 2 } else { 3 },
            byte_rooms: Rooms::Tight,
            chars: true,
            char_rooms: Rooms::Edge,
            char_ctx: if single { 3 } else { 6 },
            shapes: 2,
            shape_rooms: Rooms::Edge,
            long_log2: 16,
            mega: true,
        }
    }
}

fn plan_both(sh: &Shared, d: bool, n: bool, filter: impl Fn(&Enc) -> bool) -> Plan {
    let mut v = vec![];
    for e in sh.encs.iter().filter(|e| filter(e)) {
        let p = prof(sh, e);
        if d {
            v.extend(plan_dec(sh, e, &p));
        }
        if n {
            v.extend(plan_enc(sh, e, &p));
        }
    }
    v
}

// ------------------------------------------------------------------ C01
thread_local! {
    static GUARDS: RefCell<Option<(Guarded, Guarded)>> = const { RefCell::new(None) };
}
pub fn c01(sh: &Shared) -> Doc {
    let mut plan: Plan = vec![];
    for e in sh.encs.iter() {
        let mut p = prof(sh, e);
        if !sh.thorough {
            p.words /= 5;
            p.char_ctx = 3;
        }
        plan.extend(plan_dec(sh, e, &p));
        plan.extend(plan_enc(sh, e, &p));
    }
    thin(sh, &mut plan);
    explore(sh, &plan, |cx, e, _m, encode, x, rooms| {
        GUARDS.with(|g| {
            let mut g = g.borrow_mut();
            let (gi, go) = g.get_or_insert_with(|| (Guarded::new(5 << 20), Guarded::new(5 << 22)));
            // what the whole input needs, measured on the real code with an ample buffer
            let ample = x.len() * 4 + 16;
            let mut need = 0;
            for &end in ends(e, encode) {
                let r = real(e, encode, x, go.tail(ample), end);
                cx.note(&r, x.len());
                if let Err(why) = r.sane(x.len(), ample) {
                    return cx.viol(why.into(), vec![call_of(e, encode, x, ample, end)]);
                }
                need = need.max(match r {
                    R::Ok { w, .. } | R::Err { w, .. } => w,
                    R::Panic => 0,
                });
            }
            for head in [false, true] {
                let inp: &[u8] = if head { gi.head(x.len()) } else { gi.tail(x.len()) };
                let inp = unsafe { std::slice::from_raw_parts_mut(inp.as_ptr() as *mut u8, inp.len()) };
                inp.copy_from_slice(x);
                for &end in ends(e, encode) {
                    rooms.each(need, |room| {
                        cx.st.states += 1;
                        let all_end = go.all().len();
                        // canary bytes on the open side of the output slice
                        let (lo, hi) = if head { (room, (room + 16).min(all_end)) } else { ((all_end - room).saturating_sub(16), all_end - room) };
                        go.all()[lo..hi].fill(0xC3);
                        let out = if head { go.head(room) } else { go.tail(room) };
                        let r = real(e, encode, inp, out, end);
                        cx.note(&r, x.len());
                        if let Err(why) = r.sane(x.len(), room) {
                            cx.viol(why.into(), vec![call_of(e, encode, x, room, end)]);
                            return false;
                        }
                        if encode {
                            let (a, b) = match r {
                                R::Ok { n, .. } => (n, n),
                                R::Err { r, .. } => r,
                                R::Panic => (0, 0),
                            };
                            if !text(x).is_char_boundary(a) || !text(x).is_char_boundary(b) {
                                cx.viol("position inside a character".into(), vec![call_of(e, encode, x, room, end)]);
                                return false;
                            }
                        }
                        if go.all()[lo..hi].iter().any(|&b| b != 0xC3) {
                            cx.viol("write outside the output buffer".into(), vec![call_of(e, encode, x, room, end)]);
                            return false;
                        }
                        if inp != x {
                            cx.viol("the input was modified".into(), vec![call_of(e, encode, x, room, end)]);
                            return false;
                        }
                        true
                    });
                    if cx.stopped() {
                        return;
                    }
                }
            }
        })
    });
    vast(sh, &[false, true], Ask::Sane);
    Doc {
        rule: "every input of the enumerated families x every output room of its class x both end flags, each call made with input and output slices flush against inaccessible pages (both ends in turn) and canaries on the other side; panics, hangs (watchdog), faults and out-of-range results are violations",
        assumptions: &[BOUND, "a stray access is seen if it leaves the slice towards a guard page or changes the adjacent 16 bytes"],
    }
}

// ------------------------------------------------------------------ C02
pub fn c02(sh: &Shared) -> Doc {
    let mut plan = plan_both(sh, true, false, |_| true);
    for e in sh.encs.iter().filter(|e| e.kind != Kind::Single) {
        plan.push(Space { enc: e.idx, encode: false, fam: Fam::CharCodes { pre: vec![], post: vec![] }, rooms: Rooms::All, label: "char-codes" });
    }
    wide_units(sh, &mut plan);
    explore(sh, &plan, |cx, e, m, _, x, rooms| {
        // ill-formed units must not be let through (Unicode forms)
        let mut lim = usize::MAX;
        if e.is_utf() {
            let mut p = 0;
            while p < x.len() {
                match m.dec(&x[p..]) {
                    DU::Ch { n, .. } => p += n,
                    _ => {
                        lim = p;
                        break;
                    }
                }
            }
        }
        let mut buf = std::mem::take(&mut cx.buf);
        let ample = x.len() * 4 + 16;
        let mut need = 0;
        for &end in e.ends_dec() {
            let r = dec(e, x, poisoned(&mut buf, ample), end);
            if let R::Ok { w, .. } | R::Err { w, .. } = r {
                need = need.max(w.min(ample));
            }
        }
        for &end in e.ends_dec() {
            rooms.each(need, |room| {
                cx.st.states += 1;
                let out = poisoned(&mut buf, room);
                let r = dec(e, x, out, end);
                cx.note(&r, x.len());
                if let Err(why) = r.sane(x.len(), room) {
                    cx.vd(why.into(), e, x, room, end);
                    return false;
                }
                let (w, n) = match r {
                    R::Ok { w, n, .. } => (w, n),
                    R::Err { r, w, .. } => (w, r.0),
                    R::Panic => (0, 0),
                };
                if let Err(at) = utf8_valid(&out[..w]) {
                    cx.vd(format!("{}: text {} is not valid UTF-8 at byte {at}", e.name, short(&out[..w])), e, x, room, end);
                    return false;
                }
                if n > lim {
                    cx.vd(format!("{}: the ill-formed sequence at byte {lim} was accepted as text ({} bytes consumed)", e.name, n), e, x, room, end);
                    return false;
                }
                true
            });
            if cx.stopped() {
                break;
            }
        }
        cx.buf = buf;
    });
    Doc {
        rule: "every input of the families x rooms x end flags; the returned bytes and the bytes reported as written by errors are checked by an independent well-formedness automaton (buffers poisoned with an invalid byte before each call)",
        assumptions: &[BOUND],
    }
}

/// Exhaustive unit spaces of the Unicode forms beyond three bytes.
pub fn wide_units(sh: &Shared, plan: &mut Plan) {
    for e in sh.encs.iter() {
        let mut add = |fam, rooms, label| plan.push(Space { enc: e.idx, encode: false, fam, rooms, label });
        let all16: Vec<[u8; 2]> = (0..=0xFFFFu16).map(|x| x.to_be_bytes()).collect();
        match e.kind {
            Kind::Utf16 { be } => {
                let u = |x: u16| if be { x.to_be_bytes().to_vec() } else { x.to_le_bytes().to_vec() };
                let sur: Vec<Vec<u8>> = (0xD800..=0xDFFFu16).map(u).collect();
                let mut sec = sur.clone();
                sec.extend([0, 0x41, 0xD7FF, 0xE000, 0xFFFF].iter().map(|&x| u(x)));
                add(Fam::Shape { u: sur.clone(), i: vec![1], s: sec.clone(), v: vec![vec![]], j: vec![0] }, Rooms::Full, "surrogate-pairs");
                if sh.thorough {
                    let allu: Vec<Vec<u8>> = (0..=0xFFFFu16).map(u).collect();
                    add(Fam::Shape { u: allu.clone(), i: vec![1], s: allu, v: vec![vec![]], j: vec![0] }, Rooms::Full, "all-unit-pairs");
                }
            }
            Kind::Utf32 { be } => {
                let lo: Vec<u16> = vec![0, 1, 0x41, 0x7F, 0x80, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF];
                let rev = |x: &[u8]| -> Vec<u8> { if be { x.to_vec() } else { x.iter().rev().cloned().collect() } };
                let his: Vec<Vec<u8>> = all16.iter().map(|x| rev(x)).collect();
                let los: Vec<Vec<u8>> = lo.iter().map(|x| rev(&x.to_be_bytes())).collect();
                let (a, b) = if be { (his, los) } else { (los, his) };
                add(Fam::Shape { u: a, i: vec![1], s: b, v: vec![vec![]], j: vec![0] }, Rooms::Full, "unit-high-halves");
                // all low halves under the boundary planes
                let hb: Vec<Vec<u8>> = [0u16, 1, 2, 0xF, 0x10, 0x11, 0x100, 0xFFFF].iter().map(|x| rev(&x.to_be_bytes())).collect();
                let la: Vec<Vec<u8>> = all16.iter().map(|x| rev(x)).collect();
                let (a, b) = if be { (hb, la) } else { (la, hb) };
                add(Fam::Shape { u: a, i: vec![1], s: b, v: vec![vec![]], j: vec![0] }, Rooms::Full, "unit-low-halves");
                if sh.thorough {
                    add(Fam::Bytes { len: 4 }, Rooms::Full, "all-32-bit-units");
                }
            }
            Kind::Utf8 => {
                // every lead x second byte x boundary third/fourth bytes
                let a: Vec<Vec<u8>> = all16.iter().filter(|x| x[0] >= 0xC0).map(|x| x.to_vec()).collect();
                let bd = [0x00u8, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC2, 0xE0, 0xF0, 0xF8, 0xFF];
                let b: Vec<Vec<u8>> = bd.iter().flat_map(|&x| bd.iter().map(move |&y| vec![x, y])).collect();
                add(Fam::Shape { u: a, i: vec![1], s: b, v: vec![vec![], b"A".to_vec()], j: vec![1] }, Rooms::Full, "lead-second-boundary");
                if sh.thorough {
                    add(Fam::Bytes { len: 4 }, Rooms::Full, "all-4-byte-strings");
                }
            }
            _ => {}
        }
    }
}

// ------------------------------------------------------------------ model-judged properties
fn by_model(sh: &Shared, plan: &Plan, mask: impl Fn(&Enc, bool) -> u32 + Sync) {
    explore(sh, plan, |cx, e, m, encode, x, rooms| model_judge(cx, e, m, encode, x, rooms, mask(e, encode)));
}

pub fn c03(sh: &Shared) -> Doc {
    let plan = plan_both(sh, false, true, |_| true);
    by_model(sh, &plan, |_, _| BYTES | EARLY | OVER | MISSED);
    vast(sh, &[true], Ask::Same);
    // what comes out is valid in the target encoding on its own
    let plan: Plan = plan.into_iter().filter(|s| matches!(s.fam, Fam::Words { .. } | Fam::Chars { .. })).collect();
    explore(sh, &plan, |cx, e, _m, _, x, _| {
        let mut buf = std::mem::take(&mut cx.buf);
        let mut buf2 = std::mem::take(&mut cx.buf2);
        for &end in e.ends_enc() {
            let ample = x.len() * 4 + 8;
            let mut room = 0;
            loop {
                let out = poisoned(&mut buf, room);
                let r = enc(e, text(x), out, end);
                cx.note(&r, x.len());
                cx.st.states += 1;
                if let R::Ok { w, n, .. } = r {
                    let o2 = poisoned(&mut buf2, ample);
                    match dec(e, &out[..w.min(room)], o2, true) {
                        R::Ok { n: k, .. } if k == w => {}
                        other => {
                            cx.ve(format!("{}: the output {} is not valid on its own: {other:?}", e.name, short(&out[..w.min(room)])), e, text(x), room, end);
                            break;
                        }
                    }
                    if n == x.len() {
                        break;
                    }
                }
                room += 1;
                if room > x.len() * 2 + 9 {
                    break;
                }
            }
        }
        cx.buf = buf;
        cx.buf2 = buf2;
    });
    Doc { rule: "every text of the families x every room of its class x end flags; output and consumed count of successful calls compared with the model's unit sequence (content, whole characters, maximality), and the output re-validated by decoding it alone", assumptions: &[BOUND, ORACLE] }
}

pub fn c04(sh: &Shared) -> Doc {
    let mut plan = plan_both(sh, true, false, |_| true);
    for e in sh.encs.iter().filter(|e| e.kind != Kind::Single) {
        plan.push(Space { enc: e.idx, encode: false, fam: Fam::CharCodes { pre: vec![], post: vec![] }, rooms: Rooms::All, label: "char-codes" });
    }
    by_model(sh, &plan, |_, _| BYTES | EARLY | OVER | MISSED);
    vast(sh, &[false], Ask::Same);
    Doc { rule: "every byte string of the families x every room of its class x end flags; text and consumed count of successful calls compared with the model's unit sequence (content, whole characters, maximality)", assumptions: &[BOUND, ORACLE] }
}

pub fn c05(sh: &Shared) -> Doc {
    let mut plan = plan_both(sh, true, false, |e| e.is_utf());
    wide_units(sh, &mut plan);
    for e in sh.encs.iter().filter(|e| e.is_utf()) {
        for (pre, post) in [("", ""), ("A", "A"), ("\u{E9}", "\u{10000}"), ("\u{4E00}", "")] {
            let m = &sh.models[e.idx];
            let f = |s: &str| -> Vec<u8> { s.chars().flat_map(|c| m.enc_char(c as u32).unwrap().as_slice().to_vec()).collect() };
            plan.push(Space { enc: e.idx, encode: false, fam: Fam::CharCodes { pre: f(pre), post: f(post) }, rooms: Rooms::Edge, label: "all-scalars" });
        }
    }
    by_model(sh, &plan, |_, _| BYTES | OVER | EARLY | FALSE_ERR | MISSED);
    closure(sh, |e| e.is_utf());
    Doc { rule: "all scalar values in contexts, all unit pairs/boundary sequences, all short byte strings, words over boundary bytes; plus the closure of the real streaming decoder (every reachable pending state x every byte x end) against the Unicode well-formedness automaton", assumptions: &[BOUND] }
}

pub fn c06(sh: &Shared) -> Doc {
    let plan = plan_both(sh, false, true, |e| e.is_utf());
    by_model(sh, &plan, |_, _| ALL);
    Doc { rule: "all 1,112,064 scalar values in contexts and all words over the text alphabet, x rooms, compared with the Unicode encoding forms", assumptions: &[BOUND] }
}

fn mapping_plan(sh: &Shared, filter: impl Fn(&Enc) -> bool) -> Plan {
    let mut plan = plan_both(sh, true, true, &filter);
    for e in sh.encs.iter().filter(|e| filter(e)) {
        if e.kind == Kind::Single {
            plan.push(Space { enc: e.idx, encode: false, fam: Fam::Bytes { len: 2 }, rooms: Rooms::All, label: "all-pairs" });
        } else {
            for (a, b) in [(&b"A"[..], &b"A"[..]), (&b"\xA4\x40"[..], &b""[..]), (&b""[..], &b"\xA4\x40\x82"[..])] {
                plan.push(Space { enc: e.idx, encode: false, fam: Fam::Codes { pre: a.to_vec(), post: b.to_vec() }, rooms: Rooms::Edge, label: "all-codes-in-context" });
            }
        }
    }
    plan
}

pub fn c07(sh: &Shared) -> Doc {
    let plan = mapping_plan(sh, |e| e.kind == Kind::Single);
    by_model(sh, &plan, |_, _| BYTES | OVER | EARLY | FALSE_ERR | MISSED | CHAR);
    // neighbours: every ordered pair of encodable characters, every encodable next to every class of unencodable
    let names: Vec<usize> = sh.encs.iter().filter(|e| e.kind == Kind::Single).map(|e| e.idx).collect();
    sh.par(names.len() as u64 * 256, |cx, j| {
        let e = sh.encs[names[(j / 256) as usize]];
        let m = &sh.models[e.idx];
        let s = m.single.unwrap();
        let ch = |b: usize| if b < 128 { b as u32 } else { s.dec[b - 128] };
        let a = (j % 256) as usize;
        if a >= 128 && ch(a) == 0 {
            return;
        }
        let mut w = Vec::new();
        for b in 0..256 + TEXT.len() {
            let c2 = if b < 256 {
                if b >= 128 && ch(b) == 0 {
                    continue;
                }
                ch(b)
            } else {
                TEXT[b - 256] as u32
            };
            w.clear();
            w.extend_from_slice(Small::utf8(ch(a)).as_slice());
            w.extend_from_slice(Small::utf8(c2).as_slice());
            cx.st.traces += 1;
            model_judge(cx, &e, m, true, &w, Rooms::All, BYTES | OVER | EARLY | FALSE_ERR | MISSED | CHAR);
            if cx.stopped() {
                return;
            }
        }
    });
    Doc { rule: "all bytes and byte pairs, all 1,112,064 characters in contexts, all ordered pairs of encodable characters, for each of 31 tables, x rooms, against the published tables", assumptions: &[ORACLE, BOUND] }
}

/// All ordered pairs of two-byte codes (decode) / of encodable characters (encode).
fn all_pairs(sh: &Shared, e: &Enc, mask: u32) {
    let m = &sh.models[e.idx];
    let mut chars: Vec<u32> = (0x21..0x30000u32).filter(|&c| char::from_u32(c).is_some() && m.enc_char(c).is_some()).collect();
    chars.retain(|&c| c == 0x41 || c >= 0x80);
    let mut codes: Vec<[u8; 2]> = vec![];
    for a in 0x81..=0xFEu8 {
        for b in 0..=255u8 {
            if matches!(m.dec(&[a, b]), DU::Ch { n: 2, .. }) {
                codes.push([a, b]);
            }
        }
    }
    let nc = chars.len() as u64;
    let per = nc + codes.len() as u64;
    // alone, and after a letter
    sh.par(per * 2, |cx, j| {
        let mut w = Vec::with_capacity(16);
        let pre: &[u8] = if j < per { b"" } else { b"A" };
        let j = j % per;
        if j < nc {
            for &c in &chars {
                w.clear();
                w.extend_from_slice(pre);
                w.extend_from_slice(Small::utf8(chars[j as usize]).as_slice());
                w.extend_from_slice(Small::utf8(c).as_slice());
                model_judge(cx, e, m, true, &w, Rooms::Full, mask);
                if cx.stopped() {
                    return;
                }
            }
            cx.st.extra("encode-pairs", nc);
            cx.st.traces += nc;
        } else {
            let a = codes[(j - nc) as usize];
            for b in &codes {
                w.clear();
                w.extend_from_slice(pre);
                w.extend_from_slice(&a);
                w.extend_from_slice(b);
                model_judge(cx, e, m, false, &w, Rooms::Full, mask);
                if cx.stopped() {
                    return;
                }
            }
            cx.st.extra("decode-pairs", codes.len() as u64);
            cx.st.traces += codes.len() as u64;
        }
    });
}

/// All ordered pairs of encodable characters (encode) or of well-formed codes (decode), after each of `pres`.
fn each_pair<F: Fn(&mut Cx, &[u8]) + Sync>(sh: &Shared, e: &Enc, encode: bool, pres: &[&[u8]], f: F) {
    let m = &sh.models[e.idx];
    let mut syms: Vec<Small> = vec![];
    for c in (0x41..0x42u32).chain(0x80..0x30000) {
        if char::from_u32(c).is_some() {
            if let Some(b) = m.enc_char(c) {
                let s = if encode { Small::utf8(c) } else { b };
                if !syms.iter().rev().take(4).any(|x| x.as_slice() == s.as_slice()) {
                    syms.push(s);
                }
            }
        }
    }
    let n = syms.len() as u64;
    sh.par(n * pres.len() as u64, |cx, j| {
        let (pre, a) = (pres[(j / n) as usize], &syms[(j % n) as usize]);
        let mut w = Vec::with_capacity(16);
        for b in &syms {
            w.clear();
            w.extend_from_slice(pre);
            w.extend_from_slice(a.as_slice());
            w.extend_from_slice(b.as_slice());
            f(cx, &w);
            if cx.stopped() {
                return;
            }
        }
        cx.st.extra(if encode { "encode-pairs" } else { "decode-pairs" }, n);
        cx.st.traces += n;
    });
}

pub fn c08(sh: &Shared) -> Doc {
    let plan = mapping_plan(sh, |e| e.kind == Kind::Big5);
    by_model(sh, &plan, |_, _| ALL & !WRITTEN);
    closure(sh, |e| e.kind == Kind::Big5);
    let e = *sh.enc_named("big5_whatwg");
    all_pairs(sh, &e, ALL & !WRITTEN);
    Doc { rule: "all bytes, all two- and three-byte strings, all 1,112,064 characters in contexts, the four base+mark pairs in all text words, closure of the streaming decoder; all ordered pairs of codes and of characters, alone and after a letter", assumptions: &[ORACLE, BOUND, "known findings are suppressed only for the exact listed character and produced code"] }
}
pub fn c09(sh: &Shared) -> Doc {
    let plan = mapping_plan(sh, |e| e.kind == Kind::Sjis);
    by_model(sh, &plan, |_, _| ALL & !WRITTEN);
    closure(sh, |e| e.kind == Kind::Sjis);
    let e = *sh.enc_named("shiftjis_whatwg");
    all_pairs(sh, &e, ALL & !WRITTEN);
    Doc { rule: "all bytes, all two- and three-byte strings, all 1,112,064 characters in contexts, closure of the streaming decoder; all ordered pairs of codes and of characters, alone and after a letter", assumptions: &[ORACLE, BOUND] }
}
pub fn c10(sh: &Shared) -> Doc {
    let mut plan = plan_both(sh, false, true, |_| true);
    bad_chars(sh, &mut plan);
    by_model(sh, &plan, |_, _| OVER | FALSE_ERR | MISSED | RANGE | WRITTEN | CHAR | BYTES);
    vast(sh, &[true], Ask::Error);
    Doc { rule: "every text of the families x rooms x flags, every unencodable character at every offset of blocks up to 68 units and of long runs; outcome kind, character, range, written count and prefix compared with the model", assumptions: &[BOUND, ORACLE] }
}
/// Every scalar value after prefixes that leave every amount of room.
fn bad_chars(sh: &Shared, plan: &mut Plan) {
    for e in sh.encs.iter() {
        for pre in ["AB", "\u{E9}A"] {
            plan.push(Space { enc: e.idx, encode: true, fam: Fam::Chars { pre: pre.as_bytes().to_vec(), post: b"A".to_vec(), top: if sh.thorough { 0x110000 } else { ctx_top(e) } }, rooms: if sh.thorough { Rooms::All } else { Rooms::Edge }, label: "bad-in-context" });
        }
    }
}
pub fn c11(sh: &Shared) -> Doc {
    let mut plan = plan_both(sh, true, false, |_| true);
    wide_units(sh, &mut plan);
    by_model(sh, &plan, |_, _| OVER | FALSE_ERR | MISSED | RANGE | WRITTEN | CAUSE | BYTES);
    vast(sh, &[false], Ask::Error);
    Doc { rule: "every byte string of the families x rooms x flags, every invalid symbol at every offset of blocks up to 68 units and of long runs; outcome kind, cause, range, written count and prefix compared with the model", assumptions: &[BOUND, ORACLE] }
}

// ------------------------------------------------------------------ closure of the streaming decoder
/// All states of the byte-at-a-time decoder: the pending bytes it has not consumed. From each, every byte and
/// the end of input; the real step must equal the model's, so the real decoder and the model are bisimilar on
/// byte-at-a-time streams of any length.
pub fn closure(sh: &Shared, filter: impl Fn(&Enc) -> bool) {
    for e in sh.encs.iter().filter(|e| filter(e)) {
        if matches!(e.kind, Kind::Utf32 { .. }) && !sh.thorough {
            continue;
        }
        let m = &sh.models[e.idx];
        let mut front: Vec<[u8; 4]> = vec![[0; 4]]; // bytes + length in [3]... length kept separately
        let mut len = 0usize;
        let mut total = 0u64;
        // pending sequences grow by one byte per level; a consumed unit always returns to a shorter state
        while !front.is_empty() && len <= 3 {
            total += front.len() as u64;
            let next = std::sync::Mutex::new(Vec::<[u8; 4]>::new());
            let chunk = 256usize;
            let jobs = front.len().div_ceil(chunk);
            sh.par(jobs as u64, |cx, j| {
                let lo = j as usize * chunk;
                let hi = (lo + chunk).min(front.len());
                let mut loc = vec![];
                let mut tr = Tr::new();
                let mut out = [0xA5u8; 24];
                for st in &front[lo..hi] {
                    cx.st.states += 1;
                    let mut w = [0u8; 5];
                    w[..len].copy_from_slice(&st[..len]);
                    for step in 0..=256usize {
                        let (n, end) = if step == 256 {
                            (len, true)
                        } else {
                            w[len] = step as u8;
                            (len + 1, false)
                        };
                        if end && !e.dec_end {
                            continue;
                        }
                        let x = &w[..n];
                        out.fill(0xA5);
                        let r = dec(e, x, &mut out, end);
                        cx.note(&r, n);
                        tr.dec(m, x, end);
                        if let Err(why) = r.sane(n, out.len()) {
                            return cx.vd(why.into(), e, x, out.len(), end);
                        }
                        if let Some((_, why)) = compare(&tr, out.len(), &r, &out) {
                            return cx.vd(format!("{}: {why}", e.name), e, x, out.len(), end);
                        }
                        // successor state: what stays pending
                        let left = match r {
                            R::Ok { n: k, .. } => n - k,
                            R::Err { r, .. } => n - r.1,
                            R::Panic => 0,
                        };
                        if !end {
                            if left == n && n <= 4 {
                                if n == 4 {
                                    return cx.vd(format!("{}: four bytes stay pending", e.name), e, x, out.len(), end);
                                }
                                let mut s = [0u8; 4];
                                s[..n].copy_from_slice(x);
                                loc.push(s);
                            } else if left > 0 {
                                // a proper suffix stays: it must be a state of an earlier level (it is re-fed as one chunk)
                                let y = &x[n - left..];
                                let mut o2 = [0xA5u8; 24];
                                let r2 = dec(e, y, &mut o2, false);
                                cx.note(&r2, left);
                                tr.dec(m, y, false);
                                if let Some((_, why)) = compare(&tr, 24, &r2, &o2) {
                                    return cx.vd(format!("{}: {why}", e.name), e, y, 24, false);
                                }
                            }
                        }
                    }
                }
                if !loc.is_empty() {
                    next.lock().unwrap().extend(loc);
                }
            });
            if sh.failed() {
                return;
            }
            front = next.into_inner().unwrap();
            len += 1;
        }
        sh.note_extra(&format!("closure-states[{}]", e.name), total);
    }
}

// ------------------------------------------------------------------ C12 / C13
thread_local! { static SCR: RefCell<Scratch> = RefCell::new(Scratch::default()); }
const SROOMS: &[usize] = &[0, 1, 2, 3, 4, 5, 6, 7, 8, 64];

fn cuts_of(encode: bool, x: &[u8]) -> Vec<usize> {
    if encode {
        let mut v: Vec<usize> = text(x).char_indices().map(|c| c.0).filter(|&c| c > 0).collect();
        if !x.is_empty() {
            v.push(x.len());
        }
        v
    } else {
        (1..=x.len()).collect()
    }
}

pub fn sess_judge(cx: &mut Cx, e: &Enc, m: &Model, encode: bool, x: &[u8]) {
    SCR.with(|s| {
        let s = &mut *s.borrow_mut();
        let cuts = cuts_of(encode, x);
        if x.len() <= 16 {
            sessions(cx, s, e, m, encode, x, &cuts, SROOMS, true);
        } else {
            // every two-chunk split (thinned in the middle of very long inputs), small, medium and ample rooms
            let n = x.len();
            let big = n * 4 + 8;
            let rooms: &[usize] = if n <= 40 { &[5, big] } else { &[23, big] };
            let mut first = true;
            for (i, &c) in cuts.iter().enumerate() {
                let edge = i < 20 || i + 20 > cuts.len();
                if n > 80 && !edge && i % 7 != 0 {
                    continue;
                }
                let cc: Vec<usize> = if c == n { vec![n] } else { vec![c, n] };
                if !sessions(cx, s, e, m, encode, x, &cc, rooms, first) {
                    return;
                }
                first = false;
            }
            // the whole input at once, with every constant room (mixed with an ample one)
            if n <= 140 {
                let r = real(e, encode, x, poisoned(&mut cx.buf, big), true);
                let need = match r {
                    R::Ok { w, .. } | R::Err { w, .. } => w.min(big),
                    R::Panic => 0,
                };
                for room in 1..=need + 1 {
                    if !sessions(cx, s, e, m, encode, x, &[n], &[room, big], false) {
                        return;
                    }
                }
            }
        }
    })
}

fn sess_plan(sh: &Shared, e: &Enc, encode: bool) -> Plan {
    let m = &sh.models[e.idx];
    let single = e.kind == Kind::Single;
    let mut v: Plan = vec![];
    let budget: u64 = match (single, sh.thorough) {
        (true, false) => 800,
        (true, true) => 70_000,
        (false, false) => 30_000,
        (false, true) => 1_000_000,
    };
    let mut add = |fam, label| v.push(Space { enc: e.idx, encode, fam, rooms: Rooms::All, label });
    if encode {
        let (a, b) = (text_alpha(e), text_small(e, m));
        let da = depth_for(a.len(), budget);
        for d in 0..=da {
            add(Fam::Words { alpha: a.clone(), d }, "session-words");
        }
        for d in da + 1..=depth_for(b.len(), budget * 3).min(7) {
            add(Fam::Words { alpha: b.clone(), d }, "session-deep-words");
        }
        add(Fam::Chars { pre: vec![], post: vec![], top: 0x110000 }, "session-chars");
        if !single {
            add(Fam::Chars { pre: "\u{CA}".into(), post: b"A".to_vec(), top: 0x30000 }, "session-chars");
        }
        let rep: Vec<Vec<u8>> = repertoire(e, m).into_iter().map(|c| Small::utf8(c).as_slice().to_vec()).collect();
        add(Fam::Shape { u: rep.clone(), i: vec![1], s: marks(), v: vec![vec![]], j: vec![0] }, "session-neighbours");
        add(Fam::Shape { u: sequences(e, m, true), i: vec![1], s: vec![vec![]], v: vec![vec![]], j: vec![0] }, "session-sequences");
        add(Fam::Shape { u: vec![b"A".to_vec()], i: if sh.thorough { vec![8, 17] } else { vec![17] }, s: rep, v: vec![b"A".to_vec()], j: vec![0] }, "session-embedded");
        let u = text_units(e, m);
        let i: Vec<usize> = if sh.thorough { (1..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257]).collect() } else { vec![6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65] };
        add(Fam::Shape { u: u.iter().take(if single { 2 } else { 5 }).cloned().collect(), i, s: tails_enc(e, m), v: vec![b"A".to_vec()], j: vec![0, 1, 17] }, "session-blocks");
    } else {
        let a = byte_alpha(e, sh.t);
        for d in 0..=depth_for(a.len(), budget) {
            add(Fam::Words { alpha: a.clone(), d }, "session-words");
        }
        add(Fam::Bytes { len: 1 }, "session-bytes");
        add(Fam::Bytes { len: 2 }, "session-bytes");
        if !single {
            add(Fam::CharCodes { pre: vec![], post: vec![] }, "session-char-codes");
        }
        let i: Vec<usize> = if sh.thorough { (1..=40).chain([63, 64, 65, 127, 128, 129, 255, 256, 257]).collect() } else { vec![6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65] };
        let u = good_units(e, m);
        let codes = code_list(e, m);
        let mk: Vec<Vec<u8>> = MARKS.iter().step_by(3).filter_map(|&c| m.enc_char(c as u32)).map(|x| x.as_slice().to_vec()).collect();
        add(Fam::Shape { u: codes.clone(), i: vec![1], s: mk, v: vec![vec![]], j: vec![0] }, "session-neighbours");
        add(Fam::Shape { u: sequences(e, m, false), i: vec![1], s: vec![vec![]], v: vec![vec![]], j: vec![0] }, "session-sequences");
        add(Fam::Shape { u: vec![u[0].clone()], i: if sh.thorough { vec![5, 17] } else { vec![17] }, s: codes, v: vec![u[0].clone()], j: vec![0] }, "session-embedded");
        add(Fam::Shape { u: u.iter().take(if single { 2 } else { 5 }).cloned().collect(), i, s: tails_dec(e, m, sh.t), v: vec![u[0].clone()], j: vec![0, 1, 17] }, "session-blocks");
    }
    v
}

pub fn c12(sh: &Shared) -> Doc {
    let plan: Plan = sh.encs.iter().flat_map(|e| sess_plan(sh, e, false)).collect();
    explore(sh, &plan, |cx, e, m, _, x, _| sess_judge(cx, e, m, false, x));
    closure(sh, |e| e.kind != Kind::Single);
    vast(sh, &[false], Ask::Same);
    Doc { rule: "for every input: all client sessions, i.e. the graph of states (consumed, available) under 'one more byte arrives' and 'call with room b' (b in 0..8 and ample, end flag when all has arrived); the observed text-and-rejects history must be a function of the consumed position, every call with room for the next character must consume it, and every session must end; longer inputs: every two-chunk split; plus closure of the byte-at-a-time decoder", assumptions: &["the decoder keeps no state between calls (decided by C18)", BOUND] }
}
pub fn c13(sh: &Shared) -> Doc {
    let plan: Plan = sh.encs.iter().flat_map(|e| sess_plan(sh, e, true)).collect();
    explore(sh, &plan, |cx, e, m, _, x, _| sess_judge(cx, e, m, true, x));
    vast(sh, &[true], Ask::Same);
    Doc { rule: "for every text: all client sessions, i.e. the graph of states (consumed, available) under 'one more character arrives' and 'call with room b' (b in 0..8 and ample, end flag when all has arrived); the bytes-and-rejects history must be a function of the consumed position, every call with room for the next character must consume it, and every session must end; longer texts: every two-chunk split", assumptions: &["the encoder keeps no state between calls (decided by C18)", BOUND] }
}

// ------------------------------------------------------------------ C14
pub fn c14(sh: &Shared) -> Doc {
    let mut plan = plan_both(sh, true, true, |_| true);
    for e in sh.encs.iter().filter(|e| e.kind != Kind::Single) {
        plan.push(Space { enc: e.idx, encode: false, fam: Fam::CharCodes { pre: vec![], post: vec![] }, rooms: Rooms::All, label: "char-codes" });
    }
    wide_units(sh, &mut plan);
    thin(sh, &mut plan);
    explore(sh, &plan, |cx, e, m, encode, x, rooms| {
        let mut buf = std::mem::take(&mut cx.buf);
        let has_flag = if encode { e.enc_end } else { e.dec_end };
        let mut need = 0;
        let ample = x.len() * 4 + 16;
        for &end in ends(e, encode) {
            if let R::Ok { w, .. } | R::Err { w, .. } = real(e, encode, x, poisoned(&mut buf, ample), end) {
                need = need.max(w.min(ample));
            }
        }
        for &end in ends(e, encode) {
            rooms.each(need.max(4), |room| {
                cx.st.states += 1;
                let out = poisoned(&mut buf, room);
                let r = real(e, encode, x, out, end);
                cx.note(&r, x.len());
                if let Err(why) = r.sane(x.len(), room) {
                    cx.viol(why.into(), vec![call_of(e, encode, x, room, end)]);
                    return false;
                }
                if let R::Ok { w, n, .. } = r {
                    let fin = end || !has_flag;
                    let rest = &x[n..];
                    if room >= 4 && fin && !x.is_empty() && n == 0 {
                        cx.viol(format!("{}: no progress on final input with {room} bytes of room", e.name), vec![call_of(e, encode, x, room, end)]);
                        return false;
                    }
                    if room - w >= 4 && !rest.is_empty() {
                        let pending = !fin
                            && if encode {
                                text(rest).chars().count() == 1 && m.enc(text(rest), false) == EU::Inc
                            } else {
                                rest.len() <= 3 && m.dec(rest) == DU::Inc
                            };
                        if !pending {
                            cx.viol(format!("{}: {} bytes of room left but {} input bytes left unconsumed ({})", e.name, room - w, rest.len(), short(rest)), vec![call_of(e, encode, x, room, end)]);
                            return false;
                        }
                    }
                }
                true
            });
            if cx.stopped() {
                break;
            }
        }
        cx.buf = buf;
    });
    // whole client loops with the minimal buffer: at most one call per input byte plus one
    let plan: Plan = sh.encs.iter().flat_map(|e| [false, true].map(|d| (e, d))).flat_map(|(e, d)| sess_plan(sh, e, d)).collect();
    explore(sh, &plan, |cx, e, _, encode, x, _| {
        let mut t = vec![];
        let mut rj = vec![];
        for (room, chunk) in [(4, 0), (5, 1), (7, 2)] {
            cx.st.states += 1;
            if let Err((msg, calls)) = drain(cx, e, encode, x, room, chunk, &mut t, &mut rj) {
                cx.viol(msg, calls);
                return;
            }
        }
    });
    vast(sh, &[false, true], Ask::Progress);
    Doc { rule: "every input of the families x rooms x end flags: progress on final input with four or more bytes of room; with four bytes left over, nothing unconsumed except an incomplete tail; plus complete client loops with four-byte buffers, one-shot and chunked", assumptions: &[BOUND] }
}

// ------------------------------------------------------------------ C15 / C16
fn sjis_subst(e: &Enc, c: char) -> char {
    if e.kind == Kind::Sjis {
        match c {
            '\u{A5}' => '\u{5C}',
            '\u{203E}' => '\u{7E}',
            '\u{2212}' => '\u{FF0D}',
            c => c,
        }
    } else {
        c
    }
}

pub fn c15(sh: &Shared) -> Doc {
    let mut plan: Plan = vec![];
    for e in sh.encs.iter() {
        let single = e.kind == Kind::Single;
        let p = Prof { words: if sh.thorough { if single { 30_000 } else { 1_000_000 } } else if single { 1000 } else { 30_000 }, char_ctx: if single { 2 } else { 6 }, ..prof(sh, e) };
        plan.extend(plan_enc(sh, e, &p));
    }
    let check = |cx: &mut Cx, e: &Enc, x: &[u8], small: bool| {
        let t = text(x);
        let mut toks = vec![];
        let mut rj = vec![];
        let ample = x.len() * 4 + 16;
        cx.st.states += 1;
        if let Err((m, c)) = drain(cx, e, true, x, ample, 0, &mut toks, &mut rj) {
            return cx.viol(m, c);
        }
        if !rj.is_empty() {
            return; // not encodable: outside the property
        }
        let mut want: Vec<u8> = Vec::with_capacity(x.len());
        for c in t.chars() {
            let c = sjis_subst(e, c);
            want.extend_from_slice(Small::utf8(c as u32).as_slice());
        }
        let full: Vec<u8> = toks.iter().map(|&b| b as u8).collect();
        let erooms: &[usize] = if small { &[0, 4, 5, 7] } else { &[0] };
        let dcfg: &[(usize, usize)] = if small { &[(0, 0), (4, 0), (5, 1), (6, 2), (7, 3)] } else { &[(0, 0)] };
        for &er in erooms {
            let bytes: Vec<u8> = if er == 0 {
                full.clone()
            } else {
                if let Err((m, c)) = drain(cx, e, true, x, er, 0, &mut toks, &mut rj) {
                    return cx.viol(m, c);
                }
                let b: Vec<u8> = toks.iter().map(|&b| b as u8).collect();
                if rj.is_empty() && b == full {
                    continue;
                }
                b
            };
            for &(dr, chunk) in dcfg {
                let mut t2 = vec![];
                if let Err((m, c)) = drain(cx, e, false, &bytes, if dr == 0 { ample } else { dr }, chunk, &mut t2, &mut rj) {
                    return cx.viol(m, c);
                }
                cx.st.states += 1;
                if !rj.is_empty() || t2.len() != want.len() || t2.iter().zip(&want).any(|(a, b)| *a != *b as u32) {
                    return cx.viol(
                        format!("{}: text {} encodes to {} which decodes (room {dr}, chunk {chunk}) to [{}]", e.name, short(x), short(&bytes), show(&t2)),
                        vec![call_of(e, true, x, if er == 0 { ample } else { er }, true), call_of(e, false, &bytes, if dr == 0 { ample } else { dr }, true)],
                    );
                }
            }
        }
    };
    explore(sh, &plan, |cx, e, _, _, x, _| check(cx, e, x, x.len() <= 64));
    let pres: &[&[u8]] = if sh.thorough { &[b"", b"A"] } else { &[b"A"] };
    for e in sh.encs.iter().filter(|e| !e.is_utf()) {
        each_pair(sh, e, true, pres, |cx, x| check(cx, e, x, false));
    }
    Doc { rule: "every encodable text of the families, and all ordered pairs of encodable characters (not the UTFs): encoded with ample and with 4-, 5-, 7-byte buffers, decoded with ample and small buffers and 1-, 2-, 3-byte chunks, compared with the text (model-free)", assumptions: &[BOUND] }
}

pub fn c16(sh: &Shared) -> Doc {
    let mut plan: Plan = vec![];
    for e in sh.encs.iter() {
        plan.extend(plan_dec(sh, e, &prof(sh, e)));
        if e.kind != Kind::Single {
            plan.push(Space { enc: e.idx, encode: false, fam: Fam::CharCodes { pre: vec![], post: vec![] }, rooms: Rooms::All, label: "char-codes" });
        }
    }
    wide_units(sh, &mut plan);
    let check = |cx: &mut Cx, e: &Enc, x: &[u8], rooms: Rooms| {
        let ample = x.len() * 4 + 16;
        let mut b1 = std::mem::take(&mut cx.buf);
        let mut b2 = std::mem::take(&mut cx.buf2);
        let mut b3 = std::mem::take(&mut cx.buf3);
        let o1 = poisoned(&mut b1, ample);
        let r = dec(e, x, o1, true);
        cx.note(&r, x.len());
        cx.st.states += 1;
        if let Err(why) = r.sane(x.len(), ample) {
            cx.vd(why.into(), e, x, ample, true);
        }
        if let R::Ok { w, n, .. } = r {
            if n == x.len() {
                let t = o1[..w].to_vec();
                if utf8_valid(&t).is_err() {
                    cx.vd(format!("{}: decoded text is not valid UTF-8", e.name), e, x, ample, true);
                } else {
                    let exact = !matches!(e.kind, Kind::Big5 | Kind::Sjis);
                    let rooms2: &[usize] = if rooms == Rooms::All && x.len() <= 16 { &[0, 4, 5, 6] } else { &[0] };
                    for &er in rooms2 {
                        let (mut p, mut back) = (0usize, Vec::with_capacity(x.len()));
                        let room = if er == 0 { ample } else { er };
                        let mut bad = None;
                        while p < t.len() {
                            let o2 = poisoned(&mut b2, room);
                            let r2 = enc(e, text(&t[p..]), o2, true);
                            cx.note(&r2, t.len() - p);
                            match r2 {
                                R::Ok { w, n, .. } if n > 0 && p + n <= t.len() && w <= room && text(&t).is_char_boundary(p + n) => {
                                    back.extend_from_slice(&o2[..w]);
                                    p += n;
                                }
                                other => {
                                    bad = Some(format!("{other:?}"));
                                    break;
                                }
                            }
                        }
                        if bad.is_none() {
                            if exact {
                                if back != x {
                                    bad = Some(format!("re-encodes to {}", short(&back)));
                                }
                            } else {
                                let o3 = poisoned(&mut b3, ample.max(back.len() * 4 + 16));
                                let r3 = dec(e, &back, o3, true);
                                cx.note(&r3, back.len());
                                match r3 {
                                    R::Ok { w, n, .. } if n == back.len() && o3[..w.min(o3.len())] == t[..] => {}
                                    other => bad = Some(format!("re-encodes to {} which decodes differently: {other:?}", short(&back))),
                                }
                            }
                        }
                        if let Some(b) = bad {
                            cx.viol(format!("{}: {} decodes to {} which {b}", e.name, short(x), short(&t)), vec![call_of(e, false, x, ample, true), call_of(e, true, &t, room, true)]);
                            break;
                        }
                    }
                }
            }
        }
        cx.buf = b1;
        cx.buf2 = b2;
        cx.buf3 = b3;
    };
    explore(sh, &plan, |cx, e, _, _, x, rooms| check(cx, e, x, rooms));
    let pres: &[&[u8]] = if sh.thorough { &[b"", b"A"] } else { &[b"A"] };
    for e in sh.encs.iter().filter(|e| !e.is_utf()) {
        each_pair(sh, e, false, pres, |cx, x| check(cx, e, x, Rooms::Full));
    }
    Doc { rule: "every decodable byte string of the families, and all ordered pairs of codes (not the UTFs): decoded, re-encoded (ample and 4-, 5-, 6-byte buffers), compared with the bytes (UTFs, single-byte) or decoded again and compared with the text (Big5, Shift JIS); model-free", assumptions: &[BOUND] }
}

// ------------------------------------------------------------------ C17
/// Declarative definition, independent of any decoder: which bytes belong to well-formed characters.
fn well_formed(e: &Enc, m: &Model, x: &[u8], toks: &mut Vec<Tok>) {
    toks.clear();
    let mut p = 0;
    while p < x.len() {
        let (n, ch) = match m.dec(&x[p..]) {
            DU::Ch { n, s } => (n, Some(s)),
            _ => match e.kind {
                Kind::Utf8 | Kind::Single => (1, None),
                Kind::Utf16 { .. } => (2.min(x.len() - p), None),
                _ => (4.min(x.len() - p), None),
            },
        };
        match ch {
            Some(s) => toks.extend(s.as_slice().iter().map(|&b| b as u32)),
            None => toks.extend(x[p..p + n].iter().map(|&b| REJ_BYTE + b as u32)),
        }
        p += n;
    }
}

pub fn c17(sh: &Shared) -> Doc {
    let mut plan: Plan = vec![];
    for e in sh.encs.iter().filter(|e| e.is_utf() || e.kind == Kind::Single) {
        let mut p = prof(sh, e);
        p.words = if e.kind == Kind::Single { p.words } else if sh.thorough { 25_000_000 } else { 1_000_000 };
        p.long_log2 = p.long_log2.min(13);
        p.mega = sh.thorough;
        plan.extend(plan_dec(sh, e, &p));
    }
    wide_units(sh, &mut plan);
    explore(sh, &plan, |cx, e, m, _, x, _| {
        let (mut want, mut t, mut rj) = (vec![], vec![], vec![]);
        well_formed(e, m, x, &mut want);
        let cfg: &[(usize, usize)] = if x.len() > 256 { &[(0, 0)] } else if x.len() > 16 { &[(0, 0), (9, 0), (16, 5)] } else { &[(0, 0), (4, 0), (5, 1), (7, 2)] };
        for &(room, chunk) in cfg {
            cx.st.states += 1;
            let room = if room == 0 { x.len() * 4 + 16 } else { room };
            if let Err((msg, calls)) = drain(cx, e, false, x, room, chunk, &mut t, &mut rj) {
                return cx.viol(msg, calls);
            }
            if t != want {
                return cx.vd(format!("{}: skip-and-resume (room {room}, chunk {chunk}) observes [{}], the well-formed characters and ill-formed bytes are [{}]", e.name, show(&t), show(&want)), e, x, room, true);
            }
        }
    });
    Doc { rule: "every byte string of the families: the complete skip-and-resume client (one-shot and chunked, several rooms) must observe exactly the well-formed characters and ill-formed bytes given by a declarative definition", assumptions: &[BOUND, ORACLE] }
}

// ------------------------------------------------------------------ C19
pub fn c19(sh: &Shared) -> Doc {
    let mut plan = plan_both(sh, true, true, |e| matches!(e.kind, Kind::Utf16 { be: true } | Kind::Utf32 { be: true }));
    let mut wide = vec![];
    wide_units(sh, &mut wide);
    plan.extend(wide.into_iter().filter(|s| matches!(sh.encs[s.enc].kind, Kind::Utf16 { be: true } | Kind::Utf32 { be: true })));
    for e in sh.encs.iter().filter(|e| matches!(e.kind, Kind::Utf16 { be: true } | Kind::Utf32 { be: true })) {
        plan.push(Space { enc: e.idx, encode: false, fam: Fam::CharCodes { pre: vec![], post: vec![] }, rooms: Rooms::All, label: "char-codes" });
    }
    explore(sh, &plan, |cx, e, _, encode, x, rooms| {
        let (le, k) = if e.name == "utf16_be" { (*sh.enc_named("utf16_le"), 2) } else { (*sh.enc_named("utf32_le"), 4) };
        let swap = |v: &mut [u8]| {
            for c in v.chunks_exact_mut(k) {
                c.reverse();
            }
        };
        let mut y = x.to_vec();
        if !encode {
            swap(&mut y);
        }
        let mut b1 = std::mem::take(&mut cx.buf);
        let mut b2 = std::mem::take(&mut cx.buf2);
        let ample = x.len() * 4 + 16;
        let mut need = 0;
        if let R::Ok { w, .. } | R::Err { w, .. } = real(e, encode, x, poisoned(&mut b1, ample), true) {
            need = w.min(ample);
        }
        for &end in ends(e, encode) {
            rooms.each(need, |room| {
                cx.st.states += 1;
                let o1 = poisoned(&mut b1, room);
                let o2 = poisoned(&mut b2, room);
                let r1 = real(e, encode, x, o1, end);
                let r2 = real(&le, encode, &y, o2, end);
                cx.note(&r1, x.len());
                cx.note(&r2, x.len());
                if let Err(why) = r1.sane(x.len(), room).and(r2.sane(x.len(), room)) {
                    cx.viol(why.into(), vec![call_of(e, encode, x, room, end), call_of(&le, encode, &y, room, end)]);
                    return false;
                }
                let w = match r1 {
                    R::Ok { w, .. } | R::Err { w, .. } => w,
                    R::Panic => 0,
                };
                let mut want = o1[..w].to_vec();
                if encode {
                    swap(&mut want);
                }
                let at = |r: R| match r {
                    R::Ok { w, n, .. } => R::Ok { w, n, at: true },
                    r => r,
                };
                if at(r1) != at(r2) || want != o2[..w] {
                    cx.viol(format!("{} gives {r1:?} {}, {} on the byte-swapped input gives {r2:?} {}", e.name, short(&o1[..w]), le.name, short(&o2[..w])), vec![call_of(e, encode, x, room, end), call_of(&le, encode, &y, room, end)]);
                    return false;
                }
                true
            });
            if cx.stopped() {
                break;
            }
        }
        cx.buf = b1;
        cx.buf2 = b2;
    });
    Doc { rule: "every input of the families x rooms x flags on the big-endian codec, and its unit-wise byte-swapped twin on the little-endian one; results, counts, errors and output compared (model-free)", assumptions: &[BOUND] }
}

// ------------------------------------------------------------------ C20
pub fn c20(sh: &Shared) -> Doc {
    let mut plan = plan_both(sh, true, true, |e| e.dec_end);
    plan.retain(|s| !s.encode || sh.encs[s.enc].enc_end);
    wide_units(sh, &mut plan);
    // every pending state of every decoder, after prefixes
    explore(sh, &plan, |cx, e, m, encode, x, rooms| {
        // the incomplete tail, if any, by the model
        let mut p = 0;
        let mut tail = None;
        while p < x.len() {
            if encode {
                match m.enc(&text(x)[p..], false) {
                    EU::Ok { n, .. } => p += n,
                    EU::Bad { .. } => break,
                    EU::Inc => {
                        tail = Some(p);
                        break;
                    }
                }
            } else {
                match m.dec(&x[p..]) {
                    DU::Ch { n, .. } => p += n,
                    DU::Bad { .. } => break,
                    DU::Inc => {
                        tail = Some(p);
                        break;
                    }
                }
            }
        }
        let mut b1 = std::mem::take(&mut cx.buf);
        let mut b2 = std::mem::take(&mut cx.buf2);
        let ample = x.len() * 4 + 16;
        let mut need = 0;
        if let R::Ok { w, .. } | R::Err { w, .. } = real(e, encode, x, poisoned(&mut b1, ample), true) {
            need = w.min(ample);
        }
        rooms.each(need, |room| {
            cx.st.states += 1;
            let o1 = poisoned(&mut b1, room);
            let o2 = poisoned(&mut b2, room);
            let r1 = real(e, encode, x, o1, false);
            let r2 = real(e, encode, x, o2, true);
            cx.note(&r1, x.len());
            cx.note(&r2, x.len());
            let calls = || vec![call_of(e, encode, x, room, false), call_of(e, encode, x, room, true)];
            if let Err(why) = r1.sane(x.len(), room).and(r2.sane(x.len(), room)) {
                cx.viol(why.into(), calls());
                return false;
            }
            let w1 = match r1 {
                R::Ok { w, .. } | R::Err { w, .. } => w,
                R::Panic => 0,
            };
            let same = r1 == r2 && o1[..w1] == o2[..w1];
            let Some(tp) = tail else {
                if !same {
                    cx.viol(format!("{}: the input has no incomplete tail but the flag changes the result: {r1:?} without, {r2:?} with it", e.name), calls());
                    return false;
                }
                return true;
            };
            // without the flag: the tail stays, and is never an error
            let reached = |r: &R| match *r {
                R::Ok { n, .. } => n >= tp,
                R::Err { r, .. } => r.1 > tp,
                _ => false,
            };
            if reached(&r1) && !matches!(r1, R::Ok { n, .. } if n == tp) {
                cx.viol(format!("{}: without the end flag the incomplete tail at {tp} must be left unconsumed, got {r1:?}", e.name), calls());
                return false;
            }
            if let R::Err { .. } = r1 {
                cx.viol(format!("{}: without the end flag an incomplete tail at {tp} is not an error, got {r1:?}", e.name), calls());
                return false;
            }
            if !same {
                // they may differ only in what happens to the tail
                let ok = if encode {
                    matches!((r1, r2), (R::Ok { n: a, w: wa, .. }, R::Ok { n: b, w: wb, .. }) if a == tp && b == x.len() && wb > wa && o1[..wa] == o2[..wa])
                        || matches!((r1, r2), (R::Ok { n: a, w: wa, .. }, R::Err { r, w: wb, .. }) if a == tp && r.0 == tp && wa == wb && o1[..wa] == o2[..wa])
                } else {
                    matches!((r1, r2), (R::Ok { n: a, w: wa, .. }, R::Err { r, w: wb, .. }) if a == tp && r == (tp, x.len()) && wa == wb && o1[..wa] == o2[..wa])
                };
                if !ok {
                    cx.viol(format!("{}: the flag changes more than the incomplete tail at {tp}: {r1:?} without, {r2:?} with it", e.name), calls());
                    return false;
                }
            } else if let R::Ok { n, w, .. } = r2 {
                if n == tp && room - w >= 4 {
                    cx.viol(format!("{}: with the end flag and {} bytes of room the incomplete tail at {tp} is silently dropped: {r2:?}", e.name, room - w), calls());
                    return false;
                }
            }
            true
        });
        cx.buf = b1;
        cx.buf2 = b2;
    });
    Doc { rule: "every input of the families x rooms: the call without and the call with the end flag compared; they may differ only in an incomplete tail (per the Unicode/WHATWG automata), which stays without the flag and is reported or written with it", assumptions: &[BOUND] }
}

// ------------------------------------------------------------------ C21
/// The law on every ordered pair of symbols: F(ab) = F(a) . F(b), with exact and ample room.
/// (For the UTFs the symbols are a spread of about 3,000 characters.)
fn concat_pairs(sh: &Shared) {
    for e in &sh.encs {
        let m = &sh.models[e.idx];
        for encode in [false, true] {
            let mut syms: Vec<Vec<u8>> = repertoire(e, m)
                .into_iter()
                .filter(|&c| !e.is_utf() || c < 0x500 || c % 32 == 31 || c > 0x10FF00)
                .map(|c| if encode { Small::utf8(c).as_slice().to_vec() } else { m.enc_char(c).unwrap().as_slice().to_vec() })
                .collect();
            if encode && e.kind == Kind::Big5 {
                // letters that a following mark changes are not whole texts
                syms.retain(|x| !matches!(&x[..], b"\xC3\x8A" | b"\xC3\xAA"));
            }
            if !encode && matches!(e.kind, Kind::Big5 | Kind::Sjis) {
                // codes the encoder does not choose
                for a in 0x81..=0xFEu8 {
                    for b in 0x40..=0xFEu8 {
                        if matches!(m.dec(&[a, b]), DU::Ch { n: 2, .. }) && !syms.iter().any(|x| x[..] == [a, b]) {
                            syms.push(vec![a, b]);
                        }
                    }
                }
            }
            let mut outs: Vec<Vec<u8>> = vec![];
            for x in &syms {
                let mut b = [0xA5u8; 16];
                match real(e, encode, x, &mut b, true) {
                    R::Ok { w, n, .. } if n == x.len() && w <= 16 => outs.push(b[..w].to_vec()),
                    r => {
                        let c = call_of(e, encode, x, 16, true);
                        sh.par(1, |cx, _| cx.viol(format!("{}: a well-formed unit is not converted: {r:?}", e.name), vec![c.clone()]));
                        return;
                    }
                }
            }
            let n = syms.len();
            sh.par(n as u64, |cx, i| {
                let i = i as usize;
                let mut w = [0u8; 16];
                let mut b = [0u8; 48];
                let (x, p) = (&syms[i], &outs[i]);
                w[..x.len()].copy_from_slice(x);
                for (y, q) in syms.iter().zip(&outs) {
                    let l = x.len() + y.len();
                    w[x.len()..l].copy_from_slice(y);
                    let k = p.len() + q.len();
                    for room in [k, k + 16] {
                        let r = real(e, encode, &w[..l], &mut b[..room], true);
                        let ok = matches!(r, R::Ok { w: a, n: c, .. } if a == k && c == l) && b[..p.len()] == p[..] && b[p.len()..k] == q[..];
                        if !ok {
                            return cx.viol(format!("{}: {} and {} convert to {} and {}, but together to {r:?} {}", e.name, short(x), short(y), short(p), short(q), short(&b[..k])), vec![call_of(e, encode, x, room, true), call_of(e, encode, y, room, true), call_of(e, encode, &w[..l], room, true)]);
                        }
                    }
                }
                cx.st.states += 2 * n as u64;
                cx.st.transitions += 2 * n as u64;
                cx.st.traces += n as u64;
                cx.st.extra("concatenated-pairs", n as u64);
            });
            if sh.failed() {
                return;
            }
        }
    }
}
pub fn c21(sh: &Shared) -> Doc {
    // law: for whole encoded/encodable P and any x: F(P.x, |F(P)|+b) = F(P) . shift(F(x, b))
    struct Job {
        enc: usize,
        encode: bool,
        units: Vec<Vec<u8>>, // period of the prefix
        counts: Vec<usize>,
        aligns: Vec<usize>,
        tails: std::sync::Arc<Vec<Vec<u8>>>,
    }
    let mut jobs: Vec<Job> = vec![];
    for e in &sh.encs {
        let m = &sh.models[e.idx];
        let single = e.kind == Kind::Single;
        for encode in [false, true] {
            let mut tails = if encode { tails_enc(e, m) } else { tails_dec(e, m, sh.t) };
            // pairs of tail symbols
            let base = tails.clone();
            let small: Vec<Vec<u8>> = if encode { text_small(e, m).to_vec() } else { good_units(e, m) };
            for a in &small {
                for b in &base {
                    tails.push([&a[..], &b[..]].concat());
                }
            }
            for k in [15usize, 16, 31, 64] {
                for b in base.iter().take(20) {
                    tails.push([&b[..], &small[0].repeat(k)[..]].concat());
                }
            }
            let tails = std::sync::Arc::new(tails);
            let few = std::sync::Arc::new(base.clone());
            let u = if encode { text_units(e, m) } else { good_units(e, m) };
            let mut periods: Vec<Vec<Vec<u8>>> = u.iter().map(|x| vec![x.clone()]).collect();
            if u.len() > 1 {
                periods.push(u.clone());
                periods.push(vec![u[0].clone(), u[u.len() - 1].clone()]);
            }
            // every code / character after runs of ordinary units and of its own row
            let all = std::sync::Arc::new(if encode { repertoire(e, m).into_iter().map(|c| Small::utf8(c).as_slice().to_vec()).collect() } else { code_list(e, m) });
            for x in u.iter().take(if sh.thorough { 9 } else { 3 }) {
                for c in [7usize, 16, 33] {
                    jobs.push(Job { enc: e.idx, encode, units: vec![x.clone()], counts: vec![c], aligns: vec![0], tails: all.clone() });
                }
            }
            let mut by: std::collections::BTreeMap<Vec<u8>, Vec<Vec<u8>>> = Default::default();
            for (own, x) in rows(e, m, encode) {
                by.entry(own).or_default().push(x);
            }
            for (own, xs) in by {
                if encode && e.kind == Kind::Big5 && matches!(&own[..], b"\xC3\x8A" | b"\xC3\xAA") {
                    continue;
                }
                jobs.push(Job { enc: e.idx, encode, units: vec![own], counts: vec![8, 17, 33], aligns: vec![0], tails: std::sync::Arc::new(xs) });
            }
            let aligns_all: Vec<usize> = (0..16).collect();
            for p in &periods {
                for c in 0..=20 {
                    jobs.push(Job { enc: e.idx, encode, units: p.clone(), counts: vec![c], aligns: vec![0], tails: tails.clone() });
                }
                jobs.push(Job { enc: e.idx, encode, units: p.clone(), counts: (0..=if single { 20 } else { 40 }).collect(), aligns: aligns_all.clone(), tails: few.clone() });
                let top = if sh.thorough { 1100 } else { 300 };
                for lo in (21..top).step_by(20) {
                    jobs.push(Job { enc: e.idx, encode, units: p.clone(), counts: (lo..lo + 20).collect(), aligns: vec![0], tails: few.clone() });
                }
                let hi = match (single, sh.thorough) {
                    (true, false) => 13,
                    (true, true) => 17,
                    (false, false) => 17,
                    (false, true) => 20,
                };
                let mut cs = near_pow2(8, hi);
                for c in round_counts(21, if sh.thorough { 100000 } else if single { 4000 } else { 6000 }) {
                    if !cs.contains(&c) {
                        cs.push(c);
                    }
                }
                for c in cs {
                    jobs.push(Job { enc: e.idx, encode, units: p.clone(), counts: vec![c], aligns: if c % 5 == 0 || c.is_power_of_two() { vec![0, 3] } else { vec![0] }, tails: if c > 70000 { std::sync::Arc::new(base.iter().take(6).cloned().collect()) } else { few.clone() } });
                }
            }
        }
    }
    sh.par(jobs.len() as u64, |cx, q| {
        let j = &jobs[jobs.len() - 1 - q as usize];
        let e = sh.encs[j.enc];
        let (mut ibuf, mut obuf): (Vec<u8>, Vec<u8>) = (vec![], vec![]);
        // the separate conversions, by short real calls
        let mut unit_out: Vec<Vec<u8>> = vec![];
        for u in &j.units {
            let o = poisoned(&mut cx.buf, 64);
            let r = real(&e, j.encode, u, o, true);
            let R::Ok { w, n, .. } = r else { return cx.viol(format!("{}: a well-formed unit is rejected: {r:?}", e.name), vec![call_of(&e, j.encode, u, 64, true)]) };
            if n != u.len() || w > 64 {
                return cx.viol(format!("{}: a unit is not consumed: {r:?}", e.name), vec![call_of(&e, j.encode, u, 64, true)]);
            }
            let v = cx.buf[..w].to_vec();
            unit_out.push(v);
        }
        for &c in &j.counts {
            let (mut p, mut o) = (vec![], vec![]);
            for i in 0..c {
                p.extend_from_slice(&j.units[i % j.units.len()]);
                o.extend_from_slice(&unit_out[i % j.units.len()]);
            }
            let pn = p.len();
            for x in j.tails.iter() {
                p.truncate(pn);
                p.extend_from_slice(x);
                for &end in ends(&e, j.encode) {
                    // rooms for the tail
                    let mut tb = std::mem::take(&mut cx.buf3);
                    let ample = x.len() * 4 + 8;
                    let r0 = real(&e, j.encode, x, poisoned(&mut tb, ample), end);
                    let need = match r0 {
                        R::Ok { w, .. } | R::Err { w, .. } => w.min(ample),
                        R::Panic => 0,
                    };
                    let class = if pn > 2000 || need > 16 { Rooms::Tight } else { Rooms::Edge };
                    let mut bad = false;
                    class.each(need, |b| {
                        let so = poisoned(&mut tb, b);
                        let rs = real(&e, j.encode, x, so, end);
                        for &al in &j.aligns {
                            let room = o.len() + b;
                            ibuf.clear();
                            ibuf.resize(64 + p.len() + 16, 0);
                            let off = (64 - ibuf.as_ptr() as usize % 64) % 64 + al;
                            ibuf.resize(off + p.len(), 0);
                            let off = ((64 - ibuf.as_ptr() as usize % 64) % 64 + al).min(ibuf.len() - p.len());
                            ibuf[off..off + p.len()].copy_from_slice(&p);
                            obuf.resize(room + 160, 0);
                            let oo = (64 - obuf.as_ptr() as usize % 64) % 64 + (al * 7) % 16;
                            let out = &mut obuf[oo..oo + room];
                            out.fill(0xA5);
                            cx.st.states += 1;
                            cx.st.traces += 1;
                            let r = real(&e, j.encode, &ibuf[off..off + p.len()], out, end);
                            cx.note(&r, p.len());
                            let want = match rs {
                                R::Ok { w, n, .. } => R::Ok { w: w + o.len(), n: n + pn, at: true },
                                R::Err { r, w, c, invalid } => R::Err { r: (r.0 + pn, r.1 + pn), w: w + o.len(), c, invalid },
                                R::Panic => R::Panic,
                            };
                            let w = match rs {
                                R::Ok { w, .. } | R::Err { w, .. } => w.min(b),
                                R::Panic => 0,
                            };
                            let got = match r {
                                R::Ok { w, n, .. } => R::Ok { w, n, at: true },
                                r => r,
                            };
                            if r.sane(p.len(), room).is_err() || got != want || out[..o.len()] != o[..] || out[o.len()..o.len() + w] != so[..w] {
                                let first = out[..o.len()].iter().zip(&o).position(|(a, b)| a != b);
                                cx.viol(
                                    format!("{}: after {pn} bytes of whole units, {} must convert as it does alone ({want:?} {}), got {r:?}{} (alignment {al})", e.name, short(x), short(&so[..w]), first.map(|f| format!(", output differs at byte {f}")).unwrap_or_default()),
                                    vec![call_of(&e, j.encode, x, b, end), call_of(&e, j.encode, &p, room, end)],
                                );
                                bad = true;
                                return false;
                            }
                        }
                        true
                    });
                    cx.buf3 = tb;
                    if bad {
                        return;
                    }
                }
            }
            // the prefix alone, cut by the room: whole units only
            p.truncate(pn);
            if c > 0 {
                let ul: Vec<usize> = unit_out.iter().map(|x| x.len()).collect();
                let il: Vec<usize> = j.units.iter().map(|x| x.len()).collect();
                let lo = o.len().saturating_sub(if pn > 2000 { 6 } else { 36 });
                let (mut k, mut ko, mut ki) = (0usize, 0usize, 0usize);
                for room in lo..o.len() {
                    while ko + ul[k % ul.len()] <= room {
                        ko += ul[k % ul.len()];
                        ki += il[k % il.len()];
                        k += 1;
                    }
                    let mut ob = std::mem::take(&mut cx.buf3);
                    let out = poisoned(&mut ob, room);
                    let r = real(&e, j.encode, &p, out, true);
                    cx.note(&r, pn);
                    cx.st.states += 1;
                    let ok = matches!(r, R::Ok { w, n, .. } if w == ko && n == ki) && out[..ko] == o[..ko];
                    cx.buf3 = ob;
                    if !ok {
                        return cx.viol(format!("{}: {k} whole units ({ki} bytes -> {ko} bytes) fit in {room} bytes, got {r:?}", e.name), vec![call_of(&e, j.encode, &p, room, true)]);
                    }
                }
            }
        }
        let name = e.name;
        cx.sample(|| format!("{} {name}: prefix period {} x {:?} units, {} tails", if j.encode { "encode" } else { "decode" }, hex(&j.units.concat()), &j.counts[..j.counts.len().min(3)], j.tails.len()));
    });
    concat_pairs(sh);
    crate::giant::giant(sh);
    vast(sh, &[false, true], Ask::Same);
    Doc { rule: "law F(P.x, |F(P)|+b, end) = F(P) . shift(F(x, b, end)) for every periodic prefix P of whole units (0..300 and 2^k-2..2^k+2 units, several periods), every tail x (every alphabet symbol and pairs), every room b, 16 buffer alignments; whole-unit cut-off inside P; F(ab) = F(a) . F(b) for all ordered pairs of symbols (UTFs: of about 3,000 characters); the same law beyond 2^20 bytes and beyond 2^32 bytes (one segment mapped many times); model-free", assumptions: &["prefixes are periodic in the listed units", BOUND] }
}

// ------------------------------------------------------------------ C22
pub fn c22(sh: &Shared) -> Doc {
    // model-free table of single characters: encoding each alone
    let encs: Vec<usize> = sh.encs.iter().filter(|e| e.ascii_compat()).map(|e| e.idx).collect();
    // 1. every character alone
    sh.par(encs.len() as u64 * 0x110, |cx, j| {
        let e = sh.encs[encs[(j / 0x110) as usize]];
        let base = (j % 0x110) as u32 * 0x1000;
        for c in base..base + 0x1000 {
            let Some(ch) = char::from_u32(c) else { continue };
            let s = Small::utf8(c);
            let x = s.as_slice();
            let mut out = [0xA5u8; 16];
            let r = enc(&e, text(x), &mut out, true);
            cx.note(&r, x.len());
            cx.st.states += 1;
            cx.st.traces += 1;
            let subst = e.kind == Kind::Sjis && (c == 0xA5 || c == 0x203E);
            let bad = match r {
                R::Ok { w, n, .. } if c < 0x80 => w != 1 || n != 1 || out[0] as u32 != c,
                R::Ok { w, n, .. } => n != x.len() || w == 0 || (out[0] < 0x80 && !subst) || (!subst && w <= 4 && matches!(e.kind, Kind::Utf8 | Kind::Single) && out[..w].iter().any(|b| *b < 0x80)),
                R::Err { .. } => c < 0x80,
                R::Panic => true,
            };
            if bad {
                return cx.ve(format!("{}: character {ch:?} (U+{c:04X}) encodes to {r:?} {}", e.name, short(&out[..4])), &e, text(x), 16, true);
            }
        }
    });
    // 2. contexts and byte strings
    let mut plan = plan_both(sh, true, true, |e| e.ascii_compat());
    for e in sh.encs.iter().filter(|e| matches!(e.kind, Kind::Big5 | Kind::Sjis)) {
        for (a, b) in [(&b"A"[..], &b"A"[..]), (&b"\xA4\x40"[..], &b"zA"[..])] {
            plan.push(Space { enc: e.idx, encode: false, fam: Fam::Codes { pre: a.to_vec(), post: b.to_vec() }, rooms: Rooms::Edge, label: "all-codes-in-context" });
        }
    }
    thin(sh, &mut plan);
    explore(sh, &plan, |cx, e, m, encode, x, rooms| {
        if encode {
            // position by position: ASCII characters give themselves, others start with a non-ASCII byte
            TRX.with(|t| {
                let t = &mut *t.borrow_mut();
                let mut buf = std::mem::take(&mut cx.buf);
                for &end in e.ends_enc() {
                    t.enc(m, text(x), end);
                    rooms.each(t.out.len(), |room| {
                        cx.st.states += 1;
                        let out = poisoned(&mut buf, room);
                        let r = enc(e, text(x), out, end);
                        cx.note(&r, x.len());
                        if let Err(why) = r.sane(x.len(), room) {
                            cx.ve(why.into(), e, text(x), room, end);
                            return false;
                        }
                        let (w, n) = match r {
                            R::Ok { w, n, .. } => (w, n),
                            R::Err { r, w, c, .. } => {
                                if c.map(|c| (c as u32) < 0x80).unwrap_or(false) || x[r.0..r.1].iter().any(|b| *b < 0x80) {
                                    cx.ve(format!("{}: an ASCII character is reported as unencodable: {r:?} {c:?}", e.name), e, text(x), room, end);
                                    return false;
                                }
                                (w, r.0)
                            }
                            R::Panic => (0, 0),
                        };
                        // ASCII bytes of the consumed text, in order, must appear at their places
                        let mut o = 0;
                        for k in 1..t.b.len() {
                            let (i0, i1) = (t.b[k - 1].0, t.b[k].0);
                            if i1 > n {
                                break;
                            }
                            let ol = t.b[k].1 - t.b[k - 1].1;
                            let asc = x[i0] < 0x80;
                            let sub = e.kind == Kind::Sjis && (x[i0..i1] == [0xC2, 0xA5] || x[i0..i1] == [0xE2, 0x80, 0xBE]);
                            if o + ol > w || (asc && out[o] != x[i0]) || (!asc && !sub && out[o] < 0x80) {
                                cx.ve(format!("{}: at input byte {i0}, {} gives {} in {}", e.name, short(&x[i0..i1]), short(&out[o.min(w)..w]), short(&out[..w])), e, text(x), room, end);
                                return false;
                            }
                            o += ol;
                        }
                        true
                    });
                }
                cx.buf = buf;
            });
            return;
        }
        TRX.with(|t| {
            let t = &mut *t.borrow_mut();
            let mut buf = std::mem::take(&mut cx.buf);
            for &end in e.ends_dec() {
                t.dec(m, x, end);
                rooms.each(t.out.len(), |room| {
                    cx.st.states += 1;
                    let out = poisoned(&mut buf, room);
                    let r = dec(e, x, out, end);
                    cx.note(&r, x.len());
                    if let Err(why) = r.sane(x.len(), room) {
                        cx.vd(why.into(), e, x, room, end);
                        return false;
                    }
                    let (w, n) = match r {
                        R::Ok { w, n, .. } => (w, n),
                        R::Err { r, w, .. } => {
                            if x[r.0..r.1].iter().any(|b| *b < 0x80) {
                                cx.vd(format!("{}: error range {r:?} swallows an ASCII byte of {}", e.name, short(x)), e, x, room, end);
                                return false;
                            }
                            (w, r.0)
                        }
                        R::Panic => (0, 0),
                    };
                    // the ASCII characters of the text are exactly the single-byte units of the consumed input
                    let mut asc = out[..w].iter().filter(|b| **b < 0x80);
                    let mut bad = None;
                    for k in 1..t.b.len() {
                        let (i0, i1) = (t.b[k - 1].0, t.b[k].0);
                        if i1 > n {
                            break;
                        }
                        if x[i0] < 0x80 {
                            let g = asc.next();
                            if g != Some(&x[i0]) {
                                bad = Some(format!("ASCII byte {:02X} at {i0} decodes to {:?}", x[i0], g.map(|b| *b as char)));
                                break;
                            }
                        }
                    }
                    if bad.is_none() {
                        if let Some(b) = asc.next() {
                            bad = Some(format!("the text contains an ASCII {:?} that no ASCII byte stands for", *b as char));
                        }
                    }
                    if let Some(b) = bad {
                        cx.vd(format!("{}: {b} ({} -> {})", e.name, short(x), short(&out[..w])), e, x, room, end);
                        return false;
                    }
                    true
                });
            }
            cx.buf = buf;
        });
    });
    // 3. whole decoding clients: no ASCII byte is ever among the rejected ones
    let plan: Plan = sh.encs.iter().filter(|e| e.ascii_compat()).flat_map(|e| sess_plan(sh, e, false)).collect();
    explore(sh, &plan, |cx, e, _, _, x, _| {
        let (mut t, mut rj) = (vec![], vec![]);
        for (room, chunk) in [(0, 0), (4, 1), (6, 3)] {
            let room = if room == 0 { x.len() * 4 + 16 } else { room };
            cx.st.states += 1;
            if let Err((msg, calls)) = drain(cx, e, false, x, room, chunk, &mut t, &mut rj) {
                return cx.viol(msg, calls);
            }
            if let Some(&b) = t.iter().find(|&&b| (REJ_BYTE..REJ_BYTE + 0x80).contains(&b)) {
                return cx.vd(format!("{}: a client (room {room}, chunk {chunk}) loses the ASCII byte {:02X}: [{}]", e.name, b - REJ_BYTE, show(&t)), e, x, room, true);
            }
        }
    });
    Doc { rule: "every character alone and in contexts, every byte string of the families x rooms x flags, and complete chunked clients: ASCII characters map to themselves in place, error ranges contain no ASCII byte, no other character or code yields ASCII", assumptions: &[BOUND, "unit boundaries inside Big5/Shift JIS text come from the WHATWG automata"] }
}
thread_local! { static TRX: RefCell<Tr> = RefCell::new(Tr::new()); }
