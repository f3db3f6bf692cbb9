//! Client sessions: all interleavings of "a chunk arrives" and "call with some buffer size" over one input,
//! explored as a graph of states (consumed, available); the observable history must be a function of the
//! consumed position (so every session over the same input ends with the same text and the same rejects).
use crate::encs::Enc;
use crate::judge::*;
use crate::model::{Model, DU, EU};
use crate::rt::*;

/// Observable token: an output byte, a rejected input byte, or a rejected character.
pub type Tok = u32;
pub const REJ_BYTE: u32 = 0x100;
pub const REJ_CHAR: u32 = 0x20_0000;

pub fn show(t: &[Tok]) -> String {
    let mut s = String::new();
    for &x in t.iter().take(60) {
        if x >= REJ_CHAR {
            s += &format!("<bad U+{:04X}>", x - REJ_CHAR);
        } else if x >= REJ_BYTE {
            s += &format!("<bad {:02X}>", x - REJ_BYTE);
        } else {
            s += &format!("{x:02X} ");
        }
    }
    if t.len() > 60 {
        s += "...";
    }
    s
}

#[derive(Copy, Clone)]
struct Par {
    from: usize,
    room: u32,
    end: bool,
    feed: bool,
}

#[derive(Default)]
pub struct Scratch {
    /// token history at each consumed position, as a length into a per-position vector
    hist: Vec<Option<Vec<Tok>>>,
    seen: Vec<bool>,
    par: Vec<Par>,
    stack: Vec<usize>,
}

/// Explore all sessions of `x` whose chunk ends are among `cuts` (sorted; the last must be x.len()).
/// `fresh`: forget the histories of earlier calls for the same input.
/// Returns the final token history if no violation.
pub fn sessions(cx: &mut Cx, s: &mut Scratch, e: &Enc, m: &Model, encode: bool, x: &[u8], cuts: &[usize], rooms: &[usize], fresh: bool) -> bool {
    let n = x.len();
    let nc = cuts.len() + 1;
    let avail = |ci: usize| if ci == 0 { 0 } else { cuts[ci - 1] };
    if fresh {
        s.hist.clear();
        s.hist.resize(n + 1, None);
        s.hist[0] = Some(vec![]);
    }
    s.seen.clear();
    s.seen.resize((n + 1) * nc, false);
    s.par.clear();
    s.par.resize((n + 1) * nc, Par { from: usize::MAX, room: 0, end: false, feed: false });
    s.stack.clear();
    s.stack.push(0);
    s.seen[0] = true;
    let has_flag = if encode { e.enc_end } else { e.dec_end };
    let path = |par: &Vec<Par>, mut id: usize| -> Vec<Call> {
        let mut v = vec![];
        while id != 0 && par[id].from != usize::MAX {
            let p = par[id];
            if !p.feed {
                let (pp, a) = (p.from / nc, avail(p.from % nc));
                v.push(call_of(e, encode, &x[pp..a], p.room as usize, p.end));
            }
            id = p.from;
        }
        v.reverse();
        v
    };
    let mut buf = std::mem::take(&mut cx.buf);
    let mut ok = true;
    'bfs: while let Some(id) = s.stack.pop() {
        let (p, ci) = (id / nc, id % nc);
        let a = avail(ci);
        cx.st.states += 1;
        if ci + 1 < nc {
            let t = p * nc + ci + 1;
            if !s.seen[t] {
                s.seen[t] = true;
                s.par[t] = Par { from: id, room: 0, end: false, feed: true };
                s.stack.push(t);
            }
        }
        let last = a == n;
        for end in [false, true] {
            if end && (!last || !has_flag) {
                continue;
            }
            let final_call = last && (end || !has_flag);
            for &room in rooms {
                let out = poisoned(&mut buf, room);
                let r = real(e, encode, &x[p..a], out, end);
                cx.note(&r, a - p);
                let mk = |s: &Scratch| {
                    let mut c = path(&s.par, id);
                    c.push(call_of(e, encode, &x[p..a], room, end));
                    c
                };
                if let Err(why) = r.sane(a - p, room) {
                    cx.viol(why.into(), mk(s));
                    ok = false;
                    break 'bfs;
                }
                let (w, rej, p2) = match r {
                    R::Ok { w, n, .. } => (w, (0, 0), p + n),
                    R::Err { r: (b0, b1), w, .. } => (w, (p + b0, p + b1), p + b1),
                    R::Panic => unreachable!(),
                };
                let bad_char = if let R::Err { c: Some(c), .. } = r { Some(c) } else { None };
                if encode && (!text(x).is_char_boundary(p2) || !text(x).is_char_boundary(rej.0)) {
                    cx.viol(format!("{}: consumed count or error range is not at a character boundary", e.name), mk(s));
                    ok = false;
                    break 'bfs;
                }
                if p2 == p {
                    if w > 0 {
                        cx.viol(format!("{}: output without consuming input", e.name), mk(s));
                        ok = false;
                        break 'bfs;
                    }
                    // enough for the next character (or composed pair): the client must get it
                    let need = || match encode {
                        true => match m.enc(text(&x[p..]), true) {
                            EU::Ok { s, .. } => s.len(),
                            _ => 4,
                        },
                        false => match m.dec(&x[p..]) {
                            DU::Ch { s, .. } => s.len(),
                            _ => 4,
                        },
                    };
                    if final_call && p < n && (room >= 4 || room >= need()) {
                        cx.viol(format!("{}: no progress on non-empty final input with {room} bytes of room: the session never ends", e.name), mk(s));
                        ok = false;
                        break 'bfs;
                    }
                    continue;
                }
                // tokens appended by this call
                let base_len = s.hist[p].as_ref().unwrap().len();
                let rejn = if encode { bad_char.is_some() as usize } else { rej.1 - rej.0 };
                let tok = |i: usize| -> Tok {
                    if i < w {
                        out[i] as u32
                    } else if let Some(c) = bad_char {
                        REJ_CHAR + c as u32
                    } else {
                        REJ_BYTE + x[rej.0 + i - w] as u32
                    }
                };
                let total = base_len + w + rejn;
                if s.hist[p2].is_none() {
                    let mut v = s.hist[p].as_ref().unwrap().clone();
                    v.extend((0..w + rejn).map(tok));
                    s.hist[p2] = Some(v);
                } else {
                    let h = s.hist[p2].as_ref().unwrap();
                    let b = s.hist[p].as_ref().unwrap();
                    let same = h.len() == total && h[..base_len] == b[..] && (0..w + rejn).all(|i| h[base_len + i] == tok(i));
                    if !same {
                        let mut v = b.clone();
                        v.extend((0..w + rejn).map(tok));
                        let msg = format!(
                            "{}: two ways of chunking/buffering the input {} differ after {p2} bytes: one session observes [{}], this one [{}]",
                            e.name, short(x), show(h), show(&v)
                        );
                        cx.viol(msg, mk(s));
                        ok = false;
                        break 'bfs;
                    }
                }
                let t = p2 * nc + ci;
                if !s.seen[t] {
                    s.seen[t] = true;
                    s.par[t] = Par { from: id, room: room as u32, end, feed: false };
                    s.stack.push(t);
                }
            }
        }
    }
    cx.buf = buf;
    if ok && s.hist[n].is_none() {
        cx.viol(format!("{}: no session consumes the whole input", e.name), vec![call_of(e, encode, x, 8, true)]);
        ok = false;
    }
    ok
}

/// One fixed client: whole input available, constant room; returns tokens, or a violation message.
pub fn drain(cx: &mut Cx, e: &Enc, encode: bool, x: &[u8], room: usize, chunk: usize, toks: &mut Vec<Tok>, rejects: &mut Vec<(usize, usize)>) -> Result<(), (String, Vec<Call>)> {
    toks.clear();
    rejects.clear();
    let n = x.len();
    let mut buf = std::mem::take(&mut cx.buf2);
    let (mut p, mut a) = (0usize, if chunk == 0 { n } else { 0 });
    let mut res = Ok(());
    let grow = |a: usize, p: usize| -> usize {
        let mut b = (a.max(p) + chunk).min(n);
        if encode {
            while !text(x).is_char_boundary(b) {
                b += 1;
            }
        }
        b
    };
    let mut steps = 0usize;
    loop {
        if p >= n {
            break;
        }
        steps += 1;
        let last = a >= n;
        let out = poisoned(&mut buf, room);
        let r = real(e, encode, &x[p..a], out, last);
        cx.note(&r, a - p);
        if let Err(why) = r.sane(a - p, room) {
            res = Err((why.to_string(), vec![call_of(e, encode, &x[p..a], room, last)]));
            break;
        }
        let q = p;
        match r {
            R::Ok { w, n: k, .. } => {
                toks.extend(out[..w].iter().map(|&b| b as u32));
                p += k;
            }
            R::Err { r: (b0, b1), w, c, .. } => {
                toks.extend(out[..w].iter().map(|&b| b as u32));
                rejects.push((p + b0, p + b1));
                if let Some(c) = c {
                    toks.push(REJ_CHAR + c as u32);
                } else {
                    toks.extend(x[p + b0..p + b1].iter().map(|&b| REJ_BYTE + b as u32));
                }
                p += b1;
            }
            R::Panic => unreachable!(),
        }
        if encode && !text(x).is_char_boundary(p) {
            res = Err((format!("{}: consumed count or error range is not at a character boundary", e.name), vec![call_of(e, encode, &x[q..a], room, last)]));
            break;
        }
        if p == q {
            if last {
                res = Err((format!("{}: no progress on non-empty final input with {room} bytes of room: the client loop never ends", e.name), vec![call_of(e, encode, &x[p..a], room, true)]));
                break;
            }
            a = grow(a, p);
        } else if chunk > 0 && p == a && a < n {
            a = grow(a, p);
        }
        if steps > 16 * n + 64 {
            res = Err((format!("{}: client loop does not terminate", e.name), vec![call_of(e, encode, x, room, true)]));
            break;
        }
    }
    cx.buf2 = buf;
    res
}
