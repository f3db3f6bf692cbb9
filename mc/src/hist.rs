//! C18: independence of call history, buffer placement and other threads.
//! Runs in child processes with one explorer thread each, so that the order of calls is exactly the explored one.
use crate::encs::{Enc, Kind};
use crate::gen::*;
use crate::judge::*;
use crate::model::*;
use crate::props::{prof, Doc};
use crate::rt::*;
use std::collections::VecDeque;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};

#[derive(Clone)]
pub struct Op {
    pub e: Enc,
    pub encode: bool,
    pub x: Vec<u8>,
    pub room: usize,
    pub end: bool,
}
pub type Res = (R, Vec<u8>);

impl Op {
    pub fn call(&self) -> Call {
        call_of(&self.e, self.encode, &self.x, self.room, self.end)
    }
    pub fn run(&self, buf: &mut [u8]) -> Res {
        let out = &mut buf[..self.room];
        let r = real(&self.e, self.encode, &self.x, out, self.end);
        let r = match r {
            R::Ok { w, n, .. } => R::Ok { w, n, at: true },
            r => r,
        };
        let w = match r {
            R::Ok { w, .. } | R::Err { w, .. } => w.min(self.room),
            R::Panic => 0,
        };
        (r, out[..w].to_vec())
    }
    /// Same, without allocating the expected bytes.
    #[inline]
    pub fn same(&self, buf: &mut [u8], want: &Res) -> bool {
        let out = &mut buf[..self.room];
        let r = real(&self.e, self.encode, &self.x, out, self.end);
        let r = match r {
            R::Ok { w, n, .. } => R::Ok { w, n, at: true },
            r => r,
        };
        r == want.0 && out.get(..want.1.len()) == Some(&want.1[..])
    }
}

/// The operation alphabet of one encoding: different outcomes, lengths, rooms.
pub fn ops(e: &Enc, m: &Model, t: &Tables) -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    let mut add = |encode: bool, x: &[u8], room: usize, end: bool| v.push(Op { e: *e, encode, x: x.to_vec(), room, end });
    let d = tails_dec(e, m, t);
    let g = good_units(e, m);
    // decode: every good unit, an error, an incomplete tail, short rooms, a medium text
    for u in g.iter().take(5) {
        add(false, u, 16, true);
    }
    let mut kinds = std::collections::HashSet::new();
    for x in &d {
        let k = match x.is_empty() {
            true => 2000,
            false => match m.dec(x) {
                DU::Ch { .. } => continue,
                // by range length, range of the second byte, and half of the code space
                DU::Bad { n } => n * 100 + x.get(1).map_or(0, |&b| 1 + [0x40, 0x7F, 0x80, 0xA1, 0xFD, 0xFF].iter().filter(|&&t| b >= t).count()) + 10 * (x[0] >= 0xA0) as usize,
                DU::Inc => 1000 + x.len(),
            },
        };
        if kinds.insert(k) {
            add(false, x, 16, true);
            if e.dec_end {
                add(false, x, 16, false);
            }
        }
    }
    let mix: Vec<u8> = g.iter().flatten().cloned().collect();
    add(false, &mix, 64, true);
    add(false, &mix, 3, true);
    add(false, &g[0].repeat(40), 64, true);
    add(false, &g[g.len() - 1].repeat(40), 256, true);
    // encode
    let ts = text_small(e, m);
    for x in ts.iter().take(10) {
        add(true, x, 16, true);
    }
    if e.kind == Kind::Big5 {
        for x in ["\u{CA}", "\u{CA}\u{304}", "\u{EA}\u{30C}", "\u{304}"] {
            add(true, x.as_bytes(), 16, true);
            add(true, x.as_bytes(), 16, false);
        }
    }
    if e.kind == Kind::Sjis {
        for x in ["\u{A5}", "\u{2212}", "\u{FF0D}", "\u{E000}"] {
            add(true, x.as_bytes(), 16, true);
        }
    }
    let good: Vec<u8> = text_units(e, m).concat();
    add(true, &good, 64, true);
    add(true, &good, 3, true);
    add(true, &b"A".repeat(40), 256, true);
    add(true, b"", 4, true);
    // pairs of characters whose scalar values agree in their low or high byte (hash-like caches)
    let enc_ok: Vec<u32> = (0x80..0x30000u32).filter(|&c| char::from_u32(c).is_some() && m.enc_char(c).is_some()).collect();
    if let Some(&a) = enc_ok.first() {
        if let Some(&b) = enc_ok.iter().find(|&&b| b != a && b % 256 == a % 256) {
            add(true, Small::utf8(b).as_slice(), 16, true);
            add(false, m.enc_char(b).unwrap().as_slice(), 16, true);
        }
        if let Some(&b) = enc_ok.iter().find(|&&b| b != a && b / 256 == a / 256) {
            add(true, Small::utf8(b).as_slice(), 16, true);
            add(false, m.enc_char(b).unwrap().as_slice(), 16, true);
        }
        if let Some(&b) = enc_ok.last() {
            add(true, Small::utf8(b).as_slice(), 16, true);
            add(false, m.enc_char(b).unwrap().as_slice(), 16, true);
        }
    }
    v
}

pub fn encode_res(r: &Res) -> String {
    format!("{:?} [{}]", r.0, hex(&r.1))
}

/// Results of the operations, each executed as the first and only call of a new process.
fn fresh(list: &[(usize, usize, Op)]) -> Option<Vec<String>> {
    let exe = std::env::current_exe().ok()?;
    let mut out = vec![];
    for chunk in list.chunks(8) {
        let kids: Vec<_> = chunk
            .iter()
            .map(|(ei, oi, _)| std::process::Command::new(&exe).args(["fresh-op", &ei.to_string(), &oi.to_string()]).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn())
            .collect();
        for k in kids {
            let o = k.ok()?.wait_with_output().ok()?;
            out.push(String::from_utf8_lossy(&o.stdout).trim().to_string());
        }
    }
    Some(out)
}

struct Hist<'a> {
    ring: VecDeque<&'a Op>,
}
impl<'a> Hist<'a> {
    fn push(&mut self, o: &'a Op) {
        if self.ring.len() == 64 {
            self.ring.pop_front();
        }
        self.ring.push_back(o);
    }
    fn calls(&self) -> Vec<Call> {
        self.ring.iter().map(|o| o.call()).collect()
    }
}

/// One worker process: encodings with index % n == k.
pub fn worker(sh: &Shared, k: usize, n: usize) -> Doc {
    let mine: Vec<Enc> = sh.encs.iter().filter(|e| rank(e) % n == k).cloned().collect();
    let mut all: Vec<Vec<(Op, Res)>> = vec![];
    // operation alphabets with fresh-process baselines
    let mut fresh_all: Vec<(Vec<Op>, Vec<String>)> = vec![];
    for e in &mine {
        let os = ops(e, &sh.models[e.idx], sh.t);
        let list: Vec<(usize, usize, Op)> = os.iter().cloned().enumerate().map(|(i, o)| (e.idx, i, o)).collect();
        let Some(base) = fresh(&list) else {
            eprintln!("engine error: cannot start fresh processes");
            std::process::exit(2);
        };
        fresh_all.push((os, base));
    }
    // (so far this process has not called the code under test)
    first_calls(sh, &fresh_all);
    if sh.failed() {
        return doc();
    }
    for (os, base) in fresh_all {
        let mut v = vec![];
        let mut bad = vec![];
        for (o, b) in os.into_iter().zip(base) {
            let mut buf = vec![0xA5u8; o.room];
            let r = o.run(&mut buf);
            if encode_res(&r) != b {
                bad.push((o.clone(), b, r.clone()));
            }
            v.push((o, r));
        }
        sh.par(1, |cx, _| {
            cx.st.transitions += 2 * v.len() as u64;
            cx.st.extra("fresh-process-baselines", v.len() as u64);
            for (o, b, r) in &bad {
                cx.viol(format!("{}: as the first call of a process the result is {b}, here {}", o.e.name, encode_res(r)), vec![o.call()]);
            }
        });
        all.push(v);
    }
    if sh.failed() {
        return doc();
    }
    sequences(sh, &all);
    placement(sh, &all);
    table_pairs(sh, &mine);
    stale(sh, &mine);
    reread(sh, &mine);
    interleave(sh, &all);
    doc()
}

/// Every member of the input families three times: into a poisoned buffer, again into the buffer as that left it, and
/// into one of zeros (letters, thorough). The old contents, and having made the same call before, must not matter.
fn stale(sh: &Shared, mine: &[Enc]) {
    let mut plan: Plan = vec![];
    for e in mine {
        let single = e.kind == Kind::Single;
        let mut p = prof(sh, e);
        if !sh.thorough {
            p.words = if single { 1000 } else { 50_000 };
            p.char_ctx = 2;
            p.long_log2 = 10;
            p.bytes = 2;
        } else {
            p.words /= 10;
            p.long_log2 = 12;
        }
        p.mega = false;
        for mut s in plan_dec(sh, e, &p).into_iter().chain(plan_enc(sh, e, &p)) {
            s.rooms = Rooms::Full;
            plan.push(s);
        }
    }
    explore(sh, &plan, |cx, e, _, encode, x, _| {
        let mut buf = std::mem::take(&mut cx.buf);
        let mut buf2 = std::mem::take(&mut cx.buf2);
        let room = x.len() * 4 + 16;
        for &end in ends(e, encode) {
            let r = real(e, encode, x, poisoned(&mut buf, room), end);
            cx.note(&r, x.len());
            cx.st.states += 1;
            cx.st.extra("stale-buffer-inputs", 1);
            let w = match r {
                R::Ok { w, .. } | R::Err { w, .. } => w.min(room),
                R::Panic => 0,
            };
            if buf2.len() < room {
                buf2.resize(room, 0);
            }
            buf2[..room].fill(0xA5);
            buf2[..w].copy_from_slice(&buf[..w]);
            for fill in [None, Some(0u8), Some(b'a')] {
                if let Some(b) = fill {
                    if b != 0 && !sh.thorough {
                        continue;
                    }
                    buf2[..room].fill(b);
                }
                let r2 = real(e, encode, x, &mut buf2[..room], end);
                cx.st.transitions += 1;
                if r2 != r || buf2[..w] != buf[..w] {
                    let how = fill.map_or("the output of the same call before".to_string(), |b| format!("bytes {b:02X}"));
                    let m = format!("{}: into a buffer that held {how} the result is {r2:?} {}, otherwise {r:?} {}", e.name, short(&buf2[..w]), short(&buf[..w]));
                    let c = Call { enc: e.name, encode, input: x.to_vec(), room, end };
                    cx.viol(m, vec![c.clone(), c]);
                    return;
                }
            }
        }
        cx.buf = buf;
        cx.buf2 = buf2;
    });
}

/// One buffer, read again after its contents changed: texts of equal length that differ in one place, in the same
/// memory, one after the other; and every window of a text. (Remembering a result by address and length, or by a part or
/// a sum of the contents, is seen here.) Judged by the model, since a second execution might remember as well.
fn reread(sh: &Shared, mine: &[Enc]) {
    let jobs: Vec<(usize, bool)> = mine.iter().flat_map(|e| [(e.idx, false), (e.idx, true)]).collect();
    sh.par(jobs.len() as u64, |cx, j| {
        let (i, encode) = jobs[j as usize];
        let (e, m) = (sh.encs[i], &sh.models[i]);
        let single = e.kind == Kind::Single;
        let (a, syms) = if encode { (b"A".to_vec(), class_chars(&e, m)) } else { (m.enc_char(0x41).unwrap().as_slice().to_vec(), unit_alpha(&e, m, sh.t).to_vec()) };
        let mut syms: Vec<Vec<u8>> = syms.into_iter().filter(|x| !x.is_empty() && x.len() % a.len() == 0 && *x != a).collect();
        if single && !sh.thorough {
            syms = some_of(&syms, 6);
        }
        syms.push(if encode { b"B".to_vec() } else { m.enc_char(0x42).unwrap().as_slice().to_vec() });
        let lens: &[usize] = if single && !sh.thorough { &[9, 40] } else { &[5, 9, 17, 26, 33, 40, 64, 70, 130] };
        let mut mem = vec![0u8; 4096];
        let mut buf = vec![0xA5u8; 4096];
        let mut tr = Tr::new();
        let mut before: Vec<u8> = vec![];
        let mut call = |cx: &mut Cx, x: &[u8], at: usize, end: bool| -> bool {
            mem[at..at + x.len()].copy_from_slice(x);
            let room = x.len() * 4 + 16;
            let r = real(&e, encode, &mem[at..at + x.len()], &mut buf[..room], end);
            cx.note(&r, x.len());
            cx.st.states += 1;
            cx.st.extra("reread-calls", 1);
            tr.run(m, encode, x, end);
            if let Some((_, why)) = compare(&tr, room, &r, &buf[..room]) {
                // does it depend on the calls before? (again elsewhere in memory, after other texts of other lengths)
                let w = |r: &R| if let R::Ok { w, .. } | R::Err { w, .. } = *r { w.min(room) } else { 0 };
                let mut differs = false;
                let mut buf2 = vec![0xA5u8; room];
                for k in 1..4 {
                    for l in 1..9 {
                        let y = a.repeat(l * 5 + k);
                        let _ = real(&e, encode, &y, &mut vec![0u8; y.len() * 4 + 16], end);
                    }
                    let y = x.to_vec();
                    buf2.fill(0xA5);
                    let r2 = real(&e, encode, &y, &mut buf2, end);
                    differs |= r2 != r || buf2[..w(&r2)] != buf[..w(&r)];
                }
                if !differs {
                    return false; // wrong, but always so: not for this property
                }
                let c = |x: &[u8]| Call { enc: e.name, encode, input: x.to_vec(), room, end };
                cx.viol(format!("{}: {} in the memory that held {} at the call before: {why}", e.name, short(x), short(&before)), vec![c(&before), c(x)]);
                return false;
            }
            before.clear();
            before.extend_from_slice(x);
            true
        };
        for &end in ends(&e, encode) {
            for &l in lens {
                let total = l * a.len();
                let plain = a.repeat(l);
                let with = |q: &[u8], p: usize| -> Option<Vec<u8>> {
                    let mut x = a.repeat(p);
                    x.extend_from_slice(q);
                    while x.len() < total {
                        x.extend_from_slice(&a);
                    }
                    if x.len() == total { Some(x) } else { None }
                };
                for q in &syms {
                    let xs: Vec<Vec<u8>> = (0..l).filter_map(|p| with(q, p)).collect();
                    for (k, x) in xs.iter().enumerate() {
                        // after the plain text, and after the same symbol elsewhere; and the plain text after it
                        if !(call(cx, &plain, 0, end) && call(cx, x, 0, end) && call(cx, &plain, 0, end) && call(cx, &xs[(k + 1) % xs.len()], 0, end) && call(cx, x, 0, end)) {
                            return;
                        }
                        cx.st.traces += 1;
                    }
                }
                // one symbol for another in the same place
                for p in [0, l / 2, l - 3, l - 2, l - 1] {
                    for q in &syms {
                        for q2 in &syms {
                            if let (Some(x), Some(y)) = (with(q, p), with(q2, p)) {
                                if !(call(cx, &x, 0, end) && call(cx, &y, 0, end)) {
                                    return;
                                }
                            }
                        }
                    }
                    cx.st.traces += 1;
                }
            }
            // windows: the same bytes, other bounds
            for q in &syms {
                let x = [a.repeat(6), q.clone(), a.repeat(2), q.clone(), syms[0].clone(), a.repeat(24)].concat();
                let cuts: Vec<usize> = if encode { (0..=x.len()).filter(|&k| text(&x).is_char_boundary(k)).collect() } else { (0..=x.len()).collect() };
                for (k, &f) in cuts.iter().enumerate() {
                    for &t in &cuts[k..] {
                        if !call(cx, &x[f..t], f, end) {
                            return;
                        }
                    }
                    cx.st.traces += 1;
                }
                for (k, &t) in cuts.iter().enumerate() {
                    for &f in &cuts[..=k] {
                        if !call(cx, &x[f..t], f, end) {
                            return;
                        }
                    }
                    cx.st.traces += 1;
                }
            }
        }
    });
}

/// Spread heavy encodings over the workers.
fn rank(e: &Enc) -> usize {
    match e.kind {
        Kind::Big5 => 0,
        Kind::Sjis => 1,
        Kind::Utf8 => 2,
        Kind::Utf16 { be } => 3 + be as usize,
        Kind::Utf32 { be } => 5 + be as usize,
        Kind::Single => e.idx,
    }
}

fn sequences(sh: &Shared, all: &[Vec<(Op, Res)>]) {
    sh.par(1, |cx, _| {
        let mut buf = vec![0xA5u8; 4096];
        let mut h = Hist { ring: VecDeque::new() };
        macro_rules! step {
            ($o:expr) => {{
                let (o, want) = $o;
                h.push(o);
                cx.st.transitions += 1;
                if !o.same(&mut buf, want) {
                    buf.fill(0xA5);
                    let again = o.run(&mut buf);
                    cx.viol(format!("{}: the last call of this history gives {} instead of {} as in a fresh process", o.e.name, encode_res(&again), encode_res(want)), h.calls());
                    return;
                }
            }};
        }
        // all sequences of length 3 over each encoding's alphabet (thorough: 4)
        for v in all {
            let n = v.len();
            for a in 0..n {
                for b in 0..n {
                    for c in 0..n {
                        step!(&v[a]);
                        step!(&v[b]);
                        step!(&v[c]);
                        cx.st.states += 1;
                        cx.st.traces += 1;
                        if sh.thorough {
                            for d in 0..n {
                                step!(&v[a]);
                                step!(&v[b]);
                                step!(&v[c]);
                                step!(&v[d]);
                                cx.st.states += 1;
                                cx.st.traces += 1;
                            }
                        }
                    }
                }
            }
            cx.st.extra("op-alphabet", n as u64);
        }
        // all ordered pairs across encodings
        let flat: Vec<&(Op, Res)> = all.iter().flatten().collect();
        for &a in &flat {
            for &b in &flat {
                step!(a);
                step!(b);
                cx.st.states += 1;
                cx.st.traces += 1;
            }
        }
        // repetition: each operation many times in a row, then every other one
        let reps = if sh.thorough { 1 << 18 } else { 70_000 };
        for v in all {
            for a in v {
                let k = if a.0.x.len() > 30 { reps / 16 } else { reps };
                for _ in 0..k {
                    step!(a);
                }
                for b in v {
                    step!(b);
                }
                cx.st.states += 1;
                cx.st.traces += 1;
                cx.st.extra("repetition-histories", 1);
            }
        }
        cx.sample(|| format!("sequence: {:?}", h.calls().iter().rev().take(3).map(|c| format!("{} {}", c.enc, hex(&c.input))).collect::<Vec<_>>()));
    });
}

/// Buffer contents, alignment and relative address of input and output.
fn placement(sh: &Shared, all: &[Vec<(Op, Res)>]) {
    sh.par(1, |cx, _| {
        let mut arena = vec![0u8; 1 << 14];
        let base = (4096 - arena.as_ptr() as usize % 4096) % 4096;
        for v in all {
            // also longer inputs
            let mut list: Vec<(Op, Res)> = v.clone();
            for (o, _) in v {
                if o.x.is_empty() || o.x.len() > 12 {
                    continue;
                }
                for k in [17usize, 64, 100] {
                    let o2 = Op { x: o.x.repeat(k), room: o.x.len() * k * 3 + 8, ..o.clone() };
                    let mut buf = vec![0xA5u8; o2.room];
                    let r = o2.run(&mut buf);
                    list.push((o2, r));
                }
            }
            for (o, want) in &list {
                for (fi, fill) in [&[0u8][..], &[0xFF], &[0x5A], &[0xE3, 0x81, 0x82], b"text ", &want.1[..]].iter().enumerate() {
                    if fill.is_empty() {
                        continue;
                    }
                    for off in 0..64usize {
                        if fi > 0 && off % 9 != 0 && !sh.thorough {
                            continue;
                        }
                        // relative placement: input then output, output then input, directly adjacent
                        for order in 0..2 {
                            let (i0, o0) = if order == 0 { (base + off, base + off + o.x.len()) } else { (base + off + o.room, base + off) };
                            for (k, b) in arena.iter_mut().enumerate().skip(base).take(o.x.len() + o.room + 80) {
                                *b = fill[k % fill.len()];
                            }
                            arena[i0..i0 + o.x.len()].copy_from_slice(&o.x);
                            let (inp, out) = unsafe {
                                let p = arena.as_mut_ptr();
                                (std::slice::from_raw_parts(p.add(i0), o.x.len()), std::slice::from_raw_parts_mut(p.add(o0), o.room))
                            };
                            let r = real(&o.e, o.encode, inp, out, o.end);
                            let r = match r {
                                R::Ok { w, n, .. } => R::Ok { w, n, at: true },
                                r => r,
                            };
                            cx.note(&r, o.x.len());
                            cx.st.states += 1;
                            cx.st.extra("placements", 1);
                            if r != want.0 || out.get(..want.1.len()) != Some(&want.1[..]) {
                                cx.viol(format!("{}: with the buffer prefilled with {} at offset {off} the result is {r:?} {}, otherwise {}", o.e.name, hex(fill), hex(&out[..want.1.len().min(out.len())]), encode_res(want)), vec![o.call()]);
                                return;
                            }
                        }
                    }
                }
            }
        }
    });
}

/// For table encodings: a call converting one character, directly after a call converting another, for ALL ordered pairs.
fn table_pairs(sh: &Shared, mine: &[Enc]) {
    for e in mine {
        let m = &sh.models[e.idx];
        let (chars, codes): (Vec<Small>, Vec<Small>) = match e.kind {
            Kind::Utf8 | Kind::Utf16 { .. } | Kind::Utf32 { .. } => {
                let step = if sh.thorough { 131 } else { 523 };
                let cs: Vec<u32> = (0..0x110000u32).step_by(step).chain(TEXT.iter().map(|c| *c as u32)).filter(|&c| char::from_u32(c).is_some()).collect();
                (cs.iter().map(|&c| Small::utf8(c)).collect(), cs.iter().map(|&c| m.enc_char(c).unwrap()).collect())
            }
            _ => {
                let cs: Vec<u32> = (0..0x30000u32).filter(|&c| char::from_u32(c).is_some() && m.enc_char(c).is_some()).collect();
                let mut codes: Vec<Small> = vec![];
                for a in 0..=255u8 {
                    match m.dec(&[a]) {
                        DU::Ch { .. } => codes.push(Small::bytes(&[a])),
                        DU::Inc => codes.extend((0..=255u8).filter(|&b| matches!(m.dec(&[a, b]), DU::Ch { n: 2, .. })).map(|b| Small::bytes(&[a, b]))),
                        _ => {}
                    }
                }
                (cs.iter().map(|&c| Small::utf8(c)).chain(TEXT.iter().map(|&c| Small::utf8(c as u32))).collect(), codes)
            }
        };
        sh.par(1, |cx, _| {
            for (encode, list) in [(true, &chars), (false, &codes)] {
                let run = |x: &Small| -> (R, [u8; 16]) {
                    let mut out = [0xA5u8; 16];
                    let r = real(e, encode, x.as_slice(), &mut out, true);
                    let r = match r {
                        R::Ok { w, n, .. } => R::Ok { w, n, at: true },
                        r => r,
                    };
                    (r, out)
                };
                let base: Vec<(R, [u8; 16])> = list.iter().map(run).collect();
                let diff = |cx: &mut Cx, i: usize, j: usize, got: &(R, [u8; 16])| {
                    cx.viol(
                        format!("{}: {} directly after {} gives {:?} {}, otherwise {:?} {}", e.name, hex(list[j].as_slice()), hex(list[i].as_slice()), got.0, hex(&got.1[..4]), base[j].0, hex(&base[j].1[..4])),
                        vec![call_of(e, encode, list[i].as_slice(), 16, true), call_of(e, encode, list[j].as_slice(), 16, true)],
                    );
                };
                // In row i every other call is list[i], so that each (i, j) and (j, i) adjacency occurs.
                let n = list.len();
                for i in 0..n {
                    for j in i..n {
                        for q in [i, j] {
                            let g = run(&list[q]);
                            if g != base[q] {
                                return diff(cx, i, q, &g);
                            }
                        }
                    }
                    cx.st.transitions += 2 * (n - i) as u64;
                    cx.st.states += (n - i) as u64;
                    if cx.stopped() {
                        return;
                    }
                }
                cx.st.traces += n as u64;
                cx.st.extra("adjacent-call-pairs", (n * n) as u64);
            }
        });
    }
}

// ------------------------------------------------------------------ interleavings
// Thread A runs its call single-stepped (x86 trap flag). At a chosen instruction boundary A is paused and thread B
// runs one whole call (or, with two preemptions, its first j instructions; A then finishes, then B).
static MODE: AtomicU64 = AtomicU64::new(0); // 0 off, 1 inject at step TARGET, 2 inject at every step
static TARGET: AtomicU64 = AtomicU64::new(0);
static STEP: AtomicU64 = AtomicU64::new(0);
static TURN: AtomicUsize = AtomicUsize::new(0); // 0 idle, 1 B may run, 2 B finished its part, 3 quit
static B_BLOCKED: AtomicBool = AtomicBool::new(false);
// two-preemption schedules
static B_STEP: AtomicU64 = AtomicU64::new(0);
static B_PAUSE: AtomicU64 = AtomicU64::new(u64::MAX);
static RESUME_B: AtomicBool = AtomicBool::new(false);
static B_THREAD: AtomicBool = AtomicBool::new(false);
thread_local! { static IS_B: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }

fn spin_until(f: impl Fn() -> bool, limit_ms: u64) -> bool {
    let mut n = 0u32;
    let mut t0 = None;
    while !f() {
        n += 1;
        if n < 2000 {
            std::hint::spin_loop();
        } else {
            std::thread::yield_now();
            let t = *t0.get_or_insert_with(std::time::Instant::now);
            if n % 64 == 0 && t.elapsed().as_millis() as u64 > limit_ms {
                return false;
            }
        }
    }
    true
}

extern "C" fn on_trap(_s: i32, _i: *mut u8, uc: *mut u8) {
    let clear = |uc: *mut u8| unsafe {
        let efl = uc.add(40 + 17 * 8) as *mut u64;
        *efl &= !0x100;
    };
    if IS_B.with(|b| b.get()) {
        let s = B_STEP.fetch_add(1, Relaxed);
        if s == B_PAUSE.load(Relaxed) {
            clear(uc);
            TURN.store(2, Release); // let A finish
            spin_until(|| RESUME_B.load(Acquire), 200);
        }
        return;
    }
    let s = STEP.fetch_add(1, Relaxed);
    match MODE.load(Relaxed) {
        1 => {
            if s == TARGET.load(Relaxed) {
                clear(uc);
                give_b();
            }
        }
        2 => give_b(),
        _ => clear(uc),
    }
}

/// Let B run one part; if B cannot finish because it waits for A (a lock), A goes on.
fn give_b() {
    if B_BLOCKED.load(Relaxed) {
        return;
    }
    TURN.store(1, Release);
    if !spin_until(|| TURN.load(Acquire) == 2, 100) {
        B_BLOCKED.store(true, Relaxed);
    }
}

#[inline(never)]
fn stepped(o: &Op, buf: &mut [u8]) -> Res {
    let out = &mut buf[..o.room];
    let base = out.as_ptr() as usize;
    let t = text_or(&o.x, o.encode);
    macro_rules! tf {
        (on) => {
            unsafe { std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") }
        };
        (off) => {
            unsafe { std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq") }
        };
    }
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if o.encode {
            tf!(on);
            let r = (o.e.enc)(t, out, o.end);
            tf!(off);
            match r {
                Ok((s, n)) => R::Ok { w: s.len(), n, at: s.as_ptr() as usize == base },
                Err(x) => R::Err { r: x.error_range, w: x.output_bytes_written, c: Some(x.character), invalid: true },
            }
        } else {
            tf!(on);
            let r = (o.e.dec)(&o.x, out, o.end);
            tf!(off);
            match r {
                Ok((s, n)) => R::Ok { w: s.len(), n, at: s.as_ptr() as usize == base },
                Err(x) => R::Err { r: x.error_range, w: x.output_bytes_written, c: None, invalid: x.cause == text_encoding::DecodeErrorCause::InvalidData },
            }
        }
    }))
    .unwrap_or(R::Panic);
    tf!(off);
    let r = match r {
        R::Ok { w, n, .. } => R::Ok { w, n, at: true },
        r => r,
    };
    let w = match r {
        R::Ok { w, .. } | R::Err { w, .. } => w.min(o.room),
        R::Panic => 0,
    };
    (r, buf[..w].to_vec())
}
// ------------------------------------------------------------------ first calls of a process
// Everything that is set up by a first call (lazily built tables, caches) is set up here, with another call in the
// middle: in a forked process that has called nothing yet, call A is single-stepped, and after instruction k a whole
// call B runs on top of it; then both are repeated. One fork per schedule (A, B, k).
extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn alarm(s: u32) -> u32;
    fn signal(s: i32, h: usize) -> usize;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn munmap(a: *mut u8, n: usize) -> i32;
}
type FirstB = (*const Op, Option<Res>, Vec<u8>);
static FIRST: std::sync::atomic::AtomicPtr<FirstB> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());

extern "C" fn on_trap_first(_s: i32, _i: *mut u8, uc: *mut u8) {
    let s = STEP.fetch_add(1, Relaxed);
    if s == TARGET.load(Relaxed) {
        unsafe {
            let efl = uc.add(40 + 17 * 8) as *mut u64;
            *efl &= !0x100;
            let f = &mut *FIRST.load(Relaxed);
            f.1 = Some((*f.0).run(&mut f.2));
        }
    }
}

fn first_calls(sh: &Shared, all: &[(Vec<Op>, Vec<String>)]) {
    if cfg!(not(target_arch = "x86_64")) {
        return;
    }
    let page = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as usize;
    if page == usize::MAX {
        return;
    }
    sh.par(1, |cx, _| {
        let page = page as *mut u64;
        for (os, base) in all {
            for d in [true, false] {
                // accepted inputs outside ASCII, an ASCII one, a refused one
                let pick = |good: bool, high: bool, n: usize| -> Vec<usize> {
                    let mut seen = std::collections::HashSet::new();
                    (0..os.len())
                        .filter(|&i| os[i].encode == d && !os[i].x.is_empty() && os[i].x.len() <= 4 && base[i].starts_with("Ok") == good && (!good || os[i].x.iter().any(|&b| b >= 0x80) == high) && seen.insert(&os[i].x))
                        .take(n)
                        .collect()
                };
                let (g, a, b) = (pick(true, true, if sh.thorough { 5 } else { 3 }), pick(true, false, 1), pick(false, true, 1));
                let mut pairs: Vec<(usize, usize)> = vec![];
                for &x in &g {
                    for &y in &g {
                        pairs.push((x, y));
                    }
                }
                for &x in g.iter().take(1).chain(&a) {
                    for &y in a.iter().chain(&b) {
                        pairs.push((x, y));
                        pairs.push((y, x));
                    }
                }
                pairs.dedup();
                for (ia, ib) in pairs {
                    let (oa, ob) = (&os[ia], &os[ib]);
                    // one schedule; None: B waits for A (a lock)
                    let run = |k: u64| -> Option<u64> {
                        unsafe {
                            *page = 0;
                            *page.add(1) = 0;
                            let pid = fork();
                            if pid < 0 {
                                eprintln!("engine error: cannot fork");
                                std::process::exit(2);
                            }
                            if pid == 0 {
                                for s in [11, 7, 6, 4, 8] {
                                    signal(s, 0);
                                }
                                alarm(if k == u64::MAX { 60 } else { 5 });
                                let mut f: FirstB = (ob, None, vec![0xA5u8; 4096]);
                                FIRST.store(&mut f, Relaxed);
                                TARGET.store(k, Relaxed);
                                STEP.store(0, Relaxed);
                                handle(5, on_trap_first, false);
                                let mut buf = vec![0xA5u8; 4096];
                                let r = stepped(oa, &mut buf);
                                *page = STEP.load(Relaxed);
                                let mut code = 0;
                                if encode_res(&r) != base[ia] {
                                    code = 2;
                                }
                                if f.1.as_ref().is_some_and(|r| encode_res(r) != base[ib]) {
                                    code = 3;
                                }
                                for (o, want) in [(oa, &base[ia]), (ob, &base[ib])] {
                                    if code == 0 && encode_res(&o.run(&mut buf)) != *want {
                                        code = 4;
                                    }
                                }
                                *page.add(1) = code;
                                _exit(0);
                            }
                            let mut st = 0;
                            waitpid(pid, &mut st, 0);
                            if st & 0x7F == 14 {
                                return None;
                            }
                            Some(if st == 0 { *page.add(1) } else { 5 })
                        }
                    };
                    let mut bad = None;
                    match run(u64::MAX) {
                        Some(0) => {}
                        r => bad = Some((u64::MAX, r.unwrap_or(5))),
                    }
                    let len = unsafe { *page };
                    let mut runs = 1;
                    let mut blocked = 0;
                    let mut k = 0;
                    while bad.is_none() && k < len && blocked < 2 {
                        match run(k) {
                            Some(0) => {}
                            Some(c) => bad = Some((k, c)),
                            None => blocked += 1,
                        }
                        runs += 1;
                        cx.st.transitions += k.min(len);
                        // every instruction of the first 400, then evenly spread ones
                        k += if k < 400 { 1 } else { 1 + len / 400 };
                    }
                    cx.st.states += runs;
                    cx.st.traces += runs;
                    cx.st.extra("first-call-schedules", runs);
                    if let Some((k, c)) = bad {
                        let what = match c {
                            2 => "the interrupted call gives a wrong result",
                            3 => "the interrupting call gives a wrong result",
                            4 => "later calls give wrong results",
                            _ => "the process crashes",
                        };
                        cx.viol(format!("{}: first calls of a process, the first preempted after instruction {k} by the second: {what} (expected {} and {})", oa.e.name, base[ia], base[ib]), vec![oa.call(), ob.call()]);
                        return;
                    }
                }
            }
        }
    });
    unsafe {
        munmap(page as *mut u8, 4096);
    }
}

pub fn text_or(x: &[u8], encode: bool) -> &str {
    if encode {
        text(x)
    } else {
        ""
    }
}

fn interleave(sh: &Shared, all: &[Vec<(Op, Res)>]) {
    if cfg!(not(target_arch = "x86_64")) {
        return;
    }
    handle(5, on_trap, false);
    // B's current operation, its result, and the state of the pair
    let cur: std::sync::Mutex<Option<(Op, Res)>> = std::sync::Mutex::new(None);
    let bad: std::sync::Mutex<Vec<(Call, String)>> = std::sync::Mutex::new(vec![]);
    let b_runs = AtomicU64::new(0);
    let step_b = AtomicBool::new(false);
    TURN.store(0, SeqCst);
    std::thread::scope(|s| {
        s.spawn(|| {
            set_tid(40);
            IS_B.with(|b| b.set(true));
            let mut buf = vec![0xA5u8; 4096];
            loop {
                if !spin_until(|| matches!(TURN.load(Acquire), 1 | 3), 20_000) {
                    continue;
                }
                if TURN.load(Acquire) == 3 {
                    return;
                }
                let g = cur.lock().unwrap();
                if let Some((o, want)) = &*g {
                    buf[..o.room].fill(0xA5);
                    let r = if step_b.load(Relaxed) {
                        B_STEP.store(0, Relaxed);
                        stepped(o, &mut buf)
                    } else {
                        o.run(&mut buf)
                    };
                    b_runs.fetch_add(1, Relaxed);
                    if r != *want {
                        bad.lock().unwrap().push((o.call(), format!("{} instead of {}", encode_res(&r), encode_res(want))));
                    }
                }
                drop(g);
                B_THREAD.store(true, Release); // this part is complete
                TURN.store(2, Release);
                // wait until A notices or asks again
                spin_until(|| TURN.load(Acquire) != 2, 1);
            }
        });
        sh.par(1, |cx, _| {
            let mut buf = vec![0xA5u8; 4096];
            let mut runs = 0u64;
            let mut single = 0u64;
            let mut lens: Vec<u64> = vec![];
            'enc: for v in all {
                // short operations first: they are the ones whose every instruction can be a preemption point
                // characters outside ASCII, then ASCII ones, then refused inputs, the two directions alike
                let class = |o: &(Op, Res)| match (&o.1 .0, o.0.x.iter().any(|&b| b >= 0x80)) {
                    (R::Ok { n, .. }, true) if *n > 0 => 0,
                    (R::Ok { .. }, _) => 1,
                    _ => 2,
                };
                let dir = |d: bool, c: usize, n: usize| -> Vec<&(Op, Res)> {
                    let mut seen = std::collections::HashSet::new();
                    v.iter().filter(|o| o.0.encode == d && !o.0.x.is_empty() && o.0.x.len() <= 4 && class(o) == c && seen.insert(&o.0.x)).take(n).collect()
                };
                let sh_ops: Vec<&(Op, Res)> = [true, false].iter().flat_map(|&d| [dir(d, 0, 10), dir(d, 1, 4), dir(d, 2, if sh.thorough { 14 } else { 8 })]).flatten().collect();
                for a in &sh_ops {
                    for b in &sh_ops {
                        if a.0.encode != b.0.encode && !sh.thorough {
                            continue;
                        }
                        *cur.lock().unwrap() = Some((b.0.clone(), b.1.clone()));
                        B_BLOCKED.store(false, Relaxed);
                        // B after every instruction of A
                        MODE.store(2, Relaxed);
                        STEP.store(0, Relaxed);
                        buf[..a.0.room].fill(0xA5);
                        let r = stepped(&a.0, &mut buf);
                        MODE.store(0, Relaxed);
                        let len = STEP.load(Relaxed);
                        lens.push(len);
                        runs += 1;
                        cx.st.transitions += len;
                        cx.st.states += 1;
                        if r != a.1 {
                            cx.viol(format!("{}: interrupted by another thread's call, the call gives {} instead of {}", a.0.e.name, encode_res(&r), encode_res(&a.1)), vec![b.0.call(), a.0.call()]);
                            break 'enc;
                        }
                        if let Some((c, t)) = bad.lock().unwrap().first() {
                            cx.viol(format!("{}: a call made while another thread is inside a call gives {t}", a.0.e.name), vec![a.0.call(), c.clone()]);
                            break 'enc;
                        }
                    }
                }
                // exactly one preemption, at each instruction in turn, for a few pairs of every direction
                let n = if sh.thorough { 8 } else { 4 };
                let pick: Vec<&(Op, Res)> = [true, false].iter().flat_map(|&d| [dir(d, 0, n), dir(d, 1, 1), dir(d, 2, n / 4)]).flatten().collect();
                for a in &pick {
                    for b in &pick {
                        if a.0.encode != b.0.encode {
                            continue;
                        }
                        *cur.lock().unwrap() = Some((b.0.clone(), b.1.clone()));
                        MODE.store(0, Relaxed);
                        // length of A
                        MODE.store(1, Relaxed);
                        TARGET.store(u64::MAX, Relaxed);
                        STEP.store(0, Relaxed);
                        let _ = stepped(&a.0, &mut buf);
                        let len = STEP.load(Relaxed);
                        for k in 0..len.min(400) {
                            B_BLOCKED.store(false, Relaxed);
                            TARGET.store(k, Relaxed);
                            STEP.store(0, Relaxed);
                            buf[..a.0.room].fill(0xA5);
                            let r = stepped(&a.0, &mut buf);
                            single += 1;
                            cx.st.transitions += k + 1;
                            cx.st.states += 1;
                            let mut fail = r != a.1;
                            let mut what = encode_res(&r);
                            // and the calls made afterwards
                            for o in [&a.0, &b.0] {
                                let want = if std::ptr::eq(o, &a.0) { &a.1 } else { &b.1 };
                                buf[..o.room].fill(0xA5);
                                let r2 = o.run(&mut buf);
                                if r2 != *want {
                                    fail = true;
                                    what = format!("(afterwards) {}", encode_res(&r2));
                                }
                            }
                            if let Some((_, t)) = bad.lock().unwrap().first() {
                                fail = true;
                                what = format!("(other thread) {t}");
                            }
                            if fail {
                                MODE.store(0, Relaxed);
                                cx.viol(format!("{}: preempted after instruction {k} by another thread's call, the result is {what} instead of {}", a.0.e.name, encode_res(&a.1)), vec![b.0.call(), a.0.call()]);
                                break 'enc;
                            }
                        }
                        MODE.store(0, Relaxed);
                    }
                }
                // two preemptions: A to instruction k, B to instruction j, A to its end, B to its end
                if sh.thorough {
                    for pair in pick.chunks(2).filter(|p| p.len() == 2 && p[0].0.encode == p[1].0.encode) {
                        let (a, b) = (pair[0], pair[1]);
                        *cur.lock().unwrap() = Some((b.0.clone(), b.1.clone()));
                        MODE.store(1, Relaxed);
                        TARGET.store(u64::MAX, Relaxed);
                        let mut n = [0u64; 2];
                        for (i, o) in [a, b].iter().enumerate() {
                            STEP.store(0, Relaxed);
                            let _ = stepped(&o.0, &mut buf);
                            n[i] = STEP.load(Relaxed);
                        }
                        step_b.store(true, Relaxed);
                        for k in 0..n[0].min(120) {
                            for j in 0..n[1].min(120) {
                                B_BLOCKED.store(false, Relaxed);
                                RESUME_B.store(false, Relaxed);
                                B_THREAD.store(false, Relaxed);
                                B_PAUSE.store(j, Relaxed);
                                TARGET.store(k, Relaxed);
                                STEP.store(0, Relaxed);
                                buf[..a.0.room].fill(0xA5);
                                let r = stepped(&a.0, &mut buf);
                                RESUME_B.store(true, Release);
                                spin_until(|| B_THREAD.load(Acquire), 500);
                                TURN.store(0, Release);
                                cx.st.states += 1;
                                cx.st.transitions += k + j + 2;
                                cx.st.extra("two-preemption-schedules", 1);
                                if r != a.1 {
                                    cx.viol(format!("{}: with two preemptions (after {k} and {j} instructions) the call gives {}", a.0.e.name, encode_res(&r)), vec![b.0.call(), a.0.call()]);
                                    break 'enc;
                                }
                                if let Some((c, t)) = bad.lock().unwrap().first() {
                                    cx.viol(format!("{}: with two preemptions (after {k} and {j} instructions) the other call gives {t}", a.0.e.name), vec![a.0.call(), c.clone()]);
                                    break 'enc;
                                }
                            }
                        }
                        step_b.store(false, Relaxed);
                        B_PAUSE.store(u64::MAX, Relaxed);
                        MODE.store(0, Relaxed);
                    }
                }
            }
            MODE.store(0, Relaxed);
            cx.st.traces += runs + single;
            cx.st.extra("all-points-schedules", runs);
            cx.st.extra("one-preemption-schedules", single);
            cx.st.extra("instructions-stepped", lens.iter().sum());
            cx.st.extra("calls-by-the-preempting-thread", b_runs.load(Relaxed));
        });
        TURN.store(3, SeqCst);
    });
}

pub fn doc() -> Doc {
    Doc {
        rule: "per encoding: all sequences of 3 (thorough 4) calls over an alphabet of ~35 operations against results from fresh processes; all ordered pairs across encodings; 70,000-fold repetitions; all ordered pairs of single-character calls over the whole table; buffer prefill x alignment x placement; every member of the input families again into the buffer it left and into one of zeros; and instruction-granular interleavings: one call single-stepped, another thread's whole call injected at every instruction boundary (all points in one run, and each point alone; thorough: all two-preemption schedules of short calls); every schedule of the first calls of a fresh process (forked children)",
        assumptions: &[
            "sequential consistency: a preemption between any two instructions is modelled, weak-memory reordering is not",
            "at most one (thorough: two) preemptions per schedule, or one after every instruction",
            "UTF table pairs use every 523rd (thorough 131st) scalar plus the boundary characters",
        ],
    }
}
