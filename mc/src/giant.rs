//! Inputs of more than 2^32 bytes, without the memory: 48 MiB of whole units mapped 96 times in a row (and the same for
//! the output), followed by a private page for the tail.
use crate::encs::{Enc, Kind};
use crate::gen::*;
use crate::judge::*;
use crate::model::*;
use crate::rt::*;

extern "C" {
    fn memfd_create(name: *const u8, flags: u32) -> i32;
    fn ftruncate(fd: i32, n: i64) -> i32;
    fn close(fd: i32) -> i32;
    fn munmap(a: *mut u8, n: usize) -> i32;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
}
const SEG: usize = 48 << 20;
const N: usize = 96;
const TAIL: usize = 1 << 16;

struct Region {
    base: *mut u8,
    len: usize,
    n: usize,
}
impl Region {
    fn new(n: usize) -> Option<Region> {
        unsafe {
            let len = n * SEG + TAIL;
            let fd = memfd_create(b"mc\0".as_ptr(), 0);
            if fd < 0 || ftruncate(fd, SEG as i64) != 0 {
                return None;
            }
            // reserve, then place every alias (MAP_FIXED | MAP_SHARED) inside the reservation
            let base = mmap(std::ptr::null_mut(), len, 3, 0x4022, -1, 0);
            if base as isize == -1 {
                close(fd);
                return None;
            }
            for k in 0..n {
                if mmap(base.add(k * SEG), SEG, 3, 0x11, fd, 0) as isize == -1 {
                    munmap(base, len);
                    close(fd);
                    return None;
                }
            }
            close(fd);
            Some(Region { base, len, n })
        }
    }
    fn seg(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.base, SEG) }
    }
    /// the aliased part followed by `t` bytes of the tail
    fn all(&mut self, t: usize) -> &mut [u8] {
        assert!(t <= TAIL);
        unsafe { std::slice::from_raw_parts_mut(self.base, self.n * SEG + t) }
    }
    fn tail(&mut self, t: usize) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.base.add(self.n * SEG), t) }
    }
}
impl Drop for Region {
    fn drop(&mut self) {
        unsafe {
            munmap(self.base, self.len);
        }
    }
}

fn unit_of(e: &Enc, m: &Model, encode: bool) -> Vec<u8> {
    let c = match (e.kind, encode) {
        (Kind::Utf16 { .. }, false) => 0x3053,
        (Kind::Utf16 { .. } | Kind::Utf32 { .. }, _) => 0x1F63A,
        _ => 0x41u32,
    };
    if encode { Small::utf8(c).as_slice().to_vec() } else { m.enc_char(c).unwrap().as_slice().to_vec() }
}

/// F(P.x, |F(P)|+b) = F(P) . shift(F(x, b)) with |P| = 4.5 GiB.
pub fn giant(sh: &Shared) {
    let mut jobs: Vec<(usize, bool, Vec<u8>, bool)> = vec![];
    for e in &sh.encs {
        let m = &sh.models[e.idx];
        if e.kind == Kind::Single && !sh.thorough && !matches!(e.name, "ascii" | "iso_8859_7" | "windows_1252") {
            continue;
        }
        for encode in [false, true] {
            let tails = if encode { tails_enc(e, m) } else { tails_dec(e, m, sh.t) };
            let bad = |x: &Vec<u8>| if encode { matches!(m.enc(text(x), true), EU::Bad { .. }) } else { matches!(m.dec(x), DU::Bad { .. }) };
            let good = if encode { text_small(e, m).to_vec() } else { good_units(e, m) };
            let last = good.iter().rev().find(|x| !bad(x)).unwrap();
            let g = [&good[0][..], &last[..]].concat();
            let b = tails.iter().find(|x| !x.is_empty() && bad(x)).map(|x| [&last[..], &x[..]].concat());
            // an error when there is one; otherwise (thorough: also) a cut by the buffer
            match b {
                Some(b) => {
                    jobs.push((e.idx, encode, b, false));
                    if sh.thorough {
                        jobs.push((e.idx, encode, g, true));
                    }
                }
                None => jobs.push((e.idx, encode, g, true)),
            }
        }
    }
    hang_limit(900);
    sh.par(jobs.len() as u64, |cx, q| {
        let (i, encode, x, tight) = &jobs[q as usize];
        let (e, m, encode) = (sh.encs[*i], &sh.models[*i], *encode);
        let u = unit_of(&e, m, encode);
        let mut ub = [0xA5u8; 16];
        let R::Ok { w: uw, n: un, .. } = real(&e, encode, &u, &mut ub, true) else { return };
        if un != u.len() || uw == 0 || uw > 4 || N * uw % un != 0 {
            return;
        }
        // the tail alone
        let mut tb = [0xA5u8; 64];
        let r0 = real(&e, encode, x, &mut tb, true);
        let b = match (r0, tight) {
            (R::Ok { w, .. }, true) if w > 0 => w - 1,
            _ => 64,
        };
        let mut tb = [0xA5u8; 64];
        let want = real(&e, encode, x, &mut tb[..b], true);
        let (Some(mut inp), Some(mut out)) = (Region::new(N), Region::new(N * uw / un)) else {
            cx.st.extra("inputs-over-4GiB-skipped", 1);
            return;
        };
        for c in inp.seg().chunks_mut(un) {
            c.copy_from_slice(&u);
        }
        inp.tail(x.len()).copy_from_slice(x);
        out.seg().fill(0xA5);
        out.tail(b).fill(0xA5);
        let (pn, po) = (N * SEG, N * SEG / un * uw);
        let r = real(&e, encode, inp.all(x.len()), out.all(b), true);
        cx.st.states += 1;
        cx.st.traces += 1;
        cx.st.transitions += 1;
        cx.st.extra("inputs-over-4GiB", 1);
        let (exp, w) = match want {
            R::Ok { w, n, .. } => (R::Ok { w: w + po, n: n + pn, at: true }, w),
            R::Err { r, w, c, invalid } => (R::Err { r: (r.0 + pn, r.1 + pn), w: w + po, c, invalid }, w),
            R::Panic => (R::Panic, 0),
        };
        let same = match (r, exp) {
            (R::Ok { w, n, .. }, R::Ok { w: w2, n: n2, .. }) => w == w2 && n == n2,
            (a, b) => a == b,
        };
        let okp = out.seg().chunks(uw).all(|c| c == &ub[..uw]);
        if !same || !okp || out.tail(b)[..w] != tb[..w] {
            cx.viol(
                format!("{}: after {pn} bytes of {} (more than 2^32), {} must convert as it does alone ({exp:?}), got {r:?}{}", e.name, hex(&u), short(x), if okp { "" } else { ", wrong output" }),
                vec![call_of(&e, encode, x, b, true)],
            );
        }
    });
    hang_limit(0);
}

/// What a check asks of calls with vast buffers or vast inputs.
#[derive(Copy, Clone, PartialEq)]
pub enum Ask {
    /// the same result and the same bytes as with an ample buffer / a short input
    Same,
    /// returns, within bounds
    Sane,
    /// the same error
    Error,
    /// something is consumed
    Progress,
}

fn vast_sizes() -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    for k in [17u32, 18, 20, 21, 22, 24, 25, 27, 28, 30] {
        v.extend([(1usize << k) - 1, 1 << k, (1 << k) + 3]);
    }
    for k in [31u32, 32] {
        let p = 1usize << k;
        v.extend([p - 2, p - 1, p, p + 1, p + 2, p + 3, p + 4, p + 5, p + 7, p + 8, p + 9, p + 64, p + p / 2]);
    }
    v.extend([3 << 32, (1 << 33) - 1, 1 << 33, (1 << 33) + 2]);
    v.retain(|&n| n <= 180 * SEG);
    v.sort();
    v
}

/// Short inputs with buffers of up to 8 GiB, and inputs of up to 8 GiB with small buffers.
pub fn vast(sh: &Shared, dirs: &[bool], ask: Ask) {
    let sizes = vast_sizes();
    let mut jobs: Vec<(usize, bool, bool)> = vec![];
    for e in &sh.encs {
        for &encode in dirs {
            jobs.push((e.idx, encode, false));
            jobs.push((e.idx, encode, true));
        }
    }
    hang_limit(300);
    sh.par(jobs.len() as u64, |cx, q| {
        let (i, encode, long) = jobs[q as usize];
        let (e, m) = (sh.encs[i], &sh.models[i]);
        let Some(mut reg) = Region::new(180) else {
            cx.st.extra("vast-regions-skipped", 1);
            return;
        };
        let mut check = |cx: &mut Cx, want: R, wb: &[u8], r: R, rb: &[u8], x: &[u8], room: usize, end: bool, what: String| {
            cx.st.states += 1;
            cx.st.transitions += 1;
            cx.st.extra("vast-calls", 1);
            let flat = |r: R| match r {
                R::Ok { w, n, .. } => (0, w, n, (0, 0), None, true),
                R::Err { r, w, c, invalid } => (1, w, 0, r, c, invalid),
                R::Panic => (2, 0, 0, (0, 0), None, true),
            };
            let (fa, fb) = (flat(want), flat(r));
            let why = match ask {
                _ if matches!(r, R::Panic) => Some("the call panicked".to_string()),
                Ask::Sane => None,
                Ask::Same if fa != fb || wb[..fa.1.min(wb.len())] != rb[..fb.1.min(rb.len())] => Some(format!("got {r:?}, expected {want:?}")),
                Ask::Error if (fa.0 == 1 || fb.0 == 1) && (fa != fb || wb[..fa.1.min(wb.len())] != rb[..fb.1.min(rb.len())]) => Some(format!("got {r:?}, expected {want:?}")),
                Ask::Progress => match (want, r) {
                    (R::Ok { n, .. }, R::Ok { n: 0, .. }) if n > 0 => Some("nothing was consumed".to_string()),
                    (R::Err { w, .. }, R::Ok { n: 0, .. }) if w > 0 || room > 3 => Some("nothing was consumed and no error reported".to_string()),
                    _ => None,
                },
                _ => None,
            };
            if let Some(why) = why {
                cx.viol(format!("{}: {what}: {why}", e.name), vec![call_of(&e, encode, x, room.min(1 << 20), end)]);
            }
        };
        if !long {
            // short inputs, vast buffers
            let mut xs: Vec<Vec<u8>> = vec![];
            let (syms, u) = if encode { (tails_enc(&e, m), text_units(&e, m)) } else { (tails_dec(&e, m, sh.t), good_units(&e, m)) };
            for s in some_of(&syms, 24) {
                for (k, a) in [(0usize, 0usize), (1, 0), (2, 1), (7, 0), (33, 2)] {
                    xs.push([&u[a.min(u.len() - 1)].repeat(k)[..], &s[..]].concat());
                }
            }
            let mut buf = vec![0u8; 4096];
            for x in &xs {
                for &end in ends(&e, encode) {
                    let room0 = x.len() * 4 + 64;
                    buf[..room0].fill(0xA5);
                    let want = real(&e, encode, x, &mut buf[..room0], end);
                    for &room in &sizes {
                        if cx.stopped() {
                            return;
                        }
                        let out = unsafe { std::slice::from_raw_parts_mut(reg.base, room) };
                        out[..room0].fill(0x5A);
                        let r = real(&e, encode, x, out, end);
                        if let Err(why) = r.sane(x.len(), room) {
                            return cx.viol(format!("{}: buffer of {room} bytes: {why}", e.name), vec![call_of(&e, encode, x, room.min(1 << 20), end)]);
                        }
                        let out = &out[..room0];
                        check(cx, want, &buf, r, out, x, room, end, format!("input {} with a buffer of {room} bytes must convert as with {room0}", short(x)));
                    }
                    cx.st.traces += 1;
                }
            }
        } else {
            // vast inputs, small buffers: the call depends on what the buffer can hold only
            let u = unit_of(&e, m, encode);
            for c in reg.seg().chunks_mut(u.len()) {
                c.copy_from_slice(&u);
            }
            let x0 = u.repeat(64);
            let (mut a, mut b) = ([0xA5u8; 64], [0u8; 64]);
            let mut last = usize::MAX;
            for &len in &sizes {
                // (the UTF-8 decoder reads all of its input: fewer lengths)
                let slow = e.kind == Kind::Utf8 && !encode;
                if slow && len > 1 << 28 && len - last < 3 && !sh.thorough {
                    continue;
                }
                last = len;
                let len = if encode { len / u.len() * u.len() } else { len };
                let x = unsafe { std::slice::from_raw_parts(reg.base, len) };
                for &end in ends(&e, encode) {
                    for room in if slow && len > 1 << 28 { vec![1, 7] } else { vec![0usize, 1, 2, 3, 4, 5, 7, 8, 16, 33, 64] } {
                        if cx.stopped() {
                            return;
                        }
                        let want = real(&e, encode, &x0, &mut a[..room], end);
                        let r = real(&e, encode, x, &mut b[..room], end);
                        if let Err(why) = r.sane(len, room) {
                            return cx.viol(format!("{}: input of {len} bytes: {why}", e.name), vec![call_of(&e, encode, &x0, room, end)]);
                        }
                        check(cx, want, &a, r, &b, &x0, room, end, format!("an input of {len} bytes of {} with a buffer of {room} must convert as one of {} bytes", hex(&u), x0.len()));
                    }
                    cx.st.traces += 1;
                }
            }
        }
    });
    hang_limit(0);
}
