//! Judging single calls against the reference model.
use crate::encs::Enc;
use crate::gen::Rooms;
use crate::model::*;
use crate::rt::*;

/// The model's unit-by-unit conversion of a whole input with unlimited room.
pub struct Tr {
    /// cumulative (input, output) after each unit, starting with (0, 0)
    pub b: Vec<(usize, usize)>,
    pub out: Vec<u8>,
    pub stop: Stop,
}
impl Tr {
    pub fn new() -> Tr {
        Tr { b: vec![], out: vec![], stop: Stop::Done }
    }
    pub fn dec(&mut self, m: &Model, x: &[u8], end: bool) {
        self.b.clear();
        self.out.clear();
        self.b.push((0, 0));
        self.stop = Stop::Done;
        let mut p = 0;
        while p < x.len() {
            match m.dec(&x[p..]) {
                DU::Ch { n, s } => {
                    self.out.extend_from_slice(s.as_slice());
                    p += n;
                    self.b.push((p, self.out.len()));
                }
                DU::Bad { n } => {
                    self.stop = Stop::Bad { r: (p, p + n), c: None };
                    return;
                }
                DU::Inc => {
                    self.stop = if end { Stop::Bad { r: (p, x.len()), c: None } } else { Stop::Inc };
                    return;
                }
            }
        }
    }
    pub fn enc(&mut self, m: &Model, x: &str, end: bool) {
        self.b.clear();
        self.out.clear();
        self.b.push((0, 0));
        self.stop = Stop::Done;
        let mut p = 0;
        while p < x.len() {
            match m.enc(&x[p..], end) {
                EU::Ok { n, s } => {
                    self.out.extend_from_slice(s.as_slice());
                    p += n;
                    self.b.push((p, self.out.len()));
                }
                EU::Bad { c } => {
                    self.stop = Stop::Bad { r: (p, p + c.len_utf8()), c: Some(c) };
                    return;
                }
                EU::Inc => {
                    self.stop = Stop::Inc;
                    return;
                }
            }
        }
    }
    pub fn run(&mut self, m: &Model, encode: bool, x: &[u8], end: bool) {
        if encode {
            self.enc(m, text(x), end)
        } else {
            self.dec(m, x, end)
        }
    }
    /// Index of the last unit that fits, and why the call must stop there.
    #[inline]
    pub fn at(&self, room: usize) -> (usize, Stop) {
        let last = self.b.len() - 1;
        if self.b[last].1 <= room {
            return (last, self.stop);
        }
        let k = self.b.partition_point(|x| x.1 <= room) - 1;
        (k, Stop::NoRoom)
    }
    pub fn unit_at_input(&self, n: usize) -> Option<usize> {
        self.b.binary_search_by_key(&n, |x| x.0).ok().map(|k| self.b[k].1)
    }
}

#[inline]
pub fn text(x: &[u8]) -> &str {
    debug_assert!(std::str::from_utf8(x).is_ok());
    unsafe { std::str::from_utf8_unchecked(x) }
}

pub const BYTES: u32 = 1; // content of the output wrong, or not whole units
pub const EARLY: u32 = 2; // stops although the next unit fits
pub const OVER: u32 = 4; // consumes more than it converted / more than is convertible
pub const FALSE_ERR: u32 = 8; // error although nothing is wrong at that point
pub const MISSED: u32 = 16; // Ok although the next unit is bad and there is room
pub const RANGE: u32 = 32; // error range
pub const WRITTEN: u32 = 64; // error: number of bytes written
pub const CHAR: u32 = 128; // error: reported character
pub const CAUSE: u32 = 256;
pub const ALL: u32 = 511;

/// Deviation of one real result from the model, with an explanation.
#[inline]
pub fn compare(tr: &Tr, room: usize, r: &R, out: &[u8]) -> Option<(u32, String)> {
    let (k, stop) = tr.at(room);
    let (n, w) = tr.b[k];
    match *r {
        R::Panic => Some((ALL, "call panicked".into())),
        R::Ok { w: rw, n: rn, .. } => {
            if rn == n && rw == w && out[..w] == tr.out[..w] {
                if let Stop::Bad { r, .. } = stop {
                    if room - w >= 4 {
                        return Some((MISSED, format!("returned Ok({rw} bytes, consumed {rn}) with {} bytes of room left instead of an error at {r:?}", room - w)));
                    }
                }
                return None;
            }
            let exp = || format!("; expected {} bytes {} for {n} input bytes ({stop:?})", w, short(&tr.out[..w]));
            let got = || format!("returned {} for {rn} input bytes", short(&out[..rw.min(out.len())]));
            let whole = tr.unit_at_input(rn);
            let content = match whole {
                Some(o) => rw == o && out.get(..rw) == Some(&tr.out[..o]),
                None => false,
            };
            let mut d = 0;
            if !content {
                d |= BYTES;
            }
            if rn > n {
                d |= OVER;
            }
            if rn < n {
                d |= EARLY;
            }
            Some((d, got() + &exp()))
        }
        R::Err { r: rr, w: rw, c: rc, invalid } => {
            let Stop::Bad { r, c } = stop else {
                return Some((FALSE_ERR, format!("error at {rr:?} although the input is convertible there; expected {n} input bytes consumed, {w} written ({stop:?})")));
            };
            let mut d = 0;
            let mut t = String::new();
            if rr != r {
                d |= RANGE;
                t += &format!("error range {rr:?}, expected {r:?}; ");
            }
            if rw != w {
                d |= WRITTEN;
                t += &format!("error reports {rw} bytes written, expected {w}; ");
            }
            if rc != c {
                d |= CHAR;
                t += &format!("error reports character {rc:?}, expected {c:?}; ");
            }
            if !invalid {
                d |= CAUSE;
                t += "error cause is not InvalidData; ";
            }
            if out.get(..w) != Some(&tr.out[..w]) {
                d |= BYTES;
                t += &format!("bytes before the error are {}, expected {}; ", short(&out[..w.min(out.len())]), short(&tr.out[..w]));
            }
            if d == 0 {
                None
            } else {
                Some((d, t))
            }
        }
    }
}

thread_local! {
    static TRS: std::cell::RefCell<[Tr; 2]> = std::cell::RefCell::new([Tr::new(), Tr::new()]);
}

#[inline]
pub fn real(e: &Enc, encode: bool, x: &[u8], out: &mut [u8], end: bool) -> R {
    if encode {
        enc(e, text(x), out, end)
    } else {
        dec(e, x, out, end)
    }
}
#[inline]
pub fn ends(e: &Enc, encode: bool) -> &'static [bool] {
    if encode {
        e.ends_enc()
    } else {
        e.ends_dec()
    }
}
pub fn call_of(e: &Enc, encode: bool, x: &[u8], room: usize, end: bool) -> Call {
    Call { enc: e.name, encode, input: x.to_vec(), room, end }
}
/// A poisoned buffer of exactly `room` bytes.
#[inline]
pub fn poisoned(buf: &mut Vec<u8>, room: usize) -> &mut [u8] {
    if buf.len() < room {
        buf.resize(room.next_power_of_two(), 0xA5);
    }
    let b = &mut buf[..room];
    b.fill(0xA5);
    b
}

/// Compare every call on `x` (all rooms of the class, both flags) with the model; deviations in `mask` violate.
pub fn model_judge(cx: &mut Cx, e: &Enc, m: &Model, encode: bool, x: &[u8], rooms: Rooms, mask: u32) {
    TRS.with(|t| {
        let t = &mut *t.borrow_mut();
        let mut buf = std::mem::take(&mut cx.buf);
        for &end in ends(e, encode) {
            let tr = &mut t[0];
            tr.run(m, encode, x, end);
            let need = tr.out.len();
            let mut last = usize::MAX;
            rooms.each(need, |room| {
                let out = poisoned(&mut buf, room);
                let r = real(e, encode, x, out, end);
                cx.note(&r, x.len());
                // a state is an (input, flag, position where the call must stop) reached by some room
                let k = tr.at(room).0;
                cx.st.states += (k != last) as u64;
                last = k;
                if let Err(why) = r.sane(x.len(), room) {
                    cx.viol(why.into(), vec![call_of(e, encode, x, room, end)]);
                    return false;
                }
                if let Some((d, why)) = compare(tr, room, &r, out) {
                    if d & mask != 0 {
                        cx.viol(format!("{}: {why}", e.name), vec![call_of(e, encode, x, room, end)]);
                        return false;
                    }
                }
                true
            });
            if cx.stopped() {
                break;
            }
        }
        cx.buf = buf;
    })
}
