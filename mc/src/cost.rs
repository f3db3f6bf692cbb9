//! C26: the work of a call is proportional to what it is given. Work is counted in executed instructions (trap flag).
use crate::encs::{Enc, Kind};
use crate::gen::*;
use crate::hist::{text_or, Op};
use crate::judge::*;
use crate::model::*;
use crate::plat::few_tails;
use crate::props::{Doc, BOUND};
use crate::rt::*;
use std::cell::Cell;

thread_local! {
    static COUNT: Cell<u64> = const { Cell::new(0) };
    static CAP: Cell<u64> = const { Cell::new(0) };
}
extern "C" fn on_step(_s: i32, _i: *mut u8, uc: *mut u8) {
    let n = COUNT.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    if n >= CAP.with(|c| c.get()) {
        unsafe {
            let efl = uc.add(40 + 17 * 8) as *mut u64;
            *efl &= !0x100;
        }
    }
}

/// Executed instructions of one call, at most `cap`.
#[inline(never)]
fn work(o: &Op, buf: &mut [u8], cap: u64) -> u64 {
    let out = &mut buf[..o.room];
    let t = text_or(&o.x, o.encode);
    COUNT.with(|c| c.set(0));
    CAP.with(|c| c.set(cap));
    tracked(&o.e, o.encode, &o.x, (out.as_ptr() as usize, out.len()), o.end, || unsafe {
        #[cfg(target_arch = "x86_64")]
        std::arch::asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq");
        if o.encode {
            let _ = (o.e.enc)(t, out, o.end);
        } else {
            let _ = (o.e.dec)(&o.x, out, o.end);
        }
        #[cfg(target_arch = "x86_64")]
        std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
        R::Panic
    });
    unsafe {
        #[cfg(target_arch = "x86_64")]
        std::arch::asm!("pushfq", "and qword ptr [rsp], -257", "popfq");
    }
    COUNT.with(|c| c.get())
}

/// pre u^n v^n post
struct Grow {
    e: Enc,
    encode: bool,
    pre: Vec<u8>,
    u: Vec<u8>,
    v: Vec<u8>,
    post: Vec<u8>,
    end: bool,
    /// 0: room for everything; 1: for half; 2: far more than needed
    room: usize,
}
impl Grow {
    fn input(&self, n: usize) -> Vec<u8> {
        [&self.pre[..], &self.u.repeat(n), &self.v.repeat(n), &self.post].concat()
    }
    fn show(&self) -> String {
        format!("{} {} ({})^n ({})^n {} room class {}", self.e.name, hex(&self.pre), hex(&self.u), hex(&self.v), hex(&self.post), self.room)
    }
}
fn jobs(sh: &Shared) -> Vec<Grow> {
    let deep = sh.thorough;
    let mut jobs = vec![];
    for e in &sh.encs {
        let m = &sh.models[e.idx];
        let single = e.kind == Kind::Single;
        for encode in [false, true] {
            let mut us = if encode { text_units(e, m) } else { good_units(e, m) };
            if encode && e.kind == Kind::Big5 {
                us.push("\u{CA}".as_bytes().to_vec());
            }
            us.truncate(if deep { 99 } else if single { 2 } else { 6 });
            let bare = us.len();
            // units of two kinds in turn
            for i in 1..bare {
                for j in 0..i {
                    if deep || (j == 0 && i == bare - 1) {
                        us.push([&us[j][..], &us[i]].concat());
                    }
                }
            }
            let ts = few_tails(e, m, sh.t, encode, if deep { 3 } else { 1 });
            let ts = if deep || !single { ts } else { some_of(&ts, 4) };
            let es = ends(e, encode);
            let mut add = |pre: &[u8], u: &[u8], v: &[u8], post: &[u8], end: bool, room: usize| {
                jobs.push(Grow { e: *e, encode, pre: pre.to_vec(), u: u.to_vec(), v: v.to_vec(), post: post.to_vec(), end, room });
            };
            for u in &us {
                for &end in es {
                    for room in 0..3 {
                        add(&[], u, &[], &[], end, room);
                    }
                }
                for t in ts.iter().filter(|t| !t.is_empty()) {
                    for &end in es {
                        let last = end == es[es.len() - 1];
                        if last || t.len() < 4 || deep {
                            add(&[], u, &[], t, end, 0);
                        }
                        let good = if encode { matches!(m.enc(text(t), true), EU::Ok { .. }) } else { matches!(m.dec(t), DU::Ch { .. }) };
                        if deep || (last && !good) {
                            // (after an error, nothing further should be looked at)
                            add(t, u, &[], &[], end, 0);
                            if !us.contains(t) {
                                add(&[], u, t, &[], end, 0);
                                add(t, u, t, &[], end, 0);
                            }
                        }
                    }
                }
            }
            for t in ts.iter().filter(|t| !t.is_empty() && !us.contains(t)) {
                for &end in es {
                    add(&[], t, &[], &[], end, 0);
                    add(&us[0], t, &[], &us[0], end, 0);
                }
            }
        }
    }
    jobs
}

pub fn worker(sh: &Shared, k: usize, n: usize) {
    let jobs = jobs(sh);
    handle(5, on_step, false);
    let (sm, big) = if sh.thorough { (128, 4096) } else { (24, 200) };
    let sizes = [sm, 2 * sm, big / 2, big];
    let mine: Vec<_> = jobs.iter().skip(k).step_by(n).collect();
    sh.par(mine.len() as u64, |cx, j| {
        let g = mine[j as usize];
        let mut buf = vec![];
        let mut w = [0u64; 4];
        let mut last = None;
        for (k, &n) in sizes.iter().enumerate() {
            let x = g.input(n);
            let ample = x.len() * 4 + 64;
            let r = real(&g.e, g.encode, &x, poisoned(&mut buf, ample), g.end);
            cx.note(&r, x.len());
            let need = match r {
                R::Ok { w, .. } | R::Err { w, .. } => w.min(ample),
                R::Panic => 0,
            };
            let room = [need + 5, need / 2, ample + 8 * n][g.room];
            let o = Op { e: g.e, encode: g.encode, x, room, end: g.end };
            poisoned(&mut buf, room);
            // far more than proportional already: no need to count on
            let cap = if k < 2 { 20_000_000 } else { 8 * (w[1] + 100) * (n / sizes[1]) as u64 };
            w[k] = work(&o, &mut buf, cap);
            cx.st.transitions += 1;
            cx.st.states += 1;
            cx.st.extra("instructions", w[k]);
            last = Some(o);
            if k >= 2 && w[k] >= cap {
                return bad(cx, &last.unwrap(), g, &w, &sizes);
            }
        }
        cx.st.traces += 1;
        let s1 = (w[1].saturating_sub(w[0])) as f64 / sm as f64;
        let s2 = (w[3].saturating_sub(w[2])) as f64 / (big / 2) as f64;
        if s2 > 1.3 * s1 + 12.0 {
            return bad(cx, &last.unwrap(), g, &w, &sizes);
        }
        cx.sample(|| g.show());
    });
}
pub fn doc() -> Doc {
    Doc {
        rule: "inputs pre u^n v^n post - every unit class (and two classes in turn), well- and ill-formed, every tail class before, after, and repeated after the run - x room for all, half, or far more x flags: instructions executed by one call at n = 24, 48, 100 and 200 (thorough 128, 256, 2048, 4096); the instructions per further unit may grow by at most 30% plus 12 between the short and the long inputs",
        assumptions: &["work that grows with the length only by very small amounts per unit (under about a tenth of an instruction per earlier unit) passes", BOUND],
    }
}
fn bad(cx: &mut Cx, o: &Op, g: &Grow, w: &[u64; 4], sizes: &[usize; 4]) {
    cx.viol(format!("work is not proportional to the input: {}; n = {:?} take {:?} instructions", g.show(), sizes, w), vec![o.call()]);
}
