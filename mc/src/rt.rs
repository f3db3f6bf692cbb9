//! Runtime of the explorer: guarded calls into the code under test, crash/hang capture,
//! work distribution, counters, violations and evidence.
use crate::encs::Enc;
use crate::model::{Model, Tables};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant};

pub const MAXT: usize = 64;

// ---------------------------------------------------------------- breadcrumbs
/// What each worker is currently executing; read by the crash handler and the watchdog.
pub struct Crumb {
    seq: AtomicU64, // odd while inside a call
    enc: AtomicUsize,
    dir: AtomicUsize, // 0 dec, 1 enc
    ptr: AtomicUsize,
    len: AtomicUsize,
    out: AtomicUsize,
    end: AtomicBool,
}
static CRUMBS: [Crumb; MAXT] = [const {
    Crumb {
        seq: AtomicU64::new(0),
        enc: AtomicUsize::new(0),
        dir: AtomicUsize::new(0),
        ptr: AtomicUsize::new(0),
        len: AtomicUsize::new(0),
        out: AtomicUsize::new(0),
        end: AtomicBool::new(false),
    }
}; MAXT];
thread_local! { static TID: Cell<usize> = const { Cell::new(0) }; }
pub fn set_tid(t: usize) {
    TID.with(|c| c.set(t));
}
pub fn tid() -> usize {
    TID.with(|c| c.get())
}

#[inline(always)]
fn enter(e: &Enc, dir: usize, ptr: usize, len: usize, out: usize, end: bool) -> &'static Crumb {
    let c = &CRUMBS[tid()];
    c.enc.store(e.idx, Relaxed);
    c.dir.store(dir, Relaxed);
    c.ptr.store(ptr, Relaxed);
    c.len.store(len, Relaxed);
    c.out.store(out, Relaxed);
    c.end.store(end, Relaxed);
    c.seq.store(c.seq.load(Relaxed) + 1, Release);
    c
}
#[inline(always)]
fn leave(c: &Crumb) {
    c.seq.store(c.seq.load(Relaxed) + 1, Release);
}

// ---------------------------------------------------------------- calls
/// Outcome of one real call, with nothing normalised away.
#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum R {
    /// w bytes in the returned slice, n input bytes consumed; `at`: the slice starts at the buffer start
    Ok { w: usize, n: usize, at: bool },
    Err { r: (usize, usize), w: usize, c: Option<char>, invalid: bool },
    Panic,
}

impl R {
    /// Are the reported numbers within the bounds every caller relies on?
    pub fn sane(&self, input: usize, room: usize) -> Result<(), &'static str> {
        match *self {
            R::Panic => Err("call panicked"),
            R::Ok { w, n, at } => {
                if n > input {
                    Err("consumed count exceeds the input length")
                } else if w > room {
                    Err("returned slice is longer than the buffer")
                } else if !at && w > 0 {
                    Err("returned slice is not a prefix of the buffer")
                } else {
                    Ok(())
                }
            }
            R::Err { r, w, .. } => {
                if r.0 >= r.1 {
                    Err("empty or inverted error range")
                } else if r.1 > input {
                    Err("error range outside the input")
                } else if w > room {
                    Err("reported bytes written exceed the buffer")
                } else {
                    Ok(())
                }
            }
        }
    }
}

/// A call into another build of the crate, tracked like the others.
pub fn tracked(e: &Enc, encode: bool, input: &[u8], out: (usize, usize), end: bool, f: impl FnOnce() -> R) -> R {
    let c = enter(e, encode as usize, input.as_ptr() as usize, input.len(), out.1, end);
    let r = catch_unwind(AssertUnwindSafe(f)).unwrap_or(R::Panic);
    leave(c);
    r
}

#[inline]
pub fn dec(e: &Enc, input: &[u8], out: &mut [u8], end: bool) -> R {
    let c = enter(e, 0, input.as_ptr() as usize, input.len(), out.len(), end);
    let base = out.as_ptr() as usize;
    let r = catch_unwind(AssertUnwindSafe(|| match (e.dec)(input, out, end) {
        Ok((s, n)) => R::Ok { w: s.len(), n, at: s.as_ptr() as usize == base },
        Err(x) => R::Err {
            r: x.error_range,
            w: x.output_bytes_written,
            c: None,
            invalid: x.cause == text_encoding::DecodeErrorCause::InvalidData,
        },
    }))
    .unwrap_or(R::Panic);
    leave(c);
    r
}

#[inline]
pub fn enc(e: &Enc, input: &str, out: &mut [u8], end: bool) -> R {
    let c = enter(e, 1, input.as_ptr() as usize, input.len(), out.len(), end);
    let base = out.as_ptr() as usize;
    let r = catch_unwind(AssertUnwindSafe(|| match (e.enc)(input, out, end) {
        Ok((s, n)) => R::Ok { w: s.len(), n, at: s.as_ptr() as usize == base },
        Err(x) => R::Err { r: x.error_range, w: x.output_bytes_written, c: Some(x.character), invalid: true },
    }))
    .unwrap_or(R::Panic);
    leave(c);
    r
}

// ---------------------------------------------------------------- crash capture
extern "C" {
    fn sigaction(s: i32, a: *const Sa, o: *mut Sa) -> i32;
    fn write(fd: i32, p: *const core::ffi::c_void, n: usize) -> isize;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
}
#[repr(C)]
pub struct Sa {
    pub h: usize,
    pub flags_mask: [u64; 16],
    pub flags: i32,
    pub restorer: usize,
}
/// Install a raw SA_SIGINFO handler.
pub fn handle(sig: i32, h: extern "C" fn(i32, *mut u8, *mut u8), onstack: bool) {
    let a = Sa {
        h: h as usize,
        flags_mask: [0; 16],
        flags: 4 | 0x4000_0000 | if onstack { 0x0800_0000 } else { 0 },
        restorer: 0,
    };
    unsafe {
        sigaction(sig, &a, std::ptr::null_mut());
    }
}

static CUR_PROP: Mutex<String> = Mutex::new(String::new());
static FATAL: AtomicBool = AtomicBool::new(false);

fn fatal(t: usize, why: &str) -> ! {
    if FATAL.swap(true, SeqCst) {
        loop {
            std::thread::sleep(Duration::from_secs(1));
        }
    }
    let c = &CRUMBS[t];
    if c.seq.load(Acquire) % 2 == 0 {
        let m = format!("engine error (not a verdict): {why} outside any call into the code under test\n");
        unsafe {
            write(2, m.as_ptr().cast(), m.len());
            _exit(2)
        }
    }
    let (p, l) = (c.ptr.load(Relaxed), c.len.load(Relaxed));
    let input: Vec<u8> = if l <= 1 << 20 { unsafe { std::slice::from_raw_parts(p as *const u8, l).to_vec() } } else { vec![] };
    let encs = crate::encs::all();
    let call = Call {
        enc: encs[c.enc.load(Relaxed)].name,
        encode: c.dir.load(Relaxed) == 1,
        input,
        room: c.out.load(Relaxed),
        end: c.end.load(Relaxed),
    };
    let prop = CUR_PROP.lock().map(|p| p.clone()).unwrap_or_default();
    let v = Violation { prop, msg: format!("{why} inside the call"), calls: vec![call] };
    emit(&v);
    unsafe { _exit(1) }
}
extern "C" fn crash(sig: i32, _i: *mut u8, _c: *mut u8) {
    fatal(tid(), match sig {
        11 => "SIGSEGV (memory access outside the given slices)",
        7 => "SIGBUS",
        6 => "SIGABRT (abort or failed unsafe precondition)",
        4 => "SIGILL",
        _ => "SIGFPE",
    });
}

static HANG_S: AtomicU64 = AtomicU64::new(40);
/// Seconds a call may take before it counts as hanging; 0: the default.
pub fn hang_limit(s: u64) {
    let d = std::env::var("VERIF_HANG_S").ok().and_then(|x| x.parse().ok()).unwrap_or(40);
    HANG_S.store(if s == 0 { d } else { s }, Relaxed);
}

pub fn install(prop: &str) {
    *CUR_PROP.lock().unwrap() = prop.to_string();
    std::panic::set_hook(Box::new(|i| {
        // panics of the code under test are caught and judged; harness panics are engine errors
        if CRUMBS[tid()].seq.load(Relaxed) % 2 == 0 {
            eprintln!("engine error: {i}");
            std::process::exit(2);
        }
    }));
    for s in [11, 7, 6, 4, 8] {
        handle(s, crash, true);
    }
    hang_limit(0);
    std::thread::spawn(move || {
        let mut last = [(0u64, 0u64); MAXT];
        loop {
            std::thread::sleep(Duration::from_secs(1));
            for t in 0..MAXT {
                let s = CRUMBS[t].seq.load(Acquire);
                if s % 2 == 1 && s == last[t].0 {
                    last[t].1 += 1;
                    if last[t].1 >= HANG_S.load(Relaxed) {
                        fatal(t, "hang: the call did not return");
                    }
                } else {
                    last[t] = (s, 0);
                }
            }
        }
    });
}

// ---------------------------------------------------------------- guarded memory
/// A region ending (or starting) exactly at an inaccessible page.
pub struct Guarded {
    base: *mut u8,
    size: usize,
}
unsafe impl Send for Guarded {}
impl Guarded {
    pub fn new(size: usize) -> Guarded {
        let size = (size + 4095) / 4096 * 4096;
        unsafe {
            let p = mmap(std::ptr::null_mut(), size + 8192, 3, 0x22, -1, 0);
            assert!(p as isize != -1);
            mprotect(p, 4096, 0);
            mprotect(p.add(4096 + size), 4096, 0);
            Guarded { base: p.add(4096), size }
        }
    }
    /// n bytes ending at the upper guard page
    pub fn tail(&mut self, n: usize) -> &mut [u8] {
        assert!(n <= self.size);
        unsafe { std::slice::from_raw_parts_mut(self.base.add(self.size - n), n) }
    }
    /// n bytes starting right after the lower guard page
    pub fn head(&mut self, n: usize) -> &mut [u8] {
        assert!(n <= self.size);
        unsafe { std::slice::from_raw_parts_mut(self.base, n) }
    }
    /// the whole region
    pub fn all(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.base, self.size) }
    }
}

// ---------------------------------------------------------------- violations
#[derive(Clone, Debug)]
pub struct Call {
    pub enc: &'static str,
    pub encode: bool,
    pub input: Vec<u8>,
    pub room: usize,
    pub end: bool,
}
#[derive(Clone, Debug)]
pub struct Violation {
    pub prop: String,
    pub msg: String,
    pub calls: Vec<Call>,
}
pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter() {
        let _ = write!(s, "{x:02X}");
    }
    s
}
pub fn short(b: &[u8]) -> String {
    if b.len() <= 48 { hex(b) } else { format!("{}..{} ({} bytes)", hex(&b[..24]), hex(&b[b.len() - 16..]), b.len()) }
}
pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn emit(v: &Violation) {
    let mut t = String::new();
    let _ = writeln!(t, "# property {}: {}", v.prop, v.msg);
    let _ = writeln!(t, "# replay with: {}/target/release/mc replay <this file>", verif_dir());
    for c in &v.calls {
        let _ = writeln!(t, "call {} {} room={} end={} input={}", if c.encode { "encode" } else { "decode" }, c.enc, c.room, c.end as u8, hex(&c.input));
    }
    let _ = writeln!(t, "\n# The same as a plain unit test (no explorer needed):\n# #[test]\n# fn replay() {{");
    for c in &v.calls {
        if c.input.len() > 1 << 16 {
            let _ = writeln!(t, "#   // an input of {} bytes, see above", c.input.len());
            continue;
        }
        let m = match c.enc {
            n @ ("utf8" | "utf16_be" | "utf16_le" | "utf32_be" | "utf32_le" | "big5_whatwg" | "shiftjis_whatwg") => n.to_string(),
            n => format!("single_byte::{n}"),
        };
        let bytes: Vec<String> = c.input.iter().map(|x| format!("0x{x:02X}")).collect();
        let flag = crate::encs::all().iter().find(|e| e.name == c.enc).map(|e| if c.encode { e.enc_end } else { e.dec_end }).unwrap_or(false);
        let end = if flag { format!(", {}", c.end) } else { String::new() };
        if c.encode {
            let _ = writeln!(t, "#   println!(\"{{:?}}\", text_encoding::{m}::encode_from_str(std::str::from_utf8(&[{}]).unwrap(), &mut vec![0u8; {}]{end}));", bytes.join(", "), c.room);
        } else {
            let _ = writeln!(t, "#   println!(\"{{:?}}\", text_encoding::{m}::decode_to_str(&[{}], &mut vec![0u8; {}]{end}));", bytes.join(", "), c.room);
        }
    }
    let _ = writeln!(t, "# }}  // violated: {}", v.msg);
    let dir = format!("{}/replays", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    let mut h = 0xcbf29ce484222325u64;
    for b in t.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    let path = format!("{dir}/{}-{:08x}.txt", v.prop, h as u32);
    let _ = std::fs::write(&path, &t);
    let mut o = format!("{}: {}\n", v.prop, v.msg);
    for c in &v.calls {
        let _ = writeln!(o, "  {} {} room={} end={} input={}", if c.encode { "encode" } else { "decode" }, c.enc, c.room, c.end, short(&c.input));
    }
    let _ = writeln!(o, "VIOLATION property={} replay={}", v.prop, path);
    unsafe {
        write(1, o.as_ptr().cast(), o.len());
    }
}

// ---------------------------------------------------------------- work distribution
pub struct Shared<'t> {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub threads: usize,
    pub t: &'t Tables,
    pub encs: Vec<Enc>,
    pub models: Vec<Model<'t>>,
    pub start: Instant,
    stop: AtomicBool,
    viol: Mutex<Vec<Violation>>,
    stats: Mutex<Stats>,
    pub known_hit: Mutex<Vec<String>>,
}

#[derive(Default, Clone)]
pub struct Stats {
    /// distinct states (each enumerated once, or deduplicated in a visited set)
    pub states: u64,
    /// real calls executed and judged
    pub transitions: u64,
    /// complete runs (maximal words, whole sessions, full schedules) compared with the oracle
    pub traces: u64,
    pub extra: BTreeMap<String, u64>,
    /// which different kinds of outcome were observed (vacuity guard)
    pub outcomes: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
}
impl Stats {
    pub fn add(&mut self, o: &Stats) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.traces += o.traces;
        for (k, v) in &o.extra {
            *self.extra.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.outcomes {
            *self.outcomes.entry(k).or_insert(0) += v;
        }
        for s in &o.samples {
            if self.samples.len() < 12 {
                self.samples.push(s.clone());
            }
        }
    }
    pub fn extra(&mut self, k: &str, v: u64) {
        if let Some(x) = self.extra.get_mut(k) {
            *x += v;
        } else {
            self.extra.insert(k.to_string(), v);
        }
    }
}

/// Per-worker context.
pub struct Cx<'s, 't> {
    pub sh: &'s Shared<'t>,
    pub st: Stats,
    pub ok: u64,
    pub err: u64,
    pub partial: u64,
    pub buf: Vec<u8>,
    pub buf2: Vec<u8>,
    pub buf3: Vec<u8>,
    nviol: usize,
}

impl<'s, 't> Cx<'s, 't> {
    pub fn new(sh: &'s Shared<'t>) -> Self {
        Cx { sh, st: Stats::default(), ok: 0, err: 0, partial: 0, buf: vec![0xA5; 1 << 12], buf2: vec![0xA5; 1 << 12], buf3: vec![0xA5; 1 << 12], nviol: 0 }
    }
    pub fn stopped(&self) -> bool {
        self.sh.stop.load(Relaxed)
    }
    pub fn viol(&mut self, msg: String, calls: Vec<Call>) {
        self.nviol += 1;
        if self.nviol <= 16 {
            self.sh.viol.lock().unwrap().push(Violation { prop: self.sh.prop.clone(), msg, calls });
        }
        self.sh.stop.store(true, Relaxed);
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.st.samples.len() < 2 {
            let s = f();
            self.st.samples.push(s);
        }
    }
    #[inline]
    pub fn note(&mut self, r: &R, input: usize) {
        self.st.transitions += 1;
        match r {
            R::Ok { n, .. } if *n == input => self.ok += 1,
            R::Ok { .. } => self.partial += 1,
            _ => self.err += 1,
        }
    }
    pub fn vd(&mut self, msg: String, e: &Enc, input: &[u8], room: usize, end: bool) {
        self.viol(msg, vec![Call { enc: e.name, encode: false, input: input.to_vec(), room, end }]);
    }
    pub fn ve(&mut self, msg: String, e: &Enc, input: &str, room: usize, end: bool) {
        self.viol(msg, vec![Call { enc: e.name, encode: true, input: input.as_bytes().to_vec(), room, end }]);
    }
}

impl<'t> Shared<'t> {
    pub fn new(prop: &str, thorough: bool, seed: u64, t: &'t Tables) -> Shared<'t> {
        let encs = crate::encs::all();
        let models = encs.iter().map(|e| Model::new(t, e)).collect();
        let threads = std::env::var("VERIF_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4)).clamp(1, MAXT - 2);
        Shared {
            prop: prop.into(), thorough, seed, threads, t, encs, models, start: Instant::now(), stop: AtomicBool::new(false),
            viol: Mutex::new(vec![]), stats: Mutex::new(Stats::default()), known_hit: Mutex::new(vec![]),
        }
    }
    pub fn enc_named(&self, n: &str) -> &Enc {
        self.encs.iter().find(|e| e.name == n).unwrap()
    }
    /// Run `f` for each job index, in order of increasing index, on all workers; stops at the first violation.
    pub fn par<F: Fn(&mut Cx<'_, 't>, u64) + Sync>(&self, jobs: u64, f: F) {
        if self.stop.load(Relaxed) {
            return;
        }
        let next = AtomicU64::new(0);
        std::thread::scope(|s| {
            for t in 0..self.threads {
                let (next, f) = (&next, &f);
                s.spawn(move || {
                    set_tid(t + 1);
                    let mut cx = Cx::new(self);
                    loop {
                        let j = next.fetch_add(1, Relaxed);
                        if j >= jobs || self.stop.load(Relaxed) {
                            break;
                        }
                        f(&mut cx, j);
                    }
                    for (k, v) in [("complete", cx.ok), ("error", cx.err), ("partial", cx.partial)] {
                        *cx.st.outcomes.entry(k).or_insert(0) += v;
                    }
                    self.stats.lock().unwrap().add(&cx.st);
                });
            }
        });
    }
    /// Finish: evidence, verdict. Returns the exit code.
    pub fn finish(&self, assumptions: &[&str], rule: &str) -> i32 {
        self.finish_with(assumptions, rule, 0)
    }
    /// A worker process: statistics to `file`, violation to stdout.
    pub fn finish_worker(&self, file: &str) -> i32 {
        let st = self.stats.lock().unwrap().clone();
        let mut t = format!("{} {} {}\n", st.states, st.transitions, st.traces);
        for (k, v) in &st.extra {
            let _ = writeln!(t, "x {v} {k}");
        }
        for (k, v) in &st.outcomes {
            let _ = writeln!(t, "o {v} {k}");
        }
        for s in &st.samples {
            let _ = writeln!(t, "s 0 {s}");
        }
        let _ = std::fs::write(file, t);
        if let Some(v) = self.viol.lock().unwrap().first() {
            emit(v);
            return 1;
        }
        0
    }
    pub fn merge_worker(&self, file: &str) {
        let Ok(t) = std::fs::read_to_string(file) else { return };
        let mut st = self.stats.lock().unwrap();
        for (i, l) in t.lines().enumerate() {
            let mut q = l.splitn(3, ' ');
            let (a, b, c) = (q.next().unwrap_or(""), q.next().unwrap_or("0"), q.next().unwrap_or(""));
            let v: u64 = b.parse().unwrap_or(0);
            match a {
                _ if i == 0 => {
                    st.states += a.parse::<u64>().unwrap_or(0);
                    st.transitions += v;
                    st.traces += c.parse::<u64>().unwrap_or(0);
                }
                "x" => st.extra(c, v),
                "o" => {
                    let k = match c {
                        "complete" => "complete",
                        "error" => "error",
                        _ => "partial",
                    };
                    *st.outcomes.entry(k).or_insert(0) += v;
                }
                _ => {
                    if st.samples.len() < 12 {
                        st.samples.push(c.to_string())
                    }
                }
            }
        }
    }
    pub fn finish_with(&self, assumptions: &[&str], rule: &str, more: usize) -> i32 {
        let mut vs = self.viol.lock().unwrap().clone();
        let st = self.stats.lock().unwrap().clone();
        vs.sort_by_key(|v| (v.calls.iter().map(|c| c.input.len()).sum::<usize>(), v.calls.len(), v.calls.iter().map(|c| c.room).sum::<usize>()));
        let js = |s: &str| -> String {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' | '\\' => {
                        o.push('\\');
                        o.push(c)
                    }
                    c if (c as u32) < 32 => {
                        let _ = write!(o, "\\u{:04x}", c as u32);
                    }
                    c => o.push(c),
                }
            }
            o.push('"');
            o
        };
        let mut ex = String::new();
        for (k, v) in &st.extra {
            let _ = write!(ex, ", {}: {}", js(k), v);
        }
        let oc: Vec<String> = st.outcomes.iter().map(|(k, v)| format!("{}: {}", js(k), v)).collect();
        let sm: Vec<String> = st.samples.iter().map(|s| js(s)).collect();
        let asm: Vec<String> = assumptions.iter().map(|s| js(s)).collect();
        let wall = self.start.elapsed().as_secs_f64();
        let known = self.known_hit.lock().unwrap().clone();
        let text = format!(
            "{{\n \"property\": {}, \"tier\": {}, \"seed\": {}, \"level\": \"model_checking\",\n \"coverage\": {{\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"exhaustive\": {}, \"rule\": {}, \"outcomes\": {{{}}}{}, \"known_findings_seen\": {},\n  \"samples\": [{}]}},\n \"assumptions\": [{}],\n \"wall_s\": {:.3}, \"violations\": {}\n}}\n",
            js(&self.prop), js(if self.thorough { "thorough" } else { "quick" }), self.seed, st.states, st.transitions, st.traces,
            vs.is_empty() && more == 0, js(rule), oc.join(", "), ex, known.len(), sm.join(", "), asm.join(", "), wall, vs.len() + more
        );
        let dir = format!("{}/evidence", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        if std::fs::write(format!("{dir}/{}.json", self.prop), text).is_err() {
            eprintln!("cannot write evidence");
            return 2;
        }
        for k in &known {
            println!("KNOWN-FINDING: property={} {}", self.prop, k);
        }
        println!(
            "{} {}: states={} transitions={} traces={} outcomes={{{}}} wall={:.1}s",
            self.prop, if self.thorough { "thorough" } else { "quick" }, st.states, st.transitions, st.traces, oc.join(", "), wall
        );
        if let Some(v) = vs.first() {
            emit(v);
            return 1;
        }
        if st.transitions == 0 || st.states == 0 {
            eprintln!("engine error: nothing was explored");
            return 2;
        }
        0
    }
    pub fn note_extra(&self, k: &str, v: u64) {
        self.stats.lock().unwrap().extra(k, v);
    }
    pub fn failed(&self) -> bool {
        self.stop.load(Relaxed)
    }
}

/// Lines "KNOWN-FINDING: property=<id> <text>" of known_findings.txt, as (id, text).
pub fn load_known(prop: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.txt", verif_dir())) {
        for l in t.lines() {
            if let Some(x) = l.strip_prefix("KNOWN-FINDING: property=") {
                if let Some((p, k)) = x.split_once(' ') {
                    if p == prop || prop.is_empty() {
                        v.push((p.to_string(), k.trim().to_string()));
                    }
                }
            }
        }
    }
    v
}
