//! C24: the same results in every build and on every platform. C25: no undefined behaviour.
//! The other platforms, and the search for undefined behaviour, run the crate in Miri (an interpreter that checks every
//! step); the calls and their expected results are written to a file here and compared there (plat/).
use crate::builds::{dev, rel};
use crate::encs::{Enc, Kind};
use crate::gen::*;
use crate::hist::{ops, Op};
use crate::judge::*;
use crate::model::*;
use crate::props::{BOUND, prof, wide_units, Doc};
use crate::rt::*;
use std::collections::BTreeMap;
use std::io::Read;
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ recorded calls
/// One tail per behaviour.
pub fn few_tails(e: &Enc, m: &Model, t: &Tables, encode: bool, per: usize) -> Vec<Vec<u8>> {
    let s = if encode { tails_enc(e, m) } else { tails_dec(e, m, t) };
    let mut seen: BTreeMap<(u8, usize), usize> = Default::default();
    let mut v = vec![];
    for x in s {
        let k = if x.is_empty() {
            (0, 0)
        } else if encode {
            match m.enc(text(&x), false) {
                EU::Ok { n, s } => (1, n * 8 + s.len()),
                EU::Bad { c } => (2, c.len_utf8()),
                EU::Inc => (3, 0),
            }
        } else {
            match m.dec(&x) {
                DU::Ch { n, s } => (1, n * 8 + s.len()),
                DU::Bad { n } => (2, n * 8 + x.len()),
                DU::Inc => (3, x.len()),
            }
        };
        let c = seen.entry(k).or_default();
        *c += 1;
        if *c <= per {
            v.push(x);
        }
    }
    v
}

fn words2(a: &[Vec<u8>]) -> Vec<Vec<u8>> {
    let mut v = vec![];
    for x in a {
        for y in a {
            v.push([&x[..], &y[..]].concat());
        }
    }
    v
}

/// Inputs for the interpreted runs. `tables`: every code and every character of the tables.
fn inputs(sh: &Shared, e: &Enc, encode: bool, tables: bool) -> Vec<(Vec<u8>, bool)> {
    let m = &sh.models[e.idx];
    let single = e.kind == Kind::Single;
    let deep = sh.thorough;
    let mut v: Vec<(Vec<u8>, bool)> = vec![(vec![], true)];
    let alpha = if encode { if single { text_small(e, m) } else { text_alpha(e) } } else { byte_alpha(e, sh.t) };
    let alpha = if encode && !deep { text_small(e, m) } else { alpha };
    let units = if encode { text_small(e, m) } else { unit_alpha(e, m, sh.t) };
    if !encode {
        v.extend((0..=255u8).map(|b| (vec![b], !single)));
    }
    v.extend(alpha.iter().map(|x| (x.clone(), true)));
    let w2 = words2(&alpha);
    v.extend(if single && !deep { some_of(&w2, 24) } else { w2 }.into_iter().map(|x| (x, true)));
    if !single {
        let u2 = words2(&units);
        v.extend(u2.iter().map(|x| (x.clone(), true)));
        if deep {
            for x in &u2 {
                for y in units.iter() {
                    v.push(([&x[..], &y[..]].concat(), false));
                }
            }
        }
    }
    // blocks
    let us = if encode { text_units(e, m) } else { good_units(e, m) };
    let tails = few_tails(e, m, sh.t, encode, if deep { 3 } else { 1 });
    let lens: &[usize] = match (single, deep) {
        (false, false) => &[1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 33],
        (true, false) => &[3, 7, 8, 9, 16, 17, 33],
        _ => &[1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12, 13, 15, 16, 17, 20, 23, 24, 25, 31, 32, 33, 40, 48, 63, 64, 65, 66, 100, 129],
    };
    for u in us.iter().take(if single { 2 } else { 4 }) {
        for &i in lens {
            for s in if single && !deep { some_of(&tails, 4) } else { tails.clone() } {
                let mut x = u.repeat(i);
                x.extend_from_slice(&s);
                if i % 2 == 1 {
                    x.extend_from_slice(&us[0]);
                }
                v.push((x, !single && i < 10));
            }
        }
    }
    // tables
    if tables {
        if encode {
            let rep = repertoire(e, m);
            let step = match e.kind {
                Kind::Big5 if !deep => 3,
                _ if e.is_utf() => if deep { 3 } else { 29 },
                _ => 1,
            };
            v.extend(rep.iter().step_by(step).map(|&c| (Small::utf8(c).as_slice().to_vec(), false)));
            // and what lies next to the table's entries
            for &c in rep.iter().step_by(step * if single { 1 } else { 8 }) {
                if let Some(d) = char::from_u32(c + 1) {
                    if m.enc_char(c + 1).is_none() {
                        v.push((d.to_string().into_bytes(), false));
                    }
                }
            }
        } else if !single {
            let step = match e.kind {
                Kind::Big5 | Kind::Sjis => 1,
                _ => if deep { 3 } else { 29 },
            };
            v.extend(code_list(e, m).into_iter().step_by(step).map(|x| (x, false)));
        }
    } else {
        let c: Vec<Vec<u8>> = if encode { repertoire(e, m).into_iter().map(|c| Small::utf8(c).as_slice().to_vec()).collect() } else { code_list(e, m) };
        v.extend(some_of(&c, if single { 128 } else if deep { 2000 } else { 250 }).into_iter().map(|x| (x, false)));
    }
    let mut seen = std::collections::HashSet::new();
    v.retain(|x| seen.insert(x.0.clone()));
    v
}

struct Recorded {
    ops: Vec<Op>,
    at: Vec<u32>,
    bytes: Vec<u8>,
}
impl Recorded {
    fn new() -> Recorded {
        Recorded { ops: vec![], at: vec![], bytes: vec![] }
    }
    /// Execute here and record.
    fn push(&mut self, o: Op, buf: &mut Vec<u8>) {
        if buf.len() < o.room {
            buf.resize(o.room, 0xA5);
        }
        let (r, out) = o.run(buf);
        let (k, a, b, w, c, i) = match r {
            R::Ok { w, n, .. } => (0u8, n, 0, w, 0, 0),
            R::Err { r, w, c, invalid } => (1, r.0, r.1, w, c.map_or(0, |c| c as u32), invalid as u8),
            R::Panic => return,
        };
        self.at.push(self.bytes.len() as u32);
        let h = o.e.idx as u64 | (o.encode as u64) << 8 | (o.end as u64) << 9 | (o.room as u64) << 16 | (o.x.len() as u64) << 32 | (out.len() as u64) << 48;
        let r0 = k as u64 | (i as u64) << 8 | (w as u64) << 16 | (c as u64) << 32;
        for n in [h, r0, a as u64 | (b as u64) << 32] {
            self.bytes.extend_from_slice(&n.to_le_bytes());
        }
        self.bytes.extend_from_slice(&o.x);
        self.bytes.extend_from_slice(&out);
        self.ops.push(o);
    }
    /// Number of calls, where each one is, the calls.
    fn file(&self) -> Vec<u8> {
        let n = self.at.len() as u32;
        let mut v = n.to_le_bytes().to_vec();
        for a in &self.at {
            v.extend_from_slice(&(4 + 4 * n + a).to_le_bytes());
        }
        v.extend_from_slice(&self.bytes);
        v
    }
    fn add(&mut self, e: &Enc, encode: bool, x: &[u8], all_rooms: bool, buf: &mut Vec<u8>) {
        let ends = ends(e, encode);
        for &end in if all_rooms { ends } else { &ends[ends.len() - 1..] } {
            let mut b = vec![0xA5; x.len() * 4 + 16];
            let need = match real(e, encode, x, &mut b, end) {
                R::Ok { w, .. } | R::Err { w, .. } => w,
                R::Panic => 0,
            };
            let mut rooms = vec![need + 5];
            if all_rooms {
                rooms.push(need);
            }
            if all_rooms && need > 0 {
                rooms.push(need - 1);
            }
            for room in rooms {
                self.push(Op { e: *e, encode, x: x.to_vec(), room, end }, buf);
            }
        }
    }
}

fn record(sh: &Shared, tables: bool, want: impl Fn(&Enc) -> bool) -> Recorded {
    let mut r = Recorded::new();
    let mut buf = vec![0xA5; 4096];
    for e in sh.encs.iter().filter(|e| want(e)) {
        for encode in [false, true] {
            for (x, rooms) in inputs(sh, e, encode, tables) {
                r.add(e, encode, &x, rooms, &mut buf);
            }
        }
    }
    r
}

// ------------------------------------------------------------------ Miri
const HOST: &str = "x86_64-unknown-linux-gnu";
struct Miri {
    target: String,
    flags: String,
}
struct Run {
    code: Option<i32>,
    out: String,
    err: String,
}
impl Miri {
    fn dir(&self) -> String {
        let b = std::env::var("VERIF_MIRI").unwrap_or_else(|_| format!("{}/target/miri", verif_dir()));
        format!("{b}/{}", self.target)
    }
    fn cmd(&self, sub: &[&str]) -> Command {
        let mut c = Command::new("cargo");
        c.arg("+nightly").arg("miri").args(sub).arg("--target").arg(&self.target);
        c.env("XDG_CACHE_HOME", self.dir()).env("CARGO_TARGET_DIR", format!("{}/build", self.dir())).env("MIRIFLAGS", &self.flags);
        c.env("CARGO_NET_OFFLINE", "true").env_remove("RUSTFLAGS").env_remove("MIRI_SYSROOT").stdin(Stdio::null());
        c
    }
    /// Build the interpreter's standard library for the target, and the program.
    fn prepare(&self) -> Result<(), String> {
        let _ = std::fs::create_dir_all(self.dir());
        let o = self.cmd(&["setup"]).output().map_err(|e| e.to_string())?;
        if !o.status.success() {
            return Err(format!("cargo miri setup --target {}: {}", self.target, String::from_utf8_lossy(&o.stderr)));
        }
        // (cargo goes by file times; what counts is the text of the tree)
        let _ = std::fs::remove_dir_all(format!("{}/build", self.dir()));
        let none = format!("{}/none", self.dir());
        std::fs::write(&none, b"").map_err(|e| e.to_string())?;
        let r = self.run(&["run", &none, "0", "0", "1", "0"], Duration::from_secs(300));
        if r.code != Some(0) || !r.out.contains("DONE") {
            return Err(format!("the interpreted program does not build or start for {}: {}", self.target, r.err));
        }
        Ok(())
    }
    fn run(&self, args: &[&str], limit: Duration) -> Run {
        let man = format!("{}/plat/Cargo.toml", verif_dir());
        let mut c = self.cmd(&["run", "-q", "--offline", "--manifest-path", &man]);
        c.arg("--").args(args).stdout(Stdio::piped()).stderr(Stdio::piped());
        let Ok(mut k) = c.spawn() else { return Run { code: None, out: String::new(), err: "cannot start cargo".into() } };
        let (mut so, mut se) = (k.stdout.take().unwrap(), k.stderr.take().unwrap());
        let a = std::thread::spawn(move || {
            let mut s = vec![];
            let _ = so.read_to_end(&mut s);
            String::from_utf8_lossy(&s).to_string()
        });
        let b = std::thread::spawn(move || {
            let mut s = vec![];
            let _ = se.read_to_end(&mut s);
            String::from_utf8_lossy(&s).to_string()
        });
        let t = Instant::now();
        let code = loop {
            match k.try_wait() {
                Ok(Some(s)) => break s.code().or(Some(-1)),
                Ok(None) if t.elapsed() > limit => {
                    // (cargo execs the runner, which execs the interpreter: this is the interpreter)
                    let _ = k.kill();
                    let _ = k.wait();
                    break None;
                }
                Ok(None) => std::thread::sleep(Duration::from_millis(20)),
                Err(_) => break Some(-1),
            }
        };
        Run { code, out: a.join().unwrap_or_default(), err: b.join().unwrap_or_default() }
    }
}

fn first_error(s: &str) -> String {
    s.lines().find(|l| l.starts_with("error") || l.contains("panicked at")).map(|l| l.to_string()).or_else(|| s.lines().next().map(|l| l.to_string())).unwrap_or_default()
}
fn detail(s: &str) -> String {
    let l: Vec<&str> = s.lines().collect();
    match l.iter().position(|l| l.contains("panicked at")) {
        Some(i) => l[i..].iter().take(2).cloned().collect::<Vec<_>>().join(" "),
        None => first_error(s) + &l.iter().find(|l| l.trim_start().starts_with("-->")).map(|l| format!(" {}", l.trim())).unwrap_or_default(),
    }
}
/// Is this the interpreter's verdict on the code under test (not a failure of the machinery)?
fn verdict(err: &str) -> bool {
    err.contains("Undefined Behavior") || err.contains("panicked at") || err.contains("memory access") || err.contains("abnormal termination") || err.contains("unsafe precondition")
}

/// Run recorded calls 0..n on the interpreter, `k` processes; report the first deviation.
fn interpret(cx: &mut Cx, mi: &Miri, rec: &Recorded, file: &str, k: usize, deadline: Duration, what: &str) {
    interpret_some(cx, mi, rec, file, k, &(0..k).collect::<Vec<_>>(), deadline, what)
}
/// Of the calls dealt into `k` hands, those of `hands`, each in its own interpreter.
#[allow(clippy::too_many_arguments)]
fn interpret_some(cx: &mut Cx, mi: &Miri, rec: &Recorded, file: &str, k: usize, hands: &[usize], deadline: Duration, what: &str) {
    let n = rec.ops.len();
    let ns = n.to_string();
    let runs: Vec<Run> = std::thread::scope(|s| {
        let h: Vec<_> = hands
            .iter()
            .map(|&j| {
                let ns = &ns;
                s.spawn(move || mi.run(&["run", file, &j.to_string(), ns, &k.to_string(), "64"], deadline))
            })
            .collect();
        h.into_iter().map(|h| h.join().unwrap()).collect()
    });
    let mark = |o: &str| o.lines().rev().find_map(|l| l.strip_prefix('@').and_then(|x| x.parse::<usize>().ok()));
    for (&j, r) in hands.iter().zip(&runs) {
        if let Some(d) = r.out.lines().find_map(|l| l.strip_prefix("DONE ")) {
            let d: u64 = d.parse().unwrap_or(0);
            cx.st.states += d;
            cx.st.traces += d;
            cx.st.transitions += d;
            cx.st.extra(what, d);
            continue;
        }
        if let Some(l) = r.out.lines().find_map(|l| l.strip_prefix("DIFF ")) {
            let i: usize = l.split(' ').next().unwrap().parse().unwrap_or(0);
            let o = &rec.ops[i];
            cx.viol(format!("{}: on {what} the result differs from the one here: {}", o.e.name, l.split(' ').nth(1).unwrap_or("")), vec![o.call()]);
            return;
        }
        let from = mark(&r.out).unwrap_or(j);
        match r.code {
            None => {
                // out of time: what was covered counts, unless a single batch hangs
                let d = ((from.saturating_sub(j)) / k) as u64;
                cx.st.states += d;
                cx.st.traces += d;
                cx.st.transitions += d;
                cx.st.extra(what, d);
                cx.st.extra(&format!("{what}: out of time"), 1);
            }
            Some(_) => {
                // locate the call
                let to = (from + 64 * k).min(n).to_string();
                let r2 = mi.run(&["run", file, &from.to_string(), &to, &k.to_string(), "1"], deadline);
                let err = if r2.code == Some(0) { &r.err } else { &r2.err };
                if !verdict(err) {
                    eprintln!("engine error: {what} failed: {}", first_error(err));
                    std::process::exit(2);
                }
                let i = mark(&r2.out).unwrap_or(from);
                let o = &rec.ops[i];
                cx.viol(format!("{}: on {what}: {}", o.e.name, detail(err)), vec![o.call()]);
                return;
            }
        }
    }
}

/// The recorded calls in the program built natively in other ways. Err: it does not build.
fn native_builds(sh: &Shared, rec: &Recorded, file: &str) -> Result<(), String> {
    // name, RUSTFLAGS, profile settings
    let ways: [(&str, &str, &[(&str, &str)]); 4] = [
        ("this processor's instructions", "-Ctarget-cpu=native", &[("OPT_LEVEL", "3")]),
        ("smallest code, aborting", "-Cpanic=abort", &[("OPT_LEVEL", "z"), ("LTO", "fat"), ("CODEGEN_UNITS", "1"), ("PANIC", "abort")]),
        ("link-time optimisation", "", &[("OPT_LEVEL", "3"), ("LTO", "fat"), ("CODEGEN_UNITS", "1")]),
        ("optimisation level 1", "-Coverflow-checks=on", &[("OPT_LEVEL", "1")]),
    ];
    let base = std::env::var("VERIF_BUILDS").unwrap_or_else(|_| format!("{}/target/builds", verif_dir()));
    let errors: Mutex<Vec<String>> = Mutex::new(vec![]);
    sh.par(ways.len() as u64, |cx, j| {
        let (name, flags, profile) = ways[j as usize];
        let dir = format!("{base}/{j}");
        let _ = std::fs::remove_dir_all(&dir);
        let mut c = Command::new("cargo");
        c.args(["build", "--release", "-q", "--offline", "--manifest-path", &format!("{}/plat/Cargo.toml", verif_dir())]);
        c.env("CARGO_TARGET_DIR", &dir).env("CARGO_NET_OFFLINE", "true").env("RUSTFLAGS", flags).stdin(Stdio::null());
        for (k, v) in profile {
            c.env(format!("CARGO_PROFILE_RELEASE_{k}"), v);
        }
        match c.output() {
            Ok(o) if o.status.success() => {}
            Ok(o) => return errors.lock().unwrap().push(format!("build with {name}: {}", String::from_utf8_lossy(&o.stderr))),
            Err(e) => return errors.lock().unwrap().push(e.to_string()),
        }
        let run = |lo: usize, hi: usize, verbose: &str| {
            // (the watchdog of a hanging call is the coreutils one)
            Command::new("timeout").args(["200", &format!("{dir}/release/plat"), "run", file, &lo.to_string(), &hi.to_string(), "1", verbose]).stdin(Stdio::null()).output()
        };
        let mark = |o: &str| o.lines().rev().find_map(|l| l.strip_prefix('@').and_then(|x| x.parse::<usize>().ok()));
        let n = rec.ops.len();
        let Ok(o) = run(0, n, "64") else { return errors.lock().unwrap().push("cannot run the build".into()) };
        let out = String::from_utf8_lossy(&o.stdout).to_string();
        if let Some(d) = out.lines().find_map(|l| l.strip_prefix("DONE ")).and_then(|d| d.parse::<u64>().ok()) {
            cx.st.states += d;
            cx.st.traces += d;
            cx.st.transitions += d;
            cx.st.extra(&format!("build: {name}"), d);
        } else if let Some(l) = out.lines().find_map(|l| l.strip_prefix("DIFF ")) {
            let i: usize = l.split(' ').next().unwrap().parse().unwrap_or(0);
            let o = &rec.ops[i];
            cx.viol(format!("{}: built with {name} the result differs from the one here: {}", o.e.name, l.split(' ').nth(1).unwrap_or("")), vec![o.call()]);
        } else if let Some(from) = mark(&out) {
            // it crashed or hangs within the next 64 calls
            let i = run(from, (from + 64).min(n), "1").ok().and_then(|o| mark(&String::from_utf8_lossy(&o.stdout))).unwrap_or(from);
            let o2 = &rec.ops[i];
            cx.viol(format!("{}: built with {name} the call does not return ({})", o2.e.name, String::from_utf8_lossy(&o.stderr).lines().next().unwrap_or("crash or hang")), vec![o2.call()]);
        } else {
            errors.lock().unwrap().push(format!("the build with {name} does not start: {}", String::from_utf8_lossy(&o.stderr)));
        }
        let _ = std::fs::remove_dir_all(&dir);
    });
    let e = errors.into_inner().unwrap();
    match e.into_iter().next() {
        Some(e) => Err(e),
        None => Ok(()),
    }
}

fn write_file(dir: &str, name: &str, b: &[u8]) -> String {
    let _ = std::fs::create_dir_all(dir);
    let f = format!("{dir}/{name}");
    if std::fs::write(&f, b).is_err() {
        eprintln!("engine error: cannot write {f}");
        std::process::exit(2);
    }
    f
}

// ------------------------------------------------------------------ C24
fn cx_time(sh: &Shared, k: &str) {
    sh.note_extra(k, sh.start.elapsed().as_millis() as u64);
}
/// The families of C24; the first part is also executed in explorers built in other ways.
fn plans24(sh: &Shared) -> (Plan, Plan) {
    let mut plan: Plan = vec![];
    for e in sh.encs.iter() {
        let single = e.kind == Kind::Single;
        let mut p = prof(sh, e);
        if !sh.thorough {
            p.words = if single { 1000 } else { 100_000 };
            p.char_ctx = p.char_ctx.min(3);
            p.long_log2 = 12;
            p.mega = false;
            p.bytes = p.bytes.min(2);
        }
        for mut s in plan_dec(sh, e, &p).into_iter().chain(plan_enc(sh, e, &p)) {
            if !sh.thorough && matches!(s.rooms, Rooms::All) && s.label != "words" {
                s.rooms = Rooms::Edge;
            }
            if !sh.thorough && ["neighbours", "embedded", "repeated", "rows", "sequences"].contains(&s.label) {
                s.rooms = Rooms::Full;
            }
            plan.push(s);
        }
    }
    wide_units(sh, &mut plan);
    thin(sh, &mut plan);
    plan.into_iter().partition(|s| sh.thorough || !["neighbours", "all-chars", "sequences", "repeated"].contains(&s.label))
}

/// Order-independent sums of the results of all calls, by encoding, direction and hash of the input.
struct Digest {
    sum: Vec<AtomicU64>,
    /// list the calls of this bucket instead
    only: Option<usize>,
    lines: Mutex<Vec<String>>,
}
const SLOTS: usize = 1024;
fn mix(h: u64, x: u64) -> u64 {
    let y = (h ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    y ^ (y >> 29)
}
fn mix_bytes(mut h: u64, x: &[u8]) -> u64 {
    for c in x.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = mix(h, u64::from_le_bytes(w));
    }
    mix(h, x.len() as u64)
}
impl Digest {
    fn new(n: usize, only: Option<usize>) -> Digest {
        Digest { sum: (0..n * 2 * SLOTS).map(|_| AtomicU64::new(0)).collect(), only, lines: Mutex::new(vec![]) }
    }
    fn slot(&self, e: &Enc, encode: bool, hx: u64) -> usize {
        (e.idx * 2 + encode as usize) * SLOTS + (hx >> 20) as usize % SLOTS
    }
    fn add(&self, e: &Enc, encode: bool, x: &[u8], hx: u64, room: usize, end: bool, r: &R, out: &[u8]) {
        let k = self.slot(e, encode, hx);
        if let Some(o) = self.only {
            if o == k {
                self.lines.lock().unwrap().push(format!("{} {} {} {} {} | {r:?} {}", e.idx, encode as u8, hexs(x), room, end as u8, hexs(out)));
            }
            return;
        }
        let h = match *r {
            R::Ok { w, n, at } => mix(mix(mix(1, w as u64), n as u64), at as u64),
            R::Err { r, w, c, invalid } => mix(mix(mix(mix(mix(2, r.0 as u64), r.1 as u64), w as u64), c.map_or(u64::MAX, |c| c as u64)), invalid as u64),
            R::Panic => 3,
        };
        let h = mix(mix(mix_bytes(h, out), hx), (room as u64) << 1 | end as u64);
        self.sum[k].fetch_add(h, Relaxed);
    }
}
fn hexs(x: &[u8]) -> String {
    x.iter().map(|b| format!("{b:02X}")).collect()
}

/// One build of the source (the unchecked one) over the digested families.
fn digest_one(sh: &Shared, d: &Digest) {
    let (plan, _) = plans24(sh);
    explore(sh, &plan, |cx, e, _, encode, x, rooms| {
        let hx = mix_bytes(7, x);
        if d.only.is_some_and(|o| o != d.slot(e, encode, hx)) {
            return;
        }
        let mut buf = std::mem::take(&mut cx.buf);
        let ample = x.len() * 4 + 16;
        for &end in ends(e, encode) {
            let need = match rel::run(e, encode, x, poisoned(&mut buf, ample), end) {
                R::Ok { w, .. } | R::Err { w, .. } => w.min(ample),
                R::Panic => 0,
            };
            rooms.each(need, |room| {
                let out = poisoned(&mut buf, room);
                let r = rel::run(e, encode, x, out, end);
                let w = match r {
                    R::Ok { w, .. } | R::Err { w, .. } => w.min(room),
                    R::Panic => 0,
                };
                d.add(e, encode, x, hx, room, end, &r, &out[..w]);
                cx.st.transitions += 1;
                true
            });
        }
        cx.buf = buf;
    });
}
/// `mc digest24 <file> [bucket]`: run in an explorer that was built in another way.
pub fn digest_child(sh: &Shared, file: &str, only: Option<usize>) {
    let d = Digest::new(sh.encs.len(), only);
    digest_one(sh, &d);
    let b: Vec<u8> = match only {
        None => d.sum.iter().flat_map(|x| x.load(Relaxed).to_le_bytes()).collect(),
        Some(_) => d.lines.into_inner().unwrap().join("\n").into_bytes(),
    };
    if std::fs::write(file, b).is_err() {
        std::process::exit(2);
    }
}

/// The explorer itself built in other ways: the digests of all its calls must be those found here.
fn other_explorers(sh: &Shared, here: &Digest) -> Result<(), String> {
    let ways: [(&str, &str, &[(&str, &str)]); 2] = [
        ("this processor's instructions", "-Ctarget-cpu=native", &[]),
        ("smallest code", "", &[("OPT_LEVEL", "s"), ("CODEGEN_UNITS", "1")]),
    ];
    let base = std::env::var("VERIF_BUILDS").unwrap_or_else(|_| format!("{}/target/builds", verif_dir()));
    let errors: Mutex<Vec<String>> = Mutex::new(vec![]);
    // the builds side by side, the runs (which use all cores) one after the other
    let dir = |j: usize| format!("{base}/mc{j}");
    std::thread::scope(|s| {
        for (j, (name, flags, profile)) in ways.iter().enumerate() {
            let (dir, errors) = (dir(j), &errors);
            s.spawn(move || {
                let _ = std::fs::remove_dir_all(&dir);
                let mut c = Command::new("cargo");
                c.args(["build", "--release", "-q", "--offline", "--manifest-path", &format!("{}/mc/Cargo.toml", verif_dir())]);
                c.env("CARGO_TARGET_DIR", &dir).env("CARGO_NET_OFFLINE", "true").env("RUSTFLAGS", flags).env("CARGO_PROFILE_RELEASE_DEBUG", "0").stdin(Stdio::null());
                for (k, v) in *profile {
                    c.env(format!("CARGO_PROFILE_RELEASE_{k}"), v);
                }
                match c.output() {
                    Ok(o) if o.status.success() => {}
                    Ok(o) => errors.lock().unwrap().push(format!("build with {name}: {}", String::from_utf8_lossy(&o.stderr))),
                    Err(e) => errors.lock().unwrap().push(e.to_string()),
                }
            });
        }
    });
    if let Some(e) = errors.into_inner().unwrap().into_iter().next() {
        return Err(e);
    }
    for (j, (name, _, _)) in ways.iter().enumerate() {
        let (exe, f) = (format!("{}/release/mc", dir(j)), format!("{}/digest", dir(j)));
        let o = Command::new(&exe).args(["digest24", &f]).stdin(Stdio::null()).output().map_err(|e| e.to_string())?;
        let out = String::from_utf8_lossy(&o.stdout).to_string();
        if o.status.code() == Some(1) && out.contains("VIOLATION") {
            // a crash or a hang; the run left a replay of its own
            sh.par(1, |cx, _| cx.viol(format!("built with {name}: {}", out.lines().take(3).collect::<Vec<_>>().join("; ")), vec![]));
            return Ok(());
        }
        let b = std::fs::read(&f).unwrap_or_default();
        if !o.status.success() || b.len() != here.sum.len() * 8 {
            return Err(format!("the explorer built with {name} fails: {}", String::from_utf8_lossy(&o.stderr)));
        }
        let bad = here.sum.iter().zip(b.chunks(8)).position(|(x, y)| x.load(Relaxed) != u64::from_le_bytes(y.try_into().unwrap()));
        let Some(k) = bad else {
            sh.note_extra(&format!("digests compared, {name}"), here.sum.len() as u64);
            continue;
        };
        // list both sides of this bucket
        let _ = Command::new(&exe).args(["digest24", &f, &k.to_string()]).stdin(Stdio::null()).output();
        let there = std::fs::read_to_string(&f).unwrap_or_default();
        let there: std::collections::HashSet<&str> = there.lines().collect();
        let d = Digest::new(sh.encs.len(), Some(k));
        digest_one(sh, &d);
        let mut lines = d.lines.into_inner().unwrap();
        lines.sort_by_key(|l| (l.len(), l.clone()));
        let first = lines.iter().find(|l| !there.contains(l.as_str())).cloned();
        sh.par(1, |cx, _| {
            let (mut what, mut calls) = (String::new(), vec![]);
            if let Some(l) = &first {
                let f: Vec<&str> = l.split(' ').collect();
                let h = f[2];
                let x: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
                let e = sh.encs[f[0].parse::<usize>().unwrap()];
                what = format!("{}: here {}", e.name, l.split(" | ").nth(1).unwrap_or("").chars().take(200).collect::<String>());
                let key = l.split(" | ").next().unwrap_or("");
                if let Some(t) = there.iter().find(|t| t.starts_with(key)) {
                    what += &format!(", there {}", t.split(" | ").nth(1).unwrap_or("").chars().take(200).collect::<String>());
                }
                calls.push(call_of(&e, f[1] == "1", &x, f[3].parse().unwrap(), f[4] == "1"));
            }
            cx.viol(format!("built with {name} the results differ from those here: {what}"), calls);
        });
        return Ok(());
    }
    for j in 0..ways.len() {
        let _ = std::fs::remove_dir_all(dir(j));
    }
    Ok(())
}

pub fn c24(sh: &Shared) -> Doc {
    // (1) other builds, natively
    let (plan, rest) = plans24(sh);
    let digest = Digest::new(sh.encs.len(), None);
    for (plan, d) in [(&plan, Some(&digest)), (&rest, None)] {
        explore(sh, plan, |cx, e, _, encode, x, rooms| {
            let mut buf = std::mem::take(&mut cx.buf);
            let mut buf2 = std::mem::take(&mut cx.buf2);
            let ample = x.len() * 4 + 16;
            let hx = mix_bytes(7, x);
            for &end in ends(e, encode) {
                let need = match real(e, encode, x, poisoned(&mut buf, ample), end) {
                    R::Ok { w, .. } | R::Err { w, .. } => w.min(ample),
                    R::Panic => 0,
                };
                rooms.each(need, |room| {
                    cx.st.states += 1;
                    let out = poisoned(&mut buf, room);
                    let r = real(e, encode, x, out, end);
                    cx.note(&r, x.len());
                    let w = match r {
                        R::Ok { w, .. } | R::Err { w, .. } => w.min(room),
                        R::Panic => 0,
                    };
                    let o2 = poisoned(&mut buf2, room);
                    let r2 = rel::run(e, encode, x, o2, end);
                    cx.st.transitions += 1;
                    if r2 != r || o2[..w] != out[..w] {
                        differ(cx, e, encode, x, room, end, (r, &out[..w]), (r2, &o2[..w]), "optimised build without checks");
                        return false;
                    }
                    if let Some(d) = d {
                        d.add(e, encode, x, hx, room, end, &r, &out[..w]);
                    }
                    true
                });
                if cx.stopped() {
                    break;
                }
            }
            cx.buf = buf;
            cx.buf2 = buf2;
        });
    }
    if sh.failed() {
        return doc24();
    }
    cx_time(sh, "linked builds done after ms");
    if let Err(e) = other_explorers(sh, &digest) {
        eprintln!("engine error: {e}");
        std::process::exit(2);
    }
    if sh.failed() {
        return doc24();
    }
    cx_time(sh, "other explorers done after ms");
    // (2) a debug build (slow: at this level every table access copies the table)
    let rec = record(sh, false, |_| true);
    let step = if sh.thorough { 1 } else { 3 };
    sh.par((rec.ops.len() as u64).div_ceil(64), |cx, j| {
        let (mut a, mut b) = (vec![], vec![]);
        for o in rec.ops[j as usize * 64..].iter().take(64).step_by(step) {
            cx.st.states += 1;
            let o1 = poisoned(&mut a, o.room);
            let r = real(&o.e, o.encode, &o.x, o1, o.end);
            let o2 = poisoned(&mut b, o.room);
            let r2 = dev::run(&o.e, o.encode, &o.x, o2, o.end);
            cx.st.transitions += 2;
            cx.st.extra("debug-build", 1);
            let w = match r {
                R::Ok { w, .. } | R::Err { w, .. } => w.min(o.room),
                R::Panic => 0,
            };
            if r2 != r || o2[..w] != o1[..w] {
                return differ(cx, &o.e, o.encode, &o.x, o.room, o.end, (r, &o1[..w]), (r2, &o2[..w]), "debug build");
            }
        }
    });
    if sh.failed() {
        return doc24();
    }
    cx_time(sh, "debug build done after ms");
    // (3) and in other native builds
    let dir = format!("{}/tmp-{}", Miri { target: "cases".into(), flags: String::new() }.dir(), std::process::id());
    let file = write_file(&dir, "calls", &rec.file());
    let more = record(sh, true, |_| true);
    let more_file = write_file(&dir, "more", &more.file());
    if let Err(e) = native_builds(sh, &more, &more_file) {
        if !sh.failed() {
            let _ = std::fs::remove_dir_all(&dir);
            eprintln!("engine error: {e}");
            std::process::exit(2);
        }
    }
    drop(more);
    if sh.failed() {
        let _ = std::fs::remove_dir_all(&dir);
        return doc24();
    }
    cx_time(sh, "native part done after ms");
    // (4) other platforms, interpreted
    let flags = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation -Zmiri-disable-data-race-detector";
    let targets = ["powerpc-unknown-linux-gnu", "s390x-unknown-linux-gnu", "aarch64-apple-darwin", "i686-pc-windows-msvc"];
    let limit = Duration::from_secs(if sh.thorough { 3600 } else { 420 });
    let errors: Mutex<Vec<String>> = Mutex::new(vec![]);
    let per = (sh.threads / targets.len()).max(1);
    sh.par(targets.len() as u64, |cx, j| {
        let t = targets[j as usize];
        let mi = Miri { target: t.into(), flags: flags.into() };
        if let Err(e) = mi.prepare() {
            errors.lock().unwrap().push(e);
            return;
        }
        // quick: of five hands, two to each platform, different ones where the platforms have something in common
        let some = [[0, 1], [2, 4], [0, 3], [2, 3]];
        let (k, hands) = if sh.thorough { (per, (0..per).collect()) } else { (5, some[j as usize].to_vec()) };
        interpret_some(cx, &mi, &rec, &file, k, &hands, limit, t.split('-').next().unwrap());
    });
    let _ = std::fs::remove_dir_all(&dir);
    if let Some(e) = errors.lock().unwrap().first() {
        if !sh.failed() {
            eprintln!("engine error: {e}");
            std::process::exit(2);
        }
    }
    doc24()
}
fn differ(cx: &mut Cx, e: &Enc, encode: bool, x: &[u8], room: usize, end: bool, a: (R, &[u8]), b: (R, &[u8]), name: &str) {
    let m = format!("{}: builds differ: {:?} {} in the checked optimised build, {:?} {} in the {name}", e.name, a.0, short(a.1), b.0, short(b.1));
    cx.viol(m, vec![call_of(e, encode, x, room, end)]);
}
fn doc24() -> Doc {
    Doc {
        rule: "product of two builds of the crate (optimised with and without debug assertions and overflow checks) on every member of the families x rooms x flags; the explorer itself built for this processor's instructions and for size, its results on most of the families compared by digest; every recorded call (all bytes, words, blocks, codes and characters, tight rooms) also in a debug build and in four more native builds (this processor's instructions; smallest code, aborting; link-time optimisation; level 1), and (a part of them) interpreted on powerpc (big-endian, 32 bits), s390x (big-endian, 64), aarch64 macOS and i686 Windows, compared with the result here",
        assumptions: &["Miri implements the other targets faithfully", BOUND],
    }
}

// ------------------------------------------------------------------ C25
pub fn c25(sh: &Shared) -> Doc {
    let dir = format!("{}/tmp-{}", Miri { target: "cases".into(), flags: String::new() }.dir(), std::process::id());
    let base = "-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows";
    let full = Miri { target: HOST.into(), flags: base.into() };
    if let Err(e) = full.prepare() {
        eprintln!("engine error: {e}");
        std::process::exit(2);
    }
    let limit = Duration::from_secs(if sh.thorough { 3600 } else { 600 });
    // (1) threads: per encoding, two threads make the same calls in opposite orders, with nothing between them
    let rec = {
        let mut buf = vec![0xA5; 4096];
        let mut r = Recorded::new();
        let mut at = vec![];
        for e in &sh.encs {
            let lo = r.ops.len();
            for o in ops(e, &sh.models[e.idx], sh.t) {
                if o.x.len() <= 8 {
                    r.push(o, &mut buf);
                }
            }
            at.push((lo, r.ops.len()));
        }
        (r, at)
    };
    // (without validity checks there is no aliasing check either; see below for Big5 and Shift JIS)
    let races = Miri { target: HOST.into(), flags: "-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-ignore-leaks".into() };
    let races_big = Miri { target: HOST.into(), flags: format!("{base} -Zmiri-disable-validation -Zmiri-ignore-leaks") };
    let file = write_file(&dir, "races", &rec.0.file());
    sh.par(2 * sh.encs.len() as u64, |cx, j| {
        let (e, swap) = (&sh.encs[j as usize / 2], j % 2);
        let (lo, hi) = rec.1[e.idx];
        let r = if matches!(e.kind, Kind::Big5 | Kind::Sjis) { &races_big } else { &races }.run(&["race", &file, &lo.to_string(), &hi.to_string(), "1", &swap.to_string()], limit);
        let n = 2 * (hi - lo) as u64;
        if r.code == Some(0) && r.out.contains("DONE") {
            cx.st.states += 1;
            cx.st.traces += 1;
            cx.st.transitions += n;
            cx.st.extra("calls-in-racing-threads", n);
            return;
        }
        if r.code.is_none() {
            return cx.st.extra("racing-threads: out of time", 1);
        }
        if let Some(l) = r.out.lines().find_map(|l| l.strip_prefix("DIFF ")) {
            let i: usize = l.split(' ').next().unwrap().parse().unwrap_or(lo);
            return cx.viol(format!("{}: with two threads, this call gives a result of its own", e.name), vec![rec.0.ops[i].call()]);
        }
        if !verdict(&r.err) {
            eprintln!("engine error: {}", first_error(&r.err));
            std::process::exit(2);
        }
        cx.viol(format!("{}: two threads calling the crate at the same time: {}", e.name, detail(&r.err)), rec.0.ops[lo..hi].iter().take(12).map(|o| o.call()).collect());
    });
    if sh.failed() {
        let _ = std::fs::remove_dir_all(&dir);
        return doc25();
    }
    // (2) every recorded call, one thread. The tables of Big5 and Shift JIS make checking the validity of every value slow.
    let big = |e: &Enc| matches!(e.kind, Kind::Big5 | Kind::Sjis);
    let light = Miri { target: HOST.into(), flags: format!("{base} -Zmiri-disable-validation -Zmiri-disable-data-race-detector") };
    let full = Miri { target: HOST.into(), flags: format!("{base} -Zmiri-disable-data-race-detector") };
    let recs = [record(sh, true, |e| !big(e)), record(sh, true, big)];
    let files = [write_file(&dir, "a", &recs[0].file()), write_file(&dir, "b", &recs[1].file())];
    let k = (sh.threads / 2).max(1);
    sh.par(2, |cx, j| {
        let j = j as usize;
        interpret(cx, if j == 0 { &full } else { &light }, &recs[j], &files[j], k, limit, "the interpreter");
    });
    // (3) a part of them (and, above, all short operations) with an aliasing model
    if !sh.failed() {
        let mut part = Recorded::new();
        let mut buf = vec![0xA5; 4096];
        for (j, r) in recs.iter().enumerate() {
            let step = if sh.thorough { 1 + 3 * j } else { 4 + 55 * j };
            for o in r.ops.iter().filter(|o| j == 1 || o.x.len() >= 12).step_by(step) {
                part.push(Op { e: o.e, encode: o.encode, x: o.x.clone(), room: o.room, end: o.end }, &mut buf);
            }
        }
        let tb = Miri { target: HOST.into(), flags: "-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-disable-data-race-detector".into() };
        let f = write_file(&dir, "c", &part.file());
        sh.note_extra("ms before Tree Borrows", sh.start.elapsed().as_millis() as u64);
        sh.par(1, |cx, _| interpret(cx, &tb, &part, &f, sh.threads, limit, "the interpreter with Tree Borrows"));
    }
    let _ = std::fs::remove_dir_all(&dir);
    doc25()
}
fn doc25() -> Doc {
    Doc {
        rule: "every recorded call (all bytes, words, blocks, every code and character of the tables, tight rooms, both flags) interpreted step by step, each step checked: bounds of every object, initialisation, alignment, validity of values, overflow, preconditions of unsafe functions, aliasing (a part of the calls); and per encoding two threads making the calls of its operation alphabet in opposite orders, with data races detected",
        assumptions: &["the aliasing model is Tree Borrows, enforced in the threads part and on a quarter of the longer calls (Big5, Shift JIS: on a sixtieth of the calls; thorough: all, a quarter)", "data races are judged by happens-before on the executed schedule", BOUND],
    }
}
/// For tuning: write the recorded calls and print where each encoding's start.
pub fn dump(sh: &Shared, tables: bool, to: &str) {
    let r = record(sh, tables, |_| true);
    let mut last = (usize::MAX, false);
    for (i, o) in r.ops.iter().enumerate() {
        if last != (o.e.idx, o.encode) {
            last = (o.e.idx, o.encode);
            println!("{i} {} {}", o.e.name, if o.encode { "encode" } else { "decode" });
        }
    }
    println!("{} end", r.ops.len());
    let _ = std::fs::write(to, r.file());
}
