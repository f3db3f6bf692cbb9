//! C23: product exploration of two builds of the crate - with the shipped tables, and with tables freshly generated
//! from the mapping files - over every byte string of the stated lengths and every character.
//! `shipped` and `regenerated` are the two crates; scratch Cargo.toml is written by regen.sh.
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

mod a_ {
    pub use shipped as cut;
    pub mod encs {
        include!(concat!(env!("VERIF_MC_SRC"), "/encs.rs"));
    }
}
use a_::encs as a;
mod b_ {
    pub use regenerated as cut;
    pub mod encs {
        include!(concat!(env!("VERIF_MC_SRC"), "/encs.rs"));
    }
}
use b_::encs as b;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum R {
    Ok(usize, usize),
    Err((usize, usize), usize, u32),
    Panic,
}
macro_rules! call { ($name:ident, $dir:ident, $e:ty, $i:ty, $c:expr) => {
    #[inline]
    fn $name(e: &$e, i: $i, o: &mut [u8], end: bool) -> R {
        catch_unwind(AssertUnwindSafe(|| match (e.$dir)(i, o, end) {
            Ok((s, n)) => R::Ok(s.len(), n),
            Err(x) => R::Err(x.error_range, x.output_bytes_written, $c(x)),
        })).unwrap_or(R::Panic)
    }
} }
call!(dec_a, dec, a::Enc, &[u8], |x: shipped::DecodeError| (x.cause == shipped::DecodeErrorCause::InvalidData) as u32);
call!(dec_b, dec, b::Enc, &[u8], |x: regenerated::DecodeError| (x.cause == regenerated::DecodeErrorCause::InvalidData) as u32);
call!(enc_a, enc, a::Enc, &str, |x: shipped::EncodeError| x.character as u32);
call!(enc_b, enc, b::Enc, &str, |x: regenerated::EncodeError| x.character as u32);

struct Viol {
    enc: &'static str,
    encode: bool,
    input: Vec<u8>,
    room: usize,
    end: bool,
    shipped: String,
    regen: String,
}
#[derive(Default)]
struct St {
    states: u64,
    calls: u64,
    traces: u64,
    ok: u64,
    err: u64,
    per: Vec<[u64; 2]>,
}
struct Cx<'s> {
    st: St,
    ba: Vec<u8>,
    bb: Vec<u8>,
    sh: &'s Sh,
}
struct Sh {
    a: Vec<a::Enc>,
    b: Vec<b::Enc>,
    st: Mutex<St>,
    viol: Mutex<Vec<Viol>>,
    stop: AtomicBool,
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02X}")).collect()
}

impl<'s> Cx<'s> {
    /// Both builds on one input, every given room and both end flags.
    fn point(&mut self, k: usize, encode: bool, input: &[u8], rooms: &[usize]) {
        let (ea, eb) = (&self.sh.a[k], &self.sh.b[k]);
        self.st.states += 1;
        self.st.per[k][encode as usize] += 1;
        let ends = if encode { ea.ends_enc() } else { ea.ends_dec() };
        for &end in ends {
            for &room in rooms {
                let (oa, ob) = (&mut self.ba[..room], &mut self.bb[..room]);
                let (ra, rb) = if encode {
                    let s = unsafe { std::str::from_utf8_unchecked(input) };
                    (enc_a(ea, s, oa, end), enc_b(eb, s, ob, end))
                } else {
                    (dec_a(ea, input, oa, end), dec_b(eb, input, ob, end))
                };
                self.st.calls += 2;
                self.st.traces += 1;
                let w = match ra {
                    R::Ok(w, _) => {
                        self.st.ok += 1;
                        w
                    }
                    R::Err(_, w, _) => {
                        self.st.err += 1;
                        w
                    }
                    R::Panic => 0,
                }
                .min(room);
                if ra != rb || self.ba[..w] != self.bb[..w] {
                    let show = |r: R, b: &[u8]| format!("{r:?} output {}", hex(&b[..w]));
                    let v = Viol { enc: ea.name, encode, input: input.to_vec(), room, end, shipped: show(ra, &self.ba), regen: show(rb, &self.bb) };
                    let mut l = self.sh.viol.lock().unwrap();
                    if l.len() < 4096 {
                        l.push(v);
                    }
                    self.sh.stop.store(true, Relaxed);
                    return;
                }
            }
        }
    }
    fn chars(&mut self, k: usize, cs: &[char], rooms: &[usize]) {
        let mut t = [0u8; 16];
        let mut n = 0;
        for c in cs {
            n += c.encode_utf8(&mut t[n..]).len();
        }
        self.point(k, true, &t[..n].to_vec(), rooms);
    }
}

impl Sh {
    fn par(&self, jobs: u64, f: impl Fn(&mut Cx, u64) + Sync) {
        let next = AtomicU64::new(0);
        let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
        std::thread::scope(|s| {
            for _ in 0..n {
                s.spawn(|| {
                    let mut cx = Cx { st: St { per: vec![[0; 2]; self.a.len()], ..St::default() }, ba: vec![0; 64], bb: vec![0; 64], sh: self };
                    loop {
                        let j = next.fetch_add(1, Relaxed);
                        if j >= jobs || self.stop.load(Relaxed) {
                            break;
                        }
                        f(&mut cx, j);
                    }
                    let mut g = self.st.lock().unwrap();
                    g.states += cx.st.states;
                    g.calls += cx.st.calls;
                    g.traces += cx.st.traces;
                    g.ok += cx.st.ok;
                    g.err += cx.st.err;
                    for (x, y) in g.per.iter_mut().zip(&cx.st.per) {
                        x[0] += y[0];
                        x[1] += y[1];
                    }
                });
            }
        });
    }
}

const ROOMS: &[usize] = &[0, 1, 2, 3, 4, 8];

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = Instant::now();
    let arg: Vec<String> = std::env::args().collect();
    let (out, tier, seed) = (&arg[1], &arg[2], arg[3].parse::<u64>().unwrap_or(1));
    let thorough = tier == "thorough";
    let sh = Sh { a: a::all(), b: b::all(), st: Mutex::new(St::default()), viol: Mutex::new(vec![]), stop: AtomicBool::new(false) };
    let n = sh.a.len();
    sh.st.lock().unwrap().per = vec![[0; 2]; n];
    // every byte string of length 0, 1 and 2, every encoding
    sh.par(n as u64 * 256, |cx, j| {
        let (k, x) = (j as usize / 256, j as u8);
        if x == 0 {
            cx.point(k, false, &[], ROOMS);
        }
        cx.point(k, false, &[x], ROOMS);
        for y in 0..=255u8 {
            cx.point(k, false, &[x, y], ROOMS);
            // two-byte codes with something before and behind
            if cx.sh.a[k].kind == a::Kind::Big5 || cx.sh.a[k].kind == a::Kind::Sjis {
                for z in [0x00, 0x41, 0x80, 0xA4, 0xFF] {
                    cx.point(k, false, &[x, y, z], &[4, 8]);
                    cx.point(k, false, &[z, x, y], &[4, 8]);
                }
            }
        }
    });
    // every character, every encoding: alone, with neighbours; Big5 also as either half of a base + mark pair
    sh.par(n as u64 * 0x110, |cx, j| {
        let (k, hi) = (j as usize / 0x110, (j % 0x110) as u32);
        for c in (hi << 12)..((hi + 1) << 12) {
            let Some(c) = char::from_u32(c) else { continue };
            cx.chars(k, &[c], ROOMS);
            cx.chars(k, &['a', c], &[1, 4, 8]);
            cx.chars(k, &[c, 'a'], &[1, 4, 8]);
            if cx.sh.a[k].kind == a::Kind::Big5 {
                for b in ['\u{CA}', '\u{EA}', '\u{304}', '\u{30C}'] {
                    cx.chars(k, &[b, c], ROOMS);
                    cx.chars(k, &[c, b], ROOMS);
                }
            }
        }
    });
    if thorough {
        // all three-byte strings, and all pairs of encodable characters, of the two-byte encodings
        for k in 0..n {
            let e = sh.a[k];
            if e.kind != a::Kind::Big5 && e.kind != a::Kind::Sjis {
                continue;
            }
            sh.par(65536, |cx, j| {
                for z in 0..=255u8 {
                    cx.point(k, false, &[(j >> 8) as u8, j as u8, z], &[3, 8]);
                }
            });
            let cs: Vec<char> = (0..0x110000u32).filter_map(char::from_u32).filter(|c| {
                let mut t = [0u8; 4];
                let mut o = [0u8; 8];
                !matches!(enc_a(&e, c.encode_utf8(&mut t), &mut o, true), R::Err(..))
            }).collect();
            sh.par(cs.len() as u64, |cx, j| {
                for &d in &cs {
                    cx.chars(k, &[cs[j as usize], d], &[8]);
                }
            });
        }
    }
    let mut v = sh.viol.into_inner().unwrap();
    v.sort_by_key(|v| (v.input.len(), v.room, v.input.clone()));
    let st = sh.st.into_inner().unwrap();
    let per: Vec<String> = sh.a.iter().zip(&st.per).map(|(e, p)| format!("{{\"encoding\": \"{}\", \"byte_strings\": {}, \"texts\": {}}}", e.name, p[0], p[1])).collect();
    let smp = {
        let mut o = vec![0u8; 8];
        let r = dec_b(&sh.b[5], &[0xA4, 0x40], &mut o, true);
        let t = format!("\"decode big5_whatwg A440 room 8 end=true, regenerated: {r:?} output {}\"", hex(&o[..3]));
        let r = enc_b(&sh.b[6], "\u{4E00}", &mut o, true);
        format!("[{t}, \"encode shiftjis_whatwg U+4E00 room 8, regenerated: {r:?} output {}\"]", hex(&o[..2]))
    };
    std::fs::write(out, format!(
        "{{\"states\": {}, \"transitions\": {}, \"traces_validated_against_impl\": {}, \"outcomes\": {{\"ok\": {}, \"error\": {}}}, \"per_encoding\": [{}], \"samples\": {}, \"seed\": {seed}, \"wall\": {:.3}}}",
        st.states, st.calls, st.traces, st.ok, st.err, per.join(", "), smp, t0.elapsed().as_secs_f64()
    )).unwrap();
    if let Some(v) = v.first() {
        println!(
            "{} {} input={} room={} end={}\n  shipped tables:     {}\n  regenerated tables: {}",
            if v.encode { "encode" } else { "decode" }, v.enc, hex(&v.input), v.room, v.end, v.shipped, v.regen
        );
        std::process::exit(1);
    }
}
