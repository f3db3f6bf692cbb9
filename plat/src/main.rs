//! Runs recorded calls (see mc/src/plat.rs) on whatever machine interprets this, and compares the results.
//! plat run <file> <first> <last> <step> <verbose>      plat race <file> <first> <last> <swap>
use text_encoding as cut;
#[path = "../../mc/src/encs.rs"]
#[allow(dead_code)]
mod encs;

struct Case<'a> {
    enc: usize,
    encode: bool,
    end: bool,
    room: usize,
    x: &'a [u8],
    want: (u64, u64),
    out: &'a [u8],
}
fn u64at(b: &[u8], p: usize) -> u64 {
    u64::from_le_bytes(*b[p..].first_chunk::<8>().unwrap())
}
fn u32at(b: &[u8], p: usize) -> usize {
    u32::from_le_bytes(*b[p..].first_chunk::<4>().unwrap()) as usize
}
/// The file: number of calls, where each one is, the calls (two words of header, two of result, input, output).
fn case(b: &[u8], i: usize) -> Case<'_> {
    let p = u32at(b, 4 + 4 * i);
    let h = u64at(b, p);
    let (n, w) = ((h >> 32 & 0xFFFF) as usize, (h >> 48) as usize);
    let q = p + 24 + n;
    Case {
        enc: (h & 0xFF) as usize,
        encode: h & 0x100 != 0,
        end: h & 0x200 != 0,
        room: (h >> 16 & 0xFFFF) as usize,
        x: &b[p + 24..q],
        want: (u64at(b, p + 8), u64at(b, p + 16)),
        out: &b[q..q + w],
    }
}

/// The observable result: kind, cause, bytes written, character; two positions. (The output stays in the buffer.)
fn result(e: &encs::Enc, c: &Case, buf: &mut [u8]) -> (u64, u64) {
    let out = &mut buf[..c.room];
    let (kind, a, b, w, ch, cause) = if c.encode {
        match (e.enc)(unsafe { core::str::from_utf8_unchecked(c.x) }, out, c.end) {
            Ok((s, n)) => (0, n, 0, s.len(), 0, 0),
            Err(x) => (1, x.error_range.0, x.error_range.1, x.output_bytes_written, x.character as u32, 1),
        }
    } else {
        match (e.dec)(c.x, out, c.end) {
            Ok((s, n)) => (0, n, 0, s.len(), 0, 0),
            Err(x) => (1, x.error_range.0, x.error_range.1, x.output_bytes_written, 0, (x.cause == cut::DecodeErrorCause::InvalidData) as u64),
        }
    };
    (kind | cause << 8 | (w as u64) << 16 | (ch as u64) << 32, a as u64 | (b as u64) << 32)
}
fn same(c: &Case, r: (u64, u64), buf: &[u8]) -> bool {
    r.0 == c.want.0 && r.1 == c.want.1 && buf.get(..c.out.len()) == Some(c.out)
}
fn show(r: (u64, u64), buf: &[u8]) -> String {
    let w = (r.0 >> 16 & 0xFFFF) as usize;
    let what = if r.0 & 1 == 0 { format!("Ok(consumed_{})", r.1 & 0xFFFF_FFFF) } else { format!("Err({}..{},U+{:04X})", r.1 & 0xFFFF_FFFF, r.1 >> 32, r.0 >> 32) };
    format!("{what}[{}]", hex(&buf[..w.min(buf.len())]))
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02X}")).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let num = |i: usize| a[i].parse::<usize>().unwrap();
    let data = std::fs::read(&a[2]).unwrap();
    let total = if data.len() < 4 { 0 } else { u32at(&data, 0) };
    let encs = encs::all();
    let (lo, hi) = (num(3), num(4).min(total));
    if a[1] == "race" {
        // two threads, the same calls in opposite orders, nothing between them
        let swap = a[5] == "1";
        let go = |rev: bool| {
            let mut buf = vec![0xA5u8; 1024];
            let n = hi - lo;
            for i in 0..n {
                let c = case(&data, if rev { hi - 1 - i } else { lo + i });
                let r = result(&encs[c.enc], &c, &mut buf);
                if !same(&c, r, &buf) {
                    println!("DIFF {} {}", if rev { hi - 1 - i } else { lo + i }, show(r, &buf));
                    std::process::exit(1);
                }
            }
        };
        std::thread::scope(|s| {
            s.spawn(move || go(swap));
            s.spawn(move || go(!swap));
        });
        println!("DONE {}", 2 * (hi - lo));
        return;
    }
    let (step, verbose) = (num(5), num(6));
    let fill = vec![0xA5u8; 65536];
    let mut i = lo;
    let mut n = 0usize;
    while i < hi {
        if verbose > 0 && n % verbose == 0 {
            println!("@{i}");
        }
        let mut c = case(&data, i);
        // objects of exactly the sizes given, so that a step beside them is a step outside
        let x: Box<[u8]> = c.x.into();
        let mut buf: Box<[u8]> = fill[..c.room].into();
        c.x = &x;
        let r = result(&encs[c.enc], &c, &mut buf);
        if !same(&c, r, &buf) {
            println!("DIFF {i} {}", show(r, &buf));
            std::process::exit(1);
        }
        n += 1;
        i += step;
    }
    println!("DONE {n}");
}
