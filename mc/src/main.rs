mod builds;
mod cost;
mod encs;
mod gen;
mod giant;
mod hist;
mod judge;
mod model;
mod plat;
mod props;
mod rt;
mod sess;

use rt::*;
use text_encoding as cut;

fn usage() -> ! {
    eprintln!("usage: mc check <C01..C25, not C23> | replay <file> | fresh-op <enc> <op>");
    std::process::exit(2)
}

/// Known findings: characters for which the crate's Big5 encoder picks a code other than WHATWG's. Where the real
/// code still returns exactly the recorded bytes the model follows it (and C08 reports the finding); anywhere else
/// the model stays with WHATWG.
fn apply_known(t: &mut model::Tables) -> Vec<String> {
    let mut hits = vec![];
    for (p, k) in load_known("") {
        if p != "C08" {
            continue;
        }
        // encode big5_whatwg U+8005 gives 8E 69, WHATWG selects AA CC
        let f: Vec<&str> = k.split_whitespace().collect();
        if f.len() < 6 || f[0] != "encode" || f[1] != "big5_whatwg" {
            continue;
        }
        let Ok(c) = u32::from_str_radix(f[2].trim_start_matches("U+"), 16) else { continue };
        let h = |s: &str| u8::from_str_radix(s.trim_end_matches(','), 16).unwrap_or(0);
        let b = [h(f[4]), h(f[5])];
        let s = model::Small::utf8(c);
        let mut out = [0u8; 8];
        let e = encs::all()[5];
        if let R::Ok { w: 2, .. } = enc(&e, judge::text(s.as_slice()), &mut out, true) {
            if out[..2] == b {
                t.big5_enc[c as usize] = u16::from_be_bytes(b);
                hits.push(k);
            }
        }
    }
    hits
}

/// HKSCS-only characters (no code at or above pointer 5024) with several codes: any code that decodes back is accepted.
fn apply_hkscs(t: &mut model::Tables) {
    let e = encs::all()[5];
    for c in 0x80..0x30000u32 {
        if t.big5_whatwg[c as usize] || t.big5_enc[c as usize] == 0 {
            continue;
        }
        let s = model::Small::utf8(c);
        let mut out = [0u8; 8];
        if let R::Ok { w: 2, .. } = enc(&e, judge::text(s.as_slice()), &mut out, true) {
            let (a, b) = (out[0] as usize, out[1] as usize);
            if a >= 0x81 && b >= 0x40 && !(0x7F..0xA1).contains(&b) && b <= 0xFE {
                let p = (a - 0x81) * 157 + b - if b < 0x7F { 0x40 } else { 0x62 };
                if t.big5_dec.get(p) == Some(&c) {
                    t.big5_enc[c as usize] = u16::from_be_bytes([out[0], out[1]]);
                }
            }
        }
    }
}

fn replay(path: &str) {
    let encs = encs::all();
    let t = std::fs::read_to_string(path).unwrap_or_else(|_| usage());
    for l in t.lines() {
        if l.starts_with("# property") {
            println!("{l}");
        }
        let Some(l) = l.strip_prefix("call ") else { continue };
        let f: Vec<&str> = l.split(' ').collect();
        let e = encs.iter().find(|e| e.name == f[1]).unwrap();
        let val = |i: usize| f[i].split_once('=').unwrap().1;
        let (room, end) = (val(2).parse::<usize>().unwrap(), val(3) == "1");
        let h = val(4);
        let x: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
        let mut out = vec![0xA5; room];
        let r = judge::real(e, f[0] == "encode", &x, &mut out, end);
        let w = match r {
            R::Ok { w, .. } | R::Err { w, .. } => w.min(room),
            R::Panic => 0,
        };
        println!("{} {} input={} room={room} end={end}\n   -> {r:?}\n   output {}", f[0], f[1], short(&x), short(&out[..w]));
        for (name, f2) in builds::OTHERS {
            let mut o2 = vec![0xA5; room];
            let r2 = f2(e, f[0] == "encode", &x, &mut o2, end);
            if r2 != r || o2[..w] != out[..w] {
                println!("   {name}: {r2:?}\n   output {}", short(&o2[..w]));
            }
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("replay") if a.len() == 3 => {
            install("replay");
            replay(&a[2]);
        }
        Some("plat-calls") if a.len() == 4 => {
            let mut t = model::Tables::load();
            apply_known(&mut t);
            plat::dump(&Shared::new("C25", std::env::var("VERIF_TIER").as_deref() == Ok("thorough"), 1, &t), a[2] == "tables", &a[3]);
        }
        Some("digest24") if a.len() >= 3 => {
            install("C24");
            let mut t = model::Tables::load();
            apply_known(&mut t);
            apply_hkscs(&mut t);
            let sh = Shared::new("C24", std::env::var("VERIF_TIER").as_deref() == Ok("thorough"), 1, &t);
            plat::digest_child(&sh, &a[2], a.get(3).and_then(|x| x.parse().ok()));
        }
        Some("fresh-op") if a.len() == 4 => {
            // exactly one call into the code under test
            install("C18");
            let t = model::Tables::load();
            let encs = encs::all();
            let e = encs[a[2].parse::<usize>().unwrap()];
            let m = model::Model::new(&t, &e);
            let o = hist::ops(&e, &m, &t).swap_remove(a[3].parse().unwrap());
            let mut buf = vec![0xA5u8; o.room];
            println!("{}", hist::encode_res(&o.run(&mut buf)));
        }
        Some("check") if a.len() >= 3 => {
            let p = a[2].clone();
            install(&p);
            let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
            let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
            let mut t = model::Tables::load();
            let hits = if p == "C18" { vec![] } else { apply_known(&mut t) };
            if p != "C18" {
                apply_hkscs(&mut t);
            }
            if ["C18", "C26"].contains(&p.as_str()) && a.len() == 3 {
                std::process::exit(workers(&p, thorough, seed, &t));
            }
            let sh = Shared::new(&p, thorough, seed, &t);
            if p == "C08" {
                *sh.known_hit.lock().unwrap() = hits;
            }
            let d = match p.as_str() {
                "C01" => props::c01(&sh),
                "C02" => props::c02(&sh),
                "C03" => props::c03(&sh),
                "C04" => props::c04(&sh),
                "C05" => props::c05(&sh),
                "C06" => props::c06(&sh),
                "C07" => props::c07(&sh),
                "C08" => props::c08(&sh),
                "C09" => props::c09(&sh),
                "C10" => props::c10(&sh),
                "C11" => props::c11(&sh),
                "C12" => props::c12(&sh),
                "C13" => props::c13(&sh),
                "C14" => props::c14(&sh),
                "C15" => props::c15(&sh),
                "C16" => props::c16(&sh),
                "C17" => props::c17(&sh),
                "C18" => {
                    let d = hist::worker(&sh, a[3].parse().unwrap(), a[4].parse().unwrap());
                    let _ = d;
                    std::process::exit(sh.finish_worker(&a[5]));
                }
                "C19" => props::c19(&sh),
                "C20" => props::c20(&sh),
                "C21" => props::c21(&sh),
                "C22" => props::c22(&sh),
                "C24" => plat::c24(&sh),
                "C25" => plat::c25(&sh),
                "C26" => {
                    cost::worker(&sh, a[3].parse().unwrap(), a[4].parse().unwrap());
                    std::process::exit(sh.finish_worker(&a[5]));
                }
                _ => usage(),
            };
            std::process::exit(sh.finish(d.assumptions, d.rule));
        }
        _ => usage(),
    }
}

/// Checks that step through instructions run in worker processes: threads of one process would wait for each other
/// at every trap.
fn workers(p: &str, thorough: bool, seed: u64, t: &model::Tables) -> i32 {
    let sh = Shared::new(p, thorough, seed, t);
    let n = 8usize;
    let exe = std::env::current_exe().unwrap();
    let dir = std::env::temp_dir().join(format!("mc-{p}-{}", std::process::id()));
    std::fs::create_dir_all(&dir).unwrap();
    let kids: Vec<_> = (0..n)
        .map(|k| {
            let f = dir.join(format!("{k}"));
            let c = std::process::Command::new(&exe).args(["check", p, &k.to_string(), &n.to_string(), f.to_str().unwrap()]).env("VERIF_THREADS", "1").stdout(std::process::Stdio::piped()).spawn().unwrap();
            (c, f)
        })
        .collect();
    let mut code = 0;
    let mut viol = None;
    for (c, f) in kids {
        let o = c.wait_with_output().unwrap();
        match o.status.code() {
            Some(0) => {}
            Some(1) => {
                code = code.max(1);
                if viol.is_none() {
                    viol = Some(String::from_utf8_lossy(&o.stdout).to_string());
                }
            }
            _ => code = 2,
        }
        sh.merge_worker(f.to_str().unwrap());
    }
    let _ = std::fs::remove_dir_all(&dir);
    let d = if p == "C18" { hist::doc() } else { cost::doc() };
    let c = sh.finish_with(d.assumptions, d.rule, viol.is_some() as usize);
    if let Some(v) = viol {
        print!("{v}");
        return 1;
    }
    if code == 2 {
        return 2;
    }
    c
}
