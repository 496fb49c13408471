//! Workers of the checks: `vh PROP --worker I --of N --secs S [--cases K] --out FILE` explores,
//! `vh PROP --case SEED --out FILE` repeats one case.
mod c_lex;
mod c_log;
mod c_misc;
mod c_parse;
mod c_text;
mod ctx;
mod gen;
mod gram;
mod lexg;
mod lexgen;
mod refi;
mod rng;
mod sys;

use ctx::*;
use serde_json::json;
use std::io::Write;
use std::time::Instant;

fn run(prop: &str, c: &mut Ctx) {
    match prop {
        "C01" => c_lex::c01(c),
        "C02" => c_lex::c02(c),
        "C03" => c_lex::c03(c),
        "C04" => c_lex::c04(c),
        "C05" => c_parse::c05(c),
        "C06" => c_parse::c06(c),
        "C07" => c_parse::c07(c),
        "C08" => c_parse::c08(c),
        "C09" => c_parse::c09(c),
        "C10" => c_misc::c10(c),
        "C11" => c_parse::c11(c),
        "C12" => c_parse::c12(c),
        "C13" => c_parse::c13(c),
        "C14" => c_misc::c14(c),
        "C15" => c_parse::c15(c),
        "C16" => c_parse::c16(c),
        "C17" => c_misc::c17(c),
        "C18" => c_text::c18(c),
        "C19" => c_text::c19(c),
        "C20" => c_text::c20(c),
        "C21" => c_parse::c21(c),
        "C22" => c_misc::c22(c),
        "C23" => c_parse::c23(c),
        "C24" => c_misc::c24(c),
        "C25" => c_log::c25(c),
        "C26" => c_log::c26(c),
        _ => panic!("no such property"),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    let num = |k: &str, d: u64| get(k).map_or(d, |v| v.parse().unwrap());
    let prop = args[1].clone();
    if prop == "union" {
        // How many distinct keys are in these files.
        let mut all: Vec<u64> = vec![];
        for f in &args[2..] {
            all.extend(std::fs::read(f).unwrap().chunks_exact(8).map(|b| u64::from_le_bytes(b.try_into().unwrap())));
        }
        all.sort_unstable();
        all.dedup();
        println!("{}", all.len());
        return;
    }
    let worker = num("--worker", 0);
    let of = num("--of", 1);
    let secs = num("--secs", 5);
    let cases = num("--cases", u64::MAX);
    let base = num("--base", 1);
    let skip = num("--skip", 0);
    let single = get("--case").map(|v| v.parse::<u64>().unwrap());
    let thorough = args.iter().any(|a| a == "--thorough");
    let out = get("--out");
    let progress = get("--progress");
    std::panic::set_hook(Box::new(|i| {
        let s = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("?")
        };
        let at = i.location().map_or(String::new(), |l| format!(" at {}:{}", l.file(), l.line()));
        PANIC.with(|p| *p.borrow_mut() = format!("{}{}", s, at));
    }));
    let t = std::thread::Builder::new()
        .stack_size(if cfg!(miri) { 64 << 20 } else { 1 << 30 })
        .spawn(move || {
            let mut c = Ctx::new(thorough);
            let start = Instant::now();
            let mut prog = progress.map(|p| std::fs::File::create(p).unwrap());
            let ph = rng::hash(prop.as_bytes());
            let mut i = worker;
            let mut n = 0u64;
            loop {
                let seed = match single {
                    Some(s) => s,
                    None => rng::mix(ph ^ rng::mix(base).wrapping_add(i)),
                };
                if n >= skip {
                    if let Some(p) = &mut prog {
                        // Fixed width record: the case being run.
                        use std::io::Seek;
                        let _ = p.seek(std::io::SeekFrom::Start(0));
                        let _ = p.write_all(format!("{:020} {:020}\n", seed, n).as_bytes());
                    }
                    c.seed = seed;
                    c.cases += 1;
                    if prop == "C17" && !cfg!(miri) {
                        // The driver looks at the log output of the library and wants to know whose it is.
                        println!("@@case {}", seed);
                    }
                    let t0 = Instant::now();
                    if let Err(p) = sys::guard(|| run(&prop, &mut c)) {
                        c.viol("panic outside the guarded calls", p);
                    }
                    let ms = t0.elapsed().as_millis() as u64;
                    c.max("slowest case, ms", ms);
                    if let Some(p) = std::env::var_os("VH_SLOW").filter(|_| ms > 1500) {
                        // For finding expensive cases while working on the generators.
                        if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(p) {
                            use std::io::Write;
                            let _ = writeln!(f, "{} {} {}", prop, seed, ms);
                        }
                    }
                }
                n += 1;
                i += of;
                if single.is_some() || n >= cases {
                    break;
                }
                if !cfg!(miri) && start.elapsed().as_secs() >= secs {
                    break;
                }
            }
            let v = json!({
                "cases": c.cases, "evals": c.evals, "counts": c.counts, "maxs": c.maxs,
                "samples": c.samples, "viol_total": c.viol_total, "known": c.known,
                "viols": c.viols.iter().map(|v| json!({"seed": v.seed.to_string(), "what": v.what, "detail": v.detail})).collect::<Vec<_>>(),
                "digest": c.digest.iter().map(|d| json!([d.0.to_string(), d.1.to_string()])).collect::<Vec<_>>(),
                "debug": cfg!(debug_assertions), "distinct": c.distinct.len(),
            });
            match out {
                Some(o) => {
                    let mut h: Vec<u8> = Vec::with_capacity(c.distinct.len() * 8);
                    for k in &c.distinct {
                        h.extend(&k.to_le_bytes());
                    }
                    std::fs::write(format!("{}.keys", o), h).unwrap();
                    std::fs::write(&o, v.to_string()).unwrap();
                }
                None => eprintln!("{}", serde_json::to_string_pretty(&v).unwrap()),
            }
        })
        .unwrap();
    t.join().unwrap();
}
