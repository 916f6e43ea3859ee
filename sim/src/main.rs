#![allow(dead_code)]
mod alloc;
mod bytes;
mod check;
mod client;
mod disk;
mod epoch;
mod gen;
mod golden;
mod http;
mod json;
mod kern;
mod known;
mod lin;
mod mouse;
mod mval;
mod oracle;
mod plan;
mod raw;
mod result;
mod rng;
mod runner;
mod sys;
mod vals;

#[global_allocator]
static A: alloc::SimAlloc = alloc::SimAlloc;

pub unsafe fn map_shm() {
    let p = raw::sc6(libc::SYS_mmap, 0, epoch::SHM, 3, (libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE) as usize, usize::MAX, 0);
    epoch::set_shm(p as *mut u8);
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let opt = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let num = |n: &str, d: u64| opt(n).map_or(d, |x| x.parse().unwrap_or_else(|_| panic!("{n} wants a number")));
    let golden_dir = opt("--golden").unwrap_or_else(|| "golden".into());
    golden::load(&golden_dir);
    let env_seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let code = match a.first().map(String::as_str) {
        Some("check") => check::check(&check::Cfg {
            property: opt("--property").expect("--property"),
            tier: opt("--tier").unwrap_or_else(|| "quick".into()),
            seed: num("--seed", env_seed),
            runs: opt("--runs").map(|x| x.parse().expect("--runs")),
            seconds: opt("--seconds").map(|x| x.parse().expect("--seconds")),
            from: num("--from", 0),
            workers: num("--workers", 0),
            shrink: num("--shrink", 60) as f64,
            keep_going: a.iter().any(|x| x == "--keep-going"),
        }),
        Some("one") => check::one(
            &opt("--property").expect("--property"),
            num("--seed", env_seed),
            num("--run", 0),
            a.iter().any(|x| x == "--trace"),
            a.iter().any(|x| x == "--plan"),
        ),
        Some("replay") => check::replay(a.get(1).expect("a file"), a.iter().any(|x| x == "--trace")),
        Some("selftest") => check::selftest(num("--seed", env_seed), num("--runs", 40)),
        #[cfg(feature = "goldengen")]
        Some("golden") => {
            golden::generate(a.get(1).expect("a directory"));
            0
        }
        _ => {
            eprintln!("simrun check --property P01 [--tier quick|thorough] | one --property P01 --run N [--trace] | replay FILE | selftest");
            3
        }
    };
    std::process::exit(code);
}
