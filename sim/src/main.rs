#![allow(clippy::type_complexity)]
mod byz;
mod check;
mod early;
mod gen;
mod model;
mod oracle;
mod plan;
mod pure;
mod run;
mod shrink;
mod world;

#[global_allocator]
static ALLOCATOR: simrt::mem::Counting = simrt::mem::Counting;

fn main() {
    simrt::install_panic_hook();
    simrt::interpose::touch();
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| -> Option<String> {
        args.iter()
            .position(|a| a == k)
            .and_then(|i| args.get(i + 1).cloned())
    };
    let num = |k: &str, d: u64| get(k).and_then(|v| v.parse().ok()).unwrap_or(d);
    let code = match args.get(1).map(String::as_str) {
        Some("check") => check::check(
            &get("--property").expect("--property"),
            &get("--tier").unwrap_or_else(|| "quick".into()),
            num("--seed", 1),
            num("--seconds", 0),
            num("--jobs", 0) as usize,
        ),
        Some("replay") => check::replay(&args[2], args.iter().any(|a| a == "-v")),
        Some("sweep") => check::sweep(
            get("--family"),
            get("--property"),
            num("--seed", 1),
            num("--count", 500),
            num("--jobs", 8) as usize,
            get("--only"),
        ),
        Some("one") => check::one(
            &get("--family").unwrap_or_else(|| "chaos".into()),
            get("--property"),
            num("--seed", 1),
            args.iter().any(|a| a == "-v"),
        ),
        Some("selftest") => check::selftest(num("--seed", 1), num("--count", 40)),
        _ => {
            eprintln!("usage: ovsim check --property P [--tier quick|thorough] [--seed N] | replay FILE | sweep | one | selftest");
            2
        }
    };
    std::process::exit(code);
}
