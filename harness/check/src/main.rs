//! bfcheck: property checks of burn_fm by generated-input search.

mod again;
mod built;
mod burn;
mod chunks;
mod cli;
mod codec;
mod damage;
mod engine;
mod faults;
mod helpers;
mod interrupted;
mod findings;
mod fmp;
mod inspect;
mod malformed;
mod opcodes;
mod schema;
mod real;
mod related;
mod source;
mod stored;
mod vm;
mod wire;

use engine::Prop;
use std::path::{Path, PathBuf};

fn props() -> Vec<Prop> {
    vec![codec::c01(), codec::c02(), chunks::c03(), schema::c04(), schema::c05(), schema::c06(), burn::c07(), burn::c08(), vm::c09(), vm::c10(), vm::c11(), vm::c12(), vm::c13(), related::c14(), built::c15(), cli::c16(), cli::c17(), damage::c18(), malformed::c19(), inspect::c20(), stored::c21(), faults::c22(), interrupted::c23(), helpers::c24()]
}

fn value<'a>(args: &'a [String], name: &str) -> Option<&'a str> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).map(|s| s.as_str())
}

fn number(args: &[String], name: &str, default: u64) -> u64 {
    value(args, name).map(|v| v.parse().expect("number")).unwrap_or(default)
}

fn usage() -> ! {
    eprintln!("usage: bfcheck check ID [--thorough] [--seed N] [--cases N] [--workers N] | replay FILE | list");
    std::process::exit(2)
}

fn main() {
    // Scripts nest deeply; every entry point runs on a large stack.
    let code = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(run)
        .expect("thread")
        .join()
        .unwrap_or(2);
    std::process::exit(code)
}

fn run() -> i32 {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let cmd = args.first().cloned().unwrap_or_default();
    let root = PathBuf::from(value(&args, "--root").unwrap_or("/verif"));
    if cmd == "list" {
        for p in props() {
            println!("{} quick={} thorough={}", p.id, p.quick, p.thorough);
        }
        return 0;
    }
    let what = match args.get(1) {
        Some(w) => w.clone(),
        None => usage(),
    };
    let find = |id: &str| -> Prop {
        match props().into_iter().find(|p| p.id == id) {
            Some(p) => p,
            None => {
                eprintln!("no check {id}");
                std::process::exit(2)
            }
        }
    };
    if cmd == "replay" {
        let text = std::fs::read_to_string(&what).expect("replay file");
        let v: serde_json::Value = serde_json::from_str(&text).expect("replay file is JSON");
        let prop = find(v["property"].as_str().unwrap_or(""));
        return engine::replay(&prop, &root, &v);
    }
    let mut prop = find(&what);
    let thorough = args.iter().any(|a| a == "--thorough");
    let seed = match value(&args, "--seed") {
        Some(v) => v.parse().expect("seed"),
        None => std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1),
    };
    let cases = value(&args, "--cases").map(|c| c.parse::<u64>().expect("cases"));
    if let Some(n) = cases {
        prop.quick = n;
        prop.thorough = n;
    }
    match cmd.as_str() {
        "check" => {
            let deadline = if thorough { 6 * 3600 } else { 600 };
            engine::check(&prop, &root, seed, thorough, number(&args, "--workers", 8), deadline, cases)
        }
        "worker" => engine::worker(
            &prop,
            &root,
            Path::new(value(&args, "--dir").expect("--dir")),
            seed,
            thorough,
            number(&args, "--worker", 0),
            number(&args, "--workers", 1),
            number(&args, "--until", 1_000_000_000),
        ),
        "single" => engine::single(
            &prop,
            &root,
            value(&args, "--tape").map(|p| engine::read_tape(Path::new(p))),
            seed,
            value(&args, "--log").map(Path::new),
            number(&args, "--cpu", 40) as i64,
            value(&args, "--result").map(Path::new),
        ),
        "finding" => engine::finding(&prop, &root, args.get(2).map(|s| s.as_str()).unwrap_or(""), Path::new(value(&args, "--result").expect("--result"))),
        "enumerate" => engine::single_exhaustive(&prop, &root, Path::new(value(&args, "--result").expect("--result"))),
        _ => usage(),
    }
}
