#![allow(dead_code)]
mod ast;
mod checks;
mod core;
mod gen;
mod refp;
mod render;
mod rng;
mod semref;
mod sut;

use std::path::PathBuf;

#[global_allocator]
static A: core::Counting = core::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let find = |id: &str| -> &'static core::Check {
        match checks::all().into_iter().find(|c| c.id == id) {
            Some(c) => c,
            None => {
                eprintln!("no such check: {}", id);
                std::process::exit(2)
            }
        }
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false);
    let bins = |v: &PathBuf| match std::env::var_os("VH_BINS") {
        Some(b) => PathBuf::from(b),
        None => v.join("build").join("bin").join("debug"),
    };
    let code = match a.get(1).map(|x| x.as_str()) {
        Some("worker") => core::worker(core::WorkerArgs {
            check: find(&a[2]),
            thorough: a[3] == "thorough",
            seed: a[4].parse().unwrap(),
            from: a[5].parse().unwrap(),
            to: a[6].parse().unwrap(),
            step: a[7].parse().unwrap(),
            scratch: PathBuf::from(&a[8]),
            bins: PathBuf::from(&a[9]),
            cpu_limit: a[10].parse().unwrap(),
            deadline: a[11].parse().unwrap(),
        }),
        // vh run <verif> <id>
        Some("run") => {
            let v = PathBuf::from(&a[2]);
            let b = bins(&v);
            core::supervise(core::Run { check: find(&a[3]), thorough, seed, verif: v, bins: b })
        }
        // vh case <verif> <id> <case>: one case, in this process
        Some("case") => {
            let v = PathBuf::from(&a[2]);
            core::one(find(&a[3]), thorough, seed, a[4].parse().unwrap(), &v, &bins(&v))
        }
        // vh digest <file>...: outcomes for pairs of documents
        Some("digest") => checks::meta::digest_main(&a[2..]),
        _ => {
            eprintln!("usage: vh run <verif> <id> | case <verif> <id> <n>");
            2
        }
    };
    std::process::exit(code);
}
