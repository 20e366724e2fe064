mod alloc;
mod driver;
mod oracle;
mod props;

use driver::{CheckArgs, ReplayOutcome, Tier, WorkerArgs};
use std::path::PathBuf;

#[global_allocator]
static ALLOCATOR: alloc::Tracking = alloc::Tracking;

fn usage() -> ! {
    eprintln!("usage: puzzle-verif check <id> <verif dir> | replay <file>");
    std::process::exit(2)
}

fn env_seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1)
}

fn main() {
    driver::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let num = |i: usize| args.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or_else(|| usage());
    let text = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or_else(|| usage());
    let property = |id: &str| {
        props::find(id).unwrap_or_else(|| {
            println!("ERROR unknown property {id} (or it needs another build)");
            std::process::exit(2)
        })
    };
    let code = match text(0) {
        "check" => {
            let p = property(text(1));
            let tier = Tier::parse(&std::env::var("VERIF_TIER").unwrap_or_default());
            let a = CheckArgs { tier, seed: env_seed(), verif: PathBuf::from(text(2)), level: "exploration" };
            driver::check(&p, &a, &props::find)
        }
        "replay" => match driver::replay_file(&props::find, &PathBuf::from(text(1))) {
            ReplayOutcome::Holds => {
                println!("HOLDS {}", text(1));
                0
            }
            ReplayOutcome::Fails(m) => {
                println!("FAILS {}: {m}", text(1));
                1
            }
            ReplayOutcome::Error(e) | ReplayOutcome::NotHere(e) => {
                println!("ERROR {e}");
                2
            }
        },
        "once" => {
            println!("{}", props::maze::once(num(1)));
            0
        }
        "worker" => {
            let p = property(text(1));
            let until = (args.len() > 7).then(|| (num(7), num(8)));
            let a = WorkerArgs { tier: Tier::parse(text(2)), seed: num(3), shard: num(4), shards: num(5), dir: PathBuf::from(text(6)), until };
            driver::worker(&p, &a)
        }
        "isolate" => {
            let p = property(text(1));
            let a = WorkerArgs { tier: Tier::parse(text(2)), seed: num(3), shard: 0, shards: 1, dir: PathBuf::from(text(6)), until: None };
            driver::isolate(&p, num(4), num(5), &a)
        }
        _ => usage(),
    };
    std::process::exit(code)
}
