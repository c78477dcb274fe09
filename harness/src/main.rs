#![allow(static_mut_refs)]
extern crate orx_verif_std;
mod body;
mod elem;
mod mon;
mod multi;
mod prog;
mod props;
mod run;

use orx_verif_std::mc;
use std::time::{Duration, Instant};

#[global_allocator]
static A: mc::McAlloc = mc::McAlloc;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    mc::init(mon::on_start, mon::state);
    match a[0] {
        // list PROP TIER
        "list" => {
            for c in props::configs(a[1], a[2]) {
                println!("{c}");
            }
        }
        // run PROP TIER shard nshards seconds statusfile
        "run" => props::run_shard(a[1], a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), Duration::from_secs_f64(a[5].parse().unwrap()), a[6]),
        "samples" => props::samples(a[1], a[2]),
        // one PROP CONFIG : explore a single configuration
        "one" => props::run_one(a[1], a[2], Instant::now() + Duration::from_secs(600)),
        "selftest" => {
            if !props::selftest(Instant::now() + Duration::from_secs(3600)) {
                std::process::exit(1);
            }
        }
        // replay PROP CONFIG choices
        "replay" => props::replay(a[1], a[2], a.get(3).copied().unwrap_or("")),
        _ => panic!("usage"),
    }
}
