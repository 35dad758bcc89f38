#![allow(non_snake_case)]
mod checks;
mod core;
mod model;
mod rng;
mod sched;

use crate::core::{Ctx, Tier};

fn main() {
    core::install_panic_hook();
    log::set_logger(&model::Sink).unwrap();
    log::set_max_level(log::LevelFilter::Trace);
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().is_some_and(|a| a == "C24-op") {
        checks::history::alone(&args[1..]);
        return;
    }
    let mut id = String::new();
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let mut root = "/verif".to_string();
    let mut only = None;
    let mut i = 0;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                i += 1;
                tier = if args[i] == "thorough" { Tier::Thorough } else { Tier::Quick };
            }
            "--root" => {
                i += 1;
                root = args[i].clone();
            }
            "--replay" => {
                i += 1;
                let s = std::fs::read_to_string(&args[i]).expect("replay file");
                // A field of the replay file: one to a line.
                let get = |k: &str| {
                    let line = s.lines().find_map(|l| l.trim().strip_prefix(&format!("\"{}\": ", k))).expect("replay field");
                    line.trim_end_matches(',').trim_matches('"').to_string()
                };
                if get("tier") == "thorough" {
                    tier = Tier::Thorough;
                }
                only = Some((get("family"), get("case").parse().expect("case")));
            }
            x => id = x.to_string(),
        }
        i += 1;
    }
    let Some((_, f)) = checks::ALL.iter().find(|x| x.0 == id) else {
        eprintln!("unknown property {:?}; known: {:?}", id, checks::ALL.iter().map(|x| x.0).collect::<Vec<_>>());
        std::process::exit(2);
    };
    let mut ctx = Ctx::new(&id, tier, seed, only, &root);
    f(&mut ctx);
    std::process::exit(ctx.finish());
}
