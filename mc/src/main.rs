mod common;
mod c05;
mod model;
mod oracle;
mod config;
mod parse;
mod persist;
mod cb;
mod coin;
mod refmodel;
mod small;
mod stacks;
mod wide;

use common::*;
use std::sync::Mutex;
use std::time::{Duration, Instant};

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() == 2 && args[1] == "ORACLE" {
        install_panic_hook();
        return oracle::serve();
    }
    if args.len() < 3 {
        eprintln!("usage: mc <property> <quick|thorough> [--secs N] [--out FILE] [--only SPACE CHOICES]");
        std::process::exit(2);
    }
    let id = args[1].clone();
    let tier = if args[2] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let mut secs = if tier == Tier::Quick { 120 } else { 700 };
    let mut out = None;
    let mut only = None;
    let mut i = 3;
    while i < args.len() {
        match args[i].as_str() {
            "--secs" => {
                secs = args[i + 1].parse().unwrap();
                i += 2;
            }
            "--out" => {
                out = Some(args[i + 1].clone());
                i += 2;
            }
            "--only" => {
                let ch = args[i + 2]
                    .split(',')
                    .filter(|x| !x.is_empty())
                    .map(|x| x.parse().unwrap())
                    .collect();
                only = Some((args[i + 1].clone(), ch));
                i += 3;
            }
            x => panic!("unknown argument {x}"),
        }
    }
    install_panic_hook();
    let start = Instant::now();
    let ctx = Ctx {
        id: id.clone(),
        tier,
        only,
        total: Default::default(),
        violations: Default::default(),
        engine_errors: Default::default(),
        spaces: Default::default(),
        deadline: start + Duration::from_secs(secs),
        threads: std::env::var("MC_THREADS").ok().and_then(|s| s.parse().ok()).unwrap_or(8),
        bounds: Mutex::new(vec![]),
    };
    if let Some(o) = &out {
        current::open(&format!("{o}.cur"));
    }
    // A path that takes this long never ends: report it and give up on the rest.
    let (watched, o) = (id.clone(), out.clone());
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        if let (Some((space, choices)), Some(o)) = (current::stuck(60_000), &o) {
            let v = serde_json::json!({"property": watched, "evaluations": 1, "distinct_nontrivial": 1, "states": 0, "transitions": 0,
                "traces_validated_against_impl": 0, "samples": [], "notes": {}, "bounds": [], "spaces": [{"name": space, "paths": 1, "complete": false}],
                "violations": [{"space": space, "choices": choices, "detail": "does not end within a minute"}], "engine_errors": [], "wall_s": 0.0});
            std::fs::write(o, v.to_string()).unwrap();
            std::process::exit(1);
        }
    });
    match id.as_str() {
        "C04" => wide::c04(&ctx),
        "C06" => wide::c06(&ctx),
        "C28" => wide::c28(&ctx),
        "C08" => wide::c08(&ctx),
        "C05" => wide::c05(&ctx),
        "C15" => wide::c15(&ctx),
        "C22" => wide::c22(&ctx),
        "C26" => wide::c26(&ctx),
        "C19" => wide::c19(&ctx),
        "C09" => wide::c09(&ctx),
        "C10" => wide::c10(&ctx),
        "C13" => wide::c13(&ctx),
        "C11" => wide::c11(&ctx),
        "C12" => wide::c12(&ctx),
        "C16" => wide::c16(&ctx),
        "C17" => wide::c17(&ctx),
        "C14" | "C27" => wide::explore_sizes(&ctx, &id),
        "C18" => wide::c18(&ctx, stacks::Trip::Binary),
        "C25" => wide::c18(&ctx, stacks::Trip::Json),
        _ => {}
    }
    match id.as_str() {
        "C04" => parse::c04(&ctx),
        "C06" => parse::c06(&ctx),
        "C07" => parse::c07(&ctx),
        "C08" => parse::c08(&ctx),
        "C28" => parse::c28(&ctx),
        "C05" => c05::run(&ctx),
        "C15" => small::c15(&ctx),
        "C22" => small::c22(&ctx),
        "C23" => small::c23(&ctx),
        "C26" => small::c26(&ctx),
        "C20" => config::c20(&ctx),
        "C19" => persist::c19(&ctx),
        "C09" => stacks::c09(&ctx),
        "C10" => stacks::c10(&ctx),
        "C18" => stacks::c18(&ctx, stacks::Trip::Binary),
        "C25" => stacks::c18(&ctx, stacks::Trip::Json),
        "C13" => cb::c13(&ctx),
        "C14" => cb::c14(&ctx),
        "C27" => cb::c27(&ctx),
        "C11" => coin::c11(&ctx),
        "C12" => coin::c12(&ctx),
        "C16" => coin::c16(&ctx),
        "C17" => coin::c17(&ctx),
        "C03" => small::c03_seq(&ctx),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
    let j = ctx.result_json(start.elapsed().as_secs_f64());
    let s = serde_json::to_string_pretty(&j).unwrap();
    match out {
        Some(f) => std::fs::write(f, s).unwrap(),
        None => println!("{s}"),
    }
    if !ctx.engine_errors.lock().unwrap().is_empty() {
        std::process::exit(2);
    }
    if !ctx.violations.lock().unwrap().is_empty() {
        std::process::exit(1);
    }
}
