mod driver;
mod elem;
mod env;
mod exec;
mod gen;
mod ord;
mod rng;
mod rope;
mod span;
mod tree;
mod types;

use std::time::Duration;
use types::*;

pub fn op_name(k: Kind, op: u8) -> &'static str {
    let t: &[&'static str] = match k {
        Kind::TreeD | Kind::TreeN => &tree::OPS,
        Kind::Ord => &ord::OPS,
        Kind::Rope => &rope::OPS,
        Kind::SpanD | Kind::SpanN => &span::OPS,
    };
    t[op as usize % t.len()]
}

pub const HOOKED: bool = cfg!(gbtree_sim);

fn load(p: &str) -> Script {
    let t = std::fs::read_to_string(p).unwrap_or_else(|e| {
        eprintln!("cannot read {}: {}", p, e);
        std::process::exit(2)
    });
    Script::parse(&t).unwrap_or_else(|| {
        eprintln!("cannot parse {}", p);
        std::process::exit(2)
    })
}

fn main() {
    env::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or(0);
    match arg(1) {
        // worker PROP THOROUGH BASESEED LANE LANES TOTAL DEADLINE_S DIR
        "worker" => driver::worker(arg(2), num(3) == 1, num(4), num(5), num(6), num(7), num(8), arg(9)),
        // check PROP TIER SEED PLAIN_BIN HOOKED_BIN|- OUTDIR EVIDENCE
        "check" => std::process::exit(driver::check(
            arg(2), arg(3) == "thorough", num(4), arg(5), arg(6), arg(7), arg(8),
        )),
        // gen PROP RUNSEED THOROUGH
        "gen" => print!("{}", gen::generate(arg(2), num(3), num(4) == 1).write()),
        // exec FILE: exit 1 if it violates its property
        "exec" => {
            let s = load(arg(2));
            let verbose = arg(3) == "-v";
            let r = exec::run(&s, &|c| gen::decides(&s.cfg.prop, c) && !verbose);
            for f in &r.fails {
                println!(
                    "{} step={} class={} {}",
                    if gen::decides(&s.cfg.prop, f.class) { "FAIL" } else { "other" },
                    f.step,
                    f.class.name(),
                    f.msg
                );
            }
            println!(
                "steps={} ticks={} digest={:016x} hooked={}",
                r.steps_done,
                exec::ticks(),
                r.digest,
                HOOKED as u8
            );
            if exec::first_fail(&s.cfg.prop, &r).is_some() {
                std::process::exit(1);
            }
        }
        // shrink FILE OUT CLASS SECONDS
        "shrink" => {
            let s = load(arg(2));
            let out = arg(3).to_string();
            let Some(class) = Class::parse(arg(4)) else {
                std::process::exit(2)
            };
            let b = exec::shrink(&s, class, Duration::from_secs(num(5)), &mut |b| {
                let _ = std::fs::write(&out, b.write());
            });
            let _ = std::fs::write(&out, b.write());
        }
        // digests PROP BASESEED FROM TO THOROUGH : one line per run, for determinism tests
        "digests" => {
            for idx in num(4)..num(5) {
                let s = gen::generate(arg(2), gen::run_seed(num(3), arg(2), idx), num(6) == 1);
                let r = exec::run(&s, &|_| false);
                println!(
                    "{} {:016x} steps={} fails={}",
                    idx,
                    r.digest,
                    r.steps_done,
                    r.fails.len()
                );
            }
        }
        // survey PROP BASESEED N THOROUGH: development aid
        "survey" => driver::survey(arg(2), num(3), num(4), num(5) == 1),
        _ => {
            eprintln!("usage: gbsim check|worker|gen|exec|shrink|digests|survey ...");
            std::process::exit(2);
        }
    }
}
