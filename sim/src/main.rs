mod alloc;
mod checks;
mod choice;
mod cost;
mod ctx;
mod doc;
mod findings;
mod gen;
mod large;
mod log;
mod run;
mod source;

use choice::Src;
use ctx::Ctx;
use std::io::Write;
use std::path::Path;

#[global_allocator]
static HEAP: alloc::Poison = alloc::Poison;

fn choices(f: &str) -> Vec<u32> {
    std::fs::read_to_string(f).unwrap_or_default().split(',').filter_map(|x| x.trim().parse().ok()).collect()
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).cloned().unwrap_or_default();
    let num = |i: usize| arg(i).parse::<u64>().unwrap_or(0);
    match arg(1).as_str() {
        "check" => {
            let prop = arg(2);
            if !checks::known(&prop) {
                eprintln!("no check for {:?}; there are {:?}", prop, checks::ids());
                std::process::exit(2);
            }
            let verif = std::env::var("YARY_SIM_VERIF").unwrap_or_else(|_| "/verif".into());
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
            let tier = if a.len() > 3 { arg(3) } else { std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()) };
            std::process::exit(run::check(&prop, &tier, seed, Path::new(&verif)).code);
        }
        "worker" => run::worker(&arg(2), num(3), num(4), num(5), num(6), Path::new(&arg(7)), num(8), num(9)),
        "probe" => {
            run::limits();
            ctx::quiet_panics();
            run::watchdog(num(4).max(1) as i64);
            let mut cx = Ctx::new(false);
            if let Err(v) = run::one(&arg(2), &mut Src::replay(choices(&arg(3))), &mut cx) {
                println!("CLASS {}", v.class);
            }
        }
        "shrink" => {
            run::limits();
            ctx::quiet_panics();
            let t = std::fs::read_to_string(arg(3)).unwrap_or_default();
            let (class, c) = t.split_once('\n').unwrap_or(("", ""));
            let c = c.split(',').filter_map(|x| x.trim().parse().ok()).collect();
            run::shrink_here(&arg(2), c, class, Path::new(&arg(4)), Path::new(&arg(5)));
        }
        "record" => {
            run::limits();
            ctx::quiet_panics();
            run::watchdog(run::CPU_RUN);
            let mut cx = Ctx::new(false);
            let mut s = Src::seeded(run::run_seed(num(3), &arg(2), num(4)));
            s.tee = std::fs::File::create(arg(5)).ok();
            let _ = run::one(&arg(2), &mut s, &mut cx);
        }
        "trace" => {
            run::limits();
            ctx::quiet_panics();
            run::watchdog(run::CPU_RUN);
            let mut cx = Ctx::new(true);
            cx.live = true;
            let r = run::one(&arg(2), &mut Src::replay(choices(&arg(3))), &mut cx);
            match r {
                Ok(()) => println!("(no violation)"),
                Err(v) => println!("{}: {}", v.class, v.detail),
            }
        }
        "replay" => {
            let t = match std::fs::read_to_string(arg(2)) {
                Ok(t) => t,
                Err(e) => {
                    eprintln!("{}: {}", arg(2), e);
                    std::process::exit(2);
                }
            };
            if let (Some(p), Some(seed), Some(runs)) = (run::parse_field(&t, "property"), run::parse_field(&t, "seed"), run::parse_runs(&t)) {
                run::limits();
                ctx::quiet_panics();
                if let Some(v) = run::history(&p, seed.parse().unwrap_or(1), &runs, true) {
                    println!("{}", v.detail);
                    println!("CLASS {}", v.class);
                    let _ = std::io::stdout().flush();
                    std::process::exit(1);
                }
                println!("no violation");
                return;
            }
            let (p, c) = match (run::parse_field(&t, "property"), run::parse_choices(&t)) {
                (Some(p), Some(c)) => (p, c),
                _ => {
                    eprintln!("not a replay file");
                    std::process::exit(2);
                }
            };
            run::limits();
            ctx::quiet_panics();
            run::watchdog(run::CPU_RUN);
            let mut cx = Ctx::new(true);
            cx.live = true;
            if let Err(v) = run::one(&p, &mut Src::replay(c), &mut cx) {
                println!("{}", v.detail);
                println!("CLASS {}", v.class);
                let _ = std::io::stdout().flush();
                std::process::exit(1);
            }
            println!("no violation");
        }
        "history" => {
            run::limits();
            ctx::quiet_panics();
            let runs: Vec<u64> = std::fs::read_to_string(arg(4)).unwrap_or_default().split(',').filter_map(|x| x.trim().parse().ok()).collect();
            if let Some(v) = run::history(&arg(2), num(3), &runs, false) {
                println!("CLASS {}", v.class);
            }
        }
        // one run by its number, traced
        "show" => {
            ctx::quiet_panics();
            let mut cx = Ctx::new(true);
            cx.live = true;
            let r = run::one(&arg(2), &mut Src::seeded(run::run_seed(num(3), &arg(2), num(4))), &mut cx);
            println!("{:?}", r);
        }
        x => {
            eprintln!("unknown command {:?}: check PROPERTY [quick|thorough], replay FILE, show PROPERTY SEED RUN", x);
            std::process::exit(2);
        }
    }
}
