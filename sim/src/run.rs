//! Workers, minimisation, replay and evidence.

use std::collections::{BTreeMap, HashSet};
use std::fs;
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use crate::checks;
use crate::choice::{hash_bytes, mix, Src};
use crate::ctx::{self, Ctx, Viol};

#[repr(C)]
struct Tv {
    s: i64,
    u: i64,
}
#[repr(C)]
struct Itimer {
    interval: Tv,
    value: Tv,
}
#[repr(C)]
struct Rlimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setitimer(which: i32, new: *const Itimer, old: *mut Itimer) -> i32;
    fn setrlimit(res: i32, r: *const Rlimit) -> i32;
}

/// End the process (SIGPROF) if a run uses more CPU time than this
pub fn watchdog(secs: i64) {
    unsafe {
        let t = Itimer { interval: Tv { s: 0, u: 0 }, value: Tv { s: secs, u: 0 } };
        setitimer(2, &t, std::ptr::null_mut());
    }
}

pub fn limits() {
    unsafe {
        // address space: a runaway allocation ends the run, not the sandbox
        let r = Rlimit { cur: 3 << 30, max: 3 << 30 };
        setrlimit(9, &r);
        // no core files
        let r = Rlimit { cur: 0, max: 0 };
        setrlimit(4, &r);
    }
}

pub const CPU_RUN: i64 = 20;
/// Distinct cases counted per worker: more are not told apart
pub const MAX_DISTINCT: usize = 3_000_000;

pub fn run_seed(seed: u64, prop: &str, i: u64) -> u64 {
    mix(hash_bytes(mix(seed), prop.as_bytes()) ^ mix(i.wrapping_mul(0x5851_F42D_4C95_7F2D)))
}

/// One run: a pure function of the choices and the code
pub fn one(prop: &str, src: &mut Src, cx: &mut Ctx) -> Result<(), Viol> {
    cx.digest = 0;
    cx.case = 0;
    cx.nontrivial = false;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| checks::run(prop, src, cx)));
    crate::alloc::enable(false);
    crate::source::uninstall();
    match r {
        Ok(r) => r,
        Err(_) => {
            let p = ctx::last_panic();
            if p.rsplit(" at ").next().unwrap_or("").starts_with("src/") {
                // the simulator's own mistake says nothing about the library
                return Err(Viol { class: format!("HARNESS {}", p), detail: p });
            }
            Err(Viol { class: format!("panic {}", p.rsplit(" at ").next().unwrap_or("")), detail: p })
        }
    }
}

pub fn work_dir() -> PathBuf {
    PathBuf::from(std::env::var("YARY_SIM_WORK").unwrap_or_else(|_| "/verif/target/work".into()))
}

pub fn worker(prop: &str, seed: u64, from: u64, to: u64, step: u64, dir: &Path, id: u64, deadline_s: u64) {
    limits();
    ctx::quiet_panics();
    let start = Instant::now();
    let mut cx = Ctx::new(false);
    let mut samples: Vec<String> = Vec::new();
    let mut prog = fs::File::create(dir.join(format!("p{}", id))).unwrap();
    let mut runs = 0u64;
    let mut digest = 0u64;
    let mut i = from + id;
    while i < to {
        use std::io::{Seek, SeekFrom};
        prog.seek(SeekFrom::Start(0)).unwrap();
        prog.write_all(&i.to_le_bytes()).unwrap();
        watchdog(CPU_RUN);
        let mut src = Src::seeded(run_seed(seed, prop, i));
        let want_sample = runs < 2 && id < 2;
        let mut tcx = Ctx::new(true);
        let r = if want_sample {
            // traced twin of the run, for the evidence
            let r = one(prop, &mut Src::seeded(run_seed(seed, prop, i)), &mut tcx);
            let mut t = tcx.trace.join("\n");
            if t.len() > 1500 {
                let mut k = 1500;
                while !t.is_char_boundary(k) {
                    k -= 1;
                }
                t.truncate(k);
                t.push_str(" ...");
            }
            samples.push(format!("run {}: {}", i, t));
            let _ = r;
            one(prop, &mut src, &mut cx)
        } else {
            one(prop, &mut src, &mut cx)
        };
        runs += 1;
        digest ^= mix(cx.digest ^ mix(i));
        if cx.nontrivial && cx.stats.cases.len() < MAX_DISTINCT {
            cx.stats.cases.insert(cx.case);
        }
        if let Err(v) = r {
            watchdog(0);
            let f = dir.join(format!("v{}", id));
            let mut t = format!("{}\n{}\n", i, v.class);
            t.push_str(&src.rec.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(","));
            t.push('\n');
            t.push_str(&v.detail);
            fs::write(&f, t).unwrap();
            break;
        }
        if runs % 64 == 0 && start.elapsed() > Duration::from_secs(deadline_s) {
            break;
        }
        i += step;
    }
    watchdog(0);
    let mut o = String::new();
    o.push_str(&format!("runs {}\ndigest {}\nsim_ms {}\n", runs, digest, cx.stats.sim_ms));
    for (k, n) in &cx.stats.count {
        o.push_str(&format!("c {} {}\n", n, k));
    }
    for h in &cx.stats.cases {
        o.push_str(&format!("h {}\n", h));
    }
    for h in &cx.stats.states {
        o.push_str(&format!("s {}\n", h));
    }
    for s in &samples {
        o.push_str(&format!("x {}\n", s.replace('\n', "\u{1}")));
    }
    fs::write(dir.join(format!("s{}", id)), o).unwrap();
}

fn exe() -> PathBuf {
    std::env::current_exe().unwrap()
}

/// Run the choices in a process of its own: the class of the violation
pub fn probe(prop: &str, choices: &[u32], dir: &Path, cpu: i64) -> Option<String> {
    let f = dir.join("probe");
    fs::write(&f, choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")).unwrap();
    let out = Command::new(exe()).args(["probe", prop, f.to_str().unwrap(), &cpu.to_string()]).stderr(Stdio::null()).output().ok()?;
    if let Some(sig) = out.status.signal() {
        return Some(signal_class(sig));
    }
    let t = String::from_utf8_lossy(&out.stdout).into_owned();
    t.lines().find_map(|l| l.strip_prefix("CLASS ").map(|s| s.to_string()))
}

fn signal_class(sig: i32) -> String {
    match sig {
        27 => "no progress (CPU time exhausted)".into(),
        6 => "abort".into(),
        11 | 7 => "memory fault".into(),
        s => format!("signal {}", s),
    }
}

/// Minimise the choices while the same class of violation persists
///
/// Runs in a process of its own, which a candidate may bring down: the
/// best so far is kept in `out`.
pub fn shrink_here(prop: &str, mut best: Vec<u32>, class: &str, dir: &Path, out: &Path) {
    let save = |b: &[u32], tries: u64| {
        let tmp = out.with_extension("tmp");
        let _ = fs::write(&tmp, format!("{}\n{}", tries, join(b)));
        let _ = fs::rename(&tmp, out);
    };
    save(&best, 0);
    let outside = !class.starts_with("panic") && (class.starts_with("no progress") || class == "abort" || class == "memory fault" || class.starts_with("signal"));
    let start = Instant::now();
    let tries = std::cell::Cell::new(0u64);
    let budget = Duration::from_secs(if outside { 60 } else { 40 });
    let test = |c: &[u32]| -> Option<Vec<u32>> {
        tries.set(tries.get() + 1);
        if outside {
            match probe(prop, c, dir, 2) {
                Some(k) if k == class => Some(c.to_vec()),
                _ => None,
            }
        } else {
            let mut cx = Ctx::new(false);
            let mut s = Src::replay(c.to_vec());
            watchdog(5);
            let r = one(prop, &mut s, &mut cx);
            watchdog(0);
            match r {
                Err(v) if v.class == class => Some(s.rec),
                _ => None,
            }
        }
    };
    let done = |s: Instant| s.elapsed() > budget;
    loop {
        let before = best.clone();
        // delete blocks
        let mut size = (best.len() / 2).max(1);
        while size > 0 && !done(start) {
            let mut i = 0;
            while i + size <= best.len() && !done(start) {
                let mut c = best.clone();
                c.drain(i..i + size);
                match test(&c) {
                    Some(r) if r.len() <= best.len() && r != best => {
                        best = r;
                        save(&best, tries.get());
                    }
                    _ => i += size,
                }
            }
            size /= 2;
        }
        // simplify values
        let mut size = (best.len() / 2).max(1);
        while size > 0 && !done(start) {
            let mut i = 0;
            while i < best.len() && !done(start) {
                let e = (i + size).min(best.len());
                if best[i..e].iter().any(|&x| x != 0) {
                    let mut c = best.clone();
                    c[i..e].iter_mut().for_each(|x| *x = 0);
                    if let Some(r) = test(&c) {
                        if simpler(&r, &best) {
                            best = r;
                            save(&best, tries.get());
                        }
                    }
                }
                i += size;
            }
            size /= 2;
        }
        for i in 0..best.len() {
            if done(start) {
                break;
            }
            let mut v = best.get(i).copied().unwrap_or(0);
            while v > 0 && !done(start) {
                let mut c = best.clone();
                if i >= c.len() {
                    break;
                }
                let nv = if v > 8 { v / 2 } else { v - 1 };
                c[i] = nv;
                v = nv;
                if let Some(r) = test(&c) {
                    if simpler(&r, &best) {
                        best = r;
                        save(&best, tries.get());
                    }
                }
            }
        }
        if best == before || done(start) {
            break;
        }
    }
    save(&best, tries.get());
}

fn join(c: &[u32]) -> String {
    c.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")
}

/// Runs of a batch one after another in this process: the class of the
/// last one's violation
pub fn history(prop: &str, seed: u64, runs: &[u64], live: bool) -> Option<Viol> {
    let mut last = None;
    for (n, &i) in runs.iter().enumerate() {
        watchdog(CPU_RUN);
        let mut cx = Ctx::new(live && n + 1 == runs.len());
        cx.live = live && n + 1 == runs.len();
        last = one(prop, &mut Src::seeded(run_seed(seed, prop, i)), &mut cx).err();
    }
    watchdog(0);
    last
}

fn history_fails(prop: &str, seed: u64, runs: &[u64], class: &str, dir: &Path) -> bool {
    let f = dir.join("history");
    fs::write(&f, runs.iter().map(|r| r.to_string()).collect::<Vec<_>>().join(",")).unwrap();
    let out = Command::new(exe()).args(["history", prop, &seed.to_string(), f.to_str().unwrap()]).stderr(Stdio::null()).output();
    match out {
        Ok(o) => match o.status.signal() {
            Some(sig) => signal_class(sig) == class,
            None => String::from_utf8_lossy(&o.stdout).lines().any(|l| l.strip_prefix("CLASS ") == Some(class)),
        },
        Err(_) => false,
    }
}

/// The code under test keeps something from one run to the next: find a
/// short sequence of runs which ends in the violation
fn shrink_history(prop: &str, seed: u64, all: &[u64], class: &str, dir: &Path) -> Option<Vec<u64>> {
    let start = Instant::now();
    let mut best: Option<Vec<u64>> = None;
    let mut k = 2;
    loop {
        let from = all.len().saturating_sub(k);
        if history_fails(prop, seed, &all[from..], class, dir) {
            best = Some(all[from..].to_vec());
            break;
        }
        if from == 0 || start.elapsed() > Duration::from_secs(120) {
            break;
        }
        k *= 4;
    }
    let mut best = best?;
    let mut size = best.len() / 2;
    while size > 0 && start.elapsed() < Duration::from_secs(180) {
        let mut i = 0;
        while i + size < best.len() && start.elapsed() < Duration::from_secs(180) {
            let mut c = best.clone();
            c.drain(i..i + size);
            if history_fails(prop, seed, &c, class, dir) {
                best = c;
            } else {
                i += size;
            }
        }
        size /= 2;
    }
    Some(best)
}

fn shrink(prop: &str, mut best: Vec<u32>, class: &str, dir: &Path) -> (Vec<u32>, u64) {
    let out = dir.join("shrunk");
    let from = dir.join("toshrink");
    let mut tries = 0;
    // a candidate that ends the process is not gone back to
    for _ in 0..3 {
        let _ = fs::remove_file(&out);
        fs::write(&from, format!("{}\n{}", class, join(&best))).unwrap();
        let st = Command::new(exe())
            .args(["shrink", prop, from.to_str().unwrap(), dir.to_str().unwrap(), out.to_str().unwrap()])
            .stderr(Stdio::null())
            .stdout(Stdio::null())
            .status();
        let before = best.clone();
        if let Ok(t) = fs::read_to_string(&out) {
            if let Some((n, c)) = t.split_once('\n') {
                tries += n.parse::<u64>().unwrap_or(0);
                best = c.split(',').filter_map(|x| x.trim().parse().ok()).collect();
            }
        }
        if st.map_or(false, |s| s.success()) || best == before {
            break;
        }
    }
    (best, tries)
}

fn simpler(a: &[u32], b: &[u32]) -> bool {
    a.len() < b.len() || (a.len() == b.len() && a.iter().map(|&x| x as u64).sum::<u64>() < b.iter().map(|&x| x as u64).sum::<u64>())
}

pub fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub fn parse_choices(t: &str) -> Option<Vec<u32>> {
    let i = t.find("\"choices\": [")? + "\"choices\": [".len();
    let e = t[i..].find(']')? + i;
    Some(t[i..e].split(',').filter_map(|x| x.trim().parse().ok()).collect())
}
pub fn parse_runs(t: &str) -> Option<Vec<u64>> {
    let i = t.find("\"runs\": [")? + "\"runs\": [".len();
    let e = t[i..].find(']')? + i;
    Some(t[i..e].split(',').filter_map(|x| x.trim().parse().ok()).collect())
}
pub fn parse_field(t: &str, k: &str) -> Option<String> {
    let pat = format!("\"{}\": \"", k);
    let i = t.find(&pat)? + pat.len();
    let e = t[i..].find('"')? + i;
    Some(t[i..e].to_string())
}

struct Found {
    run: u64,
    class: String,
    choices: Vec<u32>,
    detail: String,
}

pub struct Outcome {
    pub code: i32,
}

pub fn check(prop: &str, tier: &str, seed: u64, verif: &Path) -> Outcome {
    let thorough = tier == "thorough";
    let jobs: u64 = std::env::var("YARY_SIM_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    let (quick_runs, quick_s, thorough_s) = checks::budget(prop);
    let scale: f64 = std::env::var("YARY_SIM_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let total = if thorough { u64::MAX / 4 } else { (quick_runs as f64 * scale) as u64 };
    let deadline = if thorough { thorough_s } else { quick_s };
    let dir = work_dir().join(format!("{}-{}", prop, std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    let started = Instant::now();
    let mut kids = Vec::new();
    for id in 0..jobs {
        let c = Command::new(exe())
            .args(["worker", prop, &seed.to_string(), "0", &total.to_string(), &jobs.to_string(), dir.to_str().unwrap(), &id.to_string(), &deadline.to_string()])
            .stderr(Stdio::null())
            .stdout(Stdio::null())
            .spawn();
        match c {
            Ok(c) => kids.push((id, c, None::<std::process::ExitStatus>)),
            Err(e) => {
                eprintln!("cannot start a worker: {}", e);
                return Outcome { code: 2 };
            }
        }
    }
    let mut found: Option<Found> = None;
    let mut harness_error = None;
    loop {
        let mut live = 0;
        for (id, c, st) in kids.iter_mut() {
            if st.is_some() {
                continue;
            }
            match c.try_wait().unwrap() {
                None => live += 1,
                Some(s) => {
                    *st = Some(s);
                    if let Some(sig) = s.signal() {
                        let b = fs::read(dir.join(format!("p{}", id))).unwrap_or_default();
                        if b.len() == 8 && sig != 9 {
                            let i = u64::from_le_bytes(b.try_into().unwrap());
                            let f = Found { run: i, class: signal_class(sig), choices: Vec::new(), detail: String::new() };
                            if found.as_ref().map_or(true, |g| f.run < g.run) {
                                found = Some(f);
                            }
                        } else {
                            harness_error = Some(format!("worker {} ended by signal {}", id, sig));
                        }
                    } else if s.code() != Some(0) {
                        harness_error = Some(format!("worker {} exited with {:?}", id, s.code()));
                    }
                    let v = dir.join(format!("v{}", id));
                    if let Ok(t) = fs::read_to_string(&v) {
                        let mut l = t.lines();
                        let run: u64 = l.next().unwrap().parse().unwrap();
                        let class = l.next().unwrap().to_string();
                        let choices: Vec<u32> = l.next().unwrap().split(',').filter_map(|x| x.parse().ok()).collect();
                        let detail = l.collect::<Vec<_>>().join("\n");
                        if found.as_ref().map_or(true, |g| run < g.run) {
                            found = Some(Found { run, class, choices, detail });
                        }
                    }
                }
            }
        }
        if live == 0 {
            break;
        }
        if found.is_some() {
            for (_, c, st) in kids.iter_mut() {
                if st.is_none() {
                    let _ = c.kill();
                    let _ = c.wait();
                    *st = Some(std::process::ExitStatus::from_raw(0));
                }
            }
            break;
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    let wall = started.elapsed().as_secs_f64();
    crate::findings::report(prop, verif);

    // evidence
    let mut count: BTreeMap<String, u64> = BTreeMap::new();
    let (mut cases, mut states) = (HashSet::new(), HashSet::new());
    let (mut runs, mut sim_ms, mut digest) = (0u64, 0u64, 0u64);
    let mut samples = Vec::new();
    for id in 0..jobs {
        if let Ok(t) = fs::read_to_string(dir.join(format!("s{}", id))) {
            for l in t.lines() {
                let (k, v) = l.split_once(' ').unwrap_or((l, ""));
                match k {
                    "runs" => runs += v.parse::<u64>().unwrap_or(0),
                    "digest" => digest ^= v.parse::<u64>().unwrap_or(0),
                    "sim_ms" => sim_ms += v.parse::<u64>().unwrap_or(0),
                    "c" => {
                        let (n, name) = v.split_once(' ').unwrap();
                        let n = n.parse::<u64>().unwrap_or(0);
                        let c = count.entry(name.to_string()).or_default();
                        if name.starts_with("max:") {
                            *c = (*c).max(n);
                        } else {
                            *c += n;
                        }
                    }
                    "h" => {
                        cases.insert(v.parse::<u64>().unwrap_or(0));
                    }
                    "s" => {
                        states.insert(v.parse::<u64>().unwrap_or(0));
                    }
                    "x" => samples.push(v.replace('\u{1}', "\n")),
                    _ => {}
                }
            }
        }
    }
    let mut violations = 0;
    let mut code = 0;
    let mut line = String::new();
    if let Some(f) = &found {
        if f.class.starts_with("HARNESS") {
            harness_error = Some(format!("{} (seed {}, run {})", f.class, seed, f.run));
            found = None;
        }
    }
    if let Some(f) = found {
        violations = 1;
        let choices = if f.choices.is_empty() {
            // the run did not end by itself: regenerate its choices by probing
            let mut s = record_choices(prop, seed, f.run, &dir);
            if s.is_empty() {
                s = vec![];
            }
            s
        } else {
            f.choices.clone()
        };
        ctx::quiet_panics();
        let (small, tries) = if choices.is_empty() { (choices, 0) } else { shrink(prop, choices, &f.class, &dir) };
        let rdir = verif.join("replays");
        let _ = fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{}-seed{}-run{}.json", prop, seed, f.run));
        // trace of the minimised run (in a process of its own)
        let trace = traced(prop, &small, &dir);
        let body = |choices: &[u32], trace: &str| {
            format!(
                "{{\n \"property\": \"{}\",\n \"class\": {},\n \"seed\": {},\n \"run\": {},\n \"shrink_attempts\": {},\n \"choices\": [{}],\n \"trace\": {}\n}}\n",
                prop,
                esc(&f.class),
                seed,
                f.run,
                tries,
                choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(", "),
                esc(trace)
            )
        };
        fs::write(&path, body(&small, &trace)).unwrap();
        // it must fail the same way in a fresh process
        let mut again = replay_class(&path);
        if again.as_deref() != Some(&f.class) && !f.choices.is_empty() {
            // perhaps it was reduced too far
            fs::write(&path, body(&f.choices, &traced(prop, &f.choices, &dir))).unwrap();
            again = replay_class(&path);
        }
        if again.as_deref() != Some(&f.class) {
            // perhaps it needs the runs before it
            let id = f.run % jobs;
            let mut all = Vec::new();
            for (n, i) in (id..=f.run).step_by(jobs as usize).enumerate() {
                if n < 2 && id < 2 {
                    all.push(i);
                }
                all.push(i);
            }
            if let Some(h) = shrink_history(prop, seed, &all, &f.class, &dir) {
                let list = h.iter().map(|r| r.to_string()).collect::<Vec<_>>().join(", ");
                let t = format!(
                    "{{\n \"property\": \"{}\",\n \"class\": {},\n \"seed\": \"{}\",\n \"note\": \"state of the library survives from one run to the next: these runs, in this order, in one process\",\n \"runs\": [{}],\n \"detail\": {}\n}}\n",
                    prop,
                    esc(&f.class),
                    seed,
                    list,
                    esc(&f.detail)
                );
                fs::write(&path, t).unwrap();
                again = replay_class(&path);
            }
        }
        if again.as_deref() != Some(&f.class) {
            eprintln!("replay of {} gave {:?} rather than {:?}", path.display(), again, f.class);
            harness_error = Some("a violation did not replay".into());
        } else {
            println!("violated: {} (seed {}, run {})\n{}", f.class, seed, f.run, trace);
            line = format!("VIOLATION property={} replay={}", prop, path.display());
            code = 1;
        }
    }
    if let Some(e) = &harness_error {
        if code == 0 {
            eprintln!("harness error: {}", e);
            code = 2;
        }
    }
    if runs == 0 && violations == 0 {
        eprintln!("no run completed");
        code = 2;
    }
    write_evidence(prop, tier, seed, verif, &count, cases.len(), states.len(), runs, sim_ms, digest, &samples, wall, violations, jobs);
    let _ = fs::remove_dir_all(&dir);
    if code == 0 {
        println!(
            "{} held: {} runs, {} distinct non-trivial cases, {} boundary states, {:.1} s, digest {:016x}",
            prop,
            runs,
            cases.len(),
            states.len(),
            wall,
            digest
        );
    }
    if !line.is_empty() {
        println!("{}", line);
    }
    Outcome { code }
}

/// Choices of a run which ended its process: recorded as they are drawn
fn record_choices(prop: &str, seed: u64, run: u64, dir: &Path) -> Vec<u32> {
    let f = dir.join("rec");
    let _ = fs::remove_file(&f);
    let _ = Command::new(exe())
        .args(["record", prop, &seed.to_string(), &run.to_string(), f.to_str().unwrap()])
        .stderr(Stdio::null())
        .stdout(Stdio::null())
        .status();
    fs::read_to_string(&f).unwrap_or_default().split(',').filter_map(|x| x.parse().ok()).collect()
}

fn traced(prop: &str, choices: &[u32], dir: &Path) -> String {
    let f = dir.join("trace");
    fs::write(&f, choices.iter().map(|c| c.to_string()).collect::<Vec<_>>().join(",")).unwrap();
    match Command::new(exe()).args(["trace", prop, f.to_str().unwrap()]).stderr(Stdio::null()).output() {
        Ok(o) => {
            let mut t = String::from_utf8_lossy(&o.stdout).into_owned();
            if let Some(s) = o.status.signal() {
                t.push_str(&format!("\n(the process was ended by signal {})", s));
            }
            t
        }
        Err(e) => format!("(no trace: {})", e),
    }
}

pub fn replay_class(path: &Path) -> Option<String> {
    let out = Command::new(exe()).args(["replay", path.to_str()?]).stderr(Stdio::null()).output().ok()?;
    if let Some(sig) = out.status.signal() {
        return Some(signal_class(sig));
    }
    let t = String::from_utf8_lossy(&out.stdout).into_owned();
    t.lines().find_map(|l| l.strip_prefix("CLASS ").map(|s| s.to_string()))
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    prop: &str,
    tier: &str,
    seed: u64,
    verif: &Path,
    count: &BTreeMap<String, u64>,
    cases: usize,
    states: usize,
    runs: u64,
    sim_ms: u64,
    digest: u64,
    samples: &[String],
    wall: f64,
    violations: u64,
    jobs: u64,
) {
    let mut faults = Vec::new();
    let mut probes = Vec::new();
    for (k, n) in count {
        match k.strip_prefix("fault:") {
            Some(f) => faults.push(format!("{}: {}", esc(f), n)),
            None => probes.push(format!("{}: {}", esc(k), n)),
        }
    }
    let per_hour = |n: u64| if wall > 0.0 { (n as f64 / wall * 3600.0) as u64 } else { 0 };
    let mut smp: Vec<String> = samples.iter().take(3).map(|s| esc(s)).collect();
    if smp.is_empty() {
        smp.push(esc("(ended before the first run completed)"));
    }
    let body = format!(
        "{{\n \"property\": \"{}\",\n \"tier\": \"{}\",\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"simulated_runs_per_hour\": {},\n  \"seeds_per_hour\": {},\n  \"simulated_time_s\": {},\n  \"faults_fired\": {{{}}},\n  \"probes\": {{{}}},\n  \"distinct_states\": {},\n  \"state_measure\": {},\n  \"real_components\": {},\n  \"stubbed_components\": {},\n  \"workers\": {},\n  \"observation_digest\": \"{:016x}\",\n  \"samples\": [{}]\n }},\n \"assumptions\": {},\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        prop,
        tier,
        seed,
        runs,
        cases,
        esc(checks::rule(prop)),
        per_hour(runs),
        per_hour(runs),
        sim_ms / 1000,
        faults.join(", "),
        probes.join(", "),
        states,
        esc("distinct byte-class windows (4 bytes before, 4 after) of the content around refill boundaries that fell inside it"),
        esc("all of yary: readers, scanner, parser, events, lazy evaluation"),
        esc("byte source (simulated stream), clock (simulated), refill sizes (seam), heap (poisoning allocator where a check enables it), thread scheduling (one thread runs at a time, chosen by the simulator)"),
        jobs,
        digest,
        smp.join(", "),
        "[\"seeded sampling: a clean batch is evidence, not proof\", \"one process simulates one consumer program at a time; every run is a pure function of VERIF_SEED, the property, the run index and the code\"]",
        wall,
        violations
    );
    let dir = verif.join("evidence");
    let _ = fs::create_dir_all(&dir);
    fs::write(dir.join(format!("{}.json", prop)), body).unwrap();
}
