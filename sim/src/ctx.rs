//! What a run reports: violations, measurements and its trace.

use std::sync::Mutex;
use std::collections::{BTreeMap, HashSet};

use crate::choice::hash_bytes;
use crate::log::{self, Log};
use crate::source::{self, Plan, SimRead, SrcLog};

#[derive(Clone, Debug)]
pub struct Viol {
    pub class: String,
    pub detail: String,
}

pub type R = Result<(), Viol>;

pub fn viol<T>(class: &str, detail: String) -> Result<T, Viol> {
    Err(Viol { class: class.to_string(), detail })
}

#[derive(Default)]
pub struct Stats {
    pub count: BTreeMap<String, u64>,
    pub cases: HashSet<u64>,
    pub states: HashSet<u64>,
    pub sim_ms: u64,
}

pub struct Ctx {
    pub stats: Stats,
    pub tracing: bool,
    /// Print the trace as it is made
    pub live: bool,
    pub trace: Vec<String>,
    /// Hash of everything observed, to prove determinism
    pub digest: u64,
    pub nontrivial: bool,
    pub case: u64,
}

impl Ctx {
    pub fn new(tracing: bool) -> Self {
        Ctx { stats: Stats::default(), tracing, live: false, trace: Vec::new(), digest: 0, nontrivial: false, case: 0 }
    }
    pub fn hit(&mut self, k: &str) {
        self.add(k, 1)
    }
    pub fn add(&mut self, k: &str, n: u64) {
        if n == 0 {
            return;
        }
        if let Some(c) = self.stats.count.get_mut(k) {
            *c += n;
        } else {
            self.stats.count.insert(k.to_string(), n);
        }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let k = format!("max:{}", k);
        let c = self.stats.count.entry(k).or_insert(0);
        *c = (*c).max(n);
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            let t = f();
            if self.live {
                use std::io::Write;
                println!("{}", t);
                let _ = std::io::stdout().flush();
            }
            self.trace.push(t);
        }
    }
    pub fn see(&mut self, b: &[u8]) {
        self.digest = hash_bytes(self.digest, b);
    }
    pub fn see_log(&mut self, l: &Log) {
        let t = log::show(l);
        self.digest = hash_bytes(self.digest, t.as_bytes());
    }
    /// Identify this run's case
    pub fn case(&mut self, b: &[u8]) {
        self.case = hash_bytes(self.case, b);
    }

    /// Account for what the simulated stream did
    pub fn account(&mut self, text: &[u8], l: &SrcLog) {
        self.stats.sim_ms += l.now_ms;
        self.add("reads", l.reads);
        self.add("short_reads", l.shorts);
        self.add("interrupted_reads", l.interrupts);
        self.add("delayed_reads", l.delays);
        self.add("refills", l.refills);
        for (at, k) in &l.fired {
            self.add(&format!("fault:{}", k), 1);
            if *at < text.len() {
                self.add("faults_inside_content", 1);
            }
        }
        if !l.fired.is_empty() {
            self.nontrivial = true;
        }
        let mut inner = 0;
        for &c in &l.cuts {
            if c > 0 && c < text.len() {
                inner += 1;
                let h = window(text, c);
                if self.stats.states.len() < crate::run::MAX_DISTINCT {
                    self.stats.states.insert(h);
                }
            }
        }
        if inner > 0 {
            self.nontrivial = true;
            self.add("refills_inside_content", inner);
        }
    }
}

fn class(b: Option<&u8>) -> u8 {
    match b {
        None => 0,
        Some(b) => match b {
            b'a'..=b'z' | b'A'..=b'Z' => 1,
            b'0'..=b'9' => 2,
            0x80..=0xbf => 3,
            0xc0..=0xff => 4,
            x => *x,
        },
    }
}

/// The neighbourhood of a refill boundary (4 bytes before, 4 after)
fn window(t: &[u8], c: usize) -> u64 {
    let mut w = [0u8; 8];
    for i in 0..8usize {
        let p = (c + i) as isize - 4;
        w[i] = if p < 0 { 0 } else { class(t.get(p as usize)) };
    }
    hash_bytes(1, &w)
}

// of any thread: one runs at a time
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = format!("{} at {}", msg, loc);
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

/// Forget it, and its memory
pub fn clear_panic() {
    *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = String::new();
}

/// Drain a simulated byte stream with the plainest consumer
pub fn stream(cx: &mut Ctx, text: &[u8], plan: &Plan, lazy: bool) -> Log {
    stream_with(cx, text, plan, lazy).0
}

pub fn stream_with(cx: &mut Ctx, text: &[u8], plan: &Plan, lazy: bool) -> (Log, SrcLog) {
    let (src, l) = SimRead::new(text, plan.clone());
    source::install(plan, &l);
    let reader = yary::reader::from_read(src);
    let out = log::drain(&reader, lazy, text.len());
    source::uninstall();
    drop(reader);
    let l = take(&l);
    cx.account(text, &l);
    cx.note(|| format!("stream ({} bytes, {:?}, lazy {}):\n{}  source: {:?}", text.len(), plan, lazy, log::show(&out), l));
    cx.see_log(&out);
    (out, l)
}

pub fn take(l: &source::Log) -> SrcLog {
    std::mem::take(&mut *l.borrow_mut())
}

pub fn borrowed(cx: &mut Ctx, text: &str, lazy: bool) -> Log {
    let reader = yary::reader::from_utf8(text);
    let out = log::drain(&reader, lazy, text.len());
    cx.note(|| format!("from_utf8 (lazy {}):\n{}", lazy, log::show(&out)));
    cx.see_log(&out);
    out
}
