use super::util;
use crate::choice::Src;
use crate::ctx::{self, viol, Ctx, R};
use crate::log;
use crate::source::{self, FaultKind, SimRead};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Stack the repetitive contents have to do with
const STACK: usize = 512 << 10;

/// A fragment over and over, on a small stack: whatever takes some of the
/// stack for each of them overflows it
fn repetitive(s: &mut Src, cx: &mut Ctx) -> R {
    let mut unit: Vec<u8> = match s.below(3) {
        0 => s
            .pick(&[
                "...\n", "---\n", "--- a\n", "# c\n", "\n", "\r\n", " ", "\t", "- ", "-\n", "- a\n", "a: b\n", "a:\n", "? ", "? a\n", ": a\n", "[", "{", "[a, ", "{a: ", "a, ", "'a', ", "[], ", "{}, ", "]", "a: b, ",
                "? a, ", "'' ", "''", "\\\n", "\\x41", "a\n", "a b ", "&a ", "!t ", "*a ", "!<x> ", "%20", "%YAML 1.2\n---\n", "%TAG ! x\n--- a\n", "%TAG ! x\n---\n...\n", "# c\n---\n", "...\n# c\n", "\n...\n", "|\n", "- |\n a\n", "é",
            ])
            .as_bytes()
            .to_vec(),
        1 => {
            let t = util::bytes(s);
            let n = t.len().min(s.range(1, 12));
            let at = s.below(t.len() - n + 1);
            t[at..at + n].to_vec()
        }
        _ => {
            let mut t = util::bytes(s);
            t.truncate(s.range(13, 60));
            t
        }
    };
    if unit.is_empty() {
        unit.push(b'\n');
    }
    let prefix = s.pick(&["", "", "", "---\n", "a:\n", "- ", "[", "{", "\"", "'", "|\n ", "a: !", "? ", "%TAG !", "a\n", "k: [\n"]).as_bytes();
    let stream = s.coin();
    let len = if stream { s.range(2000, 6000) } else { s.range(20_000, 150_000) };
    let mut b = prefix.to_vec();
    while b.len() < len {
        b.extend_from_slice(&unit);
    }
    let chunk = s.range(1, 4);
    let lazy = s.coin();
    cx.case(&b);
    cx.nontrivial = true;
    cx.hit("repetitive");
    cx.note(|| format!("content: {:?} and {:?} over and over, {} bytes; {}", String::from_utf8_lossy(prefix), String::from_utf8_lossy(&unit), b.len(), if stream { format!("refills of {}", chunk) } else { "a slice".into() }));
    let r = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(sc, || {
                if stream {
                    let mut plan = source::Plan::whole();
                    plan.chunks = Some(vec![chunk]);
                    let (src, l) = SimRead::new(&b, plan.clone());
                    source::install(&plan, &l);
                    log::drain(&yary::reader::from_read(src), lazy, b.len());
                    source::uninstall();
                } else if let Ok(r) = yary::reader::try_from_bytes(&b) {
                    log::drain(&r, lazy, b.len());
                }
            })
            .unwrap()
            .join()
    });
    match r {
        Ok(()) => Ok(()),
        Err(_) => {
            let p = ctx::last_panic();
            viol(&format!("panic {}", p.rsplit(" at ").next().unwrap_or("")), p)
        }
    }
}

pub fn run(s: &mut Src, cx: &mut Ctx) -> R {
    if s.one_in(250) {
        return repetitive(s, cx);
    }
    let b = util::bytes(s);
    let (mut plan, hot) = util::plan(s, &b);
    let fault = s.one_in(4);
    let panics = fault && s.coin();
    if fault {
        let mut f = source::gen_fault(s, b.len(), &hot);
        if panics {
            f.kind = FaultKind::Panic;
        }
        plan.fault = Some(f);
    }
    let lazy = s.one_in(3);
    let mode = s.below(3);
    cx.case(&b);
    cx.case(format!("{:?}", plan).as_bytes());
    cx.note(|| format!("content: {:?}\nplan: {:?}", String::from_utf8_lossy(&b), plan));
    let plain = b.iter().all(|c| c.is_ascii_alphanumeric() || *c == b' ');
    if mode == 0 {
        if let Ok(r) = yary::reader::try_from_bytes(&b) {
            cx.hit("slice_source");
            let l = log::drain(&r, lazy, b.len());
            cx.see_log(&l);
            let _ = format!("{:?}", r);
        } else {
            cx.hit("slice_refused");
        }
    } else {
        cx.hit("stream_source");
        let (src, l) = SimRead::new(&b, plan.clone());
        source::install(&plan, &l);
        let reader = yary::reader::from_read(src);
        let mut ev = yary::event::from_reader_with(&reader, log::flags(lazy));
        let mut n = 0;
        let mut ends = 0;
        let mut panicked = 0;
        loop {
            let x = catch_unwind(AssertUnwindSafe(|| ev.iter().next().map(|e| e.map(|mut e| log::item(&mut e, log::Eval::Now)))));
            match x {
                Err(_) => {
                    let p = ctx::last_panic();
                    if !p.contains(source::PANIC) {
                        if panicked > 0 {
                            // a poll after an unwound one may refuse to work
                            cx.hit("polls_refused_after_source_panic");
                            break;
                        }
                        return viol(&format!("panic {}", p.rsplit(" at ").next().unwrap_or("")), p);
                    }
                    panicked += 1;
                    cx.hit("source_panics_survived");
                    if panicked > 4 {
                        break;
                    }
                }
                Ok(None) => break,
                Ok(Some(Err(e))) => {
                    let _ = format!("{} {:?}", e, e);
                    ends += 1;
                    if ends > 2 {
                        break;
                    }
                }
                Ok(Some(Ok(i))) => {
                    cx.see(format!("{:?}", i).as_bytes());
                    n += 1;
                    if n > log::max_events(b.len()) {
                        break;
                    }
                }
            }
        }
        if s.one_in(8) {
            let _ = format!("{:?} {:?}", ev, reader);
        }
        drop(ev);
        source::uninstall();
        drop(reader);
        let sl = ctx::take(&l);
        cx.account(&b, &sl);
    }
    cx.nontrivial = !plain;
    Ok(())
}
