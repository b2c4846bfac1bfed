//! Events are kept, cloned, moved, dropped and inspected at simulated
//! points while the heap poisons whatever is freed.

use super::util;
use crate::choice::Src;
use crate::ctx::{self, viol, Ctx, R};
use crate::log::{self, Ev, Eval, Item};
use crate::source::{self, Fault, FaultKind, SimRead};
use std::panic::{catch_unwind, AssertUnwindSafe};
use yary::event::types::Event;

struct Kept<'de> {
    ev: Event<'de>,
    snap: Item,
    index: usize,
}

/// What an event shows without being changed
fn look(e: &Event<'_>) -> Item {
    // evaluation is left alone, thus the event is not changed
    let mut c = e.clone();
    log::item(&mut c, Eval::Leave)
}

fn verify(k: &Kept<'_>, when: &str) -> R {
    let now = look(&k.ev);
    if now != k.snap {
        return viol("kept event changed", format!("{}: event {} was {}, is {}", when, k.index, log::si(Some(&k.snap)), log::si(Some(&now))));
    }
    Ok(())
}

pub fn run(s: &mut Src, cx: &mut Ctx) -> R {
    let mut c = util::case(s, cx);
    let lazy = s.coin();
    // many refills, mostly
    if c.plan.chunks.is_none() && !s.one_in(4) {
        let n = s.range(1, 12);
        c.plan.chunks = Some(vec![n]);
    }
    let panics = s.one_in(6);
    if panics || s.one_in(3) {
        let mut f = source::gen_fault(s, c.text.len(), &c.hot);
        if panics {
            f = Fault { kind: FaultKind::Panic, ..f };
        }
        c.plan.fault = Some(f);
        cx.case(format!("{:?}", f).as_bytes());
    }
    let want = ctx::borrowed(cx, &c.text, false);
    let want_lazy = ctx::borrowed(cx, &c.text, true);
    crate::alloc::enable(true);
    let r = inner(s, cx, &c, lazy, panics, &want, &want_lazy);
    crate::alloc::enable(false);
    source::uninstall();
    r
}

fn inner(s: &mut Src, cx: &mut Ctx, c: &util::Case, lazy: bool, panics: bool, want: &log::Log, want_lazy: &log::Log) -> R {
    let full = if lazy { want_lazy } else { want };
    let freed = crate::alloc::FREED.load(std::sync::atomic::Ordering::Relaxed);
    let (src, l) = SimRead::new(c.text.as_bytes(), c.plan.clone());
    source::install(&c.plan, &l);
    let mut reader = yary::reader::from_read(src);
    if s.one_in(3) {
        // the source moves before it is used
        let b = Box::new(reader);
        reader = *b;
        cx.hit("source_moved");
    }
    let reader = reader;
    let mut kept: Vec<Kept<'_>> = Vec::new();
    let keep_all = s.coin();
    let mut ev = Some(yary::event::from_reader_with(&reader, log::flags(lazy)));
    let mut i = 0usize;
    let mut after_panic = 0;
    let max = log::max_events(c.text.len());
    loop {
        let e = match ev.as_mut() {
            None => break,
            Some(ev) => {
                if panics {
                    match catch_unwind(AssertUnwindSafe(|| ev.iter().next())) {
                        Ok(x) => x,
                        Err(_) => {
                            let p = ctx::last_panic();
                            if !p.contains(source::PANIC) {
                                if after_panic == 0 {
                                    return viol("panic", p);
                                }
                                // a poll after an unwound one may refuse to
                                // work, but not touch what was handed out
                                cx.hit("polls_refused_after_source_panic");
                                break;
                            }
                            cx.note(|| format!("the source panicked at event {}", i));
                            after_panic += 1;
                            if after_panic > 3 {
                                break;
                            }
                            for k in &kept {
                                verify(k, "after the source panicked")?;
                            }
                            continue;
                        }
                    }
                } else {
                    ev.iter().next()
                }
            }
        };
        let e = match e {
            None => break,
            Some(Err(e)) => {
                cx.note(|| format!("production ended: {}", e));
                break;
            }
            Some(Ok(e)) => e,
        };
        // what it shows on delivery must be what the content says
        if after_panic == 0 {
            let mut t = e.clone();
            let it = log::item(&mut t, Eval::Now);
            if full.items.get(i) != Some(&it) {
                return viol("event is wrong on delivery", format!("event {}: {} vs {}", i, log::si(full.items.get(i)), log::si(Some(&it))));
            }
        }
        if keep_all || s.one_in(3) {
            let k = Kept { snap: look(&e), ev: e, index: if after_panic > 0 { usize::MAX } else { i } };
            kept.push(k);
        } else {
            drop(e);
        }
        i += 1;
        if !kept.is_empty() {
            match s.below(8) {
                1 => {
                    let j = s.below(kept.len());
                    verify(&kept[j], "while reading on")?;
                }
                2 => {
                    // clone, drop the original
                    let j = s.below(kept.len());
                    let k = kept.swap_remove(j);
                    let ev = k.ev.clone();
                    drop(k.ev);
                    kept.push(Kept { ev, snap: k.snap, index: k.index });
                }
                3 => {
                    let j = s.below(kept.len());
                    drop(kept.swap_remove(j));
                }
                4 => {
                    // move through the heap
                    let j = s.below(kept.len());
                    let k = Box::new(kept.swap_remove(j));
                    kept.push(*k);
                }
                5 => {
                    // a clone evaluated now does not touch the original
                    let j = s.below(kept.len());
                    let mut t = kept[j].ev.clone();
                    let it = log::item(&mut t, Eval::Now);
                    if kept[j].index != usize::MAX && full.items.get(kept[j].index) != Some(&it) {
                        return viol("late evaluation differs", format!("event {}: {} vs {}", kept[j].index, log::si(full.items.get(kept[j].index)), log::si(Some(&it))));
                    }
                }
                _ => {}
            }
        }
        if s.one_in(40) {
            cx.note(|| format!("event stream dropped after {} events", i));
            cx.hit("event_stream_dropped_early");
            ev = None;
        }
        if i > max {
            return viol("runaway", format!("{} events", i));
        }
    }
    for k in &kept {
        verify(k, "at the end of production")?;
    }
    drop(ev);
    for k in &kept {
        verify(k, "after the event stream was dropped")?;
    }
    // another consumer which is refused must not disturb them either
    if s.one_in(4) {
        let mut other = yary::event::from_reader_with(&reader, log::flags(lazy));
        let _ = catch_unwind(AssertUnwindSafe(|| {
            let _ = other.iter().next();
        }));
    }
    let mut n = 0u64;
    for mut k in kept {
        verify(&k, "before late evaluation")?;
        let it = log::item(&mut k.ev, Eval::Now);
        n += 1;
        if k.index != usize::MAX && full.items.get(k.index) != Some(&it) {
            // an eager scalar that fails shows as the end instead
            if !matches!(it.ev, Ev::BadScalar(..)) || lazy {
                return viol("late evaluation differs", format!("event {}: {} vs {}", k.index, log::si(full.items.get(k.index)), log::si(Some(&it))));
            }
        }
    }
    source::uninstall();
    drop(reader);
    let sl = ctx::take(&l);
    cx.account(c.text.as_bytes(), &sl);
    cx.add("events_kept_to_the_end", n);
    cx.add("heap_blocks_poisoned", crate::alloc::FREED.load(std::sync::atomic::Ordering::Relaxed) - freed);
    cx.nontrivial = n > 0 && sl.cuts.iter().any(|&k| k > 0 && k < c.text.len());
    cx.note(|| format!("source: {:?}", sl));
    Ok(())
}
