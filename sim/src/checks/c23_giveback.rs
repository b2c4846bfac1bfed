//! A session with a source is played; after it, everything it took from
//! the simulated heap must be back, and its byte stream must have been
//! dropped, once. Played again, it goes the same way.

use super::util;
use crate::alloc::LIVE;
use crate::choice::Src;
use crate::ctx::{self, viol, Ctx, R};
use crate::log;
use crate::source::{self, Fault, FaultKind, Plan, SimRead};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use yary::event::types::{Event, EventData};
use yary::event::Events;
use yary::reader::Read;

/// Byte streams made and dropped
static DROPPED: AtomicU64 = AtomicU64::new(0);

struct Counted(SimRead);

impl std::io::Read for Counted {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.0.read(b)
    }
}

impl Drop for Counted {
    fn drop(&mut self) {
        DROPPED.fetch_add(1, Relaxed);
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    Stream,
    Str,
    Bytes,
}

/// What a session did; holds nothing of the heap
#[derive(Clone, Copy, Debug, Default, PartialEq)]
struct Did {
    events: u64,
    kept: u64,
    evaluated: u64,
    failed: u64,
    panics: u64,
    streams: u64,
    stopped: bool,
    reads: u64,
    refills: u64,
    fired: u64,
    early: bool,
}

struct Script {
    ops: Vec<u8>,
    lazy: bool,
    /// The events, the event stream, the reader: what goes first
    order: u8,
    max: usize,
}

fn poll<'de, R: Read>(ev: &mut Events<'de, R>, did: &mut Did) -> Option<Result<Event<'de>, ()>> {
    match catch_unwind(AssertUnwindSafe(|| ev.iter().next())) {
        Ok(Some(Ok(e))) => {
            did.events += 1;
            Some(Ok(e))
        }
        Ok(Some(Err(e))) => {
            did.failed += 1;
            // seen, converted or just dropped
            if did.events % 2 == 0 {
                drop(std::io::Error::from(e));
            }
            Some(Err(()))
        }
        Ok(None) => None,
        Err(p) => {
            drop(p);
            did.panics += 1;
            Some(Err(()))
        }
    }
}

fn eval(e: &mut Event<'_>, by: u8, did: &mut Did) {
    if let EventData::Scalar(n) = e.data_mut() {
        did.evaluated += 1;
        // a source's panic may show here too
        let _ = catch_unwind(AssertUnwindSafe(|| match by % 4 {
            0 => drop(n.content.evaluate_by_ref()),
            1 => drop(n.content.clone().evaluate()),
            2 => {
                // evaluated twice
                let _ = n.content.evaluate_by_ref();
                let _ = n.content.evaluate_by_ref();
            }
            _ => {
                let c = n.content.clone();
                let d = c.clone();
                drop(d.evaluate());
                drop(c);
            }
        }));
    }
}

fn session<R: Read>(reader: &R, k: &Script) -> Did {
    let mut did = Did::default();
    {
        let mut kept: Vec<Event<'_>> = Vec::new();
        let mut ev = Some(yary::event::from_reader_with(reader, log::flags(k.lazy)));
        did.streams = 1;
        let mut n = 0usize;
        let mut fails = 0;
        for i in 0.. {
            if n > k.max || i > 4 * k.max {
                break;
            }
            let op = k.ops[i % k.ops.len()];
            let arg = (op >> 4) as usize;
            let e = match ev.as_mut() {
                None => break,
                Some(e) => e,
            };
            match op & 15 {
                0 => {
                    // through an owning handle and back
                    let e = ev.take().unwrap();
                    ev = Some(if arg & 1 == 0 { e.into_iter().into_inner() } else {
                        let mut it = e.into_iter();
                        match catch_unwind(AssertUnwindSafe(|| it.next())) {
                            Ok(Some(Ok(x))) => {
                                did.events += 1;
                                kept.push(x)
                            }
                            Ok(_) => {}
                            Err(_) => did.panics += 1,
                        }
                        it.into_inner()
                    });
                    n += 1;
                }
                1 if !kept.is_empty() => {
                    let j = arg % kept.len();
                    let c = kept[j].clone();
                    kept.push(c);
                    n += 1;
                }
                2 if !kept.is_empty() => {
                    let j = arg % kept.len();
                    drop(kept.swap_remove(j));
                }
                3 | 4 if !kept.is_empty() => {
                    let j = arg % kept.len();
                    eval(&mut kept[j], op >> 6, &mut did);
                }
                5 if arg == 5 => {
                    // another event stream, which may be refused
                    let mut o = yary::event::from_reader_with(reader, log::flags(arg & 1 == 0));
                    did.streams += 1;
                    if let Some(Ok(x)) = poll(&mut o, &mut did) {
                        kept.push(x);
                    }
                }
                6 if arg == 7 => {
                    ev = None;
                    did.stopped = true;
                }
                _ => match poll(e, &mut did) {
                    None => break,
                    Some(Err(())) => {
                        fails += 1;
                        if fails > 3 {
                            break;
                        }
                    }
                    Some(Ok(mut x)) => {
                        n += 1;
                        if arg & 3 == 0 {
                            eval(&mut x, op >> 6, &mut did);
                        }
                        if arg & 4 == 0 {
                            did.kept += 1;
                            kept.push(x);
                        }
                    }
                },
            }
        }
        match k.order % 3 {
            0 => {
                drop(kept);
                drop(ev);
            }
            1 => {
                drop(ev);
                drop(kept);
            }
            _ => {
                drop(ev);
                for mut x in kept.into_iter().rev() {
                    eval(&mut x, k.order >> 4, &mut did);
                }
            }
        }
    }
    did
}

fn play(text: &[u8], plan: &Plan, kind: Kind, k: &Script, acc: Option<&mut Ctx>) -> Did {
    match kind {
        Kind::Stream => {
            let (src, l) = SimRead::new(text, plan.clone());
            source::install(plan, &l);
            let before = DROPPED.load(Relaxed);
            let reader = yary::reader::from_read(Counted(src));
            let mut did = if k.order & 8 != 0 {
                // moved before it is used
                let b = Box::new(reader);
                session(&*b, k)
            } else {
                let d = session(&reader, k);
                drop(reader);
                d
            };
            did.early = DROPPED.load(Relaxed) != before + 1;
            source::uninstall();
            let sl = ctx::take(&l);
            did.reads = sl.reads;
            did.refills = sl.refills;
            did.fired = sl.fired.len() as u64;
            if let Some(cx) = acc {
                cx.account(text, &sl);
            }
            did
        }
        Kind::Str => match std::str::from_utf8(text) {
            Ok(t) => session(&yary::reader::from_utf8(t), k),
            Err(_) => Did::default(),
        },
        Kind::Bytes => match yary::reader::try_from_bytes(text) {
            Ok(r) => session(&r, k),
            Err(e) => {
                drop(e);
                Did { failed: 1, ..Did::default() }
            }
        },
    }
}

/// What is kept for good from the first time on (a thread's own state)
fn warm() {
    static DONE: AtomicBool = AtomicBool::new(false);
    if DONE.swap(true, Relaxed) {
        return;
    }
    for kind in [FaultKind::Panic, FaultKind::Err(std::io::ErrorKind::Other)] {
        let mut p = Plan::with_chunks(vec![3]);
        p.fault = Some(Fault { at: 6, kind, sticky: true, id: 1 });
        let k = Script { ops: vec![15], lazy: true, order: 2, max: 64 };
        play(b"- \"a\\nb\"\n- b\n", &p, Kind::Stream, &k, None);
    }
}

pub fn run(s: &mut Src, cx: &mut Ctx) -> R {
    let text = match s.below(4) {
        0 | 1 => util::bytes(s),
        2 => crate::gen::model(s).text.into_bytes(),
        _ => crate::gen::content(s).into_bytes(),
    };
    let (mut plan, hot) = util::plan(s, &text);
    if s.coin() {
        let mut f = source::gen_fault(s, text.len(), &hot);
        if s.one_in(3) {
            f = Fault { kind: FaultKind::Panic, ..f };
        }
        plan.fault = Some(f);
    }
    let kind = match s.below(5) {
        0 => Kind::Str,
        1 => Kind::Bytes,
        _ => Kind::Stream,
    };
    let n = s.range(4, 40);
    let plain = s.one_in(3);
    let k = Script {
        // a plain session reads on to the end
        ops: (0..n).map(|_| s.below(256) as u8).map(|x| if plain { x | 15 } else { x }).collect(),
        lazy: s.coin(),
        order: s.below(256) as u8,
        max: log::max_events(text.len()),
    };
    cx.case(&text);
    cx.case(format!("{:?}{:?}{:?}{}{}", plan, kind, k.ops, k.lazy, k.order).as_bytes());
    cx.note(|| format!("content: {:?}\nplan: {:?}\nsource: {:?}, lazy {}, order {}, script {:?}", String::from_utf8_lossy(&text), plan, kind, k.lazy, k.order, k.ops));
    warm();
    ctx::clear_panic();
    let before = LIVE.load(Relaxed);
    let first = play(&text, &plan, kind, &k, None);
    ctx::clear_panic();
    let after = LIVE.load(Relaxed);
    let second = play(&text, &plan, kind, &k, Some(cx));
    cx.note(|| format!("first: {:?}\nsecond: {:?}\nheap: {} before, {} after the first", first, second, before, after));
    cx.see(format!("{:?}{:?}{}", first, second, after as i64 - before as i64).as_bytes());
    if first != second {
        return viol("the same session went differently", format!("{:?} then {:?}", first, second));
    }
    if kind == Kind::Stream && first.early {
        return viol("the byte stream was not dropped exactly once", format!("{:?}", first));
    }
    if after != before {
        return viol("memory is not given back", format!("{} bytes of the heap were in use before a session, {} after it: {:?}", before, after, first));
    }
    cx.add("events", second.events * 2);
    cx.add("events_dropped_late", second.kept * 2);
    cx.add("scalars_evaluated", second.evaluated * 2);
    cx.add("sessions_ended_by_an_error", second.failed.min(1) * 2);
    cx.add("source_panics", second.panics * 2);
    cx.add("event_streams_dropped_early", second.stopped as u64 * 2);
    cx.nontrivial = second.events > 3;
    Ok(())
}
