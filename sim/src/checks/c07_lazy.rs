use super::util;
use crate::choice::Src;
use crate::large;
use crate::ctx::{self, viol, Ctx, Viol, R};
use crate::log::{self, Ev, End, Eval, Item, Log};
use crate::source::{self, SimRead};
use yary::event::types::{Event, EventData, ScalarLike};

/// How lazy events relate to eager ones
fn relate(eager: &Log, lazy: &Log) -> R {
    let n = eager.items.len();
    util::prefix("lazy events against eager ones", &lazy.items, &eager.items).or_else(|v| match lazy.items.len() < n {
        true => viol("lazy parsing ended before eager parsing", format!("{} events rather than {} ({:?} / {:?})", lazy.items.len(), n, lazy.end, eager.end)),
        false => Err(v),
    })?;
    if lazy.items.len() == n && lazy.end == eager.end {
        return Ok(());
    }
    match eager.end {
        End::Clean => viol("lazy parsing gives more than eager parsing", format!("{} events rather than {}, {:?}", lazy.items.len(), n, lazy.end)),
        End::Err(c) => {
            // the scalar eager parsing stopped at
            let bad = lazy.items[n..].iter().find_map(|i| match i.ev {
                Ev::BadScalar(_, _, k) => Some(k),
                _ => None,
            });
            match bad {
                Some(k) if k == c => Ok(()),
                Some(k) => viol("evaluation fails with another category", format!("{:?} rather than {:?}", k, c)),
                // or a later error hid its event
                None if lazy.end != End::Clean => Ok(()),
                None => viol("lazy evaluation accepts what eager parsing refuses", format!("{:?} {}", c, eager.msg)),
            }
        }
        _ => Ok(()),
    }
}

enum Job {
    Value,
    Ref,
    Thread,
    Clone,
    Twice,
    Inner,
}

/// Evaluate an event in one of the possible ways
fn eval(job: Job, mut e: Event<'_>) -> Result<Item, Viol> {
    match job {
        Job::Ref => Ok(log::item(&mut e, Eval::Now)),
        Job::Thread => {
            // another thread evaluates it, this one waits: one runs at a time
            std::thread::scope(|sc| sc.spawn(move || log::item(&mut e, Eval::Now)).join()).or_else(|_| viol("panic on another thread", String::new()))
        }
        Job::Clone => {
            let mut c = e.clone();
            let a = log::item(&mut c, Eval::Now);
            let b = log::item(&mut e, Eval::Now);
            if a != b || !matches!(a.ev, Ev::BadScalar(..)) && c != e {
                return viol("a clone evaluates differently", format!("{} vs {}", log::si(Some(&a)), log::si(Some(&b))));
            }
            Ok(a)
        }
        Job::Twice => {
            let a = log::item(&mut e, Eval::Now);
            let b = log::item(&mut e, Eval::Now);
            match (&a.ev, &b.ev) {
                (Ev::BadScalar(p, k, _), Ev::Scalar(p2, k2, _, t)) if p == p2 && k == k2 && t.is_empty() => Ok(a),
                _ if a == b && !matches!(a.ev, Ev::BadScalar(..)) => Ok(a),
                _ => viol("second evaluation differs", format!("{} vs {}", log::si(Some(&a)), log::si(Some(&b)))),
            }
        }
        Job::Inner => {
            // what is in the event, without the event
            let (start, end) = (e.start(), e.end());
            if let EventData::Scalar(n) = e.data_mut() {
                let (p, k) = (log::props(&n.anchor, &n.tag), log::kind(n.kind));
                let ev = match std::mem::take(&mut n.content) {
                    ScalarLike::Eager(s) => log::scalar_ev(p, k, &s),
                    ScalarLike::Lazy(l) => match l.evaluate() {
                        Ok(s) => log::scalar_ev(p, k, &s),
                        Err(x) => Ev::BadScalar(p, k, log::cat(x.classify())),
                    },
                };
                return Ok(Item { ev, start, end });
            }
            Ok(log::item(&mut e, Eval::Now))
        }
        Job::Value => {
            let (start, end) = (e.start(), e.end());
            if let EventData::Scalar(n) = e.data().clone() {
                let (p, k) = (log::props(&n.anchor, &n.tag), log::kind(n.kind));
                let done = n.content.is_evaluated();
                if done == n.content.is_unevaluated() {
                    return viol("evaluated and unevaluated at once", String::new());
                }
                let ev = match n.content.evaluate() {
                    Ok(s) => log::scalar_ev(p, k, &s),
                    Err(x) => Ev::BadScalar(p, k, log::cat(x.classify())),
                };
                return Ok(Item { ev, start, end });
            }
            Ok(log::item(&mut e, Eval::Now))
        }
    }
}

pub fn run(s: &mut Src, cx: &mut Ctx) -> R {
    if s.one_in(400) {
        let l = large::gen(s);
        let eager = util::large_text(cx, &l, false);
        let lazy = if s.coin() { util::large_text(cx, &l, true) } else { util::large_stream(s, cx, &l, true) };
        return relate(&eager, &lazy);
    }
    let mut c = util::case(s, cx);
    let eager = ctx::borrowed(cx, &c.text, false);
    let lazy = ctx::borrowed(cx, &c.text, true);
    relate(&eager, &lazy)?;

    let stream = s.below(3) > 0;
    if stream && s.one_in(3) {
        c.plan.fault = Some(source::gen_fault(s, c.text.len(), &c.hot));
    }
    if stream {
        let (src, l) = SimRead::new(c.text.as_bytes(), c.plan.clone());
        source::install(&c.plan, &l);
        let reader = yary::reader::from_read(src);
        let r = schedule(s, cx, &reader, &lazy, c.text.len());
        source::uninstall();
        let sl = ctx::take(&l);
        let (late, ended) = r?;
        cx.account(c.text.as_bytes(), &sl);
        cx.nontrivial = late > 0;
        if sl.fired.is_empty() && ended != lazy.end {
            return viol("a lazy stream ends differently", format!("{:?} rather than {:?}", ended, lazy.end));
        }
        if !sl.fired.is_empty() && ended != End::Err(log::Cat::IO) {
            return viol("a failed lazy stream ends differently", format!("{:?}", ended));
        }
        Ok(())
    } else {
        let reader = yary::reader::from_utf8(&c.text);
        let (late, ended) = schedule(s, cx, &reader, &lazy, c.text.len())?;
        cx.nontrivial = late > 0;
        if ended != lazy.end {
            return viol("lazy parsing ends differently", format!("{:?} rather than {:?}", ended, lazy.end));
        }
        Ok(())
    }
}

fn schedule<Rd: yary::reader::Read>(s: &mut Src, cx: &mut Ctx, reader: &Rd, lazy: &Log, len: usize) -> Result<(u64, End), Viol> {
    let mut ev = yary::event::from_reader_with(reader, log::flags(true));
    let mut wait: Vec<(usize, usize, Event<'_>)> = Vec::new();
    let mut polled = 0usize;
    let mut late = 0u64;
    let mut ended = None;
    let hold = s.below(4);
    loop {
        // one step: poll, or evaluate any of those waiting
        let n = wait.len();
        if ended.is_none() && (n == 0 || s.below(hold + 2) > 0) {
            match ev.iter().next() {
                None => ended = Some(End::Clean),
                Some(Err(e)) => ended = Some(log::err(&e)),
                Some(Ok(e)) => {
                    if let EventData::Scalar(n) = e.data() {
                        if let ScalarLike::Lazy(_) = n.content {
                            cx.hit("lazy_scalars");
                        }
                    }
                    wait.push((polled, polled, e));
                    polled += 1;
                    if polled > log::max_events(len) {
                        ended = Some(End::Runaway);
                    }
                }
            }
        } else if n > 0 {
            let j = match s.below(3) {
                0 => 0,
                1 => n - 1,
                _ => s.below(n),
            };
            let (i, at, e) = wait.swap_remove(j);
            let is_lazy = matches!(e.data(), EventData::Scalar(n) if n.content.is_unevaluated());
            if is_lazy && polled > at + 1 {
                late += 1;
                cx.hit("late_evaluations");
            }
            if is_lazy && ended.is_some() {
                cx.hit("evaluations_after_the_end");
            }
            let job = match s.below(28) {
                24..=27 => Job::Inner,
                0..=6 => Job::Ref,
                7..=13 => Job::Value,
                14..=18 => Job::Clone,
                19..=22 => Job::Twice,
                _ if is_lazy => {
                    cx.hit("evaluations_on_another_thread");
                    Job::Thread
                }
                _ => Job::Ref,
            };
            cx.note(|| format!("event {} of {} evaluated", i, polled));
            let it = eval(job, e)?;
            if lazy.items.get(i) != Some(&it) {
                return viol("evaluation depends on when or how it happens", format!("event {}: {} vs {}", i, log::si(lazy.items.get(i)), log::si(Some(&it))));
            }
        } else {
            break;
        }
    }
    let e = ended.unwrap();
    if e == lazy.end && polled != lazy.items.len() && e == End::Clean {
        return viol("lazy events missing", format!("{} of {}", polled, lazy.items.len()));
    }
    Ok((late, e))
}
