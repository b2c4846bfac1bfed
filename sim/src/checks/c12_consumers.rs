//! Several consumers take turns in an order the simulator chooses, on
//! one thread or on several (of which one runs at a time).

use super::util;
use crate::choice::Src;
use crate::ctx::{self, viol, Ctx, R};
use crate::gen;
use crate::log::{self, End, Eval, Item, Log};
use crate::source::{self, SimRead};
use std::sync::mpsc;
use yary::event::Events;

struct Cons<'de, Rd> {
    ev: Option<Events<'de, Rd>>,
    lazy: bool,
    items: Vec<Item>,
    end: Option<End>,
}

impl<'de, Rd: yary::reader::Read> Cons<'de, Rd> {
    fn new(r: &'de Rd, lazy: bool) -> Self {
        Cons { ev: Some(yary::event::from_reader_with(r, log::flags(lazy))), lazy, items: vec![], end: None }
    }
    /// One poll; false when it had ended
    fn turn(&mut self) -> bool {
        match self.ev.as_mut() {
            None => false,
            Some(ev) => {
                match ev.iter().next() {
                    None => {
                        if self.end.is_none() {
                            self.end = Some(End::Clean)
                        } else {
                            return false;
                        }
                    }
                    Some(Err(e)) => self.end = Some(log::err(&e)),
                    Some(Ok(mut e)) => self.items.push(log::item(&mut e, Eval::Now)),
                }
                true
            }
        }
    }
}

fn complete(what: &str, want: &Log, items: &[Item], end: Option<End>, dropped: bool) -> R {
    if dropped || end.is_none() {
        return util::prefix(what, &want.items, items);
    }
    let got = Log { items: items.to_vec(), end: end.unwrap(), msg: String::new() };
    util::same(what, want, &got)
}

/// One stream, several claimants
fn shared_stream(s: &mut Src, cx: &mut Ctx) -> R {
    let c = util::case(s, cx);
    let want = [ctx::borrowed(cx, &c.text, false), ctx::borrowed(cx, &c.text, true)];
    let (src, l) = SimRead::new(c.text.as_bytes(), c.plan.clone());
    source::install(&c.plan, &l);
    let reader = yary::reader::from_read(src);
    let n0 = s.range(1, 3);
    let mut cs: Vec<Cons<'_, _>> = (0..n0).map(|_| Cons::new(&reader, s.one_in(3))).collect();
    let mut owner: Option<usize> = None;
    let mut turns = 0usize;
    let max = 4 * log::max_events(c.text.len());
    let mut interleaved = false;
    let mut last = usize::MAX;
    loop {
        if cs.len() < 6 && s.one_in(12) {
            cs.push(Cons::new(&reader, s.coin()));
            cx.note(|| "another consumer is created".into());
        }
        let live: Vec<usize> = (0..cs.len()).filter(|&i| cs[i].ev.is_some() && (cs[i].end.is_none() || s.one_in(6))).collect();
        if live.is_empty() {
            break;
        }
        let i = live[s.below(live.len())];
        if s.one_in(60) {
            cx.note(|| format!("consumer {} is dropped", i));
            cx.hit("consumers_dropped");
            cs[i].ev = None;
            continue;
        }
        if owner.is_none() {
            owner = Some(i);
            cx.note(|| format!("consumer {} polls first", i));
        }
        interleaved |= last != usize::MAX && last != i;
        last = i;
        let ended = cs[i].end;
        let k = cs[i].items.len();
        let advanced = cs[i].turn();
        if ended.is_some() && (advanced || cs[i].items.len() != k) {
            return viol("consumer goes on after its end", format!("consumer {}", i));
        }
        turns += 1;
        if turns > max {
            return viol("runaway", String::new());
        }
    }
    source::uninstall();
    for (i, k) in cs.iter().enumerate() {
        if Some(i) == owner {
            complete("the stream's first consumer", &want[k.lazy as usize], &k.items, k.end, k.ev.is_none())?;
        } else {
            cx.hit("consumers_refused");
            if !k.items.is_empty() {
                return viol("second consumer of a stream gets events", format!("consumer {}: {}", i, log::si(k.items.first())));
            }
            match k.end {
                None | Some(End::Err(_)) => {}
                x => return viol("second consumer of a stream is not refused", format!("consumer {}: {:?}", i, x)),
            }
        }
    }
    drop(cs);
    let sl = ctx::take(&l);
    cx.account(c.text.as_bytes(), &sl);
    cx.nontrivial = interleaved;
    Ok(())
}

fn alone(cx: &mut Ctx, text: &str, lazy: bool, fresh: bool) -> Log {
    if !fresh {
        return ctx::borrowed(cx, text, lazy);
    }
    cx.hit("fresh_threads");
    let l = std::thread::scope(|sc| sc.spawn(|| log::drain(&yary::reader::from_utf8(text), lazy, text.len())).join());
    match l {
        Ok(l) => {
            cx.see_log(&l);
            l
        }
        Err(p) => std::panic::resume_unwind(p),
    }
}

/// Any number of consumers of strings and streams, on one thread
fn interleaved(s: &mut Src, cx: &mut Ctx) -> R {
    let c = util::case(s, cx);
    let d = util::case(s, cx);
    // alone: where nobody has been before, or at least before the others
    let fresh = s.one_in(4);
    let want = [alone(cx, &c.text, false, fresh), alone(cx, &c.text, true, fresh)];
    let want2 = [alone(cx, &d.text, false, fresh), alone(cx, &d.text, true, fresh)];
    let r = yary::reader::from_utf8(&c.text);
    let r2 = r.clone();
    let r3 = match yary::reader::try_from_bytes(d.text.as_bytes()) {
        Ok(r) => r,
        Err(_) => return viol("slice refused", String::new()),
    };
    // two streams; the refill seam is shared by this thread's streams
    let (s1, l1) = SimRead::new(c.text.as_bytes(), c.plan.clone());
    let (s2, l2) = SimRead::new(d.text.as_bytes(), d.plan.clone());
    source::install(&c.plan, &l1);
    let o1 = yary::reader::from_read(s1);
    let o2 = yary::reader::from_read(s2);
    let mut bs = vec![Cons::new(&r, s.one_in(3)), Cons::new(&r2, s.one_in(3)), Cons::new(&r, s.one_in(3)), Cons::new(&r3, s.one_in(3)), Cons::new(&r3, s.one_in(3))];
    let mut os = vec![Cons::new(&o1, s.one_in(3)), Cons::new(&o2, s.one_in(3))];
    let max = 8 * (log::max_events(c.text.len()) + log::max_events(d.text.len()));
    let burst = s.range(1, 5);
    for _ in 0..max {
        let i = s.below(bs.len() + os.len());
        let n = s.range(1, burst);
        let mut moved = false;
        for _ in 0..n {
            moved |= if i < bs.len() { bs[i].turn() } else { os[i - bs.len()].turn() };
        }
        if !moved && bs.iter().all(|x| x.end.is_some()) && os.iter().all(|x| x.end.is_some()) {
            break;
        }
        if s.one_in(80) {
            let j = s.below(bs.len());
            bs[j].ev = None;
            cx.hit("consumers_dropped");
        }
    }
    source::uninstall();
    for (i, k) in bs.iter().enumerate() {
        let w = if i < 3 { &want } else { &want2 };
        complete("interleaved consumer of a string", &w[k.lazy as usize], &k.items, k.end, k.ev.is_none())?;
    }
    for (i, k) in os.iter().enumerate() {
        let w = if i == 0 { &want } else { &want2 };
        complete("interleaved consumer of a stream", &w[k.lazy as usize], &k.items, k.end, k.ev.is_none())?;
    }
    drop(os);
    // and again, the other way around
    for (lazy, text, w) in [(true, &d.text, &want2), (false, &d.text, &want2), (true, &c.text, &want), (false, &c.text, &want)] {
        let got = ctx::borrowed(cx, text, lazy);
        util::same("the same consumer behind others", &w[lazy as usize], &got)?;
    }
    let a = ctx::take(&l1);
    cx.account(c.text.as_bytes(), &a);
    let a = ctx::take(&l2);
    cx.account(d.text.as_bytes(), &a);
    cx.nontrivial = true;
    Ok(())
}

/// Consumers of one string on threads of their own; the simulator gives
/// each its turns
fn threads(s: &mut Src, cx: &mut Ctx) -> R {
    let text = gen::content(s);
    cx.case(text.as_bytes());
    cx.note(|| format!("content: {:?}", text));
    let want = [ctx::borrowed(cx, &text, false), ctx::borrowed(cx, &text, true)];
    let r = yary::reader::from_utf8(&text);
    let n = s.range(2, 3);
    let lazy: Vec<bool> = (0..n).map(|_| s.coin()).collect();
    // the order of turns, decided beforehand
    let total = 40 + 2 * n * (want[0].items.len() + 2);
    let order: Vec<(usize, usize)> = (0..total).map(|_| (s.below(n), s.range(1, 6))).collect();
    cx.case(format!("{:?}", &order[..order.len().min(16)]).as_bytes());
    let res: Result<Vec<(Vec<Item>, Option<End>)>, ()> = std::thread::scope(|sc| {
        let mut ch = Vec::new();
        for k in 0..n {
            let (go, turn) = mpsc::channel::<usize>();
            let (done, fin) = mpsc::channel::<bool>();
            let r = &r;
            let lz = lazy[k];
            let h = sc.spawn(move || {
                let mut c = Cons::new(r, lz);
                for n in turn.iter() {
                    let mut moved = false;
                    for _ in 0..n {
                        moved |= c.turn();
                    }
                    if done.send(moved).is_err() {
                        break;
                    }
                }
                (c.items, c.end)
            });
            ch.push((go, fin, h));
        }
        let mut alive = true;
        for (k, n) in order.iter().copied().chain((0..n).map(|k| (k, total * 8))) {
            if ch[k].0.send(n).is_err() || ch[k].1.recv().is_err() {
                alive = false;
                break;
            }
        }
        let mut out = Vec::new();
        for (go, fin, h) in ch {
            drop(go);
            drop(fin);
            match h.join() {
                Ok(x) => out.push(x),
                Err(_) => alive = false,
            }
        }
        if alive {
            Ok(out)
        } else {
            Err(())
        }
    });
    let res = match res {
        Ok(r) => r,
        Err(()) => return viol("a consumer's thread panicked", String::new()),
    };
    for (k, (items, end)) in res.iter().enumerate() {
        complete("consumer on a thread of its own", &want[lazy[k] as usize], items, *end, false)?;
        if end.is_none() {
            return viol("consumer did not end", format!("consumer {} after {} events", k, items.len()));
        }
    }
    cx.hit("threaded_runs");
    cx.nontrivial = true;
    Ok(())
}

pub fn run(s: &mut Src, cx: &mut Ctx) -> R {
    match s.below(24) {
        0..=11 => shared_stream(s, cx),
        12..=22 => interleaved(s, cx),
        _ => threads(s, cx),
    }
}
