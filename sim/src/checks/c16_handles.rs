use super::util;
use crate::choice::Src;
use crate::ctx::{self, viol, Ctx, R};
use crate::log::{self, End, Eval, Item, Log};
use crate::source::{self, SimRead};
use yary::error::Result as YResult;
use yary::event::types::Event;
use yary::event::Events;

struct Sink {
    items: Vec<Option<Item>>,
    end: Option<(End, String)>,
    /// Number of events of an uninterrupted pass, and how it ends
    all: usize,
    ends: (End, String),
}

impl Sink {
    /// true when production goes on
    fn put(&mut self, x: Option<YResult<Event<'_>>>) -> bool {
        match x {
            None => {
                if self.end.is_none() {
                    self.end = Some((End::Clean, String::new()));
                }
                false
            }
            Some(Err(e)) => {
                self.end = Some((log::err(&e), e.to_string()));
                false
            }
            Some(Ok(mut e)) => {
                self.items.push(Some(log::item(&mut e, Eval::Now)));
                true
            }
        }
    }
    fn skipped(&mut self, n: usize) {
        for _ in 0..n {
            self.items.push(None);
        }
    }
    /// What is left: events, and an error
    fn left(&self) -> usize {
        let err = matches!(self.ends.0, End::Err(_)) as usize;
        (self.all + err).saturating_sub(self.items.len())
    }
    /// An adaptor which passed over up to n items to hand out x
    fn passed(&mut self, n: usize, x: Option<YResult<Event<'_>>>) -> Result<(), ctx::Viol> {
        let left = self.left();
        match x {
            None if left > n => viol("an adaptor ends early", format!("{} items left, {} to pass over", left, n)),
            // the error, if any, was passed over
            None => {
                self.skipped(self.all - self.items.len());
                self.end = Some(self.ends.clone());
                Ok(())
            }
            x => {
                self.skipped(n);
                self.put(x);
                Ok(())
            }
        }
    }
    /// An adaptor which consumed everything, and counted it
    fn counted(&mut self, n: usize) -> Result<(), ctx::Viol> {
        if n != self.left() {
            return viol("an adaptor counts wrong", format!("{} rather than {}", n, self.left()));
        }
        self.skipped(self.all - self.items.len());
        self.end = Some(self.ends.clone());
        Ok(())
    }
    fn hint(&self, h: (usize, Option<usize>)) -> Result<(), ctx::Viol> {
        let left = self.left();
        if h.0 > left || h.1.map_or(false, |x| x < left) {
            return viol("size hint", format!("{:?}, but {} items are left", h, left));
        }
        Ok(())
    }
}

/// Consume all the rest with one adaptor
fn drain<'de>(k: &mut Sink, it: impl Iterator<Item = YResult<Event<'de>>>, which: usize) -> Result<(), ctx::Viol> {
    let left = k.left();
    let mut all = vec![];
    match which {
        0 => return k.counted(it.count()),
        1 => return k.counted(it.fuse().map(|_| 1).sum()),
        2 => {
            return match it.last() {
                None => k.counted(0),
                x if left > 0 => {
                    k.passed(left - 1, x)?;
                    if k.end.is_none() {
                        k.counted(0)?
                    }
                    Ok(())
                }
                _ => viol("events after the end", "last() gives one".into()),
            }
        }
        3 => it.for_each(|x| all.push(x)),
        4 => {
            all = it.fold(all, |mut all, x| {
                all.push(x);
                all
            })
        }
        5 => all = it.collect(),
        6 => all.extend(it.chain(None)),
        7 => {
            let (good, bad): (Vec<_>, Vec<_>) = it.partition(|x| x.is_ok());
            all.extend(good);
            all.extend(bad);
        }
        _ => {
            let (n, x) = it.enumerate().max_by_key(|x| x.0).map_or((0, None), |(i, x)| (i + 1, Some(x)));
            if n > 0 && n <= left {
                k.passed(n - 1, x)?;
            }
            if k.end.is_none() {
                k.counted(0)?
            }
            return Ok(());
        }
    }
    for x in all {
        k.put(Some(x));
    }
    if k.end.is_none() {
        k.counted(0)?
    }
    Ok(())
}

/// Consume everything through a random history of handles
fn consume<'de, Rd: yary::reader::Read>(s: &mut Src, cx: &mut Ctx, mut ev: Events<'de, Rd>, max: usize, want: &Log) -> Result<(Sink, usize), ctx::Viol> {
    let mut k = Sink { items: vec![], end: None, all: want.items.len(), ends: (want.end, want.msg.clone()) };
    let bulk = s.coin();
    let mut handles = 0;
    while k.end.is_none() {
        handles += 1;
        if handles > 20 * max + 1000 {
            // nothing but empty handles
            k.end = Some((End::Stopped, "idle".into()));
            break;
        }
        if k.items.len() > max {
            return viol("runaway", String::new());
        }
        let n = s.below(5);
        let how = if bulk && s.one_in(12) { 12 + s.below(12) } else { s.below(12) };
        cx.note(|| format!("handle {}: kind {}, {} events", handles, how, n));
        match how {
            0 => {
                // created and dropped, nothing taken
                let _ = ev.iter();
            }
            1 => ev = ev.into_iter().into_inner(),
            2 => {
                let mut it = ev.iter();
                for _ in 0..n {
                    if !k.put(it.next()) {
                        break;
                    }
                }
            }
            3 => {
                let mut it = ev.into_iter();
                for _ in 0..n {
                    if !k.put(it.next()) {
                        break;
                    }
                }
                ev = it.into_inner();
            }
            4 => {
                for x in ev.iter().take(n) {
                    if !k.put(Some(x)) {
                        break;
                    }
                }
            }
            5 => {
                let mut it = ev.iter();
                for x in it.by_ref().take(n) {
                    if !k.put(Some(x)) {
                        break;
                    }
                }
                if k.end.is_none() {
                    let x = it.next();
                    k.put(x);
                }
            }
            6 => {
                // nth skips n events; an error on the way is skipped too,
                // thus only where the next n are known to be events
                let mut it = ev.into_iter();
                for x in it.by_ref().take(n) {
                    if !k.put(Some(x)) {
                        break;
                    }
                }
                ev = it.into_inner();
            }
            7 => {
                // skip one through nth(1), keep the second
                let mut failed = None;
                let x = ev
                    .iter()
                    .inspect(|x| {
                        if let Err(e) = x {
                            failed = Some((log::err(e), e.to_string()));
                        }
                    })
                    .nth(1);
                match (x, failed) {
                    (Some(Ok(e)), _) => {
                        k.skipped(1);
                        k.put(Some(Ok(e)));
                    }
                    (Some(Err(e)), _) => {
                        k.skipped(1);
                        k.put(Some(Err(e)));
                    }
                    (None, Some(f)) => k.end = Some(f),
                    (None, None) => {
                        // at most one event was left, find out which
                        k.end = Some((End::Stopped, String::new()));
                    }
                }
            }
            8 => {
                // move the event stream through the heap
                let b = Box::new(ev);
                ev = *b;
            }
            9 => {
                let mut v = vec![ev];
                ev = v.pop().unwrap();
                let x = ev.iter().next();
                k.put(x);
            }
            10 => {
                let mut it = ev.into_iter();
                {
                    let mut p = it.by_ref().peekable();
                    // what was peeked at belongs to this adaptor
                    if p.peek().is_some() {
                        let x = p.next();
                        k.put(x);
                    } else {
                        k.end = Some((End::Clean, String::new()));
                    }
                }
                ev = it.into_inner();
            }
            12 => {
                let x = ev.iter().nth(n);
                k.passed(n, x)?
            }
            13 => {
                let mut it = ev.into_iter();
                k.hint(it.size_hint())?;
                let x = it.nth(n);
                k.passed(n, x)?;
                ev = it.into_inner();
            }
            14 => {
                let x = ev.iter().skip(n).next();
                k.passed(n, x)?
            }
            15 => {
                let mut it = ev.into_iter();
                let step = n + 1;
                let mut steps = it.by_ref().step_by(step);
                for i in 0..3 {
                    let x = steps.next();
                    k.passed(if i == 0 { 0 } else { n }, x)?;
                    if k.end.is_some() {
                        break;
                    }
                }
                ev = it.into_inner();
            }
            16 => {
                // passes over everything up to the one looked for
                let mut at = 0;
                let found = ev.iter().position(|_| {
                    at += 1;
                    at > n
                });
                match found {
                    Some(_) if k.left() > n => k.skipped(n + 1),
                    None if k.left() <= n => k.counted(at)?,
                    x => return viol("an adaptor ends early", format!("{} items left, position {:?} of {}", k.left(), x, n)),
                }
                if k.items.len() > k.all {
                    k.items.pop();
                    k.end = Some(k.ends.clone());
                }
            }
            17 => {
                let mut it = ev.into_iter();
                let mut at = 0;
                let x = it.find(|_| {
                    at += 1;
                    at > n
                });
                k.passed(n, x)?;
                ev = it.into_inner();
            }
            18 => {
                // stops itself after some
                let mut got = 0;
                let _ = ev.iter().try_for_each(|x| {
                    got += 1;
                    if k.put(Some(x)) && got <= n {
                        Ok(())
                    } else {
                        Err(())
                    }
                });
            }
            19 | 20 | 21 if s.one_in(3) => {
                // everything at once, to the end
                let which = s.below(9);
                if s.coin() {
                    drain(&mut k, ev.iter(), which)?;
                } else {
                    drain(&mut k, ev.into_iter(), which)?;
                    return Ok((k, handles));
                }
            }
            23 => {
                for (_, x) in (0..n).zip(ev.iter()) {
                    if !k.put(Some(x)) {
                        break;
                    }
                }
                // zip asks its first part first: nothing was taken in vain
            }
            _ => {
                k.hint(ev.iter().size_hint())?;
                let mut c = 0;
                for x in ev.iter() {
                    if !k.put(Some(x)) {
                        break;
                    }
                    c += 1;
                    if c > n {
                        break;
                    }
                }
            }
        }
    }
    Ok((k, handles))
}

pub fn run(s: &mut Src, cx: &mut Ctx) -> R {
    let mut c = util::case(s, cx);
    let lazy = s.one_in(3);
    let max = log::max_events(c.text.len());
    let want: Log;
    let stream = s.below(3) > 0;
    let (k, handles);
    if stream {
        if s.one_in(3) {
            c.plan.fault = Some(source::gen_fault(s, c.text.len(), &c.hot));
        }
        want = ctx::stream(cx, c.text.as_bytes(), &c.plan, lazy);
        let (src, l) = SimRead::new(c.text.as_bytes(), c.plan.clone());
        source::install(&c.plan, &l);
        let reader = yary::reader::from_read(src);
        let ev = yary::event::from_reader_with(&reader, log::flags(lazy));
        let r = consume(s, cx, ev, max, &want);
        source::uninstall();
        let (a, b) = r?;
        k = a;
        handles = b;
        let sl = ctx::take(&l);
        cx.account(c.text.as_bytes(), &sl);
    } else {
        want = ctx::borrowed(cx, &c.text, lazy);
        let reader = yary::reader::from_utf8(&c.text);
        let ev = yary::event::from_reader_with(&reader, log::flags(lazy));
        let (a, b) = consume(s, cx, ev, max, &want)?;
        k = a;
        handles = b;
    }
    cx.add("handles", handles as u64);
    cx.nontrivial = handles > 1;
    for (i, x) in k.items.iter().enumerate() {
        match (want.items.get(i), x) {
            (Some(_), None) => {}
            (Some(a), Some(b)) if a == b => {}
            (a, b) => return viol("events depend on the handles used", format!("event {}: {} vs {}", i, log::si(a), log::si(b.as_ref()))),
        }
    }
    let (end, msg) = k.end.unwrap();
    let n = k.items.len();
    if end == End::Stopped && msg == "idle" {
        return Ok(());
    }
    if end == End::Stopped {
        // nth(1) found nothing: the single pass had at most one event left
        if want.end != End::Clean || n + 1 < want.items.len() {
            return viol("events lost between handles", format!("{} of {}", n, want.items.len()));
        }
        return Ok(());
    }
    if n != want.items.len() {
        return viol("events lost between handles", format!("{} of {}, {:?} {}", n, want.items.len(), end, msg));
    }
    if end != want.end || msg != want.msg {
        return viol("end depends on the handles used", format!("{:?} {} rather than {:?} {}", end, msg, want.end, want.msg));
    }
    Ok(())
}
