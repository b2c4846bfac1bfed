use super::util;
use crate::choice::Src;
use crate::ctx::{self, viol, Ctx, R};
use crate::log::{self, Cat, End};
use crate::source::{self, SimRead};
use yary::event::Events;

/// Poll an ended event stream through a random sequence of handles
fn later<'de, Rd: yary::reader::Read>(s: &mut Src, cx: &mut Ctx, mut ev: Events<'de, Rd>) -> R {
    let n = s.range(1, 6);
    let bad = |how: &str, x: Option<yary::error::Result<yary::event::types::Event<'de>>>| -> R {
        match x {
            None => Ok(()),
            Some(Ok(mut e)) => viol("event after the end", format!("{}: {:?}", how, log::item(&mut e, log::Eval::Leave))),
            Some(Err(e)) => viol("second error after the end", format!("{}: {}", how, e)),
        }
    };
    for _ in 0..n {
        match s.below(5) {
            0 => {
                cx.note(|| "poll: iter().next()".into());
                bad("iter", ev.iter().next())?
            }
            1 => {
                cx.note(|| "poll: into_iter().next(), into_inner()".into());
                let mut it = ev.into_iter();
                bad("into_iter", it.next())?;
                ev = it.into_inner();
            }
            2 => {
                let k = s.below(4);
                cx.note(|| format!("poll: iter().nth({})", k));
                bad("iter.nth", ev.iter().nth(k))?
            }
            3 => {
                cx.note(|| "poll: iter() three times".into());
                let mut it = ev.iter();
                for _ in 0..3 {
                    bad("iter, repeatedly", it.next())?;
                }
            }
            _ => {
                cx.note(|| "poll: iter().last()".into());
                bad("iter.last", ev.iter().last())?
            }
        }
        cx.hit("polls_after_the_end");
    }
    Ok(())
}

fn go<Rd: yary::reader::Read>(s: &mut Src, cx: &mut Ctx, r: &Rd, lazy: bool, len: usize, reads: &dyn Fn() -> u64) -> Result<End, crate::ctx::Viol> {
    let mut ev = yary::event::from_reader_with(r, log::flags(lazy));
    let mut n = 0;
    let own = s.coin();
    let end;
    // some of the events may be taken by the handle which meets the end
    if own {
        let mut it = ev.into_iter();
        loop {
            match it.next() {
                None => {
                    end = End::Clean;
                    break;
                }
                Some(Err(e)) => {
                    end = log::err(&e);
                    break;
                }
                Some(Ok(_)) => n += 1,
            }
            if n > log::max_events(len) {
                return Ok(End::Runaway);
            }
        }
        for _ in 0..s.below(3) {
            if let Some(x) = it.next() {
                return viol("something after the end", format!("{:?}", x.map(|mut e| log::item(&mut e, log::Eval::Leave))));
            }
        }
        ev = it.into_inner();
    } else {
        let mut it = ev.iter();
        loop {
            match it.next() {
                None => {
                    end = End::Clean;
                    break;
                }
                Some(Err(e)) => {
                    end = log::err(&e);
                    break;
                }
                Some(Ok(_)) => n += 1,
            }
            if n > log::max_events(len) {
                return Ok(End::Runaway);
            }
        }
        for _ in 0..s.below(3) {
            if let Some(x) = it.next() {
                return viol("something after the end", format!("{:?}", x.map(|mut e| log::item(&mut e, log::Eval::Leave))));
            }
        }
    }
    cx.note(|| format!("production ended: {:?} after {} events", end, n));
    let before = reads();
    later(s, cx, ev)?;
    let after = reads();
    if before != after {
        return viol("stream read after the end", format!("{} reads by later polls", after - before));
    }
    Ok(end)
}

pub fn run(s: &mut Src, cx: &mut Ctx) -> R {
    let b = util::bytes(s);
    let (mut plan, hot) = util::plan(s, &b);
    if s.coin() {
        plan.fault = Some(source::gen_fault(s, b.len(), &hot));
    }
    cx.case(&b);
    cx.case(format!("{:?}", plan).as_bytes());
    cx.note(|| format!("content: {:?}\nplan: {:?}", String::from_utf8_lossy(&b), plan));
    let lazy = s.one_in(4);
    let end = if s.one_in(4) {
        match yary::reader::try_from_bytes(&b) {
            Err(_) => return Ok(()),
            Ok(r) => go(s, cx, &r, lazy, b.len(), &|| 0)?,
        }
    } else {
        let (src, l) = SimRead::new(&b, plan.clone());
        source::install(&plan, &l);
        let reader = yary::reader::from_read(src);
        // a refused consumer is an ended one, too
        let mut refused = None;
        if s.one_in(8) {
            cx.hit("refused_consumer");
            let mut first = yary::event::from_reader_with(&reader, log::flags(lazy));
            let k = s.range(1, 4);
            for _ in 0..k {
                let _ = first.iter().next();
            }
            let l2 = l.clone();
            refused = Some(go(s, cx, &reader, lazy, b.len(), &move || l2.borrow().reads)?);
            if refused == Some(End::Clean) {
                return viol("refused consumer ended cleanly", String::new());
            }
        }
        let l2 = l.clone();
        let r = match refused {
            Some(e) => Ok(e),
            None => go(s, cx, &reader, lazy, b.len(), &move || l2.borrow().reads),
        };
        source::uninstall();
        let sl = ctx::take(&l);
        cx.account(&b, &sl);
        r?
    };
    match end {
        End::Err(Cat::IO) => cx.hit("ended:IO"),
        End::Err(Cat::Syntax) => cx.hit("ended:Syntax"),
        End::Err(Cat::Data) => cx.hit("ended:Data"),
        End::Err(Cat::EOF) => cx.hit("ended:EOF"),
        _ => cx.hit("ended:cleanly"),
    }
    cx.nontrivial = matches!(end, End::Err(_));
    Ok(())
}
