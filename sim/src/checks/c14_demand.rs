//! Endless streams: what is taken from the source when an event is
//! delivered.

use super::util;
use crate::choice::Src;
use crate::ctx::{self, viol, Ctx, R};
use crate::doc;
use crate::log;
use crate::source::{self, Plan, SimRead};

/// A prefix, and a unit repeated for ever
fn endless(s: &mut Src) -> (String, String) {
    const U: [(&str, &str); 16] = [
        ("", "- a\n"),
        ("", "- a: b\n  c: 'd'\n"),
        ("k:\n", "  - x\n"),
        ("", "- [a, b, {c: d}]\n"),
        ("", "? a\n: b\n"),
        ("", "key: value\n"),
        ("[", "a, b, "),
        ("{", "a: b, c: d,\n "),
        ("[[", "'x', \"y\",\n"),
        ("", "--- a\n"),
        ("", "---\na: b\n...\n"),
        ("", "- |\n  text\n  more\n"),
        ("", "- >-\n  text\n\n  more\n- b\n"),
        ("", "- &a b # comment\n- *a\n"),
        ("", "- !t 'x'\n-\n- ? a\n"),
        ("", "- - - deep\n    - x\n"),
    ];
    if s.below(3) > 0 {
        let (a, b) = U[s.below(U.len())];
        // inside any number of flow collections
        if a != "k:\n" && (!a.is_empty() || b.starts_with("- a\n")) && s.one_in(4) {
            let n = s.range(1, 120);
            let d: String = (0..n).map(|_| s.pick(&["[", "{a: ", "[[", "[ "])).collect();
            return (format!("{}{}", d, a), if a.is_empty() { "a, ".into() } else { b.into() });
        }
        return (a.into(), b.into());
    }
    // documents of the model, again and again
    let mut o = doc::Opts::gen(s);
    o.docs = 1;
    o.directives = false;
    o.long = false;
    o.big = 0;
    o.mark = false;
    let d = doc::stream(s, o);
    let nl = if d.text.contains('\r') && !d.text.contains('\n') { "\r" } else { "\n" };
    (String::new(), format!("---{}{}{}...{}", nl, if d.docs[0].explicit_start { format!("x{}...{}{}", nl, nl, d.text) } else { d.text.clone() }, nl, nl))
}

pub fn run(s: &mut Src, cx: &mut Ctx) -> R {
    let (prefix, unit) = endless(s);
    let len = prefix.len() + unit.len();
    let shipped = s.one_in(150);
    let plan = if shipped {
        let p = source::gen_plan(s, 64, &[]);
        util::reads_only(p)
    } else {
        let mut p = Plan::whole();
        let n = s.range(1, 3);
        p.chunks = Some((0..n).map(|_| if s.coin() { s.range(1, 8) } else { s.range(1, 300) }).collect());
        p.acts = source::gen_plan(s, 64, &[]).acts;
        p
    };
    let lazy = s.one_in(3);
    let polls = if shipped { 20_000 } else { s.range(1, 400) };
    // a few copies show how long its tokens are
    let copies = 3;
    let few = format!("{}{}", prefix, unit.repeat(copies));
    let base = ctx::borrowed(cx, &few, lazy);
    let mut token = 0usize;
    let mut last = 0usize;
    for i in &base.items {
        token = token.max(i.end - i.start).max(i.start.saturating_sub(last));
        last = i.end;
    }
    token = token.max(unit.split('\n').map(|l| l.len()).max().unwrap_or(0));
    cx.case(few.as_bytes());
    cx.case(format!("{:?}", plan).as_bytes());
    cx.note(|| format!("prefix {:?}, then endlessly {:?}; longest token or gap {}\nplan: {:?}", prefix, unit, token, plan));
    let chunk = plan.chunks.as_ref().map(|c| *c.iter().max().unwrap()).unwrap_or(0);

    let (src, l) = SimRead::endless(format!("{}{}", prefix, unit).as_bytes(), prefix.len(), plan.clone());
    source::install(&plan, &l);
    let reader = yary::reader::from_read(src);
    let mut ev = yary::event::from_reader_with(&reader, log::flags(lazy));
    if s.coin() {
        let _ = ev.iter();
    } else {
        ev = ev.into_iter().into_inner();
    }
    if l.borrow().reads > 0 {
        source::uninstall();
        return viol("stream read before the first poll", format!("{} reads", l.borrow().reads));
    }
    let mut n = 0;
    let mut pos = 0;
    let mut r = Ok(());
    while n < polls {
        let e = ev.iter().next();
        let (taken, refills, largest, greed) = {
            let l = l.borrow();
            (l.delivered, l.refills as usize, l.largest, l.greed)
        };
        match e {
            // content that is not valid is not this property's business
            None | Some(Err(_)) => break,
            Some(Ok(e)) => {
                // an event's position is its text's; what follows it is not in it
                pos = pos.max(e.end());
                n += 1;
                let slack = if shipped { 1024 + 3 * token + 64 + 2 * largest } else { 256 + 2 * token + 2 * chunk };
                if taken > pos + slack {
                    r = viol("reads ahead without bound", format!("event {} ends at {}, {} bytes were taken (bound {}): {:?}", n, pos, taken, pos + slack, e.data()));
                    break;
                }
                if shipped && greed > (1 << 17) + (1 << 15) * refills {
                    r = viol("refill sizes grow without bound", format!("up to {} bytes asked for at once in {} refills, {} of them not accounted for by four times what was taken before", largest, refills, greed));
                    break;
                }
                if !shipped {
                    cx.max("largest_read_ahead_beyond_one_refill", taken.saturating_sub(pos + chunk) as u64);
                    cx.max("largest_read_ahead_beyond_one_refill_and_token", taken.saturating_sub(pos + chunk + token) as u64);
                }
            }
        }
    }
    source::uninstall();
    drop(ev);
    let sl = ctx::take(&l);
    cx.account(few.as_bytes(), &sl);
    cx.add("events_of_endless_streams", n as u64);
    if shipped {
        cx.hit("shipped_refill_size");
    }
    cx.see(&n.to_le_bytes());
    cx.see(&pos.to_le_bytes());
    cx.see(&sl.delivered.to_le_bytes());
    cx.nontrivial = n > 2;
    let _ = len;
    r
}
