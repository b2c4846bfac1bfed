//! Marks say where an event's text is.

use super::util;
use crate::choice::Src;
use crate::ctx::{self, viol, Ctx, R};
use crate::gen;

pub fn run(s: &mut Src, cx: &mut Ctx) -> R {
    let d = gen::model(s);
    let c = util::of(s, cx, d.text.clone());
    let lazy = s.one_in(3);
    let string = s.one_in(4);
    cx.hit(if string { "string_source" } else { "stream_source" });
    let got = if string { ctx::borrowed(cx, &c.text, lazy) } else { ctx::stream(cx, c.text.as_bytes(), &c.plan, lazy) };
    cx.nontrivial = d.spans.len() > 3;
    let mut last = (0, 0);
    let mut before = 0;
    for (i, it) in got.items.iter().enumerate() {
        // differences are C02's business
        if d.evs.get(i) != Some(&it.ev) {
            return Ok(());
        }
        let show = |a: usize, b: usize| format!("event {} {:?} has marks {}..{}, its text {:?} is at {}..{}, the one before it ends at {} in {:?}", i, it.ev, it.start, it.end, c.text.get(a..b), a, b, last.1, c.text);
        if let Some(&(_, a, b)) = d.spans.iter().find(|m| m.0 == i) {
            if it.end < b {
                return viol("an event's end mark is before the end of its text", show(a, b));
            }
            if before > a {
                return viol("an event's end mark is behind text that follows", show(a, b));
            }
            if it.start < last.1 || it.start > it.end {
                return viol("an event's start mark is before its text", show(a, b));
            }
            before = it.end;
            last = (a, b);
            cx.add("marks_compared", 1);
        }
    }
    Ok(())
}
