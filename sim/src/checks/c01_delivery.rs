use super::util;
use crate::choice::Src;
use crate::ctx::{self, Ctx, R};
use crate::gen;
use crate::large;
use crate::log;

pub fn run(s: &mut Src, cx: &mut Ctx) -> R {
    if s.one_in(400) {
        let l = large::gen(s);
        let lazy = s.one_in(3);
        let want = util::large_text(cx, &l, lazy);
        let got = util::large_stream(s, cx, &l, lazy);
        return util::same_exact("large stream against string", &want, &got);
    }
    let c = util::case(s, cx);
    let lazy = s.one_in(3);
    let want = ctx::borrowed(cx, &c.text, lazy);
    let got = ctx::stream(cx, c.text.as_bytes(), &c.plan, lazy);
    util::same_exact("stream against string", &want, &got)?;
    if s.one_in(8) {
        match yary::reader::try_from_bytes(c.text.as_bytes()) {
            Err(e) => return ctx::viol("slice refused", e.to_string()),
            Ok(r) => util::same_exact("slice against string", &want, &log::drain(&r, lazy, c.text.len()))?,
        }
    }
    // the shipped refill sizes, cut inside the content by position alone
    if s.one_in(16) {
        let mut cut = if !c.hot.is_empty() && s.coin() { c.hot[s.below(c.hot.len())] } else { s.below(c.text.len() + 1) };
        cut = cut.min(c.text.len());
        if let Some(t) = gen::pad_for_8k(&c.text, cut) {
            cx.hit("shipped_refill_size");
            let want = ctx::borrowed(cx, &t, lazy);
            let p = util::reads_only(c.plan.clone());
            let got = ctx::stream(cx, t.as_bytes(), &p, lazy);
            util::same_exact("stream with shipped refills against string", &want, &got)?;
        }
    }
    Ok(())
}
