use super::util;
use crate::choice::Src;
use crate::ctx::{self, viol, Ctx, R};
use crate::log::{self, Cat, End};
use crate::source::{self, Payload, SimRead};

pub fn run(s: &mut Src, cx: &mut Ctx) -> R {
    let mut c = util::case(s, cx);
    let text = c.text.clone();
    let lazy = s.one_in(4);
    let want = ctx::borrowed(cx, &text, lazy);
    let mut hot = c.hot.clone();
    // read and refill boundaries are worth failing at, too
    if let Some(ch) = &c.plan.chunks {
        let mut t = 0usize;
        for k in ch {
            t = t.saturating_add(*k);
            if t <= text.len() {
                hot.push(t);
                hot.push(t - 1);
            }
        }
    }
    let f = source::gen_fault(s, text.len(), &hot);
    c.plan.fault = Some(f);
    cx.case(format!("{:?}", f).as_bytes());

    let (src, l) = SimRead::new(text.as_bytes(), c.plan.clone());
    source::install(&c.plan, &l);
    let reader = yary::reader::from_read(src);
    let (got, e) = log::drain_raw(&reader, lazy, text.len());
    source::uninstall();
    let l = ctx::take(&l);
    cx.account(text.as_bytes(), &l);
    cx.nontrivial = !l.fired.is_empty();
    cx.see_log(&got);
    cx.note(|| format!("stream ({:?}):\n{}  source: {:?}", c.plan, log::show(&got), l));

    if l.fired.is_empty() {
        util::same("fault not reached", &want, &got)?;
        if got.end == End::Clean && f.at <= text.len() {
            return viol("ended cleanly without reading the stream to its end", format!("fault at {} of {} not reached", f.at, text.len()));
        }
        return Ok(());
    }
    util::prefix("events before the fault", &want.items, &got.items)?;
    if got.end != End::Err(Cat::IO) {
        return viol("read error not reported", format!("read failed with {:?} at {}, production ended with {:?} {}", f.kind, l.fired[0].0, got.end, got.msg));
    }
    if l.reads_after_fault > 0 {
        return viol("stream read again after it failed", format!("{} reads", l.reads_after_fault));
    }
    let e = e.unwrap();
    let given = f.kind.error(f.id).unwrap();
    let payload = |e: &std::io::Error| e.get_ref().and_then(|e| e.downcast_ref::<Payload>()).map(|p| p.0);
    let same = |e: &std::io::Error| e.kind() == given.kind() && e.raw_os_error() == given.raw_os_error() && payload(e) == payload(&given) && e.to_string() == given.to_string();
    // it is what caused the error
    let mut cause = std::error::Error::source(&e);
    while let Some(c) = cause {
        match c.downcast_ref::<std::io::Error>() {
            Some(io) if same(io) => break,
            _ => cause = c.source(),
        }
    }
    if cause.is_none() {
        return viol("read error is not the error's source", format!("{:?} has no source {:?}", e, given));
    }
    let io: std::io::Error = e.into();
    if io.kind() != given.kind() || io.raw_os_error() != given.raw_os_error() {
        return viol("read error changed kind", format!("{:?} became {:?}", given, io));
    }
    if !same(&io) {
        return viol("read error lost its payload", format!("{:?} instead of {:?}", io, given));
    }
    Ok(())
}
