use super::util;
use crate::choice::Src;
use crate::ctx::{self, viol, Ctx, R};
use crate::log::End;

pub fn run(s: &mut Src, cx: &mut Ctx) -> R {
    let b = util::bytes(s);
    let (plan, _) = util::plan(s, &b);
    let lazy = s.one_in(4);
    cx.case(&b);
    cx.case(format!("{:?}", plan).as_bytes());
    cx.note(|| format!("content: {:?}", String::from_utf8_lossy(&b)));
    let (got, l) = ctx::stream_with(cx, &b, &plan, lazy);
    if got.end == End::Runaway {
        return viol("more events than the content can have", format!("{} events from {} bytes", got.items.len(), b.len()));
    }
    if l.eof_reads > 8 {
        return viol("the end of the stream was read again and again", format!("{} times", l.eof_reads));
    }
    // every data read delivers at least one byte; around each refill the
    // source may be asked a bounded number of times more
    let floor = l.delivered as u64 + 8;
    let refills = l.refills;
    if refills > floor {
        return viol("refills without progress", format!("{} refills for {} bytes", refills, l.delivered));
    }
    let reads = l.reads - l.interrupts;
    if reads > 2 * floor + 2 * refills {
        return viol("reads without progress", format!("{} reads for {} bytes", reads, l.delivered));
    }
    let all = l.cuts.iter().any(|&k| k > 0 && k < b.len());
    cx.nontrivial = all;
    Ok(())
}
