use super::util;
use crate::choice::Src;
use crate::ctx::{self, viol, Ctx, R};
use crate::gen;
use crate::large;
use crate::log::{End, Ev, Log};

const FEATS: [&str; 16] = [
    "plain_multi_line", "single_quoted", "double_quoted", "literal", "folded", "flow_collection", "block_collection", "explicit_key", "alias", "node_properties", "directives", "many_documents",
    "comments", "quoted_multi_line", "escapes", "byte_order_mark",
];

/// Contents with a lot of something
fn large(s: &mut Src, cx: &mut Ctx) -> R {
    let l = large::gen(s);
    let lazy = s.one_in(4);
    let got = if s.coin() { util::large_text(cx, &l, lazy) } else { util::large_stream(s, cx, &l, lazy) };
    expect("large content", &l.text, &l.evs, &got)
}

pub fn expect(what: &str, text: &str, want: &[Ev], got: &Log) -> R {
    for i in 0..want.len().max(got.items.len()) {
        let (w, g) = (want.get(i), got.items.get(i).map(|x| &x.ev));
        if w != g {
            return viol(
                &format!("{}: not what was written", what),
                format!("event {}: written {}, read {} (end {:?} {}) in {:?}", i, util::brief(&format!("{:?}", w)), util::brief(&format!("{:?}", g)), got.end, got.msg, util::brief(text)),
            );
        }
    }
    if got.end != End::Clean {
        return viol(&format!("{}: refused", what), format!("{:?} {} for {:?}", got.end, got.msg, util::brief(text)));
    }
    Ok(())
}

pub fn run(s: &mut Src, cx: &mut Ctx) -> R {
    if s.one_in(250) {
        return large(s, cx);
    }
    let d = gen::model(s);
    let c = util::of(s, cx, d.text.clone());
    cx.note(|| format!("written events: {:#?}", d.evs));
    for (i, f) in FEATS.iter().enumerate() {
        if d.feats & (1 << i) != 0 {
            cx.hit(f);
        }
    }
    cx.add("events_compared", d.evs.len() as u64);
    let how = s.below(4);
    let lazy = s.one_in(4);
    let got = if how == 0 { ctx::borrowed(cx, &c.text, lazy) } else { ctx::stream(cx, c.text.as_bytes(), &c.plan, lazy) };
    cx.nontrivial = d.evs.len() > 5;
    expect(if how == 0 { "string" } else { "stream" }, &c.text, &d.evs, &got)
}
