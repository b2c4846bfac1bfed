use super::{c02_model, util};
use crate::choice::Src;
use crate::ctx::{self, viol, Ctx, R};
use crate::doc;
use crate::gen;
use crate::large;
use crate::log::{End, Ev, Item, Log, St};

fn shift(i: &Item, by: usize) -> Item {
    Item { ev: i.ev.clone(), start: i.start + by, end: i.end + by }
}

/// Each document of a model stream, alone and in its place
fn in_place(s: &mut Src, cx: &mut Ctx) -> R {
    let mut o = doc::Opts::gen(s);
    if o.big != 2 {
        o.docs = s.range(2, 4);
    }
    let d = doc::stream(s, o);
    let c = util::of(s, cx, d.text.clone());
    cx.nontrivial = d.docs.len() > 1;
    let all = if s.one_in(3) { ctx::borrowed(cx, &c.text, false) } else { ctx::stream(cx, c.text.as_bytes(), &c.plan, false) };
    c02_model::expect("documents together", &c.text, &d.evs, &all)?;
    for x in &d.docs {
        let t = &d.text[x.start..x.end];
        cx.hit("documents_alone");
        let alone = ctx::borrowed(cx, t, false);
        if alone.end != End::Clean {
            return viol("document alone is refused", format!("{:?} {} for {:?}", alone.end, alone.msg, t));
        }
        let want = &all.items[x.ev_start..x.ev_end];
        let got = &alone.items[1..alone.items.len() - 1];
        if want.len() != got.len() {
            return viol("document alone gives other events", format!("{} rather than {} for {:?}", got.len(), want.len(), t));
        }
        for (w, g) in want.iter().zip(got) {
            let g2 = shift(g, x.start);
            // where an unmarked document ends is seen at what follows it
            let loose = matches!(w.ev, Ev::DocEnd { .. } | Ev::MapEnd | Ev::SeqEnd | Ev::DocStart { .. }) || matches!(&w.ev, Ev::Scalar(_, _, st, v) if v.is_empty() || matches!(st, St::Literal | St::Folded));
            if w.ev != g2.ev || (!loose && (w.start != g2.start || w.end != g2.end)) {
                return viol("document alone gives other events", format!("{:?} {}..{} rather than {:?} {}..{} for {:?}", g2.ev, g2.start, g2.end, w.ev, w.start, w.end, t));
            }
        }
    }
    Ok(())
}

/// Any content which is complete, then any other
fn any(s: &mut Src, cx: &mut Ctx) -> R {
    let a = gen::content(s);
    let b = gen::content(s);
    // only the stream's beginning may have a byte order mark
    let b = b.trim_start_matches('\u{feff}').to_string();
    let nl = if a.ends_with('\r') { "\r" } else { "\n" };
    let a = format!("{}{}...{}", a, nl, nl);
    let wa = ctx::borrowed(cx, &a, false);
    if wa.end != End::Clean {
        cx.hit("first_part_not_valid");
        return Ok(());
    }
    let wb = ctx::borrowed(cx, &b, false);
    // a stream without any document is given an empty one
    let none = |l: &Log| match (l.items.get(1), l.items.get(2)) {
        (Some(x), Some(y)) => matches!(x.ev, Ev::DocStart { implicit: true, .. }) && matches!(y.ev, Ev::DocEnd { .. }),
        _ => false,
    };
    if none(&wb) {
        return Ok(());
    }
    let t = format!("{}{}", a, b);
    let c = util::of(s, cx, t);
    cx.nontrivial = wb.items.len() > 3;
    let both = if s.one_in(3) { ctx::borrowed(cx, &c.text, false) } else { ctx::stream(cx, c.text.as_bytes(), &c.plan, false) };
    let n = if none(&wa) { 1 } else { wa.items.len() - 1 };
    let mut want: Vec<Item> = wa.items[..n].to_vec();
    want.extend(wb.items.iter().skip(1).map(|i| shift(i, a.len())));
    for i in 0..want.len().max(both.items.len()) {
        let (w, g) = (want.get(i), both.items.get(i));
        if w != g {
            return viol("content after a document end reads differently", format!("event {}: {} rather than {} ({:?} {}, alone {:?} {})", i, crate::log::si(g), crate::log::si(w), both.end, both.msg, wb.end, wb.msg));
        }
    }
    if both.end != wb.end || both.msg != wb.msg {
        return viol("content after a document end ends differently", format!("{:?} {} rather than {:?} {}", both.end, both.msg, wb.end, wb.msg));
    }
    Ok(())
}

pub fn run(s: &mut Src, cx: &mut Ctx) -> R {
    if s.one_in(500) {
        // more documents than anything counts to
        let l = large::documents(s);
        let got = if s.coin() { util::large_text(cx, &l, false) } else { util::large_stream(s, cx, &l, false) };
        return c02_model::expect("many documents", &l.text, &l.evs, &got);
    }
    if s.coin() {
        in_place(s, cx)
    } else {
        any(s, cx)
    }
}
