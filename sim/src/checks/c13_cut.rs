use crate::choice::Src;
use crate::ctx::{self, viol, Ctx, R};
use crate::gen;
use crate::log::{Cat, End, Ev, Props};
use crate::source;

pub fn run(s: &mut Src, cx: &mut Ctx) -> R {
    let d = gen::model(s);
    cx.case(d.text.as_bytes());
    if d.opens.is_empty() {
        return Ok(());
    }
    let o = d.opens[s.below(d.opens.len())].clone();
    let mut k = match s.below(3) {
        0 => o.from,
        1 => o.to,
        _ => o.from + s.below(o.to - o.from + 1),
    };
    while !d.text.is_char_boundary(k) {
        k -= 1;
    }
    if k < o.from {
        return Ok(());
    }
    // a cut inside '' would leave the scalar's own closing quote
    if d.text.as_bytes()[..k].ends_with(b"'") && d.text.as_bytes().get(k) == Some(&b'\'') {
        return Ok(());
    }
    let cut = d.text[..k].to_string();
    cx.case(cut.as_bytes());
    let lazy = s.one_in(4);
    let borrow = s.one_in(3);
    let (plan, _) = {
        let hot: Vec<usize> = vec![k.saturating_sub(1).max(1), k.max(1), o.from.max(1)];
        (source::gen_plan(s, cut.len(), &hot), ())
    };
    cx.note(|| format!("content: {:?}\ncut at {} inside a {} ({}..{})", d.text, k, o.what, o.from, o.to));
    let got = if borrow { ctx::borrowed(cx, &cut, lazy) } else { ctx::stream(cx, cut.as_bytes(), &plan, lazy) };
    cx.hit(&format!("cut inside a {}", o.what));
    cx.nontrivial = true;
    match got.end {
        End::Err(Cat::EOF) => cx.hit("reported:EOF"),
        End::Err(Cat::Syntax) => cx.hit("reported:Syntax"),
        End::Err(_) => return viol("cut content misreported", format!("inside a {}: {:?} {}", o.what, got.end, got.msg)),
        _ => return viol("cut content accepted", format!("inside a {}: {:?}", o.what, cut)),
    }
    // nothing invented: what was read is what was written, but for the
    // node the cut falls in, and what its absence implies
    let differs = got.items.iter().enumerate().position(|(i, it)| d.evs.get(i) != Some(&it.ev));
    if let Some(i) = differs {
        // where the last word before the cut starts
        let word = cut.trim_end().rfind(|c: char| c.is_ascii_whitespace() || ",[]{}".contains(c)).map_or(0, |p| p + 1);
        for x in &got.items[i..] {
            let implied = match &x.ev {
                Ev::Scalar(p, _, _, t) => t.is_empty() && *p == Props::default(),
                Ev::MapStart(..) | Ev::SeqStart(..) | Ev::MapEnd | Ev::SeqEnd => true,
                _ => false,
            };
            if !implied && x.end + 1 < word {
                return viol("cut content gives other events", format!("event {}: written {:?}, read {:?}", i, d.evs.get(i), got.items[i].ev));
            }
        }
    }
    Ok(())
}
