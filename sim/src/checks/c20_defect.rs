use super::util;
use crate::choice::Src;
use crate::ctx::{self, viol, Ctx, R};
use crate::doc::{self, Opts, DEFECTS};
use crate::log::{self, Cat, End, Ev};
use crate::source::{self, SimRead};
use std::io::ErrorKind;

/// A model stream which breaks one rule at a known place
pub fn run(s: &mut Src, cx: &mut Ctx) -> R {
    let mut o = Opts::gen(s);
    o.defect = s.range(1, DEFECTS.len() - 1) as u8;
    match o.defect {
        2 | 3 | 15 | 25 => o.props = true,
        4 => o.blocks = true,
        6 => o.directives = true,
        20 | 21 => o.docs = o.docs.max(2),
        8 | 9 | 18 | 19 | 23 => {
            o.flow = true;
            o.depth = o.depth.max(1);
        }
        11..=14 | 16 | 22 | 24 => {
            o.depth = o.depth.max(2);
            o.width = o.width.max(2);
            o.flow |= s.one_in(3);
        }
        _ => {}
    }
    let single = DEFECTS[o.defect as usize].1;
    let mut d = doc::stream(s, o.clone());
    for _ in 0..4 {
        if d.defect.is_some() {
            break;
        }
        d = doc::stream(s, o.clone());
    }
    let c = util::of(s, cx, d.text.clone());
    let x = match &d.defect {
        Some(x) => x.clone(),
        None => {
            cx.hit("no_defect_written");
            return Ok(());
        }
    };
    cx.note(|| format!("{:?}: {:?}\nwritten events: {:#?}", x, &d.text[x.at..], d.evs));
    cx.hit(&format!("defect: {}", x.what));
    cx.nontrivial = true;
    let (got, e) = if s.one_in(3) {
        log::drain_raw(&yary::reader::from_utf8(&c.text), false, c.text.len())
    } else {
        let (src, l) = SimRead::new(c.text.as_bytes(), c.plan.clone());
        source::install(&c.plan, &l);
        let reader = yary::reader::from_read(src);
        let r = log::drain_raw(&reader, false, c.text.len());
        source::uninstall();
        let sl = ctx::take(&l);
        cx.account(c.text.as_bytes(), &sl);
        r
    };
    cx.nontrivial = true;
    cx.see_log(&got);
    cx.note(|| log::show(&got));
    let what = x.what;
    // nothing but what was written before it
    for (i, it) in got.items.iter().enumerate() {
        if i < x.ev && d.evs.get(i) == Some(&it.ev) {
            continue;
        }
        for y in &got.items[i..] {
            let implied = match &y.ev {
                Ev::Scalar(_, _, _, t) => t.is_empty() && !single,
                Ev::MapEnd | Ev::SeqEnd | Ev::DocEnd { .. } => !single,
                _ => false,
            };
            if !implied {
                return viol("events behind a defect", format!("{}: event {} (of {} before it): written {:?}, read {:?} (end {:?} {}) in {:?}", what, i, x.ev, d.evs.get(i), y.ev, got.end, got.msg, c.text));
            }
        }
        break;
    }
    let ok = match got.end {
        End::Err(Cat::Syntax) => true,
        End::Err(Cat::Data) | End::Err(Cat::EOF) => !single,
        _ => false,
    };
    if !ok {
        return viol("defect not reported", format!("{}: ended with {:?} {} for {:?}", what, got.end, got.msg, c.text));
    }
    cx.hit(&format!("reported: {:?}", got.end));
    // the portable form of the error says the same
    let e = e.unwrap();
    let text = e.to_string();
    let io: std::io::Error = e.into();
    let want = match got.end {
        End::Err(Cat::Syntax) => ErrorKind::InvalidInput,
        End::Err(Cat::Data) => ErrorKind::InvalidData,
        _ => ErrorKind::UnexpectedEof,
    };
    if io.kind() != want || io.to_string() != text {
        return viol("converted error says otherwise", format!("{:?} {:?} became {:?} {:?}", got.end, text, io.kind(), io.to_string()));
    }
    Ok(())
}
