use super::util;
use crate::choice::Src;
use crate::ctx::{viol, Ctx, R};
use crate::doc::Doc;
use crate::gen;
use crate::log;
use crate::source::{self, SimRead};
use std::borrow::Cow;
use std::collections::HashMap;
use yary::event::types::{Event, EventData};

/// Anchors and aliases are always verbatim; scalars when the model says so
fn walk<'de>(
    cx: &mut Ctx,
    evs: &mut dyn Iterator<Item = yary::error::Result<Event<'de>>>,
    d: &Doc,
    src: Option<&str>,
    how: usize,
) -> R {
    let verb: HashMap<usize, (usize, usize)> = d.verbatim.iter().map(|v| (v.event, (v.at, v.len))).collect();
    let check = |what: &str, i: usize, c: &Cow<'_, str>, at: Option<usize>| -> R {
        match c {
            Cow::Owned(o) => viol(&format!("{} was copied", what), format!("event {}: {:?}", i, o)),
            Cow::Borrowed(b) => {
                if let Some(t) = src {
                    let p = (b.as_ptr() as usize).wrapping_sub(t.as_ptr() as usize);
                    if !b.is_empty() && (p > t.len() || p + b.len() > t.len()) {
                        return viol(&format!("{} is not borrowed from the source", what), format!("event {}: {:?}", i, b));
                    }
                    if let Some(at) = at {
                        if !b.is_empty() && p != at {
                            return viol(&format!("{} is borrowed from elsewhere", what), format!("event {}: {:?} from {} instead of {}", i, b, p, at));
                        }
                    } else if !b.is_empty() && (p == 0 || !matches!(t.as_bytes()[p - 1], b'&' | b'*')) {
                        return viol(&format!("{} is borrowed from elsewhere", what), format!("event {}: {:?} from {}", i, b, p));
                    }
                }
                Ok(())
            }
        }
    };
    // tags written without escapes are verbatim
    let tag = |cx: &mut Ctx, i: usize, handle: &Cow<'_, str>, rest: &Cow<'_, str>, node: bool| -> R {
        if d.escaped.contains(&**rest) {
            return Ok(());
        }
        cx.hit(if node { "tags" } else { "tag directives" });
        for (what, c) in [("tag handle", handle), ("tag", rest)] {
            match c {
                Cow::Owned(o) => return viol(&format!("{} was copied", what), format!("event {}: {:?} of {:?} {:?}", i, o, handle, rest)),
                Cow::Borrowed(b) => {
                    if let Some(t) = src {
                        let p = (b.as_ptr() as usize).wrapping_sub(t.as_ptr() as usize);
                        if !b.is_empty() && (p > t.len() || p + b.len() > t.len()) {
                            return viol(&format!("{} is not borrowed from the source", what), format!("event {}: {:?}", i, b));
                        }
                        let before = &t.as_bytes()[..p.min(t.len())];
                        if node && what == "tag" && !b.is_empty() && !before.ends_with(if handle.is_empty() { b"!<" } else { handle.as_bytes() }) {
                            return viol(&format!("{} is borrowed from elsewhere", what), format!("event {}: {:?} from {}", i, b, p));
                        }
                    }
                }
            }
        }
        Ok(())
    };
    let mut i = 0;
    for e in evs {
        let mut e = match e {
            Ok(e) => e,
            // not this property's business
            Err(_) => return Ok(()),
        };
        // compare with what was written: C02 reports differences
        let mut t = e.clone();
        let it = log::item(&mut t, log::Eval::Now);
        cx.see(format!("{:?}", it).as_bytes());
        if d.evs.get(i) != Some(&it.ev) {
            return Ok(());
        }
        let v = verb.get(&i).copied();
        match e.data() {
            EventData::DocumentStart(ds) => {
                let mut all: Vec<_> = ds.directives.tags.iter().collect();
                all.sort();
                for (h, p) in all {
                    if !matches!((&**h, &**p), ("!", "!") | ("!!", "tag:yaml.org,2002:")) {
                        tag(cx, i, h, p, false)?;
                    }
                }
            }
            EventData::Scalar(n) => {
                if let Some((h, t)) = &n.tag {
                    tag(cx, i, h, t, true)?;
                }
            }
            EventData::MappingStart(n) => {
                if let Some((h, t)) = &n.tag {
                    tag(cx, i, h, t, true)?;
                }
            }
            EventData::SequenceStart(n) => {
                if let Some((h, t)) = &n.tag {
                    tag(cx, i, h, t, true)?;
                }
            }
            _ => {}
        }
        match e.data_mut() {
            EventData::Alias(a) => {
                check("alias", i, &a.name, v.map(|v| v.0))?;
                cx.hit("aliases");
            }
            EventData::Scalar(n) => {
                if let Some(a) = &n.anchor {
                    check("anchor", i, a, None)?;
                    cx.hit("anchors");
                }
                if let Some((at, _)) = v {
                    cx.hit("scalars");
                    let s = match how {
                        0 => n.content.evaluate_by_ref().map(|s| s.data().clone()),
                        _ => n.content.clone().evaluate().map(|mut s| std::mem::replace(s.data_mut(), Cow::Borrowed(""))),
                    };
                    match s {
                        Ok(c) => check("scalar", i, &c, Some(at))?,
                        Err(_) => return Ok(()),
                    }
                }
            }
            EventData::MappingStart(n) => {
                if let Some(a) = &n.anchor {
                    check("anchor", i, a, None)?;
                    cx.hit("anchors");
                }
            }
            EventData::SequenceStart(n) => {
                if let Some(a) = &n.anchor {
                    check("anchor", i, a, None)?;
                    cx.hit("anchors");
                }
            }
            _ => {}
        }
        i += 1;
    }
    Ok(())
}

pub fn run(s: &mut Src, cx: &mut Ctx) -> R {
    let d = gen::model(s);
    let c = util::of(s, cx, d.text.clone());
    let lazy = s.coin();
    let how = s.below(2);
    cx.nontrivial = !d.verbatim.is_empty();
    match s.below(3) {
        0 => {
            cx.hit("string_source");
            let r = yary::reader::from_utf8(&c.text);
            let mut ev = yary::event::from_reader_with(&r, log::flags(lazy));
            walk(cx, &mut ev.iter(), &d, Some(&c.text), how)
        }
        1 => {
            cx.hit("slice_source");
            let r = match yary::reader::try_from_bytes(c.text.as_bytes()) {
                Ok(r) => r,
                Err(_) => return Ok(()),
            };
            let r = r.clone();
            let ev = yary::event::from_reader_with(&r, log::flags(lazy));
            walk(cx, &mut ev.into_iter(), &d, Some(&c.text), how)
        }
        _ => {
            cx.hit("stream_source");
            let (src, l) = SimRead::new(c.text.as_bytes(), c.plan.clone());
            source::install(&c.plan, &l);
            let r = yary::reader::from_read(src);
            let mut ev = yary::event::from_reader_with(&r, log::flags(lazy));
            let x = walk(cx, &mut ev.iter(), &d, None, how);
            source::uninstall();
            let sl = crate::ctx::take(&l);
            let nt = cx.nontrivial;
            cx.account(c.text.as_bytes(), &sl);
            cx.nontrivial = nt;
            x
        }
    }
}
