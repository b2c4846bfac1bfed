use super::util;
use crate::choice::Src;
use crate::ctx::{self, viol, Ctx, R};
use crate::log::{End, Ev, Log, K};
use crate::source;

enum F {
    Seq,
    /// Keys and values seen
    Map(usize),
}

/// The documented production, with the placement of each node
pub fn grammar(l: &Log, len: usize) -> R {
    let mut st = 0; // 0 before, 1 stream, 2 document, 3 document with its node, 4 after
    let mut stack: Vec<F> = Vec::new();
    let mut docs = 0;
    let mut last = 0usize;
    for (n, i) in l.items.iter().enumerate() {
        let bad = |w: &str| -> R { viol(w, format!("event {}: {:?}", n, i.ev)) };
        if i.end < i.start || i.start < last || i.end > len {
            return viol("position goes back or beyond the content", format!("event {}: {}..{} after {} in {} bytes: {:?}", n, i.start, i.end, last, len, i.ev));
        }
        last = i.start;
        let node = match &i.ev {
            Ev::Scalar(_, k, ..) | Ev::BadScalar(_, k, ..) | Ev::Lazy(_, k) | Ev::MapStart(_, k) | Ev::SeqStart(_, k) => Some(Some(*k)),
            Ev::Alias(_) => Some(None),
            _ => None,
        };
        if st == 4 {
            return bad("event after StreamEnd");
        }
        if let Some(k) = node {
            if st != 2 && st != 3 {
                return bad("node outside a document");
            }
            let want = match stack.last_mut() {
                None => {
                    if st == 3 {
                        return bad("second root node");
                    }
                    st = 3;
                    K::Root
                }
                Some(F::Seq) => K::Entry,
                Some(F::Map(n)) => {
                    *n += 1;
                    if *n % 2 == 1 {
                        K::Key
                    } else {
                        K::Value
                    }
                }
            };
            if let Some(k) = k {
                if k != want {
                    return viol("wrong node kind", format!("event {}: {:?} where {:?} was due: {:?}", n, k, want, i.ev));
                }
            }
        }
        match &i.ev {
            Ev::StreamStart => {
                if st != 0 {
                    return bad("StreamStart twice");
                }
                st = 1;
            }
            Ev::StreamEnd => {
                if st != 1 {
                    return bad("StreamEnd inside a document");
                }
                if docs == 0 {
                    return bad("stream without documents");
                }
                st = 4;
            }
            Ev::DocStart { .. } => {
                if st != 1 {
                    return bad("DocumentStart inside a document or outside the stream");
                }
                docs += 1;
                st = 2;
            }
            Ev::DocEnd { .. } => {
                if (st != 2 && st != 3) || !stack.is_empty() {
                    return bad("DocumentEnd with open collections or outside a document");
                }
                st = 1;
            }
            Ev::MapStart(..) => stack.push(F::Map(0)),
            Ev::SeqStart(..) => stack.push(F::Seq),
            Ev::MapEnd => match stack.pop() {
                Some(F::Map(n)) if n % 2 == 0 => {}
                Some(F::Map(_)) => return bad("mapping with a key but no value"),
                _ => return bad("MappingEnd without its start"),
            },
            Ev::SeqEnd => match stack.pop() {
                Some(F::Seq) => {}
                _ => return bad("SequenceEnd without its start"),
            },
            _ => {}
        }
    }
    match l.end {
        End::Clean if st != 4 => viol("clean end before StreamEnd", format!("after {} events", l.items.len())),
        End::Err(_) if st == 4 => viol("error after StreamEnd", l.msg.clone()),
        End::Runaway => viol("more events than the content can have", format!("{}", l.items.len())),
        _ => Ok(()),
    }
}

pub fn run(s: &mut Src, cx: &mut Ctx) -> R {
    let b = util::bytes(s);
    let (mut plan, hot) = util::plan(s, &b);
    if s.one_in(4) {
        plan.fault = Some(source::gen_fault(s, b.len(), &hot));
    }
    let lazy = s.one_in(4);
    cx.case(&b);
    cx.case(format!("{:?}", plan).as_bytes());
    cx.note(|| format!("content: {:?}", String::from_utf8_lossy(&b)));
    let got = match std::str::from_utf8(&b) {
        Ok(t) if s.one_in(3) => ctx::borrowed(cx, t, lazy),
        _ => ctx::stream(cx, &b, &plan, lazy),
    };
    cx.nontrivial = got.items.len() > 4;
    if got.end == End::Clean {
        cx.hit("clean_ends");
    } else {
        cx.hit("error_ends");
    }
    grammar(&got, b.len())
}
