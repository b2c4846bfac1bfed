//! Shared pieces of the checks.

use crate::choice::Src;
use crate::ctx::{self, viol, Ctx, R};
use crate::gen;
use crate::large::{self, Large};
use crate::log::{self, Log};
use crate::source::{self, Plan, SimRead};

/// Content, its interesting offsets, and a delivery for it
pub struct Case {
    pub text: String,
    pub hot: Vec<usize>,
    pub plan: Plan,
}

pub fn plan(s: &mut Src, text: &[u8]) -> (Plan, Vec<usize>) {
    let hot = gen::hot(text);
    let p = source::gen_plan(s, text.len(), &hot);
    (p, hot)
}

pub fn case(s: &mut Src, cx: &mut Ctx) -> Case {
    let text = gen::content(s);
    of(s, cx, text)
}

pub fn of(s: &mut Src, cx: &mut Ctx, text: String) -> Case {
    let (plan, hot) = plan(s, text.as_bytes());
    cx.case(text.as_bytes());
    cx.case(format!("{:?}", plan).as_bytes());
    cx.note(|| format!("content: {:?}", text));
    Case { text, hot, plan }
}

/// The beginning and the end of a long text
pub fn brief(t: &str) -> String {
    let n = t.chars().count();
    if n < 1000 {
        return t.to_string();
    }
    t.chars().take(600).chain(" ... ".chars()).chain(t.chars().skip(n - 300)).collect()
}

/// A large content, read from a string
pub fn large_text(cx: &mut Ctx, l: &Large, lazy: bool) -> Log {
    cx.case(l.text.as_bytes());
    cx.note(|| format!("content: {} {}: {:?}", l.n, l.what, brief(&l.text)));
    cx.hit(&format!("large:{}", l.what));
    cx.max("large_bytes", l.text.len() as u64);
    cx.nontrivial = true;
    let r = yary::reader::from_utf8(&l.text);
    let out = log::drain(&r, lazy, l.text.len());
    cx.see(format!("{:?} {}", out.end, out.items.len()).as_bytes());
    out
}

/// A large content, read from a stream
pub fn large_stream(s: &mut Src, cx: &mut Ctx, l: &Large, lazy: bool) -> Log {
    let plan = large::plan(s, l.text.len());
    cx.case(l.text.as_bytes());
    cx.case(format!("{:?}", plan).as_bytes());
    cx.note(|| format!("content: {} {}: {:?}\nplan: {:?}", l.n, l.what, brief(&l.text), plan));
    cx.hit(&format!("large:{}", l.what));
    cx.max("large_bytes", l.text.len() as u64);
    cx.nontrivial = true;
    let (src, g) = SimRead::new(l.text.as_bytes(), plan.clone());
    source::install(&plan, &g);
    let reader = yary::reader::from_read(src);
    let out = log::drain(&reader, lazy, l.text.len());
    source::uninstall();
    drop(reader);
    let g = ctx::take(&g);
    cx.account(l.text.as_bytes(), &g);
    cx.see(format!("{:?} {}", out.end, out.items.len()).as_bytes());
    out
}

/// Reads only: the shipped refill sizes are left alone
pub fn reads_only(mut p: Plan) -> Plan {
    p.chunks = None;
    p.chunk_tail = false;
    p
}

pub fn same(what: &str, want: &Log, got: &Log) -> R {
    if let Some(d) = log::first_diff(&want.items, &got.items) {
        return viol(&format!("{}: events differ", what), format!("{} (expected end {:?} {}, got {:?} {})", d, want.end, want.msg, got.end, got.msg));
    }
    if want.end != got.end {
        return viol(&format!("{}: ends differ", what), format!("expected {:?} {}, got {:?} {}", want.end, want.msg, got.end, got.msg));
    }
    Ok(())
}

pub fn same_exact(what: &str, want: &Log, got: &Log) -> R {
    same(what, want, got)?;
    if want.msg != got.msg {
        return viol(&format!("{}: errors differ", what), format!("expected {}, got {}", want.msg, got.msg));
    }
    Ok(())
}

/// got's events are the first ones of want
pub fn prefix(what: &str, want: &[log::Item], got: &[log::Item]) -> R {
    for (i, g) in got.iter().enumerate() {
        if want.get(i) != Some(g) {
            return viol(&format!("{}: not a prefix", what), format!("event {}: {} vs {}", i, log::si(want.get(i)), log::si(Some(g))));
        }
    }
    Ok(())
}

/// Arbitrary bytes: usually text, sometimes corrupted
pub fn bytes(s: &mut Src) -> Vec<u8> {
    if s.one_in(40) {
        let n = s.range(1, 40);
        return (0..n).map(|_| s.below(256) as u8).collect();
    }
    let mut t = gen::content(s).into_bytes();
    if s.one_in(4) {
        corrupt(s, &mut t);
    }
    t
}

pub fn corrupt(s: &mut Src, t: &mut Vec<u8>) {
    const BAD: [&[u8]; 14] = [
        b"\xff", b"\xc0\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\x80", b"\xe2\x28", b"\xf0\x9f", b"\xc3", b"\xe0\x80\x80", b"\xf8\x88", b"\xf0\x80\x80\x80", b"\xc1\xbf", b"\xfe\xff",
        b"\xe2\x80",
    ];
    let at = s.below(t.len() + 1);
    match s.below(5) {
        0 => {
            let b = BAD[s.below(BAD.len())];
            for (i, x) in b.iter().enumerate() {
                t.insert(at + i, *x);
            }
        }
        1 if at < t.len() => t[at] ^= 1 << s.below(8),
        2 => {
            // cut inside a character, if there is one
            let m: Vec<usize> = (0..t.len()).filter(|&i| t[i] & 0xc0 == 0x80).collect();
            if m.is_empty() {
                t.push(0xc3);
            } else {
                let k = m[s.below(m.len())];
                t.truncate(k);
            }
        }
        3 => {
            // drop a byte of a character
            let m: Vec<usize> = (0..t.len()).filter(|&i| t[i] >= 0x80).collect();
            if m.is_empty() {
                t.insert(at, 0x80);
            } else {
                let k = m[s.below(m.len())];
                t.remove(k);
            }
        }
        _ => {
            let b = BAD[s.below(BAD.len())];
            t.extend_from_slice(b);
        }
    }
}
