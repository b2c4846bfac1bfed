//! Normalised, comparable records of what a consumer saw.

use std::borrow::Cow;
use std::fmt::Write;
use yary::error::{Category, Error};
use yary::event::types::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum K {
    Root,
    Entry,
    Key,
    Value,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum St {
    Plain,
    Single,
    Double,
    Literal,
    Folded,
}

/// Node properties: anchor and tag
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Props {
    pub anchor: Option<String>,
    pub tag: Option<(String, String)>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    StreamStart,
    StreamEnd,
    DocStart { version: (u8, u8), tags: Vec<(String, String)>, implicit: bool },
    DocEnd { implicit: bool },
    Alias(String),
    Scalar(Props, K, St, String),
    /// Lazy scalar whose evaluation failed
    BadScalar(Props, K, Cat),
    /// Lazy scalar left alone
    Lazy(Props, K),
    MapStart(Props, K),
    MapEnd,
    SeqStart(Props, K),
    SeqEnd,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Item {
    pub ev: Ev,
    pub start: usize,
    pub end: usize,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum End {
    Clean,
    Err(Cat),
    /// Stopped by the harness: more events than any content can have
    Runaway,
    /// Stopped on purpose
    Stopped,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Cat {
    IO,
    Syntax,
    Data,
    EOF,
}
pub fn cat(c: Category) -> Cat {
    match c {
        Category::IO => Cat::IO,
        Category::Syntax => Cat::Syntax,
        Category::Data => Cat::Data,
        Category::EOF => Cat::EOF,
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Log {
    pub items: Vec<Item>,
    pub end: End,
    /// How the error describes itself
    pub msg: String,
}

pub fn kind(k: NodeKind) -> K {
    match k {
        NodeKind::Root => K::Root,
        NodeKind::Entry => K::Entry,
        NodeKind::Key => K::Key,
        NodeKind::Value => K::Value,
    }
}
pub fn style(s: ScalarStyle) -> St {
    match s {
        ScalarStyle::Plain => St::Plain,
        ScalarStyle::SingleQuote => St::Single,
        ScalarStyle::DoubleQuote => St::Double,
        ScalarStyle::Literal => St::Literal,
        ScalarStyle::Folded => St::Folded,
    }
}
/// Copy text that may (if the code is broken) not be valid UTF-8 any more
pub fn text(s: &Cow<'_, str>) -> String {
    let b: &[u8] = s.as_bytes();
    String::from_utf8_lossy(b).into_owned()
}
pub fn props(a: &Option<Slice<'_>>, t: &Option<(Slice<'_>, Slice<'_>)>) -> Props {
    Props { anchor: a.as_ref().map(text), tag: t.as_ref().map(|(a, b)| (text(a), text(b))) }
}

/// What to do with lazy scalars
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Eval {
    Now,
    Leave,
}

pub fn scalar_ev(p: Props, k: K, s: &Scalar<'_>) -> Ev {
    let mut t = text(s.data());
    // every way of reading it is the same
    let (r, d): (&str, &str) = (s.as_ref(), s);
    if r.as_bytes() != s.data().as_bytes() || d.as_bytes() != s.data().as_bytes() {
        t = format!("{:?}, as_ref() {:?}, deref() {:?}", t, r.as_bytes(), d.as_bytes());
    }
    Ev::Scalar(p, k, style(s.style()), t)
}

pub fn item(e: &mut Event<'_>, eval: Eval) -> Item {
    let (start, end) = (e.start(), e.end());
    let ev = match e.data_mut() {
        EventData::StreamStart(_) => Ev::StreamStart,
        EventData::StreamEnd => Ev::StreamEnd,
        EventData::DocumentStart(d) => {
            let mut tags: Vec<_> = d.directives.tags.iter().map(|(a, b)| (text(a), text(b))).collect();
            tags.sort();
            Ev::DocStart { version: (d.directives.version.major, d.directives.version.minor), tags, implicit: d.implicit }
        }
        EventData::DocumentEnd(d) => Ev::DocEnd { implicit: d.implicit },
        EventData::Alias(a) => Ev::Alias(text(&a.name)),
        EventData::Scalar(n) => {
            let p = props(&n.anchor, &n.tag);
            let k = kind(n.kind);
            if eval == Eval::Now {
                match n.content.evaluate_by_ref() {
                    Ok(s) => scalar_ev(p, k, s),
                    Err(e) => Ev::BadScalar(p, k, cat(e.classify())),
                }
            } else {
                match &n.content {
                    ScalarLike::Eager(s) => scalar_ev(p, k, s),
                    ScalarLike::Lazy(_) => Ev::Lazy(p, k),
                }
            }
        }
        EventData::MappingStart(n) => Ev::MapStart(props(&n.anchor, &n.tag), kind(n.kind)),
        EventData::MappingEnd => Ev::MapEnd,
        EventData::SequenceStart(n) => Ev::SeqStart(props(&n.anchor, &n.tag), kind(n.kind)),
        EventData::SequenceEnd => Ev::SeqEnd,
    };
    Item { ev, start, end }
}

pub fn err(e: &Error) -> End {
    End::Err(cat(e.classify()))
}

pub fn max_events(len: usize) -> usize {
    64 + 8 * len
}

pub fn flags(lazy: bool) -> yary::event::flag::Flags {
    use yary::event::flag::*;
    if lazy {
        Flags::new().no_lazy().nil().lazy()
    } else {
        (O_NIL | O_LAZY).no_lazy()
    }
}

/// Drain a source with the plainest consumer
pub fn drain<R: yary::reader::Read>(r: &R, lazy: bool, len: usize) -> Log {
    drain_raw(r, lazy, len).0
}

pub fn drain_raw<R: yary::reader::Read>(r: &R, lazy: bool, len: usize) -> (Log, Option<Error>) {
    let mut ev = if lazy { yary::event::from_reader_with(r, flags(lazy)) } else { yary::event::from_reader(r) };
    let mut items = Vec::new();
    let max = max_events(len);
    for e in ev.iter() {
        match e {
            Ok(mut e) => items.push(item(&mut e, Eval::Now)),
            Err(e) => return (Log { end: err(&e), items, msg: e.to_string() }, Some(e)),
        }
        if items.len() > max {
            return (Log { items, end: End::Runaway, msg: String::new() }, None);
        }
    }
    (Log { items, end: End::Clean, msg: String::new() }, None)
}

pub fn show(l: &Log) -> String {
    let mut s = String::new();
    for i in &l.items {
        let _ = writeln!(s, "{}..{} {:?}", i.start, i.end, i.ev);
    }
    let _ = writeln!(s, "end: {:?} {}", l.end, l.msg);
    s
}

pub fn first_diff(a: &[Item], b: &[Item]) -> Option<String> {
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) if x == y => {}
            (x, y) => return Some(format!("event {}: {} vs {}", i, si(x), si(y))),
        }
    }
    None
}
pub fn si(x: Option<&Item>) -> String {
    match x {
        Some(i) => format!("{}..{} {:?}", i.start, i.end, i.ev),
        None => "(none)".into(),
    }
}
