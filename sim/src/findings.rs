//! Known findings: genuine defects that are recorded rather than
//! repaired, each identified by the very input which shows it.

use std::path::Path;

use crate::log::{self, End, Ev};

fn unescape(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c != '\\' {
            o.push(c);
            continue;
        }
        match it.next() {
            Some('n') => o.push('\n'),
            Some('r') => o.push('\r'),
            Some('t') => o.push('\t'),
            Some(c) => o.push(c),
            None => {}
        }
    }
    o
}

fn field(l: &str, k: &str) -> Option<String> {
    let p = format!("{}=\"", k);
    let i = l.find(&p)? + p.len();
    let b = l.as_bytes();
    let mut e = i;
    while e < b.len() && b[e] != b'"' {
        e += if b[e] == b'\\' { 2 } else { 1 };
    }
    Some(unescape(&l[i..e]))
}

/// The nodes of a stream, compactly
fn nodes(l: &log::Log) -> String {
    let mut o: Vec<String> = Vec::new();
    for i in &l.items {
        match &i.ev {
            Ev::Scalar(_, _, _, t) => o.push(format!("={}", t)),
            Ev::Alias(a) => o.push(format!("*{}", a)),
            Ev::MapStart(..) => o.push("+MAP".into()),
            Ev::MapEnd => o.push("-MAP".into()),
            Ev::SeqStart(..) => o.push("+SEQ".into()),
            Ev::SeqEnd => o.push("-SEQ".into()),
            _ => {}
        }
    }
    o.join(" ")
}

/// Print the property's known findings which are still there
pub fn report(prop: &str, verif: &Path) {
    let t = match std::fs::read_to_string(verif.join("known-findings.txt")) {
        Ok(t) => t,
        Err(_) => return,
    };
    for l in t.lines() {
        let pre = format!("finding: property={} ", prop);
        if let Some(rest) = l.strip_prefix(&pre) {
            let (input, written) = match (field(rest, "input"), field(rest, "written")) {
                (Some(i), Some(w)) => (i, w),
                _ => continue,
            };
            let r = std::panic::catch_unwind(|| log::drain(&yary::reader::from_utf8(&input), false, input.len()));
            let still = match r {
                Ok(l) => l.end != End::Clean || nodes(&l) != written,
                Err(_) => true,
            };
            if still {
                println!("KNOWN-FINDING: property={} {}", prop, rest);
            }
        }
    }
}
