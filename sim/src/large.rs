//! Large contents, whose events are known: what is counted, nested or
//! placed beyond 255, 1024 and 65535.

use crate::choice::Src;
use crate::log::{Ev, Props, St, K};
use crate::source::{Act, Plan};

pub struct Large {
    pub text: String,
    pub evs: Vec<Ev>,
    pub what: &'static str,
    pub n: usize,
}

struct W<'a> {
    s: &'a mut Src,
    t: String,
    e: Vec<Ev>,
}

fn p() -> Props {
    Props::default()
}

impl W<'_> {
    fn put(&mut self, t: &str) -> &mut Self {
        self.t.push_str(t);
        self
    }
    fn sc(&mut self, k: K, st: St, v: &str) -> &mut Self {
        self.e.push(Ev::Scalar(p(), k, st, v.into()));
        self
    }
    fn pl(&mut self, k: K, v: &str) -> &mut Self {
        self.sc(k, St::Plain, v)
    }
    fn map(&mut self, k: K) -> &mut Self {
        self.e.push(Ev::MapStart(p(), k));
        self
    }
    fn seq(&mut self, k: K) -> &mut Self {
        self.e.push(Ev::SeqStart(p(), k));
        self
    }
    fn emap(&mut self) -> &mut Self {
        self.e.push(Ev::MapEnd);
        self
    }
    fn eseq(&mut self) -> &mut Self {
        self.e.push(Ev::SeqEnd);
        self
    }
    fn doc(&mut self, implicit: bool) {
        self.e.push(Ev::DocStart { version: (1, 2), tags: vec![("!".into(), "!".into()), ("!!".into(), "tag:yaml.org,2002:".into())], implicit });
    }
    fn edoc(&mut self, implicit: bool) {
        self.e.push(Ev::DocEnd { implicit });
    }

    /// A block sequence's entry, in the column it begins in
    fn entry(&mut self, i: usize, many: usize) {
        match self.s.below(many) {
            0 => self.put("- a\n").pl(K::Entry, "a"),
            1 => self.put("- k: v\n  l: m\n").map(K::Entry).pl(K::Key, "k").pl(K::Value, "v").pl(K::Key, "l").pl(K::Value, "m").emap(),
            2 => self.put("- - a\n  - b\n").seq(K::Entry).pl(K::Entry, "a").pl(K::Entry, "b").eseq(),
            3 => self.put("- [a, {b: c}]\n").seq(K::Entry).pl(K::Entry, "a").map(K::Entry).pl(K::Key, "b").pl(K::Value, "c").emap().eseq(),
            4 => self.put("- 'x y'\n").sc(K::Entry, St::Single, "x y"),
            5 => self.put("- \"\\x41\"\n").sc(K::Entry, St::Double, "A"),
            6 => self.put("- |\n  t\n").sc(K::Entry, St::Literal, "t\n"),
            7 => self.put("- >-\n  t\n  u\n").sc(K::Entry, St::Folded, "t u"),
            8 => self.put("- ? a\n  : b\n").map(K::Entry).pl(K::Key, "a").pl(K::Value, "b").emap(),
            9 => {
                let a = format!("a{}", i);
                self.put(&format!("- &{} x\n", a));
                self.e.push(Ev::Scalar(Props { anchor: Some(a), tag: None }, K::Entry, St::Plain, "x".into()));
                self
            }
            10 => {
                let a = format!("a{}", i);
                self.put(&format!("- *{}\n", a));
                self.e.push(Ev::Alias(a));
                self
            }
            11 => {
                self.put("- !t x\n");
                self.e.push(Ev::Scalar(Props { anchor: None, tag: Some(("!".into(), "t".into())) }, K::Entry, St::Plain, "x".into()));
                self
            }
            12 => self.put("-\n").pl(K::Entry, ""),
            _ => self.put("- # c\n  é\n").pl(K::Entry, "é"),
        };
    }
}

/// About as many as something counts to
fn many(s: &mut Src, most: usize) -> usize {
    let n = match s.below(24) {
        0..=6 => s.range(1, 300),
        // the powers of two, and the one before, with what is around them
        7..=13 => 254 + s.below(4),
        14 | 15 => 511 * s.range(1, 2) + s.below(3),
        16..=19 => 1022 + s.below(5),
        20 => s.range(1, 5000),
        21 => 4094 + s.below(4),
        22 => 32_766 + s.below(4),
        _ => 65_533 + s.below(6),
    };
    if n > most { 1 + n % most } else { n }
}

/// Anything there is a lot of
pub fn gen(s: &mut Src) -> Large {
    let shape = s.below(20);
    of(s, shape)
}

/// A lot of documents
pub fn documents(s: &mut Src) -> Large {
    of(s, 12)
}

fn of(s: &mut Src, shape: usize) -> Large {
    let mut w = W { s, t: String::new(), e: vec![Ev::StreamStart] };
    let what;
    let n;
    if shape != 12 && shape != 13 {
        w.doc(true);
    }
    match shape {
        0 => {
            what = "block_entries";
            n = many(w.s, usize::MAX);
            let k = w.s.range(1, 14);
            w.seq(K::Root);
            for i in 0..n {
                w.entry(i, k);
            }
            w.eseq();
        }
        1 => {
            what = "flow_nesting";
            n = many(w.s, 20_000);
            for i in 0..n {
                w.put("[").seq(if i == 0 { K::Root } else { K::Entry });
            }
            w.put("a").pl(K::Entry, "a");
            for _ in 0..n {
                w.put("]").eseq();
            }
            w.put("\n");
        }
        2 => {
            what = "flow_map_nesting";
            n = many(w.s, 20_000);
            for i in 0..n {
                w.put("{a: ").map(if i == 0 { K::Root } else { K::Value }).pl(K::Key, "a");
            }
            w.put("b").pl(K::Value, "b");
            for i in 0..n {
                w.put(if i % 7 == 0 { ", c: d}" } else { "}" });
                if i % 7 == 0 {
                    w.pl(K::Key, "c").pl(K::Value, "d");
                }
                w.emap();
            }
            w.put("\n");
        }
        3 => {
            what = "compact_nesting";
            n = many(w.s, 5_000);
            for i in 0..n {
                w.put("- ").seq(if i == 0 { K::Root } else { K::Entry });
            }
            w.put("a\n").pl(K::Entry, "a");
            // back to some of the levels
            let mut l = n;
            for _ in 0..w.s.below(6) {
                let to = w.s.range(1, l);
                for _ in to..l {
                    w.eseq();
                }
                l = to;
                let pad = " ".repeat(2 * (l - 1));
                w.put(&pad).put("- b\n").pl(K::Entry, "b");
            }
            for _ in 0..l {
                w.eseq();
            }
        }
        4 => {
            what = "block_nesting";
            n = many(w.s, 700);
            for i in 0..n {
                let pad = " ".repeat(i);
                w.put(&pad).put("a:\n").map(if i == 0 { K::Root } else { K::Value }).pl(K::Key, "a");
            }
            let pad = " ".repeat(n);
            w.put(&pad).put("b\n").pl(K::Value, "b");
            let mut l = n;
            for _ in 0..w.s.below(6) {
                let to = w.s.range(1, l);
                for _ in to..l {
                    w.emap();
                }
                l = to;
                let pad = " ".repeat(l - 1);
                w.put(&pad).put("c: d\n").pl(K::Key, "c").pl(K::Value, "d");
            }
            for _ in 0..l {
                w.emap();
            }
        }
        5 => {
            what = "flow_entries";
            n = many(w.s, usize::MAX);
            let k = w.s.range(1, 5);
            w.put("[").seq(K::Root);
            for _ in 0..n {
                match w.s.below(k) {
                    0 => w.put("a, ").pl(K::Entry, "a"),
                    1 => w.put("'x',\n").sc(K::Entry, St::Single, "x"),
                    2 => w.put("{a: b}, ").map(K::Entry).pl(K::Key, "a").pl(K::Value, "b").emap(),
                    3 => w.put("a: b, ").map(K::Entry).pl(K::Key, "a").pl(K::Value, "b").emap(),
                    _ => w.put("[],\n").seq(K::Entry).eseq(),
                };
            }
            w.put("]\n").eseq();
        }
        6 => {
            what = "flow_pairs";
            n = many(w.s, usize::MAX);
            w.put("{").map(K::Root);
            for _ in 0..n {
                match w.s.below(3) {
                    0 => w.put("a: b, ").pl(K::Key, "a").pl(K::Value, "b"),
                    1 => w.put("'a': [c],\n ").sc(K::Key, St::Single, "a").seq(K::Value).pl(K::Entry, "c").eseq(),
                    _ => w.put("? a : b, ").pl(K::Key, "a").pl(K::Value, "b"),
                };
            }
            w.put("}\n").emap();
        }
        7 => {
            what = "block_pairs";
            n = many(w.s, usize::MAX);
            let k = w.s.range(1, 4);
            w.map(K::Root);
            for i in 0..n {
                match w.s.below(k) {
                    0 => {
                        let a = format!("k{}", i);
                        w.put(&a).put(": v\n").pl(K::Key, &a).pl(K::Value, "v")
                    }
                    1 => w.put("? k\n: v\n").pl(K::Key, "k").pl(K::Value, "v"),
                    2 => w.put("k:\n- a\n- b\n").pl(K::Key, "k").seq(K::Value).pl(K::Entry, "a").pl(K::Entry, "b").eseq(),
                    _ => w.put("k:\n  l: m\n").pl(K::Key, "k").map(K::Value).pl(K::Key, "l").pl(K::Value, "m").emap(),
                };
            }
            w.emap();
        }
        8 => {
            what = "indentation";
            n = many(w.s, usize::MAX);
            let i = " ".repeat(n);
            let b = if w.s.coin() { format!("|\n{}    ", i) } else { format!("|2\n{}    ", i) };
            let t = format!("a:\n{i}b: c\n{i}d:\n{i}- e\n{i}- f: g\n{i}  h: {b}x\n{i}     y\nz: '1\n{i}2'\n", i = i, b = b);
            w.put(&t).map(K::Root).pl(K::Key, "a").map(K::Value).pl(K::Key, "b").pl(K::Value, "c").pl(K::Key, "d");
            w.seq(K::Value).pl(K::Entry, "e").map(K::Entry).pl(K::Key, "f").pl(K::Value, "g").pl(K::Key, "h").sc(K::Value, St::Literal, "x\n y\n").emap();
            w.eseq().emap().pl(K::Key, "z").sc(K::Value, St::Single, "1 2").emap();
        }
        9 => {
            what = "lines_before_content";
            n = many(w.s, usize::MAX);
            let c: Vec<String> = (0..4).map(|_| (w.s.pick(&["\n", "# c\n", " \n", "  # é\n"]), many(w.s, 3000))).map(|(t, k)| t.repeat(k)).collect();
            let far = w.s.pick(&["\n", "#\n"]).repeat(n);
            w.put("a: b\n").put(&c[0]).put("c:\n").put(&c[1]).put("- d # e\n").put(&c[2]).put("- [f,\n").put(&c[3]).put(" g]\n").put(&far);
            w.map(K::Root).pl(K::Key, "a").pl(K::Value, "b").pl(K::Key, "c").seq(K::Value).pl(K::Entry, "d").seq(K::Entry).pl(K::Entry, "f").pl(K::Entry, "g").eseq().eseq().emap();
        }
        10 => {
            what = "spaces_in_line";
            n = many(w.s, usize::MAX);
            let i = " ".repeat(n);
            let t = format!("a:{i} b\nc: [{i}d,{i}e{i}]\nf: {{{i}g:{i} h{i}}}{i}\n-1: !t{i} &x{i} j{i} # k\n", i = i);
            w.put(&t).map(K::Root).pl(K::Key, "a").pl(K::Value, "b").pl(K::Key, "c").seq(K::Value).pl(K::Entry, "d").pl(K::Entry, "e").eseq();
            w.pl(K::Key, "f").map(K::Value).pl(K::Key, "g").pl(K::Value, "h").emap().pl(K::Key, "-1");
            w.e.push(Ev::Scalar(Props { anchor: Some("x".into()), tag: Some(("!".into(), "t".into())) }, K::Value, St::Plain, "j".into()));
            w.emap();
        }
        11 => {
            what = "column_of_compact";
            n = many(w.s, usize::MAX);
            // a mapping which begins far to the right
            let i = " ".repeat(n);
            let t = format!("-{i} a: b\n {i} c: d\n- ?{i} e: f\n   {i} g: h\n", i = i);
            w.put(&t).seq(K::Root).map(K::Entry).pl(K::Key, "a").pl(K::Value, "b").pl(K::Key, "c").pl(K::Value, "d").emap();
            w.map(K::Entry).map(K::Key).pl(K::Key, "e").pl(K::Value, "f").pl(K::Key, "g").pl(K::Value, "h").emap().pl(K::Value, "").emap().eseq();
        }
        12 => {
            what = "documents";
            n = many(w.s, usize::MAX);
            let k = w.s.range(1, 5);
            for _ in 0..n {
                match w.s.below(k) {
                    0 => {
                        w.doc(false);
                        w.put("--- a\n").pl(K::Root, "a");
                        w.edoc(true)
                    }
                    1 => {
                        w.doc(false);
                        w.put("---\na: b\n...\n").map(K::Root).pl(K::Key, "a").pl(K::Value, "b").emap();
                        w.edoc(false)
                    }
                    2 => {
                        w.doc(false);
                        w.put("---\n- a\n- b\n").seq(K::Root).pl(K::Entry, "a").pl(K::Entry, "b").eseq();
                        w.edoc(true)
                    }
                    3 => {
                        w.doc(false);
                        w.put("---\n");
                        w.edoc(true)
                    }
                    _ => {
                        w.doc(false);
                        w.put("--- |\n a\n...\n").sc(K::Root, St::Literal, "a\n");
                        w.edoc(false)
                    }
                };
            }
        }
        13 => {
            what = "tag_directives";
            n = many(w.s, 3000);
            let mut tags = vec![("!".to_string(), "!".to_string()), ("!!".to_string(), "tag:yaml.org,2002:".to_string())];
            for i in 0..n {
                w.put(&format!("%TAG !{}! p{}:\n", i, i));
                tags.push((format!("!{}!", i), format!("p{}:", i)));
            }
            tags.sort();
            w.e.push(Ev::DocStart { version: (1, 2), tags, implicit: false });
            w.put("---\n").seq(K::Root);
            let k = w.s.range(1, 20);
            for _ in 0..k {
                let i = w.s.below(n);
                w.put(&format!("- !{}!x{} y\n", i, i));
                w.e.push(Ev::Scalar(Props { anchor: None, tag: Some((format!("!{}!", i), format!("x{}", i))) }, K::Entry, St::Plain, "y".into()));
            }
            w.put("- !0 y\n");
            w.e.push(Ev::Scalar(Props { anchor: None, tag: Some(("!".into(), "0".into())) }, K::Entry, St::Plain, "y".into()));
            w.eseq();
        }
        14 => {
            what = "literal_lines";
            n = many(w.s, usize::MAX);
            let mut v = String::new();
            w.put("- |+\n");
            for i in 0..n {
                let l = if i % 5 == 4 { "\n".to_string() } else { format!("l{}\n", i) };
                v.push_str(&l);
                if l.len() > 1 {
                    w.put("  ");
                }
                w.put(&l);
            }
            w.put("- a\n").seq(K::Root).sc(K::Entry, St::Literal, &v).pl(K::Entry, "a").eseq();
        }
        15 => {
            what = "folded_lines";
            n = many(w.s, usize::MAX);
            w.put("a: >-\n");
            let v: Vec<String> = (0..n).map(|i| format!("l{}", i)).collect();
            w.put("  ");
            let t = v.join("\n  ");
            w.put(&t).put("\nb: c\n").map(K::Root).pl(K::Key, "a").sc(K::Value, St::Folded, &v.join(" ")).pl(K::Key, "b").pl(K::Value, "c").emap();
        }
        16 => {
            what = "quoted_lines";
            n = many(w.s, usize::MAX);
            let (st, q, sep) = if w.s.coin() { (St::Single, "'", "''") } else { (St::Double, "\"", "\\\"") };
            let v: Vec<String> = (0..n).map(|i| format!("l{}{}", i, if i % 3 == 0 { q } else { "é" })).collect();
            let t: Vec<String> = v.iter().map(|l| l.replace(q, sep)).collect();
            w.put("- ").put(q).put(&t.join("\n    ")).put(q).put("\n- a\n");
            w.seq(K::Root).sc(K::Entry, st, &v.join(" ")).pl(K::Entry, "a").eseq();
        }
        17 => {
            what = "plain_lines";
            n = many(w.s, usize::MAX);
            let v: Vec<String> = (0..n).map(|i| format!("l{}", i)).collect();
            w.put("a: ").put(&v.join("\n   ")).put("\nb: c\n");
            w.map(K::Root).pl(K::Key, "a").pl(K::Value, &v.join(" ")).pl(K::Key, "b").pl(K::Value, "c").emap();
        }
        18 => {
            what = "line_breaks_in_scalar";
            n = many(w.s, usize::MAX);
            let nl = "\n".repeat(n + 1);
            let v = format!("a{}b", "\n".repeat(n));
            let (st, t) = match w.s.below(4) {
                0 => (St::Plain, format!("a{} b", nl)),
                1 => (St::Single, format!("'a{} b'", nl)),
                2 => (St::Double, format!("\"a{} b\"", nl)),
                _ => (St::Folded, format!(">-\n  a{}  b", nl)),
            };
            w.put("- ").put(&t).put("\n- c\n").seq(K::Root).sc(K::Entry, st, &v).pl(K::Entry, "c").eseq();
        }
        _ => {
            what = "long_names";
            n = many(w.s, usize::MAX);
            let x = w.s.pick(&["y", "a1"]).repeat(n);
            let t = format!("- &{x} a\n- *{x}\n- !{x} b\n- !<{x}> c\n- {x}\n- '{x}'\n- \"{x}\"\n- >\n {x}\n", x = x);
            w.put(&t).seq(K::Root);
            w.e.push(Ev::Scalar(Props { anchor: Some(x.clone()), tag: None }, K::Entry, St::Plain, "a".into()));
            w.e.push(Ev::Alias(x.clone()));
            w.e.push(Ev::Scalar(Props { anchor: None, tag: Some(("!".into(), x.clone())) }, K::Entry, St::Plain, "b".into()));
            w.e.push(Ev::Scalar(Props { anchor: None, tag: Some(("".into(), x.clone())) }, K::Entry, St::Plain, "c".into()));
            w.pl(K::Entry, &x).sc(K::Entry, St::Single, &x).sc(K::Entry, St::Double, &x);
            let v = format!("{}\n", x);
            w.sc(K::Entry, St::Folded, &v).eseq();
        }
    }
    if shape != 12 {
        w.edoc(true);
    }
    w.e.push(Ev::StreamEnd);
    Large { text: w.t, evs: w.e, what, n }
}

/// A delivery which does not look at the same bytes too often
pub fn plan(s: &mut Src, len: usize) -> Plan {
    let mut p = Plan::whole();
    let k = s.range(1, 4);
    p.acts = (0..k).map(|_| if s.one_in(4) { Act::Intr(1) } else { Act::Data(s.range(len / 300 + 1, len / 10 + 300), s.below(3) as u32) }).collect();
    if s.coin() {
        let k = s.range(1, 3);
        p.chunks = Some((0..k).map(|_| s.range(len / 100 + 1, len / 5 + 300)).collect());
    }
    p
}
