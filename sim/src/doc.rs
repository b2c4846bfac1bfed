//! The reference document model: writes random YAML streams together
//! with the events a reader of them must see.

use crate::choice::Src;
use crate::log::{Ev, Props, K, St};
use std::collections::HashSet;

/// What a stream may contain (chosen anew for each run)
#[derive(Clone, Debug)]
pub struct Opts {
    pub nl: usize,
    pub unicode: bool,
    pub comments: bool,
    pub props: bool,
    pub tabs: bool,
    pub multi: bool,
    pub blocks: bool,
    pub flow: bool,
    pub explicit: bool,
    pub escapes: bool,
    pub depth: usize,
    pub width: usize,
    pub docs: usize,
    pub long: bool,
    pub deep: bool,
    /// Break one rule of the language (0: none)
    pub defect: u8,
    pub directives: bool,
    /// What there is a lot of (0: nothing)
    pub big: u8,
    /// Begin with a byte order mark
    pub mark: bool,
}

impl Opts {
    pub fn gen(s: &mut Src) -> Opts {
        Opts {
            nl: if s.coin() { 0 } else { s.below(4) },
            unicode: s.coin(),
            comments: s.coin(),
            props: s.coin(),
            tabs: s.one_in(4),
            multi: s.coin(),
            blocks: s.coin(),
            flow: s.coin(),
            explicit: s.one_in(3),
            escapes: s.coin(),
            depth: s.below(5),
            width: s.range(1, 4),
            docs: if s.one_in(3) { s.range(2, 4) } else { 1 },
            long: s.one_in(20),
            deep: s.one_in(40),
            defect: 0,
            directives: s.one_in(3),
            big: 0,
            mark: s.one_in(16),
        }
        .grow(s)
    }

    fn grow(mut self, s: &mut Src) -> Opts {
        if s.one_in(24) {
            self.big = s.range(1, BIG) as u8;
            match self.big {
                1 => self.props = true,
                2 => self.docs = s.range(5, 40),
                3 => {
                    self.width = s.range(10, 120);
                    self.depth = self.depth.min(2);
                }
                4 => self.directives = true,
                5 => self.multi = true,
                7 => self.comments = true,
                8 => self.blocks = true,
                9 => {
                    self.depth = s.range(5, 12);
                    self.width = 2;
                }
                _ => {}
            }
        }
        self
    }
}

/// Kinds of abundance: long names, documents, entries, directives, words,
/// blanks, comments, lines of block scalars, levels, indentation
const BIG: usize = 10;

#[derive(Clone, Debug)]
pub struct Verbatim {
    pub event: usize,
    pub at: usize,
    pub len: usize,
}

#[derive(Clone, Debug)]
pub struct DocInfo {
    /// Text range of the whole document, with its markers
    pub start: usize,
    pub end: usize,
    pub ev_start: usize,
    pub ev_end: usize,
    pub explicit_start: bool,
    pub explicit_end: bool,
    pub directives: bool,
}

/// A place where the stream may not stop
#[derive(Clone, Debug, PartialEq)]
pub struct Open {
    pub from: usize,
    pub to: usize,
    pub what: &'static str,
}

/// A place where the stream breaks a rule of the language
#[derive(Clone, Debug)]
pub struct Defect {
    /// Events written before it
    pub ev: usize,
    pub at: usize,
    pub what: &'static str,
}

/// Kinds of defects: what they are, and whether a single token is to blame
pub const DEFECTS: [(&str, bool); 26] = [
    ("none", false),
    ("escape sequence", true),
    ("tag", true),
    ("anchor or alias name", true),
    ("block scalar header", true),
    ("character no token starts with", true),
    ("directive", true),
    ("document marker in a quoted scalar", true),
    ("closing bracket of the other kind", false),
    ("missing or repeated comma", false),
    ("text behind a quoted scalar", false),
    ("indentation between two levels", false),
    ("entry of the other kind of collection", false),
    ("implicit key on two lines", false),
    ("implicit key of more than 1024 characters", false),
    ("properties twice, or of an alias", false),
    ("block collection on a key's line", false),
    ("second root node", false),
    ("block scalar in a flow collection", true),
    ("document marker in a flow collection", false),
    ("block collection on a document marker's line", false),
    ("text behind a document end marker", true),
    ("block entry behind properties on their line", false),
    ("block entry in a flow collection", false),
    ("flow indicator outside of a flow collection", false),
    ("text behind an alias", false),
];

pub struct Doc {
    pub text: String,
    pub defect: Option<Defect>,
    pub evs: Vec<Ev>,
    pub verbatim: Vec<Verbatim>,
    /// what tags and prefixes written with escapes stand for
    pub escaped: HashSet<String>,
    /// Each event that has text of its own, in order, and where that is
    pub spans: Vec<(usize, usize, usize)>,
    pub docs: Vec<DocInfo>,
    pub opens: Vec<Open>,
    /// The last document may be followed by anything
    pub feats: u32,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Pos {
    /// Start of a fresh line, nothing written
    RootBol,
    /// Behind '---'
    RootMarker,
    /// Behind '-', '?' or ':' of a block collection
    Compact,
    /// Behind 'key:'
    Val,
}

#[derive(Clone, Copy, PartialEq)]
enum AfterBlock {
    No,
    Trim,
    Keep,
}

pub const F_PLAIN_MULTI: u32 = 1;
pub const F_SINGLE: u32 = 2;
pub const F_DOUBLE: u32 = 4;
pub const F_LITERAL: u32 = 8;
pub const F_FOLDED: u32 = 16;
pub const F_FLOW: u32 = 32;
pub const F_BLOCK: u32 = 64;
pub const F_EXPLICIT: u32 = 128;
pub const F_ALIAS: u32 = 256;
pub const F_PROPS: u32 = 512;
pub const F_DIRECTIVE: u32 = 1024;
pub const F_MULTIDOC: u32 = 2048;
pub const F_COMMENT: u32 = 4096;
pub const F_QUOTED_MULTI: u32 = 8192;
pub const F_ESCAPE: u32 = 16384;
pub const F_MARK: u32 = 32768;

pub struct W<'a> {
    pub s: &'a mut Src,
    pub o: Opts,
    out: String,
    ev: Vec<Ev>,
    verb: Vec<Verbatim>,
    spans: Vec<(usize, usize, usize)>,
    opens: Vec<Open>,
    escaped: HashSet<String>,
    bol: bool,
    line_start: usize,
    after: AfterBlock,
    anchors: Vec<String>,
    handles: Vec<String>,
    budget: i32,
    names: usize,
    feats: u32,
    in_flow: u32,
    /// Where the implicit key being written starts
    key_from: Option<usize>,
    deep: usize,
    defect: Option<Defect>,
    /// The last block scalar: where it ends, its last line break, its event,
    /// and whether that break is part of its value
    block_end: Option<(usize, usize, usize, bool)>,
}

const WORDS: [&str; 30] = [
    "a", "b", "key", "value", "foo", "x1", "0", "42", "3.14", "true", "null", "a-b", "a_b", "x:y", "a#b", "it's", "http://x/y?z", "a\"b", "-1", "~", "z%", "!no"
    , "p@q", "e*f", "---", "...", "---x", "...y", "--", "..",
];
const UWORDS: [&str; 8] = ["é", "日本", "😀", "naïve", "ß1", "Ωx", "a\u{301}b", "\u{fffd}"];

pub fn stream(s: &mut Src, o: Opts) -> Doc {
    let docs = o.docs;
    let mut w = W::new(s, o);
    w.ev.push(Ev::StreamStart);
    if w.o.mark {
        w.out.push('\u{feff}');
        w.line_start = w.out.len();
        w.feats |= F_MARK;
    }
    if w.s.one_in(12) {
        // ends of no document
        for _ in 0..w.s.range(1, 3) {
            w.filler();
            w.put("...");
            w.fresh_comment();
        }
    }
    let mut infos = Vec::new();
    let mut prev_end = true; // previous document ended explicitly (or there is none)
    for i in 0..docs {
        let d = w.document(i == 0, prev_end, i + 1 == docs);
        prev_end = d.explicit_end;
        infos.push(d);
    }
    if docs > 1 {
        w.feats |= F_MULTIDOC;
    }
    w.ev.push(Ev::StreamEnd);
    Doc { text: w.out, evs: w.ev, verbatim: w.verb, escaped: w.escaped, spans: w.spans, docs: infos, opens: w.opens, feats: w.feats, defect: w.defect }
}

impl<'a> W<'a> {
    pub fn new(s: &'a mut Src, o: Opts) -> Self {
        W {
            s,
            o,
            out: String::new(),
            ev: Vec::new(),
            verb: Vec::new(),
            spans: Vec::new(),
            opens: Vec::new(),
            escaped: HashSet::new(),
            bol: true,
            line_start: 0,
            after: AfterBlock::No,
            anchors: Vec::new(),
            handles: Vec::new(),
            budget: 40,
            names: 0,
            feats: 0,
            in_flow: 0,
            key_from: None,
            deep: 0,
            defect: None,
            block_end: None,
        }
    }

    /// The text of the event which comes next starts there
    fn span(&mut self, from: usize) {
        self.spans.push((self.ev.len(), from, self.out.len()));
    }

    /// Break the rule here?
    fn hit(&mut self, k: u8) -> bool {
        if self.o.defect != k || self.defect.is_some() || !self.s.one_in(3) {
            return false;
        }
        self.defect = Some(Defect { ev: self.ev.len(), at: self.out.len(), what: DEFECTS[k as usize].0 });
        true
    }

    // ---- text -------------------------------------------------------

    fn put(&mut self, t: &str) {
        if !t.is_empty() {
            self.out.push_str(t);
            self.bol = false;
        }
    }
    fn col(&self) -> i32 {
        (self.out.len() - self.line_start) as i32
    }
    fn sp(&mut self, n: i32) {
        for _ in 0..n {
            self.put(" ");
        }
    }
    fn brk(&mut self) {
        let b = match self.o.nl {
            0 => "\n",
            1 => "\r\n",
            2 => "\r",
            _ => ["\n", "\r\n", "\r"][self.s.below(3)],
        };
        // "\r" "\n" would read as one line break
        let b = if b == "\n" && self.out.ends_with('\r') { "\r\n" } else { b };
        self.out.push_str(b);
        self.bol = true;
        self.line_start = self.out.len();
    }
    fn comment(&mut self) {
        self.feats |= F_COMMENT;
        if self.o.big == 7 {
            let k = if self.s.one_in(4) { self.s.below(600) } else { self.s.below(20) };
            let t = format!("#{}", if self.o.unicode { "c é:" } else { "c # " }.repeat(k));
            self.put(&t);
        }
        let t = self.s.pick(&["#", "# c", "#: x", "# - [ {", "#\tt", "# \"q", "# é 日", "# ---"]);
        let t = if self.o.unicode { t } else { t.split(" é").next().unwrap() };
        self.put(t);
        if self.o.long && self.s.coin() {
            let n = self.s.below(300);
            let p = "x".repeat(n);
            self.put(&p);
        }
    }
    /// End the line, if anything is on it
    fn fresh(&mut self) {
        if !self.bol {
            if self.s.one_in(6) {
                let n = self.s.range(1, 3) as i32;
                self.sp(n);
                if self.o.comments && self.s.coin() {
                    self.comment();
                }
            }
            self.brk();
        }
    }
    /// Lines without content between nodes
    fn filler(&mut self) {
        if !self.o.comments || self.s.below(4) != 3 {
            return;
        }
        let n = self.s.range(1, if matches!(self.o.big, 6 | 7) { 60 } else { 2 });
        for _ in 0..n {
            match self.after {
                AfterBlock::No => {
                    let k = self.s.below(5) as i32;
                    self.sp(k);
                    if self.s.coin() {
                        self.comment();
                    }
                    self.brk();
                }
                AfterBlock::Trim => {
                    if self.s.coin() {
                        self.comment();
                        self.after = AfterBlock::No;
                    }
                    self.brk();
                }
                AfterBlock::Keep => {
                    self.comment();
                    self.brk();
                    self.after = AfterBlock::No;
                }
            }
        }
    }
    fn begin(&mut self, indent: i32) {
        self.fresh();
        self.filler();
        self.after = AfterBlock::No;
        self.sp(indent);
    }

    // ---- documents --------------------------------------------------

    fn document(&mut self, first: bool, prev_end: bool, last: bool) -> DocInfo {
        self.anchors.clear();
        self.handles.clear();
        let mut tags: Vec<(String, String)> = Vec::new();
        let mut version = (1u8, 2u8);
        let start = self.out.len();
        let ev_start = self.ev.len();
        self.fresh();
        if prev_end {
            self.after = AfterBlock::No;
        }
        self.filler();
        let directives = prev_end && self.o.directives && self.s.coin();
        let mut defaults = true;
        if directives {
            self.feats |= F_DIRECTIVE;
            let from = self.out.len() + 1;
            let n = self.s.range(1, if self.o.big == 4 { 24 } else { 3 });
            let mut has_version = false;
            for _ in 0..n {
                if self.hit(6) {
                    if self.s.coin() {
                        // one directive twice, anything between them
                        let first = self.s.pick(&["%YAML", "%TAG !d!", "%TAG !", "%TAG !!"]);
                        let mut seen = vec![first];
                        let k = self.s.below(4);
                        for _ in 0..k {
                            let d = self.s.pick(&["%YAML", "%TAG !d!", "%TAG !", "%TAG !!", "%TAG !f!", "%TAG !g!"]);
                            if !seen.contains(&d) {
                                seen.push(d);
                            }
                        }
                        seen.push(first);
                        for d in seen {
                            self.put(d);
                            let v = if d == "%YAML" { self.s.pick(&[" 1.2", " 1.1", " 1.1"]) } else { self.s.pick(&[" x", " y:", " !z"]) };
                            self.put(v);
                            let c = self.s.pick(&["", "", " ", " # c", "\n# c", "\n"]);
                            self.put(c);
                            self.brk();
                        }
                    } else {
                        let t = self.s.pick(&[
                            "%YAML", "%YAML 1", "%YAML 1.", "%YAML x.1", "%YAML 1.x", "%YAML 300.1", "%YAML 1.300", "%YAML 1.2x", "%YAML 1.2 x", "%YAML 1.1\n%YAML 1.1", "%YAML 1.1\n%YAML 1.2", "%TAG",
                            "%TAG a b", "%TAG !a b", "%TAG !a!", "%TAG !a!x y", "%TAG !d! x\n%TAG !d! x", "%TAG !d! x\n%YAML 1.2\n%TAG !d! y", "%TAG !d! x\n%TAG ! y\n%TAG !d! z", "%FOO a", "%yaml 1.2",
                        ]);
                        self.put(t);
                        self.brk();
                    }
                }
                if !has_version && self.s.coin() {
                    has_version = true;
                    let minor = if self.s.one_in(6) { self.s.below(256) } else { self.s.below(3) } as u8;
                    version = (1, minor);
                    let gap = self.s.range(1, 2) as i32;
                    self.put("%YAML");
                    self.sp(gap);
                    let v = format!("{}1.{}{}", if self.s.one_in(12) { "0" } else { "" }, if self.s.one_in(12) { "00" } else { "" }, minor);
                    self.put(&v);
                } else {
                    let h = match self.s.below(if self.o.big == 4 { 12 } else { 5 }) {
                        4 if self.o.big != 4 => self.s.pick(&["!E!", "!X1!", "!x!", "!e1!"]).to_string(),
                        4 => format!("!{}!", "Handle9".repeat(self.s.range(1, 40))),
                        5..=12 => format!("!h{}!", tags.len()),
                        0 => "!e!".to_string(),
                        1 => "!x1!".to_string(),
                        2 => "!!".to_string(),
                        _ => "!".to_string(),
                    };
                    if tags.iter().any(|(a, _)| *a == h) {
                        continue;
                    }
                    let (pt, p) = if self.s.one_in(3) {
                        self.uri(true)
                    } else {
                        let p = self.s.pick(&["tag:example.com,2000:", "!", "!my-", "tag:yaml.org,2002:", "x:", "!a/b-"]).to_string();
                        (p.clone(), p)
                    };
                    let gap = self.s.range(1, 2) as i32;
                    self.put("%TAG");
                    self.sp(gap);
                    self.put(&h);
                    let gap = self.s.range(1, 2) as i32;
                    self.sp(gap);
                    self.put(&pt);
                    if pt != p {
                        self.escaped.insert(p.clone());
                    }
                    tags.push((h.clone(), p));
                    self.handles.push(h);
                }
                self.fresh();
                self.filler();
            }
            if self.out.len() > from {
                self.opens.push(Open { from, to: self.out.len(), what: "directive" });
            } else {
                defaults = true;
            }
        }
        for (h, p) in [("!", "!"), ("!!", "tag:yaml.org,2002:")] {
            if defaults && !tags.iter().any(|(a, _)| a == h) {
                tags.push((h.into(), p.into()));
            }
        }
        tags.sort();
        let empty = self.s.one_in(12);
        let explicit_start = directives || !(first || prev_end) || empty || self.s.coin();
        if explicit_start {
            let from = self.out.len();
            self.put("---");
            self.span(from);
        }
        self.ev.push(Ev::DocStart { version, tags, implicit: !explicit_start });
        if !empty {
            let pos = if explicit_start {
                if self.s.coin() {
                    self.fresh();
                    self.filler();
                    Pos::RootBol
                } else {
                    Pos::RootMarker
                }
            } else {
                Pos::RootBol
            };
            self.budget = 40;
            let d = self.o.depth;
            let from = self.ev.len();
            self.node(-1, pos, K::Root, d);
            // could the text behind still belong to the root?
            let open = match self.ev[from..].iter().rev().find(|e| !matches!(e, Ev::SeqEnd | Ev::MapEnd)) {
                Some(Ev::Scalar(_, _, st, t)) => *st == St::Plain && (t.is_empty() || self.ev.len() == from + 1),
                Some(Ev::Alias(_)) => false,
                _ => false,
            };
            if !open && self.hit(17) {
                self.fresh();
                let t = self.s.pick(&["'b'", "]", "}", "\"b\"", "*x", "[b]", "{b: c}"]);
                self.put(t);
            }
        }
        let mut explicit_end = false;
        if self.s.one_in(3) {
            explicit_end = true;
            self.fresh();
            if self.after != AfterBlock::Keep {
                self.filler();
            }
            let from = self.out.len();
            self.put("...");
            self.span(from);
            if self.hit(21) {
                self.defect.as_mut().unwrap().ev += 1;
                let t = self.s.pick(&[" a", " 'a'", " [a]", "\t*a", " &a", " - a", " ? a", " --- a", " ...", " %YAML 1.2", " |", " {a: b}", " ,", " : a", "  \t!t"]);
                self.put(t);
            }
            self.after = AfterBlock::No;
            self.fresh();
            // which may be repeated
            while self.s.one_in(8) {
                self.filler();
                self.put("...");
                self.fresh();
            }
        } else if last {
            // how the stream stops
            let tail = self.s.below(4);
            let block = self.block_end.filter(|b| b.0 == self.out.len());
            if let (3, Some((end, n, ev, counts))) = (tail, block) {
                // no line break behind a block scalar
                self.out.truncate(end - n);
                self.bol = false;
                if let (true, Some(v)) = (counts, self.verb.iter_mut().find(|v| v.event == ev)) {
                    v.len -= 1;
                }
                if let (true, Ev::Scalar(_, _, _, t)) = (counts, &mut self.ev[ev]) {
                    t.pop();
                }
            } else if tail < 3 || self.after != AfterBlock::No {
                self.fresh();
                if tail == 2 {
                    self.filler();
                    if self.o.comments && self.s.one_in(3) && self.after == AfterBlock::No {
                        self.comment();
                    }
                }
            }
        } else {
            self.fresh();
        }
        self.ev.push(Ev::DocEnd { implicit: !explicit_end });
        DocInfo { start, end: self.out.len(), ev_start, ev_end: self.ev.len(), explicit_start, explicit_end, directives }
    }

    // ---- nodes ------------------------------------------------------

    fn name(&mut self) -> String {
        self.names += 1;
        let base = self.s.pick(&["a", "A1", "x", "anchor", "0", "-", "_", "a-b_", "--", "Z_9-"]);
        let mut n = format!("{}{}", base, self.names);
        if self.o.big == 1 {
            let k = self.s.below(400);
            n.push_str(&"n-_7".repeat(k / 4));
        }
        n
    }

    /// Write properties, noting where they are incomplete
    fn put_props(&mut self, t: &str) {
        let at = self.out.len();
        if let Some(i) = t.find("!<") {
            let e = i + t[i..].find('>').unwrap();
            self.opens.push(Open { from: at + i + 2, to: at + e, what: "verbatim tag" });
        }
        if let Some(i) = if t.starts_with('&') { Some(0) } else { t.find(" &").map(|i| i + 1) } {
            self.opens.push(Open { from: at + i + 1, to: at + i + 1, what: "anchor" });
        }
        self.put(t);
    }

    /// Choose properties: their text and what must be reported
    fn gen_props(&mut self) -> (String, Props) {
        let mut p = Props::default();
        if !self.o.props || self.s.below(4) != 3 {
            return (String::new(), p);
        }
        self.feats |= F_PROPS;
        let which = self.s.below(3);
        let mut parts = Vec::new();
        if which != 1 {
            let n = if self.anchors.is_empty() || !self.s.one_in(6) { self.name() } else { self.anchors[self.s.below(self.anchors.len())].clone() };
            if self.hit(3) {
                parts.push(self.s.pick(&["&.a", "&a!b", "&a*b", "&", "&a&b", "&:a", "&\"a", "&a_b.c", "&a-/b", "&é"]).to_string());
            } else if self.hit(15) {
                parts.push("&q1 &q2".into());
            }
            parts.push(format!("&{}", n));
            self.anchors.push(n.clone());
            p.anchor = Some(n);
        }
        if which != 0 {
            let (t, h, suf) = self.gen_tag();
            parts.push(t);
            p.tag = Some((h, suf));
        }
        if parts.len() == 2 && self.s.coin() {
            parts.swap(0, 1);
        }
        let gap = if self.s.one_in(5) { "  " } else { " " };
        (parts.join(gap), p)
    }

    fn gen_tag(&mut self) -> (String, String, String) {
        if self.hit(2) {
            let t = self.s.pick(&["!zz!a", "!zz!", "!0z!a%20", "!a%zz", "!a%2 ", "!!%zz", "!%g0a", "!%c3%28", "!%ff", "!a%e2%82bcd"]).to_string();
            return (t, "!".into(), "".into());
        }
        let (suffix, plain) = if self.s.one_in(3) {
            self.uri(false)
        } else {
            let suffix = self.s.pick(&["str", "a", "int", "a-b", "x/y", "a%20b", "t1"]).to_string();
            let plain = suffix.replace("%20", " ");
            (suffix, plain)
        };
        if suffix != plain {
            self.escaped.insert(plain.clone());
        }
        match self.s.below(5) {
            0 => (format!("!!{}", suffix), "!!".into(), plain),
            1 => (format!("!{}", suffix), "!".into(), plain),
            2 => ("!".into(), "!".into(), "".into()),
            3 if self.handles.iter().any(|h| h.len() > 2) => {
                let hs: Vec<String> = self.handles.iter().filter(|h| h.len() > 2).cloned().collect();
                let h = hs[self.s.below(hs.len())].clone();
                (format!("{}{}", h, suffix), h, plain)
            }
            3 => (format!("!{}", suffix), "!".into(), plain),
            _ => {
                if self.s.coin() {
                    let (t, v) = self.uri(true);
                    if t != v {
                        self.escaped.insert(v.clone());
                    }
                    return (format!("!<{}>", t), "".into(), v);
                }
                let v = self.s.pick(&["tag:yaml.org,2002:str", "!bar", "tag:x,1:a"]).to_string();
                (format!("!<{}>", v), "".into(), v)
            }
        }
    }

    /// What tags and their prefixes are made of: as written, and what it
    /// stands for
    fn uri(&mut self, whole: bool) -> (String, String) {
        const C: [&str; 27] = ["b", "Z", "0", "9", "-", ".", "/", ":", ";", "=", "?", "@", "_", "~", "$", "&", "'", "(", ")", "*", "+", "aa", "%", "%", "%", "%", "\""];
        const ESC: [(&str, &str); 9] = [("%41", "A"), ("%20", " "), ("%c3%a9", "é"), ("%E2%82%AC", "€"), ("%f0%9f%98%80", "😀"), ("%25", "%"), ("%2c", ","), ("%7A", "z"), ("%00", "\0")];
        let n = self.s.range(0, 6);
        let mut t = String::from("a");
        let mut v = t.clone();
        for _ in 0..n {
            match self.s.pick(&C) {
                "%" => {
                    let (e, c) = ESC[self.s.below(ESC.len())];
                    t.push_str(e);
                    v.push_str(c);
                }
                "\"" => {
                    let c = if whole { self.s.pick(&[",", "[", "]", "!"]) } else { "x" };
                    t.push_str(c);
                    v.push_str(c);
                }
                c => {
                    t.push_str(c);
                    v.push_str(c);
                }
            }
        }
        (t, v)
    }

    fn alias(&mut self) -> Option<String> {
        if self.anchors.is_empty() || !self.s.one_in(8) {
            return None;
        }
        self.feats |= F_ALIAS;
        if self.hit(3) {
            return Some(self.s.pick(&[".a", "a!b", "a*b", "", "a&b", ":a", "a:", "a-.", "_é"]).to_string());
        }
        let n = self.anchors[self.s.below(self.anchors.len())].clone();
        Some(n)
    }

    fn put_alias(&mut self, n: &str) {
        self.verb.push(Verbatim { event: self.ev.len(), at: self.out.len() + 1, len: n.len() });
        let t = format!("*{}", n);
        self.opens.push(Open { from: self.out.len() + 1, to: self.out.len() + 1, what: "alias" });
        self.put(&t);
        self.span(self.out.len() - t.len());
        self.ev.push(Ev::Alias(n.to_string()));
    }

    /// Whitespace between an indicator and an inline node
    fn gap(&mut self) {
        let n = if self.s.one_in(4) { self.s.range(1, if self.o.big == 6 { 300 } else { 4 }) as i32 } else { 1 };
        self.sp(n);
        if self.o.tabs && self.s.one_in(4) {
            self.put("\t");
        }
    }

    fn indent_over(&mut self, parent: i32) -> i32 {
        parent + 1 + if self.s.coin() { 1 } else { self.s.below(if self.o.big == 10 { 70 } else { 4 }) as i32 }
    }

    /// A node of a block context whose parent is indented by `parent`
    fn node(&mut self, parent: i32, pos: Pos, kind: K, depth: usize) {
        self.budget -= 1;
        if let Some(a) = self.alias_at(kind) {
            self.place(parent, pos);
            self.put_alias(&a);
            if self.hit(25) {
                let t = self.s.pick(&[" b", " 'b'", " [b]", " *b", " &b", " !t", " &b c", " {"]);
                self.put(t);
            }
            return;
        }
        if kind == K::Root && pos == Pos::RootMarker && self.hit(20) {
            let t = self.s.pick(&[" - b", " ? b", " &a - b", " !t ? b", " : b", " 'x': y", " \"x\" : y", " 'x' :"]);
            if t.contains('x') {
                self.ev.push(Ev::Scalar(Props::default(), K::Root, if t.contains('\'') { St::Single } else { St::Double }, "x".into()));
                self.defect.as_mut().unwrap().ev += 1;
            }
            self.put(t);
            self.ev.push(Ev::SeqEnd);
            return;
        }
        if self.o.defect == 22 || self.o.defect == 24 {
            let before = self.out.len();
            if self.hit(22) {
                self.place(parent, pos);
                let t = self.s.pick(&["&a - b", "!t - b", "&a ? b", "!t &a - b", "&b\t-", "!t ?"]);
                self.put(t);
            } else if self.hit(24) {
                self.place(parent, pos);
                let t = self.s.pick(&[",", "]", "}", ", a", "]b", "} a"]);
                self.put(t);
            }
            if self.out.len() > before {
                self.ev.push(Ev::SeqEnd);
                return;
            }
        }
        if pos == Pos::Val && self.hit(16) {
            let t = self.s.pick(&[" - b", " 'x': y", " \"x\" : y", " ? x", " &a - b"]);
            if t.contains(':') {
                self.ev.push(Ev::Scalar(Props::default(), K::Value, if t.contains('\'') { St::Single } else { St::Double }, "x".into()));
                self.defect.as_mut().unwrap().ev += 1;
            }
            self.put(t);
            self.ev.push(Ev::SeqEnd);
            return;
        }
        let (ptext, props) = self.gen_props();
        // empty nodes
        if (kind != K::Root || !ptext.is_empty()) && self.s.one_in(10) {
            if !ptext.is_empty() {
                self.place(parent, pos);
                self.put_props(&ptext);
            }
            self.ev.push(Ev::Scalar(scalar_props(props), kind, St::Plain, String::new()));
            return;
        }
        let collection = depth > 0 && self.budget > 0 && !self.s.one_in(3);
        if !collection {
            self.place(parent, pos);
            if !ptext.is_empty() {
                self.put_props(&ptext);
                self.sep(parent);
            }
            self.block_scalar_or_flow(parent, kind, props);
            return;
        }
        if self.o.deep && self.deep == 0 && pos != Pos::RootBol {
            self.deep(parent, pos, kind, ptext, props);
            return;
        }
        if self.o.flow && self.s.one_in(3) {
            self.place(parent, pos);
            if !ptext.is_empty() {
                self.put_props(&ptext);
                self.sep(parent);
            }
            self.flow_collection(parent, kind, props, false, depth);
            return;
        }
        self.feats |= F_BLOCK;
        let seq = self.s.coin();
        // where the collection starts
        let c;
        let mut first_inline = false;
        if !ptext.is_empty() {
            match pos {
                Pos::RootBol => {}
                _ => self.gap_plain(),
            }
            self.put_props(&ptext);
            self.fresh();
            c = if parent < 0 { if self.s.one_in(4) { self.s.below(3) as i32 } else { 0 } } else { self.coll_indent(parent, pos, seq) };
        } else {
            match pos {
                Pos::RootBol => c = if self.s.one_in(4) { self.s.below(3) as i32 } else { 0 },
                Pos::RootMarker => {
                    self.fresh();
                    c = if self.s.one_in(4) { self.s.below(3) as i32 } else { 0 };
                }
                Pos::Compact if !self.s.one_in(4) => {
                    let n = if self.s.one_in(4) { self.s.range(1, 4) as i32 } else { 1 };
                    self.sp(n);
                    c = self.col();
                    first_inline = true;
                }
                _ => {
                    self.fresh();
                    c = self.coll_indent(parent, pos, seq);
                }
            }
        }
        let n = self.s.range(1, self.o.width);
        if seq {
            self.ev.push(Ev::SeqStart(props, kind));
            for i in 0..n {
                if i > 0 && c > parent && parent >= -1 {
                    self.bad_entry(parent, c, true);
                }
                if i > 0 || !first_inline {
                    self.begin(c);
                }
                self.put("-");
                self.node(c, Pos::Compact, K::Entry, depth - 1);
            }
            self.ev.push(Ev::SeqEnd);
        } else {
            self.ev.push(Ev::MapStart(props, kind));
            let mut valued = true;
            for i in 0..n {
                if i > 0 {
                    self.bad_entry(parent, c, false);
                }
                if i > 0 || !first_inline {
                    self.begin(c);
                }
                if self.o.explicit && self.s.one_in(3) {
                    self.feats |= F_EXPLICIT;
                    self.put("?");
                    self.node(c, Pos::Compact, K::Key, depth - 1);
                    valued = !self.s.one_in(5);
                    if !valued {
                        self.ev.push(Ev::Scalar(Props::default(), K::Value, St::Plain, String::new()));
                    } else {
                        self.begin(c);
                        self.put(":");
                        self.node(c, Pos::Compact, K::Value, depth - 1);
                    }
                } else {
                    // without a key it would be the value of the one before
                    if valued && self.o.explicit && self.o.defect == 0 && self.s.one_in(12) {
                        self.ev.push(Ev::Scalar(Props::default(), K::Key, St::Plain, String::new()));
                    } else {
                        self.implicit_key(depth);
                    }
                    valued = true;
                    self.put(":");
                    self.node(c, Pos::Val, K::Value, depth - 1);
                }
            }
            self.ev.push(Ev::MapEnd);
        }
    }

    /// A scalar inside many collections
    fn deep(&mut self, parent: i32, pos: Pos, kind: K, ptext: String, props: Props) {
        self.place(parent, pos);
        self.put_props(&ptext);
        if !ptext.is_empty() {
            self.sep(parent);
        }
        let n = self.s.range(2, 150);
        self.deep = n;
        self.feats |= F_FLOW;
        let mut props = Some((props, kind));
        let open = self.out.len() + 1;
        let mut seqs = Vec::new();
        for _ in 0..n {
            let (p, k) = props.take().unwrap_or((Props::default(), if seqs.last() == Some(&true) { K::Entry } else { K::Value }));
            let seq = self.s.coin();
            seqs.push(seq);
            if seq {
                self.put("[");
                self.span(self.out.len() - 1);
                self.ev.push(Ev::SeqStart(p, k));
            } else {
                self.put("{a: ");
                self.spans.push((self.ev.len(), self.out.len() - 4, self.out.len() - 3));
                self.spans.push((self.ev.len() + 1, self.out.len() - 3, self.out.len() - 2));
                self.ev.push(Ev::MapStart(p, k));
                self.verb.push(Verbatim { event: self.ev.len(), at: self.out.len() - 3, len: 1 });
                self.ev.push(Ev::Scalar(Props::default(), K::Key, St::Plain, "a".into()));
            }
        }
        self.in_flow += 1;
        self.flow_scalar(parent, if *seqs.last().unwrap() { K::Entry } else { K::Value }, Props::default(), true);
        self.in_flow -= 1;
        while let Some(seq) = seqs.pop() {
            if self.s.one_in(20) {
                self.ws(parent, false);
            }
            self.opens.push(Open { from: open, to: self.out.len(), what: "flow collection" });
            self.put(if seq { "]" } else { "}" });
            self.span(self.out.len() - 1);
            self.ev.push(if seq { Ev::SeqEnd } else { Ev::MapEnd });
        }
    }

    /// What may not follow an entry of a block collection
    fn bad_entry(&mut self, parent: i32, c: i32, seq: bool) {
        let entry = if seq { "- v" } else { "k9: v" };
        let empty = matches!(self.ev.last(), Some(Ev::Scalar(_, _, St::Plain, t)) if t.is_empty());
        if c - parent >= 2 && self.hit(11) {
            let p = parent + 1 + self.s.below((c - parent - 1) as usize) as i32;
            self.begin(p);
            self.put(entry);
            self.fresh();
        } else if !empty && (seq || !matches!(self.ev.last(), Some(Ev::SeqEnd))) && self.hit(12) {
            self.begin(c);
            self.put(if seq { "k9: v" } else { "- v" });
            self.fresh();
        } else if !seq && !empty && self.hit(13) {
            self.begin(c);
            let t = self.s.pick(&["\"a", "'a", "a"]);
            self.put(t);
            self.brk();
            let n = self.indent_over(c);
            self.sp(n);
            let t = match &t[..1] {
                "\"" => "b\": c",
                "'" => "b': c",
                _ => "b: c",
            };
            self.put(t);
            self.fresh();
        } else if !seq && !empty && self.hit(14) {
            self.begin(c);
            let n = self.s.range(1025, 1100);
            let y = self.s.pick(&["y", "é", "日"]).repeat(n);
            match self.s.below(3) {
                0 => self.put(&y),
                1 => self.put(&format!("'{}'", y)),
                _ => self.put(&format!("\"{}\"", y)),
            }
            self.put(": v");
            self.fresh();
        }
    }

    fn alias_at(&mut self, kind: K) -> Option<String> {
        if kind == K::Root {
            return None;
        }
        self.alias()
    }

    fn gap_plain(&mut self) {
        let n = if self.s.one_in(4) { self.s.range(1, 4) as i32 } else { 1 };
        self.sp(n);
    }

    fn coll_indent(&mut self, parent: i32, pos: Pos, seq: bool) -> i32 {
        if seq && pos == Pos::Val && self.s.one_in(3) {
            parent
        } else {
            self.indent_over(parent)
        }
    }

    /// Put the cursor where an inline node may start
    fn place(&mut self, parent: i32, pos: Pos) {
        match pos {
            Pos::RootBol => {
                let n = if self.s.one_in(6) { self.s.below(4) as i32 } else { 0 };
                self.sp(n);
            }
            _ => {
                if self.s.one_in(6) {
                    self.fresh_comment();
                    let n = self.indent_over(parent);
                    self.sp(n);
                } else {
                    self.gap();
                }
            }
        }
    }
    /// End the line behind an indicator
    fn fresh_comment(&mut self) {
        self.fresh();
        if self.o.comments && self.s.one_in(3) {
            let n = self.s.below(4) as i32;
            self.sp(n);
            self.comment();
            self.brk();
        }
    }

    /// Between properties and the node they belong to
    fn sep(&mut self, parent: i32) {
        if self.s.one_in(6) {
            self.fresh_comment();
            let n = self.indent_over(parent);
            self.sp(n);
        } else {
            self.gap();
        }
    }

    fn implicit_key(&mut self, depth: usize) {
        self.budget -= 1;
        self.key_from = Some(self.out.len());
        self.implicit_key_(depth);
        self.key_from = None;
    }

    /// Characters an implicit key is to be made longer by: it may have 1024
    fn pad(&mut self, single_line: bool, rest: usize) -> String {
        if !self.o.long {
            return String::new();
        }
        if !single_line {
            let n = self.s.below(1500);
            return self.s.pick(&["y", "y", "é", "日", "😀"]).repeat(n);
        }
        let from = match self.key_from {
            Some(f) => f,
            None => return String::new(),
        };
        let room = 1024usize.saturating_sub(self.out[from..].chars().count() + rest);
        let n = match self.s.below(3) {
            0 => 0,
            1 => room,
            _ => self.s.below(room + 1),
        };
        self.s.pick(&["y", "y", "é", "日", "😀"]).repeat(n)
    }

    fn implicit_key_(&mut self, depth: usize) {
        if let Some(a) = self.alias() {
            self.put_alias(&a);
            self.put(" ");
            return;
        }
        let (ptext, props) = self.gen_props();
        if !ptext.is_empty() {
            self.put_props(&ptext);
            self.put(" ");
            if self.s.one_in(8) {
                self.ev.push(Ev::Scalar(scalar_props(props), K::Key, St::Plain, String::new()));
                return;
            }
        }
        // A flow collection as implicit key is a known finding
        let _ = depth;
        self.flow_scalar(0, K::Key, props, true);
        if self.s.one_in(8) {
            let n = self.s.range(1, 2) as i32;
            self.sp(n);
        }
    }

    // ---- scalars ----------------------------------------------------

    fn word(&mut self, flow: bool) -> String {
        let _ = flow;
        if self.o.unicode && self.s.one_in(8) {
            // any characters which are neither breaks nor a mark
            let n = self.s.range(1, 4);
            let mut w = String::new();
            for _ in 0..n {
                let top = [0xff, 0x7ff, 0xffff, 0x10ffff][self.s.below(4)];
                let c = char::from_u32(self.s.range(0xa0, top) as u32).unwrap_or('\u{e000}');
                w.push(if matches!(c, '\u{2028}' | '\u{2029}' | '\u{feff}') { 'é' } else { c });
            }
            return w;
        }
        let w = if self.o.unicode && self.s.one_in(3) { self.s.pick(&UWORDS) } else { self.s.pick(&WORDS) };
        // where a line starts it would be a marker
        if self.col() == 0 && (w == "---" || w == "...") {
            return format!("w{}", w);
        }
        w.to_string()
    }
    fn plain_word(&mut self, first: bool) -> String {
        let mut w = self.word(true);
        if w.starts_with(|c| "!&*%@`#\"'|>".contains(c)) && first {
            w.insert(0, 'w');
        }
        if w.starts_with('#') {
            w.insert(0, 'w');
        }
        if self.in_flow == 0 && self.s.one_in(10) {
            w.push_str(self.s.pick(&[",", "]", "[x", "}", ",b", "{"]));
        }
        w
    }

    fn block_scalar_or_flow(&mut self, parent: i32, kind: K, props: Props) {
        if self.o.blocks && self.s.one_in(3) {
            self.block_scalar(parent, kind, props)
        } else {
            self.flow_scalar(parent, kind, props, false)
        }
    }

    /// Between two words of a line
    fn blanks(&mut self) -> &'static str {
        const LONG: &str = "                                                                                                                                                                                                                                                                                                              ";
        if self.o.big == 6 && self.key_from.is_none() && self.s.one_in(3) {
            return &LONG[..self.s.range(1, LONG.len())];
        }
        if self.o.tabs {
            self.s.pick(&[" ", " ", "  ", "\t", " \t", "\t ", "     ", "\t\t"])
        } else {
            self.s.pick(&[" ", " ", " ", "  ", "    "])
        }
    }

    /// Separation between two segments of a multi line flow scalar:
    /// writes it, and returns what it stands for
    fn fold(&mut self, parent: i32, trailing: bool) -> String {
        if trailing && self.s.one_in(4) {
            let n = self.s.range(1, 3) as i32;
            self.sp(n);
            if self.o.tabs {
                self.put("\t");
            }
        }
        let k = if self.s.one_in(3) { self.s.range(1, if self.o.big == 6 { 80 } else { 3 }) } else { 0 };
        self.brk();
        for _ in 0..k {
            if self.s.one_in(4) {
                let n = self.s.below(if self.o.big == 6 { 90 } else { 6 }) as i32;
                self.sp(n);
            }
            self.brk();
        }
        let n = self.indent_over(parent);
        self.sp(n.max(0));
        if self.o.tabs && n > parent && self.s.one_in(4) {
            self.put("\t");
        }
        if k == 0 { " ".into() } else { "\n".repeat(k) }
    }

    /// Plain, single or double quoted
    fn flow_scalar(&mut self, parent: i32, kind: K, props: Props, single_line: bool) {
        if props != Props::default() && self.hit(15) {
            self.put("*x ");
        }
        if self.in_flow > 0 && self.hit(18) {
            let t = self.s.pick(&["|", ">", "|-", ">+ ", "|2", "| a"]);
            self.put(t);
        }
        let multi = self.o.multi && !single_line;
        let style = match self.s.below(4) {
            0 | 1 => St::Plain,
            2 => St::Single,
            _ => St::Double,
        };
        let mut val = String::new();
        let mut verbatim = true;
        let most = if self.o.big == 5 && self.key_from.is_none() { 60 } else { 5 };
        let nw = if self.s.one_in(3) { self.s.range(2, most) } else { 1 };
        let at;
        let open = self.out.len() + 1;
        match style {
            St::Plain => {
                at = self.out.len();
                for i in 0..nw {
                    if i > 0 {
                        if multi && self.s.one_in(3) {
                            self.feats |= F_PLAIN_MULTI;
                            verbatim = false;
                            let f = self.fold(parent, true);
                            val.push_str(&f);
                        } else {
                            let g = self.blanks();
                            self.put(g);
                            val.push_str(g);
                        }
                    }
                    if i == 0 && self.hit(5) {
                        let t = self.s.pick(&["@", "`", "%"]);
                        // where a line starts it would be a directive
                        self.put(if self.bol { "@" } else { t });
                    }
                    let w = self.plain_word(true);
                    self.put(&w);
                    val.push_str(&w);
                }
                let w = self.pad(single_line, 2);
                self.put(&w);
                val.push_str(&w);
            }
            St::Single => {
                self.feats |= F_SINGLE;
                self.put("'");
                at = self.out.len();
                let empty = self.s.one_in(8);
                if !empty {
                    if self.s.one_in(6) {
                        let g = self.blanks();
                        self.put(g);
                        val.push_str(g);
                    }
                    for i in 0..nw {
                        if i > 0 {
                            if self.hit(7) {
                                self.brk();
                                let t = self.s.pick(&["--- ", "... ", "---", "..."]);
                                self.put(t);
                                if !t.ends_with(' ') {
                                    self.brk();
                                }
                            }
                            if multi && self.s.one_in(3) {
                                self.feats |= F_QUOTED_MULTI;
                                verbatim = false;
                                let f = self.fold(parent, true);
                                val.push_str(&f);
                            } else {
                                let g = self.blanks();
                                self.put(g);
                                val.push_str(g);
                            }
                        }
                        let mut w = self.word(false);
                        if self.s.one_in(5) && !w.starts_with("--") {
                            w.push_str(self.s.pick(&["'", "\"", ": ", " #", "\\", "\\n", ", [", "''", "- "]));
                            if w.ends_with(' ') {
                                w.push('z');
                            }
                        }
                        val.push_str(&w);
                        let e = w.replace('\'', "''");
                        if e != w {
                            verbatim = false;
                        }
                        self.put(&e);
                    }
                    if self.s.one_in(6) {
                        let g = self.blanks();
                        self.put(g);
                        val.push_str(g);
                    }
                }
                let w = self.pad(single_line, 3);
                self.put(&w);
                val.push_str(&w);
                self.put("'");
            }
            _ => {
                self.feats |= F_DOUBLE;
                self.put("\"");
                at = self.out.len();
                let empty = self.s.one_in(8);
                if !empty {
                    if self.s.one_in(6) {
                        let g = self.blanks();
                        self.put(g);
                        val.push_str(g);
                    }
                    for i in 0..nw {
                        if i > 0 {
                            if self.hit(7) {
                                self.brk();
                                let t = self.s.pick(&["--- ", "... ", "---", "..."]);
                                self.put(t);
                                if !t.ends_with(' ') {
                                    self.brk();
                                }
                            }
                            if multi && self.s.one_in(3) {
                                self.feats |= F_QUOTED_MULTI;
                                verbatim = false;
                                if self.o.escapes && self.s.one_in(4) {
                                    // escaped line break
                                    if self.s.coin() {
                                        self.put(" ");
                                        val.push(' ');
                                    }
                                    self.put("\\");
                                    self.brk();
                                    let k = if self.s.one_in(3) { self.s.range(1, 3) } else { 0 };
                                    for _ in 0..k {
                                        if self.s.one_in(4) {
                                            let n = self.s.below(6) as i32;
                                            self.sp(n);
                                        }
                                        self.brk();
                                        val.push('\n');
                                    }
                                    let n = self.indent_over(parent);
                                    self.sp(n);
                                } else {
                                    let f = self.fold(parent, true);
                                    val.push_str(&f);
                                }
                            } else {
                                let g = self.blanks();
                                self.put(g);
                                val.push_str(g);
                            }
                        }
                        let mut w = self.word(false);
                        if self.s.one_in(5) && !w.starts_with("--") {
                            w.push_str(self.s.pick(&["'", ": ", " #", ", [", "- ", "|"]));
                            if w.ends_with(' ') {
                                w.push('z');
                            }
                        }
                        if w.contains('"') {
                            verbatim = false;
                        }
                        if self.hit(1) {
                            let t = self.s.pick(&["\\q", "\\xg1", "\\x4", "\\u12g4", "\\u123 ", "\\ud800", "\\udfff", "\\U00110000", "\\U0001000 ", "\\Uffffffff", "\\é", "\\'", "\\X41", "\\1", "\\xé1", "\\uéé"]);
                            self.put(t);
                            self.put("zg");
                        }
                        val.push_str(&w);
                        let e = w.replace('"', "\\\"");
                        self.put(&e);
                        if self.o.escapes && self.s.one_in(3) {
                            verbatim = false;
                            self.feats |= F_ESCAPE;
                            let n = self.s.range(1, 2);
                            for _ in 0..n {
                                let v = self.escape();
                                val.push_str(&v);
                            }
                        }
                    }
                    if self.s.one_in(6) {
                        let g = self.blanks();
                        self.put(g);
                        val.push_str(g);
                    }
                }
                let w = self.pad(single_line, 3);
                self.put(&w);
                val.push_str(&w);
                self.put("\"");
            }
        }
        if style != St::Plain && kind != K::Key && self.in_flow == 0 && self.o.defect == 10 && self.hit(10) {
            let d = self.defect.as_mut().unwrap();
            d.ev += 1;
            let t = self.s.pick(&[" b", "b", " 'b'", " \"b\"", " [b]", " *b", " &b c", " !t"]);
            self.put(t);
        }
        if style != St::Plain {
            self.opens.push(Open { from: open, to: self.out.len() - 1, what: "quoted scalar" });
        }
        if verbatim {
            self.verb.push(Verbatim { event: self.ev.len(), at, len: val.len() });
        }
        self.span(open - 1);
        self.ev.push(Ev::Scalar(scalar_props(props), kind, style, val));
    }

    /// Write an escape sequence, returning what it stands for
    fn escape(&mut self) -> String {
        const E: [(&str, &str); 19] = [
            ("\\n", "\n"),
            ("\\t", "\t"),
            ("\\\\", "\\"),
            ("\\\"", "\""),
            ("\\/", "/"),
            ("\\0", "\0"),
            ("\\a", "\x07"),
            ("\\b", "\x08"),
            ("\\v", "\x0b"),
            ("\\f", "\x0c"),
            ("\\r", "\r"),
            ("\\e", "\x1b"),
            ("\\ ", " "),
            ("\\N", "\u{85}"),
            ("\\_", "\u{a0}"),
            ("\\L", "\u{2028}"),
            ("\\P", "\u{2029}"),
            ("\\\t", "\t"),
            ("\\\\\\\"", "\\\""),
        ];
        match self.s.below(4) {
            0 | 1 => {
                let (t, v) = E[self.s.below(E.len())];
                self.put(t);
                v.to_string()
            }
            2 => {
                let c = self.s.range(0, 255) as u32;
                let t = if self.s.coin() { format!("\\x{:02x}", c) } else { format!("\\x{:02X}", c) };
                self.put(&t);
                char::from_u32(c).unwrap().to_string()
            }
            _ => {
                let c = match self.s.below(4) {
                    0 => ['A', 'é', '日', '\u{ffff}', '\u{d7ff}', '\u{e000}', '\u{20}', '\u{1}'][self.s.below(8)],
                    1 => ['\0', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{fffd}', '\u{feff}', '\u{fff}'][self.s.below(8)],
                    _ => {
                        // any of the basic plane
                        let u = self.s.below(0x10000) as u32;
                        char::from_u32(u).unwrap_or('\u{3ff}')
                    }
                };
                if self.s.coin() {
                    let t = format!("\\u{:04x}", c as u32);
                    self.put(&t);
                    c.to_string()
                } else {
                    let c = if self.s.coin() { c } else { ['😀', '\u{10ffff}', '\u{10000}', '\u{fffff}', '\u{100000}', '\u{3ffff}', '\u{40000}'][self.s.below(7)] };
                    let t = format!("\\U{:08X}", c as u32);
                    self.put(&t);
                    c.to_string()
                }
            }
        }
    }

    fn block_line(&mut self) -> String {
        let nw = self.s.range(1, 3);
        let mut l = String::new();
        for i in 0..nw {
            if i > 0 {
                l.push_str(self.blanks());
            }
            let w = if self.s.one_in(5) { self.s.pick(&["- x", "# c", "k: v", "[", "\"", "'", "|", "%a", "&b", "\\n", "?", "...x", "--- x", ": "]).to_string() } else { self.word(false) };
            l.push_str(&w);
        }
        if self.s.one_in(8) {
            l.push_str(self.s.pick(&[" ", "  ", "\t"]));
        }
        l
    }

    fn block_scalar(&mut self, parent: i32, kind: K, props: Props) {
        let literal = self.s.coin();
        self.feats |= if literal { F_LITERAL } else { F_FOLDED };
        let base = parent.max(0);
        let wide = self.o.big == 10 && self.s.coin();
        let d = if wide {
            self.s.range(10, 80) as i32
        } else if self.s.coin() {
            2
        } else {
            self.s.range(1, 9) as i32
        };
        let indent = base + d;
        let chomp = self.s.below(3); // clip, strip, keep
        let n = if self.s.one_in(10) { 0 } else { self.s.range(1, if self.o.big == 8 { 60 } else { 4 }) };
        let mut lines: Vec<String> = Vec::new();
        let mut explicit = !wide && self.s.one_in(4);
        for i in 0..n {
            // empty lines before each line
            if self.s.one_in(4) {
                let k = self.s.range(1, if matches!(self.o.big, 6 | 8) { 40 } else { 2 });
                for _ in 0..k {
                    lines.push(String::new());
                }
            }
            let mut l = self.block_line();
            if self.s.one_in(6) {
                let lead = self.s.pick(&[" ", "  ", "   ", "\t"]);
                if self.s.one_in(6) {
                    // nothing but white space beyond the indentation
                    l.clear();
                }
                l.insert_str(0, lead);
                if i == 0 && wide {
                    // which the indicator cannot say
                    l = l.trim_start_matches([' ', '\t']).to_string();
                    if l.is_empty() {
                        l.push('w');
                    }
                } else if i == 0 {
                    explicit = true;
                }
            }
            lines.push(l);
        }
        let trailing = if self.s.one_in(3) { self.s.range(1, if self.o.big == 6 { 80 } else { 3 }) } else { 0 };
        // header
        let from = self.out.len();
        let mut text_end = from + 1;
        self.put(if literal { "|" } else { ">" });
        if self.hit(4) {
            let t = self.s.pick(&["x", "+-", "22", "-2x", "1+3", "++", "--", "é", "\"", "2-9", "+1-", " x", "- x"]);
            self.put(t);
            self.brk();
        }
        let ind = if explicit { format!("{}", d) } else { String::new() };
        let ch = ["", "-", "+"][chomp];
        if self.s.coin() {
            self.put(&ind);
            self.put(ch);
        } else {
            self.put(ch);
            self.put(&ind);
        }
        if self.s.one_in(6) {
            self.sp(1);
            if self.o.comments {
                self.comment();
            }
        }
        self.brk();
        let mut val = String::new();
        let at = self.out.len() + indent as usize;
        for l in &lines {
            if l.is_empty() {
                if self.s.one_in(4) {
                    let k = self.s.below(indent as usize + 1) as i32;
                    self.sp(k);
                }
            } else {
                self.sp(indent);
                self.put(l);
                text_end = self.out.len();
            }
            self.brk();
        }
        let end = self.out.len();
        let last = if self.out.ends_with("\r\n") { 2 } else { 1 };
        let newline = last == 1 && self.out.ends_with('\n');
        for _ in 0..trailing {
            if self.s.one_in(4) {
                let k = self.s.below(indent as usize + 1) as i32;
                self.sp(k);
            }
            self.brk();
        }
        // value
        if literal {
            for l in &lines {
                val.push_str(l);
                val.push('\n');
            }
        } else {
            // breaks since the last text, and whether it was more indented
            let mut empties = 0;
            let mut last: Option<bool> = None;
            for l in &lines {
                if l.is_empty() {
                    empties += 1;
                    continue;
                }
                let more = l.starts_with(|c| c == ' ' || c == '\t');
                match last {
                    None => val.push_str(&"\n".repeat(empties)),
                    Some(before) if before || more => val.push_str(&"\n".repeat(empties + 1)),
                    Some(_) if empties == 0 => val.push(' '),
                    Some(_) => val.push_str(&"\n".repeat(empties)),
                }
                val.push_str(l);
                empties = 0;
                last = Some(more);
            }
            if last.is_some() {
                val.push('\n');
            }
        }
        if n == 0 {
            val.clear();
        }
        match chomp {
            0 => {}
            1 => {
                while val.ends_with('\n') {
                    val.pop();
                }
            }
            _ => val.push_str(&"\n".repeat(trailing)),
        }
        if n > 0 && trailing == 0 {
            self.block_end = Some((end, last, self.ev.len(), chomp != 1));
        }
        // one line, found in the source with its line break
        if n == 1 && lines.len() == 1 && (chomp == 1 || newline && (chomp == 0 || trailing == 0)) {
            self.verb.push(Verbatim { event: self.ev.len(), at, len: val.len() });
        }
        self.bol = true;
        self.spans.push((self.ev.len(), from, text_end));
        self.after = if chomp == 2 { AfterBlock::Keep } else { AfterBlock::Trim };
        self.ev.push(Ev::Scalar(scalar_props(props), kind, if literal { St::Literal } else { St::Folded }, val));
    }

    // ---- flow collections -------------------------------------------

    fn ws(&mut self, parent: i32, single_line: bool) {
        match self.s.below(5) {
            0 | 1 => {}
            2 => self.put(" "),
            3 => self.put(if self.o.tabs { "\t" } else { "  " }),
            _ => {
                if single_line || !self.o.multi {
                    self.put(" ");
                } else {
                    if self.o.comments && self.s.one_in(3) {
                        self.put(" ");
                        self.comment();
                    }
                    self.brk();
                    while self.s.one_in(if matches!(self.o.big, 6 | 7) { 2 } else { 6 }) {
                        let n = self.s.below(5) as i32;
                        self.sp(n);
                        if self.o.comments && self.s.coin() {
                            self.comment();
                        }
                        self.brk();
                    }
                    let n = self.indent_over(parent);
                    self.sp(n);
                }
            }
        }
    }

    fn flow_collection(&mut self, parent: i32, kind: K, props: Props, single_line: bool, depth: usize) {
        self.feats |= F_FLOW;
        self.in_flow += 1;
        let seq = self.s.coin();
        let open = self.out.len() + 1;
        let n = self.s.below(self.o.width + 1);
        let (a, b) = if seq { ("[", "]") } else { ("{", "}") };
        self.put(a);
        self.span(self.out.len() - 1);
        self.ev.push(if seq { Ev::SeqStart(props, kind) } else { Ev::MapStart(props, kind) });
        self.ws(parent, single_line);
        let wrong = if seq { "}" } else { "]" };
        if self.hit(8) {
            self.put(wrong);
        }
        for i in 0..n {
            if i > 0 {
                self.put(",");
                self.ws(parent, single_line);
                if self.hit(8) {
                    self.put(wrong);
                }
            }
            if seq && self.hit(13) {
                let t = self.s.pick(&["\"a", "'a", "a"]);
                self.put(t);
                self.brk();
                let n = self.indent_over(parent);
                self.sp(n);
                let (t, st) = match &t[..1] {
                    "\"" => ("b\" : c", St::Double),
                    "'" => ("b': c", St::Single),
                    _ => ("b: c", St::Plain),
                };
                self.put(t);
                self.ev.push(Ev::Scalar(Props::default(), K::Entry, st, "a b".into()));
                self.defect.as_mut().unwrap().ev += 1;
            } else if seq && self.hit(14) {
                let n = self.s.range(1025, 1100);
                let y = self.s.pick(&["y", "é", "日"]).repeat(n);
                let st = [St::Plain, St::Single, St::Double][self.s.below(3)];
                let q = match st {
                    St::Plain => "",
                    St::Single => "'",
                    _ => "\"",
                };
                self.put(&format!("{}{}{}", q, y, q));
                let t = self.s.pick(&[": v", " : v"]);
                self.put(t);
                self.ev.push(Ev::Scalar(Props::default(), K::Entry, st, y));
                self.defect.as_mut().unwrap().ev += 1;
            } else if seq {
                match self.s.below(6) {
                    0 if self.o.explicit => {
                        self.ev.push(Ev::MapStart(Props::default(), K::Entry));
                        self.flow_explicit(parent, single_line, depth);
                        self.ev.push(Ev::MapEnd);
                    }
                    1 => {
                        self.ev.push(Ev::MapStart(Props::default(), K::Entry));
                        self.flow_pair(parent, single_line, depth);
                        self.ev.push(Ev::MapEnd);
                    }
                    _ => self.flow_node(parent, K::Entry, single_line, depth - 1),
                }
            } else {
                match self.s.below(6) {
                    0 if self.o.explicit => self.flow_explicit(parent, single_line, depth),
                    1 => {
                        self.flow_node(parent, K::Key, true, 0);
                        self.ev.push(Ev::Scalar(Props::default(), K::Value, St::Plain, String::new()));
                    }
                    _ => self.flow_pair(parent, single_line, depth),
                }
            }
            if self.hit(9) {
                let plain = matches!(self.ev.iter().rev().find(|e| !matches!(e, Ev::SeqEnd | Ev::MapEnd)), Some(Ev::Scalar(_, _, St::Plain, _)) | Some(Ev::Alias(_)));
                let t = self.s.pick(&[",,", ", ,", ", \t,", " 'a'", " \"a\"", " []", " {}", " ? a", " ? ", " ? a : b"]);
                self.put(if plain { ",," } else { t });
            } else if self.hit(19) {
                self.brk();
                let t = self.s.pick(&["---", "...", "--- a", "... "]);
                self.put(t);
                self.brk();
            } else if self.hit(8) {
                self.put(wrong);
            }
            self.ws(parent, single_line);
        }
        if n > 0 && self.s.one_in(6) {
            self.put(",");
            self.ws(parent, single_line);
            if self.hit(8) {
                self.put(wrong);
            }
        }
        self.opens.push(Open { from: open, to: self.out.len(), what: "flow collection" });
        self.put(b);
        self.span(self.out.len() - 1);
        self.ev.push(if seq { Ev::SeqEnd } else { Ev::MapEnd });
        self.in_flow -= 1;
    }

    /// A pair behind '?', either part of which may be left out
    fn flow_explicit(&mut self, parent: i32, single_line: bool, depth: usize) {
        self.put("?");
        if self.s.one_in(4) {
            self.ws(parent, single_line);
        }
        self.put(" ");
        if self.s.one_in(5) {
            self.empty(K::Key);
        } else {
            self.flow_node(parent, K::Key, single_line, depth - 1);
        }
        if self.s.one_in(5) {
            self.empty(K::Value);
            return;
        }
        self.put(" : ");
        if self.s.one_in(5) {
            self.empty(K::Value);
        } else {
            self.flow_node(parent, K::Value, single_line, depth - 1);
        }
    }

    fn empty(&mut self, kind: K) {
        self.ev.push(Ev::Scalar(Props::default(), kind, St::Plain, String::new()));
    }

    fn flow_pair(&mut self, parent: i32, single_line: bool, depth: usize) {
        if self.s.one_in(12) {
            // without a key
            self.empty(K::Key);
            self.put(": ");
            if self.s.one_in(4) {
                self.empty(K::Value);
            } else {
                self.flow_node(parent, K::Value, single_line, depth - 1);
            }
            return;
        }
        let outer = self.key_from.replace(self.out.len());
        self.flow_node(parent, K::Key, true, 0);
        self.key_from = outer;
        let bare = match self.ev.last() {
            Some(Ev::Alias(_)) => true,
            Some(Ev::Scalar(_, _, St::Plain, t)) => t.is_empty(),
            _ => false,
        };
        if bare && !self.out.ends_with(' ') {
            self.put(" ");
        }
        match self.s.below(8) {
            0 => {
                // empty value
                let tight = self.s.one_in(3);
                self.put(if tight { ":" } else { ": " });
                self.ev.push(Ev::Scalar(Props::default(), K::Value, St::Plain, String::new()));
                return;
            }
            1 => self.put(" : "),
            2 if self.out.ends_with(|c| c == '"' || c == '\'' || c == ']' || c == '}') => {
                self.put(":");
                if !matches!(self.ev.last(), Some(Ev::Scalar(_, _, St::Single | St::Double, _))) {
                    self.put(" ");
                }
            }
            _ => self.put(": "),
        }
        self.flow_node(parent, K::Value, single_line, depth - 1);
    }

    fn flow_node(&mut self, parent: i32, kind: K, single_line: bool, depth: usize) {
        self.budget -= 1;
        if let Some(a) = self.alias() {
            self.put_alias(&a);
            if kind != K::Key && self.hit(25) {
                let t = self.s.pick(&[" b", " 'b'", " [b]", " *b ", " &b ", " !t ", " &b c", " {"]);
                self.put(t);
            }
            if self.s.coin() {
                self.put(" ");
            }
            return;
        }
        let (ptext, props) = self.gen_props();
        if !ptext.is_empty() {
            self.put_props(&ptext);
            if self.hit(23) {
                self.put(" - ");
            }
            if self.s.one_in(6) {
                // an anchor ends by itself
                let bare = ptext.rfind('&').map_or(false, |i| !ptext[i..].contains(' ')) && self.s.coin();
                if !bare {
                    self.put(" ");
                }
                self.ev.push(Ev::Scalar(scalar_props(props), kind, St::Plain, String::new()));
                return;
            }
            self.put(" ");
        } else if self.hit(23) {
            let t = self.s.pick(&["- ", "-\t", "- - "]);
            self.put(t);
        }
        if depth > 0 && self.budget > 0 && self.s.one_in(3) {
            self.flow_collection(parent, kind, props, single_line, depth);
        } else {
            self.flow_scalar(parent, kind, props, single_line);
        }
    }
}

/// The non specific tag '!' says nothing about a scalar, and isn't reported
fn scalar_props(mut p: Props) -> Props {
    if matches!(&p.tag, Some((h, s)) if h == "!" && s.is_empty()) {
        p.tag = None;
    }
    p
}
