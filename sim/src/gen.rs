//! Content generators: token soup, model documents, mutations of them.

use crate::choice::Src;
use crate::doc::{self, Doc, Opts};

const TOK: [&str; 93] = [
    "a", "b c", "- ", "-", "? ", ": ", ":", "\n", "\n  ", "\n    ", "  ", "\t", "[", "]", "{", "}", ", ", ",", "&a ", "*a ", "!t ", "!!str ", "!<x> ",
    "%YAML 1.2\n", "%TAG !e! p:\n", "---", "--- ", "...", "\n...\n", "\n---\n", "|", "|\n", "|2\n", "|-\n", ">+\n", ">", "\"", "'", "\"x\"", "'y'", "\\", "\\n",
    "\\u00e9", "\\ud800", "\\U00110000", "\\x4", "#c\n", " #", "\r", "\r\n", "%", "%41", "@", "`", "0", "9", "!e!%c3 ", "!e!%c3%a9 ", "!", "'' ", "~", "k: v\n", "- x\n", "k:\n",
    "|\n  t\n", ">\n  f\n  g\n", "\"a\\\nb\"", "- - ", "? k\n: v\n", "a: b", "[a, b]", "{a: b}", "''", "&", "*", "%TAG ! !\n", "%FOO x\n", "\0",
    "\\u07ff", "\\u0800", "\\x7f", "\\x80", "\\U0000ffff", "\\U00010000", "\\U0010ffff", "\\N", "\\ ", "[[[[", "- - - ", "&a", "*a", "!<", "k",
];
const UTOK: [&str; 10] = ["é", "\u{85}", "\u{2028}", "日", "😀", "\u{feff}", "\u{a0}", "ß: ", "\u{2029}", "\u{7f}"];

pub fn soup(s: &mut Src) -> String {
    let hi = if s.one_in(8) { 60 } else { 16 };
    let n = s.range(1, hi);
    let uni = s.one_in(3);
    // a run sticks to some of the tokens
    let k = s.range(3, TOK.len());
    let off = s.below(TOK.len());
    let mut t = String::from(if s.one_in(20) { "\u{feff}" } else { "" });
    for _ in 0..n {
        if uni && s.below(6) == 5 {
            t.push_str(UTOK[s.below(UTOK.len())]);
        } else {
            t.push_str(TOK[(off + s.below(k)) % TOK.len()]);
        }
    }
    t
}

pub fn mutate(s: &mut Src, base: &str) -> String {
    let mut cs: Vec<char> = base.chars().collect();
    let n = s.range(1, 3);
    for _ in 0..n {
        let at = s.below(cs.len() + 1);
        match s.below(6) {
            0 => {
                let t = if s.one_in(5) { UTOK[s.below(UTOK.len())] } else { TOK[s.below(TOK.len())] };
                for (i, c) in t.chars().enumerate() {
                    cs.insert(at + i, c);
                }
            }
            1 => {
                let k = s.range(1, 4).min(cs.len() - at);
                cs.drain(at..at + k);
            }
            2 => cs.truncate(at),
            3 if at < cs.len() => {
                let k = s.range(1, 20).min(cs.len() - at);
                let d: Vec<char> = cs[at..at + k].to_vec();
                let to = s.below(cs.len() + 1);
                for (i, c) in d.into_iter().enumerate() {
                    cs.insert(to + i, c);
                }
            }
            4 if at < cs.len() => {
                let t: Vec<char> = TOK[s.below(TOK.len())].chars().collect();
                cs[at] = t[0];
            }
            _ => {
                // change the indentation of a line
                let p = (0..at.min(cs.len())).rev().find(|&i| cs[i] == '\n').map(|i| i + 1).unwrap_or(0);
                if s.coin() {
                    let k = s.range(1, 3);
                    for _ in 0..k {
                        cs.insert(p, ' ');
                    }
                } else if p < cs.len() && cs[p] == ' ' {
                    cs.remove(p);
                }
            }
        }
    }
    cs.into_iter().collect()
}

/// Model document with the options of this run
pub fn model(s: &mut Src) -> Doc {
    let o = Opts::gen(s);
    doc::stream(s, o)
}

/// Any content: mostly well formed
pub fn content(s: &mut Src) -> String {
    match s.below(8) {
        0..=4 => model(s).text,
        5 => soup(s),
        6 => {
            let d = model(s);
            mutate(s, &d.text)
        }
        _ => {
            let d = model(s);
            let e = soup(s);
            format!("{}{}", d.text, e)
        }
    }
}

/// Pad content so that the shipped refill size (8 KiB) cuts it at this offset
pub fn pad_for_8k(text: &str, cut: usize) -> Option<String> {
    if cut > text.len() || cut > 8000 || text.starts_with('%') {
        return None;
    }
    let pad = 8192 - cut;
    let mut t = String::with_capacity(8192 + text.len());
    t.push('#');
    while t.len() + 1 < pad {
        let n = (pad - t.len() - 1).min(100);
        if n == 100 && pad - t.len() > 103 {
            t.push_str(&"x".repeat(98));
            t.push_str("\n#");
        } else {
            t.push_str(&"y".repeat(n));
        }
    }
    t.push('\n');
    t.push_str(text);
    debug_assert_eq!(t.len(), 8192 - cut + text.len());
    Some(t)
}

/// Offsets worth cutting the stream at: around indicators, breaks, and
/// inside characters
pub fn hot(text: &[u8]) -> Vec<usize> {
    let mut v = Vec::new();
    for (i, b) in text.iter().enumerate() {
        if !(b.is_ascii_alphanumeric() || *b == b' ') {
            v.push(i);
            v.push(i + 1);
        } else if *b == b' ' && (i == 0 || text[i - 1] != b' ') {
            v.push(i + 1);
        }
    }
    v.dedup();
    v.retain(|&x| x > 0);
    v
}
