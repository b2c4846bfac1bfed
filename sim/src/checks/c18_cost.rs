//! Cost grows with the content: the same content, several times longer,
//! costs at most as many times more.

use crate::choice::Src;
use crate::cost::{self, Cost};
use crate::ctx::{self, viol, Ctx, R};
use crate::doc;
use crate::gen;
use crate::log;
use crate::source::{self, Act, Plan, SimRead};

/// A family of contents: a beginning, what is repeated, and an end
struct Family {
    start: String,
    unit: String,
    /// Between the units and what is repeated behind them
    middle: String,
    /// Repeated behind as often as the unit, if any
    close: String,
    end: String,
}

impl Family {
    fn make(&self, len: usize) -> String {
        let one = self.unit.len() + self.close.len() + 4 * self.unit.matches(NUMBER).count();
        let n = len / one.max(1) + 1;
        let mut t = self.start.clone();
        if self.unit.contains(NUMBER) || self.close.contains(NUMBER) {
            for i in 0..n {
                t.push_str(&self.unit.replace(NUMBER, &format!("{:06}", i)));
            }
            t.push_str(&self.middle);
            for i in (0..n).rev() {
                t.push_str(&self.close.replace(NUMBER, &format!("{:06}", i)));
            }
        } else {
            t.push_str(&self.unit.repeat(n));
            t.push_str(&self.middle);
            t.push_str(&self.close.repeat(n));
        }
        t.push_str(&self.end);
        t
    }
}

/// Where each repetition has its own number
const NUMBER: &str = "§";

const F: [(&str, &str, &str, &str); 68] = [
    ("", "y", "", ""),
    ("", "y ", "", "y"),
    ("", "a\n", "", ""),
    ("", "a\n\n", "", ""),
    ("'", "''", "", "'"),
    ("'", "a\n ", "", "'"),
    ("'", "a\n\n ", "", "'"),
    ("\"", "\\n", "", "\""),
    ("\"", "\\u00e9", "", "\""),
    ("\"", "a\\\n ", "", "\""),
    ("\"", "a\n ", "", "\""),
    ("\"", " \n", "", "\""),
    ("|\n", " a\n", "", ""),
    ("|+\n", "\n", "", ""),
    (">\n", " a\n", "", ""),
    (">\n", " a\n  b\n", "", ""),
    (">\n", "\n", "", " a\n"),
    ("|-\n a\n", "\n", "", ""),
    ("", "# a\n", "", ""),
    ("", "\n", "", ""),
    ("", " ", "", ""),
    ("", " \n", "", "a"),
    ("#", "a", "", ""),
    ("a #", "a", "", ""),
    ("", "- a\n", "", ""),
    ("", "a: b\n", "", ""),
    ("", "? a\n: b\n", "", ""),
    ("", "- ", "", "a"),
    ("", "? ", "", "a"),
    ("", "[", "", ""),
    ("", "[", "]", ""),
    ("", "{a: ", "}", ""),
    ("[", "a, ", "", "]"),
    ("{", "a: b, ", "", "}"),
    ("[", "a: b, ", "", "]"),
    ("[", "a,\n", "", "]"),
    ("", "[a, ", "]", ""),
    ("", "[\n", "]\n", ""),
    ("", "--- a\n", "", ""),
    ("", "a\n...\n", "", ""),
    ("", "%TAG !a! x\n--- !a!b c\n...\n", "", ""),
    ("", "...\n", "", ""),
    ("&", "a", "", " b"),
    ("!", "a", "", " b"),
    ("!", "%41", "", " b"),
    ("!<", "a", "", "> b"),
    ("", "- &a b\n- *a\n", "", ""),
    ("", "- !t b\n", "", ""),
    ("", "- |\n  a\n", "", ""),
    ("", "-\n", "", ""),
    ("", "a:\n- b\n- c\n", "", ""),
    ("", "k: [a, {b: c}, 'd', \"e\"]\n", "", ""),
    ("", "- &a§ b\n", "", ""),
    ("", "- &a§ b\n", "- *a§\n", ""),
    ("", "- *a§\n", "", ""),
    ("[", "&a§ b, ", "", "]"),
    ("", "a§: b\n", "", ""),
    ("{", "a§: b, ", "", "}"),
    ("", "&a§ a§: !t§ b\n", "", ""),
    ("", "- 'a§'\n", "", ""),
    ("", "- \"a§\"\n", "", ""),
    ("", "- \"\\x41§\"\n", "", ""),
    ("", "- !t§ b\n", "", ""),
    ("", "- !<t§> b\n", "", ""),
    ("", "- |\n  a§\n", "", ""),
    ("", "%TAG !a§! x§\n--- !a§!b c\n...\n", "", ""),
    ("", "%TAG !a§! x§\n", "", "--- a"),
    ("", "%TAG !a§! x§\n", "--- !a§!b c\n...\n", ""),
];

/// Likewise, with something between the two repetitions
const M: [(&str, &str, &str, &str, &str); 6] = [
    ("", "%TAG !a§! x§\n", "---\n", "- !a§!b\n", ""),
    ("", "%TAG !a§! x§\n", "--- [", "!a§!b c, ", "]"),
    ("", "%TAG !a§! x§\n", "---\n", "? !a§!b c\n: d\n", ""),
    ("", "- &a§ b\n", "- ", "[*a§, ", ""),
    ("[", "&a§ b, ", "", "*a§ , ", "]"),
    ("", "a§: b\n", "---\n", "- *a§\n", ""),
];

fn family(s: &mut Src) -> Family {
    match s.below(4) {
        0 | 1 if s.one_in(12) => {
            let (a, u, m, c, e) = M[s.below(M.len())];
            Family { start: a.into(), unit: u.into(), middle: m.into(), close: c.into(), end: e.into() }
        }
        0 | 1 => {
            let (a, u, c, e) = F[s.below(F.len())];
            let mut f = Family { start: a.into(), unit: u.into(), middle: String::new(), close: c.into(), end: e.into() };
            if s.one_in(4) {
                // as a value, or inside a collection
                f.start.insert_str(0, s.pick(&["- ", "a: ", "--- ", "[", "{a: ", "? ", "&a ", "!t "]));
            }
            f
        }
        2 => {
            // anything
            let mut t = || {
                let t = gen::soup(s);
                let k = t.char_indices().nth(24).map_or(t.len(), |c| c.0);
                t[..k].to_string()
            };
            let mut unit = t();
            let start = t();
            let end = t();
            let close = if unit.len() % 4 == 0 { t() } else { String::new() };
            if s.one_in(3) {
                // every repetition is different
                let k: Vec<usize> = unit.char_indices().map(|c| c.0).collect();
                if !k.is_empty() {
                    unit.insert_str(k[s.below(k.len())], NUMBER);
                }
            }
            Family { start, unit, middle: String::new(), close, end }
        }
        _ => {
            // a document of the model
            let mut o = doc::Opts::gen(s);
            o.docs = 1;
            o.long = false;
            o.big = 0;
            o.mark = false;
            o.deep = false;
            let d = doc::stream(s, o);
            Family { start: String::new(), unit: format!("{}\n...\n", d.text), middle: String::new(), close: String::new(), end: String::new() }
        }
    }
}

/// What reading this costs, and how it ends
fn read(text: &str, plan: Option<&Plan>, lazy: bool) -> (usize, log::End, Cost, u64) {
    let mut n = 0;
    let mut end = log::End::Clean;
    let mut eat = |e: yary::error::Result<yary::event::types::Event<'_>>| match e {
        Ok(_) => n += 1,
        Err(e) => end = log::err(&e),
    };
    let (reads, cost) = match plan {
        None => cost::measure(|| {
            let r = yary::reader::from_utf8(text);
            let mut ev = yary::event::from_reader_with(&r, log::flags(lazy));
            ev.iter().for_each(&mut eat);
            0
        }),
        Some(p) => {
            let (src, l) = SimRead::new(text.as_bytes(), p.clone());
            source::install(p, &l);
            let (_, c) = cost::measure(|| {
                let r = yary::reader::from_read(src);
                let mut ev = yary::event::from_reader_with(&r, log::flags(lazy));
                ev.iter().for_each(&mut eat);
            });
            source::uninstall();
            let l = ctx::take(&l);
            (l.reads, c)
        }
    };
    (n, end, cost, reads)
}

pub fn run(s: &mut Src, cx: &mut Ctx) -> R {
    if !cost::counting() {
        panic!("this build does not count edges: run it through check.sh");
    }
    let f = family(s);
    if f.unit.contains(NUMBER) {
        cx.hit("every_repetition_different");
    }
    let (base, times) = [(3_000, 8), (9_000, 8), (30_000, 8), (9_000, 32), (30_000, 64)][if s.one_in(12) { 4 } else { s.below(4) }];
    let lazy = s.one_in(4);
    // the shipped refill sizes: what a refill takes is the library's choice
    let plan = if s.below(3) == 0 {
        None
    } else {
        let mut p = Plan::whole();
        p.acts = match s.below(3) {
            0 => p.acts,
            1 => vec![Act::Data(s.range(64, 5000), 1)],
            _ => vec![Act::Data(s.range(16, 9000), 3), Act::Intr(1), Act::Data(s.range(16, 9000), 0)],
        };
        Some(p)
    };
    let small = f.make(base);
    let large = f.make(base * times);
    // a model document may be longer than the base
    let growth = large.len() as f64 / small.len() as f64;
    cx.case(small.as_bytes());
    cx.case(format!("{:?} {}", plan, lazy).as_bytes());
    cx.note(|| format!("{:?} + n * {:?} + {:?} + n * {:?} + {:?}, {} and {} bytes, lazy {}\nplan: {:?}", f.start, f.unit, f.middle, f.close, f.end, small.len(), large.len(), lazy, plan));
    if growth < 2.0 || large.len() > 4_000_000 {
        return Ok(());
    }
    // once beforehand: what is set up only once is not counted
    read("a", plan.as_ref(), lazy);
    let (n1, e1, c1, r1) = read(&small, plan.as_ref(), lazy);
    let (n2, e2, c2, r2) = read(&large, plan.as_ref(), lazy);
    cx.note(|| format!("{} events, {:?}, {:?}, {} reads\n{} events, {:?}, {:?}, {} reads", n1, e1, c1, r1, n2, e2, c2, r2));
    cx.see(format!("{} {:?} {} {:?}", n1, e1, n2, e2).as_bytes());
    cx.add("bytes_read", (small.len() + large.len()) as u64);
    cx.add("edges_executed", c1.edges + c2.edges);
    cx.hit(if plan.is_some() { "stream_source" } else { "string_source" });
    cx.hit(&format!("ended: {:?}", e2));
    cx.nontrivial = n2 > 2 * n1 || e2 == log::End::Clean;
    let per = |c: u64, len: usize| c as f64 / len as f64;
    for (what, a, b, most, slack) in [
        ("work", c1.edges, c2.edges, 15_000.0, 60_000.0),
        ("moved bytes", c1.moved, c2.moved, 20_000.0, 200_000.0),
        ("allocated bytes", c1.taken, c2.taken, 20_000.0, 200_000.0),
        ("allocations", c1.allocs, c2.allocs, 80.0, 2_000.0),
        ("held bytes", c1.peak, c2.peak, 10_000.0, 100_000.0),
    ] {
        cx.max(&format!("{}_per_1000_bytes", what.replace(' ', "_")), (per(b, large.len()) * 1000.0) as u64);
        cx.max(&format!("{}_growth_in_percent_of_the_content's", what.replace(' ', "_")), if (a as f64) < slack / 8.0 { 0 } else { (b as f64 / a as f64 / growth * 100.0) as u64 });
        if b as f64 > a as f64 * growth * 2.9 + slack {
            return viol(&format!("{} grow faster than the content", what), format!("{} for {} bytes, {} for {} bytes: {:?}...", a, small.len(), b, large.len(), small.chars().take(60).collect::<String>()));
        }
        if b as f64 > most * large.len() as f64 + slack {
            return viol(&format!("too many {} for the content", what), format!("{} for {} bytes: {:?}...", b, large.len(), small.chars().take(60).collect::<String>()));
        }
    }
    Ok(())
}
