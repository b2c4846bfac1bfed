use super::util;
use crate::choice::Src;
use crate::ctx::{self, viol, Ctx, R};
use crate::gen;
use crate::log::{self, Cat, End, Eval, Item, Log};
use crate::source::{self, SimRead};
use yary::error::Error;
use yary::reader::Read;

/// Read everything, keeping every error met
fn errors<R: Read>(r: &R, lazy: bool, len: usize) -> (Log, Vec<Error>) {
    let mut out = Log { items: Vec::<Item>::new(), end: End::Clean, msg: String::new() };
    let mut errs = Vec::new();
    for e in yary::event::from_reader_with(r, log::flags(lazy)).into_iter().take(log::max_events(len)) {
        match e {
            Ok(mut e) => {
                if let yary::event::types::EventData::Scalar(n) = e.data_mut() {
                    if let Err(e) = n.content.clone().evaluate() {
                        errs.push(e);
                    }
                }
                out.items.push(log::item(&mut e, Eval::Now));
            }
            Err(e) => {
                out.end = log::err(&e);
                out.msg = e.to_string();
                errs.push(e);
            }
        }
    }
    (out, errs)
}

/// What every error says about itself must agree
fn coherent(e: Error, len: usize) -> R {
    let c = log::cat(e.classify());
    let text = e.to_string();
    let debug = format!("{:?}", e);
    if text.is_empty() || debug.is_empty() {
        return viol("an error says nothing", format!("{:?}: {:?} {:?}", c, text, debug));
    }
    if log::cat(e.classify()) != c || e.to_string() != text {
        return viol("an error changed", format!("{:?} {:?}", c, text));
    }
    if e.has_context() && e.at() as usize > len {
        return viol("an error points behind the content", format!("{} of {}: {}", e.at(), len, text));
    }
    let io: std::io::Error = e.into();
    let want = match c {
        Cat::Syntax => Some(std::io::ErrorKind::InvalidInput),
        Cat::Data => Some(std::io::ErrorKind::InvalidData),
        Cat::EOF => Some(std::io::ErrorKind::UnexpectedEof),
        // the original: C03
        Cat::IO => None,
    };
    if want.map_or(false, |w| io.kind() != w) {
        return viol("an error's conversion disagrees with its category", format!("{:?} became {:?}", c, io.kind()));
    }
    if io.to_string() != text {
        return viol("an error's text was lost in its conversion", format!("{:?} {:?} became {:?}", c, text, io.to_string()));
    }
    Ok(())
}

pub fn run(s: &mut Src, cx: &mut Ctx) -> R {
    let mut cut = None;
    let b = match s.below(3) {
        0 => util::bytes(s),
        1 => {
            let t = gen::content(s);
            gen::mutate(s, &t).into_bytes()
        }
        // cut where the text shows that more must follow
        _ => {
            let d = gen::model(s);
            let o: Vec<_> = d.opens.iter().filter(|o| matches!(o.what, "quoted scalar" | "verbatim tag")).collect();
            if o.is_empty() || d.defect.is_some() {
                d.text.into_bytes()
            } else {
                let o = o[s.below(o.len())];
                let mut k = o.from + s.below(o.to - o.from + 1);
                while !d.text.is_char_boundary(k) {
                    k -= 1;
                }
                let quote = d.text[..k].ends_with('\'') && d.text[k..].starts_with('\'');
                // what is left may look like a document marker
                let marker = match d.text[..k].strip_suffix("---").or(d.text[..k].strip_suffix("...")) {
                    Some(x) => !x.ends_with(|c: char| c.is_ascii_graphic() || c == ' ' || c == '\t'),
                    None => false,
                };
                if k >= o.from && !quote && !marker {
                    cut = Some(o.what);
                    d.text.as_bytes()[..k].to_vec()
                } else {
                    d.text.into_bytes()
                }
            }
        }
    };
    let (mut plan, hot) = util::plan(s, &b);
    if s.one_in(4) {
        plan.fault = Some(source::gen_fault(s, b.len(), &hot));
    }
    let lazy = s.coin();
    cx.case(&b);
    cx.case(format!("{:?} {}", plan, lazy).as_bytes());
    cx.note(|| format!("content: {:?}{}", String::from_utf8_lossy(&b), cut.map_or(String::new(), |c| format!(" cut inside a {}", c))));
    let valid = std::str::from_utf8(&b).is_ok();

    let (src, l) = SimRead::new(&b, plan.clone());
    source::install(&plan, &l);
    let reader = yary::reader::from_read(src);
    let (got, errs) = errors(&reader, lazy, b.len());
    // the source is taken
    let other = yary::event::from_reader(&reader).into_iter().next();
    source::uninstall();
    let l = ctx::take(&l);
    cx.account(&b, &l);
    cx.see_log(&got);
    cx.nontrivial = !errs.is_empty();
    cx.note(|| format!("stream ({:?}, lazy {}):\n{}  source: {:?}", plan, lazy, log::show(&got), l));
    match other {
        Some(Err(e)) => {
            if log::cat(e.classify()) != Cat::Data {
                return viol("a source already taken is not reported as such", format!("{:?} {}", e.classify(), e));
            }
            coherent(e, b.len())?;
        }
        _ => return viol("a source already taken was given again", String::new()),
    }
    let failed = !l.fired.is_empty();
    for e in errs {
        let c = log::cat(e.classify());
        cx.hit(&format!("category {:?}", c));
        let wrong = match c {
            Cat::IO => !failed,
            Cat::Data => valid,
            Cat::EOF => l.eof_reads == 0,
            Cat::Syntax => false,
        };
        if wrong {
            return viol(&format!("category {:?} without its reason", c), format!("{} (read failed: {}, valid UTF-8: {}, end seen: {})", e, failed, valid, l.eof_reads > 0));
        }
        coherent(e, b.len())?;
    }
    if !valid {
        if let Err(e) = yary::reader::try_from_bytes(&b) {
            if log::cat(e.classify()) != Cat::Data {
                return viol("invalid UTF-8 is not reported as such", format!("{:?} {}", e.classify(), e));
            }
            coherent(e, b.len())?;
        }
        return Ok(());
    }
    let t = std::str::from_utf8(&b).unwrap();
    let r = yary::reader::from_utf8(t);
    let (held, errs) = errors(&r, lazy, b.len());
    cx.see_log(&held);
    cx.note(|| format!("from_utf8:\n{}", log::show(&held)));
    for e in errs {
        let c = log::cat(e.classify());
        if matches!(c, Cat::IO | Cat::Data) {
            return viol(&format!("category {:?} without its reason", c), format!("{} from a string", e));
        }
        coherent(e, b.len())?;
    }
    if let Some(what) = cut {
        cx.hit("cuts");
        // the fault may come first
        for x in [Some(&held), if failed { None } else { Some(&got) }].iter().flatten() {
            if x.end != End::Err(Cat::EOF) {
                return viol("content that ends too early is not reported as such", format!("cut inside a {}: {:?} {}", what, x.end, x.msg));
            }
        }
    }
    Ok(())
}
