use super::util;
use crate::choice::Src;
use crate::ctx::{self, viol, Ctx, R};
use crate::gen;
use crate::log::{Cat, End};
use crate::source;

/// Content with multi byte characters, mostly
fn content(s: &mut Src) -> String {
    match s.below(4) {
        0 => gen::content(s),
        1 => {
            let o = crate::doc::Opts { unicode: true, ..crate::doc::Opts::gen(s) };
            crate::doc::stream(s, o).text
        }
        _ => {
            // sprinkle characters of each width over any content
            const C: [&str; 14] = ["é", "ß", "日", "本", "😀", "\u{10ffff}", "\u{fffd}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10000}", "\u{80}", "\u{2028}", "\u{feff}"];
            let mut t: Vec<char> = gen::content(s).chars().collect();
            let n = s.range(1, 6);
            for _ in 0..n {
                let at = s.below(t.len() + 1);
                for c in s.pick(&C).chars() {
                    t.insert(at, c);
                }
            }
            t.into_iter().collect()
        }
    }
}

pub fn run(s: &mut Src, cx: &mut Ctx) -> R {
    let text = content(s);
    let lazy = s.one_in(4);
    let mut b = text.clone().into_bytes();
    // characters' insides are what to cut at
    let mid: Vec<usize> = (0..b.len()).filter(|&i| b[i] & 0xc0 == 0x80).collect();
    if s.coin() {
        let plan = source::gen_plan(s, b.len(), &mid);
        cx.case(&b);
        cx.case(format!("{:?}", plan).as_bytes());
        cx.note(|| format!("content: {:?}", text));
        let want = ctx::borrowed(cx, &text, lazy);
        let (got, l) = ctx::stream_with(cx, &b, &plan, lazy);
        cx.add("characters_split", l.cuts.iter().filter(|&&k| k < b.len() && b[k] & 0xc0 == 0x80).count() as u64);
        cx.nontrivial = !mid.is_empty();
        if got.end == End::Err(Cat::Data) && got.msg != want.msg {
            return viol("valid UTF-8 refused", got.msg);
        }
        return util::same_exact("valid stream", &want, &got);
    }
    util::corrupt(s, &mut b);
    let e = match std::str::from_utf8(&b) {
        Ok(_) => return Ok(()),
        Err(e) => e,
    };
    let good = e.valid_up_to();
    cx.hit(if e.error_len().is_none() { "cut_characters" } else { "bad_bytes" });
    let hot: Vec<usize> = (good.saturating_sub(2)..=(good + 4).min(b.len())).chain(mid.iter().copied().filter(|&k| k <= b.len())).collect();
    let plan = source::gen_plan(s, b.len(), &hot);
    cx.case(&b);
    cx.case(format!("{:?}", plan).as_bytes());
    cx.note(|| format!("content: {:?}\nvalid up to {} of {}", String::from_utf8_lossy(&b), good, b.len()));
    match yary::reader::try_from_bytes(&b) {
        Ok(_) => return viol("slice constructor accepts invalid UTF-8", format!("{:?}", b)),
        Err(e) => {
            let c = e.classify();
            let mut cause = std::error::Error::source(&e);
            while cause.map_or(false, |c| !c.is::<std::str::Utf8Error>()) {
                cause = cause.and_then(|c| c.source());
            }
            if cause.is_none() {
                return viol("the encoding error is not the error's source", format!("{:?}", e));
            }
            let io: std::io::Error = e.into();
            if c != yary::error::Category::Data || io.kind() != std::io::ErrorKind::InvalidData {
                return viol("slice constructor misreports invalid UTF-8", format!("{:?} {:?}", c, io.kind()));
            }
        }
    }
    // the longest events the valid part can give: alone, or followed by more
    let want = ctx::borrowed(cx, std::str::from_utf8(&b[..good]).unwrap(), lazy);
    let got = ctx::stream(cx, &b, &plan, lazy);
    cx.nontrivial = true;
    match got.end {
        End::Clean => return viol("stream with invalid UTF-8 ended cleanly", String::new()),
        End::Err(Cat::Data) => {}
        // an earlier error of the content
        End::Err(_) if want.end == got.end && want.msg == got.msg => {}
        x => return viol("invalid UTF-8 not reported as such", format!("{:?} {} (valid part alone: {:?} {})", x, got.msg, want.end, want.msg)),
    }
    util::prefix("events before the bad bytes", &want.items, &got.items)
}
