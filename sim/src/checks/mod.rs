//! The properties' checks. Each is a function of the run's choices which
//! drives the real library through a simulated execution.

use crate::choice::Src;
use crate::ctx::{Ctx, R};

mod util;

mod c01_delivery;
mod c02_model;
mod c03_fault;
mod c04_fused;
mod c05_memory;
mod c06_borrow;
mod c07_lazy;
mod c08_panic;
mod c09_bounded;
mod c10_grammar;
mod c11_utf8;
mod c12_consumers;
mod c13_cut;
mod c14_demand;
mod c15_documents;
mod c16_handles;
mod c18_cost;
mod c20_defect;
mod c21_marks;
mod c22_category;
mod c23_giveback;

struct Check {
    id: &'static str,
    run: fn(&mut Src, &mut Ctx) -> R,
    /// runs of the quick tier, its time cap, the thorough tier's time
    budget: (u64, u64, u64),
    rule: &'static str,
}

const CHECKS: &[Check] = &[
    Check { id: "C01", run: c01_delivery::run, budget: (400_000, 90, 1800), rule: "run = one content x two or more deliveries of it; counted when a read was short, interrupted, or a refill boundary fell inside the content; distinct by content and delivery plan" },
    Check { id: "C02", run: c02_model::run, budget: (400_000, 90, 1800), rule: "run = one model document stream x source kind x delivery; counted when the stream holds more than one scalar; distinct by text" },
    Check { id: "C03", run: c03_fault::run, budget: (400_000, 90, 1200), rule: "run = content x delivery x fault; counted when the fault fired; distinct by content, plan and fault" },
    Check { id: "C04", run: c04_fused::run, budget: (300_000, 90, 1200), rule: "run = content x delivery x fault x history of later polls; counted when production ended with an error; distinct by content and plan" },
    Check { id: "C05", run: c05_memory::run, budget: (150_000, 120, 1800), rule: "run = content x delivery x fault x history of keeping, cloning, dropping and inspecting events; counted when a refill boundary fell inside the content while events were kept; distinct by content and plan" },
    Check { id: "C06", run: c06_borrow::run, budget: (400_000, 90, 1200), rule: "run = model document stream x source kind x delivery; counted when it holds verbatim scalars, anchors or aliases; distinct by text and plan" },
    Check { id: "C07", run: c07_lazy::run, budget: (200_000, 120, 1800), rule: "run = content x delivery x schedule of evaluations; counted when a lazy scalar was evaluated after further events were read; distinct by content and plan" },
    Check { id: "C08", run: c08_panic::run, budget: (500_000, 90, 1800), rule: "run = arbitrary bytes x delivery x fault x consumption; counted when the content is not plain ASCII words; distinct by bytes and plan" },
    Check { id: "C09", run: c09_bounded::run, budget: (400_000, 90, 1200), rule: "run = arbitrary bytes x delivery; counted when a refill boundary fell inside the content; distinct by bytes and plan" },
    Check { id: "C10", run: c10_grammar::run, budget: (500_000, 90, 1200), rule: "run = arbitrary bytes x delivery x fault; counted when more than four events were produced; distinct by bytes and plan" },
    Check { id: "C11", run: c11_utf8::run, budget: (400_000, 90, 1200), rule: "run = content with multi byte characters, intact or corrupted, x delivery; counted when it holds a multi byte character or a bad byte; distinct by bytes and plan" },
    Check { id: "C12", run: c12_consumers::run, budget: (120_000, 120, 1200), rule: "run = sources x consumers x schedule of their turns; counted when two consumers' turns interleaved; distinct by content, plan and schedule" },
    Check { id: "C13", run: c13_cut::run, budget: (400_000, 90, 1200), rule: "run = model document stream x cut offset x delivery; counted when the cut is inside an open construct; distinct by cut text" },
    Check { id: "C14", run: c14_demand::run, budget: (300_000, 90, 1200), rule: "run = endless or long stream x delivery x number of polls; counted when events were delivered before the stream's end; distinct by content and plan" },
    Check { id: "C15", run: c15_documents::run, budget: (300_000, 90, 1200), rule: "run = sequence of documents x delivery; counted when there are two or more documents; distinct by text" },
    Check { id: "C16", run: c16_handles::run, budget: (300_000, 90, 1200), rule: "run = content x delivery x history of handle switches; counted when two or more handles were used; distinct by content, plan and history" },
    Check { id: "C18", run: c18_cost::run, budget: (1_500, 90, 1200), rule: "run = family of contents x two lengths of it x source kind x read sizes; counted when the longer content was read beyond the shorter's length; distinct by content, plan and laziness" },
    Check { id: "C20", run: c20_defect::run, budget: (250_000, 90, 1200), rule: "run = model document stream with one defect at a known place x source kind x delivery; counted when a defect was written; distinct by text and plan" },
    Check { id: "C21", run: c21_marks::run, budget: (300_000, 90, 1200), rule: "run = model document stream x source kind x delivery; counted when more than three events have text of their own; distinct by text and plan" },
    Check { id: "C22", run: c22_category::run, budget: (400_000, 90, 1200), rule: "run = arbitrary bytes or cut model document x delivery x fault; counted when an error was met; distinct by bytes and plan" },
    Check { id: "C23", run: c23_giveback::run, budget: (150_000, 90, 1200), rule: "run = arbitrary bytes x source kind x delivery x fault x history of a session, played twice; counted when more than three events were produced; distinct by all of them" },
];

fn get(prop: &str) -> Option<&'static Check> {
    CHECKS.iter().find(|c| c.id == prop)
}

pub fn known(prop: &str) -> bool {
    get(prop).is_some()
}

pub fn ids() -> Vec<&'static str> {
    CHECKS.iter().map(|c| c.id).collect()
}

pub fn run(prop: &str, src: &mut Src, cx: &mut Ctx) -> R {
    (get(prop).expect("property").run)(src, cx)
}

pub fn budget(prop: &str) -> (u64, u64, u64) {
    get(prop).expect("property").budget
}

pub fn rule(prop: &str) -> &'static str {
    get(prop).expect("property").rule
}
