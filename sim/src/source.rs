//! The simulated byte stream: a `std::io::Read` which does exactly what
//! its plan says, on a simulated clock, and records what it was asked.

use std::cell::RefCell;
use std::io::{self, ErrorKind, Read};
use std::rc::Rc;

use crate::choice::Src;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Act {
    /// Return at most this many bytes, after a delay
    Data(usize, u32),
    /// Fail with ErrorKind::Interrupted
    Intr(u32),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FaultKind {
    /// An error which carries a payload
    Err(ErrorKind),
    /// A kind and nothing else
    Bare(ErrorKind),
    /// A system call's error
    Os(i32),
    Panic,
}

/// EIO, EAGAIN, ENOSPC, EPIPE, ECONNRESET, ETIMEDOUT, EBADF, EISDIR,
/// EINVAL, EPERM, ENOMEM, ENXIO, ESTALE, ECANCELED
pub const OS: [i32; 14] = [5, 11, 28, 32, 104, 110, 9, 21, 22, 1, 12, 6, 116, 125];

impl FaultKind {
    /// The error which the stream fails with
    pub fn error(self, id: u32) -> Option<io::Error> {
        match self {
            FaultKind::Err(k) => Some(io::Error::new(k, Payload(id))),
            FaultKind::Bare(k) => Some(k.into()),
            FaultKind::Os(n) => Some(io::Error::from_raw_os_error(n)),
            FaultKind::Panic => None,
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Fault {
    /// Fires once this many bytes were delivered
    pub at: usize,
    pub kind: FaultKind,
    /// Every later read fails too, or the stream resumes
    pub sticky: bool,
    pub id: u32,
}

/// How a byte stream is delivered: the network / disk of a run
#[derive(Clone, Debug)]
pub struct Plan {
    pub acts: Vec<Act>,
    /// Refill sizes, None: the shipped ones
    pub chunks: Option<Vec<usize>>,
    /// Use the last chunk size forever rather than cycling
    pub chunk_tail: bool,
    pub fault: Option<Fault>,
    /// Where so many interruptions come one after the other
    pub burst: Option<(usize, u32)>,
}

impl Plan {
    pub fn whole() -> Self {
        Plan { acts: vec![Act::Data(usize::MAX, 0)], chunks: None, chunk_tail: false, fault: None, burst: None }
    }
    pub fn with_chunks(c: Vec<usize>) -> Self {
        Plan { chunks: Some(c), ..Plan::whole() }
    }
}

pub const KINDS: [ErrorKind; 28] = [
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::ConnectionReset,
    ErrorKind::BrokenPipe,
    ErrorKind::ConnectionAborted,
    ErrorKind::InvalidData,
    ErrorKind::PermissionDenied,
    ErrorKind::NotConnected,
    ErrorKind::InvalidInput,
    ErrorKind::NotFound,
    ErrorKind::ConnectionRefused,
    ErrorKind::HostUnreachable,
    ErrorKind::NetworkUnreachable,
    ErrorKind::NetworkDown,
    ErrorKind::AddrInUse,
    ErrorKind::AddrNotAvailable,
    ErrorKind::AlreadyExists,
    ErrorKind::NotADirectory,
    ErrorKind::IsADirectory,
    ErrorKind::WriteZero,
    ErrorKind::StorageFull,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::ResourceBusy,
    ErrorKind::Deadlock,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
];

#[derive(Debug)]
pub struct Payload(pub u32);
impl std::fmt::Display for Payload {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "injected fault #{}", self.0)
    }
}
impl std::error::Error for Payload {}

pub const PANIC: &str = "injected panic of the byte source";

#[derive(Default, Debug)]
pub struct SrcLog {
    pub reads: u64,
    pub delivered: usize,
    pub interrupts: u64,
    pub intr_run: u32,
    pub shorts: u64,
    pub delays: u64,
    pub now_ms: u64,
    pub eof_reads: u64,
    pub fired: Vec<(usize, String)>,
    pub reads_after_fault: u64,
    pub refills: u64,
    pub cuts: Vec<usize>,
    /// Largest refill asked for
    pub largest: usize,
    /// the most a refill asked for beyond four times what was taken before it
    pub greed: usize,
}

pub type Log = Rc<RefCell<SrcLog>>;

pub struct SimRead {
    data: Rc<[u8]>,
    /// An endless stream repeats data[loop_from..]
    loop_from: Option<usize>,
    pos: usize,
    step: usize,
    plan: Plan,
    fault_done: bool,
    bursts: u32,
    log: Log,
}

impl SimRead {
    pub fn new(data: &[u8], plan: Plan) -> (Self, Log) {
        let log = Log::default();
        (SimRead { data: data.into(), loop_from: None, pos: 0, step: 0, plan, fault_done: false, bursts: 0, log: log.clone() }, log)
    }
    pub fn endless(data: &[u8], from: usize, plan: Plan) -> (Self, Log) {
        let (mut s, l) = Self::new(data, plan);
        s.loop_from = Some(from);
        (s, l)
    }
}

/// What is behind the bytes read is nobody's
fn scribble(buf: &mut [u8]) {
    for (i, b) in buf.iter_mut().take(40).enumerate() {
        *b = [b'"', b'\n', 0xff, b':', b' ', b'-', 0x80, b'x'][i % 8];
    }
}

impl Read for SimRead {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let mut log = self.log.borrow_mut();
        log.reads += 1;
        if self.fault_done {
            log.reads_after_fault += 1;
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if let Some((at, n)) = self.plan.burst {
            if log.delivered >= at && self.bursts < n {
                self.bursts += 1;
                log.interrupts += 1;
                log.now_ms += 1;
                scribble(buf);
                return Err(ErrorKind::Interrupted.into());
            }
        }
        let act = if self.plan.acts.is_empty() { Act::Data(usize::MAX, 0) } else { self.plan.acts[self.step % self.plan.acts.len()] };
        self.step += 1;
        let mut want = match act {
            Act::Intr(d) if log.intr_run < 8 => {
                log.intr_run += 1;
                log.interrupts += 1;
                log.now_ms += d as u64;
                scribble(buf);
                return Err(match log.interrupts % 3 {
                    0 => io::Error::from_raw_os_error(4),
                    1 => io::Error::new(ErrorKind::Interrupted, "interrupted"),
                    _ => ErrorKind::Interrupted.into(),
                });
            }
            Act::Intr(_) => 1,
            Act::Data(n, d) => {
                if d > 0 {
                    log.delays += 1;
                    log.now_ms += d as u64;
                }
                n.max(1)
            }
        };
        log.intr_run = 0;
        if let Some((at, _)) = self.plan.burst {
            if at > log.delivered {
                want = want.min(at - log.delivered);
            }
        }
        if let Some(f) = self.plan.fault {
            if (!self.fault_done || f.sticky) && log.delivered >= f.at {
                self.fault_done = true;
                let at = log.delivered;
                scribble(buf);
                match f.kind.error(f.id) {
                    Some(e) => {
                        log.fired.push((at, match f.kind {
                            FaultKind::Err(k) => format!("{:?}", k),
                            k => format!("{:?}", k),
                        }));
                        return Err(e);
                    }
                    None => {
                        log.fired.push((at, "Panic".into()));
                        drop(log);
                        panic!("{}", PANIC);
                    }
                }
            }
            if !self.fault_done && f.at > log.delivered {
                want = want.min(f.at - log.delivered);
            }
        }
        if self.pos == self.data.len() {
            match self.loop_from {
                Some(f) if f < self.data.len() => self.pos = f,
                _ => {
                    log.eof_reads += 1;
                    return Ok(0);
                }
            }
        }
        let left = self.data.len() - self.pos;
        let n = want.min(buf.len()).min(left);
        if n < buf.len() && n < left {
            log.shorts += 1;
        }
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        // a reader may use the rest of the buffer as it likes
        scribble(&mut buf[n..]);
        self.pos += n;
        log.delivered += n;
        Ok(n)
    }
}

/// Make the refill seam follow this plan, recording each refill
pub fn install(plan: &Plan, log: &Log) {
    let log = log.clone();
    let chunks = plan.chunks.clone();
    let tail = plan.chunk_tail;
    let mut i = 0usize;
    yary::sim::set_chunk(Some(Box::new(move |d| {
        let mut l = log.borrow_mut();
        l.refills += 1;
        let at = l.delivered;
        if l.cuts.len() < 4096 {
            l.cuts.push(at);
        }
        let n = match &chunks {
            Some(c) if !c.is_empty() => {
                let k = if tail { i.min(c.len() - 1) } else { i % c.len() };
                i += 1;
                c[k]
            }
            _ => d,
        };
        l.largest = l.largest.max(n);
        l.greed = l.greed.max(n.saturating_sub(4 * at as usize));
        n
    })));
}

pub fn uninstall() {
    yary::sim::set_chunk(None);
}

/// A random delivery plan for content of this length; `cuts` are offsets
/// worth cutting the stream at
pub fn gen_plan(s: &mut Src, len: usize, hot: &[usize]) -> Plan {
    let mut p = Plan::whole();
    // refill boundaries
    match s.below(8) {
        0 => {
            // one cut
            let k = if !hot.is_empty() && s.coin() { hot[s.below(hot.len())] } else { s.below(len + 2) };
            p.chunks = Some(vec![k.max(1), 1 << 20]);
            p.chunk_tail = true;
        }
        1 => p.chunks = Some(vec![1]),
        2 => {
            let n = s.range(1, 17);
            p.chunks = Some(vec![n])
        }
        3 => {
            let n = s.range(2, 7);
            p.chunks = Some((0..n).map(|_| s.range(1, 24)).collect())
        }
        4 => {
            // several cuts, at interesting offsets
            let n = s.range(2, 5);
            let mut at: Vec<usize> = (0..n)
                .map(|_| if !hot.is_empty() && !s.one_in(4) { hot[s.below(hot.len())] } else { s.below(len + 2) })
                .collect();
            at.sort();
            at.dedup();
            let mut prev = 0;
            let mut c = Vec::new();
            for a in at {
                if a > prev {
                    c.push(a - prev);
                    prev = a;
                }
            }
            c.push(1 << 20);
            p.chunks = Some(c);
            p.chunk_tail = true;
        }
        5 => {
            let a = s.below(len + 1).max(1);
            let n = s.range(1, 5);
            p.chunks = Some(vec![a, n]);
            p.chunk_tail = true;
        }
        6 => {
            let n = s.range(20, 200);
            p.chunks = Some(vec![n])
        }
        _ => {}
    }
    // reads
    match s.below(4) {
        0 => {}
        1 => {
            let n = s.range(1, 9);
            p.acts = vec![Act::Data(n, s.below(50) as u32)]
        }
        _ => {
            let n = s.range(1, 8);
            p.acts = (0..n)
                .map(|_| match s.below(5) {
                    0 => Act::Data(usize::MAX, 0),
                    1 | 2 => Act::Data(s.range(1, 12), s.below(200) as u32),
                    3 => Act::Data(1, 0),
                    _ => Act::Intr(s.below(20) as u32),
                })
                .collect();
        }
    }
    if s.one_in(16) {
        let at = if !hot.is_empty() && s.coin() { hot[s.below(hot.len())] } else { s.below(len + 1) };
        p.burst = Some((at, [9, 17, 33, 65, 150, 300, 1100][s.below(7)]));
    }
    p
}

pub fn gen_fault(s: &mut Src, len: usize, hot: &[usize]) -> Fault {
    let at = match s.below(4) {
        0 if !hot.is_empty() => hot[s.below(hot.len())].min(len),
        1 => len,
        _ => s.below(len + 1),
    };
    let kind = match s.below(8) {
        0 => FaultKind::Bare(KINDS[s.below(KINDS.len())]),
        1 => FaultKind::Os(OS[s.below(OS.len())]),
        _ => FaultKind::Err(KINDS[s.below(KINDS.len())]),
    };
    Fault { at, kind, sticky: s.coin(), id: s.below(1000) as u32 }
}
