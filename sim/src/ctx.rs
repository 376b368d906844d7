//! The simulator core: one seed -> one choice tape -> one execution.
//!
//! Every decision (workload, schedule, fault) is drawn from the tape. In
//! generation mode values come from a PRNG seeded by (VERIF_SEED, property,
//! run index) and are recorded; in replay mode they come from a recorded tape
//! (past its end every draw is 0). 0 always is the simplest choice: no fault,
//! no switch, the shortest text. Recording and logging never draw.

use std::{
    collections::BTreeMap,
    fs::File,
    io::Write as _,
    sync::{Arc, Mutex, MutexGuard},
};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}

/// Steps (sink calls) one operation may take.
const STEPS: u64 = 6_000_000;

pub fn mix(a: u64, b: u64) -> u64 {
    let mut r = Rng::new(a ^ b.wrapping_mul(0xD6E8_FEB8_6659_FD93));
    r.next();
    r.next()
}

/// Fault kinds, counted when they actually fire inside an operation.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
#[repr(usize)]
pub enum F {
    Short,
    Interrupted,
    WouldBlock,
    IoError,
    Zero,
    FmtReject,
    SinkPanic,
    Crash,
    FlushError,
    DisplayError,
    DisplayPanic,
    Abandon,
    Fork,
    Preempt,
    AllocWindow,
    Storm,
    MsgLost,
    MsgTwice,
    MsgLate,
    Partition,
    Restart,
}
pub const NF: usize = 21;
pub const FNAMES: [&str; NF] = [
    "short_write",
    "interrupted",
    "would_block",
    "io_error",
    "zero_write",
    "fmt_sink_reject",
    "sink_panic",
    "crash",
    "flush_error",
    "display_error",
    "display_panic",
    "abandoned_adaptor",
    "fork",
    "preemption",
    "allocator_refusing_window",
    "persisting_fault",
    "message_lost",
    "message_duplicated",
    "message_reordered",
    "partition",
    "node_restart",
];

/// Panic payloads used by the simulator itself.
pub struct SimPanic(#[allow(dead_code)] pub u32);
pub struct BudgetPanic;

#[derive(Clone, Debug)]
pub struct Violation {
    pub class: &'static str,
    pub msg: String,
}
pub type R<T = ()> = Result<T, Violation>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $class:expr, $($arg:tt)*) => {
        if !$c {
            return Err($crate::ctx::Violation { class: $class, msg: format!($($arg)*) });
        }
    };
}

pub struct State {
    rng: Rng,
    replay: Option<Vec<u32>>,
    pos: usize,
    pub rec: Vec<u32>,
    pub spans: Vec<(usize, usize)>,
    open: Vec<usize>,
    pub verbose: bool,
    pub log: Vec<String>,
    pub hash: u64,
    pub events: u64,
    pub faults: [u64; NF],
    pub probes: BTreeMap<&'static str, u64>,
    pub steps: u64,
    pub budget: u64,
    pub violation: Option<Violation>,
    /// Distinct situations met (see `cover`).
    pub seen: std::collections::HashSet<u64>,
    pub forensic: Option<File>,
    pub next_id: u32,
}

#[derive(Clone)]
pub struct Ctx(pub Arc<Mutex<State>>);

impl Ctx {
    fn make(rng: Rng, replay: Option<Vec<u32>>, verbose: bool) -> Ctx {
        Ctx(Arc::new(Mutex::new(State {
            rng,
            replay,
            pos: 0,
            rec: Vec::with_capacity(256),
            spans: Vec::new(),
            open: Vec::new(),
            verbose,
            log: Vec::new(),
            hash: 0xcbf2_9ce4_8422_2325,
            events: 0,
            faults: [0; NF],
            probes: BTreeMap::new(),
            steps: 0,
            budget: STEPS,
            violation: None,
            seen: Default::default(),
            forensic: None,
            next_id: 0,
        })))
    }
    pub fn gen(seed: u64) -> Ctx {
        Ctx::make(Rng::new(seed), None, false)
    }
    pub fn replay(tape: Vec<u32>, verbose: bool) -> Ctx {
        Ctx::make(Rng::new(0), Some(tape), verbose)
    }
    pub fn st(&self) -> MutexGuard<'_, State> {
        match self.0.lock() {
            Ok(g) => g,
            Err(p) => p.into_inner(),
        }
    }
    /// Draw a value in 0..n.
    pub fn choose(&self, n: usize) -> usize {
        let mut s = self.st();
        let n = n.max(1) as u32;
        let v = match &s.replay {
            Some(t) => {
                let v = t.get(s.pos).copied().unwrap_or(0);
                s.pos += 1;
                v.min(n - 1)
            }
            None => {
                let r = s.rng.next();
                ((r >> 32) * n as u64 >> 32) as u32
            }
        };
        s.rec.push(v);
        if let Some(f) = &mut s.forensic {
            let _ = f.write_all(format!("{v}\n").as_bytes());
        }
        v as usize
    }
    /// True with probability num/den; a 0 draw is false.
    pub fn chance(&self, num: usize, den: usize) -> bool {
        self.choose(den) >= den - num.min(den)
    }
    /// lo..=hi, biased towards small.
    pub fn small(&self, lo: usize, hi: usize) -> usize {
        if hi <= lo {
            return lo;
        }
        let a = self.choose(hi - lo + 1);
        if self.chance(1, 2) {
            lo + a
        } else {
            lo + a / 2
        }
    }
    pub fn pick<'a, T>(&self, xs: &'a [T]) -> &'a T {
        &xs[self.choose(xs.len())]
    }
    /// Marks a group of draws that belong together, for minimisation.
    pub fn span<T>(&self, f: impl FnOnce() -> T) -> T {
        {
            let mut s = self.st();
            let p = s.rec.len();
            s.open.push(p);
        }
        let r = f();
        let mut s = self.st();
        if let Some(a) = s.open.pop() {
            let b = s.rec.len();
            if b > a {
                s.spans.push((a, b));
            }
        }
        r
    }
    pub fn fault(&self, f: F) {
        let mut s = self.st();
        s.faults[f as usize] += 1;
        s.hash = hstep(s.hash, 0xF00 + f as u64);
    }
    pub fn probe(&self, name: &'static str) {
        *self.st().probes.entry(name).or_insert(0) += 1;
    }
    pub fn probe_if(&self, c: bool, name: &'static str) {
        if c {
            self.probe(name)
        }
    }
    /// Records a situation for the coverage count. Never draws or hashes.
    pub fn cover(&self, v: u64) {
        self.st().seen.insert(hstep(0x51, v));
    }
    /// Records an event: hashed always, rendered only when verbose.
    pub fn ev(&self, kind: &'static str, a: u64, b: u64, text: impl FnOnce() -> String) {
        let mut s = self.st();
        let mut h = s.hash;
        for c in kind.bytes() {
            h = hstep(h, c as u64);
        }
        s.hash = hstep(hstep(h, a), b);
        s.events += 1;
        if s.verbose {
            let line = format!("{:>5} {kind}: {}", s.steps, text());
            s.log.push(line);
            if s.log.len() > 600_000 {
                s.log.drain(100_000..500_000);
            }
        }
    }
    /// One simulated step (a sink call). Exceeding the budget means that the
    /// code under test no longer makes progress.
    pub fn step(&self) {
        let over = {
            let mut s = self.st();
            s.steps += 1;
            s.steps > s.budget
        };
        if over {
            std::panic::resume_unwind(Box::new(BudgetPanic));
        }
    }
    /// A new operation: it gets the whole step budget.
    pub fn refuel(&self) {
        let mut s = self.st();
        s.budget = s.steps + STEPS;
    }
    /// For an operation on very much text.
    pub fn refuel_for(&self, bytes: usize) {
        let mut s = self.st();
        s.budget = s.steps + STEPS + 16 * bytes as u64;
    }
    pub fn steps(&self) -> u64 {
        self.st().steps
    }
    pub fn id(&self) -> u32 {
        let mut s = self.st();
        s.next_id += 1;
        s.next_id
    }
    pub fn flag(&self, class: &'static str, msg: String) {
        let mut s = self.st();
        if s.violation.is_none() {
            s.violation = Some(Violation { class, msg });
        }
    }
}

pub fn hstep(h: u64, v: u64) -> u64 {
    (h ^ v).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(5)
}

pub fn hbytes(b: &[u8]) -> u64 {
    b.iter().fold(0x1234_5678, |h, &c| hstep(h, c as u64))
}
